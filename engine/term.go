package main

// Integer and boolean terms. Integer terms are polynomials with big.Int
// coefficients over atoms, kept in a hash-consed normal form; boolean terms are
// hash-consed too. Everything lives in a Ctx (one per harness run).

import (
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
	b2 = big.NewInt(2)
)

func bi(v int64) *big.Int { return big.NewInt(v) }

func pow2(k uint) *big.Int { return new(big.Int).Lsh(b1, k) }

type AtomKind int

const (
	AVar   AtomKind = iota // nondeterministic input
	ADiv                   // floor(args[0] / m)
	ATab                   // table lookup on a small-domain poly
	AGate                  // cond ? args[0] : 0
	AUF                    // uninterpreted function of args
	ABit                   // bitwise op on two non-negative polys (name: and, or, xor)
	AField                 // canonical integer of a field polynomial
	AEnc                   // integer of the encoding of a group term
)

type Atom struct {
	id   int
	kind AtomKind
	name string
	key  string
	args []*Poly
	m    *big.Int
	orig *Poly // ADiv: the same value as floor(orig/om)
	om   *big.Int
	cond *Bool
	vals []*big.Int // ATab: value per base domain index
	base *Base      // ATab
	lo   *big.Int
	hi   *big.Int
	dom  []int64 // AVar: explicit domain (nil: lo..hi)
	fp   *FPoly
	grp  *GTerm
	wid  int // for UF ints: width in bits
	deps []int32
}

// Base is a poly with a small value domain on which tables are built.
type Base struct {
	p        *Poly
	dom      []int64
	idx      map[int64]int
	explicit bool
}

type term struct {
	m int32
	c *big.Int
}

type Poly struct {
	id     int
	t      []term // sorted by mono id; mono 0 is the unit
	bd     bool
	tight  bool // the bounds are better than those of the terms
	lo, hi *big.Int
	base   *Base
	baseOK int8
	depth  int
}

type mono struct {
	id   int32
	vars []int32 // sorted atom ids, with repetition
}

type BKind int

const (
	BTrue BKind = iota
	BFalse
	BVar
	BNot
	BAnd
	BOr
	BGE0
	BEQ0
	BSet   // base in set
	BFZero // field polynomial == 0
	BGZero // group term == 0
	BPred  // named predicate over polys
)

type Bool struct {
	id   int
	k    BKind
	a    []*Bool
	p    *Poly
	base *Base
	set  []bool
	fp   *FPoly
	grp  *GTerm
	name string
	args []*Poly
	neg  *Bool
	w    int // BEQ0: |p| < 2^w, when known
}

type Ctx struct {
	modDepth int // splits under way
	ticks    int64
	until    time.Time // give up then (zero: never)
	noTab    int
	maxDom   int
	atoms    []*Atom
	atomKey  map[string]*Atom
	monos    []*mono
	monoKey  map[string]*mono
	polys    []*Poly
	polyKey  map[string]*Poly
	small    map[int64]*Poly
	bools    []*Bool
	boolKey  map[string]*Bool
	bases    map[int]*Base
	tT, tF   *Bool
	fresh    int
	f        *FCtx
	subMemo  map[string]map[int]*Poly
	names    map[string]bool
	gatoms   map[string]*GAtom
	gconst   map[string][2]*big.Int
	known    map[int]*Bool // atom-independent facts (axioms) added by contracts
	axioms   []*Bool
	order    map[string]int
}

func NewCtx() *Ctx {
	c := &Ctx{maxDom: maxDomDefault, atomKey: map[string]*Atom{}, monoKey: map[string]*mono{}, polyKey: map[string]*Poly{}, small: map[int64]*Poly{}, boolKey: map[string]*Bool{}, bases: map[int]*Base{}, names: map[string]bool{}, gatoms: map[string]*GAtom{}}
	c.monos = append(c.monos, &mono{})
	c.monoKey[""] = c.monos[0]
	c.tT = c.mkBool(&Bool{k: BTrue}, "T")
	c.tF = c.mkBool(&Bool{k: BFalse}, "F")
	c.f = newFCtx(c)
	return c
}

// ---------- polynomials

func (c *Ctx) monoOf(vars []int32) *mono {
	var sb strings.Builder
	for _, v := range vars {
		sb.WriteString(strconv.Itoa(int(v)))
		sb.WriteByte(',')
	}
	k := sb.String()
	if m, ok := c.monoKey[k]; ok {
		return m
	}
	m := &mono{id: int32(len(c.monos)), vars: append([]int32(nil), vars...)}
	c.monos = append(c.monos, m)
	c.monoKey[k] = m
	return m
}

// memHigh is set while the process uses too much memory.
var memHigh int32

// tick gives up when the time or the memory for this run is used up.
func (c *Ctx) tick() {
	c.ticks++
	if c.ticks&(1<<13-1) != 0 {
		return
	}
	if rootCtx.Err() != nil {
		panic(bail(stopped))
	}
	if !c.until.IsZero() && time.Now().After(c.until) {
		panic(bail("time budget exceeded"))
	}
	if atomic.LoadInt32(&memHigh) != 0 && c.ticks > 1<<22 {
		panic(bail("memory budget exceeded"))
	}
}

// watchMemory sets memHigh while the heap is above the limit.
func watchMemory() {
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 14<<30 {
			runtime.GC()
			runtime.ReadMemStats(&m)
		}
		if m.HeapAlloc > 14<<30 {
			atomic.StoreInt32(&memHigh, 1)
		} else {
			atomic.StoreInt32(&memHigh, 0)
		}
	}
}

func (c *Ctx) intern(t []term) *Poly {
	c.tick()
	buf := make([]byte, 0, 16*len(t))
	for _, x := range t {
		buf = strconv.AppendInt(buf, int64(x.m), 36)
		buf = append(buf, ':')
		buf = x.c.Append(buf, 36)
		buf = append(buf, ';')
	}
	k := string(buf)
	if p, ok := c.polyKey[k]; ok {
		return p
	}
	p := &Poly{id: len(c.polys), t: t}
	c.polys = append(c.polys, p)
	c.polyKey[k] = p
	return p
}

func (c *Ctx) Int(v int64) *Poly {
	if p, ok := c.small[v]; ok {
		return p
	}
	p := c.Big(bi(v))
	c.small[v] = p
	return p
}

func (c *Ctx) Big(v *big.Int) *Poly {
	if v.Sign() == 0 {
		return c.intern(nil)
	}
	return c.intern([]term{{0, new(big.Int).Set(v)}})
}

// Const returns the value if p is a constant.
func (p *Poly) Const() (*big.Int, bool) {
	if len(p.t) == 0 {
		return b0, true
	}
	if len(p.t) == 1 && p.t[0].m == 0 {
		return p.t[0].c, true
	}
	return nil, false
}

func (p *Poly) IsConst() bool { _, ok := p.Const(); return ok }

func (p *Poly) Int64() (int64, bool) {
	v, ok := p.Const()
	if !ok || !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

func (p *Poly) cst() *big.Int {
	if len(p.t) > 0 && p.t[0].m == 0 {
		return p.t[0].c
	}
	return b0
}

func (c *Ctx) fromMap(m map[int32]*big.Int) *Poly {
	t := make([]term, 0, len(m))
	for k, v := range m {
		if v.Sign() != 0 {
			t = append(t, term{k, v})
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].m < t[j].m })
	return c.tabNorm(c.intern(t))
}

// lin returns a + k*b.
func (c *Ctx) lin(a *Poly, k *big.Int, b *Poly) *Poly {
	if k.Sign() == 0 || len(b.t) == 0 {
		return a
	}
	if len(a.t) == 0 && k.IsInt64() && k.Int64() == 1 {
		return b
	}
	t := make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].m < b.t[j].m):
			t = append(t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].m < a.t[i].m:
			t = append(t, term{b.t[j].m, new(big.Int).Mul(k, b.t[j].c)})
			j++
		default:
			v := new(big.Int).Mul(k, b.t[j].c)
			v.Add(v, a.t[i].c)
			if v.Sign() != 0 {
				t = append(t, term{a.t[i].m, v})
			}
			i++
			j++
		}
	}
	r := c.intern(t)
	if !a.IsConst() && !b.IsConst() {
		r = c.tabNorm(r)
	}
	return r
}

func (c *Ctx) Add(a, b *Poly) *Poly { return c.lin(a, b1, b) }
func (c *Ctx) Sub(a, b *Poly) *Poly { return c.lin(a, bi(-1), b) }
func (c *Ctx) Neg(a *Poly) *Poly    { return c.lin(c.Int(0), bi(-1), a) }
func (c *Ctx) Scale(k *big.Int, a *Poly) *Poly {
	return c.lin(c.Int(0), k, a)
}
func (c *Ctx) AddC(a *Poly, k int64) *Poly { return c.lin(a, b1, c.Int(k)) }

func (c *Ctx) mulMono(a, b int32) int32 {
	c.tick()
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	x, y := c.monos[a].vars, c.monos[b].vars
	v := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		if j >= len(y) || (i < len(x) && x[i] <= y[j]) {
			v = append(v, x[i])
			i++
		} else {
			v = append(v, y[j])
			j++
		}
	}
	return c.monoOf(v).id
}

func (c *Ctx) Mul(a, b *Poly) *Poly {
	if k, ok := a.Const(); ok {
		return c.Scale(k, b)
	}
	if k, ok := b.Const(); ok {
		return c.Scale(k, a)
	}
	// both functions of one small base: tabulate
	if x := c.baseOf(a); x != nil {
		if y := c.baseOf(b); y != nil && x.p == y.p {
			return c.tabulate(x, func(v int64) *big.Int {
				return new(big.Int).Mul(c.evalBase(a, x, v), c.evalBase(b, x, v))
			})
		}
	}
	m := map[int32]*big.Int{}
	for _, x := range a.t {
		for _, y := range b.t {
			k := c.mulMono(x.m, y.m)
			v := new(big.Int).Mul(x.c, y.c)
			if o, ok := m[k]; ok {
				o.Add(o, v)
			} else {
				m[k] = v
			}
		}
	}
	return c.fromMap(m)
}

func (c *Ctx) atomPoly(a *Atom) *Poly {
	return c.intern([]term{{c.monoOf([]int32{int32(a.id)}).id, b1}})
}

// single returns the atom if p == k*atom + d.
func (c *Ctx) single(p *Poly) (a *Atom, k *big.Int, d *big.Int) {
	d = b0
	t := p.t
	if len(t) > 0 && t[0].m == 0 {
		d = t[0].c
		t = t[1:]
	}
	if len(t) != 1 {
		return nil, nil, nil
	}
	vs := c.monos[t[0].m].vars
	if len(vs) != 1 {
		return nil, nil, nil
	}
	return c.atoms[vs[0]], t[0].c, d
}

func (c *Ctx) newAtom(a *Atom) *Atom {
	if o, ok := c.atomKey[a.key]; ok {
		return o
	}
	a.id = len(c.atoms)
	c.atoms = append(c.atoms, a)
	c.atomKey[a.key] = a
	return a
}

// Var makes a nondeterministic integer in [lo,hi].
func (c *Ctx) Var(name string, lo, hi *big.Int) *Poly {
	a := c.newAtom(&Atom{kind: AVar, name: name, key: "v:" + name, lo: lo, hi: hi})
	return c.atomPoly(a)
}

func (c *Ctx) VarDom(name string, dom []int64) *Poly {
	a := c.newAtom(&Atom{kind: AVar, name: name, key: "v:" + name, lo: bi(dom[0]), hi: bi(dom[len(dom)-1]), dom: dom})
	return c.atomPoly(a)
}

func polysKey(ps []*Poly) string {
	buf := make([]byte, 0, 6*len(ps))
	for _, p := range ps {
		buf = strconv.AppendInt(buf, int64(p.id), 36)
		buf = append(buf, ',')
	}
	return string(buf)
}

// UF is an uninterpreted integer function with result in [lo,hi].
func (c *Ctx) UF(name string, args []*Poly, lo, hi *big.Int) *Poly {
	a := c.newAtom(&Atom{kind: AUF, name: name, key: "f:" + name + "(" + polysKey(args) + ")", args: args, lo: lo, hi: hi})
	return c.atomPoly(a)
}

// Div is floor(p/m) for m > 0.
func (c *Ctx) Div(p *Poly, m *big.Int) *Poly {
	if m.Sign() <= 0 {
		panic("Div: non-positive divisor")
	}
	if m.Cmp(b1) == 0 {
		return p
	}
	if k, ok := p.Const(); ok {
		q := new(big.Int)
		new(big.Int).DivMod(k, m, new(big.Int))
		q.Div(k, m) // Euclidean == floor for positive m
		return c.Big(q)
	}
	if q := c.flatten(p, m); q != nil {
		return q
	}
	qt, rt := splitCoefs(p, m)
	q := c.intern(qt)
	r := c.intern(rt)
	if len(rt) == 0 {
		return q
	}
	return c.Add(q, c.divRem(r, m))
}

// splitCoefs: p = m*q + r, coefficient by coefficient.
func splitCoefs(p *Poly, m *big.Int) (qt, rt []term) {
	for _, x := range p.t {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(x.c, m, r)
		// centred remainder: small negative coefficients stay small
		if k := new(big.Int).Lsh(r, 1).Cmp(m); x.m != 0 && (k > 0 || k == 0 && x.c.Sign() < 0) {
			q.Add(q, b1)
			r.Sub(r, m)
		}
		if q.Sign() != 0 {
			qt = append(qt, term{x.m, q})
		}
		if r.Sign() != 0 {
			rt = append(rt, term{x.m, r})
		}
	}
	return
}

// flatten: floor((R+floor(X/a))/m) = floor((a*R+X)/(a*m)) for the division
// with the largest divisor that enters with coefficient one.
func (c *Ctx) flatten(r *Poly, m *big.Int) *Poly {
	var at *Atom
	tie := false
	for _, x := range r.t {
		vs := c.monos[x.m].vars
		if len(vs) == 1 && x.c.Cmp(b1) == 0 && c.atoms[vs[0]].kind == ADiv {
			b := c.atoms[vs[0]]
			if at == nil || b.m.Cmp(at.m) > 0 {
				at, tie = b, false
			} else if b.m.Cmp(at.m) == 0 {
				tie = true
			}
		}
	}
	if at == nil || tie {
		return nil
	}
	x := c.lin(at.args[0], at.m, c.Sub(r, c.atomPoly(at)))
	n := len(c.atoms)
	q := c.Div(x, new(big.Int).Mul(at.m, m))
	// remember the shallower form of a new division for the solvers
	for i := n; i < len(c.atoms); i++ {
		if a := c.atoms[i]; a.kind == ADiv && a.orig == nil {
			rest := c.Sub(q, c.atomPoly(a))
			if len(rest.t) < len(q.t) && !c.hasAtom(rest, a) {
				// a = floor((r - m*rest)/m)
				a.orig, a.om = c.lin(r, new(big.Int).Neg(m), rest), m
				if lo, hi := c.Bounds(a.orig); lo != nil {
					lo, hi = new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
					if a.lo == nil {
						a.lo, a.hi = lo, hi
					} else {
						if lo.Cmp(a.lo) > 0 {
							a.lo = lo
						}
						if hi.Cmp(a.hi) < 0 {
							a.hi = hi
						}
					}
				}
			}
		}
	}
	return q
}

func (c *Ctx) hasAtom(p *Poly, a *Atom) bool {
	for _, x := range p.t {
		for _, v := range c.monos[x.m].vars {
			if int(v) == a.id {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) divRem(r *Poly, m *big.Int) *Poly {
	if k, ok := r.Const(); ok {
		return c.Big(new(big.Int).Div(k, m))
	}
	// gcd of non-constant coefficients and m
	g := new(big.Int).Set(m)
	for _, x := range r.t {
		if x.m != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(x.c))
		}
	}
	if g.Cmp(b1) > 0 {
		var t []term
		for _, x := range r.t {
			if v := new(big.Int).Div(x.c, g); v.Sign() != 0 {
				t = append(t, term{x.m, v})
			}
		}
		return c.Div(c.intern(t), new(big.Int).Div(m, g))
	}
	lo, hi := c.Bounds(r)
	if lo != nil && hi != nil {
		ql, qh := new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
		if ql.Cmp(qh) == 0 {
			return c.Big(ql)
		}
	}
	if b := c.baseOf(r); b != nil && (len(b.dom) <= 40 || b.explicit) {
		return c.tabulate(b, func(v int64) *big.Int { return new(big.Int).Div(c.evalBase(r, b, v), m) })
	}
	// Terms that contribute less than one unit and whose drop cannot change the
	// quotient: r = g*s + t with 0 <= t < g, g | m, g | coefficients of s.
	if q := c.divDropLow(r, m); q != nil {
		return q
	}
	at := c.newAtom(&Atom{kind: ADiv, key: "d:" + strconv.Itoa(r.id) + "/" + m.Text(36), args: []*Poly{r}, m: new(big.Int).Set(m)})
	if at.lo == nil && lo != nil && hi != nil {
		at.lo, at.hi = new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
	}
	return c.atomPoly(at)
}

// divDropLow handles r = g*s + t with 0<=t<g where g>1 divides m.
func (c *Ctx) divDropLow(r *Poly, m *big.Int) *Poly {
	if len(r.t) < 2 {
		return nil
	}
	// candidate g: gcd(m, c) for each coefficient c, try descending
	type cand struct{ g *big.Int }
	seen := map[string]bool{}
	var gs []*big.Int
	for _, x := range r.t {
		g := new(big.Int).GCD(nil, nil, m, new(big.Int).Abs(x.c))
		if g.Cmp(b1) > 0 && !seen[g.String()] {
			seen[g.String()] = true
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Cmp(gs[j]) > 0 })
	for _, g := range gs {
		var st, tt []term
		fail := false
		for _, x := range r.t {
			if new(big.Int).Mod(x.c, g).Sign() == 0 {
				st = append(st, term{x.m, new(big.Int).Div(x.c, g)})
			} else if x.m == 0 {
				q, rr := new(big.Int), new(big.Int)
				q.DivMod(x.c, g, rr)
				if q.Sign() != 0 {
					st = append(st, term{0, q})
				}
				if rr.Sign() != 0 {
					tt = append(tt, term{0, rr})
				}
			} else if x.c.Sign() < 0 || x.c.CmpAbs(g) >= 0 {
				fail = true // too large or negative for the low part
				break
			} else {
				tt = append(tt, x)
			}
		}
		if fail {
			continue
		}
		if len(tt) == 0 || len(st) == 0 {
			continue
		}
		t := c.intern(tt)
		lo, hi := c.Bounds(t)
		if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(g) >= 0 {
			continue
		}
		return c.Div(c.intern(st), new(big.Int).Div(m, g))
	}
	return nil
}

// Mod is p - m*floor(p/m).
func (c *Ctx) Mod(p *Poly, m *big.Int) *Poly {
	if k, ok := p.Const(); ok {
		return c.Big(new(big.Int).Mod(k, m))
	}
	lo, hi := c.Bounds(p)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return p
	}
	if m.Cmp(fieldP) == 0 && c.fieldy(p) {
		if q, ok := c.intToF(p); ok {
			return c.FieldInt(q)
		}
		if g := c.firstGate(p); g != nil && c.modDepth < 2 {
			c.modDepth++
			x := &Exec{c: c}
			r := c.Ite(g, c.Mod(x.assumeGate(p, g, true), m), c.Mod(x.assumeGate(p, g, false), m))
			c.modDepth--
			return r
		}
	}
	_, t := splitCoefs(p, m)
	r := c.intern(t)
	if b := c.baseOf(r); b != nil && (len(b.dom) <= 40 || b.explicit) {
		return c.tabulate(b, func(v int64) *big.Int { return new(big.Int).Mod(c.evalBase(r, b, v), m) })
	}
	lo, hi = c.Bounds(r)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return r
	}
	return c.lin(r, new(big.Int).Neg(m), c.Div(r, m))
}

// ---------- intervals

func (c *Ctx) monoBounds(id int32) (lo, hi *big.Int) {
	lo, hi = b1, b1
	vs := c.monos[id].vars
	for i := 0; i < len(vs); i++ {
		a := c.atoms[vs[i]]
		if a.lo == nil || a.hi == nil {
			return nil, nil
		}
		al, ah := a.lo, a.hi
		// even powers
		n := 1
		for i+1 < len(vs) && vs[i+1] == vs[i] {
			n++
			i++
		}
		if n > 1 {
			pl, ph := new(big.Int).Exp(al, bi(int64(n)), nil), new(big.Int).Exp(ah, bi(int64(n)), nil)
			if n%2 == 0 {
				mx := pl
				if ph.Cmp(mx) > 0 {
					mx = ph
				}
				mn := pl
				if ph.Cmp(mn) < 0 {
					mn = ph
				}
				if al.Sign() <= 0 && ah.Sign() >= 0 {
					mn = b0
				}
				al, ah = mn, mx
			} else {
				al, ah = pl, ph
			}
		}
		lo, hi = mulIv(lo, hi, al, ah)
	}
	return
}

func mulIv(a, b, x, y *big.Int) (lo, hi *big.Int) {
	for _, u := range []*big.Int{a, b} {
		for _, v := range []*big.Int{x, y} {
			p := new(big.Int).Mul(u, v)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return
}

func (c *Ctx) termwise(p *Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, x := range p.t {
		ml, mh := c.monoBounds(x.m)
		if ml == nil {
			return nil, nil
		}
		u, v := new(big.Int).Mul(x.c, ml), new(big.Int).Mul(x.c, mh)
		if x.c.Sign() < 0 {
			u, v = v, u
		}
		lo.Add(lo, u)
		hi.Add(hi, v)
	}
	return
}

// Bounds returns an interval for p (nil: unbounded). It recognises remainders
// t*(Q - m*floor(Q/m)) inside p.
func (c *Ctx) Bounds(p *Poly) (lo, hi *big.Int) {
	if p.bd {
		return p.lo, p.hi
	}
	lo, hi = c.termwise(p)
	n := len(c.divsOf(p))
	if n > 4 {
		n = 4
	}
	for skip := 0; skip < n; skip++ {
		u, v := c.boundsPath(p, skip)
		if u == nil {
			continue
		}
		if lo == nil {
			lo, hi = u, v
			continue
		}
		if u.Cmp(lo) > 0 {
			lo = u
		}
		if v.Cmp(hi) < 0 {
			hi = v
		}
	}
	p.bd, p.lo, p.hi = true, lo, hi
	return
}

// divsOf: indices of terms k*floor(Q/m) with gcd(k,m) > 1, newest first.
func (c *Ctx) divsOf(p *Poly) []int {
	var divs []int
	for i, x := range p.t {
		vs := c.monos[x.m].vars
		if len(vs) == 1 && c.atoms[vs[0]].kind == ADiv {
			a := c.atoms[vs[0]]
			if new(big.Int).GCD(nil, nil, new(big.Int).Abs(x.c), a.m).Cmp(b1) > 0 {
				divs = append(divs, i)
			}
		}
	}
	sort.Slice(divs, func(i, j int) bool { return p.t[divs[i]].m > p.t[divs[j]].m })
	return divs
}

// boundsPath repeatedly splits a remainder off p, starting at the skip-th
// newest division, and returns the best interval met on the way.
func (c *Ctx) boundsPath(p *Poly, skip int) (lo, hi *big.Int) {
	accLo, accHi := new(big.Int), new(big.Int)
	for step := 0; step < 80; step++ {
		divs := c.divsOf(p)
		if step > 0 {
			skip = 0
			var u, v *big.Int
			if p.bd {
				u, v = p.lo, p.hi
			} else {
				u, v = c.termwise(p)
			}
			if u != nil {
				u, v = new(big.Int).Add(u, accLo), new(big.Int).Add(v, accHi)
				if lo == nil || u.Cmp(lo) > 0 {
					lo = u
				}
				if hi == nil || v.Cmp(hi) < 0 {
					hi = v
				}
			}
			if p.bd {
				return
			}
		}
		ok := false
		for ; skip < len(divs); skip++ {
			x := p.t[divs[skip]]
			a := c.atoms[c.monos[x.m].vars[0]]
			// p = t*(floor(Q/(m/g)) - g*D) + R with 0 <= floor(Q/(m/g)) - g*D < g
			g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(x.c), a.m)
			t := new(big.Int).Div(x.c, g)
			t.Neg(t)
			E := a.args[0]
			if g.Cmp(a.m) != 0 {
				E = c.Div(E, new(big.Int).Div(a.m, g))
			}
			rem := c.lin(E, new(big.Int).Neg(g), c.atomPoly(a))
			R := c.lin(p, new(big.Int).Neg(t), rem)
			if len(R.t) > len(p.t)+2 {
				continue
			}
			u, v := new(big.Int), new(big.Int).Mul(t, new(big.Int).Sub(g, b1))
			if t.Sign() < 0 {
				u, v = v, u
			}
			accLo.Add(accLo, u)
			accHi.Add(accHi, v)
			p = R
			ok = true
			break
		}
		if !ok {
			return
		}
	}
	return
}

// ---------- small domains and tables

const maxDomDefault = 300

func (c *Ctx) mkBase(p *Poly, dom []int64) *Base {
	if b, ok := c.bases[p.id]; ok {
		return b
	}
	b := &Base{p: p, dom: dom, idx: map[int64]int{}}
	for i, v := range dom {
		b.idx[v] = i
	}
	c.bases[p.id] = b
	return b
}

func (c *Ctx) atomBase(a *Atom) *Base {
	if a.kind == ATab {
		return a.base
	}
	if a.lo == nil || a.hi == nil {
		return nil
	}
	p := c.atomPoly(a)
	if b, ok := c.bases[p.id]; ok {
		return b
	}
	if a.dom != nil {
		b := c.mkBase(p, a.dom)
		b.explicit = true
		return b
	}
	if a.kind == ADiv {
		if b := c.baseOf(a.args[0]); b != nil {
			return b
		}
	}
	w := new(big.Int).Sub(a.hi, a.lo)
	if !w.IsInt64() || w.Int64() >= int64(c.maxDom) || !a.lo.IsInt64() {
		return nil
	}
	var dom []int64
	for v := a.lo.Int64(); v <= a.hi.Int64(); v++ {
		dom = append(dom, v)
	}
	return c.mkBase(p, dom)
}

// baseOf: the small-domain base p is a function of, or nil.
func (c *Ctx) baseOf(p *Poly) *Base {
	if p.baseOK != 0 {
		return p.base
	}
	p.baseOK = 1
	if p.IsConst() {
		return nil
	}
	var b *Base
	for _, x := range p.t {
		for _, v := range c.monos[x.m].vars {
			ab := c.atomBase(c.atoms[v])
			if ab == nil {
				b = nil
				goto own
			}
			if b == nil {
				b = ab
			} else if b.p != ab.p {
				b = nil
				goto own
			}
		}
	}
	if b != nil {
		p.base = b
		return b
	}
own:
	// p itself has a small interval: use p - const, scaled, as base
	lo, hi := c.Bounds(p)
	if lo == nil {
		return nil
	}
	w := new(big.Int).Sub(hi, lo)
	if !w.IsInt64() || w.Int64() >= int64(c.maxDom) {
		return nil
	}
	// strip the constant so that p and p+k share a base
	k := p.cst()
	q := c.lin(p, new(big.Int).Neg(k), c.Int(1))
	if len(q.t) > 40 {
		return nil
	}
	// sign normalisation
	if q.t[0].c.Sign() < 0 {
		q = c.Neg(q)
	}
	if bb, ok := c.bases[q.id]; ok {
		p.base = bb
		return bb
	}
	ql, qh := c.Bounds(q)
	if ql == nil || !ql.IsInt64() || !qh.IsInt64() || qh.Int64()-ql.Int64() >= int64(c.maxDom) {
		return nil
	}
	var dom []int64
	for v := ql.Int64(); v <= qh.Int64(); v++ {
		dom = append(dom, v)
	}
	p.base = c.mkBase(q, dom)
	return p.base
}

// evalBase evaluates p (a function of b) at base value v.
func (c *Ctx) evalBase(p *Poly, b *Base, v int64) *big.Int {
	if k, ok := p.Const(); ok {
		return k
	}
	if p == b.p {
		return bi(v)
	}
	r := new(big.Int)
	// p may be +-b.p + const
	if a, _, _ := c.single(b.p); a == nil {
		c.noTab++
		d := c.Sub(p, b.p)
		e := c.Add(p, b.p)
		c.noTab--
		if k, ok := d.Const(); ok {
			return r.Add(bi(v), k)
		}
		if k, ok := e.Const(); ok {
			return r.Sub(k, bi(v))
		}
	}
	for _, x := range p.t {
		w := new(big.Int).Set(x.c)
		for _, av := range c.monos[x.m].vars {
			a := c.atoms[av]
			w.Mul(w, c.evalAtomBase(a, b, v))
		}
		r.Add(r, w)
	}
	return r
}

func (c *Ctx) evalAtomBase(a *Atom, b *Base, v int64) *big.Int {
	if x, _, _ := c.single(b.p); x == a {
		return bi(v)
	}
	switch a.kind {
	case ATab:
		if a.base.p == b.p {
			return a.vals[b.idx[v]]
		}
	case ADiv:
		return new(big.Int).Div(c.evalBase(a.args[0], b, v), a.m)
	}
	panic("evalAtomBase: atom is not a function of the base")
}

// tabulate builds the canonical poly of a function of base b.
func (c *Ctx) tabulate(b *Base, f func(int64) *big.Int) *Poly {
	n := len(b.dom)
	vals := make([]*big.Int, n)
	for i, v := range b.dom {
		vals[i] = f(v)
	}
	return c.tabPoly(b, vals)
}

func (c *Ctx) tabPoly(b *Base, vals []*big.Int) *Poly {
	n := len(vals)
	same := true
	for i := 1; i < n; i++ {
		if vals[i].Cmp(vals[0]) != 0 {
			same = false
			break
		}
	}
	if same {
		return c.Big(vals[0])
	}
	// linear?
	d0 := new(big.Int).Sub(vals[1], vals[0])
	w0 := bi(b.dom[1] - b.dom[0])
	if new(big.Int).Mod(d0, w0).Sign() == 0 {
		al := new(big.Int).Div(d0, w0)
		be := new(big.Int).Sub(vals[0], new(big.Int).Mul(al, bi(b.dom[0])))
		ok := true
		for i, v := range b.dom {
			x := new(big.Int).Mul(al, bi(v))
			x.Add(x, be)
			if x.Cmp(vals[i]) != 0 {
				ok = false
				break
			}
		}
		if ok {
			return c.lin(c.Big(be), al, b.p)
		}
	}
	// normalise: subtract first value, divide by gcd, first non-zero positive
	f0 := vals[0]
	g := new(big.Int)
	nv := make([]*big.Int, n)
	for i, v := range vals {
		nv[i] = new(big.Int).Sub(v, f0)
		g.GCD(nil, nil, g, new(big.Int).Abs(nv[i]))
	}
	for _, v := range nv {
		if v.Sign() != 0 {
			if v.Sign() < 0 {
				g.Neg(g)
			}
			break
		}
	}
	var sb strings.Builder
	sb.WriteString("t:")
	sb.WriteString(strconv.Itoa(b.p.id))
	var lo, hi *big.Int
	for i := range nv {
		nv[i].Quo(nv[i], g)
		sb.WriteByte(',')
		sb.WriteString(nv[i].Text(36))
		if lo == nil || nv[i].Cmp(lo) < 0 {
			lo = nv[i]
		}
		if hi == nil || nv[i].Cmp(hi) > 0 {
			hi = nv[i]
		}
	}
	a := c.newAtom(&Atom{kind: ATab, key: sb.String(), base: b, vals: nv, lo: lo, hi: hi, args: []*Poly{b.p}})
	return c.lin(c.Big(f0), g, c.atomPoly(a))
}

// tabNorm recombines several table atoms over one base.
func (c *Ctx) tabNorm(p *Poly) *Poly {
	if c.noTab > 0 {
		return p
	}
	cnt := map[*Base]int{}
	var dup *Base
	for _, x := range p.t {
		vs := c.monos[x.m].vars
		if len(vs) != 1 {
			continue
		}
		a := c.atoms[vs[0]]
		if a.kind == ATab {
			cnt[a.base]++
			if cnt[a.base] == 2 {
				dup = a.base
			}
		}
	}
	if len(cnt) == 0 {
		return p
	}
	if dup == nil {
		for _, x := range p.t {
			vs := c.monos[x.m].vars
			if len(vs) != 1 || c.atoms[vs[0]].kind == ATab {
				continue
			}
			if b := c.atomBase(c.atoms[vs[0]]); b != nil && cnt[b] > 0 {
				dup = b
			}
		}
	}
	if dup == nil {
		return p
	}
	var rest, mine []term
	for _, x := range p.t {
		vs := c.monos[x.m].vars
		if len(vs) == 1 {
			if b := c.atomBase(c.atoms[vs[0]]); b == dup {
				mine = append(mine, x)
				continue
			}
		}
		rest = append(rest, x)
	}
	mp := c.intern(mine)
	np := c.tabulate(dup, func(v int64) *big.Int { return c.evalBase(mp, dup, v) })
	// np is canonical: at most one tab atom or linear
	t := map[int32]*big.Int{}
	for _, x := range rest {
		t[x.m] = x.c
	}
	for _, x := range np.t {
		if o, ok := t[x.m]; ok {
			t[x.m] = new(big.Int).Add(o, x.c)
		} else {
			t[x.m] = x.c
		}
	}
	var tt []term
	for k, v := range t {
		if v.Sign() != 0 {
			tt = append(tt, term{k, v})
		}
	}
	sort.Slice(tt, func(i, j int) bool { return tt[i].m < tt[j].m })
	r := c.intern(tt)
	if r == p {
		return p
	}
	return c.tabNorm(r)
}

// ---------- conditionals

func (c *Ctx) Ite(b *Bool, x, y *Poly) *Poly {
	if b == c.tT || x == y {
		return x
	}
	if b == c.tF {
		return y
	}
	d := c.Sub(x, y)
	r := c.Add(y, c.gate(b, d))
	// one of the two, whatever the correlation of the terms
	if xl, xh := c.Bounds(x); xl != nil && !r.IsConst() {
		if yl, yh := c.Bounds(y); yl != nil {
			if yl.Cmp(xl) < 0 {
				xl = yl
			}
			if yh.Cmp(xh) > 0 {
				xh = yh
			}
			if lo, hi := c.Bounds(r); lo != nil && (lo.Cmp(xl) < 0 || hi.Cmp(xh) > 0) {
				if lo.Cmp(xl) < 0 {
					lo = xl
				}
				if hi.Cmp(xh) > 0 {
					hi = xh
				}
				r.lo, r.hi = lo, hi
				r.tight = true
			}
		}
	}
	return r
}

// parity: [v is odd] or [v is even] of a digit v made of divisions, as a sum of
// divisions, which sums of bits then cancel.
func (c *Ctx) parity(b *Bool) *Poly {
	v := b.base
	if v.explicit || len(v.dom) < 2 || v.dom[len(v.dom)-1]-v.dom[0] != int64(len(v.dom)-1) {
		return nil
	}
	even := b.set[0] == (v.dom[0]&1 == 0)
	for i, s := range b.set {
		if s != (even == (v.dom[i]&1 == 0)) {
			return nil
		}
	}
	p := v.p
	for _, t := range v.p.t {
		if t.c.Cmp(bi(-1)) == 0 {
			p = c.Neg(v.p)
		}
	}
	for _, t := range v.p.t {
		vs := c.monos[t.m].vars
		if len(vs) != 1 || c.atoms[vs[0]].kind != ADiv && c.atoms[vs[0]].kind != AField {
			return nil
		}
	}
	q := c.lin(p, bi(-2), c.Div(p, bi(2)))
	if even {
		q = c.Sub(c.Int(1), q)
	}
	return q
}

func (c *Ctx) gate(b *Bool, p *Poly) *Poly {
	if len(p.t) == 0 || b == c.tF {
		return c.Int(0)
	}
	if b == c.tT {
		return p
	}
	if b.k == BSet {
		if k, ok := p.Const(); ok {
			if q := c.parity(b); q != nil {
				return c.Scale(k, q)
			}
		}
		if pb := c.baseOf(p); p.IsConst() || (pb != nil && pb.p == b.base.p) {
			return c.tabulate(b.base, func(v int64) *big.Int {
				if b.set[b.base.idx[v]] {
					if k, ok := p.Const(); ok {
						return k
					}
					return c.evalBase(p, b.base, v)
				}
				return b0
			})
		}
	}
	if b.k == BNot {
		// gate(!b,p) = p - gate(b,p)
		return c.Sub(p, c.gate(b.a[0], p))
	}
	if k, ok := p.Const(); ok {
		a := c.newAtom(&Atom{kind: AGate, key: "g:" + strconv.Itoa(b.id) + ":1", cond: b, args: []*Poly{c.Int(1)}, lo: b0, hi: b1})
		return c.Scale(k, c.atomPoly(a))
	}
	// content / sign normalisation
	g := new(big.Int)
	for _, x := range p.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(x.c))
	}
	if p.t[len(p.t)-1].c.Sign() < 0 {
		g.Neg(g)
	}
	var t []term
	for _, x := range p.t {
		t = append(t, term{x.m, new(big.Int).Quo(x.c, g)})
	}
	q := c.intern(t)
	at := &Atom{kind: AGate, key: "g:" + strconv.Itoa(b.id) + ":" + strconv.Itoa(q.id), cond: b, args: []*Poly{q}}
	if lo, hi := c.Bounds(q); lo != nil {
		at.lo, at.hi = lo, hi
		if lo.Sign() > 0 {
			at.lo = b0
		}
		if hi.Sign() < 0 {
			at.hi = b0
		}
	}
	return c.Scale(g, c.atomPoly(c.newAtom(at)))
}

// ---------- booleans

func (c *Ctx) mkBool(b *Bool, key string) *Bool {
	c.tick()
	if o, ok := c.boolKey[key]; ok {
		return o
	}
	b.id = len(c.bools)
	c.bools = append(c.bools, b)
	c.boolKey[key] = b
	return b
}

func (c *Ctx) B(v bool) *Bool {
	if v {
		return c.tT
	}
	return c.tF
}

func (c *Ctx) BoolVar(name string) *Bool {
	// booleans are 0/1 integers so that models and tables are uniform
	p := c.Var(name, b0, b1)
	return c.Not(c.EQ0(p))
}

func (c *Ctx) Pred(name string, args []*Poly) *Bool {
	return c.mkBool(&Bool{k: BPred, name: name, args: args}, "p:"+name+"("+polysKey(args)+")")
}

// zeroBits is p == 0 where p is an or (all operands are zero) or the xor of
// two values (they are equal); else nil.
func (c *Ctx) zeroBits(p *Poly) *Bool {
	if len(p.t) != 1 || p.t[0].m == 0 {
		return nil
	}
	vs := c.monos[p.t[0].m].vars
	if len(vs) != 1 || c.atoms[vs[0]].kind != ABit {
		return nil
	}
	a := c.atoms[vs[0]]
	if a.name == "or" {
		bs := make([]*Bool, len(a.args))
		for i, q := range a.args {
			bs[i] = c.Eq(q, c.Int(0))
		}
		return c.And(bs...)
	}
	if a.name == "xor" && len(a.args) == 2 {
		return c.Eq(a.args[0], a.args[1])
	}
	return nil
}

func (c *Ctx) setBool(base *Base, set []bool) *Bool {
	all, none := true, true
	buf := make([]byte, len(set))
	for i, s := range set {
		if s {
			none = false
			buf[i] = '1'
		} else {
			all = false
			buf[i] = '0'
		}
	}
	if all {
		return c.tT
	}
	if none {
		return c.tF
	}
	if e := c.zeroBits(base.p); e != nil {
		// a zero test of or and xor
		ones := 0
		z := false
		for i, s := range set {
			if s {
				ones++
				z = z || base.dom[i] == 0
			}
		}
		if z && ones == 1 {
			return e
		}
		if !z && ones == len(set)-1 {
			return c.Not(e)
		}
	}
	return c.mkBool(&Bool{k: BSet, base: base, set: set}, "s:"+strconv.Itoa(base.p.id)+":"+string(buf))
}

func (c *Ctx) Not(b *Bool) *Bool {
	if b.neg == nil {
		b.neg = c.not(b)
	}
	return b.neg
}

func (c *Ctx) not(b *Bool) *Bool {
	switch b.k {
	case BTrue:
		return c.tF
	case BFalse:
		return c.tT
	case BNot:
		return b.a[0]
	case BSet:
		s := make([]bool, len(b.set))
		for i := range s {
			s[i] = !b.set[i]
		}
		return c.setBool(b.base, s)
	case BGE0:
		// !(p>=0) == -p-1>=0
		return c.GE0(c.AddC(c.Neg(b.p), -1))
	case BAnd, BOr:
		// sets of values are closed under complement
		n := make([]*Bool, len(b.a))
		for i, u := range b.a {
			if u.k != BSet {
				n = nil
				break
			}
			n[i] = c.Not(u)
		}
		if n != nil {
			if b.k == BAnd {
				return c.Or(n...)
			}
			return c.And(n...)
		}
	}
	return c.mkBool(&Bool{k: BNot, a: []*Bool{b}}, "n:"+strconv.Itoa(b.id))
}

func (c *Ctx) nary(k BKind, xs []*Bool) *Bool {
	unit, zero := c.tT, c.tF
	if k == BOr {
		unit, zero = c.tF, c.tT
	}
	seen := map[int]*Bool{}
	sets := map[*Base][]bool{}
	var add func(x *Bool) bool
	add = func(x *Bool) bool {
		if x == zero {
			return false
		}
		if x == unit {
			return true
		}
		if x.k == k {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if x.k == BSet {
			s, ok := sets[x.base]
			if !ok {
				s = append([]bool(nil), x.set...)
			} else {
				for i := range s {
					if k == BAnd {
						s[i] = s[i] && x.set[i]
					} else {
						s[i] = s[i] || x.set[i]
					}
				}
			}
			sets[x.base] = s
			return true
		}
		seen[x.id] = x
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for b, s := range sets {
		y := c.setBool(b, s)
		if y == zero {
			return zero
		}
		if y != unit {
			seen[y.id] = y
		}
	}
	if m := c.joinEqs(k, seen); m != nil {
		if m == zero {
			return zero
		}
		ys := []*Bool{m}
		for _, x := range seen {
			ys = append(ys, x)
		}
		return c.nary(k, ys)
	}
	for _, x := range seen {
		if _, ok := seen[c.Not(x).id]; ok {
			return zero
		}
	}
	if k == BAnd {
		// drop the alternatives that the other conjuncts exclude
		for id, x := range seen {
			if x.k != BOr {
				continue
			}
			var keep []*Bool
			ch, holds := false, false
			for _, y := range x.a {
				if y.k != BSet {
					if _, ok := seen[y.id]; ok {
						holds = true
						break
					}
					if _, ok := seen[c.Not(y).id]; ok {
						ch = true
						continue
					}
				}
				s, ok := sets[y.base]
				if y.k != BSet || !ok {
					keep = append(keep, y)
					continue
				}
				some, all := false, true
				for i := range s {
					some = some || s[i] && y.set[i]
					all = all && (!s[i] || y.set[i])
				}
				switch {
				case all:
					holds = true
				case !some:
					ch = true
				default:
					keep = append(keep, y)
				}
			}
			if holds || ch {
				delete(seen, id)
				var ys []*Bool
				for _, z := range seen {
					ys = append(ys, z)
				}
				if !holds {
					ys = append(ys, c.nary(BOr, keep))
				}
				return c.nary(BAnd, ys)
			}
		}
	}
	if k == BOr && len(seen) == 2 {
		// Or(And(a..),And(b..)) with complementary difference
		var l []*Bool
		for _, x := range seen {
			l = append(l, x)
		}
		if r := c.orPair(l[0], l[1]); r != nil {
			return r
		}
	}
	if k == BOr && len(seen) >= 2 {
		// absorb: x | (x & y)
		for id, x := range seen {
			if x.k == BAnd {
				for _, y := range x.a {
					if _, ok := seen[y.id]; ok {
						delete(seen, id)
						break
					}
				}
			}
		}
		// x | (!x & y) = x | y
		for id, x := range seen {
			if x.k != BAnd {
				continue
			}
			var keep []*Bool
			ch := false
			for _, y := range x.a {
				if _, ok := seen[c.Not(y).id]; ok {
					ch = true
				} else {
					keep = append(keep, y)
				}
			}
			if ch {
				delete(seen, id)
				n := c.nary(BAnd, keep)
				ys := []*Bool{n}
				for _, z := range seen {
					ys = append(ys, z)
				}
				return c.nary(BOr, ys)
			}
		}
	}
	if len(seen) == 0 {
		return unit
	}
	ids := make([]int, 0, len(seen))
	for id := range seen {
		ids = append(ids, id)
	}
	if len(ids) == 1 {
		return seen[ids[0]]
	}
	sort.Ints(ids)
	buf := []byte{'a', ':'}
	if k == BOr {
		buf[0] = 'o'
	}
	a := make([]*Bool, len(ids))
	for i, id := range ids {
		a[i] = seen[id]
		buf = strconv.AppendInt(buf, int64(id), 36)
		buf = append(buf, ',')
	}
	return c.mkBool(&Bool{k: k, a: a}, string(buf))
}

// joinEqs joins two equalities of adjacent digits (P == 0 and Q == 0 with
// |P| < 2^k is P + 2^k*Q == 0) where their common division then vanishes; for
// a disjunction, two inequalities. It takes them out of seen and returns the
// joint condition, or nil.
func (c *Ctx) joinEqs(k BKind, seen map[int]*Bool) *Bool {
	eq := func(b *Bool) *Bool {
		if k == BOr {
			if b.k != BNot {
				return nil
			}
			b = b.a[0]
		}
		if b.k != BEQ0 || b.w == 0 {
			return nil
		}
		return b
	}
	var es []*Bool
	for _, x := range seen {
		if e := eq(x); e != nil {
			es = append(es, e)
		}
	}
	if len(es) < 2 {
		return nil
	}
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	low := map[int32][]*Bool{} // monomials with coefficient +-1
	for _, e := range es {
		for _, t := range e.p.t {
			if t.m != 0 && t.c.CmpAbs(b1) == 0 {
				low[t.m] = append(low[t.m], e)
			}
		}
	}
	for _, e := range es {
		top := new(big.Int).Lsh(b1, uint(e.w))
		for _, t := range e.p.t {
			if t.c.CmpAbs(top) != 0 {
				continue
			}
			for _, q := range low[t.m] {
				if q == e {
					continue
				}
				f := new(big.Int).Set(top)
				for _, u := range q.p.t {
					if u.m == t.m && u.c.Sign() == t.c.Sign() {
						f.Neg(f)
					}
				}
				r := c.Add(e.p, c.Scale(f, q.p))
				if len(r.t) >= len(e.p.t)+len(q.p.t)-1 {
					continue
				}
				m := c.EQ0(r)
				if m.k == BEQ0 && m.w == 0 {
					m.w = e.w + q.w
				}
				if k == BOr {
					e, q, m = c.Not(e), c.Not(q), c.Not(m)
				}
				delete(seen, e.id)
				delete(seen, q.id)
				return m
			}
		}
	}
	return nil
}

func conjuncts(b *Bool) []*Bool {
	if b.k == BAnd {
		return b.a
	}
	return []*Bool{b}
}

// orPair simplifies (P & a) | (P & !a) to P, also when the sides share a
// common part; nil when nothing applies.
func (c *Ctx) orPair(x, y *Bool) *Bool {
	xs, ys := conjuncts(x), conjuncts(y)
	inY := map[int]bool{}
	for _, b := range ys {
		inY[b.id] = true
	}
	inX := map[int]bool{}
	var common, rx, ry []*Bool
	for _, b := range xs {
		inX[b.id] = true
		if inY[b.id] {
			common = append(common, b)
		} else {
			rx = append(rx, b)
		}
	}
	for _, b := range ys {
		if !inX[b.id] {
			ry = append(ry, b)
		}
	}
	if len(rx) == 0 {
		return x
	}
	if len(ry) == 0 {
		return y
	}
	if len(rx) == 1 && len(ry) == 1 {
		if rx[0] == c.Not(ry[0]) {
			return c.nary(BAnd, common)
		}
		if rx[0].k == BSet && ry[0].k == BSet && rx[0].base == ry[0].base {
			u := c.nary(BOr, []*Bool{rx[0], ry[0]})
			return c.nary(BAnd, append(common, u))
		}
	}
	if len(common) > 0 {
		u := c.nary(BOr, []*Bool{c.nary(BAnd, rx), c.nary(BAnd, ry)})
		return c.nary(BAnd, append(common, u))
	}
	if len(rx) == 1 && len(common) == 0 {
		nx := c.Not(rx[0])
		for _, b := range ry {
			if b == nx {
				// a | (!a & r) = a | r
				var keep []*Bool
				for _, z := range ry {
					if z != nx {
						keep = append(keep, z)
					}
				}
				return c.nary(BOr, []*Bool{rx[0], c.nary(BAnd, keep)})
			}
		}
	}
	if len(ry) == 1 && len(common) == 0 && len(rx) > 1 {
		return c.orPair(y, x)
	}
	return nil
}

func (c *Ctx) And(xs ...*Bool) *Bool { return c.nary(BAnd, xs) }
func (c *Ctx) Or(xs ...*Bool) *Bool  { return c.nary(BOr, xs) }

// Sgn is -1, 0 or 1 with the sign of d.
func (c *Ctx) Sgn(d *Poly) *Poly {
	if k, ok := d.Const(); ok {
		return c.Int(int64(k.Sign()))
	}
	if c.baseOf(d) != nil {
		return c.Ite(c.EQ0(d), c.Int(0), c.Ite(c.GE0(d), c.Int(1), c.Int(-1)))
	}
	lo, hi := c.Bounds(d)
	if lo != nil && lo.Sign() > 0 {
		return c.Int(1)
	}
	if hi != nil && hi.Sign() < 0 {
		return c.Int(-1)
	}
	return c.UF("sgn", []*Poly{d}, bi(-1), b1)
}

// sgnSet decides a condition on a linear function of one sign atom through
// the integer whose sign it is.
func (c *Ctx) sgnSet(p *Poly, f func(*big.Int) bool) *Bool {
	if len(p.t) > 2 {
		return nil
	}
	var at *Atom
	k := b0
	for _, t := range p.t {
		if t.m == 0 {
			continue
		}
		vs := c.monos[t.m].vars
		if len(vs) != 1 || c.atoms[vs[0]].kind != AUF || c.atoms[vs[0]].name != "sgn" {
			return nil
		}
		at, k = c.atoms[vs[0]], t.c
	}
	if at == nil {
		return nil
	}
	d := at.args[0]
	in := func(v int64) bool { return f(new(big.Int).Add(p.cst(), new(big.Int).Mul(k, bi(v)))) }
	n, z, q := in(-1), in(0), in(1)
	switch {
	case n && z && q:
		return c.tT
	case n && z:
		return c.GE0(c.Neg(d))
	case z && q:
		return c.GE0(d)
	case n && q:
		return c.Not(c.EQ0(d))
	case n:
		return c.Not(c.GE0(d))
	case z:
		return c.EQ0(d)
	case q:
		return c.Not(c.GE0(c.Neg(d)))
	}
	return c.tF
}

// GE0 is p >= 0.
func (c *Ctx) GE0(p *Poly) *Bool {
	if k, ok := p.Const(); ok {
		return c.B(k.Sign() >= 0)
	}
	if b := c.sgnSet(p, func(v *big.Int) bool { return v.Sign() >= 0 }); b != nil {
		return b
	}
	if b := c.baseOf(p); b != nil {
		s := make([]bool, len(b.dom))
		for i, v := range b.dom {
			s[i] = c.evalBase(p, b, v).Sign() >= 0
		}
		return c.setBool(b, s)
	}
	lo, hi := c.Bounds(p)
	if lo != nil && lo.Sign() >= 0 {
		return c.tT
	}
	if hi != nil && hi.Sign() < 0 {
		return c.tF
	}
	// divide by gcd of non-constant coefficients
	g := new(big.Int)
	for _, x := range p.t {
		if x.m != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(x.c))
		}
	}
	if g.Cmp(b1) > 0 {
		var t []term
		for _, x := range p.t {
			if v := new(big.Int).Div(x.c, g); v.Sign() != 0 {
				t = append(t, term{x.m, v})
			}
		}
		return c.GE0(c.intern(t))
	}
	return c.mkBool(&Bool{k: BGE0, p: p}, "ge:"+strconv.Itoa(p.id))
}

// EQ0 is p == 0.
func (c *Ctx) EQ0(p *Poly) *Bool {
	if k, ok := p.Const(); ok {
		return c.B(k.Sign() == 0)
	}
	if b := c.sgnSet(p, func(v *big.Int) bool { return v.Sign() == 0 }); b != nil {
		return b
	}
	lo, hi := c.Bounds(p)
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return c.tF
	}
	if b := c.baseOf(p); b != nil {
		s := make([]bool, len(b.dom))
		for i, v := range b.dom {
			s[i] = c.evalBase(p, b, v).Sign() == 0
		}
		return c.setBool(b, s)
	}
	g := new(big.Int)
	for _, x := range p.t {
		if x.m != 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(x.c))
		}
	}
	if p.t[len(p.t)-1].c.Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(b1) != 0 {
		if new(big.Int).Mod(p.cst(), new(big.Int).Abs(g)).Sign() != 0 {
			return c.tF
		}
		var t []term
		for _, x := range p.t {
			t = append(t, term{x.m, new(big.Int).Quo(x.c, g)})
		}
		p = c.intern(t)
	}
	if b := c.zeroBits(p); b != nil {
		return b
	}
	if b := c.eqSpecial(p); b != nil {
		return b
	}
	return c.mkBool(&Bool{k: BEQ0, p: p}, "eq:"+strconv.Itoa(p.id))
}

// Eq is a == b.
func (c *Ctx) Eq(a, b *Poly) *Bool {
	e := c.EQ0(c.Sub(a, b))
	if e.k == BEQ0 && e.w == 0 {
		al, ah := c.Bounds(a)
		bl, bh := c.Bounds(b)
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			w := ah.BitLen()
			if bh.BitLen() > w {
				w = bh.BitLen()
			}
			if w%8 == 0 {
				// the reduced form is no larger in magnitude
				e.w = w
			}
		}
	}
	return e
}
func (c *Ctx) Le(a, b *Poly) *Bool { return c.GE0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Poly) *Bool { return c.GE0(c.AddC(c.Sub(b, a), -1)) }
func (c *Ctx) Iff(a, b *Bool) *Bool {
	if a == b {
		return c.tT
	}
	return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
}
func (c *Ctx) Implies(a, b *Bool) *Bool { return c.Or(c.Not(a), b) }
func (c *Ctx) BIte(k, a, b *Bool) *Bool {
	if k == c.tT || a == b {
		return a
	}
	if k == c.tF {
		return b
	}
	if a == c.tT && b == c.tF {
		return k
	}
	if a == c.tF && b == c.tT {
		return c.Not(k)
	}
	return c.Or(c.And(k, a), c.And(c.Not(k), b))
}

// eqSpecial rewrites equalities of canonical field integers and of encodings.
func (c *Ctx) eqSpecial(p *Poly) *Bool {
	t := p.t
	k := p.cst()
	if len(t) > 0 && t[0].m == 0 {
		t = t[1:]
	}
	if len(t) == 0 || len(t) > 2 {
		return nil
	}
	at := make([]*Atom, len(t))
	for i, x := range t {
		vs := c.monos[x.m].vars
		if len(vs) != 1 {
			return nil
		}
		at[i] = c.atoms[vs[0]]
		if x.c.CmpAbs(b1) != 0 {
			return nil
		}
	}
	if len(t) == 1 && at[0].kind == AField {
		// +-F + k == 0
		v := new(big.Int).Neg(k)
		if t[0].c.Sign() < 0 {
			v.Neg(v)
		}
		if v.Sign() < 0 || v.Cmp(fieldP) >= 0 {
			return c.tF
		}
		return c.FZero(c.f.Sub(at[0].fp, c.f.Const(v)))
	}
	if len(t) == 2 && at[0].kind == AField && at[1].kind == AField && k.Sign() == 0 && t[0].c.Sign() != t[1].c.Sign() {
		return c.FZero(c.f.Sub(at[0].fp, at[1].fp))
	}
	if len(t) == 1 && at[0].kind == AEnc {
		// +-E + k == 0: an encoding of no point, or of one outside the subgroup
		v := new(big.Int).Neg(k)
		if t[0].c.Sign() < 0 {
			v.Neg(v)
		}
		y := new(big.Int).SetBit(new(big.Int).Set(v), 255, 0)
		if v.Sign() < 0 || v.BitLen() > 256 || y.Cmp(fieldP) >= 0 {
			return c.tF
		}
		px, ok := refRecoverX(y, v.Bit(255))
		if !ok || px.Bit(0) != v.Bit(255) {
			return c.tF
		}
		sub := true
		for _, p := range at[0].grp.parts {
			sub = sub && p.g.name == "B"
		}
		if sub {
			if lx, ly := refMul(groupL, px, y); lx.Sign() != 0 || ly.Cmp(b1) != 0 {
				return c.tF
			}
		}
	}
	if len(t) == 2 && at[0].kind == AEnc && at[1].kind == AEnc && k.Sign() == 0 && t[0].c.Sign() != t[1].c.Sign() {
		return c.GZero(c.gSub(at[0].grp, at[1].grp))
	}
	return nil
}

// ---------- printing (diagnostics)

func (c *Ctx) atomStr(a *Atom, depth int) string {
	switch a.kind {
	case AVar:
		return a.name
	case ADiv:
		if depth <= 0 {
			return fmt.Sprintf("div#%d", a.id)
		}
		return fmt.Sprintf("(%s)/%s", c.pStr(a.args[0], depth-1), a.m)
	case ATab:
		if depth <= 0 {
			return fmt.Sprintf("tab#%d", a.id)
		}
		return fmt.Sprintf("tab#%d[%s]", a.id, c.pStr(a.base.p, depth-1))
	case AGate:
		if depth <= 0 {
			return fmt.Sprintf("gate#%d", a.id)
		}
		return fmt.Sprintf("(%s ? %s)", c.bStr(a.cond, depth-1), c.pStr(a.args[0], depth-1))
	case AField:
		return "F{" + c.f.Str(a.fp) + "}"
	case AEnc:
		return "enc{" + c.gStr(a.grp) + "}"
	}
	s := fmt.Sprintf("%s#%d", a.name, a.id)
	if depth > 0 && len(a.args) <= 4 {
		s += "("
		for _, p := range a.args {
			s += c.pStr(p, depth-1) + ","
		}
		s += ")"
	}
	return s
}

func (c *Ctx) pStr(p *Poly, depth int) string {
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, x := range p.t {
		if i > 8 {
			fmt.Fprintf(&sb, "+...(%d terms)", len(p.t))
			break
		}
		if i > 0 {
			sb.WriteString(" + ")
		}
		if x.m == 0 {
			sb.WriteString(x.c.String())
			continue
		}
		if x.c.Cmp(b1) != 0 {
			sb.WriteString(x.c.String() + "*")
		}
		for j, v := range c.monos[x.m].vars {
			if j > 0 {
				sb.WriteByte('*')
			}
			sb.WriteString(c.atomStr(c.atoms[v], depth))
		}
	}
	return sb.String()
}

func (c *Ctx) bStr(b *Bool, depth int) string {
	switch b.k {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	case BNot:
		return "!" + c.bStr(b.a[0], depth)
	case BAnd, BOr:
		if depth <= 0 {
			return fmt.Sprintf("bool#%d", b.id)
		}
		op := " & "
		if b.k == BOr {
			op = " | "
		}
		var s []string
		for i, x := range b.a {
			if i > 6 {
				s = append(s, "...")
				break
			}
			s = append(s, c.bStr(x, depth-1))
		}
		return "(" + strings.Join(s, op) + ")"
	case BGE0:
		return c.pStr(b.p, depth-1) + ">=0"
	case BEQ0:
		return c.pStr(b.p, depth-1) + "==0"
	case BSet:
		var vs []string
		for i, s := range b.set {
			if s {
				vs = append(vs, strconv.FormatInt(b.base.dom[i], 10))
			}
		}
		if len(vs) > 12 {
			vs = append(vs[:12], "...")
		}
		return c.pStr(b.base.p, depth-1) + " in {" + strings.Join(vs, ",") + "}"
	case BFZero:
		return "[" + c.f.Str(b.fp) + " = 0 in F]"
	case BGZero:
		return "[" + c.gStr(b.grp) + " = O]"
	case BPred:
		return fmt.Sprintf("%s#%d", b.name, b.id)
	}
	return "?"
}
