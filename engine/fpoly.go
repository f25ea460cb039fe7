package main

// Polynomials (with integer, possibly negative or huge exponents) over the
// field F_p, p = 2^255-19, and the boolean atom "polynomial = 0".

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
var groupL = func() *big.Int {
	x, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	return x.Add(x, new(big.Int).Lsh(big.NewInt(1), 252))
}()
var fieldD = func() *big.Int {
	x := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
	x.Mul(x, big.NewInt(-121665))
	return x.Mod(x, fieldP)
}()

// sqrt(-1)
var fieldI = func() *big.Int {
	e := new(big.Int).Sub(fieldP, b1)
	e.Rsh(e, 2)
	return new(big.Int).Exp(bi(2), e, fieldP)
}()

type FAtom struct {
	id      int
	name    string
	nonzero bool
	// group coordinate atoms
	grp   *GTerm
	coord byte // 'x' or 'y'
	key   string
	n     *Poly // the element is this integer modulo p
}

type FMono struct {
	id int
	a  []int
	e  []*big.Int
}

type FTerm struct {
	m int
	c *big.Int
}

type FPoly struct {
	id int
	t  []FTerm // sorted by mono id; coefficients in [1,p)
}

type FCtx struct {
	c       *Ctx
	atoms   []*FAtom
	atomKey map[string]*FAtom
	monos   []*FMono
	monoKey map[string]*FMono
	polys   []*FPoly
	polyKey map[string]*FPoly
	hyps    []*FPoly     // polynomials known to be zero (curve equations etc.)
	nz      map[int]bool // polynomials known to be non-zero
	invDone map[int]bool
	nfMemo  map[int]*FPoly
	nfHyps  int
}

func newFCtx(c *Ctx) *FCtx {
	f := &FCtx{c: c, atomKey: map[string]*FAtom{}, monoKey: map[string]*FMono{}, polyKey: map[string]*FPoly{}, nz: map[int]bool{}, invDone: map[int]bool{}}
	f.monos = []*FMono{{}}
	f.monoKey[""] = f.monos[0]
	return f
}

func (f *FCtx) Atom(key string, nonzero bool) *FAtom {
	if a, ok := f.atomKey[key]; ok {
		return a
	}
	a := &FAtom{id: len(f.atoms), name: key, key: key, nonzero: nonzero}
	f.atoms = append(f.atoms, a)
	f.atomKey[key] = a
	return a
}

func (f *FCtx) mono(a []int, e []*big.Int) *FMono {
	var sb strings.Builder
	for i := range a {
		sb.WriteString(strconv.Itoa(a[i]))
		sb.WriteByte('^')
		sb.WriteString(e[i].Text(36))
		sb.WriteByte(',')
	}
	k := sb.String()
	if m, ok := f.monoKey[k]; ok {
		return m
	}
	m := &FMono{id: len(f.monos), a: a, e: e}
	f.monos = append(f.monos, m)
	f.monoKey[k] = m
	return m
}

func (f *FCtx) AtomPoly(a *FAtom) *FPoly {
	m := f.mono([]int{a.id}, []*big.Int{b1})
	return f.intern([]FTerm{{m.id, b1}})
}

func (f *FCtx) intern(t []FTerm) *FPoly {
	buf := make([]byte, 0, 48*len(t))
	for _, x := range t {
		buf = strconv.AppendInt(buf, int64(x.m), 36)
		buf = append(buf, ':')
		buf = x.c.Append(buf, 36)
		buf = append(buf, ';')
	}
	k := string(buf)
	if p, ok := f.polyKey[k]; ok {
		return p
	}
	p := &FPoly{id: len(f.polys), t: t}
	f.polys = append(f.polys, p)
	f.polyKey[k] = p
	return p
}

func (f *FCtx) fromMap(m map[int]*big.Int) *FPoly {
	var t []FTerm
	for k, v := range m {
		v = new(big.Int).Mod(v, fieldP)
		if v.Sign() != 0 {
			t = append(t, FTerm{k, v})
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].m < t[j].m })
	return f.intern(t)
}

func (f *FCtx) Const(v *big.Int) *FPoly {
	return f.fromMap(map[int]*big.Int{0: v})
}

func (p *FPoly) IsConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return b0, true
	}
	if len(p.t) == 1 && p.t[0].m == 0 {
		return p.t[0].c, true
	}
	return nil, false
}

func (f *FCtx) Lin(a *FPoly, k *big.Int, b *FPoly) *FPoly {
	m := map[int]*big.Int{}
	for _, x := range a.t {
		m[x.m] = x.c
	}
	for _, x := range b.t {
		v := new(big.Int).Mul(k, x.c)
		if o, ok := m[x.m]; ok {
			v.Add(v, o)
		}
		m[x.m] = v
	}
	return f.fromMap(m)
}
func (f *FCtx) Add(a, b *FPoly) *FPoly            { return f.Lin(a, b1, b) }
func (f *FCtx) Sub(a, b *FPoly) *FPoly            { return f.Lin(a, bi(-1), b) }
func (f *FCtx) Neg(a *FPoly) *FPoly               { return f.Lin(f.Const(b0), bi(-1), a) }
func (f *FCtx) Scale(k *big.Int, a *FPoly) *FPoly { return f.Lin(f.Const(b0), k, a) }

func (f *FCtx) mulMono(x, y int) int {
	if x == 0 {
		return y
	}
	if y == 0 {
		return x
	}
	a, b := f.monos[x], f.monos[y]
	var ids []int
	var es []*big.Int
	i, j := 0, 0
	for i < len(a.a) || j < len(b.a) {
		switch {
		case j >= len(b.a) || (i < len(a.a) && a.a[i] < b.a[j]):
			ids = append(ids, a.a[i])
			es = append(es, a.e[i])
			i++
		case i >= len(a.a) || b.a[j] < a.a[i]:
			ids = append(ids, b.a[j])
			es = append(es, b.e[j])
			j++
		default:
			e := new(big.Int).Add(a.e[i], b.e[j])
			if e.Sign() != 0 {
				ids = append(ids, a.a[i])
				es = append(es, e)
			}
			i++
			j++
		}
	}
	return f.mono(ids, es).id
}

func (f *FCtx) Mul(a, b *FPoly) *FPoly {
	m := map[int]*big.Int{}
	for _, x := range a.t {
		for _, y := range b.t {
			k := f.mulMono(x.m, y.m)
			v := new(big.Int).Mul(x.c, y.c)
			if o, ok := m[k]; ok {
				v.Add(v, o)
			}
			m[k] = v
		}
	}
	return f.fromMap(m)
}

// Inv inverts a constant or a monomial whose atoms are all non-zero; nil
// otherwise.
func (f *FCtx) Inv(a *FPoly) *FPoly {
	if len(a.t) == 0 {
		return a // invert(0) = 0^(p-2) = 0
	}
	if len(a.t) != 1 {
		return nil
	}
	m := f.monos[a.t[0].m]
	es := make([]*big.Int, len(m.e))
	for i := range m.e {
		if !f.atoms[m.a[i]].nonzero {
			return nil
		}
		es[i] = new(big.Int).Neg(m.e[i])
	}
	nm := f.mono(append([]int(nil), m.a...), es)
	return f.intern([]FTerm{{nm.id, new(big.Int).ModInverse(a.t[0].c, fieldP)}})
}

// Pow for monomials or constants.
func (f *FCtx) Pow(a *FPoly, e *big.Int) *FPoly {
	if len(a.t) == 0 {
		return a
	}
	if len(a.t) != 1 {
		return nil
	}
	m := f.monos[a.t[0].m]
	es := make([]*big.Int, len(m.e))
	for i := range m.e {
		es[i] = new(big.Int).Mul(m.e[i], e)
	}
	nm := f.mono(append([]int(nil), m.a...), es)
	return f.intern([]FTerm{{nm.id, new(big.Int).Exp(a.t[0].c, e, fieldP)}})
}

func (f *FCtx) monoStr(m *FMono) string {
	if len(m.a) == 0 {
		return "1"
	}
	var s []string
	for i := range m.a {
		x := f.atoms[m.a[i]].name
		if m.e[i].Cmp(b1) != 0 {
			x += "^" + m.e[i].String()
		}
		s = append(s, x)
	}
	return strings.Join(s, "*")
}

func (f *FCtx) Str(p *FPoly) string {
	if len(p.t) == 0 {
		return "0"
	}
	var s []string
	half := new(big.Int).Rsh(fieldP, 1)
	for i, x := range p.t {
		if i > 6 {
			s = append(s, "...")
			break
		}
		v := x.c
		if v.Cmp(half) > 0 {
			v = new(big.Int).Sub(v, fieldP)
		}
		cs := v.String()
		if len(cs) > 12 {
			cs = cs[:5] + ".."
			if x.c.Cmp(fieldD) == 0 {
				cs = "d"
			}
		}
		s = append(s, cs+"*"+f.monoStr(f.monos[x.m]))
	}
	return strings.Join(s, " + ")
}

// stripNonzero divides by the largest monomial of non-zero atoms so that the
// result is a polynomial in them with minimal exponents, and makes it monic.
func (f *FCtx) stripNonzero(p *FPoly) *FPoly {
	if len(p.t) == 0 {
		return p
	}
	mins := map[int]*big.Int{}
	for i, x := range p.t {
		m := f.monos[x.m]
		cur := map[int]*big.Int{}
		for j, a := range m.a {
			if f.atoms[a].nonzero {
				cur[a] = m.e[j]
			}
		}
		if i == 0 {
			mins = cur
			continue
		}
		for a, e := range mins {
			v, ok := cur[a]
			if !ok {
				v = b0
			}
			if v.Cmp(e) < 0 {
				mins[a] = v
			}
		}
		for a, e := range cur {
			if _, ok := mins[a]; !ok && e.Sign() < 0 {
				mins[a] = e
			}
		}
	}
	var ids []int
	for a, e := range mins {
		if e.Sign() != 0 {
			ids = append(ids, a)
		}
	}
	sort.Ints(ids)
	var es []*big.Int
	for _, a := range ids {
		es = append(es, new(big.Int).Neg(mins[a]))
	}
	k := new(big.Int).ModInverse(p.t[len(p.t)-1].c, fieldP)
	q := f.intern([]FTerm{{f.mono(ids, es).id, k}})
	return f.Mul(p, q)
}

// nf is the normal form modulo the hypotheses.
func (f *FCtx) nf(p *FPoly) *FPoly {
	if len(f.hyps) == 0 || len(p.t) == 0 {
		return p
	}
	if f.nfMemo == nil || f.nfHyps != len(f.hyps) {
		f.nfMemo, f.nfHyps = map[int]*FPoly{}, len(f.hyps)
	}
	if q, ok := f.nfMemo[p.id]; ok {
		return q
	}
	q, _ := f.reduce(p, f.hyps)
	f.nfMemo[p.id] = q
	return q
}

// normZ is the representative of p up to non-zero factors.
func (f *FCtx) normZ(p *FPoly) *FPoly { return f.stripNonzero(f.nf(f.stripNonzero(f.nf(p)))) }

func (f *FCtx) isNZ(p *FPoly) bool {
	p = f.normZ(p)
	if v, ok := p.IsConst(); ok {
		return v.Sign() != 0
	}
	return f.nz[p.id]
}

// linInt: a linear combination of integers modulo p.
func (c *Ctx) linInt(p *FPoly) (*Poly, bool) {
	f := c.f
	half := new(big.Int).Rsh(fieldP, 1)
	r := c.Int(0)
	for _, t := range p.t {
		k := t.c
		if k.Cmp(half) > 0 {
			k = new(big.Int).Sub(k, fieldP)
		}
		m := f.monos[t.m]
		switch {
		case len(m.a) == 0:
			r = c.Add(r, c.Big(k))
		case len(m.a) == 1 && m.e[0].Cmp(b1) == 0 && f.atoms[m.a[0]].n != nil:
			r = c.Add(r, c.Scale(k, f.atoms[m.a[0]].n))
		default:
			return nil, false
		}
	}
	return r, true
}

// FZero is the boolean "p = 0 in the field".
func (c *Ctx) FZero(p *FPoly) *Bool {
	f := c.f
	p = f.normZ(p)
	if v, ok := p.IsConst(); ok {
		return c.B(v.Sign() == 0)
	}
	if f.nz[p.id] {
		return c.tF
	}
	if n, ok := c.linInt(p); ok {
		return c.EQ0(c.Mod(n, fieldP))
	}
	if len(p.t) == 1 {
		m := f.monos[p.t[0].m]
		var l []*Bool
		for i, a := range m.a {
			if f.atoms[a].nonzero {
				continue
			}
			if m.e[i].Sign() < 0 {
				panic("FZero: negative power of a possibly zero atom")
			}
			q := f.AtomPoly(f.atoms[a])
			if n, ok := c.linInt(q); ok {
				l = append(l, c.EQ0(c.Mod(n, fieldP)))
				continue
			}
			if f.nz[q.id] {
				continue
			}
			l = append(l, c.mkBool(&Bool{k: BFZero, fp: q}, "fz:"+strconv.Itoa(q.id)))
		}
		return c.Or(l...)
	}
	// common factors
	m0 := f.monos[p.t[0].m]
	for i, a := range m0.a {
		if f.atoms[a].nonzero {
			continue
		}
		min := m0.e[i]
		for _, x := range p.t[1:] {
			e := b0
			for j, b := range f.monos[x.m].a {
				if b == a {
					e = f.monos[x.m].e[j]
				}
			}
			if e.Cmp(min) < 0 {
				min = e
			}
		}
		if min.Sign() > 0 {
			rest := f.Mul(p, f.intern([]FTerm{{f.mono([]int{a}, []*big.Int{new(big.Int).Neg(min)}).id, b1}}))
			return c.Or(c.FZero(f.AtomPoly(f.atoms[a])), c.FZero(rest))
		}
	}
	return c.mkBool(&Bool{k: BFZero, fp: p}, "fz:"+strconv.Itoa(p.id))
}

// FieldInt is the canonical integer in [0,p) of a field polynomial.
func (c *Ctx) FieldInt(p *FPoly) *Poly {
	f := c.f
	p = f.nf(p)
	if v, ok := p.IsConst(); ok {
		return c.Big(v)
	}
	if n, ok := c.linInt(p); ok && len(p.t) == 1 {
		return c.Mod(n, fieldP)
	}
	// p and -p share their integer: F(-p) = P - F(p) unless p = 0
	if half := new(big.Int).Rsh(fieldP, 1); len(p.t) == 1 && p.t[0].c.Cmp(half) > 0 {
		q := f.Neg(p)
		return c.Ite(c.FZero(q), c.Int(0), c.Sub(c.Big(fieldP), c.FieldInt(q)))
	}
	a := c.newAtom(&Atom{kind: AField, key: "F:" + strconv.Itoa(p.id), fp: p, lo: b0, hi: new(big.Int).Sub(fieldP, b1), name: "F"})
	return c.atomPoly(a)
}

// ---------- division by hypotheses

// order: graded-lex by (total degree over atoms, then lexicographic)
func (f *FCtx) monoLess(x, y int) bool {
	a, b := f.monos[x], f.monos[y]
	da, db := new(big.Int), new(big.Int)
	for _, e := range a.e {
		da.Add(da, e)
	}
	for _, e := range b.e {
		db.Add(db, e)
	}
	if k := da.Cmp(db); k != 0 {
		return k < 0
	}
	i, j := 0, 0
	for i < len(a.a) && j < len(b.a) {
		if a.a[i] != b.a[j] {
			return a.a[i] > b.a[j]
		}
		if k := a.e[i].Cmp(b.e[j]); k != 0 {
			return k < 0
		}
		i++
		j++
	}
	return false
}

func (f *FCtx) lead(p *FPoly) FTerm {
	l := p.t[0]
	for _, x := range p.t[1:] {
		if f.monoLess(l.m, x.m) {
			l = x
		}
	}
	return l
}

// monoDiv returns the quotient monomial x/y if it has non-negative exponents
// in atoms that may be zero.
func (f *FCtx) monoDiv(x, y int) (int, bool) {
	m := f.monos[y]
	es := make([]*big.Int, len(m.e))
	for i := range m.e {
		es[i] = new(big.Int).Neg(m.e[i])
	}
	q := f.mulMono(x, f.mono(append([]int(nil), m.a...), es).id)
	for i, a := range f.monos[q].a {
		if f.monos[q].e[i].Sign() < 0 && !f.atoms[a].nonzero {
			return 0, false
		}
	}
	return q, true
}

// reduce divides p by the hypotheses and returns the remainder and the
// multiples (quotient monomial, hypothesis) that were used.
func (f *FCtx) reduce(p *FPoly, hyps []*FPoly) (*FPoly, []*FPoly) {
	var used []*FPoly
	seen := map[int]bool{}
	type hl struct {
		h *FPoly
		l FTerm
	}
	var hs []hl
	for _, h := range hyps {
		if len(h.t) > 0 {
			hs = append(hs, hl{h, f.lead(h)})
		}
	}
	for steps := 0; steps < 5000; steps++ {
		done := true
		for _, x := range p.t {
			for _, h := range hs {
				// only divide when all atoms of the leading monomial occur in x
				q, ok := f.monoDiv(x.m, h.l.m)
				if !ok || !f.divides(h.l.m, x.m) {
					continue
				}
				k := new(big.Int).ModInverse(h.l.c, fieldP)
				mult := f.Mul(f.intern([]FTerm{{q, b1}}), h.h)
				if !seen[mult.id] {
					seen[mult.id] = true
					used = append(used, mult)
				}
				k.Mul(k, x.c)
				p = f.Lin(p, new(big.Int).Neg(k), mult)
				done = false
				break
			}
			if !done {
				break
			}
		}
		if done {
			break
		}
	}
	return p, used
}

func (f *FCtx) divides(y, x int) bool {
	a, b := f.monos[y], f.monos[x]
	for i, id := range a.a {
		ok := false
		for j, jd := range b.a {
			if id == jd && b.e[j].Cmp(a.e[i]) >= 0 {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---------- integers made of canonical field integers

func (c *Ctx) fieldy(n *Poly) bool {
	for _, t := range n.t {
		for _, v := range c.monos[t.m].vars {
			a := c.atoms[v]
			if a.kind == AField || a.kind == AGate && c.fieldy(a.args[0]) {
				return true
			}
		}
	}
	return false
}

// intToF: the residue of n modulo p, when n is a polynomial of canonical field
// integers.
func (c *Ctx) intToF(n *Poly) (*FPoly, bool) {
	f := c.f
	r := f.Const(b0)
	for _, t := range n.t {
		m := f.Const(new(big.Int).Mod(t.c, fieldP))
		if t.m != 0 {
			for _, v := range c.monos[t.m].vars {
				a := c.atoms[v]
				switch a.kind {
				case AField:
					m = f.Mul(m, a.fp)
				case AGate:
					// q != 0 ? q : 0 is q, and q = 0 ? q : 0 is 0
					q, ok := c.intToF(a.args[0])
					if !ok {
						return nil, false
					}
					z, zn := c.FZero(q), c.FZero(f.Neg(q))
					switch nc := c.Not(a.cond); {
					case a.cond == z || a.cond == zn:
						m = f.Const(b0)
					case nc == z || nc == zn:
						m = f.Mul(m, q)
					default:
						return nil, false
					}
				default:
					return nil, false
				}
			}
		}
		r = f.Add(r, m)
	}
	return r, true
}

func (c *Ctx) firstGate(n *Poly) *Bool {
	for _, t := range n.t {
		for _, v := range c.monos[t.m].vars {
			if a := c.atoms[v]; a.kind == AGate {
				return a.cond
			}
		}
	}
	return nil
}
