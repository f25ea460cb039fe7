package main

// Contracts of the group layer. The results of add, subtract, precomputedAdd,
// precomputedSubtract, dbl and the conversions (verified by C15) are built as
// fresh representations of the group term that the operands sum to. A group
// element is read back from its coordinates, so that elements which the code
// builds or rearranges itself (tables, negation, copies) are followed too.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"
)

type galt struct {
	c *Bool
	g *GTerm
}

type gstate struct {
	pts    map[string]*GTerm
	made   map[string]Value
	sel    map[string]*GTerm // Select: table and position
	slides map[int][]*Poly
	elim   []elimRule
	ghost  map[*Obj]*GTerm // L3: elements with a ghost table
}

// elimRule: sum of the digits of a sliding window equals the scalar.
type elimRule struct {
	a *Atom // the digit at position 0
	p *Poly // what it equals
}

func newGstate() *gstate {
	return &gstate{made: map[string]Value{}, sel: map[string]*GTerm{}, slides: map[int][]*Poly{}, ghost: map[*Obj]*GTerm{}}
}

func ptKey(x, y *big.Int) string { return x.Text(36) + "," + y.Text(36) }

func (x *Exec) regPt(px, py *big.Int, g *GTerm) {
	s := x.ks.g
	k := ptKey(px, py)
	if _, ok := s.pts[k]; ok {
		return
	}
	s.pts[k] = g
	if px.Sign() != 0 {
		nx := new(big.Int).Sub(fieldP, px)
		if _, ok := s.pts[ptKey(nx, py)]; !ok {
			s.pts[ptKey(nx, py)] = x.c.gNeg(g)
		}
	}
}

// constPt: the group term of a concrete point.
func (x *Exec) constPt(px, py *big.Int) *GTerm {
	s, c := x.ks.g, x.c
	if s.pts == nil {
		s.pts = map[string]*GTerm{}
		x.regPt(new(big.Int), bi(1), c.gZero())
		B := c.GAtom("B")
		bx, by, k := refBx, refBy, bi(1)
		reg := func(px, py, k *big.Int) {
			g := c.gGen(B, c.Big(k))
			x.regPt(px, py, g)
			c.setConst(g, px, py)
		}
		for i := 0; i < 32; i++ {
			qx, qy := bx, by
			top := 8
			if i == 0 {
				top = 16
			}
			for j := 1; j <= top; j++ {
				reg(qx, qy, new(big.Int).Mul(k, bi(int64(j))))
				if j == 8 && i > 0 || j == top {
					break
				}
				qx, qy = refAdd(qx, qy, bx, by)
			}
			for j := 0; j < 8; j++ {
				bx, by = refAdd(bx, by, bx, by)
			}
			k = new(big.Int).Lsh(k, 8)
		}
	}
	if g, ok := s.pts[ptKey(px, py)]; ok {
		return g
	}
	// any other point of the curve is a generator of its own
	x2, y2 := new(big.Int).Mul(px, px), new(big.Int).Mul(py, py)
	h := new(big.Int).Mul(x2, y2)
	h.Mul(h, fieldD)
	h.Add(h, b1).Add(h, x2).Sub(h, y2)
	if h.Mod(h, fieldP).Sign() != 0 {
		return nil
	}
	a := c.GAtom("pt:" + ptKey(px, py))
	a.x, a.y = px, py
	g := c.gGen(a, c.Int(1))
	x.regPt(px, py, g)
	return g
}

// pointOf: the group term with affine coordinates px, py.
func (x *Exec) pointOf(px, py *FPoly) *GTerm {
	c, f := x.c, x.c.f
	px, py = f.nf(px), f.nf(py)
	if a, ok := px.IsConst(); ok {
		if b, ok := py.IsConst(); ok {
			if g := x.constPt(a, b); g != nil {
				return g
			}
			panic(bail("a constant that is not on the curve is used as a point"))
		}
	}
	if len(py.t) == 1 && py.t[0].c.Cmp(b1) == 0 {
		if m := f.monos[py.t[0].m]; len(m.a) == 1 && m.e[0].Cmp(b1) == 0 {
			if a := f.atoms[m.a[0]]; a.grp != nil && a.coord == 'y' {
				for _, g := range []*GTerm{a.grp, c.gNeg(a.grp)} {
					if f.nf(f.Sub(c.gX(g), px)) == f.Const(b0) {
						return g
					}
				}
			}
		}
	}
	panic(bail("coordinates that are not those of a known point: x=" + f.Str(px) + " y=" + f.Str(py)))
}

// ---------- reading an element

type gview struct {
	cs    int64
	coord [4]Value // X, Y, Z, T: pointers to field elements
}

var gFields = [4]string{"X", "Y", "Z", "T"}

func (x *Exec) viewCells(cells []Value, off int) *gview {
	const ty = "Ed25519GroupElement"
	v := &gview{}
	cs, ok := cells[off+x.fieldOff(ty, "coordinateSystem")].(*Poly)
	if !ok {
		panic(bail("coordinate system"))
	}
	k, ok := cs.Int64()
	if !ok {
		return nil
	}
	v.cs = k
	for i, n := range gFields {
		v.coord[i] = cells[off+x.fieldOff(ty, n)]
	}
	return v
}

func (x *Exec) feType() types.Type {
	o := x.pkg.Pkg.Scope().Lookup("Ed25519FieldElement")
	if o == nil {
		panic(bail("Ed25519FieldElement is gone"))
	}
	return o.Type()
}

// loadFE: limb terms and field element behind a pointer.
func (x *Exec) loadFE(st *State, v Value, cond *Bool) (limbs [][]*Poly, fe []falt, ok bool) {
	p, isp := v.(*PtrV)
	if !isp {
		return nil, nil, false
	}
	p = x.prune(p, cond)
	t := x.feType()
	for _, a := range p.alts {
		if a.o == nil {
			return nil, nil, false
		}
		l := limbsOf(x.loadCells(st, a, t))
		limbs = append(limbs, l)
		for _, u := range x.recFE(l) {
			if c := x.c.And(a.c, u.c); c != x.c.tF {
				fe = append(fe, falt{c, u.p})
			}
		}
	}
	return limbs, x.mergeAlts(fe), true
}

// limits of the coordinates, in hundredths of 2^26 / 2^25, that the group
// operations were verified for (csP2 etc. follow the order in the code).
const csAffine, csP2, csP3, csP1P1, csPre, csCached = 0, 1, 2, 3, 4, 5

var gLimits = map[int64][4]int64{
	csP2: {51, 51, 51, 0}, csP3: {51, 51, 51, 51}, csP1P1: {153, 153, 153, 153},
	csPre: {102, 102, 51, 0}, csCached: {102, 102, 51, 51},
}

func (x *Exec) csNumber(name string) int64 {
	k, ok := x.pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(bail("coordinate system " + name + " is gone"))
	}
	n, _ := strconv.ParseInt(k.Val().ExactString(), 10, 64)
	return n
}

// readView: the group term of an element; nil when it is not an element of the
// given system.
func (x *Exec) readView(cl *callCtx, st *State, v *gview, what string, cond *Bool) (out []galt, key string) {
	c, f := x.c, x.c.f
	lim, ok := gLimits[v.cs]
	if !ok {
		panic(bailf("group element in coordinate system %d", v.cs))
	}
	n := 4
	if lim[3] == 0 {
		n = 3
	}
	var fe [4][]falt
	var kb strings.Builder
	fmt.Fprintf(&kb, "%d|", v.cs)
	for i := 0; i < n; i++ {
		l, e, ok := x.loadFE(st, v.coord[i], cond)
		if !ok {
			panic(bail("a coordinate of a group element is nil"))
		}
		for _, s := range l {
			x.limbPre(cl, s, lim[i], what)
			kb.WriteString(polysKey(s))
			kb.WriteByte(';')
		}
		if len(l) > 1 {
			for _, a := range v.coord[i].(*PtrV).alts {
				fmt.Fprintf(&kb, "c%d,", a.c.id)
			}
		}
		fe[i] = e
	}
	half := new(big.Int).ModInverse(b2, fieldP)
	one := func(p *FPoly) *FPoly { // 1/p
		q := f.Inv(f.nf(p))
		if q == nil || len(p.t) == 0 {
			panic(bail("denominator of a group element: " + f.Str(p)))
		}
		return q
	}
	div := func(p, q *FPoly) *FPoly { return f.nf(f.Mul(p, one(q))) }
	type four struct {
		c *Bool
		p [4]*FPoly
	}
	l := []four{{c: c.tT}}
	for i := 0; i < n; i++ {
		var r []four
		for _, u := range l {
			for _, a := range fe[i] {
				cc := c.And(u.c, a.c)
				if cc == c.tF || c.And(cc, cond) == c.tF {
					continue
				}
				w := u
				w.c = cc
				w.p[i] = a.p
				r = append(r, w)
			}
		}
		if len(r) > 2000 {
			panic(bail("too many alternatives of a group element"))
		}
		l = r
	}
	d2 := new(big.Int).Lsh(fieldD, 1)
	d2.Mod(d2, fieldP)
	for _, u := range l {
		X, Y, Z, T := u.p[0], u.p[1], u.p[2], u.p[3]
		var px, py *FPoly
		var good *Bool
		switch v.cs {
		case csP2, csP3:
			px, py = div(X, Z), div(Y, Z)
			if v.cs == csP3 {
				good = c.FZero(f.Sub(f.Mul(T, Z), f.Mul(X, Y)))
			}
		case csP1P1:
			px, py = div(X, Z), div(Y, T)
		case csCached:
			px = f.Scale(half, div(f.Sub(X, Y), Z))
			py = f.Scale(half, div(f.Add(X, Y), Z))
			good = c.FZero(f.Sub(T, f.Scale(d2, f.Mul(f.Mul(px, py), Z))))
		case csPre:
			px = f.nf(f.Scale(half, f.Sub(X, Y)))
			py = f.nf(f.Scale(half, f.Add(X, Y)))
			good = c.FZero(f.Sub(Z, f.Scale(d2, f.Mul(px, py))))
		}
		if good != nil && good != c.tT {
			x.addOb("operands of "+what+" are consistent representations of a point", c.And(cl.cond, u.c), good, x.posStr(cl.pos))
		}
		out = append(out, galt{u.c, x.pointOf(px, py)})
	}
	return out, kb.String()
}

// readG: the element behind a pointer (or held by value).
func (x *Exec) readG(cl *callCtx, v Value, what string, want ...int64) (*GTerm, string, bool) {
	c := x.c
	type av struct {
		c *Bool
		v *gview
	}
	var vs []av
	switch u := v.(type) {
	case *PtrV:
		for _, a := range x.prune(u, cl.cond).alts {
			if a.o == nil {
				return nil, "", false
			}
			vs = append(vs, av{a.c, x.viewCells(cl.st.get(a.o).cells, a.off)})
		}
	case Agg:
		vs = append(vs, av{c.tT, x.viewCells(u, 0)})
	default:
		return nil, "", false
	}
	var all []galt
	var kb strings.Builder
	for _, a := range vs {
		if a.v == nil {
			return nil, "", false
		}
		ok := len(want) == 0
		for _, w := range want {
			ok = ok || w == a.v.cs
		}
		if !ok {
			return nil, "", false
		}
	}
	ctx := baseSets(cl.cond)
	for _, a := range vs {
		l, k := x.readView(cl, cl.st, a.v, what, c.And(cl.cond, a.c))
		fmt.Fprintf(&kb, "%d:%s/", a.c.id, k)
		for _, u := range l {
			if cc := c.And(a.c, u.c); cc != c.tF {
				if cc = x.narrow(cc, ctx); cc == c.tF {
					continue
				}
				all = append(all, galt{cc, u.g})
			}
		}
	}
	return x.mergeG(all), kb.String(), true
}

// ---------- merging alternatives into one term

func (x *Exec) mergeG(l []galt) *GTerm {
	c := x.c
	var u []galt
	idx := map[string]int{}
	for _, a := range l {
		if a.c == c.tF {
			continue
		}
		if i, ok := idx[a.g.key]; ok {
			u[i].c = c.Or(u[i].c, a.c)
			continue
		}
		idx[a.g.key] = len(u)
		u = append(u, a)
	}
	if len(u) == 0 {
		panic(bail("no alternative of a group element is left"))
	}
	if len(u) == 1 {
		return u[0].g
	}
	atoms := map[*GAtom]bool{}
	for _, a := range u {
		for _, p := range a.g.parts {
			atoms[p.g] = true
		}
	}
	res := map[*GAtom]*Poly{}
	for g := range atoms {
		var cs []calt
		for _, a := range u {
			k := c.Int(0)
			for _, p := range a.g.parts {
				if p.g == g {
					k = p.c
				}
			}
			cs = append(cs, calt{a.c, k})
		}
		res[g] = x.mergeCoef(cs)
	}
	return c.mkG(res)
}

type calt struct {
	c *Bool
	p *Poly
}

func (x *Exec) mergeCoef(l []calt) *Poly {
	c := x.c
	dedupe := func(l []calt) []calt {
		var u []calt
		idx := map[int]int{}
		for _, a := range l {
			if i, ok := idx[a.p.id]; ok {
				u[i].c = c.Or(u[i].c, a.c)
				continue
			}
			idx[a.p.id] = len(u)
			u = append(u, a)
		}
		return u
	}
	l = dedupe(l)
	for len(l) > 1 {
		if r, ok := x.fitLinear(l); ok {
			l = dedupe(r)
			continue
		}
		break
	}
	r := l[len(l)-1].p
	for i := len(l) - 2; i >= 0; i-- {
		r = x.iteSimp(l[i].c, l[i].p, r)
	}
	return r
}

// setOf: the values of base b for which the condition can hold (the condition
// has a conjunct that is a set of values of b).
func baseSets(b *Bool) map[*Base][]bool {
	r := map[*Base][]bool{}
	for _, u := range conjuncts(b) {
		if u.k == BSet {
			r[u.base] = u.set
		}
	}
	return r
}

// narrow: a condition that agrees with b wherever the sets of ctx hold.
func (x *Exec) narrow(b *Bool, ctx map[*Base][]bool) *Bool {
	if len(ctx) == 0 {
		return b
	}
	r := x.c.tT
	for _, u := range conjuncts(b) {
		if s, ok := ctx[u.base]; ok && u.k == BSet {
			t := make([]bool, len(s))
			for i := range s {
				t[i] = s[i] && u.set[i]
			}
			u = x.c.setBool(u.base, t)
		}
		r = x.c.And(r, u)
	}
	return r
}

// fitLinear: alternatives distinguished by the value of one small-domain
// quantity, with coefficients that are linear in it.
func (x *Exec) fitLinear(l []calt) ([]calt, bool) {
	c := x.c
	for i := 0; i < len(l); i++ {
		for b, s := range baseSets(l[i].c) {
			type pt struct {
				v int64
				k *big.Int
				j int
			}
			var pts []pt
			grp := []int{i}
			add := func(j int, set []bool, k *big.Int) {
				for q, in := range set {
					if in {
						pts = append(pts, pt{b.dom[q], k, j})
					}
				}
			}
			add(i, s, b0)
			for j := i + 1; j < len(l); j++ {
				t, ok := baseSets(l[j].c)[b]
				if !ok {
					continue
				}
				k, ok := c.Sub(l[j].p, l[i].p).Const()
				if !ok {
					continue
				}
				add(j, t, k)
				grp = append(grp, j)
			}
			if len(grp) < 2 {
				continue
			}
			// slope from two points of different alternatives
			var num, den *big.Int
			for _, q := range pts {
				if q.j != i && q.v != pts[0].v {
					num, den = new(big.Int).Sub(q.k, pts[0].k), bi(q.v-pts[0].v)
					break
				}
			}
			if num == nil || new(big.Int).Rem(num, den).Sign() != 0 {
				continue
			}
			sl := new(big.Int).Quo(num, den)
			fits := true
			for _, q := range pts {
				w := new(big.Int).Mul(sl, bi(q.v-pts[0].v))
				fits = fits && w.Add(w, pts[0].k).Cmp(q.k) == 0
			}
			if !fits {
				continue
			}
			p := c.Add(l[i].p, c.Scale(sl, c.AddC(b.p, -pts[0].v)))
			cc := c.tF
			in := map[int]bool{}
			for _, j := range grp {
				cc = c.Or(cc, l[j].c)
				in[j] = true
			}
			out := []calt{{cc, p}}
			for j := range l {
				if !in[j] {
					out = append(out, l[j])
				}
			}
			return out, true
		}
	}
	return nil, false
}

// pins: values of small-domain quantities that a condition fixes.
func pins(b *Bool) map[*Base]int64 {
	r := map[*Base]int64{}
	for _, u := range conjuncts(b) {
		if u.k != BSet {
			continue
		}
		n, at := 0, 0
		for i, s := range u.set {
			if s {
				n++
				at = i
			}
		}
		if n == 1 {
			r[u.base] = u.base.dom[at]
		}
	}
	return r
}

func (x *Exec) substPins(p *Poly, m map[*Base]int64) *Poly {
	c := x.c
	if len(m) == 0 {
		return p
	}
	byP := map[int]int64{}
	for b, v := range m {
		byP[b.p.id] = v
	}
	r := c.Int(0)
	rest := make(map[int32]*big.Int)
	cst := new(big.Int)
	for _, t := range p.t {
		if t.m == 0 {
			cst.Add(cst, t.c)
			continue
		}
		vars := c.monos[t.m].vars
		ch := false
		q := c.Int(1)
		for _, v := range vars {
			a := c.atoms[v]
			if a.kind == ATab {
				if w, ok := byP[a.base.p.id]; ok {
					q = c.Mul(q, c.Big(a.vals[a.base.idx[w]]))
					ch = true
					continue
				}
			} else if w, ok := byP[c.atomPoly(a).id]; ok {
				q = c.Mul(q, c.Int(w))
				ch = true
				continue
			}
			q = c.Mul(q, c.atomPoly(a))
		}
		if !ch {
			rest[t.m] = t.c
			continue
		}
		r = c.lin(r, t.c, q)
	}
	rest[0] = cst
	return c.Add(r, c.fromMap(rest))
}

func (x *Exec) iteSimp(cond *Bool, a, b *Poly) *Poly {
	if a == b {
		return a
	}
	m := pins(x.c.Not(cond))
	if len(m) > 0 && x.substPins(a, m) == x.substPins(b, m) {
		return a
	}
	m = pins(cond)
	if len(m) > 0 && x.substPins(a, m) == x.substPins(b, m) {
		return b
	}
	if os.Getenv("VERIF_GI") != "" {
		fmt.Fprintf(os.Stderr, "ITE %s a=%d b=%d\n", x.dbgB(cond, 6), len(a.t), len(b.t))
	}
	return x.c.Ite(cond, a, b)
}

// ---------- building an element

// makeG: a representation of g in coordinate system cs; the scaling is a fresh
// non-zero element named by key.
func (x *Exec) makeG(g *GTerm, cs int64, key string, cl *callCtx) Value {
	c, f := x.c, x.c.f
	px, py := c.gX(g), c.gY(g)
	z := func(n string) *FPoly { return f.AtomPoly(f.Atom(n+":"+key, true)) }
	d2 := f.Const(new(big.Int).Mod(new(big.Int).Lsh(fieldD, 1), fieldP))
	var p []*FPoly
	var ctor string
	switch cs {
	case csP2:
		w := z("z")
		p, ctor = []*FPoly{f.Mul(px, w), f.Mul(py, w), w}, "NewEd25519GroupElementP2"
	case csP3:
		w := z("z")
		p, ctor = []*FPoly{f.Mul(px, w), f.Mul(py, w), w, f.Mul(f.Mul(px, py), w)}, "NewEd25519GroupElementP3"
	case csP1P1:
		w, t := z("z"), z("t")
		p, ctor = []*FPoly{f.Mul(px, w), f.Mul(py, t), w, t}, "NewEd25519GroupElementP1XP1"
	case csCached:
		w := z("z")
		p, ctor = []*FPoly{f.Mul(f.Add(py, px), w), f.Mul(f.Sub(py, px), w), w, f.Mul(f.Mul(d2, w), f.Mul(px, py))}, "NewEd25519GroupElementCached"
	case csPre:
		p, ctor = []*FPoly{f.Add(py, px), f.Sub(py, px), f.Mul(d2, f.Mul(px, py))}, "NewEd25519GroupElementPrecomputed"
	default:
		panic(bail("makeG"))
	}
	fn := x.pkg.Func(ctor)
	if fn == nil || fn.Signature.Params().Len() != len(p) {
		panic(bail(ctor + " is gone"))
	}
	var args []Value
	for i := range p {
		fm := x.newFam(fmt.Sprintf("G%d|%d|%s", i, cs, key), []falt{{c.tT, f.nf(p[i])}}, gLimits[cs][i])
		args = append(args, x.ptrTo(x.newObj("coord", fm.agg(), cl.st), 0))
	}
	r := x.Call(fn, args, nil, cl.st, cl.cond, cl.pos)
	cl.st = r.st
	return r.ret
}

func (x *Exec) sharedView(cl *callCtx, v Value) (cs int64, ok bool) {
	cs = -1
	switch u := v.(type) {
	case *PtrV:
		al := x.prune(u, cl.cond).alts
		for _, a := range al {
			if a.o == nil {
				return 0, false
			}
			w := x.viewCells(cl.st.get(a.o).cells, a.off)
			if w == nil || cs >= 0 && w.cs != cs {
				return 0, false
			}
			cs = w.cs
		}
	case Agg:
		if w := x.viewCells(u, 0); w != nil {
			cs = w.cs
		}
	}
	return cs, cs >= 0
}

func (x *Exec) realBody(cl *callCtx) Value {
	x.covered[cl.fn.String()]++
	r := x.run(cl.fn, cl.args, nil, cl.st, cl.cond)
	if r.pcond != x.c.tF {
		if r.cond == x.c.tF {
			cl.st, cl.cond, cl.pcond, cl.pval = r.pst, r.pcond, x.c.tT, r.pval
			return x.zeroResults(cl.fn)
		}
		panic(bail("a group operation may panic"))
	}
	cl.st, cl.cond = r.st, r.cond
	return r.ret
}

func (x *Exec) installGroup(lv int) {
	c := x.c
	for n, k := range map[string]int64{"AFFINE": csAffine, "P2": csP2, "P3": csP3, "P1xP1": csP1P1, "PRECOMPUTED": csPre, "CACHED": csCached} {
		if x.csNumber(n) != k {
			panic(bail("the coordinate systems are numbered differently"))
		}
	}
	reg := func(n string, np int, h handler) {
		for _, recv := range []string{"*", ""} {
			x.handlers["("+recv+targetPath+".Ed25519GroupElement)."+n] = func(x *Exec, cl *callCtx) Value {
				if cl.fn.Signature.Params().Len() != np {
					return x.realBody(cl)
				}
				return h(x, cl)
			}
		}
	}
	// result: the element, with a nil error where the function returns one
	ret := func(x *Exec, cl *callCtx, v Value) Value {
		if cl.fn.Signature.Results().Len() == 2 {
			return Tuple{v, x.nilErr()}
		}
		return v
	}
	sum := func(name string, other int64, op func(a, b *GTerm) *GTerm) {
		reg(name, 1, func(x *Exec, cl *callCtx) Value {
			ca, ok1 := x.sharedView(cl, cl.args[0])
			cb, ok2 := x.sharedView(cl, cl.args[1])
			if !ok1 || !ok2 || ca != csP3 || cb != other {
				return x.realBody(cl)
			}
			a, ka, _ := x.readG(cl, cl.args[0], name, csP3)
			b, kb, _ := x.readG(cl, cl.args[1], name, other)
			x.contr1(name)
			return ret(x, cl, x.makeG(op(a, b), csP1P1, name+"|"+ka+"|"+kb, cl))
		})
	}
	sum("add", csCached, c.gAdd)
	sum("subtract", csCached, c.gSub)
	sum("precomputedAdd", csPre, c.gAdd)
	sum("precomputedSubtract", csPre, c.gSub)
	reg("dbl", 0, func(x *Exec, cl *callCtx) Value {
		ca, ok := x.sharedView(cl, cl.args[0])
		if !ok || ca != csP2 && ca != csP3 {
			return x.realBody(cl)
		}
		a, ka, _ := x.readG(cl, cl.args[0], "dbl", csP2, csP3)
		x.contr1("dbl")
		return ret(x, cl, x.makeG(c.gMul(c.Int(2), a), csP1P1, "dbl|"+ka, cl))
	})
	reg("toCoordinateSystem", 1, func(x *Exec, cl *callCtx) Value {
		ca, ok := x.sharedView(cl, cl.args[0])
		to, ok2 := int64(-1), false
		if p, isp := cl.args[1].(*Poly); isp {
			to, ok2 = p.Int64()
		}
		if !ok || !ok2 || !(ca == csP3 && to == csCached || ca == csP1P1 && (to == csP2 || to == csP3)) {
			return x.realBody(cl)
		}
		a, ka, _ := x.readG(cl, cl.args[0], "toCoordinateSystem", ca)
		x.contr1("toCoordinateSystem")
		return ret(x, cl, x.makeG(a, to, fmt.Sprintf("conv%d|%s", to, ka), cl))
	})
	// the big.Int helpers (H_MAdd, H_MDbl)
	mu := "(*" + targetPath + ".mathUtils)."
	proj := func(cs int64) bool { return cs == csP2 || cs == csP3 }
	x.handlers[mu+"AddGroupElements"] = func(x *Exec, cl *callCtx) Value {
		if len(cl.args) != 3 {
			return x.realBody(cl)
		}
		ca, ok1 := x.sharedView(cl, cl.args[1])
		cb, ok2 := x.sharedView(cl, cl.args[2])
		if !ok1 || !ok2 || !proj(ca) || !proj(cb) {
			return x.realBody(cl)
		}
		a, ka, _ := x.readG(cl, cl.args[1], "AddGroupElements", csP2, csP3)
		b, kb, _ := x.readG(cl, cl.args[2], "AddGroupElements", csP2, csP3)
		x.contr1("AddGroupElements")
		return x.makeG(c.gAdd(a, b), csP3, "madd|"+ka+"|"+kb, cl)
	}
	x.handlers[mu+"DoubleGroupElement"] = func(x *Exec, cl *callCtx) Value {
		if len(cl.args) != 2 {
			return x.realBody(cl)
		}
		ca, ok := x.sharedView(cl, cl.args[1])
		if !ok || !proj(ca) {
			return x.realBody(cl)
		}
		a, ka, _ := x.readG(cl, cl.args[1], "DoubleGroupElement", csP2, csP3)
		x.contr1("DoubleGroupElement")
		return x.makeG(c.gMul(c.Int(2), a), csP3, "mdbl|"+ka, cl)
	}
	reg("Select", 2, func(x *Exec, cl *callCtx) Value { return x.selectContract(cl) })
	reg("slide", 1, func(x *Exec, cl *callCtx) Value { return x.slideContract(cl) })
	if lv >= modeL3 {
		x.installL3()
	}
}

// selectContract runs the real Select for each of the 17 digits and puts the
// selected multiples together.
func (x *Exec) selectContract(cl *callCtx) Value {
	c := x.c
	b, ok := cl.args[2].(*Poly)
	if !ok || b.IsConst() {
		return x.realBody(cl)
	}
	type one struct {
		v int64
		g *GTerm
	}
	var l []one
	atoms := map[*GAtom]bool{}
	key := ""
	for v := int64(-8); v <= 8; v++ {
		x.covered[cl.fn.String()]++
		st := cl.st.fork()
		r := x.run(cl.fn, []Value{cl.args[0], cl.args[1], c.Int(v)}, nil, st, cl.cond)
		if r.cond != cl.cond || r.pcond != c.tF {
			return x.realBody(cl)
		}
		t, ok := r.ret.(Tuple)
		if !ok || len(t) != 2 || x.ifaceNil(t[1]) != c.tT {
			return x.realBody(cl)
		}
		sub := &callCtx{fn: cl.fn, st: r.st, cond: cl.cond, pcond: c.tF, pos: cl.pos}
		g, k, ok := x.readG(sub, t[0], "Select", csPre)
		if !ok {
			return x.realBody(cl)
		}
		key += k
		for _, p := range g.parts {
			atoms[p.g] = true
		}
		l = append(l, one{v, g})
	}
	x.addOb("the digit given to Select is between -8 and 8", cl.cond, c.And(c.Le(c.Int(-8), b), c.Le(b, c.Int(8))), x.posStr(cl.pos))
	res := map[*GAtom]*Poly{}
	for a := range atoms {
		var co []*Poly
		for _, u := range l {
			k := c.Int(0)
			for _, p := range u.g.parts {
				if p.g == a {
					k = p.c
				}
			}
			co = append(co, k)
		}
		sl := c.Sub(co[9], co[8])
		lin := true
		for i := range co {
			lin = lin && co[i] == c.Add(co[8], c.Mul(c.Int(int64(i-8)), sl))
		}
		if lin {
			res[a] = c.Add(co[8], c.Mul(sl, b))
			continue
		}
		r := co[8]
		for i := range co {
			if i != 8 {
				r = c.Ite(c.EQ0(c.AddC(b, int64(8-i))), co[i], r)
			}
		}
		res[a] = r
	}
	x.contr1("Select")
	return Tuple{x.makeG(c.mkG(res), csPre, fmt.Sprintf("select|%d|%s", b.id, key), cl), x.nilErr()}
}

func (x *Exec) ifaceNil(v Value) *Bool {
	u, ok := v.(*IfaceV)
	if !ok {
		return x.c.tF
	}
	r := x.c.tF
	for _, a := range u.alts {
		if a.t == nil {
			r = x.c.Or(r, a.c)
		}
	}
	return r
}

// slideContract: 256 digits that are odd and at most 15 in absolute value or
// zero, and that add up to the scalar (verified by C18 for scalars below 2^253).
func (x *Exec) slideContract(cl *callCtx) Value {
	c := x.c
	b, ok := x.encBytes(cl, cl.args[1], "Ed25519EncodedFieldElement")
	if !ok {
		return x.realBody(cl)
	}
	n := x.bytesInt(b)
	if len(b) != 32 || n.IsConst() {
		return x.realBody(cl)
	}
	x.addOb("the scalar given to slide is within the verified bounds", cl.cond, c.Lt(n, c.Big(pow2(253))), x.posStr(cl.pos))
	d, ok := x.ks.g.slides[n.id]
	if !ok {
		dom := []int64{}
		for v := int64(-15); v <= 15; v++ {
			if v == 0 || v%2 != 0 {
				dom = append(dom, v)
			}
		}
		s := c.Int(0)
		for i := 0; i < 256; i++ {
			p := c.VarDom(fmt.Sprintf("slide%d.%d", n.id, i), dom)
			d = append(d, p)
			if i > 0 {
				s = c.lin(s, pow2(uint(i)), p)
			}
		}
		x.ks.g.slides[n.id] = d
		a, _, _ := c.single(d[0])
		x.ks.g.elim = append(x.ks.g.elim, elimRule{a, c.Sub(n, s)})
		c.axioms = append(c.axioms, c.EQ0(c.Sub(c.Add(s, d[0]), n)))
	}
	x.contr1("slide")
	return x.newBytes("slide", d, cl.st)
}

// elimAll replaces the lowest digit of every sliding window.
func (x *Exec) elimAll(p *Poly) *Poly {
	for _, r := range x.ks.g.elim {
		q := x.c.Int(0)
		rest := map[int32]*big.Int{}
		for _, t := range p.t {
			vs := x.c.monos[t.m].vars
			if len(vs) == 1 && x.c.atoms[vs[0]] == r.a {
				q = x.c.lin(q, t.c, r.p)
			} else {
				rest[t.m] = t.c
			}
		}
		p = x.c.Add(q, x.c.fromMap(rest))
	}
	return p
}

// gEq: a and b are the same element of the group.
func (x *Exec) gEq(a, b *GTerm) *Bool {
	c := x.c
	d := c.gSub(a, b)
	m := map[*GAtom]*Poly{}
	for _, p := range d.parts {
		m[p.g] = x.elimAll(p.c)
	}
	d = c.mkG(m)
	if len(d.parts) == 0 {
		return c.tT
	}
	z := c.GZero(d)
	if z.k == BGZero && !x.ks.used["gz"+d.key] {
		x.ks.used["gz"+d.key] = true
		var all []*Bool
		for _, p := range d.parts {
			all = append(all, c.EQ0(c.Mod(p.c, p.g.order)))
		}
		c.axioms = append(c.axioms, c.Implies(c.And(all...), z))
	}
	return z
}

// ---------- harness primitives on group terms

func gpv(g *GTerm) Value { return Agg{&Ghost{"g", g}} }

func gpOf(v Value) *GTerm {
	if a, ok := v.(Agg); ok && len(a) == 1 {
		if g, ok := a[0].(*Ghost); ok && g.kind == "g" {
			return g.v.(*GTerm)
		}
	}
	panic(bail("not a group specification value"))
}

func (x *Exec) installGroupAPI() {
	c := x.c
	reg := func(n string, f handler) { x.handlers[targetPath+"."+n] = f }
	reg("vGPt", func(x *Exec, cl *callCtx) Value { return gpv(c.gGen(c.GAtom("P:"+litArg(cl.args[0])), c.Int(1))) })
	reg("vGB", func(x *Exec, cl *callCtx) Value {
		a := c.GAtom("B")
		return gpv(c.gGen(a, c.Int(1)))
	})
	reg("vGMul", func(x *Exec, cl *callCtx) Value {
		return gpv(c.gMul(x.bigLoad(cl, cl.args[0]), gpOf(cl.args[1])))
	})
	reg("vGAdd", func(x *Exec, cl *callCtx) Value { return gpv(c.gAdd(gpOf(cl.args[0]), gpOf(cl.args[1]))) })
	reg("vGSub", func(x *Exec, cl *callCtx) Value { return gpv(c.gSub(gpOf(cl.args[0]), gpOf(cl.args[1]))) })
	reg("vGEq", func(x *Exec, cl *callCtx) Value { return x.gEq(gpOf(cl.args[0]), gpOf(cl.args[1])) })
	reg("vGEnc", func(x *Exec, cl *callCtx) Value {
		return x.newBytes("enc", x.bytesOfInt(c.EncInt(gpOf(cl.args[0])), 32), cl.st)
	})
	// the point that 32 bytes encode
	reg("vGDec", func(x *Exec, cl *callCtx) Value {
		b := x.bytesOf(cl.st, cl.args[0])
		if len(b) != 32 {
			return Tuple{gpv(c.gZero()), c.tF}
		}
		ok, g := x.decodes(x.bytesInt(b))
		return Tuple{gpv(g), ok}
	})
	reg("vGOf", func(x *Exec, cl *callCtx) Value {
		g, _, ok := x.readG(cl, cl.args[0], "the result")
		if !ok {
			panic(bail("vGOf: not a single kind of group element"))
		}
		return gpv(g)
	})
	reg("vGMake", func(x *Exec, cl *callCtx) Value {
		k, ok := cl.args[2].(*Poly).Int64()
		if !ok {
			panic(bail("vGMake"))
		}
		return x.makeG(gpOf(cl.args[1]), k, "in:"+litArg(cl.args[0]), cl)
	})
}
