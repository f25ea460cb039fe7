package main

// Contracts for the field layer: the verified behaviour of multiply, square,
// invert, ... (properties C11-C13) stands in for their bodies when the layers
// above are encoded. A field element is ten limb terms; the contract's result
// is ten fresh limb variables within the proved bounds, tagged with the
// element of F_p (a polynomial over F_p) that they represent.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"
)

// falt: the field element under a condition.
type falt struct {
	c *Bool
	p *FPoly
}

type kfam struct {
	key  string
	alts []falt
	at   [10]*Poly
}

type kref struct {
	f *kfam
	i int
}

type kstate struct {
	byKey map[string]*kfam
	byAt  map[int32]kref
	rec   map[string][]falt
	used  map[string]bool
	g     *gstate
}

func newKstate() *kstate {
	return &kstate{byKey: map[string]*kfam{}, byAt: map[int32]kref{}, rec: map[string][]falt{}, used: map[string]bool{}, g: newGstate()}
}

var limbExp = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func limbBound(i int, k int64) *big.Int {
	b := pow2(26)
	if i%2 == 1 {
		b = pow2(25)
	}
	b.Mul(b, bi(k))
	return b.Quo(b, bi(100))
}

// newFam makes (or finds) the limb variables of a contract result; the limbs
// are bounded by k hundredths of 2^26 / 2^25.
func (x *Exec) newFam(key string, alts []falt, k int64) *kfam {
	if f, ok := x.ks.byKey[key]; ok {
		return f
	}
	f := &kfam{key: key, alts: alts}
	n := len(x.ks.byKey)
	for i := 0; i < 10; i++ {
		b := limbBound(i, k)
		f.at[i] = x.c.Var(fmt.Sprintf("fe%d.%d", n, i), new(big.Int).Neg(b), b)
		a, _, _ := x.c.single(f.at[i])
		x.ks.byAt[int32(a.id)] = kref{f, i}
	}
	x.ks.byKey[key] = f
	return f
}

func (f *kfam) agg() Agg {
	r := make(Agg, 10)
	for i := range r {
		r[i] = f.at[i]
	}
	return r
}

func limbsOf(v Value) []*Poly {
	a, ok := v.(Agg)
	if !ok || len(a) != 10 {
		panic(bail("a field element is not ten limbs"))
	}
	r := make([]*Poly, 10)
	for i := range a {
		p, ok := a[i].(*Poly)
		if !ok {
			panic(bail("limb is not an integer"))
		}
		r[i] = p
	}
	return r
}

func (x *Exec) mergeAlts(l []falt) []falt {
	var out []falt
	idx := map[int]int{}
	for _, a := range l {
		if a.c == x.c.tF {
			continue
		}
		if i, ok := idx[a.p.id]; ok {
			out[i].c = x.c.Or(out[i].c, a.c)
			continue
		}
		idx[a.p.id] = len(out)
		out = append(out, a)
	}
	if len(out) == 1 {
		out[0].c = x.c.tT
	}
	return out
}

func (x *Exec) alts2(a, b []falt, f func(p, q *FPoly) *FPoly) []falt {
	var r []falt
	for _, u := range a {
		for _, v := range b {
			c := x.c.And(u.c, v.c)
			if c == x.c.tF {
				continue
			}
			r = append(r, falt{c, f(u.p, v.p)})
		}
	}
	if len(r) > 600 {
		panic(bail("too many alternatives of a field element"))
	}
	return x.mergeAlts(r)
}
func (x *Exec) alts1(a []falt, f func(p *FPoly) *FPoly) []falt {
	var r []falt
	for _, u := range a {
		r = append(r, falt{u.c, f(u.p)})
	}
	return x.mergeAlts(r)
}
func (x *Exec) fconst(v *big.Int) []falt { return []falt{{x.c.tT, x.c.f.Const(v)}} }

// recFE recovers the field element that ten limb terms represent.
func (x *Exec) recFE(l []*Poly) []falt {
	k := polysKey(l)
	if r, ok := x.ks.rec[k]; ok {
		return r
	}
	var out []falt
	x.recSplit(l, x.c.tT, &out, 0)
	out = x.mergeAlts(out)
	if os.Getenv("VERIF_DBG") != "" {
		fmt.Fprintf(os.Stderr, "rec %s %v\n", x.c.pStr(l[0], 2), len(out))
		for _, a := range out {
			fmt.Fprintf(os.Stderr, "   %s : %s\n", x.c.bStr(a.c, 2), x.c.f.Str(a.p))
		}
	}
	x.ks.rec[k] = out
	return out
}

func (x *Exec) recSplit(l []*Poly, cond *Bool, out *[]falt, depth int) {
	if cond == x.c.tF {
		return
	}
	if depth > 40 || len(*out) > 600 {
		panic(bail("too many cases for a field element"))
	}
	type fc struct {
		f *kfam
		k *big.Int
		n int
	}
	var fams []*fc
	cst := new(big.Int)
	for i, p := range l {
		for _, t := range p.t {
			if t.m == 0 {
				cst.Add(cst, new(big.Int).Lsh(t.c, limbExp[i]))
				continue
			}
			vs := x.c.monos[t.m].vars
			if len(vs) != 1 {
				x.splitLimb(l, p, vs, cond, out, depth)
				return
			}
			r, ok := x.ks.byAt[vs[0]]
			if !ok {
				x.splitLimb(l, p, vs, cond, out, depth)
				return
			}
			if r.i != i {
				panic(bailf("limb %d of a field element holds limb %d of another", i, r.i))
			}
			var g *fc
			for _, h := range fams {
				if h.f == r.f {
					g = h
				}
			}
			if g == nil {
				g = &fc{f: r.f, k: t.c}
				fams = append(fams, g)
			}
			if g.k.Cmp(t.c) != 0 {
				panic(bail("limbs of a field element are scaled differently"))
			}
			g.n++
		}
	}
	res := []falt{{cond, x.c.f.Const(cst)}}
	for _, g := range fams {
		if g.n != 10 {
			panic(bail("only some limbs of a field element were combined"))
		}
		res = x.alts2(res, g.f.alts, func(p, q *FPoly) *FPoly { return x.c.f.Lin(p, g.k, q) })
	}
	for _, r := range res {
		c := r.c
		if len(res) == 1 {
			c = cond
		}
		*out = append(*out, falt{c, r.p})
	}
}

// splitLimb does a case split on the condition (or the small-domain base) that
// keeps a limb from being a plain combination of limb variables.
func (x *Exec) splitLimb(l []*Poly, p *Poly, vs []int32, cond *Bool, out *[]falt, depth int) {
	for _, v := range vs {
		a := x.c.atoms[v]
		switch a.kind {
		case AGate:
			for _, val := range []bool{true, false} {
				nl := make([]*Poly, 10)
				for i := range l {
					nl[i] = x.assumeGate(l[i], a.cond, val)
				}
				cc := a.cond
				if !val {
					cc = x.c.Not(cc)
				}
				x.recSplit(nl, x.c.And(cond, cc), out, depth+1)
			}
			return
		case ATab:
			b := a.base
			// group base values by the resulting limbs
			type grp struct {
				l   []*Poly
				set []bool
			}
			groups := map[string]*grp{}
			var order []string
			for bi, v := range b.dom {
				nl := make([]*Poly, 10)
				for i := range l {
					nl[i] = x.assumeBase(l[i], b, v)
				}
				k := polysKey(nl)
				g, ok := groups[k]
				if !ok {
					g = &grp{l: nl, set: make([]bool, len(b.dom))}
					groups[k] = g
					order = append(order, k)
				}
				g.set[bi] = true
			}
			for _, k := range order {
				g := groups[k]
				x.recSplit(g.l, x.c.And(cond, x.c.setBool(b, g.set)), out, depth+1)
			}
			return
		}
	}
	panic(bail("a limb is not a combination of known field elements: " + x.c.pStr(p, 2)))
}

func (x *Exec) assumeGate(p *Poly, b *Bool, val bool) *Poly {
	r := x.c.Int(0)
	for _, t := range p.t {
		if t.m == 0 {
			r = x.c.Add(r, x.c.Big(t.c))
			continue
		}
		q := x.c.Int(1)
		for _, v := range x.c.monos[t.m].vars {
			a := x.c.atoms[v]
			if a.kind == AGate && a.cond == b {
				if val {
					q = x.c.Mul(q, x.assumeGate(a.args[0], b, val))
				} else {
					q = x.c.Int(0)
				}
			} else {
				q = x.c.Mul(q, x.c.atomPoly(a))
			}
		}
		r = x.c.lin(r, t.c, q)
	}
	return r
}

func (x *Exec) assumeBase(p *Poly, b *Base, v int64) *Poly {
	r := x.c.Int(0)
	for _, t := range p.t {
		if t.m == 0 {
			r = x.c.Add(r, x.c.Big(t.c))
			continue
		}
		q := x.c.Int(1)
		for _, id := range x.c.monos[t.m].vars {
			a := x.c.atoms[id]
			if a.kind == ATab && a.base == b {
				q = x.c.Mul(q, x.c.Big(a.vals[b.idx[v]]))
			} else {
				q = x.c.Mul(q, x.c.atomPoly(a))
			}
		}
		r = x.c.lin(r, t.c, q)
	}
	return r
}

// limbPre: the limb bounds a field operation was verified for.
func (x *Exec) limbPre(cl *callCtx, l []*Poly, k int64, what string) {
	for i, p := range l {
		b := limbBound(i, k)
		lo, hi := x.c.Bounds(p)
		if lo != nil && lo.CmpAbs(b) <= 0 && hi.CmpAbs(b) <= 0 {
			continue
		}
		good := x.c.And(x.c.Le(p, x.c.Big(b)), x.c.Le(x.c.Big(new(big.Int).Neg(b)), p))
		x.addOb("operands of "+what+" stay within the verified limb bounds", cl.cond, good, x.posStr(cl.pos))
	}
}

func (x *Exec) contr1(name string) { x.contr[name]++ }

// altInt: the canonical integer of a field element.
func (x *Exec) altInt(l []falt) *Poly {
	r := x.c.FieldInt(l[len(l)-1].p)
	for i := len(l) - 2; i >= 0; i-- {
		r = x.c.Ite(l[i].c, x.c.FieldInt(l[i].p), r)
	}
	return r
}

// altCond: the condition that pred holds of the element.
func (x *Exec) altCond(l []falt, pred func(p *FPoly) *Bool) *Bool {
	var r []*Bool
	for _, a := range l {
		r = append(r, x.c.And(a.c, pred(a.p)))
	}
	return x.c.Or(r...)
}

// fromInt: the field element with the given integer modulo p.
func (x *Exec) fromInt(n *Poly) []falt {
	c := x.c
	if k, ok := n.Const(); ok {
		return x.fconst(new(big.Int).Mod(k, fieldP))
	}
	if a, k, d := c.single(n); a != nil && a.kind == AField && k.Cmp(b1) == 0 && d.Sign() == 0 {
		return []falt{{c.tT, a.fp}}
	}
	if c.fieldy(n) {
		if q, ok := c.intToF(n); ok {
			return []falt{{c.tT, q}}
		}
	}
	// conditional integers
	for _, t := range n.t {
		if t.m == 0 {
			continue
		}
		for _, v := range c.monos[t.m].vars {
			if a := c.atoms[v]; a.kind == AGate && x.hasField(n) {
				var r []falt
				for _, u := range x.fromInt(x.assumeGate(n, a.cond, true)) {
					r = append(r, falt{c.And(a.cond, u.c), u.p})
				}
				for _, u := range x.fromInt(x.assumeGate(n, a.cond, false)) {
					r = append(r, falt{c.And(c.Not(a.cond), u.c), u.p})
				}
				return x.mergeAlts(r)
			}
		}
	}
	at := c.f.Atom("int{"+strconv.Itoa(n.id)+"}", false)
	at.n = n
	at.name = "y" + strconv.Itoa(at.id)
	return []falt{{c.tT, c.f.AtomPoly(at)}}
}

func (x *Exec) hasField(n *Poly) bool {
	r := false
	for _, t := range n.t {
		for _, v := range x.c.monos[t.m].vars {
			a := x.c.atoms[v]
			if a.kind == AField || a.kind == AEnc {
				r = true
			}
			if a.kind == AGate && x.hasField(a.args[0]) {
				r = true
			}
		}
	}
	return r
}

func (x *Exec) invPoly(p *FPoly) *FPoly {
	f := x.c.f
	p = f.nf(p)
	if q := f.Inv(p); q != nil {
		return q
	}
	at := f.Atom("inv{"+strconv.Itoa(p.id)+"}", f.isNZ(p))
	at.name = "inv" + strconv.Itoa(at.id)
	q := f.AtomPoly(at)
	if at.nonzero && !f.invDone[p.id] {
		f.invDone[p.id] = true
		f.hyps = append(f.hyps, f.Sub(f.Mul(p, q), f.Const(b1)))
	}
	return q
}

func (x *Exec) feResult(op string, keys []string, alts []falt, k int64) Agg {
	return x.newFam(op+"|"+strings.Join(keys, "|"), alts, k).agg()
}

func structPtrAlts(x *Exec, cl *callCtx, v Value) []PtrAlt {
	p, ok := v.(*PtrV)
	if !ok {
		panic(bail("pointer expected"))
	}
	p = x.prune(p, cl.cond)
	var out []PtrAlt
	for _, a := range p.alts {
		if a.o == nil {
			x.clPanic(cl, a.c, "invalid memory address or nil pointer dereference")
			continue
		}
		out = append(out, a)
	}
	return out
}

// fieldOff: the cell of a struct field.
func (x *Exec) fieldOff(typ, field string) int {
	o := x.pkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		panic(bail("type " + typ + " is gone"))
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		panic(bail("type " + typ + " is not a struct"))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return x.layoutOf(o.Type()).offs[i]
		}
	}
	panic(bail("field " + typ + "." + field + " is gone"))
}

const modeMul, modeFe, modeSqrt, modeGroup, modeL3 = 1, 2, 3, 4, 5

var modeNo = map[string]int{"mul": 1, "fe": 2, "sqrt": 3, "group": 4, "l3": 5}

func (x *Exec) installContracts(mode string) {
	lv, ok := modeNo[mode]
	if !ok {
		panic(bail("unknown contract mode " + mode))
	}
	c, f := x.c, x.c.f
	fe := "(" + targetPath + ".Ed25519FieldElement)."
	reg := func(n string, h handler) { x.handlers[n] = h }
	binop := func(name string, op func(p, q *FPoly) *FPoly) {
		reg(fe+name, func(x *Exec, cl *callCtx) Value {
			a, b := limbsOf(cl.args[0]), limbsOf(cl.args[1])
			x.limbPre(cl, a, 165, name)
			x.limbPre(cl, b, 165, name)
			x.contr1(name)
			ka, kb := polysKey(a), polysKey(b)
			return x.feResult(name, []string{ka, kb}, x.alts2(x.recFE(a), x.recFE(b), op), 51)
		})
	}
	unop := func(name string, k int64, op func(p *FPoly) *FPoly) {
		reg(fe+name, func(x *Exec, cl *callCtx) Value {
			a := limbsOf(cl.args[0])
			x.limbPre(cl, a, 165, name)
			x.contr1(name)
			return x.feResult(name, []string{polysKey(a)}, x.alts1(x.recFE(a), op), k)
		})
	}
	binop("multiply", func(p, q *FPoly) *FPoly { return f.nf(f.Mul(p, q)) })
	unop("square", 51, func(p *FPoly) *FPoly { return f.nf(f.Mul(p, p)) })
	unop("squareAndDouble", 51, func(p *FPoly) *FPoly { return f.nf(f.Scale(b2, f.Mul(p, p))) })
	if lv < modeFe {
		return
	}
	unop("invert", 51, func(p *FPoly) *FPoly { return x.invPoly(p) })
	encT := x.pkg.Pkg.Scope().Lookup("NewEd25519EncodedFieldElement")
	if encT == nil {
		panic(bail("NewEd25519EncodedFieldElement is gone"))
	}
	newEnc := x.pkg.Func("NewEd25519EncodedFieldElement")
	reg(fe+"Encode", func(x *Exec, cl *callCtx) Value {
		a := limbsOf(cl.args[0])
		x.limbPre(cl, a, 110, "Encode")
		x.contr1("Encode")
		n := x.altInt(x.recFE(a))
		sl := x.newBytes("encoded", x.bytesOfInt(n, 32), cl.st)
		r := x.Call(newEnc, []Value{sl}, nil, cl.st, cl.cond, cl.pos)
		cl.st = r.st
		t, ok := r.ret.(Tuple)
		if !ok {
			panic(bail("NewEd25519EncodedFieldElement"))
		}
		return t[0]
	})
	dec := "(*" + targetPath + ".Ed25519EncodedFieldElement).Decode"
	reg(dec, func(x *Exec, cl *callCtx) Value {
		al := structPtrAlts(x, cl, cl.args[0])
		if len(al) != 1 {
			panic(bail("Decode of several encodings"))
		}
		raw := cl.st.get(al[0].o).cells[al[0].off+x.fieldOff("Ed25519EncodedFieldElement", "Raw")]
		b := x.bytesOf(cl.st, raw)
		if len(b) != 32 {
			r := x.run(cl.fn, cl.args, nil, cl.st, cl.cond)
			cl.st, cl.cond, cl.pcond, cl.pval = r.st, r.cond, r.pcond, r.pval
			return r.ret
		}
		x.contr1("Decode")
		n := c.Mod(x.bytesInt(b), pow2(255))
		fm := x.newFam("decode|"+strconv.Itoa(n.id), x.fromInt(n), 51)
		o := x.newObj("decoded", fm.agg(), cl.st)
		return x.ptrTo(o, 0)
	})
	reg(targetPath+".isEqualConstantTime", func(x *Exec, cl *callCtx) Value {
		x.contr1("isEqualConstantTime")
		return x.slicesEq(cl.st, cl.args[0], cl.args[1])
	})
	reg("(*"+targetPath+".mathUtils).ToByteArray", func(x *Exec, cl *callCtx) Value {
		n := x.bigLoad(cl, cl.args[1])
		if lo, hi := c.Bounds(n); cl.fn.Signature.Params().Len() != 1 || lo == nil || lo.Sign() < 0 || hi.BitLen() > 256 {
			return x.realBody(cl)
		}
		x.contr1("ToByteArray")
		return x.newBytes("ToByteArray", x.bytesOfInt(n, 32), cl.st)
	})
	if lv < modeSqrt {
		return
	}
	reg(targetPath+".Ed25519FieldElementSqrt", func(x *Exec, cl *callCtx) Value {
		u, v := limbsOf(cl.args[0]), limbsOf(cl.args[1])
		x.limbPre(cl, u, 165, "sqrt")
		x.limbPre(cl, v, 165, "sqrt")
		x.contr1("Ed25519FieldElementSqrt")
		return x.feResult("sqrt", []string{polysKey(u), polysKey(v)}, x.alts2(x.recFE(u), x.recFE(v), x.sqrtPoly), 51)
	})
	reg("(*"+targetPath+".mathUtils).getSqrtOfFraction", func(x *Exec, cl *callCtx) Value {
		if cl.fn.Signature.Params().Len() != 2 {
			return x.realBody(cl)
		}
		u, ok := c.intToF(x.bigLoad(cl, cl.args[1]))
		v, ok2 := c.intToF(x.bigLoad(cl, cl.args[2]))
		if !ok || !ok2 {
			return x.realBody(cl)
		}
		x.contr1("getSqrtOfFraction")
		return x.bigNew(cl.st, c.FieldInt(x.sqrtPoly(u, v)))
	})
	if lv < modeGroup {
		return
	}
	x.installGroup(lv)
}

// sqrtPoly is u v^3 (u v^7)^((p-5)/8): an opaque element, or a number.
func (x *Exec) sqrtPoly(u, v *FPoly) *FPoly {
	f := x.c.f
	u, v = f.nf(u), f.nf(v)
	if a, ok := u.IsConst(); ok {
		if b, ok := v.IsConst(); ok {
			return f.Const(sqrtFormula(a, b))
		}
	}
	at := f.Atom(fmt.Sprintf("sqrt{%d,%d}", u.id, v.id), false)
	return f.AtomPoly(at)
}

func sqrtFormula(u, v *big.Int) *big.Int {
	v3 := new(big.Int).Exp(v, bi(3), fieldP)
	v7 := new(big.Int).Exp(v, bi(7), fieldP)
	e := new(big.Int).Rsh(new(big.Int).Sub(fieldP, bi(5)), 3)
	t := new(big.Int).Mul(u, v7)
	t.Exp(t.Mod(t, fieldP), e, fieldP)
	t.Mul(t, u)
	t.Mul(t, v3)
	return t.Mod(t, fieldP)
}
