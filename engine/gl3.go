package main

// The top layer: contracts of point encoding and decoding (C16), scalar
// arithmetic (C14) and scalar multiplication (C17, C18), used when the
// signature, key and cipher code is executed.

import (
	"fmt"
	"math/big"
)

// encBytes: the Raw bytes behind an encoded field or group element pointer.
func (x *Exec) encBytes(cl *callCtx, v Value, typ string) ([]*Poly, bool) {
	p, ok := v.(*PtrV)
	if !ok {
		return nil, false
	}
	type alt struct {
		c *Bool
		b []*Poly
	}
	var l []alt
	for _, a := range x.prune(p, cl.cond).alts {
		if a.o == nil {
			return nil, false
		}
		s, ok := cl.st.get(a.o).cells[a.off+x.fieldOff(typ, "Raw")].(*SliceV)
		if !ok {
			return nil, false
		}
		for _, sa := range s.alts {
			if sa.rope != nil {
				return nil, false
			}
			g := x.c.And(a.c, sa.c)
			if x.c.And(g, cl.cond) == x.c.tF {
				continue
			}
			b := x.sliceBytes(cl.st, sa)
			if len(l) > 0 && len(b) != len(l[0].b) {
				return nil, false
			}
			l = append(l, alt{g, b})
		}
	}
	if len(l) == 0 {
		return nil, false
	}
	if len(l) == 1 || len(l[0].b) == 0 {
		return l[0].b, true
	}
	n := x.bytesInt(l[0].b)
	for _, a := range l[1:] {
		n = x.c.Ite(a.c, x.bytesInt(a.b), n)
	}
	return x.bytesOfInt(n, len(l[0].b)), true
}

// newEncoded builds an encoded element through the real constructor.
func (x *Exec) newEncoded(cl *callCtx, ctor string, b []*Poly) Value {
	fn := x.pkg.Func(ctor)
	if fn == nil || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 2 {
		panic(bail(ctor + " is gone"))
	}
	r := x.Call(fn, []Value{x.newBytes("encoded", b, cl.st)}, nil, cl.st, cl.cond, cl.pos)
	cl.st = r.st
	t, ok := r.ret.(Tuple)
	if !ok || len(t) != 2 || x.ifaceNil(t[1]) != x.c.tT {
		panic(bail(ctor))
	}
	return t[0]
}

// single object behind a pointer
func (x *Exec) soleObj(cl *callCtx, v Value) (*Obj, int, bool) {
	p, ok := v.(*PtrV)
	if !ok {
		return nil, 0, false
	}
	al := x.prune(p, cl.cond).alts
	if len(al) != 1 || al[0].o == nil {
		return nil, 0, false
	}
	return al[0].o, al[0].off, true
}

// tableOK: obligations that the lookup table holds the multiples of g that it
// stands for; false when the table cannot be read.
func (x *Exec) tableOK(cl *callCtx, v Value, field string, g *GTerm) bool {
	c := x.c
	o, off, ok := x.soleObj(cl, v)
	if !ok {
		return false
	}
	t, ok := cl.st.get(o).cells[off+x.fieldOff("Ed25519GroupElement", field)].(*SliceV)
	if !ok {
		return false
	}
	list := func(s *SliceV) []Value {
		var al []SlAlt
		for _, a := range s.alts {
			if c.And(cl.cond, a.c) != c.tF {
				al = append(al, a)
			}
		}
		if len(al) != 1 || al[0].o == nil || al[0].rope != nil || al[0].len == 0 {
			return nil
		}
		var r []Value
		for i := 0; i < al[0].len; i++ {
			r = append(r, cl.st.get(al[0].o).cells[al[0].off+i*s.es])
		}
		return r
	}
	check := func(e Value, k *big.Int, what string) bool {
		if cs, ok := x.sharedView(cl, e); !ok || cs != csPre {
			return false
		}
		h, _, ok := x.readG(cl, e, "the lookup table", csPre)
		if !ok {
			return false
		}
		if good := x.gEq(h, c.gMul(c.Big(k), g)); good != c.tT {
			x.addOb("the lookup table holds the multiples of the point", cl.cond, good, x.posStr(cl.pos))
		}
		return true
	}
	rows := list(t)
	if field == "precomputedForDouble" {
		if len(rows) != 8 {
			return false
		}
		for j, e := range rows {
			if !check(e, bi(int64(2*j+1)), "") {
				return false
			}
		}
		return true
	}
	if len(rows) != 32 {
		return false
	}
	for i, r := range rows {
		s, ok := r.(*SliceV)
		if !ok {
			return false
		}
		es := list(s)
		if len(es) != 8 {
			return false
		}
		for j, e := range es {
			if !check(e, new(big.Int).Lsh(bi(int64(j+1)), uint(8*i)), "") {
				return false
			}
		}
	}
	return true
}

// decodes: the predicate "this 256-bit integer is the encoding of a point" and
// the point.
func (x *Exec) decodes(n *Poly) (*Bool, *GTerm) {
	c := x.c
	if k, ok := n.Const(); ok {
		y := new(big.Int).Mod(k, pow2(255))
		y.Mod(y, fieldP)
		px, ok := refRecoverX(y, k.Bit(255))
		if !ok {
			return c.tF, c.gZero()
		}
		return c.tT, x.pointOf(c.f.Const(px), c.f.Const(y))
	}
	if a, k, d := c.single(n); a != nil && a.kind == AEnc && k.Cmp(b1) == 0 && d.Sign() == 0 {
		return c.tT, a.grp
	}
	return c.Pred("decodes", []*Poly{n}), c.gGen(c.GAtom(fmt.Sprintf("D%d", n.id)), c.Int(1))
}

func (x *Exec) installL3() {
	c := x.c
	ge := "(*" + targetPath + ".Ed25519GroupElement)."
	fe := "(*" + targetPath + ".Ed25519EncodedFieldElement)."
	reg := func(n string, np, nr int, h handler) {
		x.handlers[n] = func(x *Exec, cl *callCtx) Value {
			if cl.fn.Signature.Params().Len() != np || cl.fn.Signature.Results().Len() != nr {
				return x.realBody(cl)
			}
			return h(x, cl)
		}
	}
	reg(ge+"Encode", 0, 2, func(x *Exec, cl *callCtx) Value {
		cs, ok := x.sharedView(cl, cl.args[0])
		if !ok || cs != csP2 && cs != csP3 {
			return x.realBody(cl)
		}
		g, _, ok := x.readG(cl, cl.args[0], "Encode", csP2, csP3)
		if !ok {
			return x.realBody(cl)
		}
		x.contr1("Encode (group)")
		return Tuple{x.newEncoded(cl, "NewEd25519EncodedGroupElement", x.bytesOfInt(c.EncInt(g), 32)), x.nilErr()}
	})
	reg("(*"+targetPath+".Ed25519EncodedGroupElement).Decode", 0, 2, func(x *Exec, cl *callCtx) Value {
		b, ok := x.encBytes(cl, cl.args[0], "Ed25519EncodedGroupElement")
		if !ok || len(b) != 32 {
			return x.realBody(cl)
		}
		n := x.bytesInt(b)
		x.contr1("Decode (group)")
		ok2, g := x.decodes(n)
		if ok2 == c.tF {
			return Tuple{x.zero(cl.fn.Signature.Results().At(0).Type()), x.newErr("not a point")}
		}
		p := x.makeG(g, csP3, fmt.Sprintf("decode|%d", n.id), cl)
		if ok2 == c.tT {
			return Tuple{p, x.nilErr()}
		}
		return Tuple{x.ite(ok2, p, x.zero(cl.fn.Signature.Results().At(0).Type())), x.ite(ok2, x.nilErr(), x.newErr("not a point"))}
	})
	reg(ge+"scalarMultiply", 1, 2, func(x *Exec, cl *callCtx) Value {
		b, ok := x.encBytes(cl, cl.args[1], "Ed25519EncodedFieldElement")
		cs, ok2 := x.sharedView(cl, cl.args[0])
		if !ok || !ok2 || len(b) != 32 || cs != csP3 && cs != csP2 {
			return x.realBody(cl)
		}
		g, k, ok := x.readG(cl, cl.args[0], "scalarMultiply", csP2, csP3)
		if !ok || !x.tableOK(cl, cl.args[0], "precomputedForSingle", g) {
			return x.realBody(cl)
		}
		n := x.bytesInt(b)
		x.addOb("the scalar given to scalarMultiply is within the verified bounds", cl.cond, c.Lt(n, c.Big(pow2(255))), x.posStr(cl.pos))
		x.contr1("scalarMultiply")
		return Tuple{x.makeG(c.gMul(n, g), csP3, fmt.Sprintf("smul|%d|%s", n.id, k), cl), x.nilErr()}
	})
	reg(ge+"doubleScalarMultiplyVariableTime", 3, 2, func(x *Exec, cl *callCtx) Value {
		a, ok := x.encBytes(cl, cl.args[2], "Ed25519EncodedFieldElement")
		b, ok2 := x.encBytes(cl, cl.args[3], "Ed25519EncodedFieldElement")
		ca, ok3 := x.sharedView(cl, cl.args[1])
		cb, ok4 := x.sharedView(cl, cl.args[0])
		if !ok || !ok2 || !ok3 || !ok4 || len(a) != 32 || len(b) != 32 || ca != csP3 || cb != csP3 {
			return x.realBody(cl)
		}
		ga, ka, ok := x.readG(cl, cl.args[1], "doubleScalarMultiply", csP3)
		gb, kb, ok2 := x.readG(cl, cl.args[0], "doubleScalarMultiply", csP3)
		if !ok || !ok2 || !x.tableOK(cl, cl.args[1], "precomputedForDouble", ga) || !x.tableOK(cl, cl.args[0], "precomputedForDouble", gb) {
			return x.realBody(cl)
		}
		na, nb := x.bytesInt(a), x.bytesInt(b)
		x.addOb("the scalars given to doubleScalarMultiply are within the verified bounds", cl.cond, c.And(c.Lt(na, c.Big(groupL)), c.Lt(nb, c.Big(groupL))), x.posStr(cl.pos))
		x.contr1("doubleScalarMultiplyVariableTime")
		return Tuple{x.makeG(c.gSub(c.gMul(nb, gb), c.gMul(na, ga)), csP2, fmt.Sprintf("dmul|%d|%d|%s|%s", na.id, nb.id, ka, kb), cl), x.nilErr()}
	})
	reg(fe+"modQ", 0, 1, func(x *Exec, cl *callCtx) Value {
		b, ok := x.encBytes(cl, cl.args[0], "Ed25519EncodedFieldElement")
		if !ok || len(b) != 64 {
			return x.realBody(cl)
		}
		x.contr1("modQ")
		return x.newEncoded(cl, "NewEd25519EncodedFieldElement", x.bytesOfInt(c.Mod(x.bytesInt(b), groupL), 32))
	})
	reg(fe+"multiplyAndAddModQ", 2, 1, func(x *Exec, cl *callCtx) Value {
		a, ok := x.encBytes(cl, cl.args[0], "Ed25519EncodedFieldElement")
		b, ok2 := x.encBytes(cl, cl.args[1], "Ed25519EncodedFieldElement")
		d, ok3 := x.encBytes(cl, cl.args[2], "Ed25519EncodedFieldElement")
		if !ok || !ok2 || !ok3 || len(a) != 32 || len(b) != 32 || len(d) != 32 {
			return x.realBody(cl)
		}
		x.contr1("multiplyAndAddModQ")
		n := c.Add(c.Mul(x.bytesInt(a), x.bytesInt(b)), x.bytesInt(d))
		return x.newEncoded(cl, "NewEd25519EncodedFieldElement", x.bytesOfInt(c.Mod(n, groupL), 32))
	})
}
