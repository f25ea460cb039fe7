package crypto

// C15, C16, C19: the group law, conversions, encodings and comparisons, over
// the verified field operations.

import "math/big"

func init() {
	vReg("H_GAdd", H_GAdd)
	vReg("H_GPre", H_GPre)
	vReg("H_GDbl", H_GDbl)
	vReg("H_GNeg", H_GNeg)
	vReg("H_GConv", H_GConv)
	vReg("H_GRefuse", H_GRefuse)
	vReg("H_GRefuseOp", H_GRefuseOp)
	vReg("H_GZero", H_GZero)
	vReg("H_GEnc", H_GEnc)
	vReg("H_GDec", H_GDec)
	vReg("H_GDecEnc", H_GDecEnc)
	vReg("H_GDecLen", H_GDecLen)
	vReg("H_GAffine", H_GAffine)
	vReg("H_GEq", H_GEq)
	vReg("H_GEqNil", H_GEqNil)
	vReg("H_GCurve", H_GCurve)
}

// vIs: g represents (x,y) in coordinate system cs with a non-zero denominator
func vIs(g *Ed25519GroupElement, cs CoordinateSystem, x, y vFp) bool {
	if g == nil || g.coordinateSystem != cs {
		return false
	}
	X, Y, Z := vFOf(*g.X), vFOf(*g.Y), vFOf(*g.Z)
	d2 := vFMul(vTwo(), vD())
	nz := vNot(vFEq(Z, vZero()))
	switch cs {
	case P2:
		return vAnd(nz, vAnd(vFEq(X, vFMul(x, Z)), vFEq(Y, vFMul(y, Z))))
	case P3:
		T := vFOf(*g.T)
		return vAnd(vAnd(nz, vFEq(vFMul(T, Z), vFMul(X, Y))), vAnd(vFEq(X, vFMul(x, Z)), vFEq(Y, vFMul(y, Z))))
	case P1xP1:
		T := vFOf(*g.T)
		return vAnd(vAnd(nz, vNot(vFEq(T, vZero()))), vAnd(vFEq(X, vFMul(x, Z)), vFEq(Y, vFMul(y, T))))
	case CACHED:
		T := vFOf(*g.T)
		return vAnd(vAnd(nz, vFEq(T, vFMul(d2, vFMul(vFMul(x, y), Z)))), vAnd(vFEq(X, vFMul(vFAdd(y, x), Z)), vFEq(Y, vFMul(vFSub(y, x), Z))))
	case PRECOMPUTED:
		return vAnd(vFEq(Z, vFMul(d2, vFMul(x, y))), vAnd(vFEq(X, vFAdd(y, x)), vFEq(Y, vFSub(y, x))))
	}
	return false
}

type vGESnap struct {
	g    *Ed25519GroupElement
	cs   CoordinateSystem
	p    [4]*Ed25519FieldElement
	v    [4]Ed25519FieldElement
	s, d int
}

func vSnapGE(g *Ed25519GroupElement) (r vGESnap) {
	r.g, r.cs = g, g.coordinateSystem
	r.p = [4]*Ed25519FieldElement{g.X, g.Y, g.Z, g.T}
	for i := 0; i < 4; i++ {
		if r.p[i] != nil {
			r.v[i] = *r.p[i]
		}
	}
	r.s, r.d = len(g.precomputedForSingle), len(g.precomputedForDouble)
	return r
}
func (r *vGESnap) same() bool {
	q := [4]*Ed25519FieldElement{r.g.X, r.g.Y, r.g.Z, r.g.T}
	if r.g.coordinateSystem != r.cs || len(r.g.precomputedForSingle) != r.s || len(r.g.precomputedForDouble) != r.d {
		return false
	}
	for i := 0; i < 4; i++ {
		if q[i] != r.p[i] {
			return false
		}
		if q[i] != nil && q[i].Raw != r.v[i].Raw {
			return false
		}
	}
	return true
}

// vWithinGE: limb bounds that the operations rely on
func vWithinGE(g *Ed25519GroupElement, k int64) bool {
	r := true
	for _, f := range []*Ed25519FieldElement{g.X, g.Y, g.Z, g.T} {
		if f != nil {
			r = vAnd(r, vWithin(f.Raw, k))
		}
	}
	return r
}

// vSumP1: g represents p+q in P1xP1, by cross-multiplied addition law
func vSum(g *Ed25519GroupElement, x1, y1, x2, y2 vFp) bool {
	if g == nil || g.coordinateSystem != P1xP1 {
		return false
	}
	X, Y, Z, T := vFOf(*g.X), vFOf(*g.Y), vFOf(*g.Z), vFOf(*g.T)
	k := vFMul(vD(), vFMul(vFMul(x1, x2), vFMul(y1, y2)))
	nx, dx := vFAdd(vFMul(x1, y2), vFMul(x2, y1)), vFAdd(vOne(), k)
	ny, dy := vFAdd(vFMul(y1, y2), vFMul(x1, x2)), vFSub(vOne(), k)
	r := vAnd(vFEq(vFMul(X, dx), vFMul(nx, Z)), vFEq(vFMul(Y, dy), vFMul(ny, T)))
	return vAnd(r, vAnd(vNot(vFEq(Z, vZero())), vNot(vFEq(T, vZero()))))
}

// the denominators of the addition law never vanish on the curve (d is not a
// square modulo p)
func vComplete(x1, y1, x2, y2 vFp) {
	k := vFMul(vD(), vFMul(vFMul(x1, x2), vFMul(y1, y2)))
	vFNonzero(vFAdd(vOne(), k))
	vFNonzero(vFSub(vOne(), k))
}

func H_GAdd() {
	vContracts("fe")
	x1, y1 := vPt("p")
	x2, y2 := vPt("q")
	vComplete(x1, y1, x2, y2)
	p, q := vGE("1", P3, x1, y1), vGE("2", CACHED, x2, y2)
	sp, sq := vSnapGE(p), vSnapGE(q)
	r := p.add(q)
	vAssert(vSum(r, x1, y1, x2, y2), "add is the addition law")
	vAssert(vWithinGE(r, 3*vK), "the sum stays within the limb bounds")
	s := p.subtract(q)
	vAssert(vSum(s, x1, y1, vFNeg(x2), y2), "subtract adds the negative")
	vAssert(vWithinGE(s, 3*vK), "the difference stays within the limb bounds")
	vAssert(sp.same() && sq.same(), "the operands are not modified")
}

func H_GPre() {
	vContracts("fe")
	x1, y1 := vPt("p")
	x2, y2 := vPt("q")
	vComplete(x1, y1, x2, y2)
	p, q := vGE("1", P3, x1, y1), vGE("2", PRECOMPUTED, x2, y2)
	sp, sq := vSnapGE(p), vSnapGE(q)
	r, err := p.precomputedAdd(q)
	vAssert(err == nil && vSum(r, x1, y1, x2, y2), "precomputedAdd is the addition law")
	vAssert(vWithinGE(r, 3*vK), "the sum stays within the limb bounds")
	s := p.precomputedSubtract(q)
	vAssert(vSum(s, x1, y1, vFNeg(x2), y2), "precomputedSubtract adds the negative")
	vAssert(vWithinGE(s, 3*vK), "the difference stays within the limb bounds")
	vAssert(sp.same() && sq.same(), "the operands are not modified")
}

func H_GDbl() {
	vContracts("fe")
	x, y := vPt("p")
	vComplete(x, y, x, y)
	for _, cs := range []CoordinateSystem{P2, P3} {
		p := vGE(vDig[int(cs)], cs, x, y)
		sp := vSnapGE(p)
		r := p.dbl()
		vAssert(vSum(r, x, y, x, y), "dbl is the addition of a point to itself")
		vAssert(vWithinGE(r, 3*vK), "the double stays within the limb bounds")
		vAssert(sp.same(), "the operand is not modified")
	}
}

func H_GNeg() {
	vContracts("fe")
	x, y := vPt("p")
	p := vGE("1", P3, x, y)
	sp := vSnapGE(p)
	r, err := p.negate()
	vAssert(err == nil && vIs(r, P3, vFNeg(x), y), "negate flips the sign of x")
	vAssert(vWithinGE(r, vK), "the negative stays within the limb bounds")
	vAssert(sp.same(), "the operand is not modified")
	for _, cs := range []CoordinateSystem{AFFINE, P2, P1xP1, PRECOMPUTED, CACHED} {
		q, err := vGE("n"+vDig[int(cs)], cs, x, y).negate()
		vAssert(err != nil && q == nil, "negate refuses other coordinate systems")
	}
}

func vConvertible(a, b CoordinateSystem) bool {
	switch a {
	case P2:
		return b == P2
	case P3:
		return b == P2 || b == P3 || b == CACHED
	case P1xP1:
		return b == P2 || b == P3 || b == P1xP1
	case PRECOMPUTED:
		return b == PRECOMPUTED
	case CACHED:
		return b == CACHED
	}
	return false
}

func H_GConv() {
	vContracts("fe")
	x, y := vPt("p")
	for a := AFFINE; a <= CACHED; a++ {
		for b := AFFINE; b <= CACHED; b++ {
			if !vConvertible(a, b) {
				continue
			}
			p := vGE(vDig[int(a)]+vDig[int(b)], a, x, y)
			sp := vSnapGE(p)
			r := p.toCoordinateSystem(b)
			vAssert(vIs(r, b, x, y), "a conversion preserves the point")
			k := int64(vK)
			if b == P1xP1 {
				k = 3 * vK
			} else if b == CACHED || b == PRECOMPUTED {
				k = 2 * vK
			}
			vAssert(vWithinGE(r, k), "a conversion stays within the limb bounds")
			vAssert(sp.same(), "the operand is not modified")
		}
	}
	p3 := vGE("a", P3, x, y)
	vAssert(vIs(p3.toP2(), P2, x, y), "toP2 preserves the point")
	vAssert(vIs(p3.toP3(), P3, x, y), "toP3 preserves the point")
	vAssert(vIs(p3.toCached(), CACHED, x, y), "toCached preserves the point")
	c := p3.copy()
	vAssert(c != p3 && vIs(c, P3, x, y), "copy preserves the point")
}

func H_GRefuse() {
	vContracts("fe")
	x, y := vPt("p")
	for a := AFFINE; a <= CACHED+1; a++ {
		for b := AFFINE; b <= CACHED+1; b++ {
			if vConvertible(a, b) {
				continue
			}
			p := vGE(vDig[int(a)]+vDig[int(b)], a, x, y)
			p.coordinateSystem = a
			sp := vSnapGE(p)
			vAssert(vPanics(func() { p.toCoordinateSystem(b) }), "an unsupported conversion is refused")
			vAssert(sp.same(), "a refused conversion modifies nothing")
		}
	}
}

func H_GRefuseOp() {
	vContracts("fe")
	x, y := vPt("p")
	all := []CoordinateSystem{AFFINE, P2, P3, P1xP1, PRECOMPUTED, CACHED}
	for _, a := range all {
		for _, b := range all {
			n := vDig[int(a)] + vDig[int(b)]
			p, q := vGE("p"+n, a, x, y), vGE("q"+n, b, x, y)
			if a != P3 || b != CACHED {
				vAssert(vPanics(func() { p.add(q) }), "add refuses other coordinate systems")
				vAssert(vPanics(func() { p.subtract(q) }), "subtract refuses other coordinate systems")
			}
			if a != P3 || b != PRECOMPUTED {
				r, err := p.precomputedAdd(q)
				vAssert(err != nil && r == nil, "precomputedAdd refuses other coordinate systems")
				vAssert(vPanics(func() { p.precomputedSubtract(q) }), "precomputedSubtract refuses other coordinate systems")
			}
		}
		if a != P2 && a != P3 {
			p := vGE("d"+vDig[int(a)], a, x, y)
			vAssert(vPanics(func() { p.dbl() }), "dbl refuses other coordinate systems")
		}
	}
}

func H_GZero() {
	vContracts("fe")
	z, o := vZero(), vOne()
	vAssert(vIs(Ed25519Group.ZERO_P2(), P2, z, o), "the neutral element in P2")
	vAssert(vIs(Ed25519Group.ZERO_P3(), P3, z, o), "the neutral element in P3")
	vAssert(vIs(Ed25519Group.ZERO_PRECOMPUTED(), PRECOMPUTED, z, o), "the precomputed neutral element")
	b := Ed25519Group.BASE_POINT()
	by := vFMul(vFC(big.NewInt(4)), vFInv(vFC(big.NewInt(5))))
	vAssert(b.coordinateSystem == P3 && vFEq(vFOf(*b.Y), vFMul(by, vFOf(*b.Z))), "the base point has y = 4/5")
	bx := vFMul(vFOf(*b.X), vFInv(vFOf(*b.Z)))
	vAssert(vFInt(bx).Bit(0) == 0, "the base point has even x")
	x2, y2 := vFMul(bx, bx), vFMul(by, by)
	vAssert(vFEq(vFSub(y2, x2), vFAdd(o, vFMul(vD(), vFMul(x2, y2)))), "the base point is on the curve")
	vAssert(vFEq(vFMul(vFOf(*b.T), vFOf(*b.Z)), vFMul(vFOf(*b.X), vFOf(*b.Y))), "the base point has T = XY/Z")
	vAssert(vFEq(vFOf(Ed25519Field.D), vD()) && vFEq(vFOf(Ed25519Field.DTimesTWO), vFMul(vTwo(), vD())), "the curve constants")
	vAssert(vFEq(vFMul(vFOf(Ed25519Field.I), vFOf(Ed25519Field.I)), vFNeg(o)), "I is a root of -1")
	vAssert(Ed25519Group.GROUP_ORDER.Cmp(vL()) == 0 && Ed25519Field.P.Cmp(vP()) == 0, "the group order and the field modulus")
}

func vBit0(n *big.Int) *big.Int { return new(big.Int).Mod(n, big.NewInt(2)) }

func H_GEnc() {
	vContracts("fe")
	x, y := vFA("x"), vFA("y")
	cs := []CoordinateSystem{P2, P3, P1xP1}[vParam(0)]
	p := vGE("1", cs, x, y)
	sp := vSnapGE(p)
	e, err := p.Encode()
	vAssert(err == nil && len(e.Raw) == 32, "encoding succeeds with 32 bytes")
	want := new(big.Int).Lsh(vBit0(vFInt(x)), 255)
	want.Add(want, vFInt(y))
	vAssert(vLE(e.Raw).Cmp(want) == 0, "the encoding is y with the parity of x on top")
	vAssert(sp.same(), "the point is not modified")
}

func H_GDec() {
	vContracts("sqrt")
	raw := vBytes("raw", 32)
	if vParam(0) == 1 {
		// spare capacity
		raw = append(vBytes("raw", 31), vByte("top"))
	}
	keep := append([]byte(nil), raw...)
	enc, err := NewEd25519EncodedGroupElement(raw)
	vAssert(err == nil, "32 bytes are accepted")
	g, err := enc.Decode()
	n := vLE(keep)
	yn := new(big.Int).Mod(n, new(big.Int).Lsh(big.NewInt(1), 255))
	sign := new(big.Int).Rsh(n, 255)
	y := vFFromInt(yn)
	y2 := vFMul(y, y)
	u, v := vFSub(y2, vOne()), vFAdd(vFMul(vD(), y2), vOne())
	vFNonzero(v) // -1/d is not a square
	vAssert(vIff(err == nil, vFRoot(u, v)), "decoding succeeds exactly when a point with this y exists")
	vAssert(vEqB(raw, keep) && vEqB(enc.Raw, keep), "the input bytes are not modified")
	if err != nil {
		vAssert(g == nil, "no point with an error")
		return
	}
	vReach("decoded")
	vAssert(g.coordinateSystem == P3, "the point is in P3")
	x := vFOf(*g.X)
	vAssert(vFEq(vFOf(*g.Z), vOne()), "the decoded point has Z = 1")
	vAssert(vFEq(vFOf(*g.Y), y), "the decoded point has the encoded y")
	vAssert(vFEq(vFMul(v, vFMul(x, x)), u), "the decoded point is on the curve")
	vAssert(vFEq(vFOf(*g.T), vFMul(x, y)), "the decoded point has T = xy")
	vAssert(vOr(vFEq(x, vZero()), vBit0(vFInt(x)).Cmp(sign) == 0), "the decoded x has the encoded parity")
	vAssert(vWithinGE(g, vK), "the decoded point stays within the limb bounds")
}

func H_GDecEnc() {
	vContracts("sqrt")
	raw := vBytes("raw", 32)
	n := vLE(raw)
	yn := new(big.Int).Mod(n, new(big.Int).Lsh(big.NewInt(1), 255))
	vAssume(yn.Cmp(vP()) < 0)
	y := vFFromInt(yn)
	y2 := vFMul(y, y)
	vFNonzero(vFAdd(vFMul(vD(), y2), vOne()))
	enc, _ := NewEd25519EncodedGroupElement(raw)
	g, err := enc.Decode()
	if err != nil {
		return
	}
	x := vFOf(*g.X)
	vAssume(vOr(vNot(vFEq(x, vZero())), raw[31] < 128))
	e, err := g.Encode()
	vReach("encoded")
	vAssert(err == nil && vEqB(e.Raw, raw), "encode after decode is the identity on canonical encodings")
}

func H_GDecLen() {
	raw := vBytes("raw", vParam(0))
	e, err := NewEd25519EncodedGroupElement(raw)
	vAssert((err == nil) == (vParam(0) == 32) && (e == nil) == (err != nil), "exactly 32 bytes are accepted")
}

func H_GAffine() {
	vContracts("sqrt")
	raw := vBytes("raw", 32)
	enc, _ := NewEd25519EncodedGroupElement(raw)
	yn := new(big.Int).Mod(vLE(raw), new(big.Int).Lsh(big.NewInt(1), 255))
	y := vFFromInt(yn)
	gy, err := enc.GetAffineY()
	vAssert(err == nil && vFEq(vFOf(*gy), y), "GetAffineY is the encoded y")
	y2 := vFMul(y, y)
	u, v := vFSub(y2, vOne()), vFAdd(vFMul(vD(), y2), vOne())
	vFNonzero(v)
	gx, err := enc.GetAffineX()
	vAssert(vIff(err == nil, vFRoot(u, v)), "GetAffineX succeeds exactly when a point with this y exists")
	if err != nil {
		return
	}
	x := vFOf(*gx)
	vAssert(vFEq(vFMul(v, vFMul(x, x)), u), "GetAffineX solves the curve equation")
	vAssert(vOr(vFEq(x, vZero()), vBit0(vFInt(x)).Cmp(new(big.Int).Rsh(vLE(raw), 255)) == 0), "GetAffineX has the encoded parity")
}

// comparison of two points; parameters: the coordinate systems
func H_GEq() {
	vContracts("fe")
	a, b := CoordinateSystem(vParam(0)), CoordinateSystem(vParam(1))
	x1, y1 := vPt("p")
	x2, y2 := vPt("q")
	if vParam(2) == 1 {
		x2, y2 = x1, y1
	}
	p, q := vGE("1", a, x1, y1), vGE("2", b, x2, y2)
	sp, sq := vSnapGE(p), vSnapGE(q)
	r := p.Equals(q)
	same := vAnd(vFEq(x1, x2), vFEq(y1, y2))
	if vConvertible(b, a) {
		vAssert(vIff(r, same), "equal exactly when the points are the same")
	} else {
		vAssert(vOr(vNot(r), same), "different points are never equal")
	}
	vAssert(sp.same() && sq.same(), "the points are not modified")
}

func H_GEqNil() {
	vContracts("fe")
	x, y := vPt("p")
	for a := AFFINE; a <= CACHED; a++ {
		p := vGE(vDig[int(a)], a, x, y)
		if a != AFFINE {
			vAssert(p.Equals(p), "a point equals itself")
		}
	}
}

func H_GCurve() {
	vContracts("fe")
	x, y := vFA("x"), vFA("y")
	cs := []CoordinateSystem{P2, P3, P1xP1}[vParam(0)]
	if vParam(1) == 1 {
		x, y = vPt("p")
	}
	p := vGE("1", cs, x, y)
	sp := vSnapGE(p)
	r := p.SatisfiesCurveEquation()
	x2, y2 := vFMul(x, x), vFMul(y, y)
	vAssert(vIff(r, vFEq(vFSub(y2, x2), vFAdd(vOne(), vFMul(vD(), vFMul(x2, y2))))), "on the curve exactly when the equation holds")
	vAssert(sp.same(), "the point is not modified")
}
