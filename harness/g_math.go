package crypto

// C28: the big.Int point helpers, over the verified field encoding.

import "math/big"

func init() {
	vReg("H_MAdd", H_MAdd)
	vReg("H_MDbl", H_MDbl)
	vReg("H_MNeg", H_MNeg)
	vReg("H_MConv", H_MConv)
	vReg("H_MDecode", H_MDecode)
	vReg("H_MRoot", H_MRoot)
	vReg("H_MMul", H_MMul)
	vReg("H_MMul2", H_MMul2)
	vReg("H_MRefuseOp", H_MRefuseOp)
}

// vSumP3: g represents the sum in P3, by the cross-multiplied addition law
func vSumP3(g *Ed25519GroupElement, x1, y1, x2, y2 vFp) bool {
	if g == nil || g.coordinateSystem != P3 || g.T == nil {
		return false
	}
	X, Y, Z, T := vFOf(*g.X), vFOf(*g.Y), vFOf(*g.Z), vFOf(*g.T)
	k := vFMul(vD(), vFMul(vFMul(x1, x2), vFMul(y1, y2)))
	nx, dx := vFAdd(vFMul(x1, y2), vFMul(x2, y1)), vFAdd(vOne(), k)
	ny, dy := vFAdd(vFMul(y1, y2), vFMul(x1, x2)), vFSub(vOne(), k)
	r := vAnd(vFEq(vFMul(X, dx), vFMul(nx, Z)), vFEq(vFMul(Y, dy), vFMul(ny, Z)))
	return vAnd(r, vAnd(vFEq(vFMul(T, Z), vFMul(X, Y)), vNot(vFEq(Z, vZero()))))
}

func H_MAdd() {
	vContracts("fe")
	x1, y1 := vPt("p")
	x2, y2 := vPt("q")
	vComplete(x1, y1, x2, y2)
	for _, c1 := range []CoordinateSystem{P2, P3} {
		for _, c2 := range []CoordinateSystem{P2, P3} {
			p, q := vGE("1"+vDig[int(c1)], c1, x1, y1), vGE("2"+vDig[int(c2)], c2, x2, y2)
			sp, sq := vSnapGE(p), vSnapGE(q)
			r := MathUtils.AddGroupElements(p, q)
			vAssert(vSumP3(r, x1, y1, x2, y2), "AddGroupElements is the addition law")
			vAssert(vWithinGE(r, vK), "the sum stays within the limb bounds")
			vAssert(sp.same() && sq.same(), "the operands are not modified")
		}
	}
	vAssert(vSharedSame(), "no shared state changed")
}

func H_MDbl() {
	vContracts("fe")
	x, y := vPt("p")
	vComplete(x, y, x, y)
	for _, cs := range []CoordinateSystem{P2, P3} {
		p := vGE(vDig[int(cs)], cs, x, y)
		sp := vSnapGE(p)
		r := MathUtils.DoubleGroupElement(p)
		vAssert(vSumP3(r, x, y, x, y), "DoubleGroupElement adds a point to itself")
		vAssert(sp.same(), "the operand is not modified")
	}
	vAssert(vSharedSame(), "no shared state changed")
}

func H_MNeg() {
	vContracts("fe")
	x, y := vPt("p")
	p := vGE("1", P3, x, y)
	sp := vSnapGE(p)
	r := MathUtils.NegateGroupElement(p)
	vAssert(vIs(r, P3, vFNeg(x), y), "NegateGroupElement is the negative")
	vAssert(sp.same(), "the operand is not modified")
}

// conversion between any two coordinate systems
func H_MConv() {
	vContracts("fe")
	from, to := CoordinateSystem(vParam(0)), CoordinateSystem(vParam(1))
	x, y := vPt("p")
	var p *Ed25519GroupElement
	switch from {
	case AFFINE:
		fx, fy := vFE("x1", x, vK), vFE("y1", y, vK)
		p = NewEd25519GroupElementAffine(&fx, &fy, Ed25519FieldOne())
	case P1xP1: // coordinates that Encode is verified for
		z, t := vFA("z"), vFA("t")
		vFNonzero(z)
		vFNonzero(t)
		fx, fy := vFE("x1", vFMul(x, z), vK), vFE("y1", vFMul(y, t), vK)
		fz, ft := vFE("z1", z, vK), vFE("t1", t, vK)
		p = NewEd25519GroupElementP1XP1(&fx, &fy, &fz, &ft)
	default:
		p = vGE("1", from, x, y)
	}
	sp := vSnapGE(p)
	r, err := MathUtils.ToRepresentation(p, to)
	vAssert(err == nil && r != nil, "the conversion succeeds")
	if to == AFFINE {
		vAssert(r.coordinateSystem == AFFINE, "the coordinate system is the one asked for")
		vAssert(vAnd(vFEq(vFOf(*r.X), x), vAnd(vFEq(vFOf(*r.Y), y), vFEq(vFOf(*r.Z), vOne()))), "the conversion preserves the point")
	} else {
		vAssert(vIs(r, to, x, y), "the conversion preserves the point")
	}
	vAssert(sp.same(), "the operand is not modified")
	vAssert(vSharedSame(), "no shared state changed")
}

func H_MRefuseOp() {
	vContracts("fe")
	x, y := vPt("p")
	for _, cs := range []CoordinateSystem{P1xP1, CACHED, PRECOMPUTED} {
		p, q := vGE("1"+vDig[int(cs)], cs, x, y), vGE("2"+vDig[int(cs)], P3, x, y)
		vAssert(vPanics(func() { MathUtils.AddGroupElements(p, q) }), "other coordinate systems are refused")
		vAssert(vPanics(func() { MathUtils.AddGroupElements(q, p) }), "other coordinate systems are refused")
		vAssert(vPanics(func() { MathUtils.NegateGroupElement(p) }), "other coordinate systems are refused")
	}
}

// u v^3 (u v^7)^((p-5)/8), a root of u/v up to a factor sqrt(-1) when there is one
func vCandRoot(u, v vFp) vFp {
	v3 := vFMul(v, vFMul(v, v))
	e := new(big.Int).Rsh(new(big.Int).Sub(vP(), big.NewInt(5)), 3)
	return vFMul(vFMul(u, v3), vFPow(vFMul(u, vFMul(v, vFMul(v3, v3))), e))
}

// the candidate root
func H_MRoot() {
	vContracts("fe")
	u, v := vFA("u"), vFA("v")
	r := MathUtils.getSqrtOfFraction(vFInt(u), vFInt(v))
	vAssert(r.Cmp(vFInt(vCandRoot(u, v))) == 0, "the candidate root is u v^3 (u v^7)^((p-5)/8)")
}

func vLEBytes(n *big.Int) []byte {
	b := make([]byte, 32)
	for i := range b {
		q := new(big.Int).Rsh(n, uint(8*i))
		b[i] = byte(q.Mod(q, big.NewInt(256)).Int64())
	}
	return b
}

// decompression: agrees with Decode
func H_MDecode() {
	vContracts("sqrt")
	// every canonical y with either sign
	yf, s := vFA("y"), vI64("s", 0, 1)
	n0 := new(big.Int).Lsh(big.NewInt(s), 255)
	raw := vLEBytes(n0.Add(n0, vFInt(yf)))
	keep := append([]byte(nil), raw...)
	sign := big.NewInt(s)
	y := yf
	y2 := vFMul(y, y)
	u, v := vFSub(y2, vOne()), vFAdd(vFMul(vD(), y2), vOne())
	vFNonzero(v) // -1/d is not a square
	// the three outcomes of the candidate root r: v r^2 = u, v r^2 = -u, neither
	r := vFOf(*MathUtils.ToFieldElement(MathUtils.getSqrtOfFraction(vFInt(u), vFInt(v))))
	vr2 := vFMul(v, vFMul(r, r))
	direct, turned := vFEq(vr2, u), vFEq(vr2, vFNeg(u))
	switch vParam(0) {
	case 0:
		vAssume(direct)
	case 1:
		vAssume(vAnd(vNot(direct), turned))
	default:
		vAssume(vAnd(vNot(direct), vNot(turned)))
	}
	g, err := MathUtils.ToGroupElement(raw)
	vAssert(vIff(err == nil, vFRoot(u, v)), "decoding succeeds exactly when a point with this y exists")
	vAssert(vEqB(raw, keep), "the input bytes are not modified")
	if err != nil {
		return
	}
	vReach("decoded")
	vAssert(g.coordinateSystem == P3, "the point is in P3")
	x := vFOf(*g.X)
	vAssert(vFEq(vFOf(*g.Z), vOne()), "the decoded point has Z = 1")
	vAssert(vFEq(vFOf(*g.Y), y), "the decoded point has the encoded y")
	vAssert(vFEq(vFMul(v, vFMul(x, x)), u), "the decoded point is on the curve")
	vAssert(vFEq(vFOf(*g.T), vFMul(x, y)), "the decoded point has T = xy")
	vAssert(vOr(vFEq(x, vZero()), vBit0(vFInt(x)).Cmp(sign) == 0), "the decoded x has the encoded parity")
}

// scalar multiplication by a field element, most significant bit first
func H_MMul() {
	vContracts("group")
	g := vGPt("p")
	p := vGMake("1", g, P3)
	a := vFA("a")
	n := vFInt(a)
	f := vFE("f", a, vK)
	s := vSnapGE(p)
	keep := f.Raw
	vSharedSnap()
	r := MathUtils.ScalarMultiplyGroupElement(p, f)
	vAssert(r != nil && r.coordinateSystem == P3, "ScalarMultiplyGroupElement returns a P3 point")
	vAssert(vGEq(vGOf(r), vGMul(n, g)), "ScalarMultiplyGroupElement computes the multiple")
	vAssert(s.same() && f.Raw == keep, "the operands are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
}

// f1*g1 - f2*g2
func H_MMul2() {
	vContracts("group")
	g, h := vGPt("p"), vGPt("q")
	p, q := vGMake("1", g, P3), vGMake("2", h, P3)
	a, b := vFA("a"), vFA("b")
	n, m := vFInt(a), vFInt(b)
	e, f := vFE("e", a, vK), vFE("f", b, vK)
	s, t := vSnapGE(p), vSnapGE(q)
	r := MathUtils.doubleScalarMultiplyGroupElements(p, e, q, f)
	vAssert(vGEq(vGOf(r), vGSub(vGMul(n, g), vGMul(m, h))), "doubleScalarMultiplyGroupElements computes f1*g1 - f2*g2")
	vAssert(s.same() && t.same(), "the operands are not modified")
}
