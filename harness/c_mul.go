package crypto

// C17, C18: scalar multiplication, over the verified group law.

import "math/big"

func init() {
	vReg("H_GMul", H_GMul)
	vReg("H_GMulBase", H_GMulBase)
	vReg("H_Tables", H_Tables)
	vReg("H_Radix16", H_Radix16)
	vReg("H_Select", H_Select)
	vReg("H_GDouble", H_GDouble)
	vReg("H_Slide", H_Slide)
	vReg("H_SlideConst", H_SlideConst)
}

func vScalarBelow(name string, lim *big.Int) *Ed25519EncodedFieldElement {
	raw := vBytes(name, 32)
	vAssume(vLE(raw).Cmp(lim) < 0)
	a, err := NewEd25519EncodedFieldElement(raw)
	vAssert(err == nil && a != nil, "a 32-byte scalar is accepted")
	return a
}

func vP2pow(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// any curve point, with tables computed on demand
func H_GMul() {
	vContracts("group")
	g := vGPt("p")
	p := vGMake("1", g, P3)
	p.PrecomputeForScalarMultiplication()
	tab := p.precomputedForSingle
	p.PrecomputeForScalarMultiplication()
	vAssert(len(tab) > 0 && &tab[0] == &p.precomputedForSingle[0], "a second precomputation keeps the table")
	a := vScalarBelow("a", vP2pow(255))
	n := vLE(a.Raw)
	keep := append([]byte(nil), a.Raw...)
	s := vSnapGE(p)
	vSharedSnap()
	r, err := p.scalarMultiply(a)
	vAssert(err == nil && r != nil && r != p && r.coordinateSystem == P3, "scalarMultiply returns a P3 point")
	vAssert(vGEq(vGOf(r), vGMul(n, g)), "scalarMultiply computes the multiple")
	vAssert(vWithinGE(r, vK), "the multiple stays within the limb bounds")
	vAssert(s.same() && vEqB(keep, a.Raw), "the operands are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
}

// the base point with its built-in table
func H_GMulBase() {
	vContracts("group")
	B := Ed25519Group.BASE_POINT()
	vAssert(vGEq(vGOf(B), vGB()), "the base point is B")
	a := vScalarBelow("a", vP2pow(255))
	n := vLE(a.Raw)
	keep := append([]byte(nil), a.Raw...)
	s := vSnapGE(B)
	vSharedSnap()
	r, err := B.scalarMultiply(a)
	vAssert(err == nil && r != nil && r != B && r.coordinateSystem == P3, "scalarMultiply returns a P3 point")
	vAssert(vGEq(vGOf(r), vGMul(n, vGB())), "scalarMultiply computes the multiple of the base point")
	vAssert(vWithinGE(r, vK), "the multiple stays within the limb bounds")
	vAssert(s.same() && vEqB(keep, a.Raw), "the operands are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
}

// entries of the lookup tables; param 0: built-in, 1: of any point
func H_Tables() {
	vContracts("group")
	g, p := vGB(), Ed25519Group.BASE_POINT()
	if vParam(0) == 1 {
		g = vGPt("p")
		p = vGMake("1", g, P3)
		p.PrecomputeForScalarMultiplication()
		p.PrecomputeForDoubleScalarMultiplication()
		vAssert(p.IsPrecomputedForDoubleScalarMultiplication(), "the double table is reported")
		vAssert(vGEq(vGOf(p), g), "precomputation leaves the point alone")
	}
	vAssert(len(p.precomputedForSingle) == 32 && len(p.precomputedForDouble) == 8, "table sizes")
	for i := 0; i < 32; i++ {
		vAssert(len(p.precomputedForSingle[i]) == 8, "table row sizes")
		for j := 0; j < 8; j++ {
			e := p.precomputedForSingle[i][j]
			k := new(big.Int).Lsh(big.NewInt(int64(j+1)), uint(8*i))
			vAssert(e.coordinateSystem == PRECOMPUTED && vGEq(vGOf(e), vGMul(k, g)), "entry (i,j) is (j+1)*256^i times the point")
		}
	}
	for j := 0; j < 8; j++ {
		e := p.precomputedForDouble[j]
		vAssert(e.coordinateSystem == PRECOMPUTED && vGEq(vGOf(e), vGMul(big.NewInt(int64(2*j+1)), g)), "entry j is (2j+1) times the point")
	}
}

func H_Radix16() {
	a := vScalarBelow("a", vP2pow(255))
	keep := append([]byte(nil), a.Raw...)
	e := Ed25519Group.BASE_POINT().toRadix16(a)
	vAssert(len(e) == 64, "64 digits")
	sum := big.NewInt(0)
	for i := 0; i < 64; i++ {
		vAssert(vAnd(e[i] >= -8, e[i] <= 8), "digits from -8 to 8")
		d := big.NewInt(int64(e[i]))
		sum.Add(sum, d.Lsh(d, uint(4*i)))
	}
	vAssert(sum.Cmp(vLE(keep)) == 0, "the digits represent the scalar")
	vAssert(vEqB(keep, a.Raw), "the scalar is not modified")
}

// param 0: position; the digit is symbolic
func H_Select() {
	vContracts("group")
	g := vGPt("p")
	p := vGMake("1", g, P3)
	p.PrecomputeForScalarMultiplication()
	b := int(vI64("b", -8, 8))
	pos := vParam(0)
	r, err := p.Select(pos, b)
	vAssert(err == nil && r != nil && r.coordinateSystem == PRECOMPUTED, "Select returns a PRECOMPUTED element")
	k := big.NewInt(int64(b))
	vAssert(vGEq(vGOf(r), vGMul(k.Lsh(k, uint(8*pos)), g)), "Select returns the signed multiple")
}

// param 0: 0 any point A, 1 A = base point copy
func H_GDouble() {
	vContracts("group")
	g := vGPt("p")
	A := vGMake("1", g, P3)
	if vParam(0) == 1 {
		g, A = vGB(), Ed25519Group.BASE_POINT()
	}
	A.PrecomputeForDoubleScalarMultiplication()
	B := Ed25519Group.BASE_POINT()
	a, b := vScalarBelow("a", vL()), vScalarBelow("b", vL())
	na, nb := vLE(a.Raw), vLE(b.Raw)
	ka, kb := append([]byte(nil), a.Raw...), append([]byte(nil), b.Raw...)
	sA, sB := vSnapGE(A), vSnapGE(B)
	vSharedSnap()
	r, err := B.doubleScalarMultiplyVariableTime(A, a, b)
	vAssert(err == nil && r != nil && r.coordinateSystem == P2, "the result is a P2 point")
	vAssert(vGEq(vGOf(r), vGSub(vGMul(nb, vGB()), vGMul(na, g))), "the result is b*B - a*A")
	vAssert(vWithinGE(r, vK), "the result stays within the limb bounds")
	vAssert(sA.same() && sB.same() && vEqB(ka, a.Raw) && vEqB(kb, b.Raw), "the operands are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
}

// the sliding window recoding of scalars in which the bits from param 0 on are
// a symbolic window of param 1 bits; the bits below the window are zero, those
// above it, up to bit param 2 (exclusive), are one.
func H_Slide() {
	off, w, top := uint(vParam(0)), uint(vParam(1)), uint(vParam(2))
	v := vI64("w", 0, 1<<w-1)
	raw := make([]byte, 32)
	for i := uint(0); i < 253; i++ {
		bit := byte(0)
		if i >= off && i < off+w {
			bit = byte((v >> (i - off)) & 1)
		} else if i >= off+w && i < top {
			bit = 1
		}
		raw[i/8] |= bit << (i % 8)
	}
	vSlideOK(raw)
}

func vSlideOK(raw []byte) {
	keep := append([]byte(nil), raw...)
	a, err := NewEd25519EncodedFieldElement(raw)
	vAssert(err == nil, "a 32-byte scalar is accepted")
	d := Ed25519Group.BASE_POINT().slide(a)
	vAssert(len(d) == 256, "256 digits")
	sum := big.NewInt(0)
	ok := true
	for i := 0; i < 256; i++ {
		ok = vAnd(ok, vOr(d[i] == 0, vAnd(vAnd(d[i] >= -15, d[i] <= 15), d[i]&1 == 1)))
		k := big.NewInt(int64(d[i]))
		sum.Add(sum, k.Lsh(k, uint(i)))
	}
	vAssert(ok, "digits are zero or odd and at most 15")
	vAssert(sum.Cmp(vLE(keep)) == 0, "the digits represent the scalar")
	vAssert(vEqB(keep, raw), "the scalar is not modified")
}

// the largest and smallest scalars
func H_SlideConst() {
	l := vL()
	for _, n := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(l, big.NewInt(1)), new(big.Int).Sub(vP2pow(252), big.NewInt(1)), vP2pow(252), new(big.Int).Sub(vP2pow(253), big.NewInt(1))} {
		raw := make([]byte, 32)
		for i := range raw {
			raw[i] = byte(new(big.Int).Rsh(n, uint(8*i)).Int64())
		}
		vSlideOK(raw)
	}
}
