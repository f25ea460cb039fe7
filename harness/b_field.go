package crypto

// C12: inversion and square roots, over the verified products.

import "math/big"

func init() {
	vReg("H_Invert", H_Invert)
	vReg("H_InvertZero", H_InvertZero)
	vReg("H_Sqrt", H_Sqrt)
	vReg("H_SqrtZero", H_SqrtZero)
}

func H_Invert() {
	vContracts("mul")
	a := vFU("a")
	f := vFE("a", a, 165)
	g := f
	r := f.invert()
	vAssert(f.Raw == g.Raw, "the operand is not modified")
	vAssert(vWithin(r.Raw, 51), "limbs stay within bounds")
	vAssert(vFEq(vFOf(r), vFPow(a, new(big.Int).Sub(vP(), big.NewInt(2)))), "invert returns x^(p-2)")
}

func H_InvertZero() {
	vContracts("mul")
	f := vFE("a", vFC(big.NewInt(0)), 165)
	r := f.invert()
	vAssert(vFEq(vFOf(r), vFC(big.NewInt(0))), "the inverse of zero is zero")
}

func H_Sqrt() {
	vContracts("mul")
	u, v := vFA("u"), vFA("v")
	fu, fv := vFE("u", u, 165), vFE("v", v, 165)
	gu, gv := fu, fv
	r := Ed25519FieldElementSqrt(fu, fv)
	vAssert(fu.Raw == gu.Raw && fv.Raw == gv.Raw, "the operands are not modified")
	vAssert(vWithin(r.Raw, 51), "limbs stay within bounds")
	e := new(big.Int).Rsh(new(big.Int).Sub(vP(), big.NewInt(5)), 3)
	w := vFMul(u, vFPow(v, big.NewInt(7)))
	s := vFMul(vFMul(u, vFPow(v, big.NewInt(3))), vFPow(w, e))
	vAssert(vFEq(vFOf(r), s), "the square root is u v^3 (u v^7)^((p-5)/8)")
}

func H_SqrtZero() {
	vContracts("mul")
	v := vFA("v")
	z := vFC(big.NewInt(0))
	r := Ed25519FieldElementSqrt(vFE("u", z, 165), vFE("v", v, 165))
	vAssert(vFEq(vFOf(r), z), "the root of zero is zero")
	q := Ed25519FieldElementSqrt(vFE("w", v, 165), vFE("x", z, 165))
	vAssert(vFEq(vFOf(q), z), "the root over zero is zero")
}
