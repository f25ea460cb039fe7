package crypto

import "math/big"

func init() {
	vReg("H_L0_sqdbl", H_L0_sqdbl)
}

func H_L0_sqdbl() {
	f := vLimbs("f", 165)
	fe := Ed25519FieldElement{f}
	v := vVal(f)
	g := fe.squareAndDouble()
	vAssert(vCong(vVal(g.Raw), new(big.Int).Mul(big.NewInt(2), new(big.Int).Mul(v, v)), vP()), "doubled square is exact modulo p")
	vAssert(vWithin(g.Raw, 51), "doubled square limbs within bounds")
	vAssert(fe.Raw == f, "operand unchanged")
}
