package crypto

// C27: big-integer helpers.

import "math/big"

func init() {
	vReg("H_MBytes", H_MBytes)
	vReg("H_MToBytes", H_MToBytes)
	vReg("H_MReduce", H_MReduce)
	vReg("H_MMadd", H_MMadd)
	vReg("H_MInts", H_MInts)
	vReg("H_MField", H_MField)
	vReg("H_MRefuse", H_MRefuse)
}

func vTop256() *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
}

func H_MBytes() {
	n := vParam(0)
	b := vBytes("b", n)
	c := append([]byte(nil), b...)
	v := MathUtils.BytesToBigInteger(b)
	vAssert(v.Cmp(vLE(c)) == 0, "little-endian integer of the bytes")
	vAssert(vEqB(b, c), "input unchanged")
	e := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), b}
	vAssert(MathUtils.EncodedFieldToBigInteger(e).Cmp(vLE(c)) == 0, "encoded element to integer")
	vAssert(vEqB(e.Raw, c), "element unchanged")
	if n == 32 {
		vAssert(vEqB(MathUtils.ToByteArray(v), c), "integer back to bytes")
		vAssert(vEqB(MathUtils.ToEncodedFieldElement(v).Raw, c), "integer back to encoded element")
		x, err := MathUtils.toEncodedFieldElement(v)
		vAssert(err == nil && vEqB(x.Raw, c), "integer back to checked encoded element")
	}
}

func H_MToBytes() {
	v := vBigN("v", new(big.Int), vTop256())
	v0 := new(big.Int).Set(v)
	b := MathUtils.ToByteArray(v)
	vAssert(len(b) == 32, "32 bytes")
	vAssert(vLE(b).Cmp(v0) == 0, "little-endian bytes of the integer")
	e := MathUtils.ToEncodedFieldElement(v)
	vAssert(vEqB(e.Raw, b), "encoded element of the integer")
	vAssert(v.Cmp(v0) == 0, "integer unchanged")
}

// too large integers are refused (by a panic)

func H_MRefuse() {
	v := vBigN("v", new(big.Int), new(big.Int).Lsh(big.NewInt(1), 600))
	big := v.Cmp(vTop256()) > 0
	p := vPanics(func() { MathUtils.ToByteArray(v) })
	vAssert(vIff(p, big), "refused exactly from 2^256 on")
}

func H_MReduce() {
	n := vParam(0)
	b := vBytes("b", n)
	c := append([]byte(nil), b...)
	e := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), b}
	r := MathUtils.ReduceModGroupOrder(e)
	vAssert(len(r.Raw) == 32, "32 bytes")
	v := vLE(r.Raw)
	vAssert(v.Cmp(vL()) < 0, "below the group order")
	vAssert(vCong(v, vLE(c), vL()), "congruent modulo the group order")
	vAssert(vEqB(e.Raw, c), "input unchanged")
	vAssert(vSharedSame(), "no shared state changed")
}

func H_MMadd() {
	a, b, c := vBytes("a", 32), vBytes("b", 32), vBytes("c", 32)
	ea, eb, ec := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), a}, &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), b}, &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), c}
	want := new(big.Int).Mul(vLE(a), vLE(b))
	want.Add(want, vLE(c))
	r := MathUtils.multiplyAndAddModGroupOrder(ea, eb, ec)
	v := vLE(r.Raw)
	vAssert(len(r.Raw) == 32, "32 bytes")
	vAssert(v.Cmp(vL()) < 0, "below the group order")
	vAssert(vCong(v, want, vL()), "congruent to a*b+c modulo the group order")
	vAssert(vSharedSame(), "no shared state changed")
}

func H_MInts() {
	var l [10]int64
	for i := 0; i < 10; i++ {
		l[i] = vI64("t"+vDig[i], -1<<62, 1<<62)
	}
	v := MathUtils.IntsToBigInteger(l)
	vAssert(v.Cmp(vVal(l)) == 0, "weighted sum of the limbs")
}

// canonical integer of a field element
func H_MField() {
	l := vLimbs("f", 110)
	f := Ed25519FieldElement{l}
	v := MathUtils.FieldToBigInteger(&f)
	vAssert(vAnd(v.Sign() >= 0, v.Cmp(vP()) < 0), "in 0..p-1")
	vAssert(vCong(v, vVal(l), vP()), "congruent to the element")
	vAssert(f.Raw == l, "element unchanged")
}
