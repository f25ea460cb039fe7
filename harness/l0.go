package crypto

// L0: the field and scalar code itself, limb by limb, against integer
// arithmetic.

import "math/big"

func init() {
	vReg("H_L0_mul", H_L0_mul)
	vReg("H_L0_square", H_L0_square)
	vReg("H_L0_addsub", H_L0_addsub)
	vReg("H_L0_addsub2", H_L0_addsub2)
	vReg("H_L0_encode", H_L0_encode)
	vReg("H_L0_encode2", H_L0_encode2)
	vReg("H_L0_lengths", H_L0_lengths)
	vReg("H_L0_decode", H_L0_decode)
	vReg("H_L0_modQ", H_L0_modQ)
	vReg("H_L0_madd", H_L0_madd)
}

func H_L0_mul() {
	f, g := vLimbs("f", 165), vLimbs("g", 165)
	fe, ge := Ed25519FieldElement{f}, Ed25519FieldElement{g}
	h := fe.multiply(ge)
	vAssert(vCong(vVal(h.Raw), new(big.Int).Mul(vVal(f), vVal(g)), vP()), "product is exact modulo p")
	vAssert(vWithin(h.Raw, 51), "product limbs within bounds")
	vAssert(vAnd(fe.Raw == f, ge.Raw == g), "operands unchanged")
}

func H_L0_square() {
	f := vLimbs("f", 165)
	fe := Ed25519FieldElement{f}
	h := fe.square()
	v := vVal(f)
	vAssert(vCong(vVal(h.Raw), new(big.Int).Mul(v, v), vP()), "square is exact modulo p")
	vAssert(vWithin(h.Raw, 51), "square limbs within bounds")
	vAssert(fe.Raw == f, "operand unchanged")
}

func H_L0_addsub() {
	f, g := vLimbs("f", 165), vLimbs("g", 165)
	fe, ge := Ed25519FieldElement{f}, Ed25519FieldElement{g}
	s, d, n := fe.add(ge), fe.subtract(ge), fe.negate()
	vAssert(vCong(vVal(s.Raw), new(big.Int).Add(vVal(f), vVal(g)), vP()), "sum is exact modulo p")
	vAssert(vCong(vVal(d.Raw), new(big.Int).Sub(vVal(f), vVal(g)), vP()), "difference is exact modulo p")
	vAssert(vCong(vVal(n.Raw), new(big.Int).Neg(vVal(f)), vP()), "negation is exact modulo p")
	vAssert(vWithin(n.Raw, 165), "negation keeps the bounds")
	vAssert(vAnd(fe.Raw == f, ge.Raw == g), "operands unchanged")
}

// sums and differences of multiplication results stay inside the
// multiplication's input bounds
func H_L0_addsub2() {
	f, g := vLimbs("f", 51), vLimbs("g", 51)
	fe, ge := Ed25519FieldElement{f}, Ed25519FieldElement{g}
	s, d := fe.add(ge), fe.subtract(ge)
	vAssert(vWithin(s.Raw, 110), "sum limbs within bounds")
	vAssert(vWithin(d.Raw, 110), "difference limbs within bounds")
}

func H_L0_encode() {
	f := vLimbs("f", 110)
	fe := Ed25519FieldElement{f}
	e := fe.Encode()
	vAssert(len(e.Raw) == 32, "encoding has 32 bytes")
	n := vLE(e.Raw)
	vAssert(vCong(n, vVal(f), vP()), "encoding is congruent modulo p")
	vAssert(vAnd(n.Sign() >= 0, n.Cmp(vP()) < 0), "encoding is the canonical representative")
	vAssert(fe.Raw == f, "operand unchanged")
}

func H_L0_encode2() {
	f := vLimbs("f", 110)
	fe := Ed25519FieldElement{f}
	e := fe.Encode()
	n := vLE(e.Raw)
	vAssert(vIff(fe.IsNonZero(), n.Sign() != 0), "the non-zero test looks at the canonical value")
	vAssert(vIff(fe.IsNegative(), n.Bit(0) == 1), "the sign is the parity of the canonical value")
	vAssert(vIff(e.IsNonZero(), n.Sign() != 0), "the encoded non-zero test looks at the canonical value")
	vAssert(vIff(e.IsNegative(), n.Bit(0) == 1), "the encoded sign is the parity")
	g := vLimbs("g", 110)
	ge := Ed25519FieldElement{g}
	m := vLE(ge.Encode().Raw)
	vAssert(vIff(fe.Equals(&ge), n.Cmp(m) == 0), "equality compares canonical values")
	vAssert(vIff(e.Equals(ge.Encode()), n.Cmp(m) == 0), "encoded equality compares canonical values")
	vAssert(vAnd(fe.Raw == f, ge.Raw == g), "operands unchanged")
}

func H_L0_decode() {
	b := vBytes("b", 32)
	c := append([]byte(nil), b...)
	e, err := NewEd25519EncodedFieldElement(b)
	vAssert(err == nil, "32 bytes are accepted")
	f := e.Decode()
	low := new(big.Int).And(vLE(c), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1)))
	vAssert(vCong(vVal(f.Raw), low, vP()), "decoding is congruent to the low 255 bits")
	vAssert(vWithin(f.Raw, 55), "decoded limbs within bounds")
	vAssert(vEqB(b, c), "input bytes unchanged")
	n := vLE(f.Encode().Raw)
	vAssert(vCong(n, low, vP()), "decode then encode is congruent")
}

// vNum is an arbitrary n-byte little-endian number, written as a sum of 21-bit
// pieces (the topmost piece takes the remaining bits). Every n-byte string is
// reached: the map from the pieces to the bytes is a bijection.
func vNum(name string, n int) []byte {
	v := new(big.Int)
	k := (8*n)/21 - 1
	for i := 0; i <= k; i++ {
		bits := uint(21)
		if i == k {
			bits = uint(8*n - 21*k)
		}
		l := vI64(name+vDig[i/10]+vDig[i%10], 0, int64(1)<<bits-1)
		v.Add(v, new(big.Int).Lsh(big.NewInt(l), uint(21*i)))
	}
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(new(big.Int).Rsh(v, uint(8*i)).Int64())
	}
	return r
}

func H_L0_modQ() {
	b := vNum("b", 64)
	c := append([]byte(nil), b...)
	e, err := NewEd25519EncodedFieldElement(b)
	vAssert(err == nil, "64 bytes are accepted")
	r := e.modQ()
	vAssert(len(r.Raw) == 32, "result has 32 bytes")
	n := vLE(r.Raw)
	vAssert(vCong(n, vLE(c), vL()), "result is congruent modulo the group order")
	vAssert(n.Cmp(vL()) < 0, "result is below the group order")
	vAssert(vEqB(b, c), "input unchanged")
}

func H_L0_madd() {
	a, b, c := vNum("a", 32), vNum("b", 32), vNum("c", 32)
	a0, b0, c0 := append([]byte(nil), a...), append([]byte(nil), b...), append([]byte(nil), c...)
	ea, _ := NewEd25519EncodedFieldElement(a)
	eb, _ := NewEd25519EncodedFieldElement(b)
	ec, _ := NewEd25519EncodedFieldElement(c)
	r := ea.multiplyAndAddModQ(eb, ec)
	vAssert(len(r.Raw) == 32, "result has 32 bytes")
	n := vLE(r.Raw)
	want := new(big.Int).Add(new(big.Int).Mul(vLE(a0), vLE(b0)), vLE(c0))
	vAssert(vCong(n, want, vL()), "result is congruent modulo the group order")
	vAssert(n.Cmp(vL()) < 0, "result is below the group order")
	vAssert(vAnd(vEqB(a, a0), vAnd(vEqB(b, b0), vEqB(c, c0))), "inputs unchanged")
}

// constructors accept 32 and 64 bytes only
func H_L0_lengths() {
	n := vParam(0)
	b := vBytes("b", n)
	e, err := NewEd25519EncodedFieldElement(b)
	if n == 32 || n == 64 {
		vAssert(err == nil, "32 and 64 bytes are accepted")
		vAssert(vEqB(e.Raw, b), "the bytes are kept")
	} else {
		vAssert(err != nil, "other lengths are rejected")
		vAssert(e == nil, "no element besides an error")
	}
}
