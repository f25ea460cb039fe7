package crypto

// C24: the hash helpers. C25 (part): byte comparison.

func init() {
	vReg("H_Hash", H_Hash)
	vReg("H_HashBytes", H_HashBytes)
	vReg("H_HashSeq", H_HashSeq)
	vReg("H_Sha512Parts", H_Sha512Parts)
	vReg("H_BytesEq", H_BytesEq)
}

func vHelper(i int, b []byte) ([]byte, error, []byte) {
	switch i {
	case 0:
		h, err := HashesSha_256(b)
		return h, err, vHashOf("sha256", [][]byte{b})
	case 1:
		h, err := HashesKeccak_256(b)
		return h, err, vHashOf("keccak256", [][]byte{b})
	case 2:
		h, err := HashesSha3_256(b)
		return h, err, vHashOf("sha3-256", [][]byte{b})
	case 3:
		h, err := HashesRipemd160(b)
		return h, err, vHashOf("ripemd160", [][]byte{b})
	default:
		h, err := HashesSha3_512(b)
		return h, err, vHashOf("sha3-512", [][]byte{b})
	}
}

// any input of any length
func H_Hash() {
	i := vParam(0)
	b := vOpaque("b")
	h, err, want := vHelper(i, b)
	vAssert(err == nil, "no error")
	vAssert(vEqB(h, want), "digest of the whole input")
	vAssert(vSharedSame(), "no shared state changed")
}

// inputs of small concrete length: every byte counts, input unchanged
func H_HashBytes() {
	i, n := vParam(0), vParam(1)
	b := vBytes("b", n)
	c := append([]byte(nil), b...)
	h, err, want := vHelper(i, b)
	vAssert(err == nil, "no error")
	vAssert(vEqB(h, want), "digest of the whole input")
	vAssert(vEqB(b, c), "input unchanged")
	if n > 0 {
		vAssert(!vOverlap(h, b), "result is fresh memory")
	}
	// the result of one call is not touched by the next one
	d := vBytes("d", n)
	h0 := append([]byte(nil), h...)
	h2, err2, want2 := vHelper(i, d)
	vAssert(err2 == nil, "no error (second call)")
	vAssert(vEqB(h2, want2), "second digest independent of the first call")
	vAssert(vEqB(h, h0), "first digest unaffected by the second call")
	vAssert(!vOverlap(h, h2), "results do not share memory")
}

// calls of different helpers in sequence
func H_HashSeq() {
	b := vOpaque("b")
	c := vOpaque("c")
	for k := 0; k < 2; k++ {
		for i := 0; i < 5; i++ {
			x := b
			if (i+k)%2 == 1 {
				x = c
			}
			h, err, want := vHelper(i, x)
			vAssert(err == nil, "no error")
			vAssert(vEqB(h, want), "digest independent of earlier calls")
		}
	}
	vAssert(vSharedSame(), "no shared state changed")
}

// the multi-part helper
func H_Sha512Parts() {
	n := vParam(0)
	var parts [][]byte
	for i := 0; i < n; i++ {
		parts = append(parts, vOpaque("p"+vDig[i]))
	}
	h, err := HashesSha3_512(parts...)
	vAssert(err == nil, "no error")
	vAssert(vEqB(h, vHashOf("sha3-512", parts)), "digest of the concatenation of all parts in order")
	vAssert(len(h) == 64, "64 bytes")
}

// byte comparison
func H_BytesEq() {
	n, m := vParam(0), vParam(1)
	a, b := vBytes("a", n), vBytes("b", m)
	if vParam(2) == 1 {
		// the difference, if any, is in one position
		k := int(vI64("k", 0, int64(n-1)))
		for i := 0; i < n; i++ {
			if i != k {
				b[i] = a[i]
			}
		}
	}
	a0, b0 := append([]byte(nil), a...), append([]byte(nil), b...)
	r := isEqualConstantTime(a, b)
	eq := n == m
	for i := 0; i < n && i < m; i++ {
		eq = vAnd(eq, a[i] == b[i])
	}
	vAssert(vIff(r, eq), "true exactly for equal strings of equal length")
	vAssert(vAnd(vEqB(a, a0), vEqB(b, b0)), "operands unchanged")
}
