package crypto

// C20: signatures as bytes, text and integers. C21: keys as text and integers.

import "math/big"

func init() {
	vReg("H_SigBytes", H_SigBytes)
	vReg("H_SigHalves", H_SigHalves)
	vReg("H_SigInts", H_SigInts)
	vReg("H_SigLens", H_SigLens)
	vReg("H_SigSpare", H_SigSpare)
	vReg("H_KeyHex", H_KeyHex)
	vReg("H_KeyText", H_KeyText)
	vReg("H_KeyInt", H_KeyInt)
	vReg("H_KeyRaw", H_KeyRaw)
}

func vHex(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, d[x>>4], d[x&15])
	}
	return string(r)
}
func vHexUp(b []byte) string {
	const d = "0123456789ABCDEF"
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, d[x>>4], d[x&15])
	}
	return string(r)
}

// what every view of a signature with halves r and s must be
func vSigViews(sg *Signature, r, s []byte) {
	vAssert(vEqB(sg.R, r), "R")
	vAssert(vEqB(sg.S, s), "S")
	both := append(append([]byte(nil), r...), s...)
	b := sg.Bytes()
	vAssert(vEqB(b, both), "Bytes is R followed by S")
	vAssert(!vOverlap(b, sg.R) && !vOverlap(b, sg.S), "Bytes is fresh memory")
	t := sg.String()
	vAssert(t == vHex(both), "String is the hexadecimal text of the bytes")
	vAssert(sg.GetR().Cmp(vLE(r)) == 0, "GetR is the little-endian integer")
	vAssert(sg.GetS().Cmp(vLE(s)) == 0, "GetS is the little-endian integer")
	vAssert(vAnd(vEqB(sg.R, r), vEqB(sg.S, s)), "views do not write to the signature")
	b2 := sg.Bytes()
	vAssert(vEqB(b2, both), "a second conversion gives the same")
}

func H_SigBytes() {
	b := vBytes("b", 64)
	b0 := append([]byte(nil), b...)
	sg, err := NewSignatureFromBytes(b)
	vAssert(err == nil, "64 bytes are accepted")
	vSigViews(sg, b0[:32], b0[32:])
	vAssert(vEqB(b, b0), "input unchanged")
	back, err := NewSignatureFromBytes(sg.Bytes())
	vAssert(err == nil, "own bytes are accepted")
	vSigViews(back, b0[:32], b0[32:])
	ints, err := NewSignatureFromBigInt(sg.GetR(), sg.GetS())
	vAssert(err == nil, "own integers are accepted")
	vAssert(vAnd(vEqB(ints.R, b0[:32]), vEqB(ints.S, b0[32:])), "through the integers and back")
	vAssert(vSharedSame(), "no shared state changed")
}

func H_SigHalves() {
	r, s := vBytes("r", 32), vBytes("s", 32)
	r0, s0 := append([]byte(nil), r...), append([]byte(nil), s...)
	sg, err := NewSignature(r, s)
	vAssert(err == nil, "halves of 32 bytes are accepted")
	vSigViews(sg, r0, s0)
	vAssert(vAnd(vEqB(r, r0), vEqB(s, s0)), "halves unchanged")
	// the same memory for both halves
	sg2, err := NewSignature(r, r)
	vAssert(err == nil, "halves of 32 bytes are accepted")
	vSigViews(sg2, r0, r0)
}

// integers well outside 0..2^256-1 on both sides
func H_SigInts() {
	lo, hi := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 520)), new(big.Int).Lsh(big.NewInt(1), 520)
	r, s := vBigN("r", lo, hi), vBigN("s", lo, hi)
	r0, s0 := new(big.Int).Set(r), new(big.Int).Set(s)
	sg, err := NewSignatureFromBigInt(r, s)
	lim := new(big.Int).Lsh(big.NewInt(1), 256)
	ok := vAnd(vAnd(r0.Sign() >= 0, r0.Cmp(lim) < 0), vAnd(s0.Sign() >= 0, s0.Cmp(lim) < 0))
	vAssert(vIff(err == nil, ok), "accepted exactly when both are in 0..2^256-1")
	vAssert(vIff(sg != nil, ok), "no signature when refused")
	vAssert(vAnd(r.Cmp(r0) == 0, s.Cmp(s0) == 0), "integers unchanged")
	if err == nil {
		vReach("accepted")
		vAssert(len(sg.R) == 32 && len(sg.S) == 32, "halves of 32 bytes")
		vAssert(sg.GetR().Cmp(r0) == 0, "R back as integer")
		vAssert(sg.GetS().Cmp(s0) == 0, "S back as integer")
		vAssert(vAnd(vLE(sg.R).Cmp(r0) == 0, vLE(sg.S).Cmp(s0) == 0), "halves are the little-endian integers")
		vAssert(vLE(sg.Bytes()).Cmp(new(big.Int).Add(r0, new(big.Int).Lsh(s0, 256))) == 0, "bytes are the little-endian integers")
		back, err := NewSignatureFromBytes(sg.Bytes())
		vAssert(err == nil && vAnd(back.GetR().Cmp(r0) == 0, back.GetS().Cmp(s0) == 0), "through bytes and back")
	} else {
		vReach("refused")
	}
	sg, err = NewSignatureFromBigInt(nil, s)
	vAssert(sg == nil && err != nil, "absent R is refused")
	sg, err = NewSignatureFromBigInt(r, nil)
	vAssert(sg == nil && err != nil, "absent S is refused")
}

func H_SigLens() {
	n, m := vParam(0), vParam(1)
	r, s := vBytes("r", n), vBytes("s", m)
	sg, err := NewSignature(r, s)
	vAssert((err == nil) == (n == 32 && m == 32), "accepted exactly when both halves have 32 bytes")
	vAssert((sg != nil) == (n == 32 && m == 32), "no signature when refused")
	sg, err = NewSignatureFromBytes(r)
	vAssert((err == nil) == (n == 64), "accepted exactly when there are 64 bytes")
	vAssert((sg != nil) == (n == 64), "no signature when refused")
}

// halves that are parts of larger buffers
func H_SigSpare() {
	rb, sb := vBytes("rb", 160), vBytes("sb", 160)
	rb0, sb0 := append([]byte(nil), rb...), append([]byte(nil), sb...)
	sg, err := NewSignature(rb[:32], sb[8:40])
	vAssert(err == nil, "accepted")
	vSigViews(sg, rb0[:32], sb0[8:40])
	vAssert(vAnd(vEqB(rb, rb0), vEqB(sb, sb0)), "memory of the creator is not written")
	sg, err = NewSignatureFromBytes(rb[10:74])
	vAssert(err == nil, "accepted")
	vSigViews(sg, rb0[10:42], rb0[42:74])
	vAssert(vEqB(rb, rb0), "memory of the creator is not written")
	// s directly in front of r in one buffer
	sg, err = NewSignature(rb[32:64], rb[:32])
	vAssert(err == nil, "accepted")
	vSigViews(sg, rb0[32:64], rb0[:32])
	vAssert(vEqB(rb, rb0), "memory of the creator is not written")
}

// keys from the hexadecimal text of n bytes, without the first digit when odd
func H_KeyHex() {
	n, odd := vParam(0), vParam(1) == 1
	b := vBytes("b", n)
	up := vParam(2) == 1
	if odd {
		b[0] &= 15
	}
	t := vHex(b)
	if up {
		t = vHexUp(b)
	}
	if odd {
		t = t[1:]
	}
	k, err := NewPrivateKeyfromHexString(t)
	vAssert((err == nil) == (n == 32), "private key: exactly 32 bytes are accepted")
	vAssert((k != nil) == (n == 32), "private key: nothing when refused")
	p, err2 := NewPublicKeyfromHex(t)
	vAssert((err2 == nil) == (n == 32), "public key: exactly 32 bytes are accepted")
	vAssert((p != nil) == (n == 32), "public key: nothing when refused")
	if err == nil && err2 == nil {
		vAssert(vEqB(k.Raw, b), "private key holds the bytes")
		vAssert(k.String() == vHex(b), "private key text")
		vAssert(vEqB(p.Raw, b), "public key holds the bytes")
		vAssert(p.String() == vHexUp(b), "public key text")
		vAssert(p.hex() == vHex(b), "public key lower-case text")
		k2, err := NewPrivateKeyfromHexString(k.String())
		vAssert(err == nil && vEqB(k2.Raw, b), "private key through text and back")
		p2, err := NewPublicKeyfromHex(p.String())
		vAssert(err == nil && vEqB(p2.Raw, b), "public key through text and back")
		vAssert(vAnd(vEqB(k.Raw, b), vEqB(p.Raw, b)), "formatting does not change the keys")
	}
	vAssert(vSharedSame(), "no shared state changed")
}

func vIsHexDigit(c byte) bool {
	return vOr(vAnd(c >= '0', c <= '9'), vOr(vAnd(c >= 'a', c <= 'f'), vAnd(c >= 'A', c <= 'F')))
}
func vHexVal(c byte) int64 {
	return vIteI(c <= '9', int64(c)-'0', vIteI(c <= 'F', int64(c)-'A'+10, int64(c)-'a'+10))
}

// any text of n characters
func H_KeyText() {
	n := vParam(0)
	t := vBytes("t", n)
	if vNativeBool(2) {
		vNativeText(t)
	}
	good := n == 64 || n == 63
	for i := 0; i < n; i++ {
		good = vAnd(good, vIsHexDigit(t[i]))
	}
	k, err := NewPrivateKeyfromHexString(string(t))
	vAssert(vIff(err == nil, good), "private key: accepted exactly when it denotes 32 bytes")
	vAssert(vIff(k != nil, good), "private key: nothing when refused")
	if err == nil {
		for i := 0; i < 32; i++ {
			hi := int64(0)
			j := 2*i - (64 - n)
			if j >= 0 {
				hi = vHexVal(t[j])
			}
			vAssert(int64(k.Raw[i]) == 16*hi+vHexVal(t[j+1]), "private key: byte "+vDig[i%10])
		}
	}
	p, err2 := NewPublicKeyfromHex(string(t))
	vAssert(vIff(err2 == nil, good), "public key: accepted exactly when it denotes 32 bytes")
	vAssert(vIff(p != nil, good), "public key: nothing when refused")
	if err2 == nil {
		for i := 0; i < 32; i++ {
			hi := int64(0)
			j := 2*i - (64 - n)
			if j >= 0 {
				hi = vHexVal(t[j])
			}
			vAssert(int64(p.Raw[i]) == 16*hi+vHexVal(t[j+1]), "public key: byte "+vDig[i%10])
		}
	}
}

// a private key from an integer is the key of its 64-digit text
func H_KeyInt() {
	v := vBigN("v", new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
	v0 := new(big.Int).Set(v)
	k := NewPrivateKeyFromBigInt(v)
	vAssert(len(k.Raw) == 32, "32 bytes")
	be := make([]byte, len(k.Raw))
	for i := range be {
		be[len(be)-1-i] = k.Raw[i]
	}
	vAssert(vLE(be).Cmp(v0) == 0, "big-endian bytes of the integer")
	vAssert(v.Cmp(v0) == 0, "integer unchanged")
}

// keys made from bytes hold those bytes and print in full
func H_KeyRaw() {
	n := vParam(0)
	b := vBytes("b", n)
	c := append([]byte(nil), b...)
	k, p := NewPrivateKey(b), NewPublicKey(b)
	vAssert(vAnd(vEqB(k.Raw, c), vEqB(p.Raw, c)), "keys hold the bytes")
	vAssert(k.String() == vHex(c), "private key text")
	vAssert(p.String() == vHexUp(c), "public key text")
	vAssert(vEqB(b, c), "input unchanged")
}
