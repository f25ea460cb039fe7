package crypto

// C01 to C05: keys and signatures, over the verified group and scalar layers.

import "math/big"

func init() {
	vReg("H_Derive", H_Derive)
	vReg("H_Sign", H_Sign)
	vReg("H_SignVerify", H_SignVerify)
	vReg("H_Verify", H_Verify)
	vReg("H_Canonical", H_Canonical)
	vReg("H_MakeCanonical", H_MakeCanonical)
	vReg("H_VerifyHigh", H_VerifyHigh)
}

// the clamped low half of the hash of a private key
func vClamp(h []byte) *big.Int {
	a := append([]byte(nil), h[:32]...)
	a[0] &= 248
	a[31] &= 127
	a[31] |= 64
	return vLE(a)
}

func vPubOf(priv []byte) []byte {
	return vGEnc(vGMul(vClamp(vHashOf("sha3-512", [][]byte{priv})), vGB()))
}

func vDup(b []byte) []byte { return append([]byte(nil), b...) }

// param 0: length of the private key
func H_Derive() {
	vContracts("l3")
	q := &vPartsT{}
	raw := q.bytes("k", vParam(0))
	keep := vDup(raw)
	vSharedSnap()
	k := NewPrivateKey(raw)
	val := new(big.Int).Set(k.value)
	want := vPubOf(raw)
	p := NewEd25519KeyGenerator(nil).DerivePublicKey(k)
	vAssert(p != nil && vEqB(p.Raw, want), "the public key is the encoding of a*B")
	kp, err := NewKeyPair(k, nil, nil)
	vAssert(err == nil && kp != nil && vEqB(kp.PublicKey.Raw, want) && kp.PrivateKey == k, "a key pair carries the derived public key")
	vAssert(q.same() && vEqB(k.Raw, keep) && k.value.Cmp(val) == 0, "the private key is not modified")
	vAssert(!vOverlap(p.Raw, raw) && !vOverlap(p.Raw, kp.PublicKey.Raw), "the public key is fresh memory")
	vAssert(vSharedSame(), "no shared state is modified")
}

// nonce, challenge and S as specified
func vSpecSig(priv, pub, m []byte) (R []byte, S *big.Int) {
	l := vL()
	h := vHashOf("sha3-512", [][]byte{priv})
	a := vClamp(h)
	r := vLE(vHashOf("sha3-512", [][]byte{h[32:], m}))
	r.Mod(r, l)
	R = vGEnc(vGMul(r, vGB()))
	k := vLE(vHashOf("sha3-512", [][]byte{R, pub, m}))
	S = new(big.Int).Mul(k, a)
	S.Add(S, r)
	return R, S.Mod(S, l)
}

// any private key, any public key bytes, any message; params: lengths of the keys
func H_Sign() {
	vContracts("l3")
	q := &vPartsT{}
	priv, pub, m := q.bytes("k", vParam(0)), q.bytes("p", vParam(1)), vOpaque("m")
	kp := &KeyPair{NewPrivateKey(priv), NewPublicKey(pub)}
	R, S := vSpecSig(priv, pub, m)
	vSharedSnap()
	s := NewEd25519DsaSigner(kp)
	sg, err := s.Sign(m)
	vAssert(vIff(err == nil, S.Sign() != 0) && vIff(sg != nil, S.Sign() != 0), "signing succeeds unless S is zero")
	vAssume(S.Sign() != 0)
	vAssert(vEqB(sg.R, R), "R is the encoding of r*B")
	vAssert(vLE(sg.S).Cmp(S) == 0 && len(sg.S) == 32, "S is r + H(R,A,M)*a modulo the group order")
	sg2, err := s.Sign(m)
	vAssert(err == nil && sg2 != nil && vEqB(sg2.R, R) && vLE(sg2.S).Cmp(S) == 0, "signing again gives the same signature")
	sg3, err := NewSignerFromKeyPair(kp, nil).Sign(m)
	vAssert(err == nil && sg3 != nil && vEqB(sg3.R, R) && vLE(sg3.S).Cmp(S) == 0, "the facade gives the same signature")
	vAssert(q.same(), "the keys are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
}

// messages signed and verified in a row with one signer
func H_SignVerify() {
	vContracts("l3")
	priv := vBytes("k", 32)
	kp, err := NewKeyPair(NewPrivateKey(priv), nil, nil)
	vAssert(err == nil, "a key pair from a private key")
	s := NewSignerFromKeyPair(kp, nil)
	var ms [][]byte
	var sgs []*Signature
	n := vParam(0)
	for i := 0; i < n; i++ {
		m := vOpaque([]string{"m0", "m1", "m2"}[i])
		_, S := vSpecSig(priv, kp.PublicKey.Raw, m)
		vAssume(S.Sign() != 0)
		sg, err := s.Sign(m)
		vAssert(err == nil && sg != nil, "signing succeeds")
		vAssert(s.Verify(m, sg), "the signature verifies")
		vAssert(s.IsCanonicalSignature(sg), "the signature is canonical")
		ms, sgs = append(ms, m), append(sgs, sg)
	}
	for i := n - 1; i >= 0; i-- {
		vAssert(s.Verify(ms[i], sgs[i]), "the signature still verifies")
		vAssert(NewEd25519DsaSigner(&KeyPair{nil, kp.PublicKey}).Verify(ms[i], sgs[i]), "the signature verifies with the public key alone")
	}
}

func vSpecVerify(pub, R, S, m []byte) bool {
	l := vL()
	h := vLE(vHashOf("sha3-512", [][]byte{R, pub, m}))
	h.Mod(h, l)
	s := vLE(S)
	A, ok := vGDec(pub)
	ok = vAnd(ok, vNot(vEqB(pub, make([]byte, 32))))
	ok = vAnd(ok, vAnd(s.Sign() > 0, s.Cmp(l) < 0))
	return vAnd(ok, vEqB(vGEnc(vGSub(vGMul(s, vGB()), vGMul(h, A))), R))
}

// any public key, message and signature; param 0: 1 for a signature that is built from the parts
// of a valid one (native runs only reach "accepted" that way)
func H_Verify() {
	vContracts("l3")
	m := vOpaque("m")
	q := &vPartsT{}
	R, S, pub := q.bytes("r", 32), q.bytes("s", 32), q.bytes("p", 32)
	if vNativeBool(2) {
		R, S, pub = vNativeSig(m)
	}
	R0, S0, p0 := vDup(R), vDup(S), vDup(pub)
	sg, err := NewSignature(R, S)
	vAssert(err == nil, "a signature of 32-byte halves")
	kp := &KeyPair{nil, NewPublicKey(pub)}
	want := vSpecVerify(pub, R, S, m)
	vSharedSnap()
	s := NewEd25519DsaSigner(kp)
	got := s.Verify(m, sg)
	vAssert(vIff(got, want), "Verify accepts exactly the valid signatures")
	if got {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
	vAssert(vIff(NewSignerFromKeyPair(kp, nil).Verify(m, sg), want), "the facade accepts exactly the valid signatures")
	vAssert(q.same() && vEqB(R, R0) && vEqB(S, S0) && vEqB(pub, p0), "key and signature are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
}

func H_Canonical() {
	q := &vPartsT{}
	R, S := q.bytes("r", 32), q.bytes("s", 32)
	R0, S0 := vDup(R), vDup(S)
	sg, err := NewSignature(R, S)
	vAssert(err == nil, "a signature of 32-byte halves")
	n := vLE(S)
	want := vAnd(n.Sign() > 0, n.Cmp(vL()) < 0)
	s := NewEd25519DsaSigner(&KeyPair{nil, NewPublicKey(vBytes("p", 32))})
	vAssert(vIff(s.IsCanonicalSignature(sg), want), "canonical exactly when 0 < S < L")
	vAssert(vIff(NewSigner(s).IsCanonicalSignature(sg), want), "canonical exactly when 0 < S < L (facade)")
	vAssert(q.same() && vEqB(sg.R, R0) && vEqB(sg.S, S0), "the signature is not modified")
}

func H_MakeCanonical() {
	vContracts("l3")
	q := &vPartsT{}
	R, S := q.bytes("r", 32), q.bytes("s", 32)
	R0, S0 := vDup(R), vDup(S)
	sg, err := NewSignature(R, S)
	vAssert(err == nil, "a signature of 32-byte halves")
	n := vLE(S)
	s := NewEd25519DsaSigner(&KeyPair{nil, NewPublicKey(vBytes("p", 32))})
	c, err := s.MakeSignatureCanonical(sg)
	vAssert(err == nil && c != nil, "a signature can be made canonical")
	vAssert(vEqB(c.R, R0), "R is kept")
	vAssert(len(c.S) == 32 && vLE(c.S).Cmp(new(big.Int).Mod(n, vL())) == 0, "S is reduced modulo the group order")
	vAssert(vIff(s.IsCanonicalSignature(c), new(big.Int).Mod(n, vL()).Sign() != 0), "the result is canonical unless S reduces to zero")
	vAssert(q.same() && vEqB(sg.R, R0) && vEqB(sg.S, S0), "the argument is not modified")
	d, err := NewSigner(s).MakeSignatureCanonical(c)
	vAssert(err == nil && d != nil && vEqB(d.R, R0) && vEqB(d.S, c.S), "a canonical signature is unchanged in value")
}

// S plus a multiple of the group order is rejected
func H_VerifyHigh() {
	vContracts("l3")
	m := vOpaque("m")
	R, S, pub := vBytes("r", 32), vBytes("s", 32), vBytes("p", 32)
	if vNativeBool(2) {
		R, S, pub = vNativeSig(m)
		n := vLE(S)
		n.Add(n, new(big.Int).Mul(vL(), big.NewInt(vI64("mult", 1, 15))))
		S = vBytesLE(n, 32)
	}
	vAssume(vLE(S).Cmp(vL()) >= 0)
	sg, err := NewSignature(R, S)
	vAssert(err == nil, "a signature of 32-byte halves")
	vAssert(!NewEd25519DsaSigner(&KeyPair{nil, NewPublicKey(pub)}).Verify(m, sg), "S at or above the group order is rejected")
	c, err := NewEd25519DsaSigner(&KeyPair{nil, NewPublicKey(pub)}).MakeSignatureCanonical(sg)
	vAssert(err == nil && c != nil, "it can be made canonical")
}
