package crypto

// Histories: the same objects and the same buffers are used again for other
// inputs. Every call is compared with its specification.

import "math/big"

func init() {
	vReg("H_SignBuf", H_SignBuf)
	vReg("H_SignTwo", H_SignTwo)
	vReg("H_VerifyBuf", H_VerifyBuf)
	vReg("H_VerifyTwo", H_VerifyTwo)
	vReg("H_DeriveTwo", H_DeriveTwo)
	vReg("H_SharedTwo", H_SharedTwo)
	vReg("H_CryptBuf", H_CryptBuf)
	vReg("H_DecryptTwo", H_DecryptTwo)
}

func vSigIs(sg *Signature, R []byte, S *big.Int) bool {
	return vAnd(vEqB(sg.R, R), vAnd(len(sg.S) == 32, vLE(sg.S).Cmp(S) == 0))
}

// one signer, one message buffer, two contents; param 0: length
func H_SignBuf() {
	vContracts("l3")
	n := vParam(0)
	kp, priv := vPair("a")
	q := &vPartsT{}
	buf := q.bytes("m0", n)
	m0, m1 := vDup(buf), vBytes("m1", n)
	R0, S0 := vSpecSig(priv, kp.PublicKey.Raw, m0)
	R1, S1 := vSpecSig(priv, kp.PublicKey.Raw, m1)
	vAssume(S0.Sign() != 0)
	vAssume(S1.Sign() != 0)
	s := NewEd25519DsaSigner(kp)
	a, err := s.Sign(buf)
	vAssert(err == nil && a != nil, "signing succeeds")
	vAssert(vSigIs(a, R0, S0), "the first signature is as specified")
	vAssert(q.same(), "the message is not modified")
	vAssert(s.Verify(buf, a), "the first signature verifies")
	copy(buf, m1)
	b, err := s.Sign(buf)
	vAssert(err == nil && b != nil, "signing new contents succeeds")
	vAssert(vSigIs(b, R1, S1), "the second signature is as specified")
	vAssert(s.Verify(buf, b), "the second signature verifies")
	vAssert(vSigIs(a, R0, S0), "the first signature is unchanged")
	copy(buf, m0)
	vAssert(s.Verify(buf, a), "the first signature verifies again")
	c, err := s.Sign(buf)
	vAssert(err == nil && c != nil && vSigIs(c, R0, S0), "the first message has the same signature again")
	vAssert(!vOverlap(a.R, c.R) && !vOverlap(a.S, c.S) && !vOverlap(a.R, b.R) && !vOverlap(a.S, b.S), "signatures do not share memory")
}

// two key pairs and two messages in turn
func H_SignTwo() {
	vContracts("l3")
	k1, r1 := vPair("a")
	k2, r2 := vPair("b")
	m1, m2 := vOpaque("m1"), vOpaque("m2")
	s1, s2 := NewEd25519DsaSigner(k1), NewEd25519DsaSigner(k2)
	for i := 0; i < 4; i++ {
		s, k, r, m := s1, k1, r1, m1
		if i == 1 || i == 2 {
			s, k, r = s2, k2, r2
		}
		if i >= 2 {
			m = m2
		}
		R, S := vSpecSig(r, k.PublicKey.Raw, m)
		vAssume(S.Sign() != 0)
		sg, err := s.Sign(m)
		vAssert(err == nil && sg != nil, "signing succeeds")
		vAssert(vSigIs(sg, R, S), "the signature is as specified")
	}
}

// one signer object; message and signature buffers get other contents; param 0: length
func H_VerifyBuf() {
	vContracts("l3")
	n := vParam(0)
	m := vBytes("m0", n)
	R, S, pub := vBytes("r0", 32), vBytes("s0", 32), vBytes("p", 32)
	m1, R1, S1 := vBytes("m1", n), vBytes("r1", 32), vBytes("s1", 32)
	if vNativeBool(2) {
		R, S, pub = vNativeSig(m)
		if vNativeBool(2) {
			R1 = vDup(R)
			if vNativeBool(2) {
				S1 = vDup(S)
			}
		}
	}
	sg := &Signature{R, S}
	s := NewEd25519DsaSigner(&KeyPair{nil, NewPublicKey(pub)})
	vAssert(vIff(s.Verify(m, sg), vSpecVerify(pub, R, S, m)), "the first verification accepts exactly the valid signatures")
	copy(m, m1)
	vAssert(vIff(s.Verify(m, sg), vSpecVerify(pub, R, S, m1)), "another message with the same signature")
	copy(R, R1)
	copy(S, S1)
	vAssert(vIff(s.Verify(m, sg), vSpecVerify(pub, R1, S1, m1)), "another signature")
}

// two verifications under different keys, in turn
func H_VerifyTwo() {
	vContracts("l3")
	m1, m2 := vOpaque("m1"), vOpaque("m2")
	R1, S1, p1 := vBytes("r1", 32), vBytes("s1", 32), vBytes("p1", 32)
	R2, S2, p2 := vBytes("r2", 32), vBytes("s2", 32), vBytes("p2", 32)
	if vNativeBool(2) {
		R1, S1, p1 = vNativeSig(m1)
		if vNativeBool(2) {
			R2, S2, p2 = vNativeSig(m2)
		} else {
			R2, S2, m2 = vDup(R1), vDup(S1), m1
		}
	}
	s1 := NewSignerFromKeyPair(&KeyPair{nil, NewPublicKey(p1)}, nil)
	s2 := NewSignerFromKeyPair(&KeyPair{nil, NewPublicKey(p2)}, nil)
	a, b := &Signature{R1, S1}, &Signature{R2, S2}
	w1, w2 := vSpecVerify(p1, R1, S1, m1), vSpecVerify(p2, R2, S2, m2)
	vAssert(vIff(s1.Verify(m1, a), w1), "the first key")
	vAssert(vIff(s2.Verify(m2, b), w2), "the second key")
	vAssert(vIff(s1.Verify(m1, a), w1), "the first key again")
	vAssert(vIff(s2.Verify(m1, a), vSpecVerify(p2, R1, S1, m1)), "the first signature under the second key")
}

// param 0, 1: lengths of two private keys
func H_DeriveTwo() {
	vContracts("l3")
	r1, r2 := vBytes("k1", vParam(0)), vBytes("k2", vParam(1))
	g := NewEd25519KeyGenerator(nil)
	w1, w2 := vPubOf(r1), vPubOf(r2)
	a := g.DerivePublicKey(NewPrivateKey(r1))
	b := g.DerivePublicKey(NewPrivateKey(r2))
	c := g.DerivePublicKey(NewPrivateKey(r1))
	vAssert(vEqB(a.Raw, w1) && vEqB(b.Raw, w2) && vEqB(c.Raw, w1), "every public key belongs to its private key")
	vAssert(!vOverlap(a.Raw, b.Raw) && !vOverlap(a.Raw, c.Raw), "public keys do not share memory")
	a.Raw[0] ^= 1
	d := g.DerivePublicKey(NewPrivateKey(r1))
	vAssert(vEqB(d.Raw, w1), "changing a returned public key changes nothing else")
}

// one cipher object; other keys and another salt in the same buffer
func H_SharedTwo() {
	vContracts("l3")
	k1, r1 := vPair("a")
	k2, r2 := vPair("b")
	p1, p2 := vBytes("p1", 32), vBytes("p2", 32)
	if vNativeBool(2) {
		p1 = vNativePub()
		if vNativeBool(2) {
			p2 = vNativePub()
		}
	}
	P1, ok1 := vGDec(p1)
	P2, ok2 := vGDec(p2)
	salt, s2 := vBytes("s1", 32), vBytes("s2", 32)
	s1 := vDup(salt)
	a1, a2 := vClamp(vHashOf("sha3-512", [][]byte{r1})), vClamp(vHashOf("sha3-512", [][]byte{r2}))
	c := NewEd25519BlockCipher(k1, k2, nil)
	x, err := c.GetSharedKey(k1.PrivateKey, NewPublicKey(p1), salt)
	vAssert(vIff(err == nil, ok1), "the first derivation is refused exactly for a bad key")
	if err == nil {
		vAssert(vEqB(x, vSpecKey(a1, P1, s1)), "the first key is as specified")
	}
	copy(salt, s2)
	y, err := c.GetSharedKey(k1.PrivateKey, NewPublicKey(p2), salt)
	vAssert(vIff(err == nil, ok2), "the second derivation is refused exactly for a bad key")
	if err == nil {
		vAssert(vEqB(y, vSpecKey(a1, P2, s2)), "the second key is as specified")
	}
	z, err := c.GetSharedKey(k2.PrivateKey, NewPublicKey(p1), salt)
	vAssert(vIff(err == nil, ok1), "the third derivation is refused exactly for a bad key")
	if err == nil {
		vAssert(vEqB(z, vSpecKey(a2, P1, s2)), "the third key is as specified")
	}
}

// one message buffer, three contents; param 0: length
func H_CryptBuf() {
	vContracts("l3")
	n := vParam(0)
	k1, _ := vPair("a")
	k2, _ := vPair("b")
	src := &vSource{data: vBytes("e", 144), err: vErrSource}
	snd := NewEd25519BlockCipher(k1, &KeyPair{nil, k2.PublicKey}, src)
	rcv := NewEd25519BlockCipher(&KeyPair{nil, k1.PublicKey}, k2, nil)
	buf := vBytes("m0", n)
	var ms, cts, c0s, outs [][]byte
	for i := 0; i < 3; i++ {
		if i > 0 {
			copy(buf, vBytes([]string{"", "m1", "m2"}[i], n))
		}
		ms = append(ms, vDup(buf))
		ct, err := snd.Encrypt(buf)
		vAssert(err == nil, "encryption succeeds")
		cts, c0s = append(cts, ct), append(c0s, vDup(ct))
	}
	in := make([]byte, len(cts[0]))
	for i := 0; i < 3; i++ {
		vAssert(len(cts[i]) == len(in) && vEqB(cts[i], c0s[i]), "earlier ciphertexts are not modified")
		copy(in, cts[i])
		got, err := rcv.Decrypt(in)
		vAssert(err == nil && len(got) == n && vEqB(got, ms[i]), "every message comes back")
		outs = append(outs, got)
	}
	for i := range in {
		in[i] = 0
	}
	for i := 0; i < 3; i++ {
		vAssert(vEqB(outs[i], ms[i]), "earlier results are not modified")
	}
}

// one cipher object, two arbitrary inputs, param 0, 1: lengths
func H_DecryptTwo() {
	vContracts("l3")
	k2, r2 := vPair("b")
	pub := vBytes("p", 32)
	c1, c2 := vBytes("c1", vParam(0)), vBytes("c2", vParam(1))
	if vNativeBool(2) {
		pub = vNativePub()
		vNativeCipher(c1, pub, r2)
		if vNativeBool(2) {
			vNativeCipher(c2, pub, r2)
		}
	}
	P, ok := vGDec(pub)
	a := vClamp(vHashOf("sha3-512", [][]byte{r2}))
	c := NewEd25519BlockCipher(&KeyPair{nil, NewPublicKey(pub)}, k2, nil)
	for _, ct := range [][]byte{c1, c2, c1} {
		got, err := c.Decrypt(ct)
		dec := vCBC(false, vSpecKey(a, P, ct[:32]), ct[32:48], ct[48:])
		l := len(dec)
		any := false
		for k := 1; k <= 16; k++ {
			good := ok
			for i := l - k; i < l; i++ {
				good = vAnd(good, dec[i] == byte(k))
			}
			any = vOr(any, good)
			vAssert(vOr(vNot(good), vAnd(err == nil, len(got) == l-k)), "the bytes without the padding")
		}
		vAssert(vIff(err == nil, any), "accepted exactly when key and padding are right")
	}
}
