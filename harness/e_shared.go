package crypto

// C22: every operation writes only memory that it allocates itself. Each
// operation runs between a freeze of all memory that exists and the check
// that none of it was written; natively it runs in two goroutines.

import "math/big"

func init() {
	vReg("H_QSig", H_QSig)
	vReg("H_QCipher", H_QCipher)
	vReg("H_QModel", H_QModel)
	vReg("H_QScalar", H_QScalar)
	vReg("H_QField", H_QField)
	vReg("H_QPow", H_QPow)
	vReg("H_QCodec", H_QCodec)
	vReg("H_QGroup", H_QGroup)
	vReg("H_QMul", H_QMul)
	vReg("H_QDouble", H_QDouble)
}

// an entropy source without state
type vFixedSource struct{ data []byte }

func (s vFixedSource) Read(p []byte) (int, error) { return copy(p, s.data), nil }

// a part of a larger buffer
func vPart(name string, n int) []byte { return vBytes(name, n+16)[4 : 4+n] }

func H_QSig() {
	vContracts("l3")
	kp, err := NewKeyPair(NewPrivateKey(vPart("k", 32)), nil, nil)
	vAssert(err == nil, "a key pair from a private key")
	m := vPart("m", 20)
	R, S, pub := vPart("r", 32), vPart("s", 32), vPart("p", 32)
	if vNativeBool(2) {
		R, S, pub = vNativeSig(m)
	}
	sg, err := NewSignature(R, S)
	vAssert(err == nil, "a signature of 32-byte halves")
	want := vSpecVerify(pub, R, S, m)
	kv := &KeyPair{nil, NewPublicKey(pub)}
	gen := NewEd25519KeyGenerator(vFixedSource{vBytes("e", 32)})
	signer, dsa, ver := NewSignerFromKeyPair(kp, nil), NewEd25519DsaSigner(kp), NewEd25519DsaSigner(kv)
	wantPub := vPubOf(kp.PrivateKey.Raw)
	wantR, wantS := vSpecSig(kp.PrivateKey.Raw, kp.PublicKey.Raw, m)
	vAssume(wantS.Sign() != 0)
	same := func(s *Signature, err error) bool {
		return err == nil && vAnd(vEqB(s.R, wantR), vLE(s.S).Cmp(wantS) == 0)
	}
	switch vParam(0) {
	case 0:
		vQuiet("DerivePublicKey writes nothing that exists", func() {
			vAssert(vEqB(gen.DerivePublicKey(kp.PrivateKey).Raw, wantPub), "DerivePublicKey gives the same every time")
			k, err := NewKeyPair(kp.PrivateKey, nil, nil)
			vAssert(err == nil && vEqB(k.PublicKey.Raw, wantPub), "NewKeyPair gives the same every time")
			k, err = NewKeyPair(kp.PrivateKey, kp.PublicKey, nil)
			vAssert(err == nil && k.PublicKey == kp.PublicKey, "NewKeyPair keeps the key")
		})
	case 1:
		vQuiet("GenerateKeyPair writes nothing that exists", func() {
			k, err := gen.GenerateKeyPair()
			vAssert(err == nil && k != nil, "GenerateKeyPair succeeds")
		})
	case 2:
		vQuiet("Sign writes nothing that exists", func() {
			s, err := signer.Sign(m)
			vAssert(same(s, err), "Sign gives the same every time")
			s, err = dsa.Sign(m)
			vAssert(same(s, err), "Sign gives the same every time")
		})
	case 3:
		vQuiet("Verify writes nothing that exists", func() {
			vAssert(vIff(ver.Verify(m, sg), want), "Verify gives the same every time")
		})
	case 4:
		vQuiet("signing and verifying write nothing that exists", func() {
			s, err := signer.Sign(m)
			vAssert(same(s, err), "Sign gives the same every time")
			vAssert(vIff(ver.Verify(m, sg), want), "Verify gives the same every time")
			s2, err := signer.Sign(m)
			vAssert(same(s2, err), "Sign gives the same every time")
			vAssert(same(s, nil), "an earlier signature stays as it was")
			vAssert(!vOverlap(s.R, s2.R) && !vOverlap(s.S, s2.S) && !vOverlap(s.R, s2.S), "signatures share no memory")
		})
	case 5:
		vQuiet("canonical form writes nothing that exists", func() {
			dsa.IsCanonicalSignature(sg)
			c, err := dsa.MakeSignatureCanonical(sg)
			vAssert(err == nil && vLE(c.S).Cmp(new(big.Int).Mod(vLE(S), vL())) == 0, "MakeSignatureCanonical gives the same every time")
		})
	}
}

func H_QCipher() {
	vContracts("l3")
	k1, err := NewKeyPair(NewPrivateKey(vPart("a", 32)), nil, nil)
	vAssert(err == nil, "a key pair from a private key")
	k2, err := NewKeyPair(NewPrivateKey(vPart("b", 32)), nil, nil)
	vAssert(err == nil, "a key pair from a private key")
	e := vBytes("e", 32)
	m, salt := vPart("m", 20), vPart("s", 32)
	c := NewEd25519BlockCipher(k1, k2, vFixedSource{e})
	ct, err := c.Encrypt(m)
	vAssert(err == nil, "encryption succeeds")
	a, b := vClamp(vHashOf("sha3-512", [][]byte{k1.PrivateKey.Raw})), vClamp(vHashOf("sha3-512", [][]byte{k2.PrivateKey.Raw}))
	key := vSpecKey(a, vGMul(b, vGB()), salt)
	m0, ct0 := vDup(m), vDup(ct)
	switch vParam(0) {
	case 0:
		vQuiet("GetSharedKey writes nothing that exists", func() {
			s, err := c.GetSharedKey(k1.PrivateKey, k2.PublicKey, salt)
			vAssert(err == nil && vEqB(s, key), "GetSharedKey gives the same every time")
		})
	case 1:
		vQuiet("Encrypt writes nothing that exists", func() {
			x, err := c.Encrypt(m)
			vAssert(err == nil && vEqB(x, ct0), "Encrypt gives the same every time")
		})
	case 2:
		vQuiet("Decrypt writes nothing that exists", func() {
			x, err := c.Decrypt(ct)
			vAssert(err == nil && vEqB(x, m0), "Decrypt gives the same every time")
		})
	case 3:
		vQuiet("encrypting and decrypting write nothing that exists", func() {
			x, err := c.Encrypt(m)
			vAssert(err == nil && vEqB(x, ct0), "Encrypt gives the same every time")
			y, err := c.Decrypt(ct)
			vAssert(err == nil && vEqB(y, m0), "Decrypt gives the same every time")
			x2, err := c.Encrypt(m)
			vAssert(err == nil && vEqB(x2, ct0) && vEqB(x, ct0) && vEqB(y, m0), "earlier results stay as they were")
			vAssert(!vOverlap(x, x2) && !vOverlap(y, ct) && !vOverlap(x, y), "results share no memory")
		})
	}
}

func H_QModel() {
	r, s, b := vPart("r", 32), vPart("s", 32), vPart("b", 64)
	sg, err := NewSignature(r, s)
	vAssert(err == nil, "a signature of 32-byte halves")
	k, p := NewPrivateKey(vPart("k", 32)), NewPublicKey(vPart("p", 32))
	both := append(vDup(r), s...)
	t := vHex(both)
	switch vParam(0) {
	case 0:
		vQuiet("views of a signature write nothing that exists", func() {
			vAssert(vEqB(sg.Bytes(), both), "Bytes gives the same every time")
			vAssert(sg.String() == t, "String gives the same every time")
			vAssert(sg.GetR().Cmp(vLE(r)) == 0 && sg.GetS().Cmp(vLE(s)) == 0, "GetR and GetS give the same every time")
		})
	case 1:
		vQuiet("parsing a signature writes nothing that exists", func() {
			x, err := NewSignatureFromBytes(b)
			vAssert(err == nil && vEqB(x.R, b[:32]) && vEqB(x.S, b[32:]), "parsing gives the same every time")
			x, err = NewSignature(r, s)
			vAssert(err == nil && vEqB(x.R, r) && vEqB(x.S, s), "parsing gives the same every time")
		})
	case 2:
		n, q := vLE(r), vLE(s)
		vQuiet("a signature from integers writes nothing that exists", func() {
			x, err := NewSignatureFromBigInt(n, q)
			vAssert(err == nil && vEqB(x.R, r) && vEqB(x.S, s), "conversion gives the same every time")
		})
	case 3:
		tk, tp := vHex(k.Raw), vHexUp(p.Raw)
		vQuiet("formatting and parsing keys write nothing that exists", func() {
			vAssert(k.String() == tk && p.String() == tp, "String gives the same every time")
			k2, err := NewPrivateKeyfromHexString(tk)
			vAssert(err == nil && vEqB(k2.Raw, k.Raw), "parsing gives the same every time")
			p2, err := NewPublicKeyfromHex(tp)
			vAssert(err == nil && vEqB(p2.Raw, p.Raw), "parsing gives the same every time")
		})
	case 4:
		want := vHashOf("sha3-512", [][]byte{r, s})
		want1, want2 := vHashOf("sha3-256", [][]byte{b}), vHashOf("sha256", [][]byte{b})
		want3, want4 := vHashOf("keccak256", [][]byte{b}), vHashOf("ripemd160", [][]byte{b})
		vQuiet("hashing writes nothing that exists", func() {
			h, err := HashesSha3_512(r, s)
			vAssert(err == nil && vEqB(h, want), "HashesSha3_512 gives the same every time")
			h, err = HashesSha3_256(b)
			vAssert(err == nil && vEqB(h, want1), "HashesSha3_256 gives the same every time")
			h, err = HashesSha_256(b)
			vAssert(err == nil && vEqB(h, want2), "HashesSha_256 gives the same every time")
			h, err = HashesKeccak_256(b)
			vAssert(err == nil && vEqB(h, want3), "HashesKeccak_256 gives the same every time")
			h, err = HashesRipemd160(b)
			vAssert(err == nil && vEqB(h, want4), "HashesRipemd160 gives the same every time")
		})
	}
}

func H_QScalar() {
	a, b, c := vPart("a", 32), vPart("b", 32), vPart("c", 32)
	w := vPart("w", 64)
	enc := func(x []byte) *Ed25519EncodedFieldElement {
		e, err := NewEd25519EncodedFieldElement(x)
		vAssert(err == nil, "32 and 64 bytes are accepted")
		return e
	}
	ea, eb, ec, ew := enc(a), enc(b), enc(c), enc(w)
	k := NewPrivateKey(vPart("k", 32))
	switch vParam(0) {
	case 0:
		vQuiet("modQ writes nothing that exists", func() { ew.modQ() })
	case 1:
		vQuiet("multiplyAndAddModQ writes nothing that exists", func() { ea.multiplyAndAddModQ(eb, ec) })
	case 2:
		want := vClamp(vHashOf("sha3-512", [][]byte{k.Raw}))
		vQuiet("PrepareForScalarMultiply writes nothing that exists", func() {
			vAssert(vLE(PrepareForScalarMultiply(k).Raw).Cmp(want) == 0, "PrepareForScalarMultiply gives the same every time")
		})
	case 3:
		vQuiet("Decode, IsNegative and IsNonZero of an encoded field element write nothing that exists", func() {
			ea.Decode()
			ea.IsNegative()
			ea.IsNonZero()
		})
	case 4:
		vQuiet("Equals of encoded field elements writes nothing that exists", func() {
			ea.Equals(eb)
			isEqualConstantTime(a, b)
		})
	}
}

func H_QField() {
	x, y := vLimbs("x", 40), vLimbs("y", 40)
	f, g := Ed25519FieldElement{x}, Ed25519FieldElement{y}
	switch vParam(0) {
	case 0:
		vQuiet("sums write nothing that exists", func() {
			f.add(g)
			f.subtract(g)
			f.negate()
		})
	case 1:
		vQuiet("multiply writes nothing that exists", func() { f.multiply(g) })
	case 2:
		vQuiet("square writes nothing that exists", func() { f.square() })
	case 3:
		vQuiet("squareAndDouble writes nothing that exists", func() { f.squareAndDouble() })
	case 4:
		vQuiet("Encode of a field element writes nothing that exists", func() { f.Encode() })
	case 5:
		vQuiet("IsNegative and IsNonZero of a field element write nothing that exists", func() {
			f.IsNegative()
			f.IsNonZero()
		})
	}
}

func H_QPow() {
	vContracts("mul")
	f, g := vFE("f", vFA("f"), vK), vFE("g", vFA("g"), vK)
	switch vParam(0) {
	case 0:
		vQuiet("invert writes nothing that exists", func() { f.invert() })
	case 1:
		vQuiet("Ed25519FieldElementSqrt writes nothing that exists", func() { Ed25519FieldElementSqrt(f, g) })
	}
}

func H_QCodec() {
	vContracts("sqrt")
	x, y := vPt("a")
	cs := []CoordinateSystem{P2, P3, P1xP1}[vParam(1)]
	p := vGE("a", cs, x, y)
	raw := vPart("e", 32)
	switch vParam(0) {
	case 0:
		vQuiet("Encode writes nothing that exists", func() {
			_, err := p.Encode()
			vAssert(err == nil, "Encode succeeds")
		})
	case 1:
		e := &Ed25519EncodedGroupElement{raw}
		vQuiet("Decode writes nothing that exists", func() { e.Decode() })
	}
}

func H_QGroup() {
	vContracts("fe")
	x, y := vPt("a")
	u, v := vPt("b")
	p2, p3, p1 := vGE("p", P2, x, y), vGE("q", P3, x, y), vGE("r", P1xP1, x, y)
	ca, pr := vGE("c", CACHED, u, v), vGE("d", PRECOMPUTED, u, v)
	ok := func(e *Ed25519GroupElement) { vAssert(e != nil, "the operation succeeds") }
	ok2 := func(e *Ed25519GroupElement, err error) { vAssert(err == nil && e != nil, "the operation succeeds") }
	switch vParam(0) {
	case 0:
		vQuiet("addition and subtraction write nothing that exists", func() {
			ok(p3.add(ca))
			ok(p3.subtract(ca))
		})
	case 1:
		vQuiet("precomputed addition and subtraction write nothing that exists", func() {
			ok2(p3.precomputedAdd(pr))
			ok(p3.precomputedSubtract(pr))
		})
	case 2:
		vQuiet("doubling writes nothing that exists", func() {
			ok(p2.dbl())
			ok(p3.dbl())
		})
	case 3:
		vQuiet("negation writes nothing that exists", func() { ok2(p3.negate()) })
	case 4:
		vQuiet("conversions write nothing that exists", func() {
			ok(p2.toP2())
			ok(p3.toP2())
			ok(p3.toCached())
			ok(p1.toP2())
			ok(p1.toP3())
			ok(p3.copy())
		})
	case 5:
		vQuiet("the group's constants are not written", func() {
			ok(Ed25519Group.ZERO_P2())
			ok(Ed25519Group.ZERO_P3())
			ok(Ed25519Group.ZERO_PRECOMPUTED())
			ok(Ed25519Group.BASE_POINT())
		})
	case 6:
		vQuiet("SatisfiesCurveEquation writes nothing that exists", func() { vAssert(p3.SatisfiesCurveEquation(), "a point of the curve") })
	case 7:
		vQuiet("Equals writes nothing that exists", func() { p2.Equals(p3) })
	}
}

func H_QMul() {
	vContracts("group")
	raw := vPart("k", 32)
	vAssume(raw[31] < 128)
	k := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), raw}
	p := Ed25519Group.BASE_POINT()
	if vParam(0) == 1 {
		p = vGMake("p", vGPt("p"), P3)
		p.PrecomputeForScalarMultiplication()
	}
	vQuiet("scalarMultiply writes nothing that exists", func() {
		r, err := p.scalarMultiply(k)
		vAssert(err == nil && r != nil, "scalarMultiply succeeds")
	})
}

func H_QDouble() {
	vContracts("group")
	a := vGMake("a", vGPt("a"), P3)
	a.PrecomputeForDoubleScalarMultiplication()
	b := Ed25519Group.BASE_POINT()
	k := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), vPart("k", 32)}
	n := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), vPart("n", 32)}
	vAssume(vLE(k.Raw).Cmp(vL()) < 0)
	vAssume(vLE(n.Raw).Cmp(vL()) < 0)
	vQuiet("doubleScalarMultiplyVariableTime writes nothing that exists", func() {
		r, err := b.doubleScalarMultiplyVariableTime(a, k, n)
		vAssert(err == nil && r != nil, "doubleScalarMultiplyVariableTime succeeds")
	})
}
