package crypto

// C23: key pairs, signers and ciphers use the engine and the keys they are
// given; C25: hostile keys and signatures.

import (
	"crypto/rand"
	"errors"
	"math/big"
)

func init() {
	vReg("H_WireKeys", H_WireKeys)
	vReg("H_WireEngine", H_WireEngine)
	vReg("H_WireSign", H_WireSign)
	vReg("H_WireCipher", H_WireCipher)
	vReg("H_WireReal", H_WireReal)
	vReg("H_WireDefault", H_WireDefault)
	vReg("H_SignNoKey", H_SignNoKey)
	vReg("H_Hostile", H_Hostile)
	vReg("H_HostileSign", H_HostileSign)
	vReg("H_HostileEq", H_HostileEq)
}

// an engine that records what it is given and answers what it is told
type vEng struct {
	kp, snd, rcv   *KeyPair
	s              *vSgn
	g              *vGen
	a              *vAna
	c              *vCip
	ns, ng, na, nc int
}

func (e *vEng) CreateDsaSigner(kp *KeyPair) DsaSigner {
	e.kp = kp
	e.ns++
	return e.s
}
func (e *vEng) CreateKeyGenerator() KeyGenerator {
	e.ng++
	return e.g
}
func (e *vEng) CreateBlockCipher(snd *KeyPair, rcv *KeyPair) BlockCipher {
	e.snd, e.rcv = snd, rcv
	e.nc++
	return e.c
}
func (e *vEng) CreateKeyAnalyzer() KeyAnalyzer {
	e.na++
	return e.a
}

type vSgn struct {
	data []byte
	sg   *Signature
	ret  *Signature
	err  error
	ok   bool
	n    int
	op   string
}

func (s *vSgn) Sign(data []byte) (*Signature, error) {
	s.data, s.op = data, "sign"
	s.n++
	return s.ret, s.err
}
func (s *vSgn) Verify(data []byte, sg *Signature) bool {
	s.data, s.sg, s.op = data, sg, "verify"
	s.n++
	return s.ok
}
func (s *vSgn) IsCanonicalSignature(sg *Signature) bool {
	s.sg, s.op = sg, "is"
	s.n++
	return s.ok
}
func (s *vSgn) MakeSignatureCanonical(sg *Signature) (*Signature, error) {
	s.sg, s.op = sg, "make"
	s.n++
	return s.ret, s.err
}

type vGen struct {
	priv *PrivateKey
	pub  *PublicKey
	kp   *KeyPair
	err  error
	n, m int
}

func (g *vGen) GenerateKeyPair() (*KeyPair, error) {
	g.n++
	return g.kp, g.err
}
func (g *vGen) DerivePublicKey(k *PrivateKey) *PublicKey {
	g.priv = k
	g.m++
	return g.pub
}

type vAna struct {
	pub *PublicKey
	ok  bool
	n   int
}

func (a *vAna) IsKeyCompressed(p *PublicKey) bool {
	a.pub = p
	a.n++
	return a.ok
}

type vCip struct {
	in, out []byte
	err     error
	op      string
}

func (c *vCip) Encrypt(b []byte) ([]byte, error) {
	c.in, c.op = b, "encrypt"
	return c.out, c.err
}
func (c *vCip) Decrypt(b []byte) ([]byte, error) {
	c.in, c.op = b, "decrypt"
	return c.out, c.err
}

// key pairs of the default engine; param 0: length of the public key
func H_WireKeys() {
	vContracts("l3")
	n := vParam(0)
	raw, pub := vBytes("k", 32), vBytes("p", n)
	r0, p0 := vDup(raw), vDup(pub)
	k, p := NewPrivateKey(raw), NewPublicKey(pub)
	kp, err := NewKeyPair(k, nil, nil)
	vAssert(err == nil && kp != nil && kp.PrivateKey == k && kp.HasPrivateKey(), "the private key is kept")
	vAssert(vEqB(kp.PublicKey.Raw, vPubOf(r0)), "the public key is the derived one")
	for i := 0; i < 4; i++ {
		kk := k
		var e CryptoEngine
		if i&1 == 1 {
			kk = nil
		}
		if i&2 == 2 {
			e = CryptoEngines.Ed25519Engine
		}
		kp, err = NewKeyPair(kk, p, e)
		vAssert((err == nil) == (n == 32) && (kp != nil) == (n == 32), "a given public key is refused exactly when it is not 32 bytes")
		if err == nil {
			vAssert(kp.PublicKey != nil && vEqB(kp.PublicKey.Raw, p0), "a given public key is kept")
			vAssert(kp.HasPrivateKey() == (kk != nil), "HasPrivateKey tells whether there is a private key")
			vAssert(kk == nil && kp.PrivateKey == nil || kk != nil && kp.PrivateKey != nil && vEqB(kp.PrivateKey.Raw, r0), "a given private key is kept")
		}
	}
	vAssert(vEqB(raw, r0) && vEqB(pub, p0), "the keys are not modified")
}

var vErrEngine = errors.New("engine refuses")

// key pairs of another engine
func H_WireEngine() {
	k, p, q := NewPrivateKey(vBytes("k", 5)), NewPublicKey(vBytes("p", 7)), NewPublicKey(vBytes("q", 32))
	ok := vBool("ok")
	e := &vEng{g: &vGen{pub: p}, a: &vAna{ok: ok}}
	kp, err := NewKeyPair(k, nil, e)
	vAssert(err == nil && kp != nil && kp.PrivateKey == k && kp.PublicKey == p, "the engine's derived key is used")
	vAssert(e.g.m > 0 && e.g.priv == k && e.g.n == 0, "the engine derives from the private key")
	kp, err = NewKeyPair(k, q, e)
	vAssert(e.a.n > 0 && e.a.pub == q, "the engine judges the public key")
	vAssert(vIff(err == nil, ok) && vIff(kp != nil, ok), "a given public key is kept exactly when the engine accepts it")
	if err == nil {
		vAssert(kp.PrivateKey == k && kp.PublicKey == q, "the given keys are kept")
	}
	want := &KeyPair{k, q}
	e.g.kp = want
	kp, err = NewKeyPairByEngine(e)
	vAssert(kp == want && err == nil && e.g.n == 1, "the engine generates the key pair")
	e.g.kp, e.g.err = nil, vErrEngine
	kp, err = NewKeyPairByEngine(e)
	vAssert(kp == nil && err == vErrEngine, "an error of the generator is passed on")
}

// the signer facade
func H_WireSign() {
	kp := &KeyPair{NewPrivateKey(vBytes("k", 32)), NewPublicKey(vBytes("p", 32))}
	ok := vBool("ok")
	sg, err := NewSignature(vBytes("r", 32), vBytes("s", 32))
	vAssert(err == nil, "a signature of 32-byte halves")
	sg2, err := NewSignature(vBytes("r2", 32), vBytes("s2", 32))
	vAssert(err == nil, "a signature of 32-byte halves")
	m := vBytes("m", 9)
	m0 := vDup(m)
	for i := 0; i < 2; i++ {
		sub := &vSgn{ok: ok, ret: sg2}
		e := &vEng{s: sub}
		s := NewSigner(sub)
		if i == 1 {
			s = NewSignerFromKeyPair(kp, e)
			vAssert(e.ns > 0 && e.kp == kp, "the engine makes a signer for the key pair")
		}
		r, err := s.Sign(m)
		vAssert(sub.n == 1 && sub.op == "sign" && vEqB(sub.data, m0), "Sign hands the message over")
		vAssert(err == nil && r == sg2, "Sign returns the signature")
		sub.err, sub.ret = vErrEngine, nil
		r, err = s.Sign(m)
		vAssert(r == nil && err == vErrEngine, "Sign returns the error")
		v := s.Verify(m, sg)
		vAssert(sub.n == 3 && sub.op == "verify" && vEqB(sub.data, m0) && sub.sg == sg, "Verify hands message and signature over")
		vAssert(vIff(v, ok), "Verify returns the answer")
		v = s.IsCanonicalSignature(sg)
		vAssert(sub.n == 4 && sub.op == "is" && sub.sg == sg && vIff(v, ok), "IsCanonicalSignature is passed on")
		r, err = s.MakeSignatureCanonical(sg2)
		vAssert(sub.n == 5 && sub.op == "make" && sub.sg == sg2 && r == nil && err == vErrEngine, "MakeSignatureCanonical returns the error")
		sub.err, sub.ret = nil, sg
		r, err = s.MakeSignatureCanonical(sg2)
		vAssert(sub.sg == sg2 && r == sg && err == nil, "MakeSignatureCanonical returns the signature")
		vAssert(vEqB(m, m0), "the message is not modified")
	}
}

// the cipher facade
func H_WireCipher() {
	k1 := &KeyPair{NewPrivateKey(vBytes("k1", 32)), NewPublicKey(vBytes("p1", 32))}
	k2 := &KeyPair{NewPrivateKey(vBytes("k2", 32)), NewPublicKey(vBytes("p2", 32))}
	sub := &vCip{out: vBytes("o", 20)}
	e := &vEng{c: sub}
	c := NewBlockCipher(k1, k2, e)
	vAssert(e.nc > 0 && e.snd == k1 && e.rcv == k2, "the engine makes a cipher for sender and recipient")
	m := vBytes("m", 9)
	m0, o0 := vDup(m), vDup(sub.out)
	r, err := c.Encrypt(m)
	vAssert(sub.op == "encrypt" && vEqB(sub.in, m0) && vEqB(r, o0) && err == nil, "Encrypt is the engine's")
	r, err = c.Decrypt(m)
	vAssert(sub.op == "decrypt" && vEqB(sub.in, m0) && vEqB(r, o0) && err == nil, "Decrypt is the engine's")
	sub.out, sub.err = nil, vErrEngine
	r, err = c.Encrypt(m)
	vAssert(r == nil && err == vErrEngine, "an error of Encrypt is passed on")
}

// the real engine with an entropy source of its own
func H_WireReal() {
	vContracts("l3")
	ent, sys := vBytes("e", 80), vBytes("f", 80)
	src, osrc := &vSource{data: ent, err: vErrSource}, &vSource{data: sys, err: vErrSource}
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = osrc
	e := &Ed25519SeedCryptoEngine{src}
	kp, err := NewKeyPairByEngine(e)
	vAssert(err == nil && kp != nil && vEqB(kp.PrivateKey.Raw, ent[:32]), "the generator uses the engine's entropy")
	vAssert(vEqB(kp.PublicKey.Raw, vPubOf(ent[:32])), "the generated public key is the derived one")
	k2, _ := vPair("b")
	m := vBytes("m", 3)
	ct, err := NewBlockCipher(kp, k2, e).Encrypt(m)
	vAssert(err == nil && len(ct) == 64 && vEqB(ct[:48], ent[32:]), "the cipher uses the engine's entropy")
	x, err := NewBlockCipher(&KeyPair{nil, kp.PublicKey}, k2, e).Decrypt(ct)
	vAssert(err == nil && vEqB(x, m), "the engine's cipher decrypts with the recipient's private key")
	x, err = NewBlockCipher(k2, kp, e).Decrypt(ct)
	vAssert(err == nil && vEqB(x, m), "the engine's cipher decrypts with the sender's private key")
	vAssert(src.used == 80 && osrc.used == 0, "no other source is used")
	sg, err := NewSignature(vBytes("r", 32), vBytes("s", 32))
	vAssert(err == nil, "a signature of 32-byte halves")
	s := e.CreateDsaSigner(kp)
	vAssert(vIff(s.Verify(m, sg), vSpecVerify(kp.PublicKey.Raw, sg.R, sg.S, m)), "the engine's signer uses the key pair")
	for _, n := range []int{0, 1, 31, 32, 33, 64} {
		p := NewPublicKey(make([]byte, n))
		vAssert(e.CreateKeyAnalyzer().IsKeyCompressed(p) == (n == 32), "a key is compressed exactly when it has 32 bytes")
	}
}

// a missing engine is the default engine, whichever that is
func H_WireDefault() {
	vContracts("l3")
	ent := vBytes("e", 80)
	src := &vSource{data: ent, err: vErrSource}
	old := CryptoEngines.DefaultEngine
	defer func() { CryptoEngines.DefaultEngine = old }()
	CryptoEngines.DefaultEngine = &Ed25519SeedCryptoEngine{src}
	kp, err := NewRandomKeyPair()
	vAssert(err == nil && kp != nil && vEqB(kp.PrivateKey.Raw, ent[:32]), "a random key pair comes from the default engine")
	k2, _ := vPair("b")
	m := vBytes("m", 3)
	ct, err := NewBlockCipher(kp, k2, nil).Encrypt(m)
	vAssert(err == nil && vEqB(ct[:48], ent[32:]), "a cipher without an engine is the default engine's")
	vAssert(src.used == 80, "the default engine's entropy is used")
}

// signing without a private key
func H_SignNoKey() {
	pub := vBytes("p", 32)
	kp, err := NewKeyPair(nil, NewPublicKey(pub), nil)
	vAssert(err == nil && kp != nil && !kp.HasPrivateKey(), "a key pair without a private key")
	m := vOpaque("m")
	var e CryptoEngine = CryptoEngines.Ed25519Engine
	for i := 0; i < 3; i++ {
		s := NewSignerFromKeyPair(kp, nil)
		if i == 1 {
			s = NewSignerFromKeyPair(kp, e)
		} else if i == 2 {
			s = NewSigner(NewEd25519DsaSigner(&KeyPair{nil, NewPublicKey(pub)}))
		}
		sg, err := s.Sign(m)
		vAssert(sg == nil && err != nil, "no signature without a private key")
	}
}

// verification with any public key bytes; param 0: their number
func H_Hostile() {
	vContracts("l3")
	n := vParam(0)
	m := vOpaque("m")
	R, S, pub := vBytes("r", 32), vBytes("s", 32), vBytes("p", n)
	if vNativeBool(3) {
		var p []byte
		R, S, p = vNativeSig(m)
		copy(pub, p)
	} else if vNativeBool(2) {
		copy(pub, vNativePub())
	}
	if vNativeBool(2) {
		S = vBytesLE(new(big.Int).Mod(vLE(S), vL()), 32)
	}
	p0 := vDup(pub)
	kp := &KeyPair{nil, NewPublicKey(pub)}
	for i := 0; i < 2; i++ {
		sg, err := NewSignature(R, S)
		if i == 1 {
			sg, err = NewSignatureFromBytes(append(vDup(R), S...))
		}
		vAssert(err == nil, "a signature of 32-byte halves")
		s := NewSignerFromKeyPair(kp, nil)
		got := s.Verify(m, sg)
		if n != 32 {
			vAssert(!got, "a key of another length verifies nothing")
		} else {
			vAssert(vIff(got, vSpecVerify(pub, R, S, m)), "Verify answers for every key")
		}
		c, err := s.MakeSignatureCanonical(sg)
		vAssert(err == nil && c != nil, "every signature can be made canonical")
		s.IsCanonicalSignature(c)
	}
	vAssert(vEqB(pub, p0), "the key is not modified")
}

// signing with keys of any length; param 0: private, param 1: public
func H_HostileSign() {
	vContracts("l3")
	priv, pub, m := vBytes("k", vParam(0)), vBytes("p", vParam(1)), vOpaque("m")
	kp := &KeyPair{NewPrivateKey(priv), NewPublicKey(pub)}
	_, S := vSpecSig(priv, pub, m)
	sg, err := NewSignerFromKeyPair(kp, nil).Sign(m)
	vAssert(vIff(err == nil, S.Sign() != 0) && vIff(sg != nil, S.Sign() != 0), "a signature or an error")
	sg, err = NewSignerFromKeyPair(kp, nil).Sign(vBytes("m2", 40)[:0])
	vAssert(vIff(err == nil, sg != nil), "a signature or an error")
}

// comparisons of encoded values; params: lengths
func H_HostileEq() {
	n, m := vParam(0), vParam(1)
	a, b := vBytes("a", n), vBytes("b", m)
	if n == m && vNativeBool(2) {
		copy(b, a)
		if n > 0 && vNativeBool(2) {
			b[int(vI64("i", 0, int64(n-1)))] ^= byte(1) << uint(vI64("j", 0, 7))
		}
	}
	a0, b0 := vDup(a), vDup(b)
	eq := n == m
	for i := 0; i < n && i < m; i++ {
		eq = vAnd(eq, a[i] == b[i])
	}
	vAssert(vIff(isEqualConstantTime(a, b), eq), "true exactly for equal strings of equal length")
	vAssert(vIff(isEqualConstantTime(b, a), eq), "true exactly for equal strings of equal length")
	vAssert(vEqB(a, a0) && vEqB(b, b0), "operands unchanged")
	ga, gb := &Ed25519EncodedGroupElement{a}, &Ed25519EncodedGroupElement{b}
	vAssert(vIff(ga.Equals(gb), eq), "encoded points are equal exactly when their bytes are")
	fa, fb := &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), a}, &Ed25519EncodedFieldElement{Ed25519FieldZeroShort(), b}
	vAssert(vIff(fa.Equals(fb), eq), "encoded field elements are equal exactly when their bytes are")
}
