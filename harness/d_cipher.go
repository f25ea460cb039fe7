package crypto

// C06 to C10: entropy, the block cipher and key agreement.

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
)

func init() {
	vReg("H_KeyGen", H_KeyGen)
	vReg("H_KeyGenOS", H_KeyGenOS)
	vReg("H_KeyGenFail", H_KeyGenFail)
	vReg("H_Crypt", H_Crypt)
	vReg("H_CryptReuse", H_CryptReuse)
	vReg("H_Encrypt", H_Encrypt)
	vReg("H_EncryptOS", H_EncryptOS)
	vReg("H_EncryptFail", H_EncryptFail)
	vReg("H_Decrypt", H_Decrypt)
	vReg("H_OwnKeyLen", H_OwnKeyLen)
	vReg("H_SharedKey", H_SharedKey)
	vReg("H_SharedKeyBad", H_SharedKeyBad)
}

var vErrSource = errors.New("entropy source failed")

// an entropy source: data in pieces; pieces[i] bounds the i-th read, the last
// entry all later ones; after the data, or when fail is reached, an error.
type vSource struct {
	data   []byte
	pieces []int
	n      int // reads
	used   int // bytes handed out
	err    error
	early  bool   // the error comes with the last bytes
	more   []byte // handed out after the error has been reported once
}

func (s *vSource) Read(p []byte) (int, error) {
	k := len(p)
	if len(s.pieces) > 0 {
		i := s.n
		if i >= len(s.pieces) {
			i = len(s.pieces) - 1
		}
		if s.pieces[i] < k {
			k = s.pieces[i]
		}
	}
	s.n++
	if k > len(s.data)-s.used {
		k = len(s.data) - s.used
	}
	if k == 0 && len(p) > 0 && s.used == len(s.data) {
		s.recover()
		return 0, s.err
	}
	copy(p[:k], s.data[s.used:s.used+k])
	s.used += k
	if s.early && s.used == len(s.data) {
		s.recover()
		return k, s.err
	}
	return k, nil
}

func (s *vSource) recover() {
	if s.more != nil {
		s.data, s.used, s.more = s.more, 0, nil
	}
}

var vPieces = [][]int{nil, {1}, {0, 1}, {2, 3, 5}, {31}, {16}, {15, 0, 1, 40}, {32, 7}, {33}, {48}, {31, 1, 1, 15, 3}}

// param 0: how the source splits its reads
func H_KeyGen() {
	vContracts("l3")
	e := vBytes("e", 80)
	e0 := vDup(e)
	src := &vSource{data: e, pieces: vPieces[vParam(0)], err: vErrSource}
	g := NewEd25519KeyGenerator(src)
	for i := 0; i < 2; i++ {
		kp, err := g.GenerateKeyPair()
		k := e0[32*i : 32*i+32]
		vAssert(err == nil && kp != nil && kp.HasPrivateKey(), "a key pair is generated")
		vAssert(src.used == 32*(i+1), "exactly 32 bytes are read")
		vAssert(vEqB(kp.PrivateKey.Raw, k), "the private key is the entropy")
		vAssert(vEqB(kp.PublicKey.Raw, vPubOf(k)), "the public key is derived from it")
		vAssert(!vOverlap(kp.PrivateKey.Raw, e), "the private key is fresh memory")
		if i == 0 {
			kp.PrivateKey.Raw[0]++
		}
	}
	kp, err := g.GenerateKeyPair()
	vAssert(kp == nil && err != nil, "no key from the 16 bytes that are left")
	vAssert(vEqB(e, e0), "the source is not modified")
}

func H_KeyGenOS() {
	vContracts("l3")
	e := vBytes("e", 96)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := &vSource{data: e, pieces: []int{5, 40}, err: io.EOF}
	rand.Reader = src
	kp, err := NewEd25519KeyGenerator(nil).GenerateKeyPair()
	vAssert(err == nil && kp != nil && vEqB(kp.PrivateKey.Raw, e[:32]), "the system's source is used")
	vAssert(vEqB(kp.PublicKey.Raw, vPubOf(e[:32])), "the public key is derived from it")
	kp, err = NewRandomKeyPair()
	vAssert(err == nil && kp != nil && vEqB(kp.PrivateKey.Raw, e[32:64]), "the system's source is used by default")
	vAssert(vEqB(kp.PublicKey.Raw, vPubOf(e[32:64])), "the public key is derived from it (default)")
	kp, err = NewKeyPairByEngine(CryptoEngines.Ed25519Engine)
	vAssert(err == nil && kp != nil && vEqB(kp.PrivateKey.Raw, e[64:]), "the system's source is used by the engine")
	vAssert(src.used == 96, "exactly 32 bytes each")
	kp, err = NewRandomKeyPair()
	vAssert(kp == nil && err != nil, "no key when the system's source fails")
}

// param 0: the number of bytes before the failure (0..31), param 1: splitting,
// for both kinds of errors, with and without the last bytes
func H_KeyGenFail() {
	n := vParam(0)
	for q := 0; q < 6; q++ {
		e := vBytes([]string{"e0", "e1", "e2", "e3", "e4", "e5"}[q], n)
		src := &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource, early: q == 2 || q == 3}
		if q&1 == 1 {
			src.err = io.EOF
		}
		if q >= 4 { // a failure that passes
			src.more = vBytes([]string{"f4", "f5"}[q-4], 64)
		}
		kp, err := NewEd25519KeyGenerator(src).GenerateKeyPair()
		vAssert(kp == nil && err != nil, "an error and no key when the source runs short")
	}
}

func vPair(name string) (*KeyPair, []byte) {
	raw := vBytes(name, 32)
	kp, err := NewKeyPair(NewPrivateKey(raw), nil, nil)
	vAssert(err == nil, "a key pair from a private key")
	return kp, raw
}

func vPad(m []byte) []byte {
	n := 16 - len(m)%16
	r := vDup(m)
	for i := 0; i < n; i++ {
		r = append(r, byte(n))
	}
	return r
}

// key of (own scalar, other point, salt)
func vSpecKey(a *big.Int, p vGp, salt []byte) []byte {
	k := vGEnc(vGMul(a, p))
	for i := range k {
		k[i] ^= salt[i]
	}
	return vHashOf("sha3-256", [][]byte{k})
}

// param 0: length of the message
func H_Crypt() {
	vContracts("l3")
	n := vParam(0)
	k1, _ := vPair("a")
	k2, _ := vPair("b")
	q := &vPartsT{}
	m := q.bytes("m", n)
	m0 := vDup(m)
	e := vBytes("e", 48)
	snd := NewEd25519BlockCipher(k1, &KeyPair{nil, k2.PublicKey}, &vSource{data: e, err: vErrSource})
	rcv := NewBlockCipher(&KeyPair{nil, k1.PublicKey}, k2, nil)
	ct, err := snd.Encrypt(m)
	vAssert(err == nil && len(ct) == 48+n+16-n%16, "the ciphertext has 48 bytes and whole blocks")
	c0 := vDup(ct)
	got, err := rcv.Decrypt(ct)
	vAssert(err == nil && len(got) == n && vEqB(got, m0), "the recipient gets the message back")
	vAssert(q.same(), "the message is not modified")
	vAssert(vEqB(ct, c0), "the ciphertext is not modified")
	vAssert(!vOverlap(ct, m) && !vOverlap(got, ct), "results are fresh memory")
}

// both ciphers are used again and in both directions
func H_CryptReuse() {
	vContracts("l3")
	k1, _ := vPair("a")
	k2, _ := vPair("b")
	src := &vSource{data: vBytes("e", 200), pieces: []int{7, 32, 16}, err: vErrSource}
	snd := NewEd25519BlockCipher(k1, &KeyPair{nil, k2.PublicKey}, src)
	rcv := NewEd25519BlockCipher(&KeyPair{nil, k1.PublicKey}, k2, src)
	back := NewEd25519BlockCipher(k2, k1, src)
	var ms, cts [][]byte
	for i, n := range []int{0, 5, 16, 33} {
		m := vBytes([]string{"m0", "m1", "m2", "m3"}[i], n)
		c := snd
		if i == 2 {
			c = back
		}
		ct, err := c.Encrypt(m)
		vAssert(err == nil, "encryption succeeds")
		ms, cts = append(ms, vDup(m)), append(cts, ct)
	}
	for _, i := range []int{3, 0, 1, 0, 2} {
		c := rcv
		if i == 2 {
			c = NewEd25519BlockCipher(k2, k1, nil)
		}
		got, err := c.Decrypt(cts[i])
		vAssert(err == nil && len(got) == len(ms[i]) && vEqB(got, ms[i]), "every message comes back")
	}
}

// layout of two ciphertexts in a row; param 0: length, 1: splitting
func H_Encrypt() {
	vContracts("l3")
	n := vParam(0)
	k1, r1 := vPair("a")
	pub := vBytes("p", 32)
	P, ok := vGDec(pub)
	vAssume(ok)
	k2 := &KeyPair{nil, NewPublicKey(pub)}
	e := vBytes("e", 96)
	src := &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource}
	c := NewEd25519BlockCipher(k1, k2, src)
	a := vClamp(vHashOf("sha3-512", [][]byte{r1}))
	vSharedSnap()
	for i := 0; i < 2; i++ {
		m := vBytes([]string{"m0", "m1"}[i], n)
		ct, err := c.Encrypt(m)
		x := e[48*i : 48*i+48]
		vAssert(err == nil && len(ct) == 48+n+16-n%16, "the ciphertext has 48 bytes and whole blocks")
		vAssert(src.used == 48*(i+1), "48 bytes of entropy are used")
		vAssert(vEqB(ct[:32], x[:32]), "the ciphertext starts with the salt")
		vAssert(vEqB(ct[32:48], x[32:]), "the IV follows")
		vAssert(vEqB(ct[48:], vCBC(true, vSpecKey(a, P, x[:32]), x[32:], vPad(m))), "the blocks are the CBC encryption of the padded message")
	}
	ct, err := c.Encrypt(nil)
	vAssert(ct == nil && err != nil, "no ciphertext without entropy")
	vAssert(vSharedSame(), "no shared state is modified")
}

func H_EncryptOS() {
	vContracts("l3")
	e := vBytes("e", 96)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := &vSource{data: e, pieces: []int{5, 40}, err: io.EOF}
	rand.Reader = src
	k1, _ := vPair("a")
	k2, _ := vPair("b")
	m := vBytes("m", 3)
	ct, err := NewEd25519BlockCipher(k1, k2, nil).Encrypt(m)
	vAssert(err == nil && vEqB(ct[:48], e[:48]), "salt and IV come from the system's source")
	ct, err = NewBlockCipher(k1, k2, nil).Encrypt(m)
	vAssert(err == nil && vEqB(ct[:48], e[48:]), "salt and IV come from the system's source (default engine)")
	ct, err = NewBlockCipher(k1, k2, CryptoEngines.Ed25519Engine).Encrypt(m)
	vAssert(ct == nil && err != nil, "no ciphertext when the system's source fails")
}

// param 0: bytes before the failure (0..47), param 1: splitting
func H_EncryptFail() {
	vContracts("l3")
	n := vParam(0)
	k1, _ := vPair("a")
	k2, _ := vPair("b")
	m := vBytes("m", 5)
	for q := 0; q < 6; q++ {
		e := vBytes([]string{"e0", "e1", "e2", "e3", "e4", "e5"}[q], n)
		src := &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource, early: (q == 2 || q == 3) && n != 32}
		if q&1 == 1 {
			src.err = io.EOF
		}
		if q >= 4 { // a failure that passes: the source has data again afterwards
			src.more = vBytes([]string{"f4", "f5"}[q-4], 96)
		}
		ct, err := NewEd25519BlockCipher(k1, k2, src).Encrypt(m)
		vAssert(ct == nil && err != nil, "an error and no ciphertext when the source runs short")
	}
}

// any bytes; param 0: their number, param 1: 1 for a native search over
// well-formed ciphertexts
func H_Decrypt() {
	vContracts("l3")
	n := vParam(0)
	k2, r2 := vPair("b")
	q := &vPartsT{}
	pub := vBytes("p", 32)
	ct := q.bytes("c", n)
	if vNativeBool(2) {
		pub = vNativePub()
		if n >= 64 && n%16 == 0 && vNativeBool(2) {
			vNativeCipher(ct, pub, r2)
			q = &vPartsT{}
		}
	}
	p0, c0 := vDup(pub), vDup(ct)
	P, ok := vGDec(pub)
	vSharedSnap()
	c := NewEd25519BlockCipher(&KeyPair{nil, NewPublicKey(pub)}, k2, nil)
	got, err := c.Decrypt(ct)
	vAssert(vIff(err != nil, got == nil), "a message or an error")
	vAssert(vEqB(pub, p0) && vEqB(ct, c0) && q.same(), "the inputs are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
	if n < 64 || n%16 != 0 {
		vAssert(err != nil, "inputs of a wrong length are refused")
		return
	}
	a := vClamp(vHashOf("sha3-512", [][]byte{r2}))
	dec := vCBC(false, vSpecKey(a, P, ct[:32]), ct[32:48], ct[48:])
	l := len(dec)
	any := false
	for k := 1; k <= 16; k++ {
		good := true
		for i := l - k; i < l; i++ {
			good = vAnd(good, dec[i] == byte(k))
		}
		good = vAnd(good, ok)
		any = vOr(any, good)
		if good {
			vAssert(err == nil && len(got) == l-k && vEqB(got, dec[:l-k]), "the bytes without the padding")
			vReach("accepted")
		}
	}
	vAssert(vIff(err == nil, any), "accepted exactly when key and padding are right")
}

// the two sides of a key agreement
func H_SharedKey() {
	vContracts("l3")
	k1, r1 := vPair("a")
	k2, r2 := vPair("b")
	q := &vPartsT{}
	salt := q.bytes("s", 32)
	s0, r10, r20, p10, p20 := vDup(salt), vDup(r1), vDup(r2), vDup(k1.PublicKey.Raw), vDup(k2.PublicKey.Raw)
	c1 := NewEd25519BlockCipher(k1, k2, nil)
	c2 := NewEd25519BlockCipher(k1, k2, nil)
	vSharedSnap()
	s1, err1 := c1.GetSharedKey(k1.PrivateKey, k2.PublicKey, salt)
	s2, err2 := c2.GetSharedKey(k2.PrivateKey, k1.PublicKey, salt)
	vAssert(err1 == nil && err2 == nil, "both sides derive a key")
	vAssert(len(s1) == 32 && vEqB(s1, s2), "both sides derive the same key")
	a, b := vClamp(vHashOf("sha3-512", [][]byte{r1})), vClamp(vHashOf("sha3-512", [][]byte{r2}))
	vAssert(vEqB(s1, vSpecKey(a, vGMul(b, vGB()), salt)), "the key is the hash of the salted encoding of a*b*B")
	s3, err := c1.GetSharedKey(k1.PrivateKey, k2.PublicKey, salt)
	vAssert(err == nil && vEqB(s3, s1), "deriving again gives the same key")
	vAssert(q.same() && vEqB(salt, s0) && vEqB(r1, r10) && vEqB(r2, r20) && vEqB(k1.PublicKey.Raw, p10) && vEqB(k2.PublicKey.Raw, p20), "salt and keys are not modified")
	vAssert(!vOverlap(s1, salt) && !vOverlap(s1, s2), "the key is fresh memory")
	vAssert(vSharedSame(), "no shared state is modified")
}

// any public key bytes; param 0: their number
func H_SharedKeyBad() {
	vContracts("l3")
	n := vParam(0)
	k1, r1 := vPair("a")
	pub, salt := vBytes("p", n), vBytes("s", 32)
	if n == 32 && vNativeBool(2) {
		pub = vNativePub()
	}
	p0, s0 := vDup(pub), vDup(salt)
	P, ok := vGDec(pub)
	k2 := &KeyPair{nil, NewPublicKey(pub)}
	k, err := NewEd25519BlockCipher(k1, k1, nil).GetSharedKey(k1.PrivateKey, k2.PublicKey, salt)
	vAssert(vIff(err == nil, ok), "refused exactly when the public key is not an encoding of a point")
	vAssert(vIff(k == nil, err != nil), "a key or an error")
	if err == nil {
		vReach("accepted")
		vAssert(vEqB(k, vSpecKey(vClamp(vHashOf("sha3-512", [][]byte{r1})), P, salt)), "the key is the hash of the salted encoding of a*P")
	} else {
		vReach("refused")
	}
	vAssert(vEqB(pub, p0) && vEqB(salt, s0), "salt and keys are not modified")
}

// H_OwnKeyLen: a cipher whose recipient has a public key of the wrong length refuses everything.
// Parameters: length of the recipient's public key, length of the input.
func H_OwnKeyLen() {
	vContracts("l3")
	k := vParam(0)
	n := vParam(1)
	_, r2 := vPair("b")
	k1, _ := vPair("a")
	q := &vPartsT{}
	own := q.bytes("o", k)
	ct := q.bytes("c", n)
	vSharedSnap()
	c := NewEd25519BlockCipher(k1, &KeyPair{NewPrivateKey(r2), NewPublicKey(own)}, nil)
	got, err := c.Decrypt(ct)
	vAssert(err != nil && got == nil, "decryption with an own public key of the wrong length is refused")
	ent := q.bytes("e", k+16)
	r := &vSource{data: ent, pieces: vPieces[0], err: vErrSource}
	c = NewEd25519BlockCipher(k1, &KeyPair{nil, NewPublicKey(own)}, r)
	got, err = c.Encrypt(ct)
	vAssert(err != nil && got == nil, "encryption for a public key of the wrong length is refused")
	vAssert(q.same(), "the inputs are not modified")
	vAssert(vSharedSame(), "no shared state is modified")
	vReach("end")
}
