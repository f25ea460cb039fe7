// Random helpers of math.go (C29): every value comes from fresh bytes of the
// operating system's source.

package crypto

import (
	"crypto/rand"
	"io"
	"math/big"
)

func init() {
	vReg("H_RandBytes", H_RandBytes)
	vReg("H_RandEncoded", H_RandEncoded)
	vReg("H_RandInt64", H_RandInt64)
	vReg("H_RandFE", H_RandFE)
	vReg("H_RandFEVaries", H_RandFEVaries)
	vReg("H_RandGroup", H_RandGroup)
	vReg("H_RandFail", H_RandFail)
}

// param 0: length, param 1: how the source splits its reads
func H_RandBytes() {
	n := vParam(0)
	e := vBytes("e", 2*n+3)
	e0 := vDup(e)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource}
	rand.Reader = src
	a := MathUtils.GetRandomByteArray(n)
	vAssert(len(a) == n && vEqB(a, e0[:n]), "the bytes of the system's source")
	b := MathUtils.GetRandomByteArray(n)
	vAssert(len(b) == n && vEqB(b, e0[n:2*n]), "fresh bytes for every call")
	vAssert(vEqB(a, e0[:n]), "earlier results do not change")
	vAssert(src.used == 2*n, "no other bytes are taken")
	if n == 32 {
		src.data, src.used = e0, 0
		v := MathUtils.random()
		vAssert(vEqB(v[:], e0[:32]), "32 bytes of the system's source")
	}
	vAssert(vEqB(e, e0), "the source is not modified")
}

// param 0: length, param 1: how the source splits its reads
func H_RandEncoded() {
	n := vParam(0)
	e := vBytes("e", 2*n)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource}
	if n != 32 && n != 64 {
		vAssert(vPanics(func() { MathUtils.GetRandomEncodedFieldElement(n) }), "only 32 and 64 bytes are accepted")
		return
	}
	for i := 0; i < 2; i++ {
		w := vDup(e[i*n : i*n+n])
		w[31] &= 0x7f
		f := MathUtils.GetRandomEncodedFieldElement(n)
		vAssert(len(f.Raw) == n && vEqB(f.Raw, w), "the bytes of the system's source without bit 255")
		vAssert(len(f.zero) == n, "the zero of the same length")
	}
}

// param 0: how the source splits its reads
func H_RandInt64() {
	e := vBytes("e", 16)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &vSource{data: e, pieces: vPieces[vParam(0)], err: vErrSource}
	for i := 0; i < 2; i++ {
		v := big.NewInt(MathUtils.GetRandomInt64())
		if v.Sign() < 0 {
			v.Add(v, new(big.Int).Lsh(big.NewInt(1), 64))
		}
		vAssert(v.Cmp(vLE(e[8*i:8*i+8])) == 0, "the 64 bits of the system's source")
	}
}

func H_RandFE() {
	e := vBytes("e", 320)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &vSource{data: e, err: vErrSource}
	f := MathUtils.GetRandomFieldElement()
	for i := 0; i < 10; i++ {
		vAssert(vAnd(f.Raw[i] >= -(1<<24), f.Raw[i] <= 1<<24), "limb "+vDig[i]+" is within 2^24")
	}
}

// two draws from sources that differ in every byte but the first
func H_RandFEVaries() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	e1, e2 := make([]byte, 320), make([]byte, 320)
	for i := range e1 {
		e2[i] = byte(i)
	}
	rand.Reader = &vSource{data: e1, err: vErrSource}
	f := MathUtils.GetRandomFieldElement()
	rand.Reader = &vSource{data: e2, err: vErrSource}
	g := MathUtils.GetRandomFieldElement()
	same := true
	for i := 0; i < 10; i++ {
		same = vAnd(same, f.Raw[i] == g.Raw[i])
	}
	vAssert(vNot(same), "a random field element depends on the system's source")
}

// param 0: which 32-byte string of the source is the first that encodes a point
// (3: none), param 1: how the source splits its reads
func H_RandGroup() {
	vContracts("l3")
	e := vBytes("e", 96)
	e0 := vDup(e)
	P, ok1 := vGDec(e0[:32])
	Q, ok2 := vGDec(e0[32:64])
	R, ok3 := vGDec(e0[64:])
	n, W := vParam(0), P
	switch n {
	case 0:
		vAssume(ok1)
	case 1:
		vAssume(vAnd(vNot(ok1), ok2))
		W = Q
	case 2:
		vAssume(vAnd(vNot(ok1), vAnd(vNot(ok2), ok3)))
		W = R
	default:
		vAssume(vAnd(vNot(ok1), vAnd(vNot(ok2), vNot(ok3))))
	}
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource}
	rand.Reader = src
	if n == 3 {
		vAssert(vPanics(func() { MathUtils.GetRandomGroupElement() }), "no point when no string of the source encodes one")
		vAssert(src.used == 96, "all of the source was tried")
		src.used = 0
		vAssert(vPanics(func() { MathUtils.GetRandomEncodedGroupElement() }), "no encoded point when no string of the source encodes one")
		return
	}
	g := MathUtils.GetRandomGroupElement()
	vAssert(vGEq(vGOf(g), W), "the point that the first valid string of the source encodes")
	vAssert(src.used == 32*(n+1), "no other bytes are taken")
	src.used = 0
	raw := MathUtils.GetRandomEncodedGroupElement()
	vAssert(vEqB(raw.Raw, vGEnc(W)), "the encoding of the point that the first valid string of the source encodes")
	vAssert(src.used == 32*(n+1), "no other bytes are taken for the encoding")
	vAssert(vEqB(e, e0), "the source is not modified")
}

// param 0: bytes before the source fails, param 1: how it splits its reads
func H_RandFail() {
	n := vParam(0)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for q := 0; q < 2; q++ {
		e := vBytes([]string{"e0", "e1"}[q], n)
		src := func() io.Reader {
			s := &vSource{data: e, pieces: vPieces[vParam(1)], err: vErrSource}
			if q == 1 {
				s.err = io.EOF
			}
			return s
		}
		rand.Reader = src()
		vAssert(vPanics(func() { MathUtils.GetRandomByteArray(33) }), "no bytes when the source fails")
		rand.Reader = src()
		vAssert(vPanics(func() { MathUtils.random() }), "no 32 bytes when the source fails")
		rand.Reader = src()
		vAssert(vPanics(func() { MathUtils.GetRandomEncodedFieldElement(32) }), "no encoded field element when the source fails")
		rand.Reader = src()
		vAssert(vPanics(func() { MathUtils.GetRandomEncodedFieldElement(64) }), "no long encoded field element when the source fails")
		if n < 8 {
			rand.Reader = src()
			vAssert(vPanics(func() { MathUtils.GetRandomInt64() }), "no integer when the source fails")
		}
		if n == 0 {
			rand.Reader = src()
			vAssert(vPanics(func() { MathUtils.GetRandomFieldElement() }), "no field element when the source fails")
		}
		rand.Reader = src()
		vAssert(vPanics(func() { MathUtils.GetRandomGroupElement() }), "no point when the source fails")
		rand.Reader = src()
		vAssert(vPanics(func() { MathUtils.GetRandomEncodedGroupElement() }), "no encoded point when the source fails")
	}
}
