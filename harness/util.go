package crypto

import "math/big"

// Helpers that use nothing of the package.

func vPanics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return false
}

const vK = 51 // limb bound of coordinates, in hundredths

func vD() vFp {
	d := new(big.Int).ModInverse(big.NewInt(121666), vP())
	d.Mul(d, big.NewInt(-121665))
	return vFC(d.Mod(d, vP()))
}
func vOne() vFp  { return vFC(big.NewInt(1)) }
func vZero() vFp { return vFC(big.NewInt(0)) }
func vTwo() vFp  { return vFC(big.NewInt(2)) }

// vGE: a representation of the affine point (x,y) in coordinate system cs
func vGE(name string, cs CoordinateSystem, x, y vFp) *Ed25519GroupElement {
	z := vFU("z" + name)
	d2 := vFMul(vTwo(), vD())
	switch cs {
	case P2:
		X, Y, Z := vFE("X"+name, vFMul(x, z), vK), vFE("Y"+name, vFMul(y, z), vK), vFE("Z"+name, z, vK)
		return NewEd25519GroupElementP2(&X, &Y, &Z)
	case P3:
		X, Y, Z, T := vFE("X"+name, vFMul(x, z), vK), vFE("Y"+name, vFMul(y, z), vK), vFE("Z"+name, z, vK), vFE("T"+name, vFMul(vFMul(x, y), z), vK)
		return NewEd25519GroupElementP3(&X, &Y, &Z, &T)
	case P1xP1:
		t := vFU("t" + name)
		X, Y, Z, T := vFE("X"+name, vFMul(x, z), 3*vK), vFE("Y"+name, vFMul(y, t), 3*vK), vFE("Z"+name, z, 3*vK), vFE("T"+name, t, 3*vK)
		return NewEd25519GroupElementP1XP1(&X, &Y, &Z, &T)
	case CACHED:
		X, Y, Z, T := vFE("X"+name, vFMul(vFAdd(y, x), z), 2*vK), vFE("Y"+name, vFMul(vFSub(y, x), z), 2*vK), vFE("Z"+name, z, vK), vFE("T"+name, vFMul(d2, vFMul(vFMul(x, y), z)), vK)
		return NewEd25519GroupElementCached(&X, &Y, &Z, &T)
	case PRECOMPUTED:
		X, Y, Z := vFE("X"+name, vFAdd(y, x), 2*vK), vFE("Y"+name, vFSub(y, x), 2*vK), vFE("Z"+name, vFMul(d2, vFMul(x, y)), vK)
		return NewEd25519GroupElementPrecomputed(&X, &Y, &Z)
	}
	X, Y, Z := vFE("X"+name, x, vK), vFE("Y"+name, y, vK), vFE("Z"+name, vOne(), vK)
	return NewEd25519GroupElementAffine(&X, &Y, &Z)
}

var vDig = [10]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

func vP() *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
}
func vL() *big.Int {
	c, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	return c.Add(c, new(big.Int).Lsh(big.NewInt(1), 252))
}

// limbs of a field element with |limb| <= k*2^26/100 resp. k*2^25/100
func vLimbs(name string, k int64) (r [10]int64) {
	for i := 0; i < 10; i++ {
		b := k * (int64(1) << 26) / 100
		if i%2 == 1 {
			b = k * (int64(1) << 25) / 100
		}
		r[i] = vI64(name+vDig[i], -b, b)
	}
	return r
}

var vExp = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func vVal(l [10]int64) *big.Int {
	r := new(big.Int)
	for i := 0; i < 10; i++ {
		r.Add(r, new(big.Int).Lsh(big.NewInt(l[i]), vExp[i]))
	}
	return r
}

func vWithin(l [10]int64, k int64) bool {
	r := true
	for i := 0; i < 10; i++ {
		b := k * (int64(1) << 26) / 100
		if i%2 == 1 {
			b = k * (int64(1) << 25) / 100
		}
		r = vAnd(r, vAnd(l[i] <= b, l[i] >= -b))
	}
	return r
}

// parts of larger buffers, to see writes next to an argument
type vPartsT struct{ all, keep [][]byte }

func (q *vPartsT) bytes(name string, n int) []byte {
	b := vBytes(name, n+72)
	q.all = append(q.all, b)
	q.keep = append(q.keep, append([]byte(nil), b...))
	return b[8 : 8+n]
}

// nothing of the buffers has changed
func (q *vPartsT) same() bool {
	r := true
	for i, b := range q.all {
		r = vAnd(r, vEqB(b, q.keep[i]))
	}
	return r
}

func vBytesLE(n *big.Int, k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(new(big.Int).And(new(big.Int).Rsh(n, uint(8*i)), big.NewInt(255)).Int64())
	}
	return b
}
