package crypto

// Concrete counterparts of the harness primitives, used to replay solver
// models (and seeded special values) against the real code.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"
	"time"
	"unsafe"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

var vRegistry = map[string]func(){}

func vReg(name string, f func()) { vRegistry[name] = f }

type vTrialT struct {
	assign map[string]string
	params []int64
	rng    *rand.Rand
	mode   int
	used   map[string]string
	snap   []reflect.Value
	log    []string
	pts    []vPoint
}

type vFailT struct{ label string }
type vDiscardT struct{}

var vCur *vTrialT

func vParam(i int) int {
	if i < len(vCur.params) {
		return int(vCur.params[i])
	}
	return 0
}

// special 256-bit values around the constants of the curve
var vSpecials = func() []*big.Int {
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	l, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	l.Add(l, new(big.Int).Lsh(big.NewInt(1), 252))
	var r []*big.Int
	for _, b := range []*big.Int{big.NewInt(0), p, l, new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 252), new(big.Int).Lsh(l, 1), new(big.Int).Lsh(l, 2), new(big.Int).Lsh(l, 3), new(big.Int).Mul(l, big.NewInt(15)), new(big.Int).Lsh(p, 1), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 128)} {
		for d := int64(-3); d <= 3; d++ {
			v := new(big.Int).Add(b, big.NewInt(d))
			if v.Sign() >= 0 {
				r = append(r, v)
			}
		}
	}
	return r
}()

func (t *vTrialT) pick(lo, hi *big.Int) *big.Int {
	span := new(big.Int).Sub(hi, lo)
	span.Add(span, big.NewInt(1))
	switch k := t.rng.Intn(12); {
	case k == 0:
		return new(big.Int).Set(lo)
	case k == 1:
		return new(big.Int).Set(hi)
	case k == 2:
		v := new(big.Int).Add(lo, big.NewInt(int64(t.rng.Intn(4))))
		if v.Cmp(hi) <= 0 {
			return v
		}
	case k == 3:
		v := new(big.Int).Sub(hi, big.NewInt(int64(t.rng.Intn(4))))
		if v.Cmp(lo) >= 0 {
			return v
		}
	case k == 4:
		v := big.NewInt(int64(t.rng.Intn(5) - 2))
		if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			return v
		}
	case k <= 6:
		v := vSpecials[t.rng.Intn(len(vSpecials))]
		if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			return new(big.Int).Set(v)
		}
	case k == 7:
		// a power of two, give or take one
		v := new(big.Int).Lsh(big.NewInt(1), uint(t.rng.Intn(span.BitLen()+1)))
		v.Add(v, big.NewInt(int64(t.rng.Intn(3)-1)))
		if t.rng.Intn(2) == 0 {
			v.Neg(v)
		}
		if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			return v
		}
	}
	v := new(big.Int).Rand(t.rng, span)
	return v.Add(v, lo)
}

func (t *vTrialT) num(name string, lo, hi *big.Int) *big.Int {
	if s, ok := t.assign[name]; ok {
		if v, ok := new(big.Int).SetString(s, 10); ok && v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			t.used[name] = v.String()
			return v
		}
	}
	v := t.pick(lo, hi)
	t.used[name] = v.String()
	return v
}

func vI64(name string, lo, hi int64) int64 {
	return vCur.num(name, big.NewInt(lo), big.NewInt(hi)).Int64()
}
func vByte(name string) byte { return byte(vI64(name, 0, 255)) }
func vBool(name string) bool { return vI64(name, 0, 1) != 0 }
func vBigN(name string, lo, hi *big.Int) *big.Int {
	return vCur.num(name, lo, hi)
}

func (t *vTrialT) fill(n int) []byte {
	b := make([]byte, n)
	t.rng.Read(b)
	switch k := t.rng.Intn(16); {
	case k == 0:
		for i := range b {
			b[i] = 0
		}
	case k == 1:
		for i := range b {
			b[i] = 255
		}
	case k <= 4:
		v := vSpecials[t.rng.Intn(len(vSpecials))]
		if t.rng.Intn(3) == 0 && n > 32 {
			v = new(big.Int).Mul(v, vSpecials[t.rng.Intn(len(vSpecials))])
		}
		for i := range b {
			b[i] = byte(new(big.Int).Rsh(v, uint(8*i)).Int64())
		}
	case k == 5:
		for i := range b {
			b[i] = [4]byte{0, 255, 128, b[i]}[t.rng.Intn(4)]
		}
	case k == 6:
		// few bytes differ from a constant
		c := [3]byte{0, 255, byte(t.rng.Intn(256))}[t.rng.Intn(3)]
		for i := range b {
			if t.rng.Intn(8) != 0 {
				b[i] = c
			}
		}
	case k == 7 && n > 0:
		b[n-1] = byte(t.rng.Intn(18))
	case k == 8 && n > 0:
		b[0] = [3]byte{0, 255, 1}[t.rng.Intn(3)]
	case k == 9:
		// leading zero bytes
		for i := 0; i < n && i < 1+t.rng.Intn(8); i++ {
			b[i] = 0
		}
	}
	return b
}

func vBytes(name string, n int) []byte {
	b := vCur.fill(n)
	for i := range b {
		k := fmt.Sprintf("%s[%d]", name, i)
		if s, ok := vCur.assign[k]; ok {
			if v, ok := new(big.Int).SetString(s, 10); ok && v.Sign() >= 0 && v.BitLen() <= 8 {
				b[i] = byte(v.Int64())
			}
		}
		vCur.used[k] = fmt.Sprint(b[i])
	}
	return b
}

func vOpaque(name string) []byte {
	n := vCur.rng.Intn(300)
	if vCur.rng.Intn(3) == 0 {
		n = []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 135, 136, 137, 255, 256, 257, 1000, 4095, 4096, 4097}[vCur.rng.Intn(27)]
	}
	if s, ok := vCur.assign[name+".len"]; ok {
		if v, ok := new(big.Int).SetString(s, 10); ok && v.Sign() >= 0 && v.BitLen() <= 22 {
			n = int(v.Int64())
		}
	}
	vCur.used[name+".len"] = fmt.Sprint(n)
	b := make([]byte, n)
	vCur.rng.Read(b)
	for i := 0; i < n && i < 5000; i++ {
		if s, ok := vCur.assign[fmt.Sprintf("%s[%d]", name, i)]; ok {
			if v, ok := new(big.Int).SetString(s, 10); ok && v.Sign() >= 0 && v.BitLen() <= 8 {
				b[i] = byte(v.Int64())
				vCur.used[fmt.Sprintf("%s[%d]", name, i)] = s
			}
		}
	}
	return b
}

func vAssume(c bool) {
	if !c {
		panic(vDiscardT{})
	}
}
func vAssert(c bool, label string) {
	if !c {
		panic(vFailT{label})
	}
}
func vReach(label string)    {}
func vEqB(a, b []byte) bool  { return bytes.Equal(a, b) }
func vAnd(a, b bool) bool    { return a && b }
func vOr(a, b bool) bool     { return a || b }
func vNot(a bool) bool       { return !a }
func vIff(a, b bool) bool    { return a == b }
func vContracts(mode string) {}
func vLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}
func vIteI(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func vCong(a, b, m *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, m).Sign() == 0
}

func vHashOf(alg string, parts [][]byte) []byte {
	all := bytes.Join(parts, nil)
	switch alg {
	case "sha256":
		d := sha256.Sum256(all)
		return d[:]
	case "sha3-256":
		d := sha3.Sum256(all)
		return d[:]
	case "sha3-512":
		d := sha3.Sum512(all)
		return d[:]
	case "keccak256":
		h := sha3.NewLegacyKeccak256()
		h.Write(all)
		return h.Sum(nil)
	case "ripemd160":
		h := ripemd160.New()
		h.Write(all)
		return h.Sum(nil)
	}
	panic("vHashOf " + alg)
}

func vCBC(enc bool, key, iv, data []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	if enc {
		cipher.NewCBCEncrypter(c, iv).CryptBlocks(out, data)
	} else {
		cipher.NewCBCDecrypter(c, iv).CryptBlocks(out, data)
	}
	return out
}

// memory shared by two slices
func vOverlap(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	pa, pb := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return pa < pb+uintptr(len(b)) && pb < pa+uintptr(len(a))
}

// deep copy of the package's variables, compared at the end
var vShared0 []string

func vDump(v reflect.Value, seen map[uintptr]int, sb *strings.Builder, depth int) {
	if depth > 12 {
		return
	}
	// locks, pools and the like are made to be shared
	if p := v.Type().PkgPath(); p == "sync" || p == "sync/atomic" {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(sb, "#%d", n)
			return
		}
		seen[v.Pointer()] = len(seen)
		sb.WriteString("&")
		vDump(v.Elem(), seen, sb, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if !strings.Contains(v.Elem().Type().String(), "crypto.") {
			sb.WriteString(v.Elem().Type().String())
			return
		}
		vDump(v.Elem(), seen, sb, depth+1)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			vDump(v.Field(i), seen, sb, depth+1)
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			vDump(v.Index(i), seen, sb, depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.String:
		sb.WriteString(v.String())
	default:
		sb.WriteString(v.Kind().String())
	}
}

func vSharedSnap() {}

func vSharedState() []string {
	var l []string
	for _, g := range vGlobals {
		var sb strings.Builder
		vDump(reflect.ValueOf(g), map[uintptr]int{}, &sb, 0)
		l = append(l, sb.String())
	}
	return l
}
func vSharedSame() bool {
	return reflect.DeepEqual(vShared0, vSharedState())
}

// one trial; "" when it holds, "?" when the assumptions exclude it
func vRun(h string, params []int64, assign map[string]string, seed int64) (res string, used map[string]string) {
	t := &vTrialT{assign: assign, params: params, rng: rand.New(rand.NewSource(seed)), used: map[string]string{}}
	vCur = t
	used = t.used
	defer func() {
		switch r := recover().(type) {
		case nil:
		case vFailT:
			res = r.label
		case vDiscardT:
			res = "?"
		default:
			st := ""
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_verif") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/src/") {
					st = strings.TrimSpace(strings.SplitN(l, " +", 2)[0])
					break
				}
			}
			res = fmt.Sprintf("panic: %v at %s", r, st)
		}
	}()
	f := vRegistry[h]
	if f == nil {
		return "?", used
	}
	f()
	return "", used
}

type vJob struct {
	H      string
	Params []int64
	Models []map[string]string
	Seeds  int
	Seed0  int64
	Budget float64
}
type vOut struct {
	Fail      string
	Assign    map[string]string
	Seed      int64
	Trials    int
	Discarded int
	Secs      float64
}

func TestZZReplay(t *testing.T) {
	in := os.Getenv("VERIF_REPLAY_IN")
	if in == "" {
		t.Skip()
	}
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var jobs []vJob
	if err := json.Unmarshal(b, &jobs); err != nil {
		t.Fatal(err)
	}
	vShared0 = vSharedState()
	null, _ := os.Open(os.DevNull)
	so := os.Stdout
	if w, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = w
	}
	var outs []vOut
	for _, j := range jobs {
		var o vOut
		t0 := time.Now()
		try := func(m map[string]string, seed int64) bool {
			o.Trials++
			if cur := os.Getenv("VERIF_REPLAY_CUR"); cur != "" {
				b, _ := json.Marshal(vOut{Assign: m, Seed: seed})
				os.WriteFile(cur, b, 0644)
			}
			r, used := vRun(j.H, j.Params, m, seed)
			if r == "?" {
				o.Discarded++
				return false
			}
			if r != "" {
				o.Fail, o.Assign, o.Seed = r, used, seed
				return true
			}
			return false
		}
		func() {
			for _, m := range j.Models {
				for k := int64(0); k < 3; k++ {
					if try(m, j.Seed0+k) {
						return
					}
				}
			}
			for s := 0; s < j.Seeds; s++ {
				if time.Since(t0).Seconds() > j.Budget {
					return
				}
				var m map[string]string
				if len(j.Models) > 0 && s%3 == 1 {
					// a model with some inputs replaced
					m = map[string]string{}
					rr := rand.New(rand.NewSource(j.Seed0 + int64(s)))
					for k, v := range j.Models[rr.Intn(len(j.Models))] {
						if rr.Intn(3) != 0 {
							m[k] = v
						}
					}
				}
				if try(m, j.Seed0+1000+int64(s)) {
					return
				}
			}
		}()
		o.Secs = time.Since(t0).Seconds()
		outs = append(outs, o)
	}
	os.Stdout = so
	_ = null
	r, _ := json.Marshal(outs)
	if err := os.WriteFile(os.Getenv("VERIF_REPLAY_OUT"), r, 0644); err != nil {
		t.Fatal(err)
	}
}

// ---------- field and curve, concretely

type vFp struct{ v *big.Int }

var vPm = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
var vDm = func() *big.Int {
	d := new(big.Int).ModInverse(big.NewInt(121666), vPm)
	d.Mul(d, big.NewInt(-121665))
	return d.Mod(d, vPm)
}()

func vfp(v *big.Int) vFp { return vFp{v.Mod(v, vPm)} }
func vFA(name string) vFp {
	return vfp(vCur.num("F:"+name, big.NewInt(0), new(big.Int).Sub(vPm, big.NewInt(1))))
}
func vFU(name string) vFp {
	v := vCur.num("F:"+name, big.NewInt(1), new(big.Int).Sub(vPm, big.NewInt(1)))
	return vfp(v)
}
func vFC(k *big.Int) vFp   { return vfp(new(big.Int).Set(k)) }
func vFAdd(a, b vFp) vFp   { return vfp(new(big.Int).Add(a.v, b.v)) }
func vFSub(a, b vFp) vFp   { return vfp(new(big.Int).Sub(a.v, b.v)) }
func vFMul(a, b vFp) vFp   { return vfp(new(big.Int).Mul(a.v, b.v)) }
func vFNeg(a vFp) vFp      { return vfp(new(big.Int).Neg(a.v)) }
func vFEq(a, b vFp) bool   { return a.v.Cmp(b.v) == 0 }
func vFInt(a vFp) *big.Int { return new(big.Int).Set(a.v) }
func vFInv(a vFp) vFp {
	return vfp(new(big.Int).Exp(a.v, new(big.Int).Sub(vPm, big.NewInt(2)), vPm))
}
func vFPow(a vFp, e *big.Int) vFp { return vfp(new(big.Int).Exp(a.v, e, vPm)) }
func vFFromInt(n *big.Int) vFp    { return vfp(new(big.Int).Set(n)) }
func vFNonzero(a vFp)             { vAssume(a.v.Sign() != 0) }
func vFRoot(u, v vFp) bool {
	if v.v.Sign() == 0 {
		return false
	}
	w := vFMul(u, vFInv(v))
	return new(big.Int).ModSqrt(w.v, vPm) != nil
}

// vFE: limbs of a random representation with |limb| up to k hundredths
func vFE(name string, a vFp, k int64) Ed25519FieldElement {
	var r [10]int64
	bound := func(i int) int64 {
		b := k * (int64(1) << 26) / 100
		if i%2 == 1 {
			b = k * (int64(1) << 25) / 100
		}
		return b
	}
	w := [10]uint{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
	v := new(big.Int).Set(a.v)
	if vCur.rng.Intn(3) == 0 {
		v.Sub(v, vPm)
	}
	// balanced digits
	for i := 0; i < 10; i++ {
		m := new(big.Int).Lsh(big.NewInt(1), w[i])
		d := new(big.Int).Mod(v, m)
		half := new(big.Int).Rsh(m, 1)
		if d.Cmp(half) >= 0 && i < 9 {
			d.Sub(d, m)
		}
		if i == 9 {
			d.Set(v)
		}
		r[i] = d.Int64()
		v.Sub(v, d)
		v.Rsh(v, w[i])
	}
	if b := bound(9); r[9] > b || r[9] < -b {
		// fold the top of the last limb
		c := (r[9] + (1 << 24)) >> 25
		r[9] -= c << 25
		r[0] += 19 * c
	}
	if vCur.rng.Intn(3) != 0 {
		for i := 0; i < 9; i++ {
			t := int64(vCur.rng.Intn(5) - 2)
			x, y := r[i]+t<<w[i], r[i+1]-t
			if b, c := bound(i), bound(i+1); x <= b && x >= -b && y <= c && y >= -c {
				r[i], r[i+1] = x, y
			}
		}
	}
	for i := 0; i < 10; i++ {
		if b := bound(i); r[i] > b || r[i] < -b {
			panic(vDiscardT{})
		}
	}
	return Ed25519FieldElement{r}
}
func vFOf(f Ed25519FieldElement) vFp { return vfp(vVal(f.Raw)) }

type vPoint struct{ x, y *big.Int }

func vPAdd(p, q vPoint) vPoint {
	m := func(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, vPm) }
	k := m(m(m(p.x, q.x), m(p.y, q.y)), vDm)
	one := big.NewInt(1)
	dx := new(big.Int).Add(one, k)
	dy := new(big.Int).Sub(one, k)
	dy.Mod(dy, vPm)
	nx := new(big.Int).Add(m(p.x, q.y), m(q.x, p.y))
	ny := new(big.Int).Add(m(p.y, q.y), m(p.x, q.x))
	return vPoint{m(nx, new(big.Int).ModInverse(dx, vPm)), m(ny, new(big.Int).ModInverse(dy, vPm))}
}
func vPMul(k *big.Int, p vPoint) vPoint {
	r := vPoint{big.NewInt(0), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = vPAdd(r, r)
		if k.Bit(i) == 1 {
			r = vPAdd(r, p)
		}
	}
	return r
}
func vPNeg(p vPoint) vPoint {
	x := new(big.Int).Neg(p.x)
	return vPoint{x.Mod(x, vPm), p.y}
}

// vRecover: the point with this y and parity of x
func vRecover(y *big.Int, sign uint) (vPoint, bool) {
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	v := new(big.Int).Mul(vDm, yy)
	v.Add(v, big.NewInt(1)).Mod(v, vPm)
	u.Mul(u, new(big.Int).ModInverse(v, vPm)).Mod(u, vPm)
	x := new(big.Int).ModSqrt(u, vPm)
	if x == nil {
		return vPoint{}, false
	}
	if x.Bit(0) != sign && x.Sign() != 0 {
		x.Sub(vPm, x)
	}
	return vPoint{x, new(big.Int).Mod(y, vPm)}, true
}

var vBase = func() vPoint {
	y := new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), vPm))
	p, _ := vRecover(y.Mod(y, vPm), 0)
	return p
}()

// the eight points of small order
var vTorsion = func() []vPoint {
	for y := int64(2); ; y++ {
		p, ok := vRecover(big.NewInt(y), 0)
		if !ok {
			continue
		}
		t := vPMul(vL(), p)
		r := []vPoint{{big.NewInt(0), big.NewInt(1)}}
		for i := 1; i < 8; i++ {
			r = append(r, vPAdd(r[i-1], t))
			if r[i].x.Sign() == 0 && r[i].y.Cmp(big.NewInt(1)) == 0 {
				break
			}
		}
		if len(r) == 8 && !(r[4].x.Sign() == 0 && r[4].y.Cmp(big.NewInt(1)) == 0) {
			return r
		}
	}
}()

func vRandPoint() vPoint {
	switch vCur.rng.Intn(8) {
	case 0:
		return vTorsion[vCur.rng.Intn(8)]
	case 1:
		return vPMul(big.NewInt(int64(vCur.rng.Intn(20))), vBase)
	case 2:
		return vPAdd(vPMul(big.NewInt(int64(vCur.rng.Intn(20))), vBase), vTorsion[vCur.rng.Intn(8)])
	}
	for {
		if p, ok := vRecover(new(big.Int).Rand(vCur.rng, vPm), uint(vCur.rng.Intn(2))); ok {
			return p
		}
	}
}

func vPt(name string) (x, y vFp) {
	p := vRandPoint()
	if n := len(vCur.pts); n > 0 {
		switch vCur.rng.Intn(6) {
		case 0:
			p = vCur.pts[n-1]
		case 1:
			p = vPNeg(vCur.pts[n-1])
		case 2:
			p = vPAdd(vCur.pts[n-1], vTorsion[vCur.rng.Intn(8)])
		}
	}
	vCur.pts = append(vCur.pts, p)
	return vFC(p.x), vFC(p.y)
}

type vGp struct{ p vPoint }

func vGPt(name string) vGp {
	x, y := vPt(name)
	return vGp{vPoint{x.v, y.v}}
}
func vGB() vGp { return vGp{vBase} }
func vGMul(k *big.Int, g vGp) vGp {
	p := vPMul(new(big.Int).Abs(k), g.p)
	if k.Sign() < 0 {
		p = vPNeg(p)
	}
	return vGp{p}
}
func vGAdd(a, b vGp) vGp { return vGp{vPAdd(a.p, b.p)} }
func vGSub(a, b vGp) vGp { return vGp{vPAdd(a.p, vPNeg(b.p))} }
func vGEq(a, b vGp) bool { return a.p.x.Cmp(b.p.x) == 0 && a.p.y.Cmp(b.p.y) == 0 }
func vGEnc(g vGp) []byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(new(big.Int).Rsh(g.p.y, uint(8*i)).Int64())
	}
	b[31] |= byte(g.p.x.Bit(0)) << 7
	return b
}
func vGOf(e *Ed25519GroupElement) vGp {
	X, Y, Z := vFOf(*e.X), vFOf(*e.Y), vFOf(*e.Z)
	half := vFInv(vFC(big.NewInt(2)))
	var x, y vFp
	switch e.coordinateSystem {
	case P1xP1:
		x, y = vFMul(X, vFInv(Z)), vFMul(Y, vFInv(vFOf(*e.T)))
	case CACHED:
		x, y = vFMul(half, vFMul(vFSub(X, Y), vFInv(Z))), vFMul(half, vFMul(vFAdd(X, Y), vFInv(Z)))
	case PRECOMPUTED:
		x, y = vFMul(half, vFSub(X, Y)), vFMul(half, vFAdd(X, Y))
	default:
		x, y = vFMul(X, vFInv(Z)), vFMul(Y, vFInv(Z))
	}
	return vGp{vPoint{x.v, y.v}}
}
func vGMake(name string, g vGp, cs CoordinateSystem) *Ed25519GroupElement {
	return vGE(name, cs, vFC(g.p.x), vFC(g.p.y))
}

func vGDec(raw []byte) (vGp, bool) {
	if len(raw) != 32 {
		return vGp{vPoint{big.NewInt(0), big.NewInt(1)}}, false
	}
	n := vLE(raw)
	p, ok := vRecover(new(big.Int).SetBit(new(big.Int).Set(n), 255, 0), n.Bit(255))
	if !ok {
		p = vPoint{big.NewInt(0), big.NewInt(1)}
	}
	return vGp{p}, ok
}

// a coin in searches; replayed inputs are taken as they are
func vNativeBool(k int64) bool {
	return len(vCur.assign) == 0 && vCur.rng.Int63n(k) == 0
}

// what f does in two goroutines at once; a race detector, if built in, sees
// every write to memory that both reach
func vQuiet(label string, f func()) {
	start := make(chan struct{})
	done := make(chan interface{}, 2)
	for i := 0; i < 2; i++ {
		go func() {
			defer func() { done <- recover() }()
			<-start
			f()
		}()
	}
	close(start)
	a, b := <-done, <-done
	if a != nil {
		panic(a)
	}
	if b != nil {
		panic(b)
	}
}

// a valid signature by the specification, or one with a small defect
func vNativeSig(m []byte) (R, S, pub []byte) {
	l := vL()
	g := vCur.rng
	s := new(big.Int).Rand(g, l)
	switch g.Intn(8) {
	case 0:
		s = big.NewInt(int64(g.Intn(4)))
	case 1:
		s = new(big.Int).Sub(l, big.NewInt(int64(1+g.Intn(3))))
	}
	S = vBytesLE(s, 32)
	hash := func() *big.Int {
		h := vLE(vHashOf("sha3-512", [][]byte{R, pub, m}))
		return h.Mod(h, l)
	}
	switch g.Intn(4) {
	case 0:
		// a key of small order
		t := vTorsion[g.Intn(8)]
		pub = vGEnc(vGp{t})
		for j := 0; j < 8; j++ {
			R = vGEnc(vGSub(vGMul(s, vGB()), vGMul(big.NewInt(int64(j)), vGp{t})))
			if vPMul(hash(), t).y.Cmp(vPMul(big.NewInt(int64(j)), t).y) == 0 {
				break
			}
		}
	default:
		a, r := new(big.Int).Rand(g, l), new(big.Int).Rand(g, l)
		if g.Intn(4) == 0 {
			r = big.NewInt(int64(g.Intn(3)))
		}
		pub = vGEnc(vGMul(a, vGB()))
		R = vGEnc(vGMul(r, vGB()))
		if g.Intn(3) == 0 {
			// made for another encoding of the commitment
			vNativeMangle(R)
		}
		s = new(big.Int).Mul(hash(), a)
		s.Add(s, r)
		S = vBytesLE(s.Mod(s, l), 32)
	}
	switch g.Intn(6) {
	case 0:
		R[g.Intn(32)] ^= 1 << uint(g.Intn(8))
	case 1:
		S[g.Intn(32)] ^= 1 << uint(g.Intn(8))
	case 2:
		pub[g.Intn(32)] ^= 1 << uint(g.Intn(8))
	case 3:
		s = vLE(S)
		s.Add(s, new(big.Int).Mul(l, big.NewInt(int64(1+g.Intn(14)))))
		S = vBytesLE(s, 32)
	}
	return R, S, pub
}

// another string that a sloppy comparison or decoder takes for the same encoding
func vNativeMangle(b []byte) {
	g := vCur.rng
	switch g.Intn(5) {
	case 0, 1:
		b[31] ^= 128
	case 2:
		b[g.Intn(32)] ^= 1 << uint(g.Intn(8))
	case 3:
		b[[]int{0, 1, 7, 8, 15, 16, 23, 24, 30, 31}[g.Intn(10)]] ^= byte(1 + g.Intn(255))
	default:
		n := vLE(b)
		n.Add(n, vPm)
		if n.BitLen() <= 256 {
			copy(b, vBytesLE(n, 32))
		}
	}
}

// fill t with hexadecimal digits and, around 64 or 63 of them or somewhere in
// between, the characters people put around such texts
func vNativeText(t []byte) {
	g := vCur.rng
	const dig = "0123456789abcdefABCDEF"
	junk := []string{" ", "0x", "0X", "\n", "\t", "\r\n", "-", "+", ":", "_", "'", "\"", "\x00", "#", ",", "."}
	for i := range t {
		t[i] = dig[g.Intn(len(dig))]
	}
	j := junk[g.Intn(len(junk))]
	fill := func(p []byte) {
		for i := range p {
			p[i] = j[i%len(j)]
		}
	}
	x := len(t) - 64 + g.Intn(2)
	if x <= 0 || x > len(t) || g.Intn(4) == 0 {
		if len(t) > 2 && g.Intn(4) > 0 {
			i := g.Intn(len(t) - 2)
			fill(t[i : i+1+g.Intn(2)])
		}
		return
	}
	switch k := g.Intn(x + 1); g.Intn(3) {
	case 0:
		fill(t[:x])
	case 1:
		fill(t[len(t)-x:])
	default:
		fill(t[:k])
		fill(t[len(t)-(x-k):])
	}
}

func vNativePub() []byte { return vGEnc(vGp{vRandPoint()}) }

// fill ct with an encryption whose last block ends in a padding that is right
// or nearly so
func vNativeCipher(ct, pub, priv []byte) {
	g := vCur.rng
	P, _ := vGDec(pub)
	k := vSpecKey(vClamp(vHashOf("sha3-512", [][]byte{priv})), P, ct[:32])
	m := make([]byte, len(ct)-48)
	g.Read(m)
	n := 1 + g.Intn(17)
	for i := 0; i < n && i < len(m); i++ {
		m[len(m)-1-i] = byte(n)
	}
	if g.Intn(3) == 0 && n <= len(m) {
		m[len(m)-1-g.Intn(n)] ^= byte(1 << uint(g.Intn(8)))
	}
	copy(ct[48:], vCBC(true, k, ct[32:48], m))
}
