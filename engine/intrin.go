package main

// Models of the standard library and third-party functions the code under
// test calls.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) lookupHandler(fn *ssa.Function, name string) handler {
	if h, ok := x.handlers[name]; ok {
		return h
	}
	for _, p := range x.prefix {
		if strings.HasPrefix(name, p.p) {
			return p.h
		}
	}
	return nil
}

// callers mark functions without a model through bail.

func (x *Exec) newErr(msg string) *IfaceV {
	x.uniq++
	return &IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtError, v: &Ghost{kind: "err", v: fmt.Sprintf("%s#%d", msg, x.uniq)}}}}
}

func (x *Exec) nilErr() *IfaceV { return x.zeroIface() }

// extGlobal: package-level variables of packages that are not executed.
func (x *Exec) extGlobal(g *ssa.Global, t types.Type) Value {
	n := g.String()
	if n == "crypto/rand.Reader" {
		return &IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtRand, v: &Ghost{kind: "rand", v: "os"}}}}
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return &IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtError, v: &Ghost{kind: "err", v: n}}}}
	}
	return &Ghost{kind: "global", v: n}
}

var mtHash = &ModelType{"hash.Hash"}
var mtRand = &ModelType{"rand.Reader"}
var mtAES = &ModelType{"cipher.Block"}
var mtCBC = &ModelType{"cipher.BlockMode"}

var modelMethods = map[*ModelType][]string{
	mtError:        {"Error"},
	mtRuntimeError: {"Error", "RuntimeError"},
	mtHash:         {"Write", "Sum", "Reset", "Size", "BlockSize", "Read", "Clone"},
	mtRand:         {"Read"},
	mtAES:          {"BlockSize", "Encrypt", "Decrypt"},
	mtCBC:          {"BlockSize", "CryptBlocks"},
}

func (x *Exec) modelImplements(mt *ModelType, t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	has := map[string]bool{}
	for _, m := range modelMethods[mt] {
		has[m] = true
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !has[it.Method(i).Name()] {
			return false
		}
	}
	return true
}

// ---------- hashes

type hashObj struct {
	alg  string
	size int
	bs   int
	o    *Obj // one cell: *hashState
}
type hashState struct{ segs []Seg }

var hashAlgs = map[string]struct{ size, bs int }{
	"sha256": {32, 64}, "sha224": {28, 64}, "sha512": {64, 128}, "sha384": {48, 128}, "sha3-224": {28, 144}, "sha3-256": {32, 136}, "sha3-384": {48, 104}, "sha3-512": {64, 72},
	"keccak256": {32, 136}, "keccak512": {64, 72}, "ripemd160": {20, 64}, "sha1": {20, 64}, "md5": {16, 64},
}

var hashNew = map[string]string{
	"crypto/sha256.New": "sha256", "crypto/sha256.New224": "sha224", "crypto/sha512.New": "sha512", "crypto/sha512.New384": "sha384",
	"golang.org/x/crypto/sha3.New224": "sha3-224", "golang.org/x/crypto/sha3.New256": "sha3-256", "golang.org/x/crypto/sha3.New384": "sha3-384", "golang.org/x/crypto/sha3.New512": "sha3-512",
	"golang.org/x/crypto/sha3.NewLegacyKeccak256": "keccak256", "golang.org/x/crypto/sha3.NewLegacyKeccak512": "keccak512",
	"crypto/sha3.New256": "sha3-256", "crypto/sha3.New512": "sha3-512",
	"golang.org/x/crypto/ripemd160.New": "ripemd160", "crypto/sha1.New": "sha1", "crypto/md5.New": "md5",
}
var hashSum = map[string]string{
	"crypto/sha256.Sum256": "sha256", "crypto/sha256.Sum224": "sha224", "crypto/sha512.Sum512": "sha512",
	"golang.org/x/crypto/sha3.Sum256": "sha3-256", "golang.org/x/crypto/sha3.Sum512": "sha3-512", "golang.org/x/crypto/sha3.Sum224": "sha3-224", "golang.org/x/crypto/sha3.Sum384": "sha3-384",
	"crypto/sha3.Sum256": "sha3-256", "crypto/sha3.Sum512": "sha3-512",
}

func mergeSegs(segs []Seg) []Seg {
	var out []Seg
	for _, s := range segs {
		if s.cont == nil {
			if len(s.bytes) == 0 {
				continue
			}
			if n := len(out); n > 0 && out[n-1].cont == nil {
				out[n-1].bytes = append(append([]*Poly(nil), out[n-1].bytes...), s.bytes...)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// digest is the hash of a byte sequence: one uninterpreted byte function per
// output position, indexed by algorithm and input shape.
func (x *Exec) digest(alg string, segs []Seg) []*Poly {
	segs = mergeSegs(segs)
	n := hashAlgs[alg].size
	conc := true
	var raw []byte
	shape := alg
	var args []*Poly
	for _, s := range segs {
		if s.cont != nil {
			conc = false
			shape += "+*"
			args = append(args, s.cont, s.n)
			continue
		}
		shape += fmt.Sprintf("+%d", len(s.bytes))
		args = append(args, x.bytesInt(s.bytes))
		for _, b := range s.bytes {
			if v, ok := b.Int64(); ok {
				raw = append(raw, byte(v))
			} else {
				conc = false
			}
		}
	}
	out := make([]*Poly, n)
	if conc {
		if d := concreteHash(alg, raw); d != nil {
			for i := range out {
				out[i] = x.c.Int(int64(d[i]))
			}
			return out
		}
	}
	for i := range out {
		out[i] = x.c.UF(fmt.Sprintf("%s[%d]", shape, i), args, b0, bi(255))
	}
	return out
}

func (x *Exec) mkHash(alg string, st *State) Value {
	o := x.newObj("hash:"+alg, []Value{&Ghost{kind: "hs", v: &hashState{}}}, st)
	h := &hashObj{alg: alg, size: hashAlgs[alg].size, bs: hashAlgs[alg].bs, o: o}
	return &IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtHash, v: &Ghost{kind: "hash", v: h}}}}
}

// segsOfVal: the byte sequence held by a slice value.
func (x *Exec) segsOfVal(st *State, v Value) []Seg {
	switch s := v.(type) {
	case *SliceV:
		if len(s.alts) == 1 {
			return x.segsOf(st, s.alts[0])
		}
		// equal lengths merge byte-wise
		n := -1
		for _, a := range s.alts {
			if a.rope != nil || (n >= 0 && a.len != n) {
				panic(bail("hash/cipher input of conditional length"))
			}
			n = a.len
		}
		return []Seg{{bytes: x.bytesOf(st, v)}}
	case *StrV:
		if len(s.alts) == 1 {
			return []Seg{{bytes: s.alts[0].b}}
		}
	}
	panic(bail("hash input"))
}

// bytesOf: bytes of a slice of one concrete length.
func (x *Exec) bytesOf(st *State, v Value) []*Poly {
	s, ok := v.(*SliceV)
	if !ok {
		if u, ok := v.(*StrV); ok && len(u.alts) == 1 {
			return u.alts[0].b
		}
		panic(bailf("bytes of %T", v))
	}
	var r []*Poly
	for i, a := range s.alts {
		var b []*Poly
		if a.rope != nil {
			for _, sg := range a.rope.segs {
				if sg.cont != nil {
					panic(bail("bytes of a slice of symbolic length"))
				}
				b = append(b, sg.bytes...)
			}
		} else {
			b = x.sliceBytes(st, a)
		}
		if i == 0 {
			r = append([]*Poly(nil), b...)
			continue
		}
		if len(b) != len(r) {
			panic(bail("bytes of a slice of conditional length"))
		}
		for j := range r {
			r[j] = x.c.Ite(a.c, b[j], r[j])
		}
	}
	return r
}

func hashStateOf(st *State, o *Obj) *hashState {
	g, ok := st.get(o).cells[0].(*Ghost)
	if !ok || g.kind != "hs" {
		panic(bail("hash state"))
	}
	return g.v.(*hashState)
}

func (x *Exec) modelMethod(mt *ModelType, name string, cl *callCtx) Value {
	g := cl.args[0].(*Ghost)
	switch mt {
	case mtError, mtRuntimeError:
		if name == "Error" {
			return x.strLit(fmt.Sprint(g.v))
		}
	case mtHash:
		h := g.v.(*hashObj)
		switch name {
		case "Write":
			s := x.segsOfVal(cl.st, cl.args[1])
			n := x.lenOf(cl.st, cl.args[1])
			old := hashStateOf(cl.st, h.o)
			cl.st.mut(h.o).cells[0] = &Ghost{kind: "hs", v: &hashState{append(append([]Seg(nil), old.segs...), s...)}}
			x.noteWrite(h.o, "hash.Write")
			return Tuple{n, x.nilErr()}
		case "Sum":
			d := x.digest(h.alg, hashStateOf(cl.st, h.o).segs)
			out := x.newBytes("digest", d, cl.st)
			f := &frame{x: x}
			it := &item{cond: cl.cond, st: cl.st}
			r := f.appendSlices(it, cl.args[1].(*SliceV), out, types.NewSlice(types.Typ[types.Uint8]))
			return r
		case "Reset":
			cl.st.mut(h.o).cells[0] = &Ghost{kind: "hs", v: &hashState{}}
			x.noteWrite(h.o, "hash.Reset")
			return Tuple(nil)
		case "Size":
			return x.c.Int(int64(h.size))
		case "BlockSize":
			return x.c.Int(int64(h.bs))
		}
	case mtRand:
		if name == "Read" {
			return x.osRandRead(cl, cl.args[1].(*SliceV))
		}
	case mtAES:
		switch name {
		case "BlockSize":
			return x.c.Int(16)
		case "Encrypt", "Decrypt":
			key := g.v.([]*Poly)
			src := x.bytesOf(cl.st, x.takeN(cl.args[2].(*SliceV), 16, cl))
			if cl.cond == x.c.tF {
				return Tuple(nil)
			}
			x.writeBytes(cl, cl.args[1].(*SliceV), x.aesBlock(key, src, name == "Encrypt"))
			return Tuple(nil)
		}
	case mtCBC:
		m := g.v.(*cbcObj)
		switch name {
		case "BlockSize":
			return x.c.Int(16)
		case "CryptBlocks":
			return x.cbcCrypt(m, cl)
		}
	}
	panic(bailf("model method %s.%s", mt.name, name))
}

func (x *Exec) osRandRead(cl *callCtx, s *SliceV) Value {
	if len(s.alts) != 1 || s.alts[0].rope != nil {
		panic(bail("random read of conditional length"))
	}
	a := s.alts[0]
	var b []*Poly
	for i := 0; i < a.len; i++ {
		x.uniq++
		b = append(b, x.c.Var(fmt.Sprintf("osrand#%d", x.uniq), b0, bi(255)))
	}
	x.writeBytes(cl, s, b)
	return Tuple{x.c.Int(int64(a.len)), x.nilErr()}
}

// takeN: first n elements; panics when shorter.
func (x *Exec) takeN(s *SliceV, n int, cl *callCtx) *SliceV {
	var out []SlAlt
	for _, a := range s.alts {
		if a.rope != nil {
			panic(bail("cipher on symbolic length"))
		}
		if a.len < n {
			x.clPanic(cl, a.c, "cipher: short slice")
			continue
		}
		a.len = n
		out = append(out, a)
	}
	if len(out) == 0 {
		cl.cond = x.c.tF
		return &SliceV{alts: []SlAlt{{c: x.c.tT}}, es: 1}
	}
	return &SliceV{alts: out, es: s.es}
}

func (x *Exec) clPanic(cl *callCtx, c *Bool, msg string) {
	c = x.c.And(cl.cond, c)
	if x.c.And(x.pcTop(), c) == x.c.tF {
		return
	}
	v := x.rtError(msg)
	if cl.pcond == x.c.tF {
		cl.pval = v
	} else {
		cl.pval = x.ite(c, v, cl.pval)
	}
	cl.pcond = x.c.Or(cl.pcond, c)
}

func (x *Exec) writeBytes(cl *callCtx, d *SliceV, b []*Poly) {
	for _, a := range d.alts {
		if a.rope != nil {
			panic(bail("write to a slice of symbolic length"))
		}
		n := len(b)
		if a.len < n {
			n = a.len
		}
		if n == 0 {
			continue
		}
		c := cl.st.mut(a.o)
		x.noteWrite(a.o, x.posStr(cl.pos))
		for i := 0; i < n; i++ {
			if len(d.alts) == 1 {
				c.cells[a.off+i] = b[i]
			} else {
				c.cells[a.off+i] = x.ite(a.c, b[i], c.cells[a.off+i])
			}
		}
	}
}

// ---------- AES in CBC mode: an uninterpreted permutation per key

type cbcObj struct {
	enc bool
	key []*Poly
	o   *Obj // 16 cells: chaining value
}

func (x *Exec) bytesOfInt(p *Poly, n int) []*Poly {
	out := make([]*Poly, n)
	for i := range out {
		out[i] = x.c.Mod(x.c.Div(p, pow2(uint(8*i))), bi(256))
	}
	return out
}

// aesBlock: the two directions are opaque functions of key and block, one per
// output byte, inverse to each other.
func (x *Exec) aesBlock(key, in []*Poly, enc bool) []*Poly {
	k := x.bytesInt(key)
	v := x.bytesInt(in)
	me, inv := fmt.Sprintf("aesD%d", len(key)), fmt.Sprintf("aesE%d", len(key))
	if enc {
		me, inv = inv, me
	}
	if a, c, d := x.c.single(in[0]); a != nil && a.kind == AUF && a.name == inv+"[0]" && a.args[0] == k && c.Cmp(b1) == 0 && d.Sign() == 0 {
		if w := x.aesIn[a.args[1]]; w != nil {
			same := true
			for i := range in {
				same = same && in[i] == x.c.UF(fmt.Sprintf("%s[%d]", inv, i), []*Poly{k, a.args[1]}, b0, bi(255))
			}
			if same {
				return append([]*Poly(nil), w...)
			}
		}
	}
	x.aesIn[v] = append([]*Poly(nil), in...) // bytes, so the digits of v
	out := make([]*Poly, 16)
	for i := range out {
		out[i] = x.c.UF(fmt.Sprintf("%s[%d]", me, i), []*Poly{k, v}, b0, bi(255))
	}
	return out
}

func (x *Exec) xorBytes(a, b []*Poly) []*Poly {
	out := make([]*Poly, len(a))
	for i := range a {
		out[i] = x.bitXor(a[i], b[i])
	}
	return out
}

func (x *Exec) cbcRun(enc bool, key, iv, data []*Poly) (out, next []*Poly) {
	prev := iv
	for i := 0; i+16 <= len(data); i += 16 {
		blk := data[i : i+16]
		if enc {
			prev = x.aesBlock(key, x.xorBytes(blk, prev), true)
			out = append(out, prev...)
		} else {
			p := x.xorBytes(x.aesBlock(key, blk, false), prev)
			prev = blk
			out = append(out, p...)
		}
	}
	return out, prev
}

func (x *Exec) cbcCrypt(m *cbcObj, cl *callCtx) Value {
	src := cl.args[2].(*SliceV)
	dst := cl.args[1].(*SliceV)
	if len(src.alts) != 1 || len(dst.alts) != 1 || src.alts[0].rope != nil || dst.alts[0].rope != nil {
		panic(bail("CryptBlocks on conditional slices"))
	}
	sa, da := src.alts[0], dst.alts[0]
	if sa.len%16 != 0 {
		x.clPanic(cl, x.c.tT, "crypto/cipher: input not full blocks")
		return Tuple(nil)
	}
	if da.len < sa.len {
		x.clPanic(cl, x.c.tT, "crypto/cipher: output smaller than input")
		return Tuple(nil)
	}
	if sa.len == 0 {
		return Tuple(nil)
	}
	if sa.o == da.o && sa.off != da.off && sa.off < da.off+sa.len && da.off < sa.off+sa.len {
		x.clPanic(cl, x.c.tT, "crypto/cipher: invalid buffer overlap")
		return Tuple(nil)
	}
	data := x.sliceBytes(cl.st, sa)
	iv := make([]*Poly, 16)
	for i := range iv {
		iv[i] = cl.st.get(m.o).cells[i].(*Poly)
	}
	out, next := x.cbcRun(m.enc, m.key, iv, data)
	x.writeBytes(cl, dst, out)
	c := cl.st.mut(m.o)
	x.noteWrite(m.o, "cbc")
	for i := range next {
		c.cells[i] = next[i]
	}
	return Tuple(nil)
}

// ---------- helpers for big.Int

func (x *Exec) bigLoad(cl *callCtx, v Value) *Poly {
	p, ok := v.(*PtrV)
	if !ok {
		panic(bailf("big.Int argument %T", v))
	}
	p = x.prune(p, cl.cond)
	var out []PtrAlt
	for _, a := range p.alts {
		if a.o == nil {
			x.clPanic(cl, a.c, "invalid memory address or nil pointer dereference (big.Int)")
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return x.c.Int(0)
	}
	q, ok := x.load(cl.st, &PtrV{alts: out}, types.Typ[types.Int]).(*Poly)
	if !ok {
		panic(bail("big.Int content"))
	}
	return q
}

func (x *Exec) bigStore(cl *callCtx, v Value, p *Poly) Value {
	ptr := v.(*PtrV)
	var out []PtrAlt
	for _, a := range ptr.alts {
		if a.o == nil {
			x.clPanic(cl, a.c, "invalid memory address or nil pointer dereference (big.Int)")
			continue
		}
		out = append(out, a)
	}
	for _, a := range out {
		if x.bigCopy[a.o] {
			panic(bail("a big.Int copied by value is written"))
		}
	}
	if len(out) > 0 {
		x.storeVal(cl.st, &PtrV{alts: out}, p, x.posStr(cl.pos))
	}
	return v
}

func (x *Exec) bigNew(st *State, p *Poly) *PtrV {
	return x.ptrTo(x.newObj("big.Int", []Value{p}, st), 0)
}

// condBounds: bounds of p, sharpened by the path condition.
func (x *Exec) condBounds(p *Poly, full *Bool) (lo, hi *big.Int) {
	lo, hi = x.c.Bounds(p)
	setLo := func(v *big.Int) {
		if lo == nil || v.Cmp(lo) > 0 {
			lo = v
		}
	}
	setHi := func(v *big.Int) {
		if hi == nil || v.Cmp(hi) < 0 {
			hi = v
		}
	}
	for _, b := range conjuncts(full) {
		switch b.k {
		case BGE0:
			if d, ok := x.c.Sub(b.p, p).Const(); ok { // p + d >= 0
				setLo(new(big.Int).Neg(d))
			}
			if d, ok := x.c.Add(b.p, p).Const(); ok { // d - p >= 0
				setHi(d)
			}
			// bounds on the bit length
			for _, t := range b.p.t {
				vs := x.c.monos[t.m].vars
				if len(vs) == 1 && x.c.atoms[vs[0]].name == "bitlen" && len(b.p.t) == 2 && t.c.Cmp(bi(-1)) == 0 && x.c.atoms[vs[0]].args[0] == p {
					setHi(new(big.Int).Sub(pow2(uint(b.p.cst().Int64())), b1))
				}
			}
		case BSet:
			if a, k, _ := x.c.single(b.base.p); a != nil && a.name == "bitlen" && a.args[0] == p && k.Cmp(b1) == 0 {
				m := int64(-1)
				for i, v := range b.base.dom {
					if b.set[i] && v > m {
						m = v
					}
				}
				if m >= 0 {
					setHi(new(big.Int).Sub(pow2(uint(m)), b1))
				}
			}
		}
	}
	return
}

func (x *Exec) absUnder(p *Poly, cond *Bool) *Poly {
	full := x.c.And(x.pcTop(), cond)
	if lo, hi := x.condBounds(p, full); lo != nil && lo.Sign() >= 0 {
		return p
	} else if hi != nil && hi.Sign() <= 0 {
		return x.c.Neg(p)
	}
	return x.absPoly(p)
}

func (x *Exec) absPoly(p *Poly) *Poly {
	lo, _ := x.c.Bounds(p)
	if lo != nil && lo.Sign() >= 0 {
		return p
	}
	return x.c.Ite(x.c.GE0(p), p, x.c.Neg(p))
}

// byteLen is the number of bytes of a non-negative integer, as an atom with a
// small domain whose cases are fixed by axioms.
func (x *Exec) byteLen(p *Poly, full *Bool) *Poly {
	if k, ok := p.Const(); ok {
		return x.c.Int(int64((k.BitLen() + 7) / 8))
	}
	lo, hi := x.condBounds(p, full)
	if lo == nil || lo.Sign() < 0 || hi == nil {
		if os.Getenv("VERIF_DBG") != "" {
			for _, b := range conjuncts(full) {
				fmt.Fprintln(os.Stderr, "CJ", x.c.bStr(b, 4))
			}
			fmt.Fprintln(os.Stderr, "P", x.c.pStr(p, 4))
		}
		panic(bail("big.Int.Bytes of an unbounded or negative value"))
	}
	mn, mx := (lo.BitLen()+7)/8, (hi.BitLen()+7)/8
	if mx > 72 {
		panic(bail("big.Int.Bytes of a very large value"))
	}
	if mn == mx {
		return x.c.Int(int64(mn))
	}
	n := x.c.UF(fmt.Sprintf("bytelen%d-%d", mn, mx), []*Poly{p}, bi(int64(mn)), bi(int64(mx)))
	key := fmt.Sprintf("bl:%d:%d:%d", p.id, mn, mx)
	if !x.c.names[key] {
		x.c.names[key] = true
		for k := mn; k <= mx; k++ {
			is := x.c.Eq(n, x.c.Int(int64(k)))
			l := x.c.tT
			if k > 0 {
				l = x.c.Le(x.c.Big(pow2(uint(8*(k-1)))), p)
			}
			u := x.c.Lt(p, x.c.Big(pow2(uint(8*k))))
			if k == mx {
				u = x.c.tT
			}
			if k == mn {
				l = x.c.tT
			}
			// outside the range the length means nothing
			in := x.c.And(x.c.Le(x.c.Big(lo), p), x.c.Le(p, x.c.Big(hi)))
			x.c.axioms = append(x.c.axioms, x.c.Implies(x.c.And(in, is), x.c.And(l, u)))
		}
		by := x.bytesOfInt(p, mx)
		for j := mn; j < mx; j++ {
			if j > 0 {
				x.c.axioms = append(x.c.axioms, x.c.Implies(x.c.And(x.c.Le(x.c.Big(lo), p), x.c.Le(p, x.c.Big(hi)), x.c.Le(n, x.c.Int(int64(j)))), x.c.EQ0(by[j])))
			}
		}
	}
	return n
}

func (x *Exec) bigBytes(cl *callCtx, p *Poly) Value {
	p = x.absUnder(p, cl.cond)
	full := x.c.And(x.pcTop(), cl.cond)
	n := x.byteLen(p, full)
	be := func(k int) []*Poly {
		le := x.bytesOfInt(p, k)
		out := make([]*Poly, k)
		for i := range out {
			out[k-1-i] = le[i]
		}
		return out
	}
	if k, ok := n.Int64(); ok {
		if k == 0 {
			return x.newBytes("bigbytes", nil, cl.st)
		}
		return x.newBytes("bigbytes", be(int(k)), cl.st)
	}
	b := x.c.baseOf(n)
	var alts []SlAlt
	// the leading byte is not zero
	top := x.c.UF(fmt.Sprintf("topbyte%d", n.id), []*Poly{p}, b1, bi(255))
	by := x.bytesOfInt(p, int(b.dom[len(b.dom)-1]))
	tk := fmt.Sprintf("tb:%d", n.id)
	fresh := !x.c.names[tk]
	x.c.names[tk] = true
	for _, k := range b.dom {
		c := x.c.Eq(n, x.c.Int(k))
		if x.c.And(full, c) == x.c.tF {
			continue
		}
		var bs []*Poly
		if k > 0 {
			bs = be(int(k))
			bs[0] = top
			if fresh {
				x.c.axioms = append(x.c.axioms, x.c.Implies(x.c.And(full, c), x.c.Eq(top, by[k-1])))
			}
		}
		s := x.newBytes("bigbytes", bs, cl.st)
		s.alts[0].c = c
		alts = append(alts, s.alts[0])
	}
	return x.normSlice(1, alts)
}

func beInt(x *Exec, b []*Poly) *Poly {
	r := make([]*Poly, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return x.bytesInt(r)
}

func (x *Exec) beIntOf(cl *callCtx, v Value) *Poly {
	s := v.(*SliceV)
	var r *Poly
	for i, a := range s.alts {
		if a.rope != nil {
			panic(bail("integer from a slice of symbolic length"))
		}
		p := beInt(x, x.sliceBytes(cl.st, a))
		if i == 0 {
			r = p
		} else {
			r = x.c.Ite(a.c, p, r)
		}
	}
	return r
}

func constOf(p *Poly, what string) *big.Int {
	k, ok := p.Const()
	if !ok {
		panic(bail(what + " with a symbolic operand"))
	}
	return k
}

func (x *Exec) cmpPoly(a, b *Poly) *Poly { return x.c.Sgn(x.c.Sub(a, b)) }

func (x *Exec) installStd() {
	h := x.handlers
	reg := func(names string, f handler) {
		for _, n := range strings.Fields(names) {
			h[n] = f
		}
	}
	for n, alg := range hashNew {
		alg := alg
		reg(n, func(x *Exec, cl *callCtx) Value { return x.mkHash(alg, cl.st) })
	}
	for n, alg := range hashSum {
		alg := alg
		reg(n, func(x *Exec, cl *callCtx) Value {
			d := x.digest(alg, x.segsOfVal(cl.st, cl.args[0]))
			r := make(Agg, len(d))
			for i := range d {
				r[i] = d[i]
			}
			return r
		})
	}
	errNew := func(x *Exec, cl *callCtx) Value {
		msg := "error"
		if s, ok := cl.args[0].(*StrV); ok {
			if l, ok := s.lit(); ok {
				msg = l
			}
		}
		return x.newErr(msg)
	}
	reg("errors.New github.com/pkg/errors.New fmt.Errorf github.com/pkg/errors.Errorf", errNew)
	wrap := func(x *Exec, cl *callCtx) Value {
		e := cl.args[0].(*IfaceV)
		return x.ite(x.equal(cl.st, e, x.zeroIface(), nil), x.zeroIface(), x.newErr("wrapped"))
	}
	reg("github.com/pkg/errors.Wrap github.com/pkg/errors.Wrapf github.com/pkg/errors.WithStack github.com/pkg/errors.WithMessage", wrap)
	reg("errors.Is", func(x *Exec, cl *callCtx) Value { return x.equal(cl.st, cl.args[0], cl.args[1], nil) })
	reg("fmt.Println fmt.Printf fmt.Print log.Println log.Printf log.Print", func(x *Exec, cl *callCtx) Value {
		if cl.fn.Signature.Results().Len() == 0 {
			return Tuple(nil)
		}
		return Tuple{x.c.Int(0), x.nilErr()}
	})
	reg("internal/bytealg.MakeNoZero", func(x *Exec, cl *callCtx) Value {
		n, ok := cl.args[0].(*Poly).Int64()
		if !ok || n < 0 || n > 1<<20 {
			panic(bail("allocation of symbolic length"))
		}
		ps := make([]*Poly, n)
		for i := range ps {
			ps[i] = x.c.Int(0)
		}
		return x.newBytes("make", ps, cl.st)
	})
	reg("bytes.Join", func(x *Exec, cl *callCtx) Value {
		parts, sep := cl.args[0].(*SliceV), cl.args[1].(*SliceV)
		if len(parts.alts) != 1 || len(sep.alts) != 1 || parts.alts[0].rope != nil {
			panic(bail("bytes.Join of conditional slices"))
		}
		var segs []Seg
		if a := parts.alts[0]; a.len > 0 {
			for i, v := range cl.st.get(a.o).cells[a.off : a.off+a.len] {
				p := v.(*SliceV)
				if len(p.alts) != 1 {
					panic(bail("bytes.Join of conditional slices"))
				}
				if i > 0 {
					segs = append(segs, x.segsOf(cl.st, sep.alts[0])...)
				}
				segs = append(segs, x.segsOf(cl.st, p.alts[0])...)
			}
		}
		segs = mergeSegs(segs)
		switch {
		case len(segs) == 0:
			return x.newBytes("join", nil, cl.st)
		case len(segs) == 1 && segs[0].cont == nil:
			return x.newBytes("join", segs[0].bytes, cl.st)
		}
		return &SliceV{alts: []SlAlt{{c: x.c.tT, rope: &Rope{segs}}}, es: 1}
	})
	reg("crypto/subtle.XORBytes", func(x *Exec, cl *callCtx) Value {
		a, b := x.bytesOf(cl.st, cl.args[1]), x.bytesOf(cl.st, cl.args[2])
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		d := cl.args[0].(*SliceV)
		if len(d.alts) != 1 || d.alts[0].rope != nil || d.alts[0].len < n {
			panic(bail("XORBytes into a conditional or short slice"))
		}
		if n > 0 {
			vals := make([]Value, n)
			for i, p := range x.xorBytes(a[:n], b[:n]) {
				vals[i] = p
			}
			c := cl.st.mut(d.alts[0].o)
			x.noteWrite(d.alts[0].o, "XORBytes")
			copy(c.cells[d.alts[0].off:], vals)
		}
		return x.c.Int(int64(n))
	})
	reg("fmt.Sprintf fmt.Sprint fmt.Sprintln", func(x *Exec, cl *callCtx) Value {
		if v := x.sprintf(cl); v != nil {
			return v
		}
		panic(bail("formatted string"))
	})
	mutex := func(x *Exec, cl *callCtx) Value { return Tuple(nil) }
	reg("(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock runtime.KeepAlive runtime.Gosched", mutex)

	// sync.Once: the first integer cell is the done flag
	reg("(*sync.Once).Do", func(x *Exec, cl *callCtx) Value {
		p, fv := cl.args[0].(*PtrV), cl.args[1].(*FuncV)
		if len(p.alts) != 1 || p.alts[0].o == nil || fv.fn == nil || fv.c != nil && fv.c != x.c.tT {
			panic(bail("sync.Once behind a conditional pointer"))
		}
		o, off := p.alts[0].o, p.alts[0].off
		cs := cl.st.get(o).cells
		for off < len(cs) {
			if _, ok := cs[off].(*Poly); ok {
				break
			}
			off++
		}
		if off == len(cs) {
			panic(bail("sync.Once of unknown layout"))
		}
		k, ok := cs[off].(*Poly).Int64()
		if !ok {
			panic(bail("sync.Once that ran on some paths only"))
		}
		if k != 0 {
			return Tuple(nil)
		}
		cl.st.mut(o).cells[off] = x.c.Int(1)
		x.noteWrite(o, "sync.Once.Do")
		r := x.Call(fv.fn, nil, fv.binds, cl.st, cl.cond, cl.pos)
		if r.pcond != x.c.tF {
			panic(bail("the function of a sync.Once may panic"))
		}
		cl.st, cl.cond = r.st, r.cond
		return Tuple(nil)
	})

	// strings.Builder: cells addr, buf
	bld := func(x *Exec, cl *callCtx) (*Content, int, []*Poly) {
		p := cl.args[0].(*PtrV)
		if len(p.alts) != 1 || p.alts[0].o == nil {
			panic(bail("a strings.Builder behind a conditional pointer"))
		}
		o, off := p.alts[0].o, p.alts[0].off
		s := cl.st.get(o).cells[off+1].(*SliceV)
		if len(s.alts) != 1 || s.alts[0].rope != nil {
			panic(bail("a strings.Builder of conditional content"))
		}
		b := x.sliceBytes(cl.st, s.alts[0])
		return cl.st.mut(o), off, b
	}
	bldAdd := func(x *Exec, cl *callCtx, more []*Poly) {
		c, off, b := bld(x, cl)
		c.cells[off+1] = x.newBytes("builder", append(append([]*Poly(nil), b...), more...), cl.st)
	}
	noErr := func(x *Exec, n int) Value { return Tuple{x.c.Int(int64(n)), x.zeroIface()} }
	reg("(*strings.Builder).WriteString", func(x *Exec, cl *callCtx) Value {
		s := cl.args[1].(*StrV)
		if len(s.alts) != 1 {
			panic(bail("a strings.Builder of conditional content"))
		}
		bldAdd(x, cl, s.alts[0].b)
		return noErr(x, len(s.alts[0].b))
	})
	reg("(*strings.Builder).Write", func(x *Exec, cl *callCtx) Value {
		s := cl.args[1].(*SliceV)
		if len(s.alts) != 1 || s.alts[0].rope != nil {
			panic(bail("a strings.Builder of conditional content"))
		}
		b := x.sliceBytes(cl.st, s.alts[0])
		bldAdd(x, cl, b)
		return noErr(x, len(b))
	})
	reg("(*strings.Builder).WriteByte", func(x *Exec, cl *callCtx) Value {
		bldAdd(x, cl, []*Poly{cl.args[1].(*Poly)})
		return x.zeroIface()
	})
	reg("(*strings.Builder).WriteRune", func(x *Exec, cl *callCtx) Value {
		p := cl.args[1].(*Poly)
		if lo, hi := x.c.Bounds(p); lo == nil || lo.Sign() < 0 || hi.Cmp(bi(127)) > 0 {
			panic(bail("a possibly non-ASCII rune"))
		}
		bldAdd(x, cl, []*Poly{p})
		return noErr(x, 1)
	})
	reg("(*strings.Builder).String", func(x *Exec, cl *callCtx) Value {
		_, _, b := bld(x, cl)
		return &StrV{[]StrAlt{{x.c.tT, b}}}
	})
	reg("(*strings.Builder).Len", func(x *Exec, cl *callCtx) Value {
		_, _, b := bld(x, cl)
		return x.c.Int(int64(len(b)))
	})
	reg("(*strings.Builder).Grow", func(x *Exec, cl *callCtx) Value { return Tuple(nil) })
	reg("(*strings.Builder).Reset", func(x *Exec, cl *callCtx) Value {
		c, off, _ := bld(x, cl)
		c.cells[off+1] = x.zero(types.NewSlice(types.Typ[types.Uint8]))
		return Tuple(nil)
	})

	// bytes, strings, subtle, hex
	beq := func(x *Exec, cl *callCtx) *Bool { return x.slicesEq(cl.st, cl.args[0], cl.args[1]) }
	reg("bytes.Equal", func(x *Exec, cl *callCtx) Value { return beq(x, cl) })
	reg("crypto/subtle.ConstantTimeCompare", func(x *Exec, cl *callCtx) Value {
		return x.c.Ite(beq(x, cl), x.c.Int(1), x.c.Int(0))
	})
	reg("crypto/subtle.ConstantTimeByteEq crypto/subtle.ConstantTimeEq", func(x *Exec, cl *callCtx) Value {
		return x.c.Ite(x.c.Eq(cl.args[0].(*Poly), cl.args[1].(*Poly)), x.c.Int(1), x.c.Int(0))
	})
	reg("crypto/subtle.ConstantTimeSelect", func(x *Exec, cl *callCtx) Value {
		return x.c.Ite(x.c.Eq(cl.args[0].(*Poly), x.c.Int(1)), cl.args[1].(*Poly), cl.args[2].(*Poly))
	})
	reg("bytes.Compare", func(x *Exec, cl *callCtx) Value {
		a, b := x.bytesOf(cl.st, cl.args[0]), x.bytesOf(cl.st, cl.args[1])
		if len(a) != len(b) {
			panic(bail("bytes.Compare of different lengths"))
		}
		return x.cmpPoly(beInt(x, a), beInt(x, b))
	})
	mapStr := func(f func(b byte) byte) handler {
		return func(x *Exec, cl *callCtx) Value {
			s := cl.args[0].(*StrV)
			var alts []StrAlt
			for _, a := range s.alts {
				nb := make([]*Poly, len(a.b))
				for i, p := range a.b {
					if k, ok := p.Int64(); ok {
						nb[i] = x.c.Int(int64(f(byte(k))))
						continue
					}
					b := x.c.baseOf(p)
					_, hi := x.c.Bounds(p)
					if b == nil || hi.Cmp(bi(127)) > 0 {
						panic(bail("case mapping of a symbolic non-ASCII character"))
					}
					nb[i] = x.c.tabulate(b, func(v int64) *big.Int { return bi(int64(f(byte(x.c.evalBase(p, b, v).Int64())))) })
				}
				alts = append(alts, StrAlt{a.c, nb})
			}
			return x.normStr(alts)
		}
	}
	reg("strings.ToUpper", mapStr(func(b byte) byte { return strings.ToUpper(string(rune(b)))[0] }))
	reg("strings.ToLower", mapStr(func(b byte) byte { return strings.ToLower(string(rune(b)))[0] }))
	reg("encoding/hex.EncodeToString", func(x *Exec, cl *callCtx) Value {
		s := cl.args[0].(*SliceV)
		var alts []StrAlt
		for _, a := range s.alts {
			if a.rope != nil {
				panic(bail("hex of a slice of symbolic length"))
			}
			var out []*Poly
			for _, b := range x.sliceBytes(cl.st, a) {
				out = append(out, x.hexDigit(x.c.Div(b, bi(16))), x.hexDigit(x.c.Mod(b, bi(16))))
			}
			alts = append(alts, StrAlt{a.c, out})
		}
		return x.normStr(alts)
	})
	reg("encoding/hex.DecodeString", func(x *Exec, cl *callCtx) Value {
		s := cl.args[0].(*StrV)
		var sl []SlAlt
		okc := x.c.tF
		for _, a := range s.alts {
			ok := x.c.tT
			var out []*Poly
			var hiN *Poly
			for i, ch := range a.b {
				v, o := x.hexVal(ch)
				ok = x.c.And(ok, o)
				if i%2 == 0 {
					hiN = v
				} else {
					out = append(out, x.c.Add(x.c.Scale(bi(16), hiN), v))
				}
			}
			if len(a.b)%2 == 1 {
				ok = x.c.tF
			}
			n := x.newBytes("hexdec", out, cl.st).alts[0]
			n.c = x.c.And(a.c, ok)
			sl = append(sl, n)
			e := x.newBytes("hexerr", nil, cl.st).alts[0]
			e.c = x.c.And(a.c, x.c.Not(ok))
			sl = append(sl, e)
			okc = x.c.Or(okc, x.c.And(a.c, ok))
		}
		return Tuple{x.normSlice(1, sl), x.ite(okc, x.nilErr(), x.newErr("hex"))}
	})

	// AES
	reg("crypto/aes.NewCipher", func(x *Exec, cl *callCtx) Value {
		key := x.bytesOf(cl.st, cl.args[0])
		switch len(key) {
		case 16, 24, 32:
			return Tuple{&IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtAES, v: &Ghost{kind: "aes", v: key}}}}, x.nilErr()}
		}
		return Tuple{x.zeroIface(), x.newErr("aes key size")}
	})
	cbc := func(enc bool) handler {
		return func(x *Exec, cl *callCtx) Value {
			bl := cl.args[0].(*IfaceV)
			if len(bl.alts) != 1 || bl.alts[0].t != types.Type(mtAES) {
				panic(bail("CBC over an unknown block cipher"))
			}
			iv := cl.args[1].(*SliceV)
			if len(iv.alts) != 1 {
				panic(bail("conditional IV"))
			}
			b := x.bytesOf(cl.st, iv)
			if len(b) != 16 {
				x.clPanic(cl, x.c.tT, "cipher.NewCBC: IV length must equal block size")
				return x.zeroIface()
			}
			cells := make([]Value, 16)
			for i := range b {
				cells[i] = b[i]
			}
			o := x.newObj("cbc", cells, cl.st)
			return &IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtCBC, v: &Ghost{kind: "cbc", v: &cbcObj{enc, bl.alts[0].v.(*Ghost).v.([]*Poly), o}}}}}
		}
	}
	reg("crypto/cipher.NewCBCEncrypter", cbc(true))
	reg("crypto/cipher.NewCBCDecrypter", cbc(false))
	reg("crypto/rand.Read", func(x *Exec, cl *callCtx) Value {
		// reads from crypto/rand.Reader, which the harness may replace
		return x.osRandRead(cl, cl.args[0].(*SliceV))
	})

	x.installBig(reg)
}

func (x *Exec) hexDigit(p *Poly) *Poly {
	const d = "0123456789abcdef"
	if k, ok := p.Int64(); ok {
		return x.c.Int(int64(d[k]))
	}
	b := x.c.baseOf(p)
	if b == nil {
		panic(bail("hex digit"))
	}
	return x.c.tabulate(b, func(v int64) *big.Int { return bi(int64(d[x.c.evalBase(p, b, v).Int64()&15])) })
}

func hexNib(b byte) int64 {
	switch {
	case '0' <= b && b <= '9':
		return int64(b - '0')
	case 'a' <= b && b <= 'f':
		return int64(b-'a') + 10
	case 'A' <= b && b <= 'F':
		return int64(b-'A') + 10
	}
	return -1
}

func (x *Exec) hexVal(p *Poly) (*Poly, *Bool) {
	if k, ok := p.Int64(); ok {
		v := hexNib(byte(k))
		if v < 0 {
			return x.c.Int(0), x.c.tF
		}
		return x.c.Int(v), x.c.tT
	}
	b := x.c.baseOf(p)
	if b == nil {
		panic(bail("hex character"))
	}
	set := make([]bool, len(b.dom))
	val := x.c.tabulate(b, func(v int64) *big.Int {
		k := hexNib(byte(x.c.evalBase(p, b, v).Int64()))
		if k < 0 {
			return b0
		}
		return bi(k)
	})
	for i, v := range b.dom {
		set[i] = hexNib(byte(x.c.evalBase(p, b, v).Int64())) >= 0
	}
	return val, x.c.setBool(b, set)
}

// slicesEq: equality of contents.
func (x *Exec) slicesEq(st *State, u, v Value) *Bool {
	alts := func(v Value) []SlAlt {
		switch s := v.(type) {
		case *SliceV:
			return s.alts
		case *StrV:
			var r []SlAlt
			for _, a := range s.alts {
				n := x.newBytes("str", a.b, st).alts[0]
				n.c = a.c
				r = append(r, n)
			}
			return r
		}
		panic(bailf("slice equality on %T", v))
	}
	r := x.c.tF
	for _, a := range alts(u) {
		for _, b := range alts(v) {
			c := x.c.And(a.c, b.c)
			if c == x.c.tF {
				continue
			}
			var e *Bool
			if a.rope == nil && b.rope == nil {
				if a.len != b.len {
					continue
				}
				e = x.bytesEq(x.sliceBytes(st, a), x.sliceBytes(st, b))
			} else {
				e = x.ropeEq(x.segsOf(st, a), x.segsOf(st, b))
			}
			r = x.c.Or(r, x.c.And(c, e))
		}
	}
	return r
}

func (x *Exec) ropeEq(a, b []Seg) *Bool {
	a, b = mergeSegs(a), mergeSegs(b)
	if len(a) != len(b) {
		panic(bail("comparison of sequences of different shape"))
	}
	r := x.c.tT
	for i := range a {
		if (a[i].cont == nil) != (b[i].cont == nil) {
			panic(bail("comparison of sequences of different shape"))
		}
		if a[i].cont == nil {
			r = x.c.And(r, x.bytesEq(a[i].bytes, b[i].bytes))
		} else {
			r = x.c.And(r, x.c.Eq(a[i].cont, b[i].cont), x.c.Eq(a[i].n, b[i].n))
		}
	}
	return r
}

func (x *Exec) installBig(reg func(string, handler)) {
	const B = "(*math/big.Int)."
	arg := func(cl *callCtx, i int) *Poly { return cl.args[i].(*Poly) }
	reg("math/big.NewInt", func(x *Exec, cl *callCtx) Value { return x.bigNew(cl.st, arg(cl, 0)) })
	set := func(name string, f func(x *Exec, cl *callCtx) *Poly) {
		reg(B+name, func(x *Exec, cl *callCtx) Value {
			p := f(x, cl)
			return x.bigStore(cl, cl.args[0], p)
		})
	}
	ld := func(x *Exec, cl *callCtx, i int) *Poly { return x.bigLoad(cl, cl.args[i]) }
	set("Set", func(x *Exec, cl *callCtx) *Poly { return ld(x, cl, 1) })
	set("SetInt64", func(x *Exec, cl *callCtx) *Poly { return arg(cl, 1) })
	set("SetUint64", func(x *Exec, cl *callCtx) *Poly { return arg(cl, 1) })
	set("SetBytes", func(x *Exec, cl *callCtx) *Poly { return x.beIntOf(cl, cl.args[1]) })
	set("Add", func(x *Exec, cl *callCtx) *Poly { return x.c.Add(ld(x, cl, 1), ld(x, cl, 2)) })
	set("Sub", func(x *Exec, cl *callCtx) *Poly { return x.c.Sub(ld(x, cl, 1), ld(x, cl, 2)) })
	set("Mul", func(x *Exec, cl *callCtx) *Poly { return x.c.Mul(ld(x, cl, 1), ld(x, cl, 2)) })
	set("Neg", func(x *Exec, cl *callCtx) *Poly { return x.c.Neg(ld(x, cl, 1)) })
	set("Abs", func(x *Exec, cl *callCtx) *Poly { return x.absPoly(ld(x, cl, 1)) })
	set("Not", func(x *Exec, cl *callCtx) *Poly { return x.c.AddC(x.c.Neg(ld(x, cl, 1)), -1) })
	set("Lsh", func(x *Exec, cl *callCtx) *Poly {
		return x.c.Scale(pow2(uint(constOf(arg(cl, 2), "Lsh").Int64())), ld(x, cl, 1))
	})
	set("Rsh", func(x *Exec, cl *callCtx) *Poly {
		return x.c.Div(ld(x, cl, 1), pow2(uint(constOf(arg(cl, 2), "Rsh").Int64())))
	})
	div := func(trunc, rem bool) func(x *Exec, cl *callCtx) *Poly {
		return func(x *Exec, cl *callCtx) *Poly {
			a, b := ld(x, cl, 1), ld(x, cl, 2)
			k := constOf(b, "division")
			if k.Sign() == 0 {
				x.clPanic(cl, x.c.tT, "division by zero")
				return a
			}
			var q *Poly
			if trunc {
				q = x.quo(a, b)
			} else {
				q = x.c.Div(a, new(big.Int).Abs(k))
				if k.Sign() < 0 {
					q = x.c.Neg(q)
				}
			}
			if !rem {
				return q
			}
			if !trunc {
				return x.c.Mod(a, new(big.Int).Abs(k))
			}
			return x.c.Sub(a, x.c.Mul(q, b))
		}
	}
	set("Mod", div(false, true))
	set("Div", div(false, false))
	set("Quo", div(true, false))
	set("Rem", div(true, true))
	divmod := func(trunc bool) handler {
		return func(x *Exec, cl *callCtx) Value {
			q := div(trunc, false)(x, cl)
			r := div(trunc, true)(x, cl)
			x.bigStore(cl, cl.args[0], q)
			x.bigStore(cl, cl.args[3], r)
			return Tuple{cl.args[0], cl.args[3]}
		}
	}
	reg(B+"DivMod", divmod(false))
	reg(B+"QuoRem", divmod(true))
	set("And", func(x *Exec, cl *callCtx) *Poly { return x.bitAnd(ld(x, cl, 1), ld(x, cl, 2)) })
	set("Or", func(x *Exec, cl *callCtx) *Poly { return x.bitOr(ld(x, cl, 1), ld(x, cl, 2)) })
	set("Xor", func(x *Exec, cl *callCtx) *Poly { return x.bitXor(ld(x, cl, 1), ld(x, cl, 2)) })
	set("Exp", func(x *Exec, cl *callCtx) *Poly {
		a, e := ld(x, cl, 1), constOf(ld(x, cl, 2), "Exp")
		var m *big.Int
		if p := cl.args[3].(*PtrV); p.alts[0].o != nil {
			m = constOf(ld(x, cl, 3), "Exp")
		}
		if k, ok := a.Const(); ok {
			return x.c.Big(new(big.Int).Exp(k, e, m))
		}
		if m == nil && e.Sign() > 0 && e.Cmp(bi(64)) <= 0 {
			r := a
			for i := int64(1); i < e.Int64(); i++ {
				r = x.c.Mul(r, a)
			}
			return r
		}
		if m != nil && m.Cmp(fieldP) == 0 && e.Sign() > 0 {
			if q, ok := x.c.intToF(a); ok {
				if r := x.c.f.Pow(q, e); r != nil {
					return x.c.FieldInt(r)
				}
			}
		}
		return x.c.Big(new(big.Int).Exp(constOf(a, "Exp"), e, m))
	})
	set("ModInverse", func(x *Exec, cl *callCtx) *Poly {
		a, m := ld(x, cl, 1), constOf(ld(x, cl, 2), "ModInverse")
		if m.Cmp(fieldP) == 0 && !a.IsConst() {
			q, ok := x.c.intToF(a)
			if !ok {
				panic(bail("ModInverse of " + x.c.pStr(a, 2)))
			}
			if x.c.FZero(q) == x.c.tF {
				return x.c.FieldInt(x.invPoly(q))
			}
			panic(bailf("ModInverse of a value that may be zero: %s", x.c.bStr(x.c.FZero(q), 3)))
		}
		r := new(big.Int).ModInverse(constOf(a, "ModInverse"), m)
		if r == nil {
			panic(bail("ModInverse does not exist"))
		}
		return x.c.Big(r)
	})
	set("SetBit", func(x *Exec, cl *callCtx) *Poly {
		p, i, b := ld(x, cl, 1), uint(constOf(arg(cl, 2), "SetBit").Int64()), arg(cl, 3)
		old := x.c.Mod(x.c.Div(p, pow2(i)), b2)
		return x.c.Add(p, x.c.Scale(pow2(i), x.c.Sub(b, old)))
	})
	reg(B+"SetString", func(x *Exec, cl *callCtx) Value {
		s, ok := cl.args[1].(*StrV).lit()
		if !ok {
			panic(bail("SetString of a symbolic string"))
		}
		v, good := new(big.Int).SetString(s, int(constOf(arg(cl, 2), "base").Int64()))
		if !good {
			return Tuple{x.nilPtr(), x.c.tF}
		}
		return Tuple{x.bigStore(cl, cl.args[0], x.c.Big(v)), x.c.tT}
	})
	reg(B+"Cmp", func(x *Exec, cl *callCtx) Value { return x.cmpPoly(ld(x, cl, 0), ld(x, cl, 1)) })
	reg(B+"CmpAbs", func(x *Exec, cl *callCtx) Value {
		return x.cmpPoly(x.absPoly(ld(x, cl, 0)), x.absPoly(ld(x, cl, 1)))
	})
	reg(B+"Sign", func(x *Exec, cl *callCtx) Value {
		return x.cmpPoly(ld(x, cl, 0), x.c.Int(0))
	})
	reg(B+"Uint64", func(x *Exec, cl *callCtx) Value {
		return x.c.Mod(x.absPoly(ld(x, cl, 0)), pow2(64))
	})
	reg(B+"Int64", func(x *Exec, cl *callCtx) Value {
		return x.wrapPoly(ld(x, cl, 0), types.Typ[types.Int64], cl.cond)
	})
	reg(B+"IsInt64", func(x *Exec, cl *callCtx) Value {
		p := ld(x, cl, 0)
		return x.c.And(x.c.Le(x.c.Big(new(big.Int).Neg(pow2(63))), p), x.c.Lt(p, x.c.Big(pow2(63))))
	})
	reg(B+"IsUint64", func(x *Exec, cl *callCtx) Value {
		p := ld(x, cl, 0)
		return x.c.And(x.c.GE0(p), x.c.Lt(p, x.c.Big(pow2(64))))
	})
	reg(B+"Bit", func(x *Exec, cl *callCtx) Value {
		return x.c.Mod(x.c.Div(ld(x, cl, 0), pow2(uint(constOf(arg(cl, 1), "Bit").Int64()))), b2)
	})
	reg(B+"BitLen", func(x *Exec, cl *callCtx) Value {
		p := x.absUnder(ld(x, cl, 0), cl.cond)
		if k, ok := p.Const(); ok {
			return x.c.Int(int64(k.BitLen()))
		}
		_, hi := x.c.Bounds(p)
		if hi == nil {
			panic(bail("BitLen of an unbounded value"))
		}
		n := x.c.UF("bitlen", []*Poly{p}, b0, bi(int64(hi.BitLen())))
		key := fmt.Sprintf("bitlen:%d", p.id)
		if !x.c.names[key] && hi.BitLen() < x.c.maxDom-2 {
			x.c.names[key] = true
			for k := 0; k <= hi.BitLen(); k++ {
				// bitlen <= k  <=>  p < 2^k
				x.c.axioms = append(x.c.axioms, x.c.Iff(x.c.Le(n, x.c.Int(int64(k))), x.c.Lt(p, x.c.Big(pow2(uint(k))))))
			}
		} else if !x.c.names[key] {
			x.c.names[key] = true
			for _, k := range []int{0, 8, 32, 63, 64, 127, 128, 252, 253, 254, 255, 256, 257, 511, 512} {
				x.c.axioms = append(x.c.axioms, x.c.Iff(x.c.Le(n, x.c.Int(int64(k))), x.c.Lt(p, x.c.Big(pow2(uint(k))))))
			}
		}
		return n
	})
	reg(B+"Bytes", func(x *Exec, cl *callCtx) Value { return x.bigBytes(cl, ld(x, cl, 0)) })
	reg(B+"FillBytes", func(x *Exec, cl *callCtx) Value {
		p := x.absUnder(ld(x, cl, 0), cl.cond)
		s := cl.args[1].(*SliceV)
		if len(s.alts) != 1 || s.alts[0].rope != nil {
			panic(bail("FillBytes of conditional length"))
		}
		n := s.alts[0].len
		x.clPanic(cl, x.c.Le(x.c.Big(pow2(uint(8*n))), p), "math/big: buffer too small to fit value")
		le := x.bytesOfInt(p, n)
		be := make([]*Poly, n)
		for i := range be {
			be[n-1-i] = le[i]
		}
		x.writeBytes(cl, s, be)
		return s
	})
	reg(B+"String", func(x *Exec, cl *callCtx) Value {
		p := ld(x, cl, 0)
		if k, ok := p.Const(); ok {
			return x.strLit(k.String())
		}
		panic(bail("String of a symbolic integer"))
	})
	reg(B+"ProbablyPrime", func(x *Exec, cl *callCtx) Value {
		return x.c.B(constOf(ld(x, cl, 0), "ProbablyPrime").ProbablyPrime(20))
	})
}

// sprintf formats byte slices and strings with %x, %X and %s; nil: not covered.
func (x *Exec) sprintf(cl *callCtx) Value {
	if cl.fn == nil || cl.fn.Name() != "Sprintf" {
		return nil
	}
	format, ok := cl.args[0].(*StrV).lit()
	sl, ok2 := cl.args[1].(*SliceV)
	if !ok || !ok2 || len(sl.alts) != 1 || sl.alts[0].rope != nil {
		return nil
	}
	var args []Value
	if a := sl.alts[0]; a.len > 0 {
		args = cl.st.get(a.o).cells[a.off : a.off+a.len]
	}
	var out []*Poly
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, x.c.Int(int64(format[i])))
			continue
		}
		i++
		if i >= len(format) || len(args) == 0 {
			return nil
		}
		v, ok := args[0].(*IfaceV)
		args = args[1:]
		if !ok || len(v.alts) != 1 || v.alts[0].t == nil {
			return nil
		}
		if ms := x.prog.MethodSets.MethodSet(v.alts[0].t); ms.Len() > 0 {
			return nil
		}
		var b []*Poly
		switch u := v.alts[0].v.(type) {
		case *StrV:
			if len(u.alts) != 1 {
				return nil
			}
			b = u.alts[0].b
		case *SliceV:
			if len(u.alts) != 1 || u.alts[0].rope != nil || !isByteSlice(v.alts[0].t) {
				return nil
			}
			b = x.sliceBytes(cl.st, u.alts[0])
		default:
			return nil
		}
		switch format[i] {
		case 's':
			out = append(out, b...)
		case 'x', 'X':
			for _, p := range b {
				for _, d := range []*Poly{x.c.Div(p, bi(16)), x.c.Mod(p, bi(16))} {
					h := x.hexDigit(d)
					if format[i] == 'X' {
						h = x.c.Ite(x.c.Lt(d, x.c.Int(10)), h, x.c.AddC(h, -32))
					}
					out = append(out, h)
				}
			}
		default:
			return nil
		}
	}
	return x.normStr([]StrAlt{{x.c.tT, out}})
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
