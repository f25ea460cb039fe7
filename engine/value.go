package main

// Symbolic values, objects and states.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Agg []Value

type Obj struct {
	id    int
	name  string
	n     int
	init  bool // allocated during package initialisation (shared state)
	frame int
	rope  *Rope
	model interface{}
	typ   types.Type
	thin  bool // the capacity is symbolic: at least the number of cells
	dead  bool // outgrown in a way the engine does not follow, not to be used any more
}

type PtrAlt struct {
	c   *Bool
	o   *Obj // nil: nil pointer
	off int
}
type PtrV struct{ alts []PtrAlt }

type SlAlt struct {
	c             *Bool
	o             *Obj // nil: nil slice
	off, len, cap int  // off in cells; len, cap in elements
	rope          *Rope
}
type SliceV struct {
	alts []SlAlt
	es   int // cells per element
}

// Rope is an immutable byte sequence with parts of symbolic length.
type Rope struct {
	segs []Seg
}

type Seg struct {
	bytes []*Poly // concrete length
	name  string  // opaque part
	cont  *Poly   // opaque content
	n     *Poly   // opaque length
}

type StrAlt struct {
	c *Bool
	b []*Poly
}
type StrV struct{ alts []StrAlt }

type IfAlt struct {
	c *Bool
	t types.Type // nil: nil interface
	v Value
}
type IfaceV struct{ alts []IfAlt }

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	c     *Bool // nil function when cond false
}

type MapEnt struct {
	k, v Value
}
type MapV struct {
	o *Obj // content: one cell holding []MapEnt ; nil: nil map
}

type Tuple []Value

// ModelType is the dynamic type of values implemented by the engine.
type ModelType struct{ name string }

func (m *ModelType) Underlying() types.Type { return m }
func (m *ModelType) String() string         { return "model:" + m.name }

type Ghost struct {
	kind string
	v    interface{}
}

type Content struct {
	cells []Value
	owner *State
}

type State struct {
	base map[*Obj]*Content
	m    map[*Obj]*Content
}

func newState() *State { return &State{m: map[*Obj]*Content{}} }

func (s *State) fork() *State {
	n := &State{base: s.base, m: make(map[*Obj]*Content, len(s.m)+8)}
	for k, v := range s.m {
		v.owner = nil
		n.m[k] = v
	}
	return n
}

// freeze makes the current contents the shared base.
func (s *State) freeze() {
	if s.base == nil {
		s.base = map[*Obj]*Content{}
	}
	nb := map[*Obj]*Content{}
	for k, v := range s.base {
		nb[k] = v
	}
	for k, v := range s.m {
		v.owner = nil
		nb[k] = v
	}
	s.base = nb
	s.m = map[*Obj]*Content{}
}

func (s *State) get(o *Obj) *Content {
	if o.dead {
		panic(bail("use of a block after an append of symbolic length to it"))
	}
	if c, ok := s.m[o]; ok {
		return c
	}
	if c, ok := s.base[o]; ok {
		return c
	}
	return nil
}

func (s *State) mut(o *Obj) *Content {
	c := s.get(o)
	if c == nil {
		panic(bail("write to unknown object " + o.name))
	}
	if c.owner == s {
		return c
	}
	n := &Content{cells: append([]Value(nil), c.cells...), owner: s}
	s.m[o] = n
	return n
}

type bailErr struct{ msg string }

func (b *bailErr) Error() string { return b.msg }
func bail(msg string) *bailErr {
	if os.Getenv("VERIF_DBG") != "" {
		debug.PrintStack()
	}
	return &bailErr{msg}
}

func bailf(f string, a ...interface{}) *bailErr {
	return bail(fmt.Sprintf(f, a...))
}

// ---------- types

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return isBigInt(types.Unalias(a))
		}
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == "math/big" && o.Name() == "Int"
}

func isAgg(t types.Type) bool {
	if isBigInt(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type layout struct {
	n    int
	offs []int
}

func (x *Exec) layoutOf(t types.Type) *layout {
	if l, ok := x.layouts[t]; ok {
		return l
	}
	l := &layout{n: 1}
	if !isBigInt(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			l.n = 0
			for i := 0; i < u.NumFields(); i++ {
				l.offs = append(l.offs, l.n)
				l.n += x.layoutOf(u.Field(i).Type()).n
			}
		case *types.Array:
			l.n = int(u.Len()) * x.layoutOf(u.Elem()).n
		}
	}
	x.layouts[t] = l
	return l
}

func (x *Exec) zeroCells(t types.Type, out []Value) []Value {
	if isBigInt(t) {
		return append(out, x.c.Int(0))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = x.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		z := x.zeroCells(u.Elem(), nil)
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, z...)
		}
		return out
	}
	return append(out, x.zeroScalar(t))
}

func (x *Exec) zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.tF
		case u.Info()&types.IsInteger != 0:
			return x.c.Int(0)
		case u.Info()&types.IsString != 0:
			return x.strLit("")
		case u.Kind() == types.UnsafePointer:
			return x.nilPtr()
		case u.Info()&types.IsFloat != 0:
			return &Ghost{kind: "float", v: 0.0}
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return x.nilPtr()
	case *types.Slice:
		return &SliceV{alts: []SlAlt{{c: x.c.tT}}, es: x.layoutOf(u.Elem()).n}
	case *types.Interface:
		return &IfaceV{alts: []IfAlt{{c: x.c.tT}}}
	case *types.Map:
		return &MapV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Chan:
		return &Ghost{kind: "chan"}
	case *types.Tuple:
		return Tuple(nil)
	}
	return &Ghost{kind: "zero:" + t.String()}
}

func (x *Exec) zero(t types.Type) Value {
	if isAgg(t) {
		return Agg(x.zeroCells(t, nil))
	}
	return x.zeroScalar(t)
}

func (x *Exec) nilPtr() *PtrV { return &PtrV{alts: []PtrAlt{{c: x.c.tT}}} }
func (x *Exec) ptrTo(o *Obj, off int) *PtrV {
	return &PtrV{alts: []PtrAlt{{c: x.c.tT, o: o, off: off}}}
}

func (x *Exec) strLit(s string) *StrV {
	b := make([]*Poly, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = x.c.Int(int64(s[i]))
	}
	return &StrV{alts: []StrAlt{{c: x.c.tT, b: b}}}
}

func (s *StrV) lit() (string, bool) {
	if len(s.alts) != 1 {
		return "", false
	}
	var sb strings.Builder
	for _, p := range s.alts[0].b {
		v, ok := p.Int64()
		if !ok {
			return "", false
		}
		sb.WriteByte(byte(v))
	}
	return sb.String(), true
}

func (x *Exec) newObj(name string, cells []Value, st *State) *Obj {
	x.nobj++
	o := &Obj{id: x.nobj, name: name, n: len(cells), init: x.inInit}
	st.m[o] = &Content{cells: cells, owner: st}
	return o
}

func (x *Exec) newBytes(name string, b []*Poly, st *State) *SliceV {
	cells := make([]Value, len(b))
	for i := range b {
		cells[i] = b[i]
	}
	o := x.newObj(name, cells, st)
	return &SliceV{alts: []SlAlt{{c: x.c.tT, o: o, len: len(b), cap: len(b)}}, es: 1}
}

// ---------- conditional values

func (x *Exec) normPtr(alts []PtrAlt) *PtrV {
	var out []PtrAlt
next:
	for _, a := range alts {
		if a.c == x.c.tF {
			continue
		}
		for i := range out {
			if out[i].o == a.o && out[i].off == a.off {
				out[i].c = x.c.Or(out[i].c, a.c)
				continue next
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		out[0].c = x.c.tT
	}
	return &PtrV{alts: out}
}

func (x *Exec) normSlice(es int, alts []SlAlt) *SliceV {
	var out []SlAlt
next:
	for _, a := range alts {
		if a.c == x.c.tF {
			continue
		}
		for i := range out {
			b := &out[i]
			if b.o == a.o && b.off == a.off && b.len == a.len && b.cap == a.cap && b.rope == a.rope {
				b.c = x.c.Or(b.c, a.c)
				continue next
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		out[0].c = x.c.tT
	}
	return &SliceV{alts: out, es: es}
}

func sameValue(a, b Value) bool {
	switch a.(type) {
	case Agg, Tuple, []MapEnt:
	default:
		switch b.(type) {
		case Agg, Tuple, []MapEnt:
			return false
		}
		if a == b {
			return true
		}
	}
	switch u := a.(type) {
	case *PtrV:
		v, ok := b.(*PtrV)
		if !ok || len(u.alts) != len(v.alts) {
			return false
		}
		for i := range u.alts {
			if u.alts[i] != v.alts[i] {
				return false
			}
		}
		return true
	case *SliceV:
		v, ok := b.(*SliceV)
		if !ok || len(u.alts) != len(v.alts) {
			return false
		}
		for i := range u.alts {
			if u.alts[i] != v.alts[i] {
				return false
			}
		}
		return true
	case *StrV:
		v, ok := b.(*StrV)
		if !ok || len(u.alts) != len(v.alts) {
			return false
		}
		for i := range u.alts {
			if u.alts[i].c != v.alts[i].c || len(u.alts[i].b) != len(v.alts[i].b) {
				return false
			}
			for j := range u.alts[i].b {
				if u.alts[i].b[j] != v.alts[i].b[j] {
					return false
				}
			}
		}
		return true
	case *IfaceV:
		v, ok := b.(*IfaceV)
		if !ok || len(u.alts) != len(v.alts) {
			return false
		}
		for i := range u.alts {
			p, q := u.alts[i], v.alts[i]
			if p.c != q.c || (p.t == nil) != (q.t == nil) {
				return false
			}
			if p.t != nil && (!identicalType(p.t, q.t) || !sameValue(p.v, q.v)) {
				return false
			}
		}
		return true
	case Agg:
		v, ok := b.(Agg)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !sameValue(u[i], v[i]) {
				return false
			}
		}
		return true
	case Tuple:
		v, ok := b.(Tuple)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !sameValue(u[i], v[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		v, ok := b.(*FuncV)
		if !ok || u.fn != v.fn || u.bi != v.bi || len(u.binds) != len(v.binds) {
			return false
		}
		for i := range u.binds {
			if !sameValue(u.binds[i], v.binds[i]) {
				return false
			}
		}
		return true
	case *MapV:
		v, ok := b.(*MapV)
		return ok && u.o == v.o
	case *Ghost:
		v, ok := b.(*Ghost)
		return ok && u.kind == v.kind && u.v == v.v
	case []MapEnt:
		return false
	}
	return false
}

func identicalType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ma, ok1 := a.(*ModelType)
	mb, ok2 := b.(*ModelType)
	if ok1 || ok2 {
		return ok1 && ok2 && ma == mb
	}
	return types.Identical(a, b)
}

func (x *Exec) ite(c *Bool, a, b Value) Value {
	if c == x.c.tT {
		return a
	}
	if c == x.c.tF {
		return b
	}
	if a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	if sameValue(a, b) {
		return a
	}
	switch u := a.(type) {
	case *Poly:
		return x.c.Ite(c, u, b.(*Poly))
	case *Bool:
		return x.c.BIte(c, u, b.(*Bool))
	case Agg:
		v := b.(Agg)
		r := make(Agg, len(u))
		for i := range u {
			r[i] = x.ite(c, u[i], v[i])
		}
		return r
	case Tuple:
		v := b.(Tuple)
		r := make(Tuple, len(u))
		for i := range u {
			r[i] = x.ite(c, u[i], v[i])
		}
		return r
	case *PtrV:
		v := b.(*PtrV)
		nc := x.c.Not(c)
		var alts []PtrAlt
		for _, p := range u.alts {
			alts = append(alts, PtrAlt{x.c.And(c, p.c), p.o, p.off})
		}
		for _, p := range v.alts {
			alts = append(alts, PtrAlt{x.c.And(nc, p.c), p.o, p.off})
		}
		return x.normPtr(alts)
	case *SliceV:
		v := b.(*SliceV)
		nc := x.c.Not(c)
		var alts []SlAlt
		for _, p := range u.alts {
			p.c = x.c.And(c, p.c)
			alts = append(alts, p)
		}
		for _, p := range v.alts {
			p.c = x.c.And(nc, p.c)
			alts = append(alts, p)
		}
		return x.normSlice(u.es, alts)
	case *StrV:
		v := b.(*StrV)
		nc := x.c.Not(c)
		return x.normStr(append(x.strUnder(u, c), x.strUnder(v, nc)...))
	case *IfaceV:
		v := b.(*IfaceV)
		nc := x.c.Not(c)
		var alts []IfAlt
		add := func(p IfAlt) {
			if p.c == x.c.tF {
				return
			}
			for i := range alts {
				if identicalType(alts[i].t, p.t) {
					if p.t == nil {
						alts[i].c = x.c.Or(alts[i].c, p.c)
						return
					}
					if sameValue(alts[i].v, p.v) {
						alts[i].c = x.c.Or(alts[i].c, p.c)
						return
					}
					if _, isM := p.t.(*ModelType); isM {
						continue
					}
					if _, isG := p.v.(*Ghost); isG {
						continue
					}
					alts[i].v = x.ite(p.c, p.v, alts[i].v)
					alts[i].c = x.c.Or(alts[i].c, p.c)
					return
				}
			}
			alts = append(alts, p)
		}
		for _, p := range u.alts {
			add(IfAlt{x.c.And(c, p.c), p.t, p.v})
		}
		for _, p := range v.alts {
			add(IfAlt{x.c.And(nc, p.c), p.t, p.v})
		}
		if len(alts) == 1 {
			alts[0].c = x.c.tT
		}
		return &IfaceV{alts: alts}
	case *FuncV:
		v := b.(*FuncV)
		if u.fn == nil && u.bi == nil || v.fn == nil && v.bi == nil {
			panic(bail("merge of nil and non-nil function values"))
		}
		panic(bail("merge of different function values"))
	case []MapEnt:
		v := b.([]MapEnt)
		if len(u) == len(v) {
			r := make([]MapEnt, len(u))
			for i := range u {
				if !sameValue(u[i].k, v[i].k) {
					panic(bail("merge of maps with different keys"))
				}
				r[i] = MapEnt{u[i].k, x.ite(c, u[i].v, v[i].v)}
			}
			return r
		}
		panic(bail("merge of maps of different size"))
	case *Ghost:
		if v, ok := b.(*Ghost); ok {
			if m := x.mergeGhost(c, u, v); m != nil {
				return m
			}
		}
		panic(bailf("merge of ghost values %s", u.kind))
	case *MapV:
		panic(bail("merge of different maps"))
	}
	panic(bailf("ite on %T", a))
}

func (x *Exec) mergeGhost(c *Bool, a, b *Ghost) Value {
	if a.kind == "fp" && b.kind == "fp" {
		var l []falt
		for _, u := range a.v.([]falt) {
			l = append(l, falt{x.c.And(c, u.c), u.p})
		}
		for _, u := range b.v.([]falt) {
			l = append(l, falt{x.c.And(x.c.Not(c), u.c), u.p})
		}
		return &Ghost{"fp", x.mergeAlts(l)}
	}
	if a.kind == "g" && b.kind == "g" {
		return &Ghost{"g", x.mergeG([]galt{{c, a.v.(*GTerm)}, {x.c.Not(c), b.v.(*GTerm)}})}
	}
	return nil
}

func (x *Exec) strUnder(s *StrV, c *Bool) []StrAlt {
	r := make([]StrAlt, len(s.alts))
	for i, a := range s.alts {
		r[i] = StrAlt{x.c.And(c, a.c), a.b}
	}
	return r
}

// normStr merges alternatives of equal length byte-wise.
func (x *Exec) normStr(alts []StrAlt) *StrV {
	var out []StrAlt
next:
	for _, a := range alts {
		if a.c == x.c.tF {
			continue
		}
		for i := range out {
			if len(out[i].b) == len(a.b) {
				nb := make([]*Poly, len(a.b))
				for j := range nb {
					nb[j] = x.c.Ite(a.c, a.b[j], out[i].b[j])
				}
				out[i] = StrAlt{x.c.Or(out[i].c, a.c), nb}
				continue next
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		out[0].c = x.c.tT
	}
	return &StrV{alts: out}
}

// selector: a condition that separates c1 from c2, given c1 or c2 holds.
func (x *Exec) selector(c1, c2 *Bool) *Bool {
	l1, l2 := conjuncts(c1), conjuncts(c2)
	in2 := map[int]bool{}
	for _, b := range l2 {
		in2[b.id] = true
	}
	var r1 []*Bool
	for _, b := range l1 {
		if !in2[b.id] {
			r1 = append(r1, b)
		}
	}
	in1 := map[int]bool{}
	for _, b := range l1 {
		in1[b.id] = true
	}
	var r2 []*Bool
	for _, b := range l2 {
		if !in1[b.id] {
			r2 = append(r2, b)
		}
	}
	// prefer the simpler side
	if len(r2) == 1 && len(r1) != 1 {
		return x.c.Not(r2[0])
	}
	return x.c.And(r1...)
}

func (x *Exec) mergeStates(sel *Bool, a, b *State) *State {
	if a == b {
		return a
	}
	n := &State{base: a.base, m: make(map[*Obj]*Content, len(a.m)+4)}
	for o, ca := range a.m {
		cb := b.get(o)
		if cb == nil || cb == ca {
			n.m[o] = ca
			continue
		}
		n.m[o] = x.mergeContent(sel, o, ca, cb, n)
	}
	for o, cb := range b.m {
		if _, ok := a.m[o]; ok {
			continue
		}
		ca := a.get(o)
		if ca == nil || ca == cb {
			n.m[o] = cb
			continue
		}
		n.m[o] = x.mergeContent(sel, o, ca, cb, n)
	}
	// contents are now shared with a and b; ownership must be dropped
	for _, c := range n.m {
		if c.owner == a || c.owner == b {
			c.owner = nil
		}
	}
	return n
}

func (x *Exec) mergeContent(sel *Bool, o *Obj, ca, cb *Content, n *State) *Content {
	if len(ca.cells) != len(cb.cells) {
		panic(bail("merge of objects of different size"))
	}
	var cells []Value
	for i := range ca.cells {
		if ca.cells[i] == cb.cells[i] || sameValue(ca.cells[i], cb.cells[i]) {
			continue
		}
		if cells == nil {
			cells = append([]Value(nil), ca.cells...)
		}
		cells[i] = x.ite(sel, ca.cells[i], cb.cells[i])
	}
	if cells == nil {
		return ca
	}
	return &Content{cells: cells, owner: n}
}

// ---------- integers

type intType struct {
	bits   uint
	signed bool
}

func intTypeOf(t types.Type) (intType, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intType{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intType{64, true}, true
	case types.Int32, types.UntypedRune:
		return intType{32, true}, true
	case types.Int16:
		return intType{16, true}, true
	case types.Int8:
		return intType{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intType{64, false}, true
	case types.Uint32:
		return intType{32, false}, true
	case types.Uint16:
		return intType{16, false}, true
	case types.Uint8:
		return intType{8, false}, true
	}
	return intType{}, false
}

func (t intType) lo() *big.Int {
	if !t.signed {
		return b0
	}
	return new(big.Int).Neg(pow2(t.bits - 1))
}
func (t intType) hi() *big.Int {
	if t.signed {
		return new(big.Int).Sub(pow2(t.bits-1), b1)
	}
	return new(big.Int).Sub(pow2(t.bits), b1)
}
