package main

// Symbolic executor over go/ssa: per function a worklist ordered by loop nest
// and reverse postorder, merging all states that reach the same block in the
// same loop iteration.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	label  string
	pc     *Bool // path condition
	bad    *Bool // negated assertion (already conjoined with pc)
	pos    string
	stat   string // proved, trivial, sat, unknown
	model  map[string]*big.Int
	secs   float64
	solver string
	goal   string
	assign map[string]string
}

type deferred struct {
	prev *deferred
	fn   Value
	call *ssa.Defer
	args []Value
	cond *Bool
}

type item struct {
	blk    *ssa.BasicBlock
	iters  []int
	cond   *Bool
	env    []Value
	st     *State
	defers *deferred
	seq    int
}

type Result struct {
	cond *Bool // normal return
	st   *State
	ret  Value
	// panic
	pcond *Bool
	pst   *State
	pval  Value
}

type panicCtx struct {
	val       Value
	recovered *Bool
}

type fnInfo struct {
	regs  map[ssa.Value]int
	nregs int
	live  []map[int]bool
	rpo   []int   // block index -> order
	loops [][]int // block index -> headers outer..inner
	isHdr []bool
}

type handler func(x *Exec, cl *callCtx) Value

type callCtx struct {
	fn   *ssa.Function
	args []Value
	st   *State
	cond *Bool
	// panics raised by the handler
	pcond *Bool
	pval  Value
	depth int
	pos   token.Pos
}

type Exec struct {
	c        *Ctx
	prog     *ssa.Program
	pkg      *ssa.Package
	layouts  map[types.Type]*layout
	infos    map[*ssa.Function]*fnInfo
	globals  map[*ssa.Global]*Obj
	nobj     int
	bigCopy  map[*Obj]bool // big.Ints copied by value
	opaque   bool          // some input has a symbolic length
	olen     int           // not 0: such inputs get olen-1 bytes instead
	frozen   int
	frozenW  []string
	aesIn    map[*Poly][]*Poly // the bytes of an AES input
	inInit   bool
	obs      []*Obligation
	covered  map[string]int
	handlers map[string]handler
	prefix   []prefixHandler
	steps    int64
	maxSteps int64
	panicStk []*panicCtx
	initDone map[*ssa.Package]bool
	mode     string
	params   map[string]int64
	execPkgs map[string]bool
	inputs   []Input
	reach    map[string]*Bool
	sv       *Solver
	wrote    map[*Obj]string
	pcs      []*Bool
	assumes  []*Bool
	contr    map[string]int // contracts used
	ks       *kstate
	gstats   map[string]int
	callPos  []token.Pos
	notes    []string
	uniq     int
	gtab     map[string]*Poly
	fnAlias  map[string]string
	wants    map[int]bool
}

type prefixHandler struct {
	p string
	h handler
}

type Input struct {
	Name string
	Kind string
	P    *Poly
	Ps   []*Poly
}

func NewExec(prog *ssa.Program, pkg *ssa.Package) *Exec {
	x := &Exec{c: NewCtx(), aesIn: map[*Poly][]*Poly{}, prog: prog, pkg: pkg, layouts: map[types.Type]*layout{}, infos: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Obj{},
		covered: map[string]int{}, handlers: map[string]handler{}, maxSteps: 60_000_000, initDone: map[*ssa.Package]bool{}, params: map[string]int64{}, execPkgs: map[string]bool{}, reach: map[string]*Bool{}, wrote: map[*Obj]string{}, contr: map[string]int{}, gstats: map[string]int{}, wants: map[int]bool{}}
	x.ks = newKstate()
	return x
}

// ---------- function analysis

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	n := len(fn.Blocks)
	in := &fnInfo{regs: map[ssa.Value]int{}, rpo: make([]int, n), loops: make([][]int, n), isHdr: make([]bool, n)}
	add := func(v ssa.Value) {
		in.regs[v] = in.nregs
		in.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse postorder
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		dfs(fn.Recover)
	}
	for i := range in.rpo {
		in.rpo[i] = n + 1
	}
	for i, b := range post {
		in.rpo[b] = len(post) - 1 - i
	}
	// natural loops
	body := map[int]map[int]bool{}
	for _, b := range fn.Blocks {
		if !seen[b.Index] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				bs := body[s.Index]
				if bs == nil {
					bs = map[int]bool{s.Index: true}
					body[s.Index] = bs
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					t := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if bs[t.Index] {
						continue
					}
					bs[t.Index] = true
					stack = append(stack, t.Preds...)
				}
			}
		}
	}
	for h, bs := range body {
		in.isHdr[h] = true
		for b := range bs {
			in.loops[b] = append(in.loops[b], h)
		}
	}
	for b := range in.loops {
		l := in.loops[b]
		sort.Slice(l, func(i, j int) bool { return len(body[l[i]]) > len(body[l[j]]) })
	}
	// liveness
	in.live = make([]map[int]bool, n)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		u, d := map[int]bool{}, map[int]bool{}
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				d[in.regs[ph]] = true
				continue
			}
			ops = i.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if r, ok := in.regs[*o]; ok && !d[r] {
					u[r] = true
				}
			}
			if v, ok := i.(ssa.Value); ok {
				d[in.regs[v]] = true
			}
		}
		use[b.Index], def[b.Index] = u, d
		in.live[b.Index] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			lv := in.live[k]
			o := len(lv)
			for r := range use[k] {
				lv[r] = true
			}
			for _, s := range b.Succs {
				pi := -1
				for q, p := range s.Preds {
					if p == b {
						pi = q
					}
				}
				for r := range in.live[s.Index] {
					if !def[k][r] {
						lv[r] = true
					}
				}
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if r, ok := in.regs[ph.Edges[pi]]; ok && !def[k][r] {
						lv[r] = true
					}
				}
			}
			// phi registers are defined on the edge
			for _, i := range b.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					delete(lv, in.regs[ph])
				} else {
					break
				}
			}
			if len(lv) != o {
				ch = true
			}
		}
	}
	// values live at block entry including the phis themselves
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				in.live[b.Index][in.regs[ph]] = true
			} else {
				break
			}
		}
	}
	if fn.Recover != nil {
		// registers used by the recover block must survive everywhere
		for r := range in.live[fn.Recover.Index] {
			for k := range in.live {
				if def[k] == nil || k == 0 {
					continue
				}
				in.live[k][r] = true
			}
		}
	}
	x.infos[fn] = in
	return in
}

func (in *fnInfo) key(it *item) []int {
	b := it.blk.Index
	var k []int
	for i, h := range in.loops[b] {
		k = append(k, in.rpo[h], it.iters[i])
	}
	return append(k, in.rpo[b])
}

func keyLess(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// ---------- running a function

func (x *Exec) pcTop() *Bool {
	if len(x.pcs) == 0 {
		return x.c.tT
	}
	return x.pcs[len(x.pcs)-1]
}

// Call executes fn under condition cond. Conditions are absolute.
func (x *Exec) Call(fn *ssa.Function, args []Value, binds []Value, st *State, cond *Bool, pos token.Pos) (res Result) {
	if len(x.callPos) > 200 {
		panic(bail("call depth exceeded in " + fn.String()))
	}
	x.callPos = append(x.callPos, pos)
	defer func() { x.callPos = x.callPos[:len(x.callPos)-1] }()
	name := fn.String()
	if h := x.lookupHandler(fn, name); h != nil {
		args = x.pruneSlices(args, cond)
		cl := &callCtx{fn: fn, args: args, st: st, cond: cond, pcond: x.c.tF, pos: pos}
		r := h(x, cl)
		if cl.pcond == x.c.tF {
			return Result{cond: cl.cond, st: cl.st, ret: r, pcond: x.c.tF}
		}
		return Result{cond: x.c.And(cl.cond, x.c.Not(cl.pcond)), st: cl.st, ret: r, pcond: x.c.And(cl.cond, cl.pcond), pst: cl.st.fork(), pval: cl.pval}
	}
	if len(fn.Blocks) == 0 {
		panic(bail("no body for " + name))
	}
	if !x.mayExec(fn) {
		panic(bail("call of unmodelled function " + name))
	}
	x.covered[name]++
	return x.run(fn, args, binds, st, cond)
}

func (x *Exec) mayExec(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			p = o.Pkg
		} else if fn.Parent() != nil {
			return x.mayExec(fn.Parent())
		} else {
			return true // synthetic wrapper
		}
	}
	return x.execPkgs[p.Pkg.Path()]
}

type frame struct {
	x     *Exec
	fn    *ssa.Function
	in    *fnInfo
	work  []*item
	rets  []retOut
	pans  []panOut
	binds []Value
	seq   int
}

type retOut struct {
	cond *Bool
	st   *State
	val  Value
}
type panOut struct {
	cond   *Bool
	st     *State
	val    Value
	env    []Value
	defers *deferred
}

func (x *Exec) run(fn *ssa.Function, args []Value, binds []Value, st *State, cond *Bool) Result {
	in := x.info(fn)
	f := &frame{x: x, fn: fn, in: in}
	env := make([]Value, in.nregs)
	for i, p := range fn.Params {
		env[in.regs[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[in.regs[p]] = binds[i]
	}
	f.work = append(f.work, &item{blk: fn.Blocks[0], cond: cond, env: env, st: st})
	f.loop()
	// deferred calls of panicking paths
	for k := 0; k < len(f.pans); k++ {
		p := &f.pans[k]
		if p.defers == nil {
			continue
		}
		ctx := &panicCtx{val: p.val, recovered: x.c.tF}
		it := &item{cond: p.cond, st: p.st, env: p.env, defers: p.defers}
		f.runDefers(it, ctx)
		p.defers = nil
		p.st = it.st
		rec := x.c.And(it.cond, ctx.recovered)
		p.cond = x.c.And(it.cond, x.c.Not(ctx.recovered))
		if rec != x.c.tF {
			if fn.Recover == nil {
				f.rets = append(f.rets, retOut{rec, it.st.fork(), x.zeroResults(fn)})
			} else {
				f.work = append(f.work, &item{blk: fn.Recover, cond: rec, env: append([]Value(nil), p.env...), st: it.st.fork(), iters: make([]int, len(in.loops[fn.Recover.Index]))})
				f.loop()
			}
		}
	}
	res := Result{cond: x.c.tF, pcond: x.c.tF}
	// merge returns
	for _, r := range f.rets {
		if r.cond == x.c.tF {
			continue
		}
		if res.cond == x.c.tF {
			res.cond, res.st, res.ret = r.cond, r.st, r.val
			continue
		}
		sel := x.selector(r.cond, res.cond)
		res.ret = x.ite(sel, r.val, res.ret)
		res.st = x.mergeStates(sel, r.st, res.st)
		res.cond = x.c.Or(r.cond, res.cond)
	}
	for _, p := range f.pans {
		if p.cond == x.c.tF {
			continue
		}
		if res.pcond == x.c.tF {
			res.pcond, res.pst, res.pval = p.cond, p.st, p.val
			continue
		}
		sel := x.selector(p.cond, res.pcond)
		res.pval = x.ite(sel, p.val, res.pval)
		res.pst = x.mergeStates(sel, p.st, res.pst)
		res.pcond = x.c.Or(p.cond, res.pcond)
	}
	return res
}

func (x *Exec) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(rs.At(0).Type())
	}
	t := make(Tuple, rs.Len())
	for i := range t {
		t[i] = x.zero(rs.At(i).Type())
	}
	return t
}

func (f *frame) loop() {
	x := f.x
	for len(f.work) > 0 {
		// pick minimum
		bi := 0
		bk := f.in.key(f.work[0])
		for i := 1; i < len(f.work); i++ {
			k := f.in.key(f.work[i])
			if keyLess(k, bk) {
				bi, bk = i, k
			}
		}
		it := f.work[bi]
		f.work = append(f.work[:bi], f.work[bi+1:]...)
		// merge with all items at the same place
		for i := 0; i < len(f.work); {
			o := f.work[i]
			if o.blk != it.blk || !sameIters(o.iters, it.iters) {
				i++
				continue
			}
			f.work = append(f.work[:i], f.work[i+1:]...)
			it = f.merge(it, o)
		}
		if x.c.And(x.pcTop(), it.cond) == x.c.tF {
			continue
		}
		f.block(it)
	}
}

func sameIters(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (f *frame) merge(a, b *item) *item {
	x := f.x
	sel := x.selector(a.cond, b.cond)
	n := &item{blk: a.blk, iters: a.iters, cond: x.c.Or(a.cond, b.cond), env: make([]Value, f.in.nregs)}
	for r := range f.in.live[a.blk.Index] {
		va, vb := a.env[r], b.env[r]
		if va == nil || vb == nil {
			if va == nil {
				n.env[r] = vb
			} else {
				n.env[r] = va
			}
			continue
		}
		n.env[r] = x.ite(sel, va, vb)
	}
	n.st = x.mergeStates(sel, a.st, b.st)
	if a.defers != b.defers {
		n.defers = x.mergeDefers(sel, a.defers, b.defers)
	} else {
		n.defers = a.defers
	}
	return n
}

func (x *Exec) mergeDefers(sel *Bool, a, b *deferred) *deferred {
	// conditional defers: common tail, then both suffixes guarded
	in := map[*deferred]bool{}
	for d := a; d != nil; d = d.prev {
		in[d] = true
	}
	var sb []*deferred
	tail := b
	for tail != nil && !in[tail] {
		sb = append(sb, tail)
		tail = tail.prev
	}
	var sa []*deferred
	for d := a; d != tail; d = d.prev {
		sa = append(sa, d)
	}
	r := tail
	for i := len(sa) - 1; i >= 0; i-- {
		d := *sa[i]
		d.cond = x.c.And(d.cond, sel)
		d.prev = r
		r = &d
	}
	ns := x.c.Not(sel)
	for i := len(sb) - 1; i >= 0; i-- {
		d := *sb[i]
		d.cond = x.c.And(d.cond, ns)
		d.prev = r
		r = &d
	}
	return r
}

func (f *frame) get(it *item, v ssa.Value) Value {
	if r, ok := f.in.regs[v]; ok {
		if it.env[r] == nil {
			panic(bailf("undefined register %s in %s", v.Name(), f.fn))
		}
		return it.env[r]
	}
	x := f.x
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.ptrTo(x.global(v, it.st), 0)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{bi: v}
	}
	panic(bailf("operand %T", v))
}

func (x *Exec) constVal(v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(bailf("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.B(constant.BoolVal(v.Value))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(v.Value)
		bi, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic(bail("integer constant"))
		}
		return x.c.Big(bi)
	case b.Info()&types.IsString != 0:
		return x.strLit(constant.StringVal(v.Value))
	case b.Info()&types.IsFloat != 0:
		fv, _ := constant.Float64Val(v.Value)
		return &Ghost{kind: "float", v: fv}
	}
	panic(bailf("constant %s", v))
}

func (x *Exec) global(g *ssa.Global, st *State) *Obj {
	if o, ok := x.globals[g]; ok {
		if st.get(o) != nil {
			return o
		}
	}
	t := g.Type().(*types.Pointer).Elem()
	o := x.globals[g]
	if o == nil {
		x.nobj++
		o = &Obj{id: x.nobj, name: g.String(), init: true}
		x.globals[g] = o
	}
	var cells []Value
	own := g.Pkg != nil && (g.Pkg.Pkg.Path() == targetPath || g.Pkg.Pkg.Path() == utilsPath)
	if g.Pkg != nil && !x.initDone[g.Pkg] && !(x.inInit && own) {
		cells = []Value{x.extGlobal(g, t)}
	} else {
		cells = x.zeroCells(t, nil)
	}
	o.n = len(cells)
	st.m[o] = &Content{cells: cells, owner: st}
	if !x.inInit && st.base != nil {
		// visible to every state of this run
		st.base[o] = st.m[o]
		st.m[o].owner = nil
		delete(st.m, o)
	}
	return o
}

// goTo moves it along the edge from its block to s.
func (f *frame) goTo(it *item, from, s *ssa.BasicBlock) {
	pi := -1
	for q, p := range s.Preds {
		if p == from {
			pi = q
		}
	}
	var vals []Value
	var regs []int
	for _, i := range s.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, f.get(it, ph.Edges[pi]))
		regs = append(regs, f.in.regs[ph])
	}
	for i, r := range regs {
		it.env[r] = vals[i]
	}
	// iteration vector
	fl, tl := f.in.loops[from.Index], f.in.loops[s.Index]
	ni := make([]int, len(tl))
	for i := range tl {
		if i < len(fl) && fl[i] == tl[i] {
			ni[i] = it.iters[i]
			if tl[i] == s.Index { // back edge
				ni[i]++
				if ni[i] > 100000 {
					panic(bail("loop bound exceeded in " + f.fn.String()))
				}
				for k := i + 1; k < len(tl); k++ {
					ni[k] = 0
				}
				break
			}
		} else {
			break
		}
	}
	it.iters = ni
	it.blk = s
	f.work = append(f.work, it)
}

func (f *frame) block(it *item) {
	x := f.x
	b := it.blk
	for idx, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		x.steps++
		if x.steps > x.maxSteps {
			panic(bail("step budget exceeded"))
		}
		switch ins := ins.(type) {
		case *ssa.If:
			c := f.get(it, ins.Cond).(*Bool)
			full := x.c.And(x.pcTop(), it.cond)
			t, e := x.c.And(full, c), x.c.And(full, x.c.Not(c))
			if t != x.c.tF && e != x.c.tF && c.k != BSet && (f.in.deepExit(it, b) || x.wantsCheck(c)) {
				// loops whose exit is not decided syntactically
				if x.infeasible(t) {
					t = x.c.tF
				} else if x.infeasible(e) {
					e = x.c.tF
				}
			}
			switch {
			case t == x.c.tF && e == x.c.tF:
				return
			case e == x.c.tF:
				f.goTo(it, b, b.Succs[0])
			case t == x.c.tF:
				f.goTo(it, b, b.Succs[1])
			default:
				o := &item{cond: x.c.And(it.cond, x.c.Not(c)), env: append([]Value(nil), it.env...), st: it.st.fork(), iters: it.iters, defers: it.defers}
				it.cond = x.c.And(it.cond, c)
				f.goTo(it, b, b.Succs[0])
				f.goTo(o, b, b.Succs[1])
			}
			return
		case *ssa.Jump:
			f.goTo(it, b, b.Succs[0])
			return
		case *ssa.Return:
			var v Value
			switch len(ins.Results) {
			case 0:
			case 1:
				v = f.get(it, ins.Results[0])
			default:
				t := make(Tuple, len(ins.Results))
				for i, r := range ins.Results {
					t[i] = f.get(it, r)
				}
				v = t
			}
			f.rets = append(f.rets, retOut{it.cond, it.st, v})
			return
		case *ssa.Panic:
			f.pans = append(f.pans, panOut{it.cond, it.st, f.get(it, ins.X), it.env, it.defers})
			return
		case *ssa.RunDefers:
			f.runDefers(it, nil)
		case *ssa.Defer:
			var args []Value
			for _, a := range ins.Call.Args {
				args = append(args, f.get(it, a))
			}
			var fv Value
			if !ins.Call.IsInvoke() {
				fv = f.get(it, ins.Call.Value)
			} else {
				fv = f.get(it, ins.Call.Value)
			}
			it.defers = &deferred{prev: it.defers, fn: fv, call: ins, args: args, cond: x.c.tT}
		default:
			f.instr(it, ins)
		}
		if it.cond == x.c.tF {
			return
		}
		_ = idx
	}
}

// wantsCheck: branch conditions over byte lengths are decided by the solver.
func (x *Exec) wantsCheck(c *Bool) bool {
	if x.sv == nil {
		return false
	}
	if r, ok := x.wants[c.id]; ok {
		return r
	}
	r := false
	x.sv.walk([]*Bool{c}, nil, func(a *Atom) {
		if a.kind == AUF && (a.name == "bytelen" || a.name == "bitlen") {
			r = true
		}
	})
	x.wants[c.id] = r
	return r
}

// deepExit says whether b can leave a loop that has run more than 3 times
func (in *fnInfo) deepExit(it *item, b *ssa.BasicBlock) bool {
	for i, h := range in.loops[b.Index] {
		if it.iters[i] <= 3 {
			continue
		}
		for _, s := range b.Succs {
			stays := false
			for _, g := range in.loops[s.Index] {
				if g == h {
					stays = true
				}
			}
			if !stays {
				return true
			}
		}
	}
	return false
}

func (f *frame) runDefers(it *item, ctx *panicCtx) {
	x := f.x
	d := it.defers
	it.defers = nil
	if ctx == nil && d != nil {
		ctx = &panicCtx{val: nil, recovered: x.c.tF}
	}
	for ; d != nil; d = d.prev {
		cc := &d.call.Call
		run := x.c.And(it.cond, d.cond)
		if run == x.c.tF {
			continue
		}
		x.panicStk = append(x.panicStk, ctx)
		var st0 *State
		if d.cond != x.c.tT {
			st0 = it.st.fork()
		}
		r := x.callValue(cc, d.fn, d.args, it.st, run, d.call.Pos())
		x.panicStk = x.panicStk[:len(x.panicStk)-1]
		if r.pcond != x.c.tF {
			f.pans = append(f.pans, panOut{r.pcond, r.pst, r.pval, it.env, d.prev})
		}
		if d.cond != x.c.tT {
			skip := x.c.And(it.cond, x.c.Not(d.cond))
			it.st = x.mergeStates(x.selector(r.cond, skip), r.st, st0)
			it.cond = x.c.Or(r.cond, skip)
		} else {
			it.cond, it.st = r.cond, r.st
		}
		if it.cond == x.c.tF {
			return
		}
	}
}

// raise splits off a panic with the given run-time error under bad.
func (f *frame) raise(it *item, bad *Bool, msg string) {
	x := f.x
	bad = x.c.And(it.cond, bad)
	full := x.c.And(x.pcTop(), bad)
	if full == x.c.tF {
		return
	}
	if full != x.c.tT && bad != it.cond && x.infeasible(full) {
		return
	}
	f.pans = append(f.pans, panOut{bad, it.st.fork(), x.rtError(msg), append([]Value(nil), it.env...), it.defers})
	it.cond = x.c.And(it.cond, x.c.Not(bad))
}

func (x *Exec) rtError(msg string) Value {
	return &IfaceV{alts: []IfAlt{{c: x.c.tT, t: mtRuntimeError, v: &Ghost{kind: "rterror", v: msg}}}}
}

var mtRuntimeError = &ModelType{"runtime.Error"}
var mtError = &ModelType{"error"}

func (f *frame) set(it *item, v ssa.Value, val Value) {
	it.env[f.in.regs[v]] = val
}

func (f *frame) instr(it *item, ins ssa.Instruction) {
	x := f.x
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		o := x.newObj(ins.Name()+":"+t.String(), x.zeroCells(t, nil), it.st)
		o.typ = t
		f.set(it, ins, x.ptrTo(o, 0))
	case *ssa.Store:
		if _, k := ins.Val.(*ssa.Const); !k && isBigInt(ins.Val.Type()) {
			// the copy shares the words of the original
			if p, ok := f.get(it, ins.Addr).(*PtrV); ok {
				for _, a := range p.alts {
					if a.o != nil {
						if x.bigCopy == nil {
							x.bigCopy = map[*Obj]bool{}
						}
						x.bigCopy[a.o] = true
					}
				}
			}
		}
		f.store(it, f.get(it, ins.Addr), f.get(it, ins.Val), ins.Pos())
	case *ssa.UnOp:
		f.unop(it, ins)
	case *ssa.BinOp:
		f.set(it, ins, f.binop(it, ins.Op, f.get(it, ins.X), f.get(it, ins.Y), ins.X.Type(), ins.Y.Type()))
	case *ssa.Call:
		f.call(it, ins)
	case *ssa.ChangeInterface:
		f.set(it, ins, f.get(it, ins.X))
	case *ssa.ChangeType:
		f.set(it, ins, f.get(it, ins.X))
	case *ssa.Convert:
		f.set(it, ins, f.convert(it, f.get(it, ins.X), ins.X.Type(), ins.Type()))
	case *ssa.MultiConvert:
		f.set(it, ins, f.convert(it, f.get(it, ins.X), ins.X.Type(), ins.Type()))
	case *ssa.Extract:
		t := f.get(it, ins.Tuple).(Tuple)
		f.set(it, ins, t[ins.Index])
	case *ssa.Field:
		a := f.get(it, ins.X).(Agg)
		st := ins.X.Type()
		l := x.layoutOf(st)
		ft := ins.Type()
		off := l.offs[ins.Field]
		f.set(it, ins, x.cellsToVal(a[off:], ft))
	case *ssa.FieldAddr:
		p := f.get(it, ins.X).(*PtrV)
		t := ins.X.Type().Underlying().(*types.Pointer).Elem()
		off := x.layoutOf(t).offs[ins.Field]
		p = f.nonNil(it, p)
		if p == nil {
			return
		}
		n := &PtrV{alts: make([]PtrAlt, len(p.alts))}
		for i, a := range p.alts {
			n.alts[i] = PtrAlt{a.c, a.o, a.off + off}
		}
		f.set(it, ins, n)
	case *ssa.IndexAddr:
		f.indexAddr(it, ins)
	case *ssa.Index:
		f.index(it, ins)
	case *ssa.Lookup:
		f.lookup(it, ins)
	case *ssa.MakeInterface:
		f.set(it, ins, &IfaceV{alts: []IfAlt{{x.c.tT, ins.X.Type(), f.get(it, ins.X)}}})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range ins.Bindings {
			b = append(b, f.get(it, v))
		}
		f.set(it, ins, &FuncV{fn: ins.Fn.(*ssa.Function), binds: b})
	case *ssa.MakeSlice:
		f.makeSlice(it, ins)
	case *ssa.MakeMap:
		o := x.newObj("map", []Value{[]MapEnt(nil)}, it.st)
		f.set(it, ins, &MapV{o})
	case *ssa.MapUpdate:
		f.mapUpdate(it, ins)
	case *ssa.Slice:
		f.slice(it, ins)
	case *ssa.TypeAssert:
		f.typeAssert(it, ins)
	case *ssa.SliceToArrayPointer:
		s := f.get(it, ins.X).(*SliceV)
		n := int(ins.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		var alts []PtrAlt
		for _, a := range s.alts {
			if a.len < n {
				f.raise(it, a.c, "slice to array conversion")
				continue
			}
			alts = append(alts, PtrAlt{a.c, a.o, a.off})
		}
		f.set(it, ins, x.normPtr(alts))
	case *ssa.Range:
		f.set(it, ins, f.rangeInit(it, ins))
	case *ssa.Next:
		f.rangeNext(it, ins)
	default:
		panic(bailf("instruction %T in %s", ins, f.fn))
	}
}

func (x *Exec) cellsToVal(cells []Value, t types.Type) Value {
	if isAgg(t) {
		n := x.layoutOf(t).n
		return Agg(append([]Value(nil), cells[:n]...))
	}
	return cells[0]
}

// nonNil raises a nil dereference for nil alternatives.
func (f *frame) nonNil(it *item, p *PtrV) *PtrV {
	x := f.x
	has := false
	for _, a := range p.alts {
		if a.o == nil {
			has = true
		}
	}
	if !has {
		return p
	}
	var out []PtrAlt
	for _, a := range p.alts {
		if a.o == nil {
			f.raise(it, a.c, "invalid memory address or nil pointer dereference")
		} else {
			out = append(out, a)
		}
	}
	if it.cond == x.c.tF || len(out) == 0 {
		it.cond = x.c.tF
		return nil
	}
	return &PtrV{alts: out}
}

func (x *Exec) loadCells(st *State, a PtrAlt, t types.Type) Value {
	c := st.get(a.o)
	if c == nil {
		panic(bail("load from unknown object " + a.o.name))
	}
	if isAgg(t) {
		n := x.layoutOf(t).n
		if a.off+n > len(c.cells) {
			panic(bail("load out of object " + a.o.name))
		}
		return Agg(append([]Value(nil), c.cells[a.off:a.off+n]...))
	}
	if a.off >= len(c.cells) {
		panic(bail("load out of object " + a.o.name))
	}
	return c.cells[a.off]
}

func (x *Exec) load(st *State, p *PtrV, t types.Type) Value {
	if len(p.alts) == 1 {
		return x.loadCells(st, p.alts[0], t)
	}
	// table lookup: all conditions over one base, all values constant
	if b := p.alts[0].c; b.k == BSet && !isAgg(t) {
		ok := true
		vals := make([]*big.Int, len(b.base.dom))
		for _, a := range p.alts {
			if a.c.k != BSet || a.c.base != b.base {
				ok = false
				break
			}
			v, isP := x.loadCells(st, a, t).(*Poly)
			if !isP {
				ok = false
				break
			}
			k, isC := v.Const()
			if !isC {
				ok = false
				break
			}
			for i, s := range a.c.set {
				if s && vals[i] == nil {
					vals[i] = k
				}
			}
		}
		if ok {
			var last *big.Int
			for _, v := range vals {
				if v != nil {
					last = v
					break
				}
			}
			for i := range vals {
				if vals[i] == nil {
					vals[i] = last
				}
			}
			return x.c.tabPoly(b.base, vals)
		}
	}
	r := x.loadCells(st, p.alts[len(p.alts)-1], t)
	for i := len(p.alts) - 2; i >= 0; i-- {
		r = x.ite(p.alts[i].c, x.loadCells(st, p.alts[i], t), r)
	}
	return r
}

// prune drops alternatives that contradict the path condition.
func (x *Exec) prune(p *PtrV, cond *Bool) *PtrV {
	if len(p.alts) < 2 {
		return p
	}
	full := x.c.And(x.pcTop(), cond)
	var out []PtrAlt
	for _, a := range p.alts {
		if x.c.And(full, a.c) != x.c.tF {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return p
	}
	if len(out) == 1 {
		out[0].c = x.c.tT
	}
	return &PtrV{alts: out}
}

// pruneSlices drops the alternatives of slices which cond excludes.
func (x *Exec) pruneSlices(args []Value, cond *Bool) []Value {
	var r []Value
	for i, v := range args {
		s, ok := v.(*SliceV)
		if !ok || len(s.alts) < 2 {
			continue
		}
		full := x.c.And(x.pcTop(), cond)
		var out []SlAlt
		for _, a := range s.alts {
			if x.c.And(full, a.c) != x.c.tF {
				out = append(out, a)
			}
		}
		if len(out) == 0 || len(out) == len(s.alts) {
			continue
		}
		if len(out) == 1 {
			out[0].c = x.c.tT
		}
		if r == nil {
			r = append(r, args...)
		}
		r[i] = &SliceV{alts: out, es: s.es}
	}
	if r == nil {
		return args
	}
	return r
}

func (f *frame) store(it *item, pv Value, val Value, pos token.Pos) {
	x := f.x
	p := f.nonNil(it, x.prune(pv.(*PtrV), it.cond))
	if p == nil {
		return
	}
	x.storeVal(it.st, p, val, x.posStr(pos))
}

func (x *Exec) storeVal(st *State, p *PtrV, val Value, where string) {
	for _, a := range p.alts {
		c := st.mut(a.o)
		x.noteWrite(a.o, where)
		put := func(i int, v Value) {
			if len(p.alts) > 1 {
				v = x.ite(a.c, v, c.cells[i])
			}
			c.cells[i] = v
		}
		if g, ok := val.(Agg); ok {
			if a.off+len(g) > len(c.cells) {
				panic(bail("store out of object"))
			}
			for i := range g {
				put(a.off+i, g[i])
			}
		} else {
			if a.off >= len(c.cells) {
				panic(bail("store out of object"))
			}
			put(a.off, val)
		}
	}
}

func (x *Exec) noteWrite(o *Obj, where string) {
	if x.inInit {
		return
	}
	if o.id <= x.frozen || o.init && x.frozen > 0 {
		x.frozenW = append(x.frozenW, o.name+" at "+where)
	}
	if !o.init {
		return
	}
	if _, ok := x.wrote[o]; !ok {
		x.wrote[o] = where
	}
}

func (x *Exec) posStr(pos token.Pos) string {
	p := x.prog.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

func (f *frame) unop(it *item, ins *ssa.UnOp) {
	x := f.x
	v := f.get(it, ins.X)
	switch ins.Op {
	case token.MUL:
		p := f.nonNil(it, x.prune(v.(*PtrV), it.cond))
		if p == nil {
			return
		}
		f.set(it, ins, x.load(it.st, p, ins.Type()))
	case token.NOT:
		f.set(it, ins, x.c.Not(v.(*Bool)))
	case token.SUB:
		f.set(it, ins, f.wrap(it, x.c.Neg(v.(*Poly)), ins.Type()))
	case token.XOR:
		// ^v = -v-1
		f.set(it, ins, f.wrap(it, x.c.AddC(x.c.Neg(v.(*Poly)), -1), ins.Type()))
	default:
		panic(bailf("unary %s", ins.Op))
	}
}

// wrap reduces p to the range of integer type t.
func (f *frame) wrap(it *item, p *Poly, t types.Type) *Poly {
	return f.x.wrapPoly(p, t, f.x.c.And(f.x.pcTop(), it.cond))
}

func (x *Exec) wrapPoly(p *Poly, t types.Type, pc *Bool) *Poly {
	ty, ok := intTypeOf(t)
	if !ok {
		panic(bailf("arithmetic on type %s", t))
	}
	lo, hi := x.c.Bounds(p)
	tl, th := ty.lo(), ty.hi()
	if lo != nil && lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return p
	}
	if b := x.c.baseOf(p); b != nil {
		m := pow2(ty.bits)
		return x.c.tabulate(b, func(v int64) *big.Int {
			w := x.c.evalBase(p, b, v)
			w = new(big.Int).Sub(w, tl)
			w.Mod(w, m)
			return w.Add(w, tl)
		})
	}
	if ty.bits == 64 && x.sv != nil {
		bad := x.c.Or(x.c.Lt(p, x.c.Big(tl)), x.c.Lt(x.c.Big(th), p))
		if x.infeasible(x.c.And(pc, bad)) {
			return p
		}
	}
	m := pow2(ty.bits)
	r := x.c.Mod(x.c.Sub(p, x.c.Big(tl)), m)
	return x.c.Add(r, x.c.Big(tl))
}

func (f *frame) binop(it *item, op token.Token, a, b Value, ta, tb types.Type) Value {
	x := f.x
	switch op {
	case token.EQL:
		return x.equal(it.st, a, b, ta)
	case token.NEQ:
		return x.c.Not(x.equal(it.st, a, b, ta))
	}
	switch u := a.(type) {
	case *Poly:
		v, ok := b.(*Poly)
		if !ok {
			panic(bailf("binop %s on %T", op, b))
		}
		switch op {
		case token.LSS:
			return x.c.Lt(u, v)
		case token.LEQ:
			return x.c.Le(u, v)
		case token.GTR:
			return x.c.Lt(v, u)
		case token.GEQ:
			return x.c.Le(v, u)
		case token.ADD:
			return f.wrap(it, x.c.Add(u, v), ta)
		case token.SUB:
			return f.wrap(it, x.c.Sub(u, v), ta)
		case token.MUL:
			return f.wrap(it, x.c.Mul(u, v), ta)
		case token.QUO, token.REM:
			z := x.c.EQ0(v)
			f.raise(it, z, "integer divide by zero")
			if it.cond == x.c.tF {
				return u
			}
			q := x.quo(u, v)
			if op == token.QUO {
				return f.wrap(it, q, ta)
			}
			return x.c.Sub(u, x.c.Mul(q, v))
		case token.SHL:
			k, ok := v.Int64()
			if !ok {
				return f.wrap(it, x.shiftVar(u, v, true), ta)
			}
			if k < 0 {
				f.raise(it, x.c.tT, "negative shift amount")
				return u
			}
			if k >= 64 {
				return x.c.Int(0)
			}
			return f.wrap(it, x.c.Scale(pow2(uint(k)), u), ta)
		case token.SHR:
			k, ok := v.Int64()
			if !ok {
				return x.shiftVar(u, v, false)
			}
			if k < 0 {
				f.raise(it, x.c.tT, "negative shift amount")
				return u
			}
			if k > 64 {
				k = 64
			}
			return x.c.Div(u, pow2(uint(k)))
		case token.AND:
			return x.bitAnd(u, v)
		case token.OR:
			// a|b = a+b-(a&b)
			return x.bitOr(u, v)
		case token.XOR:
			return x.bitXor(u, v)
		case token.AND_NOT:
			return x.c.Sub(u, x.bitAnd(u, v))
		}
	case *Bool:
		v := b.(*Bool)
		switch op {
		case token.AND:
			return x.c.And(u, v)
		case token.OR:
			return x.c.Or(u, v)
		case token.XOR:
			return x.c.Not(x.c.Iff(u, v))
		}
	case *StrV:
		v := b.(*StrV)
		switch op {
		case token.ADD:
			var alts []StrAlt
			for _, p := range u.alts {
				for _, q := range v.alts {
					c := x.c.And(p.c, q.c)
					if c == x.c.tF {
						continue
					}
					alts = append(alts, StrAlt{c, append(append([]*Poly(nil), p.b...), q.b...)})
				}
			}
			return x.normStr(alts)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			s1, ok1 := u.lit()
			s2, ok2 := v.lit()
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return x.c.B(s1 < s2)
				case token.GTR:
					return x.c.B(s1 > s2)
				case token.LEQ:
					return x.c.B(s1 <= s2)
				}
				return x.c.B(s1 >= s2)
			}
		}
	case *Ghost:
		if u.kind == "float" {
			panic(bail("floating point arithmetic"))
		}
	}
	panic(bailf("binop %s on %T", op, a))
}

func (x *Exec) shiftVar(u, v *Poly, left bool) *Poly {
	b := x.c.baseOf(v)
	if b == nil {
		panic(bail("shift by a symbolic amount"))
	}
	if ub := x.c.baseOf(u); ub != nil && ub.p == b.p || u.IsConst() {
		return x.c.tabulate(b, func(w int64) *big.Int {
			a := x.c.evalBase(u, b, w)
			k := x.c.evalBase(v, b, w)
			n := uint(64)
			if k.IsInt64() && k.Int64() >= 0 && k.Int64() < 64 {
				n = uint(k.Int64())
			}
			if left {
				return new(big.Int).Lsh(a, n)
			}
			return new(big.Int).Rsh(a, n)
		})
	}
	var r *Poly
	for _, w := range b.dom {
		k := x.c.evalBase(v, b, w)
		n := uint(64)
		if k.IsInt64() && k.Int64() >= 0 && k.Int64() < 64 {
			n = uint(k.Int64())
		}
		var q *Poly
		if left {
			q = x.c.Scale(pow2(n), u)
		} else {
			q = x.c.Div(u, pow2(n))
		}
		if r == nil {
			r = q
			continue
		}
		r = x.c.Ite(x.c.EQ0(x.c.Sub(b.p, x.c.Int(w))), q, r)
	}
	return r
}

// quo is Go's truncated quotient.
func (x *Exec) quo(u, v *Poly) *Poly {
	if a, ok := u.Const(); ok {
		if b, ok := v.Const(); ok {
			return x.c.Big(new(big.Int).Quo(a, b))
		}
	}
	if bu := x.c.baseOf(u); bu != nil {
		bv := x.c.baseOf(v)
		if v.IsConst() || (bv != nil && bv.p == bu.p) {
			return x.c.tabulate(bu, func(w int64) *big.Int {
				d := x.c.evalBase(v, bu, w)
				if d.Sign() == 0 {
					return b0
				}
				return new(big.Int).Quo(x.c.evalBase(u, bu, w), d)
			})
		}
	}
	k, ok := v.Const()
	if !ok {
		panic(bail("division by a symbolic value"))
	}
	neg := k.Sign() < 0
	k = new(big.Int).Abs(k)
	var q *Poly
	lo, _ := x.c.Bounds(u)
	if lo != nil && lo.Sign() >= 0 {
		q = x.c.Div(u, k)
	} else {
		q = x.c.Ite(x.c.GE0(u), x.c.Div(u, k), x.c.Neg(x.c.Div(x.c.Neg(u), k)))
	}
	if neg {
		q = x.c.Neg(q)
	}
	return q
}

// low k bits
func (x *Exec) lowBits(p *Poly, k uint) *Poly { return x.c.Mod(p, pow2(k)) }

// andConst: p & m for a constant m >= 0 (p of any sign, two's complement).
func (x *Exec) andConst(p *Poly, m *big.Int) *Poly {
	if m.Sign() < 0 {
		// p & m = p - (p & ^m)
		return x.c.Sub(p, x.andConst(p, new(big.Int).Not(m)))
	}
	if m.Sign() == 0 {
		return x.c.Int(0)
	}
	if b := x.c.baseOf(p); b != nil && (b.explicit || len(b.dom) <= 40) {
		return x.c.tabulate(b, func(v int64) *big.Int { return new(big.Int).And(x.c.evalBase(p, b, v), m) })
	}
	// runs of ones
	r := x.c.Int(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		hi := x.lowBits(p, uint(j))
		if i > 0 {
			hi = x.c.Sub(hi, x.lowBits(p, uint(i)))
		}
		r = x.c.Add(r, hi)
		i = j
	}
	return r
}

func (x *Exec) sameBase(u, v *Poly) *Base {
	a, b := x.c.baseOf(u), x.c.baseOf(v)
	if a != nil && b != nil && a.p == b.p {
		return a
	}
	return nil
}

func (x *Exec) bitAnd(u, v *Poly) *Poly {
	if u == v {
		return u
	}
	if k, ok := u.Const(); ok {
		return x.andConst(v, k)
	}
	if k, ok := v.Const(); ok {
		return x.andConst(u, k)
	}
	if b := x.sameBase(u, v); b != nil {
		return x.c.tabulate(b, func(w int64) *big.Int {
			return new(big.Int).And(x.c.evalBase(u, b, w), x.c.evalBase(v, b, w))
		})
	}
	if x.disjoint(u, v) || x.disjoint(v, u) {
		return x.c.Int(0)
	}
	if x.isBit(u) && x.isBit(v) {
		return x.c.Ite(x.c.EQ0(u), x.c.Int(0), v)
	}
	return x.bitAtom("and", u, v)
}

func (x *Exec) isBit(u *Poly) bool {
	lo, hi := x.c.Bounds(u)
	return lo != nil && lo.Sign() >= 0 && hi.Cmp(b1) <= 0
}

// disjoint: 0 <= u < 2^k and 2^k | v
func (x *Exec) disjoint(u, v *Poly) bool {
	lo, hi := x.c.Bounds(u)
	if lo == nil || lo.Sign() < 0 {
		return false
	}
	k := uint(hi.BitLen())
	for _, t := range v.t {
		if t.c.TrailingZeroBits() < k {
			return false
		}
	}
	return true
}

func (x *Exec) bitOr(u, v *Poly) *Poly {
	if x.disjoint(u, v) || x.disjoint(v, u) {
		return x.c.Add(u, v)
	}
	neg := func(p *Poly) bool {
		lo, _ := x.c.Bounds(p)
		return lo == nil || lo.Sign() < 0
	}
	if _, cu := u.Const(); !cu && (neg(u) || neg(v)) {
		if _, cv := v.Const(); !cv {
			// bits of possibly negative values: that the operands do not overlap becomes an
			// obligation of its own, and the result their sum
			if s := x.shiftOf(u); s > x.shiftOf(v) {
				u, v = v, u
			}
			if s := x.shiftOf(v); s > 0 && s < 64 {
				x.addOb("operands of | do not overlap", x.c.tT, x.c.And(x.c.GE0(u), x.c.GE0(x.c.Sub(x.c.Big(new(big.Int).Sub(pow2(s), b1)), u))), "")
				return x.c.Add(u, v)
			}
		}
	}
	_, cu := u.Const()
	_, cv := v.Const()
	if u == v || cu || cv || x.sameBase(u, v) != nil || x.isBit(u) && x.isBit(v) {
		return x.c.Sub(x.c.Add(u, v), x.bitAnd(u, v))
	}
	// n-ary atoms: zero exactly when all operands are
	seen := map[*Poly]bool{}
	var ops []*Poly
	for _, p := range []*Poly{u, v} {
		l := []*Poly{p}
		if a, kk, d := x.c.single(p); a != nil && a.kind == ABit && a.name == "or" && kk.Cmp(b1) == 0 && d.Sign() == 0 {
			l = a.args
		}
		for _, q := range l {
			if !seen[q] {
				seen[q] = true
				ops = append(ops, q)
			}
		}
	}
	if len(ops) == 1 {
		return ops[0]
	}
	return x.bitAtom("or", ops...)
}

func (x *Exec) shiftOf(v *Poly) uint {
	var k uint = 1 << 20
	for _, t := range v.t {
		if z := t.c.TrailingZeroBits(); z < k {
			k = z
		}
	}
	return k
}

func (x *Exec) bitXor(u, v *Poly) *Poly {
	if u == v {
		return x.c.Int(0)
	}
	if x.disjoint(u, v) || x.disjoint(v, u) {
		return x.c.Add(u, v)
	}
	_, c1 := u.Const()
	_, c2 := v.Const()
	if c1 || c2 || x.sameBase(u, v) != nil || (x.isBit(u) && x.isBit(v)) {
		if b := x.sameBase(u, v); b != nil {
			return x.c.tabulate(b, func(w int64) *big.Int {
				return new(big.Int).Xor(x.c.evalBase(u, b, w), x.c.evalBase(v, b, w))
			})
		}
		return x.c.Sub(x.c.Add(u, v), x.c.Scale(b2, x.bitAnd(u, v)))
	}
	return x.xorAtom(u, v)
}

// xorAtom keeps xors of bytes as n-ary atoms so that equal operands cancel.
func (x *Exec) xorAtom(u, v *Poly) *Poly {
	var ops []*Poly
	var k int64
	add := func(p *Poly) {
		if a, kk, d := x.c.single(p); a != nil && a.kind == ABit && a.name == "xor" && kk.Cmp(b1) == 0 && d.Sign() == 0 {
			ops = append(ops, a.args...)
			return
		}
		ops = append(ops, p)
	}
	add(u)
	add(v)
	cnt := map[*Poly]int{}
	for _, p := range ops {
		if w, ok := p.Int64(); ok {
			k ^= w
			continue
		}
		cnt[p]++
	}
	var l []*Poly
	for p, n := range cnt {
		if n%2 == 1 {
			l = append(l, p)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) == 0 {
		return x.c.Int(k)
	}
	if len(l) == 1 {
		return x.bitXor(l[0], x.c.Int(k))
	}
	if k != 0 {
		l = append(l, x.c.Int(k))
	}
	return x.bitAtom("xor", l...)
}

func (x *Exec) bitAtom(name string, args ...*Poly) *Poly {
	w := 0
	for _, p := range args {
		lo, hi := x.c.Bounds(p)
		if lo == nil || lo.Sign() < 0 {
			if os.Getenv("VERIF_DBG") != "" {
				for _, q := range args {
					lo, hi := x.c.Bounds(q)
					fmt.Fprintln(os.Stderr, "BIT", lo, hi, x.c.pStr(q, 2))
				}
			}
			panic(bailf("bitwise %s of possibly negative symbolic values", name))
		}
		if hi.BitLen() > w {
			w = hi.BitLen()
		}
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	a := x.c.newAtom(&Atom{kind: ABit, name: name, key: "b:" + name + polysKey(args), args: args, lo: b0, hi: new(big.Int).Sub(pow2(uint(w)), b1), wid: w})
	return x.c.atomPoly(a)
}

// ---------- equality

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Bool {
	switch u := a.(type) {
	case *Poly:
		return x.c.Eq(u, b.(*Poly))
	case *Bool:
		return x.c.Iff(u, b.(*Bool))
	case *StrV:
		return x.strEq(u, b.(*StrV))
	case *PtrV:
		v := b.(*PtrV)
		r := x.c.tF
		for _, p := range u.alts {
			for _, q := range v.alts {
				if p.o == q.o && p.off == q.off {
					r = x.c.Or(r, x.c.And(p.c, q.c))
				}
			}
		}
		return r
	case *SliceV:
		// comparison with nil only
		v := b.(*SliceV)
		other := u
		if len(v.alts) == 1 && v.alts[0].o == nil && v.alts[0].rope == nil {
		} else {
			other = v
		}
		r := x.c.tF
		for _, p := range other.alts {
			if p.o == nil && p.rope == nil {
				r = x.c.Or(r, p.c)
			}
		}
		return r
	case *MapV:
		v := b.(*MapV)
		return x.c.B(u.o == v.o)
	case *FuncV:
		v := b.(*FuncV)
		if v.fn == nil && v.bi == nil {
			return x.c.B(u.fn == nil && u.bi == nil)
		}
		return x.c.B(v.fn == u.fn)
	case *IfaceV:
		v, ok := b.(*IfaceV)
		if !ok {
			panic(bail("comparison of interface with non-interface"))
		}
		r := x.c.tF
		for _, p := range u.alts {
			for _, q := range v.alts {
				if !identicalType(p.t, q.t) {
					continue
				}
				e := x.c.tT
				if p.t != nil {
					if _, isM := p.t.(*ModelType); isM {
						e = x.c.B(sameValue(p.v, q.v))
					} else {
						e = x.equal(st, p.v, q.v, p.t)
					}
				}
				r = x.c.Or(r, x.c.And(p.c, q.c, e))
			}
		}
		return r
	case Agg:
		v := b.(Agg)
		r := x.c.tT
		for i := range u {
			r = x.c.And(r, x.equal(st, u[i], v[i], nil))
		}
		return r
	case *Ghost:
		if v, ok := b.(*Ghost); ok {
			return x.c.B(u == v || (u.kind == v.kind && u.v == v.v))
		}
	}
	panic(bailf("comparison of %T", a))
}

// bytesEq: equality of two byte lists as one integer equation.
func (x *Exec) bytesEq(a, b []*Poly) *Bool {
	if len(a) != len(b) {
		return x.c.tF
	}
	diff := x.c.Int(0)
	inRange := true
	for i := range a {
		for _, p := range []*Poly{a[i], b[i]} {
			lo, hi := x.c.Bounds(p)
			if lo == nil || lo.Sign() < 0 || hi.Cmp(bi(255)) > 0 {
				inRange = false
			}
		}
	}
	if inRange {
		pa, pb := x.bytesInt(a), x.bytesInt(b)
		diff = x.c.Sub(pa, pb)
		return x.c.EQ0(diff)
	}
	var l []*Bool
	for i := range a {
		l = append(l, x.c.Eq(a[i], b[i]))
	}
	return x.c.And(l...)
}

// bytesInt: little-endian integer.
func (x *Exec) bytesInt(b []*Poly) *Poly {
	m := map[int32]*big.Int{}
	for i := range b {
		sc := pow2(uint(8 * i))
		for _, t := range b[i].t {
			v := new(big.Int).Mul(t.c, sc)
			if o, ok := m[t.m]; ok {
				v.Add(v, o)
			}
			m[t.m] = v
		}
	}
	return x.c.fromMap(m)
}

func (x *Exec) strEq(u, v *StrV) *Bool {
	r := x.c.tF
	for _, p := range u.alts {
		for _, q := range v.alts {
			c := x.c.And(p.c, q.c)
			if c == x.c.tF || len(p.b) != len(q.b) {
				continue
			}
			r = x.c.Or(r, x.c.And(c, x.bytesEq(p.b, q.b)))
		}
	}
	return r
}

// ---------- indexing

func (f *frame) indexAddr(it *item, ins *ssa.IndexAddr) {
	x := f.x
	idx := f.get(it, ins.Index).(*Poly)
	switch bt := ins.X.Type().Underlying().(type) {
	case *types.Pointer: // *array
		p := f.nonNil(it, f.get(it, ins.X).(*PtrV))
		if p == nil {
			return
		}
		at := bt.Elem().Underlying().(*types.Array)
		es := x.layoutOf(at.Elem()).n
		var alts []PtrAlt
		for _, a := range p.alts {
			alts = append(alts, f.elems(it, a.c, a.o, a.off, int(at.Len()), es, idx)...)
		}
		f.setPtr(it, ins, alts)
	case *types.Slice:
		s := f.get(it, ins.X).(*SliceV)
		var alts []PtrAlt
		for _, a := range s.alts {
			if x.c.And(x.pcTop(), it.cond, a.c) == x.c.tF {
				continue
			}
			if a.rope != nil {
				alts = append(alts, f.ropeElem(it, a, idx)...)
				continue
			}
			alts = append(alts, f.elems(it, a.c, a.o, a.off, a.len, s.es, idx)...)
		}
		f.setPtr(it, ins, alts)
	default:
		panic(bailf("IndexAddr on %s", ins.X.Type()))
	}
}

func (f *frame) setPtr(it *item, v ssa.Value, alts []PtrAlt) {
	x := f.x
	if it.cond == x.c.tF {
		return
	}
	p := x.normPtr(alts)
	if len(p.alts) == 0 {
		it.cond = x.c.tF
		return
	}
	f.set(it, v, p)
}

// elems lists the cells addressed by idx in a block of n elements and raises
// an index panic for the rest.
func (f *frame) elems(it *item, c *Bool, o *Obj, off, n, es int, idx *Poly) []PtrAlt {
	x := f.x
	if k, ok := idx.Const(); ok {
		if k.Sign() < 0 || !k.IsInt64() || k.Int64() >= int64(n) {
			f.raise(it, c, fmt.Sprintf("index out of range [%s] with length %d", k, n))
			return nil
		}
		return []PtrAlt{{c, o, off + int(k.Int64())*es}}
	}
	bad := x.c.And(c, x.c.Or(x.c.Lt(idx, x.c.Int(0)), x.c.Le(x.c.Int(int64(n)), idx)))
	f.raise(it, bad, "index out of range")
	if it.cond == x.c.tF {
		return nil
	}
	b := x.c.baseOf(idx)
	var alts []PtrAlt
	if b == nil {
		if n > 512 {
			panic(bail("symbolic index into a large block"))
		}
		for e := 0; e < n; e++ {
			cc := x.c.And(c, x.c.Eq(idx, x.c.Int(int64(e))))
			if cc != x.c.tF {
				alts = append(alts, PtrAlt{cc, o, off + e*es})
			}
		}
		return alts
	}
	sets := map[int][]bool{}
	var order []int
	for i, v := range b.dom {
		e := x.c.evalBase(idx, b, v)
		if e.Sign() < 0 || !e.IsInt64() || e.Int64() >= int64(n) {
			continue
		}
		k := int(e.Int64())
		if sets[k] == nil {
			sets[k] = make([]bool, len(b.dom))
			order = append(order, k)
		}
		sets[k][i] = true
	}
	full := x.c.And(x.pcTop(), it.cond, c)
	for _, k := range order {
		sb := x.c.setBool(b, sets[k])
		if x.c.And(full, sb) == x.c.tF {
			continue
		}
		alts = append(alts, PtrAlt{x.c.And(c, sb), o, off + k*es})
	}
	return alts
}

func (f *frame) ropeElem(it *item, a SlAlt, idx *Poly) []PtrAlt {
	x := f.x
	n := x.ropeLen(a.rope)
	bad := x.c.And(a.c, x.c.Or(x.c.Lt(idx, x.c.Int(0)), x.c.Le(n, idx)))
	f.raise(it, bad, "index out of range")
	if it.cond == x.c.tF {
		return nil
	}
	v := x.ropeByte(a.rope, idx)
	o := x.newObj("ropebyte", []Value{v}, it.st)
	return []PtrAlt{{a.c, o, 0}}
}

func (x *Exec) ropeLen(r *Rope) *Poly {
	n := x.c.Int(0)
	for _, s := range r.segs {
		if s.cont == nil {
			n = x.c.AddC(n, int64(len(s.bytes)))
		} else {
			n = x.c.Add(n, s.n)
		}
	}
	return n
}

func (x *Exec) ropeByte(r *Rope, idx *Poly) *Poly {
	if len(r.segs) == 1 && r.segs[0].cont != nil {
		return x.c.UF("byteat", []*Poly{r.segs[0].cont, idx}, b0, bi(255))
	}
	if k, ok := idx.Int64(); ok && len(r.segs) > 0 && r.segs[0].cont == nil && k >= 0 && k < int64(len(r.segs[0].bytes)) {
		return r.segs[0].bytes[k]
	}
	panic(bail("byte access in a composite symbolic-length slice"))
}

func (f *frame) index(it *item, ins *ssa.Index) {
	x := f.x
	idx := f.get(it, ins.Index).(*Poly)
	switch v := f.get(it, ins.X).(type) {
	case Agg:
		at := ins.X.Type().Underlying().(*types.Array)
		es := x.layoutOf(at.Elem()).n
		o := x.newObj("tmp", v, it.st)
		alts := f.elems(it, x.c.tT, o, 0, int(at.Len()), es, idx)
		if it.cond == x.c.tF || len(alts) == 0 {
			it.cond = x.c.tF
			return
		}
		f.set(it, ins, x.load(it.st, x.normPtr(alts), ins.Type()))
	case *StrV:
		f.set(it, ins, f.strIndex(it, v, idx))
	default:
		panic(bailf("Index on %T", v))
	}
}

func (f *frame) strIndex(it *item, s *StrV, idx *Poly) Value {
	x := f.x
	var r Value
	for _, a := range s.alts {
		if x.c.And(x.pcTop(), it.cond, a.c) == x.c.tF {
			continue
		}
		cells := make([]Value, len(a.b))
		for i := range a.b {
			cells[i] = a.b[i]
		}
		o := x.newObj("str", cells, it.st)
		alts := f.elems(it, a.c, o, 0, len(a.b), 1, idx)
		if it.cond == x.c.tF {
			return x.c.Int(0)
		}
		if len(alts) == 0 {
			continue
		}
		v := x.load(it.st, x.normPtr(alts), types.Typ[types.Uint8])
		if r == nil {
			r = v
		} else {
			r = x.ite(a.c, v, r)
		}
	}
	if r == nil {
		return x.c.Int(0)
	}
	return r
}

func (f *frame) lookup(it *item, ins *ssa.Lookup) {
	x := f.x
	switch m := f.get(it, ins.X).(type) {
	case *StrV:
		f.set(it, ins, f.strIndex(it, m, f.get(it, ins.Index).(*Poly)))
	case *MapV:
		var val Value
		found := x.c.tF
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		val = x.zero(vt)
		if m.o != nil {
			ents, _ := it.st.get(m.o).cells[0].([]MapEnt)
			k := f.get(it, ins.Index)
			for _, e := range ents {
				eq := x.equal(it.st, k, e.k, nil)
				if eq == x.c.tF {
					continue
				}
				val = x.ite(eq, e.v, val)
				found = x.c.Or(found, eq)
			}
		}
		if ins.CommaOk {
			f.set(it, ins, Tuple{val, found})
		} else {
			f.set(it, ins, val)
		}
	default:
		panic(bailf("Lookup on %T", m))
	}
}

func (f *frame) mapUpdate(it *item, ins *ssa.MapUpdate) {
	x := f.x
	m := f.get(it, ins.Map).(*MapV)
	if m.o == nil {
		f.raise(it, x.c.tT, "assignment to entry in nil map")
		return
	}
	c := it.st.mut(m.o)
	x.noteWrite(m.o, x.posStr(ins.Pos()))
	old, _ := c.cells[0].([]MapEnt)
	ents := append([]MapEnt(nil), old...)
	k, v := f.get(it, ins.Key), f.get(it, ins.Value)
	for i := range ents {
		eq := x.equal(it.st, k, ents[i].k, nil)
		if eq == x.c.tT {
			ents[i].v = v
			c.cells[0] = ents
			return
		}
		if eq != x.c.tF {
			panic(bail("map update with a symbolic key"))
		}
	}
	c.cells[0] = append(ents, MapEnt{k, v})
}

// ---------- slices

// domainOf enumerates the feasible constant values of p under cond.
func (f *frame) domainOf(it *item, p *Poly, what string) []struct {
	c *Bool
	v int64
} {
	return f.x.domainUnder(p, f.x.c.And(f.x.pcTop(), it.cond), what)
}

func (x *Exec) domainUnder(p *Poly, full *Bool, what string) []struct {
	c *Bool
	v int64
} {
	type cv = struct {
		c *Bool
		v int64
	}
	if k, ok := p.Int64(); ok {
		return []cv{{x.c.tT, k}}
	}
	b := x.c.baseOf(p)
	if b == nil {
		lo, hi := x.c.Bounds(p)
		if lo == nil || !lo.IsInt64() || !hi.IsInt64() || hi.Int64()-lo.Int64() > 600 {
			panic(bail("symbolic " + what + ": " + x.c.pStr(p, 2)))
		}
		var out []cv
		for v := lo.Int64(); v <= hi.Int64(); v++ {
			c := x.c.Eq(p, x.c.Int(v))
			if x.c.And(full, c) != x.c.tF {
				out = append(out, cv{c, v})
			}
		}
		return out
	}
	sets := map[int64][]bool{}
	var order []int64
	for i, v := range b.dom {
		e := x.c.evalBase(p, b, v).Int64()
		if sets[e] == nil {
			sets[e] = make([]bool, len(b.dom))
			order = append(order, e)
		}
		sets[e][i] = true
	}
	var out []cv
	for _, e := range order {
		c := x.c.setBool(b, sets[e])
		if x.c.And(full, c) != x.c.tF {
			out = append(out, cv{c, e})
		}
	}
	return out
}

func (f *frame) makeSlice(it *item, ins *ssa.MakeSlice) {
	x := f.x
	et := ins.Type().Underlying().(*types.Slice).Elem()
	es := x.layoutOf(et).n
	ln := f.get(it, ins.Len).(*Poly)
	cp := f.get(it, ins.Cap).(*Poly)
	f.raise(it, x.c.Or(x.c.Lt(ln, x.c.Int(0)), x.c.Lt(cp, ln)), "makeslice: len out of range")
	if it.cond == x.c.tF {
		return
	}
	var alts []SlAlt
	z := x.zeroCells(et, nil)
	if _, ok := cp.Int64(); !ok && x.c.baseOf(cp) == nil && cp != ln {
		if lo, hi := x.c.Bounds(cp); lo == nil || hi == nil || hi.Cmp(bi(1<<20)) > 0 {
			// concrete length, any capacity
			for _, d := range f.domainOf(it, ln, "make length") {
				if x.c.And(it.cond, d.c) == x.c.tF {
					continue
				}
				cells := make([]Value, 0, int(d.v)*es)
				for i := int64(0); i < d.v; i++ {
					cells = append(cells, z...)
				}
				o := x.newObj("make:"+et.String(), cells, it.st)
				o.thin = true
				alts = append(alts, SlAlt{c: d.c, o: o, len: int(d.v), cap: int(d.v)})
			}
			f.set(it, ins, x.normSlice(es, alts))
			return
		}
	}
	for _, d := range f.domainOf(it, ln, "make length") {
		for _, e := range f.domainOf(it, cp, "make capacity") {
			c := x.c.And(d.c, e.c)
			if x.c.And(it.cond, c) == x.c.tF || e.v < d.v || d.v < 0 {
				continue
			}
			if e.v > 1<<20 {
				panic(bail("huge allocation"))
			}
			cells := make([]Value, 0, int(e.v)*es)
			for i := int64(0); i < e.v; i++ {
				cells = append(cells, z...)
			}
			o := x.newObj("make:"+et.String(), cells, it.st)
			alts = append(alts, SlAlt{c: c, o: o, len: int(d.v), cap: int(e.v)})
		}
	}
	if len(alts) == 0 {
		it.cond = x.c.tF
		return
	}
	f.set(it, ins, x.normSlice(es, alts))
}

func (f *frame) slice(it *item, ins *ssa.Slice) {
	x := f.x
	var lo, hi, mx *Poly
	if ins.Low != nil {
		lo = f.get(it, ins.Low).(*Poly)
	} else {
		lo = x.c.Int(0)
	}
	if ins.High != nil {
		hi = f.get(it, ins.High).(*Poly)
	}
	if ins.Max != nil {
		mx = f.get(it, ins.Max).(*Poly)
	}
	switch v := f.get(it, ins.X).(type) {
	case *StrV:
		var alts []StrAlt
		for _, a := range v.alts {
			h := hi
			if h == nil {
				h = x.c.Int(int64(len(a.b)))
			}
			for _, l := range f.domainOf(it, lo, "slice bound") {
				for _, hh := range f.domainOf(it, h, "slice bound") {
					c := x.c.And(a.c, l.c, hh.c)
					if x.c.And(x.pcTop(), it.cond, c) == x.c.tF {
						continue
					}
					if l.v < 0 || hh.v < l.v || hh.v > int64(len(a.b)) {
						f.raise(it, c, "slice bounds out of range")
						continue
					}
					alts = append(alts, StrAlt{c, a.b[l.v:hh.v]})
				}
			}
		}
		if it.cond != x.c.tF {
			f.set(it, ins, x.normStr(alts))
		}
		return
	case *PtrV:
		at := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		es := x.layoutOf(at.Elem()).n
		p := f.nonNil(it, v)
		if p == nil {
			return
		}
		var alts []SlAlt
		for _, a := range p.alts {
			alts = append(alts, f.reslice(it, SlAlt{c: a.c, o: a.o, off: a.off, len: int(at.Len()), cap: int(at.Len())}, es, lo, hi, mx)...)
		}
		if it.cond == x.c.tF {
			return
		}
		f.set(it, ins, x.normSlice(es, alts))
	case *SliceV:
		var alts []SlAlt
		for _, a := range v.alts {
			if x.c.And(x.pcTop(), it.cond, a.c) == x.c.tF {
				continue
			}
			if a.rope != nil {
				alts = append(alts, f.ropeSlice(it, a, lo, hi)...)
				continue
			}
			alts = append(alts, f.reslice(it, a, v.es, lo, hi, mx)...)
		}
		if it.cond == x.c.tF {
			return
		}
		if len(alts) == 0 {
			it.cond = x.c.tF
			return
		}
		f.set(it, ins, x.normSlice(v.es, alts))
	default:
		panic(bailf("Slice of %T", v))
	}
}

func (f *frame) reslice(it *item, a SlAlt, es int, lo, hi, mx *Poly) []SlAlt {
	x := f.x
	if hi == nil {
		hi = x.c.Int(int64(a.len))
	}
	if mx == nil {
		mx = x.c.Int(int64(a.cap))
	}
	var out []SlAlt
	for _, l := range f.domainOf(it, lo, "slice bound") {
		for _, h := range f.domainOf(it, hi, "slice bound") {
			for _, m := range f.domainOf(it, mx, "slice bound") {
				c := x.c.And(a.c, l.c, h.c, m.c)
				if x.c.And(x.pcTop(), it.cond, c) == x.c.tF {
					continue
				}
				if a.o != nil && a.o.thin && (h.v > int64(a.cap) || m.v > int64(a.cap)) {
					panic(bail("slicing beyond the length of a slice of symbolic capacity"))
				}
				if l.v < 0 || h.v < l.v || m.v < h.v || m.v > int64(a.cap) {
					f.raise(it, c, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l.v, h.v, m.v, a.cap))
					if it.cond == x.c.tF {
						return out
					}
					continue
				}
				out = append(out, SlAlt{c: c, o: a.o, off: a.off + int(l.v)*es, len: int(h.v - l.v), cap: int(m.v - l.v)})
			}
		}
	}
	return out
}

func (f *frame) ropeSlice(it *item, a SlAlt, lo, hi *Poly) []SlAlt {
	x := f.x
	n := x.ropeLen(a.rope)
	if hi == nil {
		hi = n
	}
	if k, ok := lo.Int64(); ok && k == 0 && hi == n {
		return []SlAlt{a}
	}
	bad := x.c.And(a.c, x.c.Or(x.c.Lt(lo, x.c.Int(0)), x.c.Lt(hi, lo), x.c.Lt(n, hi)))
	f.raise(it, bad, "slice bounds out of range")
	if it.cond == x.c.tF {
		return nil
	}
	if len(a.rope.segs) == 1 && a.rope.segs[0].cont != nil {
		s := a.rope.segs[0]
		ns := Seg{name: s.name + "[:]", cont: x.c.UF("sub", []*Poly{s.cont, lo, hi}, nil, nil), n: x.c.Sub(hi, lo)}
		return []SlAlt{{c: a.c, rope: &Rope{[]Seg{ns}}}}
	}
	// cut at positions inside the leading part of concrete length
	l, ok := lo.Int64()
	if ok && len(a.rope.segs) > 0 && a.rope.segs[0].cont == nil {
		b := a.rope.segs[0].bytes
		if l <= int64(len(b)) {
			if h, ok := hi.Int64(); ok && h <= int64(len(b)) {
				return []SlAlt{{c: a.c, rope: &Rope{[]Seg{{bytes: b[l:h]}}}}}
			}
			if hi == n {
				return []SlAlt{{c: a.c, rope: &Rope{append([]Seg{{bytes: b[l:]}}, a.rope.segs[1:]...)}}}
			}
		}
	}
	panic(bail("slicing of a composite symbolic-length slice"))
}

func (f *frame) typeAssert(it *item, ins *ssa.TypeAssert) {
	x := f.x
	v := f.get(it, ins.X).(*IfaceV)
	_, toIface := ins.AssertedType.Underlying().(*types.Interface)
	ok := x.c.tF
	var val Value
	for _, a := range v.alts {
		if a.t == nil {
			continue
		}
		match := false
		if _, isM := a.t.(*ModelType); isM {
			match = toIface && x.modelImplements(a.t.(*ModelType), ins.AssertedType)
		} else if toIface {
			match = types.Implements(a.t, ins.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(a.t, ins.AssertedType)
		}
		if !match {
			continue
		}
		var w Value = a.v
		if toIface {
			w = &IfaceV{alts: []IfAlt{{x.c.tT, a.t, a.v}}}
		}
		if val == nil {
			val = w
		} else {
			val = x.ite(a.c, w, val)
		}
		ok = x.c.Or(ok, a.c)
	}
	if ins.CommaOk {
		z := x.zero(ins.AssertedType)
		if val == nil {
			val = z
		} else {
			val = x.ite(ok, val, z)
		}
		f.set(it, ins, Tuple{val, ok})
		return
	}
	f.raise(it, x.c.Not(ok), "interface conversion")
	if it.cond == x.c.tF {
		return
	}
	f.set(it, ins, val)
}

// ---------- range over strings and maps

type rangeIter struct {
	ents []MapEnt
	str  *StrV
	pos  *Obj
}

func (f *frame) rangeInit(it *item, ins *ssa.Range) Value {
	x := f.x
	pos := x.newObj("iter", []Value{x.c.Int(0)}, it.st)
	switch v := f.get(it, ins.X).(type) {
	case *StrV:
		if len(v.alts) != 1 {
			panic(bail("range over a string of symbolic length"))
		}
		return &Ghost{kind: "iter", v: &rangeIter{str: v, pos: pos}}
	case *MapV:
		var e []MapEnt
		if v.o != nil {
			e, _ = it.st.get(v.o).cells[0].([]MapEnt)
		}
		return &Ghost{kind: "iter", v: &rangeIter{ents: e, pos: pos}}
	}
	panic(bail("range"))
}

func (f *frame) rangeNext(it *item, ins *ssa.Next) {
	x := f.x
	ri := f.get(it, ins.Iter).(*Ghost).v.(*rangeIter)
	k, ok := it.st.get(ri.pos).cells[0].(*Poly).Int64()
	if !ok {
		panic(bail("range position"))
	}
	tt := ins.Type().(*types.Tuple)
	if ri.str != nil {
		b := ri.str.alts[0].b
		if int(k) >= len(b) {
			f.set(it, ins, Tuple{x.c.tF, x.c.Int(0), x.c.Int(0)})
			return
		}
		ch := b[k]
		_, hi := x.c.Bounds(ch)
		if hi == nil || hi.Cmp(bi(127)) > 0 {
			panic(bail("range over a possibly non-ASCII string"))
		}
		it.st.mut(ri.pos).cells[0] = x.c.Int(k + 1)
		f.set(it, ins, Tuple{x.c.tT, x.c.Int(k), ch})
		return
	}
	if int(k) >= len(ri.ents) {
		z := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return x.c.Int(0)
			}
			return x.zero(tt.At(i).Type())
		}
		f.set(it, ins, Tuple{x.c.tF, z(1), z(2)})
		return
	}
	it.st.mut(ri.pos).cells[0] = x.c.Int(k + 1)
	f.set(it, ins, Tuple{x.c.tT, ri.ents[k].k, ri.ents[k].v})
}

// ---------- conversions

func (f *frame) convert(it *item, v Value, from, to types.Type) Value {
	x := f.x
	if _, ok := intTypeOf(to); ok {
		if p, ok := v.(*Poly); ok {
			return f.wrap(it, p, to)
		}
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch u := v.(type) {
		case *StrV:
			return u
		case *SliceV:
			return x.bytesToStr(it.st, u)
		case *Poly:
			if k, ok := u.Int64(); ok {
				return x.strLit(string(rune(k)))
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			s := v.(*StrV)
			es := x.layoutOf(ts.Elem()).n
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				var alts []SlAlt
				for _, a := range s.alts {
					sv := x.newBytes("[]byte(string)", a.b, it.st)
					sv.alts[0].c = a.c
					alts = append(alts, sv.alts[0])
				}
				return x.normSlice(es, alts)
			}
		}
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsFloat != 0 {
		if p, ok := v.(*Poly); ok {
			if k, ok := p.Int64(); ok {
				return &Ghost{kind: "float", v: float64(k)}
			}
		}
		if g, ok := v.(*Ghost); ok && g.kind == "float" {
			return g
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if _, ok := tu.(*types.Basic); ok {
		if _, isP := v.(*PtrV); isP {
			return v
		}
	}
	panic(bailf("conversion %s -> %s", from, to))
}

func (x *Exec) bytesToStr(st *State, s *SliceV) *StrV {
	var alts []StrAlt
	for _, a := range s.alts {
		if a.rope != nil {
			panic(bail("string of symbolic length"))
		}
		alts = append(alts, StrAlt{a.c, x.sliceBytes(st, a)})
	}
	return x.normStr(alts)
}

func (x *Exec) sliceBytes(st *State, a SlAlt) []*Poly {
	if a.len == 0 {
		return nil
	}
	c := st.get(a.o)
	b := make([]*Poly, a.len)
	for i := range b {
		p, ok := c.cells[a.off+i].(*Poly)
		if !ok {
			panic(bail("byte slice with non-integer cells"))
		}
		b[i] = p
	}
	return b
}

// ---------- calls

func (f *frame) call(it *item, ins *ssa.Call) {
	x := f.x
	cc := &ins.Call
	var args []Value
	for _, a := range cc.Args {
		args = append(args, f.get(it, a))
	}
	fv := f.get(it, cc.Value)
	if fn, ok := fv.(*FuncV); ok && fn.bi != nil {
		v := f.builtin(it, fn.bi.Name(), cc, args, ins)
		if it.cond != x.c.tF && v != nil {
			f.set(it, ins, v)
		}
		return
	}
	r := x.callValue(cc, fv, args, it.st, it.cond, ins.Pos())
	if r.pcond != x.c.tF {
		f.pans = append(f.pans, panOut{r.pcond, r.pst, r.pval, append([]Value(nil), it.env...), it.defers})
	}
	it.cond, it.st = r.cond, r.st
	if it.cond == x.c.tF {
		return
	}
	if r.ret != nil {
		f.set(it, ins, r.ret)
	} else {
		f.set(it, ins, Tuple(nil))
	}
}

func (x *Exec) callValue(cc *ssa.CallCommon, fv Value, args []Value, st *State, cond *Bool, pos token.Pos) Result {
	if !cc.IsInvoke() {
		fn, ok := fv.(*FuncV)
		if !ok {
			panic(bailf("call of %T", fv))
		}
		if fn.fn == nil {
			if fn.bi != nil { // deferred builtin
				switch fn.bi.Name() {
				case "recover":
					f := &frame{x: x}
					it := &item{cond: cond, st: st}
					f.builtin(it, "recover", cc, args, nil)
					return Result{cond: cond, st: st, pcond: x.c.tF}
				}
				panic(bail("deferred builtin"))
			}
			return Result{cond: x.c.tF, pcond: cond, pst: st, pval: x.rtError("call of nil function")}
		}
		return x.Call(fn.fn, args, fn.binds, st, cond, pos)
	}
	iv := fv.(*IfaceV)
	res := Result{cond: x.c.tF, pcond: x.c.tF}
	live := 0
	var last IfAlt
	for _, a := range iv.alts {
		if x.c.And(x.pcTop(), cond, a.c) != x.c.tF {
			live++
			last = a
		}
	}
	one := func(a IfAlt, st *State, c *Bool) Result {
		if a.t == nil {
			return Result{cond: x.c.tF, pcond: c, pst: st, pval: x.rtError("invalid memory address or nil pointer dereference (nil interface call)")}
		}
		if mt, ok := a.t.(*ModelType); ok {
			cl := &callCtx{args: append([]Value{a.v}, args...), st: st, cond: c, pcond: x.c.tF, pos: pos}
			r := x.modelMethod(mt, cc.Method.Name(), cl)
			if cl.pcond == x.c.tF {
				return Result{cond: cl.cond, st: cl.st, ret: r, pcond: x.c.tF}
			}
			return Result{cond: x.c.And(cl.cond, x.c.Not(cl.pcond)), st: cl.st, ret: r, pcond: x.c.And(cl.cond, cl.pcond), pst: cl.st.fork(), pval: cl.pval}
		}
		m := x.prog.LookupMethod(a.t, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			panic(bailf("no method %s on %s", cc.Method.Name(), a.t))
		}
		return x.Call(m, append([]Value{a.v}, args...), nil, st, c, pos)
	}
	if live == 1 {
		return one(last, st, cond)
	}
	for _, a := range iv.alts {
		c := x.c.And(cond, a.c)
		if x.c.And(x.pcTop(), c) == x.c.tF {
			continue
		}
		r := one(a, st.fork(), c)
		if r.cond != x.c.tF {
			if res.cond == x.c.tF {
				res.cond, res.st, res.ret = r.cond, r.st, r.ret
			} else {
				sel := x.selector(r.cond, res.cond)
				res.ret = x.ite(sel, r.ret, res.ret)
				res.st = x.mergeStates(sel, r.st, res.st)
				res.cond = x.c.Or(r.cond, res.cond)
			}
		}
		if r.pcond != x.c.tF {
			if res.pcond == x.c.tF {
				res.pcond, res.pst, res.pval = r.pcond, r.pst, r.pval
			} else {
				sel := x.selector(r.pcond, res.pcond)
				res.pval = x.ite(sel, r.pval, res.pval)
				res.pst = x.mergeStates(sel, r.pst, res.pst)
				res.pcond = x.c.Or(r.pcond, res.pcond)
			}
		}
	}
	return res
}

func (x *Exec) lenOf(st *State, v Value) *Poly {
	switch u := v.(type) {
	case *SliceV:
		var r *Poly
		for i := len(u.alts) - 1; i >= 0; i-- {
			a := u.alts[i]
			n := x.c.Int(int64(a.len))
			if a.rope != nil {
				n = x.ropeLen(a.rope)
			}
			if r == nil {
				r = n
			} else {
				r = x.c.Ite(a.c, n, r)
			}
		}
		return r
	case *StrV:
		var r *Poly
		for i := len(u.alts) - 1; i >= 0; i-- {
			n := x.c.Int(int64(len(u.alts[i].b)))
			if r == nil {
				r = n
			} else {
				r = x.c.Ite(u.alts[i].c, n, r)
			}
		}
		return r
	case *MapV:
		if u.o == nil {
			return x.c.Int(0)
		}
		e, _ := st.get(u.o).cells[0].([]MapEnt)
		return x.c.Int(int64(len(e)))
	}
	panic(bailf("len of %T", v))
}

func (f *frame) builtin(it *item, name string, cc *ssa.CallCommon, args []Value, ins *ssa.Call) Value {
	x := f.x
	switch name {
	case "len":
		if p, ok := args[0].(*PtrV); ok {
			_ = p
			at := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return x.c.Int(at.Len())
		}
		if _, ok := args[0].(Agg); ok {
			return x.c.Int(cc.Args[0].Type().Underlying().(*types.Array).Len())
		}
		return x.lenOf(it.st, args[0])
	case "cap":
		s := args[0].(*SliceV)
		var r *Poly
		for i := len(s.alts) - 1; i >= 0; i-- {
			a := s.alts[i]
			if a.o != nil && a.o.thin {
				panic(bail("cap of a slice of symbolic capacity"))
			}
			n := x.c.Int(int64(a.cap))
			if a.rope != nil {
				n = x.ropeLen(a.rope)
			}
			if r == nil {
				r = n
			} else {
				r = x.c.Ite(a.c, n, r)
			}
		}
		return r
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(*SliceV)
		var more *SliceV
		switch m := args[1].(type) {
		case *SliceV:
			more = m
		case *StrV:
			more = f.convert(it, m, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
		}
		return f.appendSlices(it, s, more, cc.Args[0].Type())
	case "copy":
		d := args[0].(*SliceV)
		var src *SliceV
		switch m := args[1].(type) {
		case *SliceV:
			src = m
		case *StrV:
			src = f.convert(it, m, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(*SliceV)
		}
		return f.copySlices(it, d, src)
	case "print", "println":
		return Tuple(nil)
	case "recover":
		if len(x.panicStk) == 0 {
			return x.zeroIface()
		}
		ctx := x.panicStk[len(x.panicStk)-1]
		if ctx == nil || ctx.val == nil {
			return x.zeroIface()
		}
		nr := x.c.Not(ctx.recovered)
		v := x.ite(nr, ctx.val, x.zeroIface())
		ctx.recovered = x.c.Or(ctx.recovered, it.cond)
		return v
	case "ssa:wrapnilchk":
		p := f.nonNil(it, args[0].(*PtrV))
		if p == nil {
			return nil
		}
		return p
	case "min", "max":
		r := args[0].(*Poly)
		for _, a := range args[1:] {
			p := a.(*Poly)
			if name == "min" {
				r = x.c.Ite(x.c.Le(r, p), r, p)
			} else {
				r = x.c.Ite(x.c.Le(p, r), r, p)
			}
		}
		return r
	case "clear":
		if s, ok := args[0].(*SliceV); ok {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := x.zeroCells(et, nil)
			for _, a := range s.alts {
				if a.len == 0 {
					continue
				}
				c := it.st.mut(a.o)
				x.noteWrite(a.o, "clear")
				for i := 0; i < a.len*s.es; i++ {
					c.cells[a.off+i] = x.ite(a.c, z[i%s.es], c.cells[a.off+i])
				}
			}
			return Tuple(nil)
		}
	}
	panic(bail("builtin " + name))
}

func (x *Exec) zeroIface() *IfaceV { return &IfaceV{alts: []IfAlt{{c: x.c.tT}}} }

// growCap reproduces the runtime's capacity growth for the element size.
func growCap(oldCap, oldLen, add, esBytes int) int {
	switch {
	case esBytes <= 1:
		s := make([]byte, oldLen, oldCap)
		return cap(append(s, make([]byte, add)...))
	case esBytes <= 8:
		s := make([]int64, oldLen, oldCap)
		return cap(append(s, make([]int64, add)...))
	case esBytes <= 16:
		s := make([][2]int64, oldLen, oldCap)
		return cap(append(s, make([][2]int64, add)...))
	}
	s := make([][3]int64, oldLen, oldCap)
	return cap(append(s, make([][3]int64, add)...))
}

func (f *frame) appendSlices(it *item, s, m *SliceV, t types.Type) Value {
	x := f.x
	et := t.Underlying().(*types.Slice).Elem()
	esBytes := 8
	if ty, ok := intTypeOf(et); ok {
		esBytes = int(ty.bits / 8)
	} else if _, ok := et.Underlying().(*types.Slice); ok {
		esBytes = 24
	} else if _, ok := et.Underlying().(*types.Interface); ok {
		esBytes = 16
	}
	var alts []SlAlt
	type wr struct {
		c    *Bool
		o    *Obj
		off  int
		vals []Value
	}
	var writes []wr
	var outgrown []*Obj
	for _, a := range s.alts {
		for _, b := range m.alts {
			c := x.c.And(a.c, b.c)
			if x.c.And(x.pcTop(), it.cond, c) == x.c.tF {
				continue
			}
			if a.rope != nil || b.rope != nil {
				// the result is a fresh rope; in-place growth of a rope is not modelled
				segs := x.segsOf(it.st, a)
				if a.rope == nil && (a.cap > a.len || a.o != nil && a.o.thin) {
					// a concrete slice with spare capacity may be written in place
					if a.o.init || a.o.id <= x.frozen {
						panic(bail("append of symbolic length to a shared slice with spare capacity"))
					}
					a.o.dead = true
				}
				r := &Rope{append(append([]Seg(nil), segs...), x.segsOf(it.st, b)...)}
				alts = append(alts, SlAlt{c: c, rope: r})
				continue
			}
			n := a.len + b.len
			var src []Value
			if b.len > 0 {
				cells := it.st.get(b.o).cells
				src = append([]Value(nil), cells[b.off:b.off+b.len*s.es]...)
			}
			if n <= a.cap {
				if b.len > 0 {
					writes = append(writes, wr{c, a.o, a.off + a.len*s.es, src})
				}
				alts = append(alts, SlAlt{c: c, o: a.o, off: a.off, len: n, cap: a.cap})
				continue
			}
			nc := growCap(a.cap, a.len, b.len, esBytes)
			cells := make([]Value, 0, nc*s.es)
			if a.len > 0 {
				old := it.st.get(a.o).cells
				cells = append(cells, old[a.off:a.off+a.len*s.es]...)
			}
			cells = append(cells, src...)
			z := x.zeroCells(et, nil)
			for i := n; i < nc; i++ {
				cells = append(cells, z...)
			}
			if a.o != nil && a.o.thin {
				cells, nc = cells[:n*s.es], n
			}
			o := x.newObj("append", cells, it.st)
			if a.o != nil && a.o.thin {
				o.thin = true
				outgrown = append(outgrown, a.o)
			}
			alts = append(alts, SlAlt{c: c, o: o, len: n, cap: nc})
		}
	}
	for _, o := range outgrown {
		o.dead = true
	}
	for _, w := range writes {
		c := it.st.mut(w.o)
		x.noteWrite(w.o, "append")
		g := w.c
		if len(s.alts)*len(m.alts) == 1 {
			g = x.c.tT
		}
		for i, v := range w.vals {
			c.cells[w.off+i] = x.ite(g, v, c.cells[w.off+i])
		}
	}
	if len(alts) == 0 {
		it.cond = x.c.tF
		return nil
	}
	return x.normSlice(s.es, alts)
}

func (x *Exec) segsOf(st *State, a SlAlt) []Seg {
	if a.rope != nil {
		return a.rope.segs
	}
	if a.len == 0 {
		return nil
	}
	return []Seg{{bytes: x.sliceBytes(st, a)}}
}

func (f *frame) copySlices(it *item, d, s *SliceV) Value {
	x := f.x
	var n *Poly
	type wr struct {
		c    *Bool
		o    *Obj
		off  int
		vals []Value
	}
	var writes []wr
	for _, a := range d.alts {
		for _, b := range s.alts {
			c := x.c.And(a.c, b.c)
			if x.c.And(x.pcTop(), it.cond, c) == x.c.tF {
				continue
			}
			if a.rope != nil || b.rope != nil {
				panic(bail("copy of symbolic length"))
			}
			k := a.len
			if b.len < k {
				k = b.len
			}
			if k > 0 {
				src := append([]Value(nil), it.st.get(b.o).cells[b.off:b.off+k*d.es]...)
				writes = append(writes, wr{c, a.o, a.off, src})
			}
			if n == nil {
				n = x.c.Int(int64(k))
			} else {
				n = x.c.Ite(c, x.c.Int(int64(k)), n)
			}
		}
	}
	single := len(d.alts)*len(s.alts) == 1
	for _, w := range writes {
		c := it.st.mut(w.o)
		x.noteWrite(w.o, "copy")
		for i, v := range w.vals {
			if single {
				c.cells[w.off+i] = v
			} else {
				c.cells[w.off+i] = x.ite(w.c, v, c.cells[w.off+i])
			}
		}
	}
	if n == nil {
		it.cond = x.c.tF
		return nil
	}
	return n
}
