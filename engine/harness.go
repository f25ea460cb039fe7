package main

// Loading of the code under test together with the harness files, the harness
// intrinsics, and one symbolic run of a harness.

import (
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const targetPath = "github.com/proximax-storage/go-xpx-crypto"
const utilsPath = "github.com/proximax-storage/go-xpx-utils"

type Loaded struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	execs   []*ssa.Package
	dropped []string // harness files that do not compile against this tree
	files   []string
}

var verifRoot = func() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}()
var repoRoot = func() string {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		return v
	}
	return "/repo"
}()

func goEnv(extra ...string) []string {
	env := os.Environ()
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOSUMDB=off")
	return append(env, extra...)
}

// modCopy places a copy of go.mod/go.sum in dir so that the loader never
// touches the repository's files.
func modCopy(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repoRoot, "go.mod"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), b, 0o644); err != nil {
		return "", err
	}
	if b, err = os.ReadFile(filepath.Join(repoRoot, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.sum"), b, 0o644)
	}
	return filepath.Join(dir, "go.mod"), nil
}

func harnessFiles() ([]string, error) {
	l, err := filepath.Glob(filepath.Join(verifRoot, "harness", "*.go"))
	sort.Strings(l)
	return l, err
}

func Load(tmp string) (*Loaded, error) {
	mf, err := modCopy(tmp)
	if err != nil {
		return nil, err
	}
	files, err := harnessFiles()
	if err != nil {
		return nil, err
	}
	drop := map[string]bool{}
	for try := 0; try < 8; try++ {
		overlay := map[string][]byte{}
		var used []string
		for _, f := range files {
			if drop[f] || strings.HasSuffix(f, "native.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(repoRoot, "zz_verif_"+filepath.Base(f))] = b
			used = append(used, f)
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoRoot, Env: goEnv(), BuildFlags: []string{"-modfile=" + mf}, Overlay: overlay}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		var bad []string
		var errs []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				if os.Getenv("VERIF_DBG") != "" {
					fmt.Fprintln(os.Stderr, e.Error())
				}
				base := filepath.Base(strings.SplitN(e.Pos, ":", 2)[0])
				if strings.HasPrefix(base, "zz_verif_") {
					bad = append(bad, filepath.Join(verifRoot, "harness", strings.TrimPrefix(base, "zz_verif_")))
				}
			}
		})
		if len(errs) > 0 {
			nw := false
			for _, b := range bad {
				if !drop[b] && !strings.HasSuffix(b, "api.go") {
					drop[b] = true
					nw = true
				}
			}
			if !nw {
				return nil, fmt.Errorf("the code under test does not load: %s", strings.Join(errs, "; "))
			}
			continue
		}
		prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		ld := &Loaded{prog: prog, pkg: ps[0], files: used}
		for d := range drop {
			ld.dropped = append(ld.dropped, filepath.Base(d))
		}
		sort.Strings(ld.dropped)
		for _, p := range prog.AllPackages() {
			switch p.Pkg.Path() {
			case targetPath, utilsPath, "io", "encoding/hex", "bytes", "crypto/subtle", "encoding/binary", "math/bits", "slices",
				"strings", "internal/stringslite", "unicode/utf8", "strconv", "cmp", "sort":
				p.Build()
				ld.execs = append(ld.execs, p)
			}
		}
		return ld, nil
	}
	return nil, fmt.Errorf("harness does not load")
}

// deadline of the whole check; obligations past it stay undecided
var deadline time.Time

// time for the symbolic execution of one run
var execLimit = 240 * time.Second

// RunSpec names one symbolic run.
type RunSpec struct {
	H       string
	Params  []int64
	Timeout int // seconds per obligation
	Tier    string
	Dep     bool // a specification of a lower layer that the property's encoding relies on
	OLen    int  // not 0: opaque inputs are byte strings of OLen-1 symbolic bytes
}

func (r RunSpec) String() string {
	s := r.H
	if len(r.Params) > 0 {
		s += fmt.Sprint(r.Params)
	}
	if r.OLen > 0 {
		s += fmt.Sprintf("{len %d}", r.OLen-1)
	}
	return s
}

type RunResult struct {
	Spec    RunSpec
	Err     string // engine could not encode
	Obs     []*Obligation
	Covered map[string]int
	Contr   map[string]int
	Steps   int64
	Secs    float64
	Queries int
	SolverS float64
	ByName  map[string]int
	Inputs  []Input
	Reach   map[string]string
	Wrote   map[string]string
	Vacuous bool
	Early   *replayOut // native run that confirmed an open obligation
	Opaque  bool       // has inputs of symbolic length
	Split   []int      // not decided for symbolic lengths, but for these
	x       *Exec
}

// rootCtx ends when a violation is confirmed and nothing more has to be decided.
var rootCtx, stopAll = context.WithCancel(context.Background())

const stopped = "stopped: a violation was confirmed by another run"

// onOpen replays an obligation that is not discharged (nil: the code could not
// be encoded) while the other runs go on; true: confirmed.
var onOpen func(res *RunResult, o *Obligation) bool

func (x *Exec) initPackages(ld *Loaded) *State {
	st := newState()
	for _, p := range ld.execs {
		x.execPkgs[p.Pkg.Path()] = true
	}
	x.inInit = true
	// only the packages of this project run their initialisers
	for _, p := range ld.execs {
		path := p.Pkg.Path()
		if path != utilsPath && path != targetPath {
			continue
		}
	}
	var done func(p *ssa.Package)
	done = func(p *ssa.Package) {
		if x.initDone[p] {
			return
		}
		x.initDone[p] = true
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			return
		}
		r := x.run(fn, nil, nil, st, x.c.tT)
		if r.cond == x.c.tF {
			panic(bail("package initialisation panics: " + x.panicStr(r.pval)))
		}
		st = r.st
	}
	x.prefix = nil
	// init of imported packages is intercepted: run ours, skip the rest
	for _, p := range x.prog.AllPackages() {
		p := p
		name := p.Pkg.Path() + ".init"
		x.handlers[name] = func(x *Exec, cl *callCtx) Value {
			if p.Pkg.Path() == utilsPath {
				if !x.initDone[p] {
					x.initDone[p] = true
					fn := p.Func("init")
					r := x.run(fn, nil, nil, cl.st, cl.cond)
					cl.st, cl.cond = r.st, r.cond
				}
			}
			return Tuple(nil)
		}
	}
	delete(x.handlers, targetPath+".init")
	done(ld.pkg)
	for _, p := range x.prog.AllPackages() {
		delete(x.handlers, p.Pkg.Path()+".init")
	}
	x.inInit = false
	st.freeze()
	return st
}

func (x *Exec) panicStr(v Value) string {
	if i, ok := v.(*IfaceV); ok {
		var l []string
		for _, a := range i.alts {
			if g, ok := a.v.(*Ghost); ok {
				l = append(l, fmt.Sprint(g.v))
			} else if s, ok := a.v.(*StrV); ok {
				t, _ := s.lit()
				l = append(l, t)
			} else if a.t != nil {
				l = append(l, a.t.String())
			}
		}
		return strings.Join(l, " | ")
	}
	return "panic"
}

func (x *Exec) addOb(label string, cond, good *Bool, pos string) {
	bad := x.c.And(x.pcTop(), cond, x.c.Not(good))
	x.obs = append(x.obs, &Obligation{label: label, pc: cond, bad: bad, pos: pos})
}

func litArg(v Value) string {
	s, ok := v.(*StrV).lit()
	if !ok {
		panic(bail("harness label must be a literal"))
	}
	return s
}

func (x *Exec) installAPI() {
	reg := func(n string, f handler) { x.handlers[targetPath+"."+n] = f }
	i64 := func(v Value) int64 {
		k, ok := v.(*Poly).Int64()
		if !ok {
			panic(bail("harness argument must be concrete"))
		}
		return k
	}
	reg("vReg", func(x *Exec, cl *callCtx) Value { return Tuple(nil) })
	reg("vParam", func(x *Exec, cl *callCtx) Value {
		i := i64(cl.args[0])
		return x.c.Int(x.params[fmt.Sprint(i)])
	})
	reg("vI64", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		lo, hi := i64(cl.args[1]), i64(cl.args[2])
		p := x.c.Var(n, bi(lo), bi(hi))
		x.inputs = append(x.inputs, Input{Name: n, Kind: "i64", P: p})
		return p
	})
	reg("vByte", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		p := x.c.Var(n, b0, bi(255))
		x.inputs = append(x.inputs, Input{Name: n, Kind: "i64", P: p})
		return p
	})
	reg("vBytes", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		k := int(i64(cl.args[1]))
		ps := make([]*Poly, k)
		for i := range ps {
			ps[i] = x.c.Var(fmt.Sprintf("%s[%d]", n, i), b0, bi(255))
		}
		x.inputs = append(x.inputs, Input{Name: n, Kind: "bytes", Ps: ps})
		return x.newBytes(n, ps, cl.st)
	})
	reg("vOpaque", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		x.opaque = true
		if x.olen > 0 {
			ps := make([]*Poly, x.olen-1)
			for i := range ps {
				ps[i] = x.c.Var(fmt.Sprintf("%s[%d]", n, i), b0, bi(255))
			}
			x.inputs = append(x.inputs, Input{Name: n, Kind: "string", Ps: ps})
			return x.newBytes(n, ps, cl.st)
		}
		ln := x.c.Var(n+".len", b0, pow2(40))
		ct := x.c.UF("content:"+n, nil, nil, nil)
		r := &Rope{[]Seg{{name: n, cont: ct, n: ln}}}
		x.inputs = append(x.inputs, Input{Name: n, Kind: "opaque", P: ln})
		return &SliceV{alts: []SlAlt{{c: x.c.tT, rope: r}}, es: 1}
	})
	reg("vBool", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		p := x.c.Var(n, b0, b1)
		x.inputs = append(x.inputs, Input{Name: n, Kind: "i64", P: p})
		return x.c.Not(x.c.EQ0(p))
	})
	reg("vBigN", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		lo, ok1 := x.bigLoad(cl, cl.args[1]).Const()
		hi, ok2 := x.bigLoad(cl, cl.args[2]).Const()
		if !ok1 || !ok2 {
			panic(bail("vBigN bounds"))
		}
		p := x.c.Var(n, lo, hi)
		x.inputs = append(x.inputs, Input{Name: n, Kind: "i64", P: p})
		return x.bigNew(cl.st, p)
	})
	reg("vAssume", func(x *Exec, cl *callCtx) Value {
		c := cl.args[0].(*Bool)
		cl.cond = x.c.And(cl.cond, c)
		return Tuple(nil)
	})
	reg("vAssert", func(x *Exec, cl *callCtx) Value {
		x.addOb(litArg(cl.args[1]), cl.cond, cl.args[0].(*Bool), x.posStr(cl.pos))
		return Tuple(nil)
	})
	reg("vReach", func(x *Exec, cl *callCtx) Value {
		l := litArg(cl.args[0])
		if o, ok := x.reach[l]; ok {
			x.reach[l] = x.c.Or(o, x.c.And(x.pcTop(), cl.cond))
		} else {
			x.reach[l] = x.c.And(x.pcTop(), cl.cond)
		}
		return Tuple(nil)
	})
	reg("vEqB", func(x *Exec, cl *callCtx) Value { return x.slicesEq(cl.st, cl.args[0], cl.args[1]) })
	reg("vLE", func(x *Exec, cl *callCtx) Value {
		b := x.bytesOf(cl.st, cl.args[0])
		return x.bigNew(cl.st, x.bytesInt(b))
	})
	// logical connectives that do not branch
	reg("vAnd", func(x *Exec, cl *callCtx) Value { return x.c.And(cl.args[0].(*Bool), cl.args[1].(*Bool)) })
	reg("vOr", func(x *Exec, cl *callCtx) Value { return x.c.Or(cl.args[0].(*Bool), cl.args[1].(*Bool)) })
	reg("vNot", func(x *Exec, cl *callCtx) Value { return x.c.Not(cl.args[0].(*Bool)) })
	reg("vIff", func(x *Exec, cl *callCtx) Value { return x.c.Iff(cl.args[0].(*Bool), cl.args[1].(*Bool)) })
	reg("vIteI", func(x *Exec, cl *callCtx) Value {
		return x.c.Ite(cl.args[0].(*Bool), cl.args[1].(*Poly), cl.args[2].(*Poly))
	})
	// congruence of integers: a = b (mod m), kept un-normalised for the solver
	reg("vCong", func(x *Exec, cl *callCtx) Value {
		a, b, m := x.bigLoad(cl, cl.args[0]), x.bigLoad(cl, cl.args[1]), constOf(x.bigLoad(cl, cl.args[2]), "modulus")
		if os.Getenv("VERIF_DBG") != "" {
			x.dbgCong(x.c.Sub(a, b), m)
		}
		return x.c.EQ0(x.c.Mod(x.c.Sub(a, b), m))
	})
	reg("vHashOf", func(x *Exec, cl *callCtx) Value {
		alg := litArg(cl.args[0])
		parts := cl.args[1].(*SliceV)
		var segs []Seg
		if len(parts.alts) != 1 {
			panic(bail("vHashOf parts"))
		}
		a := parts.alts[0]
		for i := 0; i < a.len; i++ {
			segs = append(segs, x.segsOfVal(cl.st, cl.st.get(a.o).cells[a.off+i])...)
		}
		return x.newBytes("spec-digest", x.digest(alg, segs), cl.st)
	})
	reg("vCBC", func(x *Exec, cl *callCtx) Value {
		enc := cl.args[0].(*Bool) == x.c.tT
		key, iv, data := x.bytesOf(cl.st, cl.args[1]), x.bytesOf(cl.st, cl.args[2]), x.bytesOf(cl.st, cl.args[3])
		out, _ := x.cbcRun(enc, key, iv, data)
		return x.newBytes("spec-cbc", out, cl.st)
	})
	// shared state of the package is as after initialisation
	reg("vSharedSame", func(x *Exec, cl *callCtx) Value {
		r := x.c.tT
		var os []*Obj
		for o := range cl.st.m {
			if o.init && cl.st.base[o] != nil {
				os = append(os, o)
			}
		}
		sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
		for _, o := range os {
			a, b := cl.st.m[o], cl.st.base[o]
			if a == b {
				continue
			}
			for i := range a.cells {
				if a.cells[i] == b.cells[i] || sameValue(a.cells[i], b.cells[i]) {
					continue
				}
				if _, ok := a.cells[i].(*Poly); ok {
					r = x.c.And(r, x.equal(cl.st, a.cells[i], b.cells[i], nil))
				} else {
					r = x.c.And(r, x.softEq(a.cells[i], b.cells[i]))
				}
			}
		}
		return r
	})
	reg("vNativeBool", func(x *Exec, cl *callCtx) Value { return x.c.tF })
	// write footprint: objects that exist at vFreeze
	reg("vFreeze", func(x *Exec, cl *callCtx) Value {
		x.frozen, x.frozenW = x.nobj, nil
		return Tuple(nil)
	})
	reg("vNoWrites", func(x *Exec, cl *callCtx) Value {
		return x.c.B(len(x.frozenW) == 0)
	})
	reg("vSharedSnap", func(x *Exec, cl *callCtx) Value { return Tuple(nil) })
	reg("vContracts", func(x *Exec, cl *callCtx) Value {
		x.mode = litArg(cl.args[0])
		x.installContracts(x.mode)
		return Tuple(nil)
	})
	// number of distinct objects a slice shares memory with another slice
	reg("vOverlap", func(x *Exec, cl *callCtx) Value {
		a, b := cl.args[0].(*SliceV), cl.args[1].(*SliceV)
		r := x.c.tF
		for _, p := range a.alts {
			for _, q := range b.alts {
				if p.rope != nil || q.rope != nil || p.o == nil || p.o != q.o {
					continue
				}
				// spare capacity counts: an append would reach it
				if p.off < q.off+q.len*b.es && q.off < p.off+p.len*a.es {
					r = x.c.Or(r, x.c.And(p.c, q.c))
				}
			}
		}
		return r
	})
	x.installGhostAPI()
	x.installGroupAPI()
}

// softEq: conditions under which two values are identical.
func (x *Exec) softEq(a, b Value) *Bool {
	switch u := a.(type) {
	case *PtrV:
		if v, ok := b.(*PtrV); ok {
			return x.equal(nil, u, v, nil)
		}
	case *SliceV:
		v, ok := b.(*SliceV)
		if !ok {
			return x.c.tF
		}
		r := x.c.tF
		for _, p := range u.alts {
			for _, q := range v.alts {
				if p.o == q.o && p.off == q.off && p.len == q.len && p.rope == q.rope {
					r = x.c.Or(r, x.c.And(p.c, q.c))
				}
			}
		}
		return r
	case *IfaceV:
		v, ok := b.(*IfaceV)
		if !ok {
			return x.c.tF
		}
		r := x.c.tF
		for _, p := range u.alts {
			for _, q := range v.alts {
				if identicalType(p.t, q.t) && (p.t == nil || sameValue(p.v, q.v)) {
					r = x.c.Or(r, x.c.And(p.c, q.c))
				}
			}
		}
		return r
	case *Bool:
		return x.c.Iff(u, b.(*Bool))
	case *StrV:
		return x.strEq(u, b.(*StrV))
	}
	return x.c.B(sameValue(a, b))
}

// RunHarness executes one harness symbolically and discharges its obligations.
func RunHarness(ld *Loaded, spec RunSpec) (res *RunResult) {
	res = &RunResult{Spec: spec, Reach: map[string]string{}, Wrote: map[string]string{}}
	t0 := time.Now()
	x := NewExec(ld.prog, ld.pkg)
	res.x = x
	x.olen = spec.OLen
	if spec.H == "H_Slide" {
		x.c.maxDom = 1 << 13
	}
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		res.Steps = x.steps
		res.Opaque = x.opaque
		res.Covered = x.covered
		res.Contr = x.contr
		res.Inputs = x.inputs
		if x.sv != nil {
			res.Queries, res.SolverS, res.ByName = x.sv.queries, x.sv.secs, x.sv.byName
		}
		if r := recover(); r != nil {
			defer func() {
				if onOpen != nil && res.Err != "" && rootCtx.Err() == nil {
					onOpen(res, nil)
				}
			}()
			if b, ok := r.(*bailErr); ok {
				res.Err = b.msg
				if rootCtx.Err() != nil {
					res.Err = stopped
				}
			} else {
				res.Err = fmt.Sprintf("engine: %v", r)
				if os.Getenv("VERIF_TRACE") != "" {
					debug.PrintStack()
				}
			}
			if len(x.callPos) > 0 {
				var l []string
				for i := len(x.callPos) - 1; i >= 0 && len(l) < 4; i-- {
					p := x.prog.Fset.Position(x.callPos[i])
					l = append(l, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
				}
				res.Err += " (at " + strings.Join(l, " < ") + ")"
			}
		}
	}()
	if !deadline.IsZero() {
		x.c.until = t0.Add(execLimit)
		if x.c.until.After(deadline) {
			x.c.until = deadline
		}
	}
	x.installStd()
	x.installAPI()
	st := x.initPackages(ld)
	x.steps = 0
	x.covered = map[string]int{}
	x.sv = NewSolver(x)
	fn := ld.pkg.Func(spec.H)
	if fn == nil {
		panic(bail("harness " + spec.H + " is not available for this tree"))
	}
	for i, p := range spec.Params {
		x.params[fmt.Sprint(i)] = p
	}
	r := x.run(fn, nil, nil, st, x.c.tT)
	x.callPos = nil
	if r.pcond != x.c.tF {
		x.obs = append(x.obs, &Obligation{label: "no panic (" + x.panicStr(r.pval) + ")", pc: r.pcond, bad: r.pcond})
	}
	res.Vacuous = r.cond == x.c.tF
	for o, w := range x.wrote {
		res.Wrote[o.name] = w
	}
	execS := time.Since(t0).Seconds()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "  %s: executed in %.1fs, %d steps, %d obligations, %d prune queries\n", spec, execS, x.steps, len(x.obs), x.sv.queries)
	}
	to := time.Duration(spec.Timeout) * time.Second
	if to == 0 {
		to = 60 * time.Second
	}
	if !deadline.IsZero() {
		x.c.until = deadline.Add(20 * time.Second)
	}
	res.Obs = x.obs
	for _, o := range x.obs {
		if o.bad == x.c.tF {
			o.stat = "normal-form"
			continue
		}
		if !deadline.IsZero() && time.Until(deadline) < to {
			if to = time.Until(deadline); to < time.Second {
				o.stat = "unknown"
				continue
			}
		}
		q0 := time.Now()
		rs, m, by := x.sv.Check([]*Bool{o.bad}, to, []string{"z3n", "cvc5", "z3"})
		o.secs = time.Since(q0).Seconds()
		o.solver = by
		switch rs {
		case "unsat":
			o.stat = "unsat"
		case "sat":
			o.stat = "sat"
			o.model = m
			res.Inputs = x.inputs
			o.assign = res.assign(o)
		default:
			o.stat = "unknown"
		}
		if rootCtx.Err() != nil {
			res.Err = stopped
			return res
		}
		if o.stat != "unsat" && onOpen != nil && onOpen(res, o) {
			return res
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "    %s %s: %s by %s in %.2fs\n", spec, o.label, o.stat, by, o.secs)
			if o.stat != "unsat" && os.Getenv("VERIF_VERBOSE") == "2" {
				fmt.Fprintf(os.Stderr, "      %s\n", x.c.bStr(o.bad, 6))
			}
		}
	}
	for l, c := range x.reach {
		if rootCtx.Err() != nil {
			break
		}
		if c == x.c.tF {
			res.Reach[l] = "unreachable"
			continue
		}
		rs, _, _ := x.sv.Check([]*Bool{c}, 20*time.Second, []string{"z3n", "cvc5"})
		res.Reach[l] = rs
	}
	return res
}

// assignment of the harness inputs in a solver model, for native replay.
func (r *RunResult) assign(o *Obligation) map[string]string {
	m := map[string]string{}
	put := func(n string) {
		if v, ok := o.model[n]; ok {
			m[n] = v.String()
		}
	}
	for _, in := range r.Inputs {
		switch in.Kind {
		case "bytes":
			for i := range in.Ps {
				put(fmt.Sprintf("%s[%d]", in.Name, i))
			}
		case "string":
			m[in.Name+".len"] = fmt.Sprint(len(in.Ps))
			for i := range in.Ps {
				put(fmt.Sprintf("%s[%d]", in.Name, i))
			}
		case "opaque":
			put(in.Name + ".len")
		default:
			put(in.Name)
		}
	}
	return m
}

var _ = json.Marshal
var _ = big.NewInt
var _ types.Type
