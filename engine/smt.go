package main

// SMT-LIB generation (linear integer arithmetic with booleans) and a race of
// the installed solvers over one query.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var solverSlots = make(chan struct{}, 9)

type SolverStats struct {
	queries, sat, unsat, unknown int64
	nanos                        int64
}

var gStats SolverStats

type Solver struct {
	x       *Exec
	c       *Ctx
	memo    map[int]bool
	queries int
	secs    float64
	short   time.Duration
	byName  map[string]int
}

func NewSolver(x *Exec) *Solver {
	return &Solver{x: x, c: x.c, memo: map[int]bool{}, short: 4 * time.Second, byName: map[string]int{}}
}

type smtOpts struct {
	linF     bool // encode field zero tests as linear congruences over monomials
	divDepth int  // 0: all Div atoms defined; n>0: only up to nesting n
	noAxioms bool
	flat     bool // emit divisions in their flattened form
	group    bool // merge monomials that always occur together (abstraction)
	near     int  // n>0: define only the Div atoms within n steps of the goal
	relax    int  // n>0: rationals, except for the Div atoms within n steps
	lazy     bool // field lemmas are added on demand
}

func (o smtOpts) tag() string {
	s := ""
	if o.linF {
		s += "+linF"
	}
	if o.divDepth > 0 {
		s += fmt.Sprintf("+depth%d", o.divDepth)
	}
	if o.flat {
		s += "+flat"
	}
	if o.group {
		s += "+group"
	}
	if o.near > 0 {
		s += fmt.Sprintf("+near%d", o.near)
	}
	if o.relax > 0 {
		s += fmt.Sprintf("+relax%d", o.relax)
	}
	return s
}

type smtGen struct {
	c      *Ctx
	o      smtOpts
	decl   bytes.Buffer
	defs   bytes.Buffer
	atoms  map[int32]bool
	monos  map[int32]bool
	bools  map[int]string
	fm     map[int]bool
	bnames map[int]string
	ufs    map[string][]*Atom
	preds  map[string][]*Bool
	encs   []*Atom
	flds   []*Atom
	fvan   int
	fz     []*Bool
	gz     []*Bool
	inputs []*Atom
	eqs    map[string]string
	nq     int
	depth  map[int32]int
	abst   bool
	grp    map[int32]int // monomial -> group
	grpIv  [][2]*big.Int
	grpDef map[int]bool
	far    map[int32]bool
	ints   map[int32]bool
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (g *smtGen) monoName(id int32) string {
	vs := g.c.monos[id].vars
	if len(vs) == 1 {
		g.atom(vs[0])
		return fmt.Sprintf("a%d", vs[0])
	}
	if !g.monos[id] {
		g.monos[id] = true
		lo, hi := g.c.monoBounds(id)
		fmt.Fprintf(&g.decl, "(declare-const m%d Int)\n", id)
		if lo != nil {
			fmt.Fprintf(&g.defs, "(assert (<= %s m%d %s))\n", smtInt(lo), id, smtInt(hi))
		}
		g.abst = true
		for _, v := range vs {
			if a := g.c.atoms[v]; a.kind == AVar {
				g.atom(v)
			}
		}
		// products with a 0/1 factor are exact
		if len(vs) == 2 {
			for k := 0; k < 2; k++ {
				a, b := g.c.atoms[vs[k]], g.c.atoms[vs[1-k]]
				if a.lo != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b1) <= 0 {
					g.atom(int32(a.id))
					g.atom(int32(b.id))
					fmt.Fprintf(&g.defs, "(assert (= m%d (ite (= a%d 0) 0 a%d)))\n", id, a.id, b.id)
					break
				}
			}
		}
	}
	return fmt.Sprintf("m%d", id)
}

func (g *smtGen) poly(p *Poly) string {
	if len(p.t) == 0 {
		return "0"
	}
	parts := make([]string, 0, len(p.t))
	var done map[int]bool
	for _, x := range p.t {
		if x.m == 0 {
			parts = append(parts, smtInt(x.c))
			continue
		}
		var n string
		if k, ok := g.grp[x.m]; ok {
			if done[k] {
				continue
			}
			if done == nil {
				done = map[int]bool{}
			}
			done[k] = true
			n = fmt.Sprintf("h%d", k)
			if !g.grpDef[k] {
				g.grpDef[k] = true
				fmt.Fprintf(&g.decl, "(declare-const %s Int)\n", n)
				fmt.Fprintf(&g.defs, "(assert (<= %s %s %s))\n", smtInt(g.grpIv[k][0]), n, smtInt(g.grpIv[k][1]))
			}
		} else {
			n = g.monoName(x.m)
		}
		if x.c.Cmp(b1) == 0 {
			parts = append(parts, n)
		} else {
			parts = append(parts, "(* "+smtInt(x.c)+" "+n+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (g *smtGen) atom(id int32) {
	if g.atoms[id] {
		return
	}
	g.atoms[id] = true
	a := g.c.atoms[id]
	n := fmt.Sprintf("a%d", id)
	if g.ints[id] {
		fmt.Fprintf(&g.decl, "(declare-const i%d INT)\n(define-fun %s () Real (to_real i%d))\n", id, n, id)
	} else {
		fmt.Fprintf(&g.decl, "(declare-const %s Int)\n", n)
	}
	if a.lo != nil && a.hi != nil {
		fmt.Fprintf(&g.defs, "(assert (<= %s %s %s))\n", smtInt(a.lo), n, smtInt(a.hi))
	}
	switch a.kind {
	case AVar:
		g.inputs = append(g.inputs, a)
		if a.dom != nil {
			fmt.Fprintf(&g.defs, "(assert %s)\n", memberStr(n, a.dom))
		}
	case ADiv:
		if g.o.divDepth > 0 && g.divNest(a) > g.o.divDepth || g.far[id] {
			g.abst = true
			return
		}
		arg, am := a.divArg(g.o.flat)
		p := g.poly(arg)
		// m*q <= p <= m*q+m-1
		fmt.Fprintf(&g.defs, "(assert (<= (* %s %s) %s))\n", am, n, p)
		fmt.Fprintf(&g.defs, "(assert (<= %s (+ (* %s %s) %s)))\n", p, am, n, new(big.Int).Sub(am, b1))
	case ATab:
		fmt.Fprintf(&g.defs, "(assert (= %s %s))\n", n, g.table(g.poly(a.base.p), a.base.dom, a.vals))
	case AGate:
		fmt.Fprintf(&g.defs, "(assert (= %s (ite %s %s 0)))\n", n, g.boolStr(a.cond), g.poly(a.args[0]))
	case AUF:
		if a.name == "sgn" {
			d := g.poly(a.args[0])
			fmt.Fprintf(&g.defs, "(assert (= %s (ite (> %s 0) 1 (ite (< %s 0) (- 1) 0))))\n", n, d, d)
			return
		}
		k := fmt.Sprintf("%s/%d", a.name, len(a.args))
		for _, p := range a.args {
			g.poly(p)
		}
		g.ufs[k] = append(g.ufs[k], a)
	case ABit:
		g.bits(a, n)
	case AField:
		g.flds = append(g.flds, a)
	case AEnc:
		g.encs = append(g.encs, a)
	}
}

func (a *Atom) divArg(flat bool) (*Poly, *big.Int) {
	if a.orig != nil && !flat {
		return a.orig, a.om
	}
	return a.args[0], a.m
}

func (g *smtGen) divNest(a *Atom) int {
	if d, ok := g.depth[int32(a.id)]; ok {
		return d
	}
	g.depth[int32(a.id)] = 0
	d := 0
	arg, _ := a.divArg(g.o.flat)
	for _, x := range arg.t {
		for _, v := range g.c.monos[x.m].vars {
			if b := g.c.atoms[v]; b.kind == ADiv {
				if k := g.divNest(b); k > d {
					d = k
				}
			}
		}
	}
	g.depth[int32(a.id)] = d + 1
	return d + 1
}

func (g *smtGen) bits(a *Atom, n string) {
	if a.name == "and" || a.name == "xor" || a.name == "or" {
		var bs [][]string
		for _, p := range a.args {
			s := g.poly(p)
			var l []string
			if k, ok := p.Const(); ok {
				for i := 0; i < a.wid; i++ {
					l = append(l, fmt.Sprintf("%d", k.Bit(i)))
				}
			} else {
				var sum []string
				for i := 0; i < a.wid; i++ {
					nm := g.bitVar(s, i)
					l = append(l, nm)
					sum = append(sum, fmt.Sprintf("(* %s %s)", pow2(uint(i)), nm))
				}
				key := "bits:" + s
				if _, ok := g.eqs[key]; !ok || g.eqs[key] < fmt.Sprintf("%04d", a.wid) {
					g.eqs[key] = fmt.Sprintf("%04d", a.wid)
					fmt.Fprintf(&g.defs, "(assert (= %s (+ 0 %s)))\n", s, strings.Join(sum, " "))
				}
			}
			bs = append(bs, l)
		}
		var sum []string
		for i := 0; i < a.wid; i++ {
			cur := bs[0][i]
			for _, l := range bs[1:] {
				if a.name == "and" {
					cur = fmt.Sprintf("(ite (= %s 0) 0 %s)", cur, l[i])
				} else if a.name == "or" {
					cur = fmt.Sprintf("(ite (= %s 1) 1 %s)", cur, l[i])
				} else {
					cur = fmt.Sprintf("(ite (= %s %s) 0 1)", cur, l[i])
				}
			}
			sum = append(sum, fmt.Sprintf("(* %s %s)", pow2(uint(i)), cur))
		}
		fmt.Fprintf(&g.defs, "(assert (= %s (+ 0 %s)))\n", n, strings.Join(sum, " "))
	}
}

func (g *smtGen) bitVar(s string, i int) string {
	k := fmt.Sprintf("bit%d:%s", i, s)
	if v, ok := g.eqs[k]; ok {
		return v
	}
	g.nq++
	v := fmt.Sprintf("b%d", g.nq)
	g.eqs[k] = v
	fmt.Fprintf(&g.decl, "(declare-const %s Int)\n", v)
	fmt.Fprintf(&g.defs, "(assert (<= 0 %s 1))\n", v)
	return v
}

func memberStr(n string, dom []int64) string {
	var parts []string
	for i := 0; i < len(dom); {
		j := i
		for j+1 < len(dom) && dom[j+1] == dom[j]+1 {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s %s)", n, smtInt(bi(dom[i]))))
		} else {
			parts = append(parts, fmt.Sprintf("(<= %s %s %s)", smtInt(bi(dom[i])), n, smtInt(bi(dom[j]))))
		}
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

// table as a piecewise linear function.
func (g *smtGen) table(p string, dom []int64, vals []*big.Int) string {
	type piece struct {
		hi   int64
		expr string
	}
	var ps []piece
	n := len(dom)
	for i := 0; i < n; {
		j := i
		if i+1 < n {
			d := new(big.Int).Sub(vals[i+1], vals[i])
			w := dom[i+1] - dom[i]
			k, r := new(big.Int).QuoRem(d, bi(w), new(big.Int))
			if r.Sign() == 0 {
				j = i + 1
				for j+1 < n {
					e := new(big.Int).Mul(k, bi(dom[j+1]-dom[i]))
					e.Add(e, vals[i])
					if e.Cmp(vals[j+1]) != 0 {
						break
					}
					j++
				}
				off := new(big.Int).Sub(vals[i], new(big.Int).Mul(k, bi(dom[i])))
				if k.Sign() == 0 {
					ps = append(ps, piece{dom[j], smtInt(vals[i])})
				} else {
					ps = append(ps, piece{dom[j], fmt.Sprintf("(+ (* %s %s) %s)", smtInt(k), p, smtInt(off))})
				}
				i = j + 1
				continue
			}
		}
		ps = append(ps, piece{dom[i], smtInt(vals[i])})
		i++
	}
	s := ps[len(ps)-1].expr
	for i := len(ps) - 2; i >= 0; i-- {
		s = fmt.Sprintf("(ite (<= %s %s) %s %s)", p, smtInt(bi(ps[i].hi)), ps[i].expr, s)
	}
	return s
}

func (g *smtGen) boolStr(b *Bool) string {
	switch b.k {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	}
	if s, ok := g.bools[b.id]; ok {
		return s
	}
	var s string
	switch b.k {
	case BNot:
		s = "(not " + g.boolStr(b.a[0]) + ")"
	case BAnd, BOr:
		op := "and"
		if b.k == BOr {
			op = "or"
		}
		var l []string
		for _, x := range b.a {
			l = append(l, g.boolStr(x))
		}
		s = "(" + op + " " + strings.Join(l, " ") + ")"
	case BGE0:
		p := g.poly(b.p)
		s = "(>= " + p + " 0)"
		if g.o.relax > 0 {
			return g.relaxed(b, s, "(<= "+p+" (- 1))")
		}
	case BEQ0:
		p := g.poly(b.p)
		s = "(= " + p + " 0)"
		if g.o.relax > 0 {
			return g.relaxed(b, s, "(or (<= "+p+" (- 1)) (>= "+p+" 1))")
		}
	case BSet:
		var dom []int64
		for i, v := range b.base.dom {
			if b.set[i] {
				dom = append(dom, v)
			}
		}
		s = memberStr(g.poly(b.base.p), dom)
	case BFZero:
		n := fmt.Sprintf("f%d", b.id)
		fmt.Fprintf(&g.decl, "(declare-const %s Bool)\n", n)
		g.bools[b.id] = n
		g.fz = append(g.fz, b)
		return n
	case BGZero:
		n := fmt.Sprintf("g%d", b.id)
		fmt.Fprintf(&g.decl, "(declare-const %s Bool)\n", n)
		g.bools[b.id] = n
		g.gz = append(g.gz, b)
		return n
	case BPred:
		n := fmt.Sprintf("p%d", b.id)
		fmt.Fprintf(&g.decl, "(declare-const %s Bool)\n", n)
		g.bools[b.id] = n
		for _, p := range b.args {
			g.poly(p)
		}
		k := fmt.Sprintf("%s/%d", b.name, len(b.args))
		g.preds[k] = append(g.preds[k], b)
		return n
	default:
		panic("boolStr")
	}
	// share large formulas
	if len(s) > 60 {
		n := fmt.Sprintf("c%d", b.id)
		fmt.Fprintf(&g.decl, "(declare-const %s Bool)\n", n)
		fmt.Fprintf(&g.defs, "(assert (= %s %s))\n", n, s)
		s = n
	}
	g.bools[b.id] = s
	return s
}

// relaxed names an integer comparison so that its negation stays sharp over
// the rationals.
func (g *smtGen) relaxed(b *Bool, pos, neg string) string {
	n := fmt.Sprintf("c%d", b.id)
	fmt.Fprintf(&g.decl, "(declare-const %s Bool)\n", n)
	fmt.Fprintf(&g.defs, "(assert (=> %s %s))\n(assert (=> (not %s) %s))\n", n, pos, n, neg)
	g.bools[b.id] = n
	return n
}

func (g *smtGen) argEq(x, y []*Poly) (string, bool) {
	var l []string
	for i := range x {
		e := g.c.Eq(x[i], y[i])
		if e == g.c.tF {
			return "", false
		}
		if e == g.c.tT {
			continue
		}
		l = append(l, g.boolStr(e))
	}
	switch len(l) {
	case 0:
		return "true", true
	case 1:
		return l[0], true
	}
	return "(and " + strings.Join(l, " ") + ")", true
}

func (g *smtGen) fmono(id int) string {
	if id == 0 {
		return "1"
	}
	n := fmt.Sprintf("x%d", id)
	if !g.fm[id] {
		g.fm[id] = true
		fmt.Fprintf(&g.decl, "(declare-const %s Int)\n", n)
		fmt.Fprintf(&g.defs, "(assert (<= 0 %s %s))\n", n, new(big.Int).Sub(fieldP, b1))
		g.abst = true
	}
	return n
}

// fpoly as an integer sum with symmetric coefficients.
func (g *smtGen) fpoly(p *FPoly) string {
	half := new(big.Int).Rsh(fieldP, 1)
	l := []string{"0"}
	for _, t := range p.t {
		v := t.c
		if v.Cmp(half) > 0 {
			v = new(big.Int).Sub(v, fieldP)
		}
		l = append(l, "(* "+smtInt(v)+" "+g.fmono(t.m)+")")
	}
	return "(+ " + strings.Join(l, " ") + ")"
}

func (g *smtGen) freshInt() string {
	g.nq++
	n := fmt.Sprintf("k%d", g.nq)
	fmt.Fprintf(&g.decl, "(declare-const %s Int)\n", n)
	return n
}

// close emits the side conditions of uninterpreted symbols until nothing new
// appears.
func (g *smtGen) close(axioms []*Bool) {
	du, dp := map[string]int{}, map[string]int{}
	de, df, dz, dx := 0, 0, 0, 0
	usedAx := map[int]bool{}
	linked := map[string]bool{}
	for round := 0; round < 50; round++ {
		ch := false
		for k, l := range g.ufs {
			for ; du[k] < len(l); du[k]++ {
				a := l[du[k]]
				for _, b := range l[:du[k]] {
					if e, ok := g.argEq(a.args, b.args); ok {
						fmt.Fprintf(&g.defs, "(assert (=> %s (= a%d a%d)))\n", e, a.id, b.id)
					}
				}
				ch = true
			}
			l = g.ufs[k]
		}
		for k, l := range g.preds {
			for ; dp[k] < len(l); dp[k]++ {
				a := l[dp[k]]
				for _, b := range l[:dp[k]] {
					if e, ok := g.argEq(a.args, b.args); ok {
						fmt.Fprintf(&g.defs, "(assert (=> %s (= p%d p%d)))\n", e, a.id, b.id)
					}
				}
				ch = true
			}
		}
		for ; de < len(g.encs); de++ {
			a := g.encs[de]
			for _, b := range g.encs[:de] {
				z := g.c.GZero(g.c.gSub(a.grp, b.grp))
				fmt.Fprintf(&g.defs, "(assert (= %s (= a%d a%d)))\n", g.boolStr(z), a.id, b.id)
			}
			ch = true
		}
		for ; df < len(g.flds); df++ {
			a := g.flds[df]
			if g.o.linF {
				fmt.Fprintf(&g.defs, "(assert (= %s (+ a%d (* %s %s))))\n", g.fpoly(a.fp), a.id, fieldP, g.freshInt())
			}
			for _, b := range g.flds[:df] {
				z := g.c.FZero(g.c.f.Sub(a.fp, b.fp))
				fmt.Fprintf(&g.defs, "(assert (= %s (= a%d a%d)))\n", g.boolStr(z), a.id, b.id)
			}
			if !linked[fmt.Sprint("z", a.id)] {
				linked[fmt.Sprint("z", a.id)] = true
				z := g.c.FZero(a.fp)
				fmt.Fprintf(&g.defs, "(assert (= %s (= a%d 0)))\n", g.boolStr(z), a.id)
			}
			ch = true
		}
		if g.o.linF {
			for ; dz < len(g.fz); dz++ {
				b := g.fz[dz]
				r, q := g.freshInt(), g.freshInt()
				fmt.Fprintf(&g.defs, "(assert (= %s (+ %s (* %s %s))))\n", g.fpoly(b.fp), r, fieldP, q)
				fmt.Fprintf(&g.defs, "(assert (and (<= 0 %s) (< %s %s) (= f%d (= %s 0))))\n", r, r, fieldP, b.id, r)
				ch = true
			}
		}
		// an element known to vanish simplifies the other vanishing tests
		for ; dx < len(g.fz) && len(g.fz) < 40 && !g.o.lazy; dx++ {
			for _, b := range g.fz[:dx] {
				g.vanish(g.fz[dx], b)
				g.vanish(b, g.fz[dx])
			}
			ch = true
		}
		if !g.o.noAxioms {
			for _, ax := range axioms {
				if usedAx[ax.id] || !g.touches(ax, map[int]bool{}) {
					continue
				}
				usedAx[ax.id] = true
				fmt.Fprintf(&g.defs, "(assert %s)\n", g.boolStr(ax))
				ch = true
			}
		}
		if !ch {
			return
		}
	}
}

// vanish: h = 0 => (q = 0 <=> q mod h = 0).
func (g *smtGen) vanish(h, q *Bool) {
	f := g.c.f
	r, used := f.reduce(q.fp, append([]*FPoly{h.fp}, f.hyps...))
	if len(used) == 0 || r == q.fp {
		return
	}
	z := g.c.FZero(r)
	if z == q {
		return
	}
	if g.fvan > 60 {
		return
	}
	g.fvan++
	fmt.Fprintf(&g.defs, "(assert (=> %s (= %s %s)))\n", g.boolStr(h), g.boolStr(q), g.boolStr(z))
}

// touches: some atom or named boolean of b already occurs in the query.
func (g *smtGen) touches(b *Bool, seen map[int]bool) bool {
	if seen[b.id] {
		return false
	}
	seen[b.id] = true
	if _, ok := g.bools[b.id]; ok && (b.k == BFZero || b.k == BGZero || b.k == BPred) {
		return true
	}
	tp := func(p *Poly) bool {
		if p == nil {
			return false
		}
		for _, x := range p.t {
			for _, v := range g.c.monos[x.m].vars {
				if g.atoms[v] {
					return true
				}
			}
		}
		return false
	}
	if tp(b.p) || (b.base != nil && tp(b.base.p)) {
		return true
	}
	for _, p := range b.args {
		if tp(p) {
			return true
		}
	}
	for _, y := range b.a {
		if g.touches(y, seen) {
			return true
		}
	}
	return false
}

func (s *Solver) script(asserts []*Bool, o smtOpts) (string, *smtGen) {
	g := &smtGen{c: s.c, o: o, atoms: map[int32]bool{}, monos: map[int32]bool{}, bools: map[int]string{}, fm: map[int]bool{}, ufs: map[string][]*Atom{}, preds: map[string][]*Bool{}, eqs: map[string]string{}, depth: map[int32]int{}}
	if o.near > 0 || o.relax > 0 {
		s.farDivs(g, asserts)
	}
	if o.group {
		s.group(g, asserts)
	}
	var top bytes.Buffer
	for _, b := range asserts {
		fmt.Fprintf(&top, "(assert %s)\n", g.boolStr(b))
	}
	g.close(s.c.axioms)
	var out bytes.Buffer
	out.Write(g.decl.Bytes())
	out.Write(g.defs.Bytes())
	out.Write(top.Bytes())
	if o.relax > 0 {
		r := strings.ReplaceAll(out.String(), " Int)", " Real)")
		r = numRe.ReplaceAllString(r, "$1$2.0")
		r = strings.ReplaceAll(r, " INT)", " Int)")
		return r, g
	}
	return out.String(), g
}

// farDivs finds the Div atoms more than o.near definitions away from the goal.
func (s *Solver) farDivs(g *smtGen, asserts []*Bool) {
	dist := map[int32]int{}
	var queue []int32
	var visit func(p *Poly, d int)
	seenB := map[int]bool{}
	visit = func(p *Poly, d int) {
		if p == nil {
			return
		}
		for _, x := range p.t {
			for _, v := range s.c.monos[x.m].vars {
				if _, ok := dist[v]; !ok {
					dist[v] = d
					queue = append(queue, v)
				}
			}
		}
	}
	var vb func(b *Bool, d int)
	vb = func(b *Bool, d int) {
		if seenB[b.id] {
			return
		}
		seenB[b.id] = true
		visit(b.p, d)
		if b.base != nil {
			visit(b.base.p, d)
		}
		for _, p := range b.args {
			visit(p, d)
		}
		for _, y := range b.a {
			vb(y, d)
		}
	}
	for _, b := range asserts {
		vb(b, 1)
	}
	g.far, g.ints = map[int32]bool{}, map[int32]bool{}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		a, d := s.c.atoms[v], dist[v]
		if a.kind == ADiv {
			if g.o.near > 0 && d > g.o.near {
				g.far[v] = true
				continue
			}
			if d <= g.o.relax {
				g.ints[v] = true
			}
			p, _ := a.divArg(g.o.flat)
			visit(p, d+1)
			continue
		}
		for _, p := range a.args {
			visit(p, d)
		}
		if a.base != nil {
			visit(a.base.p, d)
		}
		if a.cond != nil {
			vb(a.cond, d)
		}
	}
}

// group merges monomials (products, and input variables) that occur with the
// same coefficients in every linear form of the query into one variable that
// ranges over the sum of their intervals. Every concrete assignment of the
// original query is one of the merged query, so unsat carries over.
func (s *Solver) group(g *smtGen, asserts []*Bool) {
	sig := map[int32][]string{}
	bad := map[int32]bool{}
	nf := 0
	seen := map[*Poly]bool{}
	form := func(p *Poly) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		nf++
		for _, x := range p.t {
			if x.m == 0 {
				continue
			}
			vs := s.c.monos[x.m].vars
			if len(vs) == 1 {
				if a := s.c.atoms[vs[0]]; !(a.kind == AVar && a.dom == nil) && !g.far[vs[0]] {
					continue
				}
			}
			sig[x.m] = append(sig[x.m], fmt.Sprintf("%d:%s", nf, x.c))
		}
	}
	s.walk(asserts, func(b *Bool) {
		form(b.p)
		if b.base != nil {
			form(b.base.p)
		}
		for _, p := range b.args {
			form(p)
		}
	}, func(a *Atom) {
		if a.kind == ADiv {
			if !g.far[int32(a.id)] {
				p, _ := a.divArg(g.o.flat)
				form(p)
			}
			return
		}
		for _, p := range a.args {
			form(p)
		}
		if a.base != nil {
			form(a.base.p)
		}
		if a.kind == ABit || a.kind == AField || a.kind == AEnc {
			for _, p := range a.args {
				for _, x := range p.t {
					bad[x.m] = true
				}
			}
		}
	})
	byKey := map[string][]int32{}
	var keys []string
	for m, l := range sig {
		if bad[m] {
			continue
		}
		if lo, _ := s.c.monoBounds(m); lo == nil {
			continue
		}
		sort.Strings(l)
		k := strings.Join(l, ";")
		if byKey[k] == nil {
			keys = append(keys, k)
		}
		byKey[k] = append(byKey[k], m)
	}
	sort.Strings(keys)
	g.grp, g.grpDef = map[int32]int{}, map[int]bool{}
	for _, k := range keys {
		l := byKey[k]
		if len(l) < 2 {
			continue
		}
		lo, hi := new(big.Int), new(big.Int)
		for _, m := range l {
			a, b := s.c.monoBounds(m)
			lo.Add(lo, a)
			hi.Add(hi, b)
			g.grp[m] = len(g.grpIv)
		}
		g.grpIv = append(g.grpIv, [2]*big.Int{lo, hi})
		g.abst = true
	}
}

var numRe = regexp.MustCompile(`([ (])([0-9]+)\b`)

type solverCmd struct {
	name string
	args []string
	pre  string
}

var solverCmds = map[string]solverCmd{
	"z3":   {"z3", []string{"-in"}, ""},
	"z3n":  {"z3-new", []string{"-in"}, ""},
	"cvc5": {"cvc5", []string{"--lang", "smt2", "--produce-models"}, "(set-logic QF_LIRA)\n"},
	// bit-blasted search finds models where the default core only refutes
	"z3s": {"z3-new", []string{"-in", "smt.random_seed=7", "smt.arith.solver=2"}, ""},
}

func haveSolver(n string) bool {
	_, err := exec.LookPath(solverCmds[n].name)
	return err == nil
}

type answer struct {
	res   string
	out   string
	name  string
	secs  float64
	exact bool
	gen   *smtGen
}

var dumpDir = os.Getenv("VERIF_DUMP")
var dumpN int64

func runSolver(ctx context.Context, name, script string, inputs []*Atom, d time.Duration, extra ...string) answer {
	select {
	case solverSlots <- struct{}{}:
	case <-ctx.Done():
		return answer{res: "unknown", name: name}
	}
	defer func() { <-solverSlots }()
	sc := solverCmds[name]
	var sb bytes.Buffer
	sb.WriteString(sc.pre)
	if name != "cvc5" {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString(script)
	sb.WriteString("(check-sat)\n")
	if len(inputs)+len(extra) > 0 {
		sb.WriteString("(get-value (")
		for _, n := range extra {
			sb.WriteString(n + " ")
		}
		for _, a := range inputs {
			fmt.Fprintf(&sb, "a%d ", a.id)
		}
		sb.WriteString("))\n")
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d_%s.smt2", n, name)), sb.Bytes(), 0o644)
	}
	cctx, cancel := context.WithTimeout(ctx, d)
	defer cancel()
	cmd := exec.CommandContext(cctx, sc.name, sc.args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Stdin = &sb
	t0 := time.Now()
	out, _ := cmd.Output()
	secs := time.Since(t0).Seconds()
	res := "unknown"
	o := string(out)
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	switch first {
	case "sat":
		res = "sat"
	case "unsat":
		res = "unsat"
	default:
		if strings.Contains(o, "(error") {
			res = "error"
		}
	}
	return answer{res: res, out: o, name: name, secs: secs}
}

func parseModel(out string, c *Ctx) map[string]*big.Int {
	m := map[string]*big.Int{}
	i := strings.Index(out, "((")
	if i < 0 {
		return m
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(out[i:]))
	for k := 0; k < len(toks); k++ {
		t := toks[k]
		if len(t) < 2 || t[0] != 'a' {
			continue
		}
		var id int
		if _, err := fmt.Sscanf(t, "a%d", &id); err != nil {
			continue
		}
		neg := false
		j := k + 1
		for j < len(toks) && (toks[j] == "(" || toks[j] == "-") {
			if toks[j] == "-" {
				neg = true
			}
			j++
		}
		if j < len(toks) {
			if v, ok := new(big.Int).SetString(toks[j], 10); ok {
				if neg {
					v.Neg(v)
				}
				m[c.atoms[id].name] = v
			}
		}
		k = j
	}
	return m
}

// Check decides satisfiability of the conjunction. Variants of the encoding
// are raced; sat is only believed from an encoding, the model is always
// replayed natively by the caller.
func (s *Solver) Check(asserts []*Bool, d time.Duration, names []string) (string, map[string]*big.Int, string) {
	for _, b := range asserts {
		if b == s.c.tF {
			return "unsat", nil, "normal form"
		}
	}
	type job struct {
		name string
		o    smtOpts
	}
	var jobs []job
	hasF := s.mentionsField(asserts)
	nest := s.maxDivNest(asserts)
	if len(names) > 1 || !s.hasProducts(asserts) {
		for _, n := range names {
			jobs = append(jobs, job{n, smtOpts{}})
		}
	} else {
		// pruning only profits from unsat: the abstraction is enough
		jobs = append(jobs, job{"z3n", smtOpts{group: true}}, job{"z3n", smtOpts{group: true, flat: true, relax: 1}})
	}
	if hasF && len(names) > 1 {
		jobs = append(jobs, job{"z3n", smtOpts{linF: true}}, job{"cvc5", smtOpts{linF: true}})
	}
	if len(names) > 1 && s.hasOrig(asserts) {
		jobs = append(jobs, job{"z3n", smtOpts{flat: true}}, job{"cvc5", smtOpts{flat: true}})
	}
	if len(names) > 1 && s.hasProducts(asserts) {
		jobs = append(jobs, job{"z3n", smtOpts{group: true}}, job{"cvc5", smtOpts{group: true}})
		if s.hasOrig(asserts) {
			jobs = append(jobs, job{"z3n", smtOpts{group: true, flat: true}}, job{"cvc5", smtOpts{group: true, flat: true}})
		}
		for _, fl := range []bool{false, true} {
			for _, n := range []int{1, 3} {
				jobs = append(jobs, job{"z3n", smtOpts{group: true, flat: fl, relax: n}}, job{"cvc5", smtOpts{group: true, flat: fl, relax: n}})
			}
		}
	}
	if nest > 3 && len(names) > 1 {
		for _, dd := range []int{2, 4, 7} {
			if dd < nest {
				jobs = append(jobs, job{"z3n", smtOpts{divDepth: dd}}, job{"cvc5", smtOpts{divDepth: dd}})
			}
		}
	}
	ctx, cancel := context.WithTimeout(rootCtx, 2*d+20*time.Second)
	defer cancel()
	t0 := time.Now()
	if hasF && len(names) > 1 {
		if res, m := s.lazyField(asserts, d); res == "unsat" || res == "sat" && !s.hasProducts(asserts) {
			return s.done(res, "z3n+field", m, t0)
		}
	}
	ch := make(chan answer, len(jobs))
	scripts := map[smtOpts]string{}
	gens := map[smtOpts]*smtGen{}
	for _, j := range jobs {
		if _, ok := scripts[j.o]; !ok {
			scripts[j.o], gens[j.o] = s.script(asserts, j.o)
		}
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			var a answer
			// a short round first, so that no variant waits behind slow ones
			if first := 12 * time.Second; len(jobs) > 8 && d > 2*first {
				a = runSolver(ctx, j.name, scripts[j.o], gens[j.o].inputs, first)
				if a.res != "sat" && a.res != "unsat" && a.res != "error" && ctx.Err() == nil {
					a = runSolver(ctx, j.name, scripts[j.o], gens[j.o].inputs, d)
				}
			} else {
				a = runSolver(ctx, j.name, scripts[j.o], gens[j.o].inputs, d)
			}
			if j.o != (smtOpts{}) {
				a.name += j.o.tag()
			}
			a.exact = j.o.divDepth == 0 && !j.o.group && j.o.near == 0 && j.o.relax == 0
			a.gen = gens[j.o]
			ch <- a
		}(j)
	}
	res, by := "unknown", ""
	var model map[string]*big.Int
	weak := map[string]*big.Int(nil)
	for k := 0; k < len(jobs); k++ {
		a := <-ch
		if a.res == "unsat" {
			res, by = "unsat", a.name
			break
		}
		if a.res == "sat" {
			m := parseModel(a.out, s.c)
			if a.exact && !(hasF && !a.gen.o.linF && len(names) > 1) {
				res, by, model = "sat", a.name, m
				break
			}
			weak = m
		}
	}
	cancel()
	if res == "unknown" && weak != nil && hasF {
		res, by, model = "sat", "abstract", weak
	}
	return s.done(res, by, model, t0)
}

func (s *Solver) done(res, by string, model map[string]*big.Int, t0 time.Time) (string, map[string]*big.Int, string) {
	s.queries++
	dt := time.Since(t0)
	s.secs += dt.Seconds()
	s.byName[by]++
	atomic.AddInt64(&gStats.queries, 1)
	atomic.AddInt64(&gStats.nanos, int64(dt))
	switch res {
	case "sat":
		atomic.AddInt64(&gStats.sat, 1)
	case "unsat":
		atomic.AddInt64(&gStats.unsat, 1)
	default:
		atomic.AddInt64(&gStats.unknown, 1)
	}
	return res, model, by
}

func (s *Solver) walk(asserts []*Bool, fb func(*Bool), fa func(*Atom)) {
	sb, sa := map[int]bool{}, map[int32]bool{}
	var vb func(*Bool)
	var vp func(*Poly)
	vp = func(p *Poly) {
		if p == nil {
			return
		}
		for _, x := range p.t {
			for _, v := range s.c.monos[x.m].vars {
				if sa[v] {
					continue
				}
				sa[v] = true
				a := s.c.atoms[v]
				if fa != nil {
					fa(a)
				}
				for _, q := range a.args {
					vp(q)
				}
				vp(a.orig)
				if a.cond != nil {
					vb(a.cond)
				}
				if a.base != nil {
					vp(a.base.p)
				}
			}
		}
	}
	vb = func(b *Bool) {
		if sb[b.id] {
			return
		}
		sb[b.id] = true
		if fb != nil {
			fb(b)
		}
		vp(b.p)
		if b.base != nil {
			vp(b.base.p)
		}
		for _, p := range b.args {
			vp(p)
		}
		for _, y := range b.a {
			vb(y)
		}
	}
	for _, b := range asserts {
		vb(b)
	}
}

func (s *Solver) mentionsField(asserts []*Bool) bool {
	r := false
	s.walk(asserts, func(b *Bool) {
		if b.k == BFZero {
			r = true
		}
	}, func(a *Atom) {
		if a.kind == AField {
			r = true
		}
	})
	return r
}

func (s *Solver) hasProducts(asserts []*Bool) bool {
	n := 0
	s.walk(asserts, nil, func(a *Atom) {
		if a.kind == ADiv {
			p, _ := a.divArg(false)
			for _, x := range p.t {
				if len(s.c.monos[x.m].vars) > 1 {
					n++
				}
			}
		}
	})
	return n > 8
}

func (s *Solver) hasOrig(asserts []*Bool) bool {
	r := false
	s.walk(asserts, nil, func(a *Atom) {
		if a.orig != nil {
			r = true
		}
	})
	return r
}

func (s *Solver) maxDivNest(asserts []*Bool) int {
	g := &smtGen{c: s.c, depth: map[int32]int{}}
	m := 0
	s.walk(asserts, nil, func(a *Atom) {
		if a.kind == ADiv {
			if k := g.divNest(a); k > m {
				m = k
			}
		}
	})
	return m
}

// infeasible is a best-effort pruning test; false when undecided.
func (x *Exec) infeasible(b *Bool) bool {
	if b == x.c.tF {
		return true
	}
	if b == x.c.tT || x.sv == nil || x.inInit {
		return false
	}
	if r, ok := x.sv.memo[b.id]; ok {
		return r
	}
	res, _, _ := x.sv.Check([]*Bool{b}, x.sv.short, []string{"z3n"})
	x.sv.memo[b.id] = res == "unsat"
	return res == "unsat"
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
