package main

// Lazy field reasoning: the solver decides the boolean and integer structure
// with every test "q = 0 in F" as a free boolean; each assignment it proposes
// is checked algebraically, and an inconsistent one is excluded by a lemma.

import (
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"
)

// lpoly is a polynomial known to vanish under the literals in prov.
type lpoly struct {
	p    *FPoly
	prov map[int]bool // ids of BFZero literals used (positive or negative as in the model)
}

type fieldTheory struct {
	c     *Ctx
	truth map[int]bool  // literal id -> value
	lit   map[int]*Bool // literal id -> literal
	byP   map[int]int   // atom poly id -> literal id
}

func union(a, b map[int]bool) map[int]bool {
	r := map[int]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

// strip divides by monomial content that is non-zero in the assignment.
func (t *fieldTheory) strip(l lpoly) lpoly {
	f := t.c.f
	l.p = f.stripNonzero(l.p)
	if len(l.p.t) == 0 {
		return l
	}
	m0 := f.monos[l.p.t[0].m]
	for i, a := range m0.a {
		if f.atoms[a].nonzero {
			continue
		}
		ap := f.AtomPoly(f.atoms[a])
		id, ok := t.byP[ap.id]
		if !f.nz[ap.id] && (!ok || t.truth[id]) {
			continue
		}
		min := m0.e[i]
		for _, x := range l.p.t[1:] {
			e := b0
			for j, b := range f.monos[x.m].a {
				if b == a {
					e = f.monos[x.m].e[j]
				}
			}
			if e.Cmp(min) < 0 {
				min = e
			}
		}
		if min.Sign() > 0 {
			l.p = f.Mul(l.p, f.intern([]FTerm{{f.mono([]int{a}, []*big.Int{new(big.Int).Neg(min)}).id, b1}}))
			if !f.nz[ap.id] {
				l.prov = union(l.prov, map[int]bool{id: true})
			}
		}
	}
	return l
}

func (t *fieldTheory) reduce(l lpoly, by []lpoly, skip int) lpoly {
	f := t.c.f
	type hl struct {
		h lpoly
		l FTerm
	}
	var hs []hl
	for i, h := range by {
		if i != skip && len(h.p.t) > 0 && len(h.p.t) < 60 {
			hs = append(hs, hl{h, f.lead(h.p)})
		}
	}
	for steps := 0; steps < 300 && len(l.p.t) < 400; steps++ {
		done := true
	outer:
		for _, x := range l.p.t {
			for _, h := range hs {
				if !f.divides(h.l.m, x.m) {
					continue
				}
				q, ok := f.monoDiv(x.m, h.l.m)
				if !ok {
					continue
				}
				k := new(big.Int).ModInverse(h.l.c, fieldP)
				k.Mul(k, x.c)
				l.p = f.Lin(l.p, k.Neg(k), f.Mul(f.intern([]FTerm{{q, b1}}), h.h.p))
				l.prov = union(l.prov, h.h.prov)
				done = false
				break outer
			}
		}
		if done {
			break
		}
	}
	return l
}

// spoly is the combination of two vanishing polynomials that cancels their
// leading terms.
func (t *fieldTheory) spoly(a, b lpoly) (lpoly, bool) {
	f := t.c.f
	la, lb := f.lead(a.p), f.lead(b.p)
	ma, mb := f.monos[la.m], f.monos[lb.m]
	com := false
	exp := map[int]*big.Int{}
	for i, x := range ma.a {
		exp[x] = ma.e[i]
	}
	for i, x := range mb.a {
		if e, ok := exp[x]; ok {
			com = true
			if mb.e[i].Cmp(e) > 0 {
				exp[x] = mb.e[i]
			}
		} else {
			exp[x] = mb.e[i]
		}
	}
	if !com {
		return lpoly{}, false
	}
	var ids []int
	for x := range exp {
		ids = append(ids, x)
	}
	sort.Ints(ids)
	var es []*big.Int
	for _, x := range ids {
		es = append(es, exp[x])
	}
	lcm := f.mono(ids, es).id
	qa, ok1 := f.monoDiv(lcm, la.m)
	qb, ok2 := f.monoDiv(lcm, lb.m)
	if !ok1 || !ok2 {
		return lpoly{}, false
	}
	pa := f.Mul(f.intern([]FTerm{{qa, lb.c}}), a.p)
	pb := f.Mul(f.intern([]FTerm{{qb, la.c}}), b.p)
	return lpoly{f.Sub(pa, pb), union(a.prov, b.prov)}, true
}

// conflicts returns lemmas (disjunctions) excluded by the assignment.
func (t *fieldTheory) conflicts() []*Bool {
	c, f := t.c, t.c.f
	var ids []int
	for id := range t.truth {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var H []lpoly
	var lemmas []*Bool
	lemma := func(prov map[int]bool, extra ...*Bool) {
		var l []*Bool
		for id := range prov {
			if t.truth[id] {
				l = append(l, c.Not(t.lit[id]))
			} else {
				l = append(l, t.lit[id])
			}
		}
		lemmas = append(lemmas, c.Or(append(l, extra...)...))
	}
	for _, id := range ids {
		if t.truth[id] {
			H = append(H, t.strip(lpoly{t.lit[id].fp, map[int]bool{id: true}}))
		}
	}
	nt := len(H)
	for _, h := range f.hyps {
		H = append(H, lpoly{h, map[int]bool{}})
	}
	for round := 0; round < 4; round++ {
		ch := false
		for i := range H {
			if i >= nt && i < nt+len(f.hyps) || len(H[i].p.t) == 0 {
				continue
			}
			q := t.strip(t.reduce(H[i], H, i))
			if q.p != H[i].p {
				H[i] = q
				ch = true
			}
			if v, ok := q.p.IsConst(); ok && v.Sign() != 0 {
				lemma(q.prov)
				return lemmas
			}
			if f.nz[f.stripNonzero(q.p).id] {
				lemma(q.prov)
				return lemmas
			}
		}
		if !ch && round > 0 {
			break
		}
		n := len(H)
		for i := 0; i < n && len(H) < 40; i++ {
			for j := 0; j < i && len(H) < 40; j++ {
				if len(H[i].p.t) == 0 || len(H[j].p.t) == 0 {
					continue
				}
				s, ok := t.spoly(H[i], H[j])
				if !ok {
					continue
				}
				s = t.strip(t.reduce(s, H, -1))
				if len(s.p.t) > 0 && len(s.p.t) < 30 {
					H = append(H, s)
				}
			}
		}
	}
	var neg []lpoly
	for _, id := range ids {
		if t.truth[id] {
			continue
		}
		r := t.strip(t.reduce(lpoly{t.lit[id].fp, map[int]bool{}}, H, -1))
		if len(r.p.t) == 0 {
			lemma(union(r.prov, map[int]bool{id: true}))
			if len(lemmas) > 20 {
				return lemmas
			}
			continue
		}
		r.prov = union(r.prov, map[int]bool{id: true})
		neg = append(neg, r)
	}
	if len(lemmas) > 0 {
		return lemmas
	}
	// a product of non-zero elements is not zero
	for i := range neg {
		for j := 0; j <= i && len(neg) < 40; j++ {
			if len(neg[i].p.t)*len(neg[j].p.t) > 200 {
				continue
			}
			q := t.strip(t.reduce(lpoly{f.Mul(neg[i].p, neg[j].p), union(neg[i].prov, neg[j].prov)}, H, -1))
			if len(q.p.t) == 0 {
				lemma(q.prov)
				if len(lemmas) > 10 {
					return lemmas
				}
			}
		}
	}
	return lemmas
}

var fzVal = regexp.MustCompile(`\(f(\d+) (true|false)\)`)

// lazyField decides the query with lemmas on demand; "" if it cannot.
func (s *Solver) lazyField(asserts []*Bool, d time.Duration) (string, map[string]*big.Int) {
	deadline := time.Now().Add(d)
	asserts = append([]*Bool(nil), asserts...)
	for it := 0; it < 400; it++ {
		left := time.Until(deadline)
		if left <= 0 {
			return "", nil
		}
		sc, g := s.script(asserts, smtOpts{lazy: true})
		var names []string
		for _, b := range g.fz {
			names = append(names, g.bools[b.id])
		}
		a := runSolver(rootCtx, "z3n", sc, g.inputs, left, names...)
		if a.res == "unsat" {
			return "unsat", nil
		}
		if a.res != "sat" {
			return "", nil
		}
		t := &fieldTheory{c: s.c, truth: map[int]bool{}, lit: map[int]*Bool{}, byP: map[int]int{}}
		val := map[string]bool{}
		for _, m := range fzVal.FindAllStringSubmatch(strings.Join(strings.Fields(a.out), " "), -1) {
			val["f"+m[1]] = m[2] == "true"
		}
		for _, b := range g.fz {
			v, ok := val[g.bools[b.id]]
			if !ok {
				return "", nil
			}
			t.truth[b.id], t.lit[b.id], t.byP[b.fp.id] = v, b, b.id
		}
		ls := t.conflicts()
		if len(ls) == 0 {
			return "sat", parseModel(a.out, s.c)
		}
		for _, l := range ls {
			if l == s.c.tF {
				return "unsat", nil
			}
		}
		asserts = append(asserts, ls...)
	}
	return "", nil
}
