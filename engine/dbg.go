package main

import (
	"fmt"
	"math/big"
	"os"
)

// dbgCong prints the part of a residual that does not cancel modulo m.
func (x *Exec) dbgCong(p *Poly, m *big.Int) {
	for _, t := range p.t {
		if r := new(big.Int).Mod(t.c, m); r.Sign() != 0 {
			fmt.Fprintf(os.Stderr, "res %x mono %s\n", t.c, x.c.pStr(x.c.intern([]term{{t.m, b1}}), 1))
			vs := x.c.monos[t.m].vars
			if len(vs) == 1 && x.c.atoms[vs[0]].kind == ADiv {
				a := x.c.atoms[vs[0]]
				fmt.Fprintf(os.Stderr, "   atom %d  m=%x lo=%v hi=%v\n", a.id, a.m, a.lo, a.hi)
				if a.orig != nil {
					fmt.Fprintf(os.Stderr, "   orig m=%x\n", a.om)
					for _, y := range a.orig.t {
						fmt.Fprintf(os.Stderr, "      o %x * mono%v %s\n", y.c, x.c.monos[y.m].vars, x.c.pStr(x.c.intern([]term{{y.m, b1}}), 1))
					}
				}
				for _, y := range a.args[0].t {
					ws := x.c.monos[y.m].vars
					if len(ws) == 1 && x.c.atoms[ws[0]].kind == AVar {
						continue
					}
					if len(ws) == 2 {
						continue
					}
					fmt.Fprintf(os.Stderr, "      %x * mono%v\n", y.c, ws)
				}
			}
		}
	}
}

func (x *Exec) dbgB(b *Bool, d int) string {
	if d == 0 {
		return "..."
	}
	switch b.k {
	case BNot, BAnd, BOr:
		r := map[BKind]string{BNot: "!", BAnd: "&", BOr: "|"}[b.k] + "("
		for i, u := range b.a {
			if i > 0 {
				r += " "
			}
			r += x.dbgB(u, d-1)
		}
		return r + ")"
	case BSet:
		n := ""
		for i, s := range b.set {
			if s {
				n += fmt.Sprint(b.base.dom[i], ",")
			}
		}
		return fmt.Sprintf("s%d{%.12s}", b.base.p.id, n)
	}
	return fmt.Sprintf("k%d#%d", b.k, b.id)
}
