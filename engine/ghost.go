package main

// Harness primitives on elements of F_p.

import "math/big"

func (x *Exec) fpv(l []falt) Value { return Agg{&Ghost{"fp", l}} }

func fpOf(v Value) []falt {
	a, ok := v.(Agg)
	if ok && len(a) == 1 {
		if g, ok := a[0].(*Ghost); ok && g.kind == "fp" {
			return g.v.([]falt)
		}
	}
	panic(bail("not a field specification value"))
}

func (x *Exec) installGhostAPI() {
	reg := func(n string, f handler) { x.handlers[targetPath+"."+n] = f }
	f := x.c.f
	one := func(p *FPoly) Value { return x.fpv([]falt{{x.c.tT, p}}) }
	mk := func(nz bool) handler {
		return func(x *Exec, cl *callCtx) Value {
			n := litArg(cl.args[0])
			return one(f.AtomPoly(f.Atom("v:"+n, nz)))
		}
	}
	reg("vFA", mk(false))
	reg("vFU", mk(true))
	reg("vFC", func(x *Exec, cl *callCtx) Value {
		return one(f.Const(constOf(x.bigLoad(cl, cl.args[0]), "field constant")))
	})
	bin := func(n string, op func(p, q *FPoly) *FPoly) {
		reg(n, func(x *Exec, cl *callCtx) Value {
			return x.fpv(x.alts2(fpOf(cl.args[0]), fpOf(cl.args[1]), op))
		})
	}
	bin("vFAdd", f.Add)
	bin("vFSub", f.Sub)
	bin("vFMul", func(p, q *FPoly) *FPoly { return f.nf(f.Mul(p, q)) })
	reg("vFNeg", func(x *Exec, cl *callCtx) Value { return x.fpv(x.alts1(fpOf(cl.args[0]), f.Neg)) })
	reg("vFInv", func(x *Exec, cl *callCtx) Value { return x.fpv(x.alts1(fpOf(cl.args[0]), x.invPoly)) })
	reg("vFPow", func(x *Exec, cl *callCtx) Value {
		e := constOf(x.bigLoad(cl, cl.args[1]), "exponent")
		return x.fpv(x.alts1(fpOf(cl.args[0]), func(p *FPoly) *FPoly {
			q := f.Pow(f.nf(p), e)
			if q == nil {
				panic(bail("vFPow of a sum"))
			}
			return q
		}))
	})
	reg("vFEq", func(x *Exec, cl *callCtx) Value {
		return x.altCond(x.alts2(fpOf(cl.args[0]), fpOf(cl.args[1]), f.Sub), x.c.FZero)
	})
	reg("vFInt", func(x *Exec, cl *callCtx) Value { return x.bigNew(cl.st, x.altInt(fpOf(cl.args[0]))) })
	reg("vFFromInt", func(x *Exec, cl *callCtx) Value { return x.fpv(x.fromInt(x.bigLoad(cl, cl.args[0]))) })
	reg("vFE", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		k, _ := cl.args[2].(*Poly).Int64()
		return x.newFam("in:"+n, fpOf(cl.args[1]), k).agg()
	})
	reg("vFOf", func(x *Exec, cl *callCtx) Value { return x.fpv(x.recFE(limbsOf(cl.args[0]))) })
	reg("vFNonzero", func(x *Exec, cl *callCtx) Value {
		l := fpOf(cl.args[0])
		if len(l) != 1 {
			panic(bail("vFNonzero"))
		}
		f.nz[f.normZ(l[0].p).id] = true
		return Tuple(nil)
	})
	reg("vFRoot", func(x *Exec, cl *callCtx) Value {
		return x.altCond2(fpOf(cl.args[0]), fpOf(cl.args[1]), func(u, v *FPoly) *Bool {
			if a, ok := f.nf(u).IsConst(); ok {
				if b, ok := f.nf(v).IsConst(); ok {
					w := new(big.Int).ModInverse(b, fieldP)
					if w == nil {
						return x.c.tF
					}
					w.Mul(w, a).Mod(w, fieldP)
					return x.c.B(new(big.Int).ModSqrt(w, fieldP) != nil)
				}
			}
			s := x.sqrtPoly(u, v)
			vss := f.Mul(v, f.Mul(s, s))
			return x.c.Or(x.c.FZero(f.Sub(vss, u)), x.c.FZero(f.Add(vss, u)))
		})
	})
	reg("vPt", func(x *Exec, cl *callCtx) Value {
		n := litArg(cl.args[0])
		px, py := f.AtomPoly(f.Atom("x:"+n, false)), f.AtomPoly(f.Atom("y:"+n, false))
		x2, y2 := f.Mul(px, px), f.Mul(py, py)
		h := f.Sub(f.Sub(y2, x2), f.Add(f.Const(b1), f.Scale(fieldD, f.Mul(x2, y2))))
		f.hyps = append(f.hyps, h)
		return Tuple{one(px), one(py)}
	})
}

func (x *Exec) altCond2(a, b []falt, pred func(p, q *FPoly) *Bool) *Bool {
	var r []*Bool
	for _, u := range a {
		for _, v := range b {
			if c := x.c.And(u.c, v.c); c != x.c.tF {
				r = append(r, x.c.And(c, pred(u.p, v.p)))
			}
		}
	}
	return x.c.Or(r...)
}
