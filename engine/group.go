package main

// Group terms: integer combinations of named generators of the curve group.

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type GAtom struct {
	name  string
	order *big.Int // group order used to reduce coefficients
	// affine coordinates when known concretely
	x, y *big.Int
	ord  int
}

type GPart struct {
	g *GAtom
	c *Poly
}

type GTerm struct {
	id    int
	parts []GPart
	key   string
}

var groupTermTab = "gt:"

func (c *Ctx) GAtom(name string) *GAtom {
	if a, ok := c.gatoms[name]; ok {
		return a
	}
	ord := new(big.Int).Lsh(groupL, 3)
	if name == "B" {
		ord = groupL
	}
	a := &GAtom{name: name, order: ord, ord: len(c.gatoms)}
	c.gatoms[name] = a
	return a
}

func (c *Ctx) coefMod(p *Poly, m *big.Int) *Poly {
	half := new(big.Int).Rsh(m, 1)
	var t []term
	for _, x := range p.t {
		r := new(big.Int).Mod(x.c, m)
		if r.Cmp(half) > 0 {
			r.Sub(r, m)
		}
		if r.Sign() != 0 {
			t = append(t, term{x.m, r})
		}
	}
	return c.intern(t)
}

func (c *Ctx) mkG(parts map[*GAtom]*Poly) *GTerm {
	var l []GPart
	for g, p := range parts {
		p = c.coefMod(p, g.order)
		if len(p.t) > 0 {
			l = append(l, GPart{g, p})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].g.ord < l[j].g.ord })
	var sb strings.Builder
	for _, x := range l {
		sb.WriteString(x.g.name)
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(x.c.id))
		sb.WriteByte(';')
	}
	return &GTerm{parts: l, key: sb.String()}
}

func (c *Ctx) gGen(g *GAtom, k *Poly) *GTerm { return c.mkG(map[*GAtom]*Poly{g: k}) }
func (c *Ctx) gZero() *GTerm                 { return &GTerm{} }

func (c *Ctx) gLin(a *GTerm, k *Poly, b *GTerm) *GTerm {
	m := map[*GAtom]*Poly{}
	for _, x := range a.parts {
		m[x.g] = x.c
	}
	for _, x := range b.parts {
		v := c.Mul(k, x.c)
		if o, ok := m[x.g]; ok {
			v = c.Add(o, v)
		}
		m[x.g] = v
	}
	return c.mkG(m)
}
func (c *Ctx) gAdd(a, b *GTerm) *GTerm { return c.gLin(a, c.Int(1), b) }
func (c *Ctx) gSub(a, b *GTerm) *GTerm { return c.gLin(a, c.Int(-1), b) }
func (c *Ctx) gNeg(a *GTerm) *GTerm    { return c.gLin(c.gZero(), c.Int(-1), a) }
func (c *Ctx) gMul(k *Poly, a *GTerm) *GTerm {
	return c.gLin(c.gZero(), k, a)
}

func (c *Ctx) gStr(g *GTerm) string {
	if len(g.parts) == 0 {
		return "O"
	}
	var s []string
	for _, x := range g.parts {
		s = append(s, "["+c.pStr(x.c, 1)+"]"+x.g.name)
	}
	return strings.Join(s, " + ")
}

// gSign: +1 or -1 so that g and -g share coordinate atoms.
func (c *Ctx) gSign(g *GTerm) int {
	p := g.parts[0].c
	if p.t[len(p.t)-1].c.Sign() < 0 {
		return -1
	}
	return 1
}

// gX, gY: affine coordinates as field polynomials.
func (c *Ctx) gX(g *GTerm) *FPoly {
	if len(g.parts) == 0 {
		return c.f.Const(b0)
	}
	s := c.gSign(g)
	if s < 0 {
		g = c.gNeg(g)
	}
	if x, _, ok := c.gConst(g); ok {
		if s < 0 {
			return c.f.Neg(c.f.Const(x))
		}
		return c.f.Const(x)
	}
	a := c.f.Atom("x{"+g.key+"}", false)
	if a.grp == nil {
		a.grp, a.coord = g, 'x'
		a.name = "x{" + c.gStr(g) + "}"
	}
	p := c.f.AtomPoly(a)
	if s < 0 {
		return c.f.Neg(p)
	}
	return p
}

func (c *Ctx) gY(g *GTerm) *FPoly {
	if len(g.parts) == 0 {
		return c.f.Const(b1)
	}
	if c.gSign(g) < 0 {
		g = c.gNeg(g)
	}
	if _, y, ok := c.gConst(g); ok {
		return c.f.Const(y)
	}
	a := c.f.Atom("y{"+g.key+"}", false)
	if a.grp == nil {
		a.grp, a.coord = g, 'y'
		a.name = "y{" + c.gStr(g) + "}"
	}
	return c.f.AtomPoly(a)
}

// gConst: concrete coordinates for constant multiples of a concrete point.
func (c *Ctx) gConst(g *GTerm) (x, y *big.Int, ok bool) {
	if len(g.parts) != 1 {
		return nil, nil, false
	}
	k, isc := g.parts[0].c.Const()
	if !isc {
		return nil, nil, false
	}
	a := g.parts[0].g
	if a.name == "B" {
		a.x, a.y = refBx, refBy
	}
	if a.x == nil {
		return nil, nil, false
	}
	if v, ok := c.gconst[g.key]; ok {
		return v[0], v[1], true
	}
	x, y = refMul(new(big.Int).Mod(k, a.order), a.x, a.y)
	c.setConst(g, x, y)
	return x, y, true
}

func (c *Ctx) setConst(g *GTerm, x, y *big.Int) {
	if c.gconst == nil {
		c.gconst = map[string][2]*big.Int{}
	}
	c.gconst[g.key] = [2]*big.Int{x, y}
}

// GZero is the boolean "g is the neutral element".
func (c *Ctx) GZero(g *GTerm) *Bool {
	if len(g.parts) == 0 {
		return c.tT
	}
	if len(g.parts) == 1 && g.parts[0].g.name == "B" {
		p := g.parts[0].c
		return c.EQ0(c.Mod(p, groupL))
	}
	if c.gSign(g) < 0 {
		g = c.gNeg(g)
	}
	return c.mkBool(&Bool{k: BGZero, grp: g}, "gz:"+g.key)
}

// EncInt is the 256-bit little-endian integer of the encoding of g.
func (c *Ctx) EncInt(g *GTerm) *Poly {
	if len(g.parts) == 0 {
		return c.Int(1)
	}
	if x, y, ok := c.gConst(g); ok {
		return c.Big(refEncInt(x, y))
	}
	a := c.newAtom(&Atom{kind: AEnc, key: "E:" + g.key, grp: g, name: "enc", lo: b0, hi: new(big.Int).Sub(pow2(256), b1)})
	return c.atomPoly(a)
}

// ---------- concrete reference arithmetic (affine twisted Edwards)

func fmod(x *big.Int) *big.Int { return x.Mod(x, fieldP) }

func refAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	xx := new(big.Int).Mul(x1, x2)
	yy := new(big.Int).Mul(y1, y2)
	k := new(big.Int).Mul(xx, yy)
	k.Mul(k, fieldD)
	fmod(k)
	n := new(big.Int).Mul(x1, y2)
	n.Add(n, new(big.Int).Mul(x2, y1))
	d := new(big.Int).Add(b1, k)
	x := fmod(n.Mul(n, new(big.Int).ModInverse(fmod(d), fieldP)))
	m := new(big.Int).Add(yy, xx)
	e := new(big.Int).Sub(b1, k)
	y := fmod(m.Mul(m, new(big.Int).ModInverse(fmod(e), fieldP)))
	return x, y
}

func refMul(k, x, y *big.Int) (*big.Int, *big.Int) {
	rx, ry := new(big.Int), big.NewInt(1)
	for i := k.BitLen() - 1; i >= 0; i-- {
		rx, ry = refAdd(rx, ry, rx, ry)
		if k.Bit(i) == 1 {
			rx, ry = refAdd(rx, ry, x, y)
		}
	}
	return rx, ry
}

func refEncInt(x, y *big.Int) *big.Int {
	n := new(big.Int).Set(y)
	if x.Bit(0) == 1 {
		n.SetBit(n, 255, 1)
	}
	return n
}

// refRecoverX solves for x with the given parity; ok is false when y is not on
// the curve.
func refRecoverX(y *big.Int, sign uint) (*big.Int, bool) {
	yy := fmod(new(big.Int).Mul(y, y))
	u := fmod(new(big.Int).Sub(yy, b1))
	v := fmod(new(big.Int).Add(new(big.Int).Mul(fieldD, yy), b1))
	w := fmod(new(big.Int).Mul(u, new(big.Int).ModInverse(v, fieldP)))
	x := new(big.Int).ModSqrt(w, fieldP)
	if x == nil {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = fmod(new(big.Int).Neg(x))
	}
	return x, true
}

var refBy = fmod(new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), fieldP)))
var refBx = func() *big.Int { x, _ := refRecoverX(refBy, 0); return x }()
