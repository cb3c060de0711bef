package main

// Terms: hash-consed integer polynomials and boolean formulas.
//
// Integers are mathematical integers; machine-word wrap-around is made explicit by the
// interpreter (see wrap in interp.go). Every integer term is a polynomial over atoms;
// atoms are solver variables, ite-terms and byte extractions.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type AtomKind int

const (
	AVar AtomKind = iota
	AIte
	AByte // byte i (0 = most significant) of the 8-byte big-endian encoding of x
)

type Atom struct {
	id   int
	kind AtomKind
	name string // AVar
	lo   *big.Int
	hi   *big.Int
	cond *B
	x, y *I
	bi   int
	def  *atomDef // AVar introduced by a definition
}

type atomDef struct {
	op   byte // q, r: floor quotient / remainder of x by y; n: round-half-even of x by p; h: half of n
	x, y *I
	p    *big.Int
}

// Mono: sorted list of atom ids (with repetition); key string caches it.
type mterm struct {
	key   string
	atoms []*Atom
	coef  *big.Int
}

// I is an integer term.
type I struct {
	id  int
	key string
	ts  []mterm // sorted by key, no zero coefs, constant term has key ""
	lo  *big.Int
	hi  *big.Int
	iv  bool
	ver int
	nm  int // SMT definition id, 0 = none
}

type BKind int

const (
	BConst BKind = iota
	BVar
	BLe // x <= 0
	BEq // x == 0
	BNot
	BAnd
	BOr
)

type B struct {
	id   int
	kind BKind
	c    bool
	name string
	x    *I
	args []*B
	key  string
	neg  *B
}

// Ctx is the per-path term context.
type Ctx struct {
	ints   map[string]*I
	bools  map[string]*B
	atoms  map[string]*Atom
	nextID int
	vars   []*Atom
	bvars  []*B
	fresh  int
	ver    int // bumped on interval refinement
	divs   map[string][2]*I
	rnds   map[string]*I
	side   []*B     // definitional side constraints not yet sent to the solver
	muls   []mulRec // products the program computed (for the product abstraction)
	mulSet map[[2]int]bool
	tb     map[string]*tbound // bounds of non-atomic linear parts
}

func NewCtx() *Ctx {
	return &Ctx{ints: map[string]*I{}, bools: map[string]*B{}, atoms: map[string]*Atom{}, divs: map[string][2]*I{}, rnds: map[string]*I{}}
}

var (
	bz0  = big.NewInt(0)
	bz1  = big.NewInt(1)
	bzm1 = big.NewInt(-1)
)

func (c *Ctx) id() int { c.nextID++; return c.nextID }

// ---------- integers

func (c *Ctx) mk(ts []mterm) *I {
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(t.key)
		sb.WriteByte(':')
		sb.WriteString(t.coef.String())
		sb.WriteByte(';')
	}
	k := sb.String()
	if t, ok := c.ints[k]; ok {
		return t
	}
	t := &I{id: c.id(), key: k, ts: ts, ver: -1}
	c.ints[k] = t
	return t
}

func (c *Ctx) Big(v *big.Int) *I {
	if v.Sign() == 0 {
		return c.mk(nil)
	}
	return c.mk([]mterm{{key: "", coef: new(big.Int).Set(v)}})
}
func (c *Ctx) Int(v int64) *I   { return c.Big(big.NewInt(v)) }
func (c *Ctx) UInt(v uint64) *I { return c.Big(new(big.Int).SetUint64(v)) }

func (t *I) Const() (*big.Int, bool) {
	switch len(t.ts) {
	case 0:
		return bz0, true
	case 1:
		if t.ts[0].key == "" {
			return t.ts[0].coef, true
		}
	}
	return nil, false
}

func (c *Ctx) atomI(a *Atom) *I {
	return c.mk([]mterm{{key: strconv.Itoa(a.id), atoms: []*Atom{a}, coef: bz1}})
}

func (c *Ctx) Var(name string, lo, hi *big.Int) *I {
	k := "v" + name
	if a, ok := c.atoms[k]; ok {
		return c.atomI(a)
	}
	a := &Atom{id: c.id(), kind: AVar, name: name, lo: lo, hi: hi}
	c.atoms[k] = a
	c.vars = append(c.vars, a)
	return c.atomI(a)
}
func (c *Ctx) Fresh(prefix string, lo, hi *big.Int) *I {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), lo, hi)
}

func (c *Ctx) lin(a *I, ka *big.Int, b *I, kb *big.Int) *I {
	i, j := 0, 0
	out := make([]mterm, 0, len(a.ts)+len(b.ts))
	put := func(m mterm, co *big.Int) {
		if co.Sign() != 0 {
			out = append(out, mterm{m.key, m.atoms, co})
		}
	}
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].key < b.ts[j].key:
			put(a.ts[i], new(big.Int).Mul(ka, a.ts[i].coef))
			i++
		case i >= len(a.ts) || b.ts[j].key < a.ts[i].key:
			put(b.ts[j], new(big.Int).Mul(kb, b.ts[j].coef))
			j++
		default:
			x := new(big.Int).Mul(ka, a.ts[i].coef)
			y := new(big.Int).Mul(kb, b.ts[j].coef)
			put(a.ts[i], x.Add(x, y))
			i++
			j++
		}
	}
	return c.mk(out)
}

func (c *Ctx) Add(a, b *I) *I { return c.lin(a, bz1, b, bz1) }
func (c *Ctx) Sub(a, b *I) *I { return c.lin(a, bz1, b, bzm1) }
func (c *Ctx) Neg(a *I) *I    { return c.lin(a, bzm1, c.Int(0), bz1) }
func (c *Ctx) MulC(a *I, k *big.Int) *I {
	return c.lin(a, k, c.Int(0), bz1)
}

type mulRec struct{ a, b, r *I }

func (c *Ctx) Mul(a, b *I) *I {
	r := c.mul(a, b)
	if _, ok := a.Const(); ok {
		return r
	}
	if _, ok := b.Const(); ok {
		return r
	}
	k := [2]int{a.id, b.id}
	if a.id > b.id {
		k = [2]int{b.id, a.id}
	}
	la, ha := c.Iv(a)
	lb, hb := c.Iv(b)
	lo, hi := mulIv(la, ha, lb, hb)
	c.bound(r, lo, hi)
	if !c.mulSet[k] {
		if c.mulSet == nil {
			c.mulSet = map[[2]int]bool{}
		}
		c.mulSet[k] = true
		c.muls = append(c.muls, mulRec{a, b, r})
	}
	return r
}

func (c *Ctx) mul(a, b *I) *I {
	if k, ok := a.Const(); ok {
		return c.MulC(b, k)
	}
	if k, ok := b.Const(); ok {
		return c.MulC(a, k)
	}
	m := map[string]*mterm{}
	for _, x := range a.ts {
		for _, y := range b.ts {
			as := make([]*Atom, 0, len(x.atoms)+len(y.atoms))
			as = append(append(as, x.atoms...), y.atoms...)
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			ks := make([]string, len(as))
			for i, q := range as {
				ks[i] = strconv.Itoa(q.id)
			}
			k := strings.Join(ks, "*")
			co := new(big.Int).Mul(x.coef, y.coef)
			if e, ok := m[k]; ok {
				e.coef = new(big.Int).Add(e.coef, co)
			} else {
				m[k] = &mterm{k, as, co}
			}
		}
	}
	out := make([]mterm, 0, len(m))
	for _, e := range m {
		if e.coef.Sign() != 0 {
			out = append(out, *e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return c.mk(out)
}

func (c *Ctx) Ite(cond *B, a, b *I) *I {
	if cond.kind == BConst {
		if cond.c {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.kind == BNot {
		return c.Ite(cond.args[0], b, a)
	}
	k := fmt.Sprintf("i%d,%d,%d", cond.id, a.id, b.id)
	at, ok := c.atoms[k]
	if !ok {
		at = &Atom{id: c.id(), kind: AIte, cond: cond, x: a, y: b}
		c.atoms[k] = at
	}
	return c.atomI(at)
}

func (c *Ctx) Byte(x *I, i int) *I {
	if k, ok := x.Const(); ok {
		sh := new(big.Int).Rsh(k, uint(8*(7-i)))
		return c.Big(sh.And(sh, big.NewInt(255)))
	}
	k := fmt.Sprintf("b%d,%d", x.id, i)
	at, ok := c.atoms[k]
	if !ok {
		at = &Atom{id: c.id(), kind: AByte, x: x, bi: i}
		c.atoms[k] = at
	}
	return c.atomI(at)
}

// asByte reports whether t is exactly byte i of x.
func (t *I) asByte() (*I, int, bool) {
	if len(t.ts) == 1 && len(t.ts[0].atoms) == 1 && t.ts[0].coef.Cmp(bz1) == 0 {
		a := t.ts[0].atoms[0]
		if a.kind == AByte {
			return a.x, a.bi, true
		}
	}
	return nil, 0, false
}

func (t *I) asIte() (*Atom, bool) {
	if len(t.ts) == 1 && len(t.ts[0].atoms) == 1 && t.ts[0].coef.Cmp(bz1) == 0 {
		a := t.ts[0].atoms[0]
		if a.kind == AIte {
			return a, true
		}
	}
	return nil, false
}

// ---------- intervals (nil = unbounded)

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (c *Ctx) atomIv(a *Atom) (lo, hi *big.Int) {
	switch a.kind {
	case AVar:
		return a.lo, a.hi
	case AByte:
		return bz0, big.NewInt(255)
	case AIte:
		l1, h1 := c.Iv(a.x)
		l2, h2 := c.Iv(a.y)
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		// refinement stored on the atom itself
		if a.lo != nil && (lo == nil || a.lo.Cmp(lo) > 0) {
			lo = a.lo
		}
		if a.hi != nil && (hi == nil || a.hi.Cmp(hi) < 0) {
			hi = a.hi
		}
		return
	}
	return nil, nil
}

func mulIv(l1, h1, l2, h2 *big.Int) (lo, hi *big.Int) {
	if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
		lo = new(big.Int).Mul(l1, l2)
		if h1 != nil && h2 != nil {
			hi = new(big.Int).Mul(h1, h2)
		}
		return
	}
	if l1 == nil || h1 == nil || l2 == nil || h2 == nil {
		return nil, nil
	}
	for _, x := range []*big.Int{l1, h1} {
		for _, y := range []*big.Int{l2, h2} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return
}

func (c *Ctx) Iv(t *I) (*big.Int, *big.Int) {
	if t.ver == c.ver {
		return t.lo, t.hi
	}
	lo, hi := new(big.Int), new(big.Int)
	for _, m := range t.ts {
		if len(m.atoms) == 0 {
			lo, hi = addB(lo, m.coef), addB(hi, m.coef)
			continue
		}
		l, h := c.atomIv(m.atoms[0])
		for _, a := range m.atoms[1:] {
			l2, h2 := c.atomIv(a)
			l, h = mulIv(l, h, l2, h2)
		}
		if m.coef.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			l = new(big.Int).Mul(l, m.coef)
		}
		if h != nil {
			h = new(big.Int).Mul(h, m.coef)
		}
		lo, hi = addB(lo, l), addB(hi, h)
		if lo == nil && hi == nil {
			break
		}
	}
	if len(c.tb) > 0 {
		if k, g, ct := normPart(t); k != "" {
			if b := c.tb[k]; b != nil {
				// t = g*L + ct
				l, h := b.lo, b.hi
				if g.Sign() < 0 {
					l, h = h, l
				}
				if l != nil {
					l = new(big.Int).Mul(l, g)
					l.Add(l, ct)
					if lo == nil || l.Cmp(lo) > 0 {
						lo = l
					}
				}
				if h != nil {
					h = new(big.Int).Mul(h, g)
					h.Add(h, ct)
					if hi == nil || h.Cmp(hi) < 0 {
						hi = h
					}
				}
			}
		}
	}
	t.lo, t.hi, t.ver = lo, hi, c.ver
	return lo, hi
}

type tbound struct{ lo, hi *big.Int }

// normPart splits t = g*L + ct with L content-free and its first coefficient positive; the key
// is empty for constants and single atoms (those have their own intervals).
func normPart(t *I) (string, *big.Int, *big.Int) {
	ct := bz0
	n := 0
	g := new(big.Int)
	deg := 0
	for _, m := range t.ts {
		if len(m.atoms) == 0 {
			ct = m.coef
			continue
		}
		if n == 0 {
			g.Abs(m.coef)
		} else {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
		}
		n++
		if len(m.atoms) > deg {
			deg = len(m.atoms)
		}
	}
	if n == 0 || (n == 1 && deg == 1) {
		return "", nil, nil
	}
	first := true
	var sb strings.Builder
	for _, m := range t.ts {
		if len(m.atoms) == 0 {
			continue
		}
		if first && m.coef.Sign() < 0 {
			g.Neg(g)
		}
		first = false
		sb.WriteString(m.key)
		sb.WriteByte(':')
		sb.WriteString(new(big.Int).Quo(m.coef, g).String())
		sb.WriteByte(' ')
	}
	return sb.String(), g, ct
}

// bound records lo <= t <= hi.
func (c *Ctx) bound(t *I, lo, hi *big.Int) {
	if lo == nil && hi == nil {
		return
	}
	k, g, ct := normPart(t)
	if k == "" {
		return
	}
	// L in [(lo-ct)/g, (hi-ct)/g]
	if g.Sign() < 0 {
		lo, hi = hi, lo
	}
	ag := new(big.Int).Abs(g)
	ceil := func(v *big.Int) *big.Int { return new(big.Int).Neg(floorDiv(new(big.Int).Neg(v), ag)) }
	tr := func(v *big.Int) *big.Int {
		v = new(big.Int).Sub(v, ct)
		if g.Sign() < 0 {
			v.Neg(v)
		}
		return v
	}
	if c.tb == nil {
		c.tb = map[string]*tbound{}
	}
	b := c.tb[k]
	if b == nil {
		b = &tbound{}
		c.tb[k] = b
	}
	if lo != nil {
		if v := ceil(tr(lo)); b.lo == nil || v.Cmp(b.lo) > 0 {
			b.lo = v
			c.ver++
		}
	}
	if hi != nil {
		if v := floorDiv(tr(hi), ag); b.hi == nil || v.Cmp(b.hi) < 0 {
			b.hi = v
			c.ver++
		}
	}
}

// Refine intersects single-atom intervals using an asserted constraint.
func (c *Ctx) Refine(b *B) {
	switch b.kind {
	case BAnd:
		for _, a := range b.args {
			c.Refine(a)
		}
	case BLe:
		c.refLe(b.x)
	case BEq:
		c.refLe(b.x)
		c.refLe(c.Neg(b.x))
	case BNot:
		if b.args[0].kind == BLe { // x > 0  <=> 1-x <= 0
			c.refLe(c.Sub(c.Int(1), b.args[0].x))
		} else if b.args[0].kind == BEq { // x != 0: tighten if at the edge of interval
			x := b.args[0].x
			lo, hi := c.Iv(x)
			if lo != nil && lo.Sign() == 0 {
				c.refLe(c.Sub(c.Int(1), x))
			} else if hi != nil && hi.Sign() == 0 {
				c.refLe(c.Add(c.Int(1), x))
			}
		}
	}
}

// refLe: x <= 0 where x = sum; for each linear atom derive a bound from the others.
func (c *Ctx) refLe(x *I) {
	c.bound(x, nil, bz0)
	for i, m := range x.ts {
		if len(m.atoms) != 1 || m.atoms[0].kind == AByte {
			continue
		}
		// m.coef*a <= -(rest)  ; rest lower bound
		rest := new(big.Int)
		for j, n := range x.ts {
			if j == i {
				continue
			}
			if len(n.atoms) == 0 {
				rest = addB(rest, n.coef)
				continue
			}
			l, h := c.Iv(c.mk([]mterm{n}))
			_ = h
			rest = addB(rest, l)
			if rest == nil {
				break
			}
		}
		if rest == nil {
			continue
		}
		bound := new(big.Int).Neg(rest)
		a := m.atoms[0]
		if m.coef.Sign() > 0 {
			q := floorDiv(bound, m.coef)
			if _, h := c.atomIv(a); h == nil || q.Cmp(h) < 0 {
				a.hi = q
				c.ver++
			}
		} else {
			// a >= bound/coef (coef<0) -> ceil
			q := floorDiv(bound, new(big.Int).Neg(m.coef))
			q.Neg(q)
			if l, _ := c.atomIv(a); l == nil || q.Cmp(l) > 0 {
				a.lo = q
				c.ver++
			}
		}
	}
}

func floorDiv(a, b *big.Int) *big.Int { // b>0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// ---------- booleans

func (c *Ctx) Bool(v bool) *B {
	k := "F"
	if v {
		k = "T"
	}
	return c.mkB(&B{kind: BConst, c: v, key: k})
}
func (c *Ctx) mkB(b *B) *B {
	if o, ok := c.bools[b.key]; ok {
		return o
	}
	b.id = c.id()
	c.bools[b.key] = b
	return b
}
func (c *Ctx) BoolVar(name string) *B {
	_, existed := c.bools["v"+name]
	b := c.mkB(&B{kind: BVar, name: name, key: "v" + name})
	if !existed {
		c.bvars = append(c.bvars, b)
	}
	return b
}
func (c *Ctx) Not(b *B) *B {
	switch b.kind {
	case BConst:
		return c.Bool(!b.c)
	case BNot:
		return b.args[0]
	}
	return c.mkB(&B{kind: BNot, args: []*B{b}, key: "!" + strconv.Itoa(b.id)})
}
func (c *Ctx) nary(k BKind, args []*B) *B {
	unit := k == BAnd
	seen := map[int]bool{}
	var out []*B
	for _, a := range args {
		list := []*B{a}
		if a.kind == k {
			list = a.args
		}
		for _, x := range list {
			if x.kind == BConst {
				if x.c != unit {
					return c.Bool(!unit)
				}
				continue
			}
			if seen[x.id] {
				continue
			}
			if seen[c.Not(x).id] {
				return c.Bool(!unit)
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return c.Bool(unit)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	if k == BAnd {
		sb.WriteByte('&')
	} else {
		sb.WriteByte('|')
	}
	for _, x := range out {
		sb.WriteString(strconv.Itoa(x.id))
		sb.WriteByte(',')
	}
	return c.mkB(&B{kind: k, args: out, key: sb.String()})
}
func (c *Ctx) And(a ...*B) *B { return c.nary(BAnd, a) }
func (c *Ctx) Or(a ...*B) *B  { return c.nary(BOr, a) }

func (c *Ctx) normCmp(x *I, eq bool) *I {
	// divide by gcd of non-constant coefs
	var g *big.Int
	var k *big.Int = bz0
	for _, m := range x.ts {
		if len(m.atoms) == 0 {
			k = m.coef
			continue
		}
		if g == nil {
			g = new(big.Int).Abs(m.coef)
		} else {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
		}
	}
	if g == nil || g.Cmp(bz1) == 0 {
		return x
	}
	if eq {
		if new(big.Int).Mod(k, g).Sign() != 0 {
			return nil // never equal
		}
	}
	out := make([]mterm, 0, len(x.ts))
	for _, m := range x.ts {
		if len(m.atoms) == 0 {
			// x = g*p + k <= 0  <=> p <= floor(-k/g) <=> p - floor(-k/g) <= 0
			q := floorDiv(new(big.Int).Neg(k), g)
			q.Neg(q)
			if q.Sign() != 0 {
				out = append(out, mterm{"", nil, q})
			}
			continue
		}
		out = append(out, mterm{m.key, m.atoms, new(big.Int).Quo(m.coef, g)})
	}
	return c.mk(out)
}

// LeZ: x <= 0
func (c *Ctx) LeZ(x *I) *B {
	if k, ok := x.Const(); ok {
		return c.Bool(k.Sign() <= 0)
	}
	lo, hi := c.Iv(x)
	if hi != nil && hi.Sign() <= 0 {
		return c.Bool(true)
	}
	if lo != nil && lo.Sign() > 0 {
		return c.Bool(false)
	}
	x = c.normCmp(x, false)
	return c.mkB(&B{kind: BLe, x: x, key: "l" + strconv.Itoa(x.id)})
}
func (c *Ctx) EqZ(x *I) *B {
	if k, ok := x.Const(); ok {
		return c.Bool(k.Sign() == 0)
	}
	lo, hi := c.Iv(x)
	if hi != nil && hi.Sign() < 0 || lo != nil && lo.Sign() > 0 {
		return c.Bool(false)
	}
	x = c.normCmp(x, true)
	if x == nil {
		return c.Bool(false)
	}
	if len(x.ts) > 0 && x.ts[len(x.ts)-1].coef.Sign() < 0 {
		x = c.Neg(x)
	}
	return c.mkB(&B{kind: BEq, x: x, key: "e" + strconv.Itoa(x.id)})
}

// pushIte distributes a comparison over an ite whose branches are (nested) constants.
func (c *Ctx) pushIte(x *I, f func(*I) *B) (*B, bool) {
	if len(x.ts) == 0 || len(x.ts) > 2 {
		return nil, false
	}
	var at *Atom
	var co *big.Int
	k := bz0
	for _, m := range x.ts {
		if len(m.atoms) == 0 {
			k = m.coef
		} else if len(m.atoms) == 1 && m.atoms[0].kind == AIte && at == nil {
			at = m.atoms[0]
			co = m.coef
		} else {
			return nil, false
		}
	}
	if at == nil || !constIte(at) {
		return nil, false
	}
	var rec func(t *I) *B
	rec = func(t *I) *B {
		if v, ok := t.Const(); ok {
			r := new(big.Int).Mul(v, co)
			return f(c.Big(r.Add(r, k)))
		}
		a, _ := t.asIte()
		l, r := rec(a.x), rec(a.y)
		return c.IteB(a.cond, l, r)
	}
	return rec(c.atomI(at)), true
}
func constIte(a *Atom) bool {
	for _, t := range []*I{a.x, a.y} {
		if _, ok := t.Const(); ok {
			continue
		}
		b, ok := t.asIte()
		if !ok || !constIte(b) {
			return false
		}
	}
	return true
}

func (c *Ctx) IteB(cond, a, b *B) *B {
	if cond.kind == BConst {
		if cond.c {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
}

func (c *Ctx) Le(a, b *I) *B {
	x := c.Sub(a, b)
	if r, ok := c.pushIte(x, c.LeZ); ok {
		return r
	}
	return c.LeZ(x)
}
func (c *Ctx) Lt(a, b *I) *B {
	x := c.Add(c.Sub(a, b), c.Int(1))
	if r, ok := c.pushIte(x, c.LeZ); ok {
		return r
	}
	return c.LeZ(x)
}
func (c *Ctx) Eq(a, b *I) *B {
	x := c.Sub(a, b)
	if r, ok := c.pushIte(x, c.EqZ); ok {
		return r
	}
	return c.EqZ(x)
}

// ---------- division (y > 0, floor)

func (c *Ctx) DivMod(x, y *I) (*I, *I) {
	if ky, ok := y.Const(); ok {
		if kx, ok := x.Const(); ok {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(kx, ky, m)
			return c.Big(q), c.Big(m)
		}
		if ky.Cmp(bz1) == 0 {
			return x, c.Int(0)
		}
		// split off multiples of ky
		var p1, p2 []mterm
		for _, m := range x.ts {
			q, r := new(big.Int).DivMod(m.coef, ky, new(big.Int))
			if len(m.atoms) == 0 {
				if q.Sign() != 0 {
					p1 = append(p1, mterm{m.key, m.atoms, q})
				}
				if r.Sign() != 0 {
					p2 = append(p2, mterm{m.key, m.atoms, r})
				}
				continue
			}
			if r.Sign() == 0 {
				p1 = append(p1, mterm{m.key, m.atoms, q})
			} else {
				p2 = append(p2, m)
			}
		}
		if len(p1) > 0 {
			q, r := c.DivMod(c.mk(p2), y)
			return c.Add(c.mk(p1), q), r
		}
		lo, hi := c.Iv(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(ky) < 0 {
			return c.Int(0), x
		}
		if q := c.divOfRounded(x, ky); q != nil {
			return q, c.Sub(x, c.MulC(q, ky))
		}
		// common factor: floor(g*x' / g*y') = floor(x'/y')
		g := new(big.Int).Set(ky)
		for _, m := range x.ts {
			if g.Cmp(bz1) == 0 {
				break
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
		}
		if g.Cmp(bz1) > 0 {
			var ts []mterm
			for _, m := range x.ts {
				ts = append(ts, mterm{m.key, m.atoms, new(big.Int).Quo(m.coef, g)})
			}
			q, r := c.DivMod(c.mk(ts), c.Big(new(big.Int).Quo(ky, g)))
			return q, c.MulC(r, g)
		}
	} else {
		if x == y {
			return c.Int(1), c.Int(0)
		}
		if k, ok := x.Const(); ok && k.Sign() == 0 {
			return c.Int(0), c.Int(0)
		}
	}
	k := fmt.Sprintf("%d/%d", x.id, y.id)
	if r, ok := c.divs[k]; ok {
		return r[0], r[1]
	}
	lo, hi := c.Iv(x)
	ylo, yhi := c.Iv(y)
	var ql, qh, rh *big.Int
	if lo != nil {
		if lo.Sign() >= 0 {
			ql = bz0
			if yhi != nil && yhi.Sign() > 0 {
				ql = floorDiv(lo, yhi)
			}
		} else if ylo != nil && ylo.Sign() > 0 {
			ql = floorDiv(lo, ylo)
		} else {
			ql = lo
		}
	}
	if hi != nil {
		if hi.Sign() < 0 {
			qh = bzm1
		} else if ylo != nil && ylo.Sign() > 0 {
			qh = floorDiv(hi, ylo)
		} else {
			qh = hi
		}
	}
	if yhi != nil {
		rh = new(big.Int).Sub(yhi, bz1)
	}
	q := c.Fresh("q", ql, qh)
	r := c.Fresh("r", bz0, rh)
	q.ts[0].atoms[0].def = &atomDef{op: 'q', x: x, y: y}
	r.ts[0].atoms[0].def = &atomDef{op: 'r', x: x, y: y}
	// x = q*y + r ; r < y ; r >= 0 from the interval
	c.side = append(c.side, c.mkB(&B{kind: BEq, x: c.Sub(x, c.Add(c.Mul(q, y), r)), key: fmt.Sprintf("side%d", c.id())}))
	c.side = append(c.side, c.mkB(&B{kind: BLe, x: c.Add(c.Sub(r, y), c.Int(1)), key: fmt.Sprintf("side%d", c.id())}))
	c.divs[k] = [2]*I{q, r}
	return q, r
}

func single(x *I) *Atom {
	if len(x.ts) == 1 && len(x.ts[0].atoms) == 1 && x.ts[0].coef.Cmp(bz1) == 0 {
		return x.ts[0].atoms[0]
	}
	return nil
}

// divOfRounded: floor(rhe(floor(X/a)/p)/p) = floor(X/(a*p*p)) whenever X >= 0 and the fraction
// X/(a*p*p) in lowest terms has a denominator below p (the rounding error, below 1/p, then
// never reaches the next integer, and an integral quotient is not rounded at all).
func (c *Ctx) divOfRounded(x *I, ky *big.Int) *I {
	a := single(x)
	if a == nil || a.def == nil || a.def.op != 'n' || a.def.p.Cmp(ky) != 0 {
		return nil
	}
	p := a.def.p
	num, den := a.def.x, new(big.Int).Mul(p, p)
	if b := single(num); b != nil && b.def != nil && b.def.op == 'q' {
		if k, ok := b.def.y.Const(); ok {
			num = b.def.x
			den.Mul(den, k)
		}
	}
	if lo, _ := c.Iv(num); lo == nil || lo.Sign() < 0 {
		return nil
	}
	g := new(big.Int).Set(den)
	for _, m := range num.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
	}
	den.Quo(den, g)
	if den.Cmp(p) >= 0 {
		return nil
	}
	ts := make([]mterm, len(num.ts))
	for i, m := range num.ts {
		ts[i] = mterm{m.key, m.atoms, new(big.Int).Quo(m.coef, g)}
	}
	q, _ := c.DivMod(c.mk(ts), c.Big(den))
	return q
}

// RoundHalfEven returns round-half-to-even(x / p) for constant p > 0 (even), x any sign.
func (c *Ctx) RoundHalfEven(x *I, p *big.Int) *I {
	if k, ok := x.Const(); ok {
		neg := k.Sign() < 0
		a := new(big.Int).Abs(k)
		q, r := new(big.Int).QuoRem(a, p, new(big.Int))
		h := new(big.Int).Rsh(p, 1)
		switch r.Cmp(h) {
		case 1:
			q.Add(q, bz1)
		case 0:
			if q.Bit(0) == 1 {
				q.Add(q, bz1)
			}
		}
		if neg {
			q.Neg(q)
		}
		return c.Big(q)
	}
	all := true
	for _, m := range x.ts {
		if new(big.Int).Rem(m.coef, p).Sign() != 0 {
			all = false
			break
		}
	}
	if all {
		q, _ := c.DivMod(x, c.Big(p))
		return q
	}
	k := fmt.Sprintf("%d~%s", x.id, p)
	if r, ok := c.rnds[k]; ok {
		return r
	}
	lo, hi := c.Iv(x)
	var rl, rh *big.Int
	if lo != nil {
		rl = floorDiv(lo, p)
	}
	if hi != nil {
		rh = new(big.Int).Add(floorDiv(hi, p), bz1)
		if lo != nil && lo.Sign() >= 0 { // tighten
			t := c.RoundHalfEven(c.Big(hi), p)
			rh, _ = t.Const()
			t = c.RoundHalfEven(c.Big(lo), p)
			rl, _ = t.Const()
		}
	}
	r := c.Fresh("rnd", rl, rh)
	h := c.Fresh("hv", nil, nil)
	r.ts[0].atoms[0].def = &atomDef{op: 'n', x: x, p: p}
	h.ts[0].atoms[0].def = &atomDef{op: 'h', x: x, p: p}
	p2 := new(big.Int).Lsh(p, 1)
	d := c.Sub(c.MulC(r, p2), c.MulC(x, big.NewInt(2))) // 2pr-2x in [-p,p]
	pb := c.Big(p)
	mk := func(kd BKind, t *I) *B { return c.mkB(&B{kind: kd, x: t, key: fmt.Sprintf("side%d", c.id())}) }
	c.side = append(c.side, mk(BLe, c.Sub(d, pb)), mk(BLe, c.Sub(c.Neg(d), pb)))
	tie := c.Or(mk(BEq, c.Sub(d, pb)), mk(BEq, c.Add(d, pb)))
	c.side = append(c.side, c.Or(c.Not(tie), mk(BEq, c.Sub(r, c.MulC(h, big.NewInt(2))))))
	c.rnds[k] = r
	return r
}

// ---------- concrete evaluation under a model

type evaluator struct {
	c   *Ctx
	m   *Model
	mi  map[int]*big.Int
	mb  map[int]bool
	bad bool // a definition was not applicable (divisor not positive)
}

func (c *Ctx) evaluator(m *Model) *evaluator {
	return &evaluator{c: c, m: m, mi: map[int]*big.Int{}, mb: map[int]bool{}}
}

func (c *Ctx) EvalI(t *I, m *Model) *big.Int { return c.evaluator(m).I(t) }
func (c *Ctx) EvalB(b *B, m *Model) bool     { return c.evaluator(m).B(b) }

func (e *evaluator) I(t *I) *big.Int {
	s := new(big.Int)
	for _, x := range t.ts {
		if len(x.atoms) == 0 {
			s.Add(s, x.coef)
			continue
		}
		p := new(big.Int).Set(x.coef)
		for _, a := range x.atoms {
			p.Mul(p, e.atom(a))
		}
		s.Add(s, p)
	}
	return s
}

func (e *evaluator) atom(a *Atom) *big.Int {
	if v, ok := e.mi[a.id]; ok {
		return v
	}
	v := e.atom1(a)
	e.mi[a.id] = v
	return v
}

func (e *evaluator) atom1(a *Atom) *big.Int {
	switch a.kind {
	case AVar:
		if d := a.def; d != nil {
			switch d.op {
			case 'q', 'r':
				y := e.I(d.y)
				if y.Sign() <= 0 {
					e.bad = true
					return bz0
				}
				q, r := new(big.Int), new(big.Int)
				q.DivMod(e.I(d.x), y, r)
				if d.op == 'q' {
					return q
				}
				return r
			case 'n', 'h':
				k, _ := e.c.RoundHalfEven(e.c.Big(e.I(d.x)), d.p).Const()
				if d.op == 'h' {
					return new(big.Int).Rsh(k, 1)
				}
				return k
			}
		}
		if v, ok := e.m.I[a.name]; ok {
			return v
		}
		v := bz0
		if a.lo != nil {
			v = a.lo
		} else if a.hi != nil && a.hi.Sign() < 0 {
			v = a.hi
		}
		e.m.I[a.name] = v // later refinements of the interval must not change the model
		return v
	case AIte:
		if e.B(a.cond) {
			return e.I(a.x)
		}
		return e.I(a.y)
	case AByte:
		v := e.I(a.x)
		sh := new(big.Int).Rsh(v, uint(8*(7-a.bi)))
		return sh.And(sh, big.NewInt(255))
	}
	panic("evalAtom")
}

func (e *evaluator) B(b *B) bool {
	if b.kind == BConst {
		return b.c
	}
	if v, ok := e.mb[b.id]; ok {
		return v
	}
	v := e.b1(b)
	e.mb[b.id] = v
	return v
}

func (e *evaluator) b1(b *B) bool {
	switch b.kind {
	case BVar:
		return e.m.B[b.name]
	case BLe:
		return e.I(b.x).Sign() <= 0
	case BEq:
		return e.I(b.x).Sign() == 0
	case BNot:
		return !e.B(b.args[0])
	case BAnd:
		for _, a := range b.args {
			if !e.B(a) {
				return false
			}
		}
		return true
	case BOr:
		for _, a := range b.args {
			if e.B(a) {
				return true
			}
		}
		return false
	}
	panic("evalB")
}
