package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value any

// ints: *I, bools: *B, strings: string | *OStr, floats: float64
type structure []Value
type array []Value
type tuple []Value
type iface struct {
	t types.Type
	v Value
}
type closure struct {
	fn  *ssa.Function
	env []Value
}
type OStr struct { // opaque string: only identity is known, unless it has bytes
	desc string
	b    []Value // *I each; nil if unknown
	// the text of some coins: denominations and amounts (the text determines them)
	denoms []string
	amts   []*I
}

// strBytes returns the bytes of a string if they are known terms.
func (p *Path) strBytes(v Value) ([]Value, bool) {
	switch x := v.(type) {
	case string:
		return p.toBytes(x), true
	case *OStr:
		return x.b, x.b != nil
	}
	return nil, false
}

// symStr is the string of some byte terms.
func symStr(b []Value) (Value, bool) {
	for _, x := range b {
		if _, ok := x.(*I); !ok {
			return nil, false
		}
	}
	if s, ok := concBytes(b); ok {
		return s, true
	}
	return &OStr{desc: "bytes", b: append([]Value{}, b...)}, true
}
type blob struct {              // serialized message
	t types.Type // pointee struct type
	v Value
}
type opaque struct{ desc string } // opaque non-pointer object

// ratio is the exact value of a symbolic float64 which comes from a time.Duration.
type ratio struct {
	n *I
	d *big.Int
}

type hentry struct {
	k, v Value
	del  bool
}
type hmap struct {
	ents []*hentry
	n    int
	idx  map[string]*hentry // concrete keys
	sym  bool               // has symbolic keys
}

type mapIter struct {
	m     *hmap
	order []*hentry
	pos   int
}
type strIter struct {
	s   string
	pos int
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (p *Path) zero(t types.Type) Value {
	if isBigInt(t) {
		return p.c.Int(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return p.c.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return p.c.Int(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Chan:
		return nil
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = p.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tu := make(tuple, u.Len())
		for i := range tu {
			tu[i] = p.zero(u.At(i).Type())
		}
		return tu
	}
	p.unsupported("zero value of %s", t)
	return nil
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	}
	return v
}

// clone deep-copies a protobuf message value (pointers, slices, maps duplicated), applying
// proto3 normalisation: empty slices become nil and nil big ints become zero.
func (p *Path) clone(v Value, t types.Type) Value {
	if isBigInt(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(structure)
		if !ok {
			p.unsupported("clone struct %s from %T", t, v)
		}
		out := make(structure, len(s))
		for i := range s {
			ft := u.Field(i).Type()
			if pt, ok := ft.Underlying().(*types.Pointer); ok && isBigInt(pt.Elem()) {
				q := s[i].(*Value)
				var nv Value = p.c.Int(0)
				if q != nil {
					nv = *q
				}
				out[i] = &nv
				continue
			}
			out[i] = p.clone(s[i], ft)
		}
		return out
	case *types.Pointer:
		q := v.(*Value)
		if q == nil {
			return q
		}
		nv := p.clone(*q, u.Elem())
		return &nv
	case *types.Slice:
		sl := v.([]Value)
		if len(sl) == 0 {
			return []Value(nil)
		}
		out := make([]Value, len(sl))
		for i := range sl {
			out[i] = p.clone(sl[i], u.Elem())
		}
		return out
	case *types.Array:
		a := v.(array)
		out := make(array, len(a))
		for i := range a {
			out[i] = p.clone(a[i], u.Elem())
		}
		return out
	case *types.Map:
		m := v.(*hmap)
		if m == nil || m.n == 0 {
			return (*hmap)(nil)
		}
		out := &hmap{idx: map[string]*hentry{}}
		for _, e := range m.ents {
			if !e.del {
				p.mapSet(out, e.k, p.clone(e.v, u.Elem()))
			}
		}
		return out
	case *types.Interface:
		f := v.(iface)
		if f.t == nil {
			return f
		}
		return iface{f.t, p.clone(f.v, f.t)}
	}
	return v
}

// ---------- equality

func (p *Path) eq(t types.Type, a, b Value) *B {
	switch x := a.(type) {
	case *I:
		return p.c.Eq(x, b.(*I))
	case *B:
		y := b.(*B)
		return p.c.Or(p.c.And(x, y), p.c.And(p.c.Not(x), p.c.Not(y)))
	case string:
		if y, ok := b.(string); ok {
			return p.c.Bool(x == y)
		}
		if x == "" {
			return p.c.Bool(false) // opaque strings are never empty
		}
		if y, ok := p.strBytes(b); ok {
			return p.bytesEq(p.toBytes(x), y)
		}
		p.unsupported("comparison of opaque string %s", b.(*OStr).desc)
	case *OStr:
		if y, ok := b.(*OStr); ok && x == y {
			return p.c.Bool(true)
		}
		if y, ok := b.(string); ok && y == "" {
			return p.c.Bool(false)
		}
		if y, ok := p.strBytes(b); ok && x.b != nil {
			return p.bytesEq(x.b, y)
		}
		if y, ok := b.(*OStr); ok && x.denoms != nil && y.denoms != nil {
			if len(x.denoms) != len(y.denoms) {
				return p.c.Bool(false)
			}
			var r []*B
			for i, d := range x.denoms {
				if d != y.denoms[i] {
					return p.c.Bool(false)
				}
				r = append(r, p.c.Eq(x.amts[i], y.amts[i]))
			}
			return p.c.And(r...)
		}
		p.unsupported("comparison of opaque string %s", x.desc)
	case float64:
		return p.c.Bool(x == b.(float64))
	case *Value:
		return p.c.Bool(x == b.(*Value))
	case *hmap:
		return p.c.Bool(x == b.(*hmap))
	case *closure:
		return p.c.Bool(x == b.(*closure))
	case []Value:
		y := b.([]Value)
		if x == nil || y == nil {
			return p.c.Bool(x == nil && y == nil)
		}
		p.unsupported("slice comparison")
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return p.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return p.c.Bool(false)
		}
		return p.eq(x.t, x.v, y.v)
	case structure:
		y := b.(structure)
		st := t.Underlying().(*types.Struct)
		r := p.c.Bool(true)
		for i := range x {
			r = p.c.And(r, p.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case array:
		y := b.(array)
		et := t.Underlying().(*types.Array).Elem()
		r := p.c.Bool(true)
		for i := range x {
			r = p.c.And(r, p.eq(et, x[i], y[i]))
		}
		return r
	case nil:
		return p.c.Bool(b == nil)
	}
	p.unsupported("eq %T %T", a, b)
	return nil
}

// ---------- maps

func keyStr(k Value) (string, bool) {
	switch x := k.(type) {
	case string:
		return "s" + x, true
	case *I:
		if v, ok := x.Const(); ok {
			return "i" + v.String(), true
		}
		return "", false
	case *B:
		if x.kind == BConst {
			return fmt.Sprint("b", x.c), true
		}
		return "", false
	case float64:
		return fmt.Sprint("f", x), true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := keyStr(x.v)
		return "t" + types.TypeString(x.t, nil) + s, ok
	case structure:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x {
			s, ok := keyStr(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case array:
		return keyStr(structure(x))
	}
	return "", false
}

func (p *Path) mapFind(m *hmap, k Value) *hentry {
	if m == nil {
		return nil
	}
	ks, ok := keyStr(k)
	if ok && !m.sym {
		return m.idx[ks]
	}
	if !ok || m.sym {
		if o, isO := k.(*OStr); isO && o.b == nil {
			p.unsupported("opaque string as map key")
		}
		for _, e := range m.ents {
			if e.del {
				continue
			}
			if p.Branch(p.eqKey(e.k, k)) {
				return e
			}
		}
	}
	return nil
}
func (p *Path) eqKey(a, b Value) *B {
	return p.eq(types.Typ[types.Int], a, b)
}
func (p *Path) mapSet(m *hmap, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &hentry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ks, ok := keyStr(k); ok {
		m.idx[ks] = e
	} else {
		m.sym = true
	}
}
func (p *Path) mapDel(m *hmap, k Value) {
	if e := p.mapFind(m, k); e != nil {
		e.del = true
		m.n--
		if ks, ok := keyStr(e.k); ok {
			delete(m.idx, ks)
		}
		for i, x := range m.ents {
			if x == e {
				m.ents = append(append([]*hentry{}, m.ents[:i]...), m.ents[i+1:]...)
				break
			}
		}
	}
}

// ---------- byte strings

func (p *Path) toBytes(s string) []Value {
	out := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = p.byteConst(s[i])
	}
	return out
}
func (p *Path) byteConst(b byte) *I {
	if p.bytesC[b] == nil {
		p.bytesC[b] = p.c.Int(int64(b))
	}
	return p.bytesC[b]
}
func concBytes(v []Value) (string, bool) {
	b := make([]byte, len(v))
	for i, x := range v {
		t, ok := x.(*I)
		if !ok {
			return "", false
		}
		k, ok := t.Const()
		if !ok {
			return "", false
		}
		b[i] = byte(k.Int64())
	}
	return string(b), true
}

// group8 reads 8 bytes at v[0:8] as a big-endian integer term if possible.
func (p *Path) group8(v []Value) (*I, bool) {
	if len(v) < 8 {
		return nil, false
	}
	t0, ok := v[0].(*I)
	if !ok {
		return nil, false
	}
	if x, i, ok := t0.asByte(); ok && i == 0 {
		for j := 1; j < 8; j++ {
			t, ok := v[j].(*I)
			if !ok {
				return nil, false
			}
			y, k, ok := t.asByte()
			if !ok || y != x || k != j {
				return nil, false
			}
		}
		return x, true
	}
	acc := new(big.Int)
	for j := 0; j < 8; j++ {
		t, ok := v[j].(*I)
		if !ok {
			return nil, false
		}
		k, ok := t.Const()
		if !ok {
			return nil, false
		}
		acc.Lsh(acc, 8).Or(acc, k)
	}
	return p.c.Big(acc), true
}

// groupTop reads fewer than 8 bytes as the leading bytes of a big-endian 64 bit integer
// whose other bytes are zero.
func (p *Path) groupTop(v []Value) (*I, bool) {
	n := len(v)
	if n == 0 || n > 7 {
		return nil, false
	}
	var of *I
	acc := new(big.Int)
	for j := range v {
		t, ok := v[j].(*I)
		if !ok {
			return nil, false
		}
		if k, ok := t.Const(); ok && of == nil {
			acc.Lsh(acc, 8).Or(acc, k)
			if j == n-1 {
				return p.c.Big(acc.Lsh(acc, uint(8*(8-n)))), true
			}
			continue
		}
		x, k, ok := t.asByte()
		if !ok || k != j || (j > 0 && x != of) {
			return nil, false
		}
		of = x
	}
	if p.lowZero[of] >= 8-n {
		return of, true
	}
	sh := new(big.Int).Lsh(bz1, uint(8*(8-n)))
	q, _ := p.c.DivMod(of, p.c.Big(sh))
	return p.c.MulC(q, sh), true
}

// prefixEnd is the smallest key larger than all keys which start with v.
func (p *Path) prefixEnd(v []Value) []Value {
	for i := len(v); i > 0; {
		if i >= 8 {
			if g, ok := p.group8(v[i-8 : i]); ok {
				if _, c := g.Const(); !c {
					next := p.c.Add(g, p.c.Int(1))
					// the last bytes which are 255 become zero and are dropped
					rest := next
					for j := 8; j > 0; j-- {
						q, r := p.c.DivMod(rest, p.c.Int(256))
						if !p.Branch(p.c.Eq(r, p.c.Int(0))) {
							if p.lowZero == nil {
								p.lowZero = map[*I]int{}
							}
							p.lowZero[next] = 8 - j
							out := append([]Value{}, v[:i-8]...)
							for l := 0; l < j; l++ {
								out = append(out, p.c.Byte(next, l))
							}
							return out
						}
						rest = q
					}
					i -= 8
					continue
				}
			}
		}
		b := v[i-1].(*I)
		if p.Branch(p.c.Eq(b, p.c.Int(255))) {
			i--
			continue
		}
		out := append([]Value{}, v[:i]...)
		out[i-1] = p.c.Add(b, p.c.Int(1))
		return out
	}
	return nil
}

func isBlob(v []Value) bool {
	if len(v) == 1 {
		_, ok := v[0].(*blob)
		return ok
	}
	return false
}

// bytesEq returns the condition under which two byte strings are equal.
func (p *Path) bytesEq(a, b []Value) *B {
	if len(a) != len(b) {
		return p.c.Bool(false)
	}
	r := p.c.Bool(true)
	for i := 0; i < len(a); {
		if x, ok := a[i].(*blob); ok {
			y, ok := b[i].(*blob)
			if !ok {
				return p.c.Bool(false)
			}
			if x != y {
				p.unsupported("comparison of serialized messages")
			}
			i++
			continue
		}
		x, y := a[i].(*I), b[i].(*I)
		if x == y {
			i++
			continue
		}
		_, c1 := x.Const()
		_, c2 := y.Const()
		if c1 && c2 {
			return p.c.Bool(false)
		}
		ga, ok1 := p.group8(a[i:])
		gb, ok2 := p.group8(b[i:])
		if ok1 && ok2 {
			r = p.c.And(r, p.c.Eq(ga, gb))
			i += 8
			continue
		}
		r = p.c.And(r, p.c.Eq(x, y))
		i++
	}
	return r
}

// bytesLess: lexicographic a < b.
func (p *Path) bytesLess(a, b []Value) *B {
	return p.bytesLessAt(a, b, 0)
}
func (p *Path) bytesLessAt(a, b []Value, i int) *B {
	for {
		if i >= len(b) {
			return p.c.Bool(false)
		}
		if i >= len(a) {
			return p.c.Bool(true)
		}
		x, y := a[i].(*I), b[i].(*I)
		if x == y {
			i++
			continue
		}
		_, c1 := x.Const()
		_, c2 := y.Const()
		if c1 && c2 {
			return p.c.Lt(x, y)
		}
		ga, ok1 := p.group8(a[i:])
		gb, ok2 := p.group8(b[i:])
		if ok1 && ok2 {
			return p.c.Or(p.c.Lt(ga, gb), p.c.And(p.c.Eq(ga, gb), p.bytesLessAt(a, b, i+8)))
		}
		// an integer against the leading bytes of one
		if ok1 && len(b)-i < 8 {
			if t, ok := p.groupTop(b[i:]); ok {
				return p.c.Lt(ga, t)
			}
		}
		if ok2 && len(a)-i < 8 {
			if t, ok := p.groupTop(a[i:]); ok {
				return p.c.Not(p.c.Lt(gb, t))
			}
		}
		return p.c.Or(p.c.Lt(x, y), p.c.And(p.c.Eq(x, y), p.bytesLessAt(a, b, i+1)))
	}
}
