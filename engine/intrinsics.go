package main

// Models of functions that are not interpreted from source: arbitrary-precision integers
// (mapped to solver integers), assembly-backed helpers, formatting, serialization and
// address encoding. Everything else is executed from the real source.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type extFn func(p *Path, fn *ssa.Function, args []Value) Value

const (
	repoPkgPrefix = "github.com/KYVENetwork/chain/"
	vsPkg         = "github.com/KYVENetwork/chain/zz_verif/vs"
)

var (
	debugPanics bool
	dumpDir     string
)

func writeFile(name, txt string) { os.WriteFile(name, []byte(txt), 0o644) }

var sanRe = regexp.MustCompile(`[^A-Za-z0-9_.-]+`)

func sanitize(s string) string {
	s = sanRe.ReplaceAllString(s, "_")
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// ---------- helpers

func big1(v *Value) *I {
	t, ok := (*v).(*I)
	if !ok {
		panic(fmt.Sprintf("big.Int cell holds %T", *v))
	}
	return t
}

func (p *Path) bigArg(v Value) *I {
	c, ok := v.(*Value)
	if !ok || c == nil {
		p.nilDeref()
	}
	return big1(c)
}
func (p *Path) bigSet(recv Value, t *I) Value {
	c, ok := recv.(*Value)
	if !ok || c == nil {
		p.nilDeref()
	}
	*c = t
	return recv
}
func (p *Path) newBig(t *I) Value {
	var v Value = t
	return &v
}

func (p *Path) absI(x *I) *I {
	if p.Branch(p.c.Le(p.c.Int(0), x)) {
		return x
	}
	return p.c.Neg(x)
}

func (p *Path) sign(x *I) *I {
	return p.c.Ite(p.c.Lt(x, p.c.Int(0)), p.c.Int(-1), p.c.Ite(p.c.EqZ(x), p.c.Int(0), p.c.Int(1)))
}

func (p *Path) inRange(x *I, lo, hi *big.Int) *B {
	return p.c.And(p.c.Le(p.c.Big(lo), x), p.c.Le(x, p.c.Big(hi)))
}

var (
	maxU64 = new(big.Int).Sub(two64, bz1)
	minI64 = new(big.Int).Neg(two63)
	maxI64 = new(big.Int).Sub(two63, bz1)
	ten18  = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
)

// bitLen forks over the few thresholds that matter to callers (256, 315, 316).
func (p *Path) bitLen(x *I) *I {
	if k, ok := x.Const(); ok {
		return p.c.Int(int64(k.BitLen()))
	}
	for _, n := range []uint{64, 128, 256, 315} {
		m := new(big.Int).Lsh(bz1, n)
		lo, hi := p.c.Iv(x)
		nm := new(big.Int).Neg(m)
		if lo != nil && hi != nil && lo.Cmp(nm) > 0 && hi.Cmp(m) < 0 {
			return p.c.Fresh("bitlen", bz0, big.NewInt(int64(n)))
		}
	}
	m := new(big.Int).Lsh(bz1, 256)
	if p.Branch(p.c.And(p.c.Lt(p.c.Neg(p.c.Big(m)), x), p.c.Lt(x, p.c.Big(m)))) {
		return p.c.Fresh("bitlen", bz0, big.NewInt(256))
	}
	m = new(big.Int).Lsh(bz1, 315)
	if p.Branch(p.c.And(p.c.Lt(p.c.Neg(p.c.Big(m)), x), p.c.Lt(x, p.c.Big(m)))) {
		return p.c.Fresh("bitlen", big.NewInt(257), big.NewInt(315))
	}
	return p.c.Fresh("bitlen", big.NewInt(316), big.NewInt(100000))
}

func (p *Path) str(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	if o, ok := v.(*OStr); ok {
		p.unsupported("concrete string needed, have %s", o.desc)
	}
	p.unsupported("concrete string needed, have %T", v)
	return ""
}

func (p *Path) mkErr(msg string) Value {
	t := p.e.prog.namedType("errors", "errorString")
	if t == nil {
		p.unsupported("errors.errorString not loaded")
	}
	var s Value = structure{msg}
	return iface{types.NewPointer(t), &s}
}
func (p *Path) nilErr() Value { return iface{} }

// native renders a value as a native Go value for formatting.
func (p *Path) native(v Value, depth int) (any, bool) {
	if depth > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return nil, true
		}
		// Error()/String() methods
		for _, m := range []string{"Error", "String"} {
			f := p.e.prog.method(x.t, nil, m)
			if f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				r := p.call(f, []Value{copyVal(x.v)}, nil)
				if s, ok := r.(string); ok {
					return s, true
				}
				return nil, false
			}
		}
		if b, ok := x.t.Underlying().(*types.Basic); ok {
			if t, ok := x.v.(*I); ok {
				k, ok := t.Const()
				if !ok {
					return nil, false
				}
				if b.Info()&types.IsUnsigned != 0 {
					return k.Uint64(), true
				}
				return k.Int64(), true
			}
		}
		return p.native(x.v, depth+1)
	case string:
		return x, true
	case float64:
		return x, true
	case *I:
		k, ok := x.Const()
		if !ok {
			return nil, false
		}
		return k.Int64(), true
	case *B:
		if x.kind != BConst {
			return nil, false
		}
		return x.c, true
	case []Value:
		if s, ok := concBytes(x); ok && len(x) > 0 {
			return []byte(s), true
		}
		var out []any
		for _, e := range x {
			n, ok := p.native(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, n)
		}
		return out, true
	}
	return nil, false
}

func (p *Path) sprintf(format string, va Value) Value {
	args, _ := va.([]Value)
	nat := make([]any, len(args))
	for i, a := range args {
		n, ok := p.native(a, 0)
		if !ok {
			return &OStr{desc: "fmt(" + format + ")"}
		}
		nat[i] = n
	}
	return fmt.Sprintf(format, nat...)
}

// descr renders a value for messages.
func (p *Path) descr(v Value) string {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return "nil"
		}
		var r string
		func() {
			defer func() {
				if e := recover(); e != nil {
					r = x.t.String()
				}
			}()
			if n, ok := p.native(x, 0); ok {
				r = fmt.Sprint(n)
			} else if o, ok := x.v.(*OStr); ok {
				r = o.desc
			} else {
				r = x.t.String()
			}
		}()
		return r
	case string:
		return x
	case *OStr:
		return x.desc
	case *I:
		if k, ok := x.Const(); ok {
			return k.String()
		}
		return "<int>"
	}
	return fmt.Sprintf("%T", v)
}

func (p *Path) bytesOf(s string) []Value {
	r := p.toBytes(s)
	if r == nil {
		r = []Value{}
	}
	return r
}

func (p *Path) intOf(n int) *I { return p.c.Int(int64(n)) }

// ---------- address model: bytes = []byte(bech32) for well-known strings

const addrMark = "kyve1"

func (p *Path) addrFromStr(s string) ([]Value, string) {
	t := strings.TrimSpace(s)
	if t == "" {
		return nil, "empty address string is not allowed"
	}
	if !strings.HasPrefix(s, addrMark) {
		return nil, "decoding bech32 failed"
	}
	if strings.HasPrefix(s, "kyve1m:") {
		return p.bytesOf(s[len("kyve1m:"):]), ""
	}
	if strings.Contains(s, "invalid") {
		return nil, "decoding bech32 failed"
	}
	return p.bytesOf(s), ""
}

func addrToStr(raw string) string {
	if raw == "" {
		return ""
	}
	if strings.HasPrefix(raw, addrMark) {
		return raw
	}
	return "kyve1m:" + raw
}

// ---------- the table

var exts map[string]extFn
var globalOverride = map[string]func(p *Path, t types.Type) Value{}

func lookupExt(name string, fn *ssa.Function) extFn {
	if f, ok := exts[name]; ok {
		return f
	}
	for _, pr := range prefixExts {
		if strings.HasPrefix(name, pr.prefix) {
			return pr.f
		}
	}
	if fn != nil && fn.Name() == "Marshal" && strings.HasPrefix(name, "(*"+repoPkgPrefix) && fn.Pos().IsValid() && strings.HasSuffix(fn.Prog.Fset.Position(fn.Pos()).Filename, ".pb.go") {
		return marshalExt
	}
	return nil
}

// marshalExt is the generated encoder of a message: as with the codec, the bytes stay opaque.
func marshalExt(p *Path, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Value)
	t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	return tuple{[]Value{&blob{t, p.clone(*c, t)}}, p.nilErr()}
}

type prefixExt struct {
	prefix string
	f      extFn
}

var prefixExts []prefixExt

func noop(p *Path, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(res.At(0).Type())
	}
	return p.zero(res)
}

func retRecv(p *Path, fn *ssa.Function, args []Value) Value { return args[0] }

func fmtExt(i int) extFn {
	return func(p *Path, fn *ssa.Function, args []Value) Value {
		f, ok := args[i].(string)
		if !ok {
			return &OStr{desc: "fmt"}
		}
		return p.sprintf(f, args[i+1])
	}
}

type text struct{ s string }

func (t text) String() string { return t.s }

func (p *Path) sprint(v Value, ln bool) Value {
	args := v.([]Value)
	nat := make([]any, len(args))
	for i, a := range args {
		n, ok := p.native(a, 0)
		if !ok {
			return &OStr{desc: "sprint"}
		}
		if s, ok := n.(string); ok {
			if b, isB := a.(iface).t.Underlying().(*types.Basic); !isB || b.Info()&types.IsString == 0 {
				n = text{s} // no operand of string type
			}
		}
		nat[i] = n
	}
	if ln {
		return fmt.Sprintln(nat...)
	}
	return fmt.Sprint(nat...)
}

func init() {
	exts = map[string]extFn{}
	bi := func(name string, f extFn) { exts["(*math/big.Int)."+name] = f }
	exts["math/big.NewInt"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.newBig(a[0].(*I)) }
	set := func(p *Path, fn *ssa.Function, a []Value) Value { return p.bigSet(a[0], p.bigArg(a[1])) }
	bi("Set", set)
	bi("SetInt64", func(p *Path, fn *ssa.Function, a []Value) Value { return p.bigSet(a[0], a[1].(*I)) })
	bi("SetUint64", func(p *Path, fn *ssa.Function, a []Value) Value { return p.bigSet(a[0], a[1].(*I)) })
	bi("Add", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.bigSet(a[0], p.c.Add(p.bigArg(a[1]), p.bigArg(a[2])))
	})
	bi("Sub", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.bigSet(a[0], p.c.Sub(p.bigArg(a[1]), p.bigArg(a[2])))
	})
	bi("Mul", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.bigSet(a[0], p.mul(p.bigArg(a[1]), p.bigArg(a[2])))
	})
	bi("Neg", func(p *Path, fn *ssa.Function, a []Value) Value { return p.bigSet(a[0], p.c.Neg(p.bigArg(a[1]))) })
	bi("Abs", func(p *Path, fn *ssa.Function, a []Value) Value { return p.bigSet(a[0], p.absI(p.bigArg(a[1]))) })
	divz := func(p *Path, y *I) {
		if p.Branch(p.c.Eq(y, p.c.Int(0))) {
			p.panicStr("division by zero")
		}
	}
	bi("Quo", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		divz(p, y)
		q, _ := p.quoRem(x, y)
		return p.bigSet(a[0], q)
	})
	bi("Rem", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		divz(p, y)
		_, r := p.quoRem(x, y)
		return p.bigSet(a[0], r)
	})
	bi("QuoRem", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		divz(p, y)
		q, r := p.quoRem(x, y)
		p.bigSet(a[3], r)
		return tuple{p.bigSet(a[0], q), a[3]}
	})
	bi("Mod", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		divz(p, y)
		_, r := p.c.DivMod(x, p.absI(y))
		return p.bigSet(a[0], r)
	})
	bi("Div", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		divz(p, y)
		yn := !p.Branch(p.c.Lt(p.c.Int(0), y))
		if yn {
			y = p.c.Neg(y)
		}
		q, _ := p.c.DivMod(x, y)
		if yn {
			q = p.c.Neg(q)
		}
		return p.bigSet(a[0], q)
	})
	bi("Cmp", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.sign(p.c.Sub(p.bigArg(a[0]), p.bigArg(a[1])))
	})
	bi("Sign", func(p *Path, fn *ssa.Function, a []Value) Value { return p.sign(p.bigArg(a[0])) })
	bi("IsInt64", func(p *Path, fn *ssa.Function, a []Value) Value { return p.inRange(p.bigArg(a[0]), minI64, maxI64) })
	bi("IsUint64", func(p *Path, fn *ssa.Function, a []Value) Value { return p.inRange(p.bigArg(a[0]), bz0, maxU64) })
	bi("Int64", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.wrap(p.bigArg(a[0]), types.Typ[types.Int64])
	})
	bi("Uint64", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.wrap(p.bigArg(a[0]), types.Typ[types.Uint64])
	})
	bi("Bit", func(p *Path, fn *ssa.Function, a []Value) Value {
		k, ok := a[1].(*I).Const()
		if !ok {
			p.unsupported("symbolic bit index")
		}
		q, _ := p.c.DivMod(p.bigArg(a[0]), p.c.Big(new(big.Int).Lsh(bz1, uint(k.Uint64()))))
		_, r := p.c.DivMod(q, p.c.Int(2))
		return r
	})
	bi("BitLen", func(p *Path, fn *ssa.Function, a []Value) Value { return p.bitLen(p.bigArg(a[0])) })
	bi("Exp", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		kx, o1 := x.Const()
		ky, o2 := y.Const()
		if !o1 || !o2 {
			p.unsupported("symbolic exponentiation")
		}
		return p.bigSet(a[0], p.c.Big(new(big.Int).Exp(kx, ky, nil)))
	})
	bi("Lsh", func(p *Path, fn *ssa.Function, a []Value) Value {
		k, ok := a[2].(*I).Const()
		if !ok {
			p.unsupported("symbolic shift")
		}
		return p.bigSet(a[0], p.c.MulC(p.bigArg(a[1]), new(big.Int).Lsh(bz1, uint(k.Uint64()))))
	})
	bi("Rsh", func(p *Path, fn *ssa.Function, a []Value) Value {
		k, ok := a[2].(*I).Const()
		if !ok {
			p.unsupported("symbolic shift")
		}
		q, _ := p.c.DivMod(p.bigArg(a[1]), p.c.Big(new(big.Int).Lsh(bz1, uint(k.Uint64()))))
		return p.bigSet(a[0], q)
	})
	bi("CmpAbs", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.sign(p.c.Sub(p.absI(p.bigArg(a[0])), p.absI(p.bigArg(a[1]))))
	})
	bi("DivMod", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bigArg(a[1]), p.bigArg(a[2])
		divz(p, y)
		yn := !p.Branch(p.c.Lt(p.c.Int(0), y))
		if yn {
			y = p.c.Neg(y)
		}
		q, r := p.c.DivMod(x, y)
		if yn {
			q = p.c.Neg(q)
		}
		p.bigSet(a[3], r)
		return tuple{p.bigSet(a[0], q), a[3]}
	})
	bi("Bytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		k, ok := p.bigArg(a[0]).Const()
		if !ok {
			p.unsupported("big.Int.Bytes")
		}
		return p.bytesOf(string(k.Bytes()))
	})
	bi("FillBytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, b := p.absI(p.bigArg(a[0])), a[1].([]Value)
		if p.Branch(p.c.Le(p.c.Big(new(big.Int).Lsh(bz1, uint(8*len(b)))), x)) {
			p.panicStr("math/big: buffer too small to fit value")
		}
		for i := range b {
			q, _ := p.c.DivMod(x, p.c.Big(new(big.Int).Lsh(bz1, uint(8*(len(b)-1-i)))))
			_, b[i] = p.c.DivMod(q, p.c.Int(256))
		}
		return b
	})
	bi("String", func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		if c == nil {
			return "<nil>"
		}
		if k, ok := big1(c).Const(); ok {
			return k.String()
		}
		return &OStr{desc: "big.String"}
	})
	exts["(*math/big.Int).Text"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if k, ok := p.bigArg(a[0]).Const(); ok {
			if b, ok := a[1].(*I).Const(); ok {
				return k.Text(int(b.Int64()))
			}
		}
		return &OStr{desc: "big.Text"}
	}
	bi("SetString", func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.str(a[1])
		b, _ := a[2].(*I).Const()
		n, ok := new(big.Int).SetString(s, int(b.Int64()))
		if !ok {
			return tuple{(*Value)(nil), p.c.Bool(false)}
		}
		return tuple{p.bigSet(a[0], p.c.Big(n)), p.c.Bool(true)}
	})
	exts["(cosmossdk.io/math.LegacyDec).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[0].(structure)[0].(*Value)
		if c == nil {
			return "<nil>"
		}
		k, ok := big1(c).Const()
		if !ok {
			return &OStr{desc: "dec.String"}
		}
		t := fmt.Sprintf("%019s", new(big.Int).Abs(k).String())
		t = t[:len(t)-18] + "." + t[len(t)-18:]
		if k.Sign() < 0 {
			t = "-" + t
		}
		return t
	}
	bi("MarshalText", func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		if c == nil {
			return tuple{p.bytesOf("<nil>"), p.nilErr()}
		}
		if k, ok := big1(c).Const(); ok {
			return tuple{p.bytesOf(k.String()), p.nilErr()}
		}
		return tuple{[]Value{&blob{nil, &OStr{desc: "bigtext"}}}, p.nilErr()}
	})
	bi("UnmarshalText", func(p *Path, fn *ssa.Function, a []Value) Value {
		s, ok := concBytes(a[1].([]Value))
		if !ok {
			p.unsupported("UnmarshalText of symbolic bytes")
		}
		n, ok := new(big.Int).SetString(s, 0)
		if !ok {
			return p.mkErr("cannot unmarshal into a *big.Int")
		}
		p.bigSet(a[0], p.c.Big(n))
		return p.nilErr()
	})
	for _, m := range []string{"Bits", "SetBits", "SetBytes", "GobEncode", "Format", "Append", "And", "Or", "Xor", "Not", "Sqrt", "GCD", "ModInverse"} {
		m := m
		bi(m, func(p *Path, fn *ssa.Function, a []Value) Value {
			p.unsupported("big.Int.%s", m)
			return nil
		})
	}

	// cosmossdk.io/math rounding kernels: encoded exactly, without forking on the rounding mode.
	// (the engine's self-test compares these encodings with the source on concrete values)
	exts["cosmossdk.io/math.chopPrecisionAndRound"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.bigSet(a[0], p.c.RoundHalfEven(p.bigArg(a[0]), ten18))
	}
	exts["cosmossdk.io/math.bigIntOverflows"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		m := new(big.Int).Lsh(bz1, 256)
		x := p.bigArg(a[0])
		return p.c.Or(p.c.Le(p.c.Big(m), x), p.c.Le(x, p.c.Neg(p.c.Big(m))))
	}

	// ---- encoding/binary
	for _, r := range []string{"(encoding/binary.bigEndian).", "(encoding/binary.littleEndian)."} {
		le := strings.Contains(r, "little")
		put := func(p *Path, b []Value, x *I, n int) {
			for i := 0; i < n; i++ {
				j := i
				if le {
					j = n - 1 - i
				}
				b[i] = p.c.Byte(x, 8-n+j)
			}
		}
		exts[r+"PutUint64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			b := a[1].([]Value)
			if len(b) < 8 {
				p.panicStr("runtime error: index out of range")
			}
			put(p, b, a[2].(*I), 8)
			return nil
		}
		exts[r+"PutUint32"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			b := a[1].([]Value)
			if len(b) < 4 {
				p.panicStr("runtime error: index out of range")
			}
			put(p, b, a[2].(*I), 4)
			return nil
		}
		exts[r+"AppendUint64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			b := a[1].([]Value)
			t := make([]Value, 8)
			put(p, t, a[2].(*I), 8)
			out := make([]Value, 0, len(b)+8)
			return append(append(out, b...), t...)
		}
		exts[r+"Uint64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			b := a[1].([]Value)
			if len(b) < 8 {
				p.panicStr("runtime error: index out of range")
			}
			if !le {
				if g, ok := p.group8(b); ok {
					return g
				}
			}
			acc := p.c.Int(0)
			for i := 0; i < 8; i++ {
				j := i
				if le {
					j = 7 - i
				}
				acc = p.c.Add(p.c.MulC(acc, big.NewInt(256)), b[j].(*I))
			}
			return acc
		}
	}

	exts["cosmossdk.io/store/types.PrefixEndBytes"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.prefixEnd(a[0].([]Value))
	}

	// ---- bytes
	exts["bytes.Equal"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.bytesEq(a[0].([]Value), a[1].([]Value))
	}
	exts["bytes.Compare"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].([]Value), a[1].([]Value)
		eq := p.bytesEq(x, y)
		return p.c.Ite(eq, p.c.Int(0), p.c.Ite(p.bytesLess(x, y), p.c.Int(-1), p.c.Int(1)))
	}
	exts["strings.Compare"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.intOf(strings.Compare(p.str(a[0]), p.str(a[1])))
	}
	exts["internal/bytealg.CompareString"] = exts["strings.Compare"]
	exts["internal/bytealg.IndexByteString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k, _ := a[1].(*I).Const()
		return p.intOf(strings.IndexByte(p.str(a[0]), byte(k.Int64())))
	}
	exts["internal/bytealg.CountString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k, _ := a[1].(*I).Const()
		return p.intOf(strings.Count(p.str(a[0]), string([]byte{byte(k.Int64())})))
	}
	exts["internal/bytealg.IndexString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.intOf(strings.Index(p.str(a[0]), p.str(a[1])))
	}
	exts["strings.Index"] = exts["internal/bytealg.IndexString"]
	exts["internal/bytealg.IndexByte"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, ok := concBytes(a[0].([]Value))
		if !ok {
			p.unsupported("IndexByte symbolic")
		}
		k, _ := a[1].(*I).Const()
		return p.intOf(bytes.IndexByte([]byte(s), byte(k.Int64())))
	}
	exts["internal/bytealg.MakeNoZero"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.concInt(a[0].(*I), "makenozero")
		out := make([]Value, n)
		for i := range out {
			out[i] = p.byteConst(0)
		}
		return out
	}
	exts["(*strings.Builder).copyCheck"] = noop
	exts["(*strings.Builder).grow"] = noop
	exts["(*strings.Builder).WriteString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		s := (*c).(structure)
		buf, _ := s[1].([]Value)
		switch x := a[1].(type) {
		case string:
			s[1] = append(append([]Value{}, buf...), p.toBytes(x)...)
			return tuple{p.intOf(len(x)), p.nilErr()}
		case *OStr:
			s[1] = append(append([]Value{}, buf...), &blob{nil, x})
			return tuple{p.intOf(1), p.nilErr()}
		}
		return nil
	}
	exts["(*strings.Builder).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		s := (*c).(structure)
		buf, _ := s[1].([]Value)
		if r, ok := concBytes(buf); ok {
			return r
		}
		return &OStr{desc: "builder"}
	}
	exts["(*strings.Builder).Len"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		buf, _ := (*(a[0].(*Value))).(structure)[1].([]Value)
		return p.intOf(len(buf))
	}
	str1 := map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace}
	for n, f := range str1 {
		f := f
		exts[n] = func(p *Path, fn *ssa.Function, a []Value) Value {
			s, ok := a[0].(string)
			if !ok {
				return a[0]
			}
			return f(s)
		}
	}
	strb := map[string]func(string, string) bool{"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.EqualFold": strings.EqualFold}
	for n, f := range strb {
		f := f
		exts[n] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Bool(f(p.str(a[0]), p.str(a[1]))) }
	}
	exts["strings.Split"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		var out []Value
		for _, s := range strings.Split(p.str(a[0]), p.str(a[1])) {
			out = append(out, s)
		}
		return out
	}
	exts["strings.Join"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		var ss []string
		for _, x := range a[0].([]Value) {
			s, ok := x.(string)
			if !ok {
				return &OStr{desc: "join"}
			}
			ss = append(ss, s)
		}
		sep, ok := a[1].(string)
		if !ok {
			return &OStr{desc: "join"}
		}
		return strings.Join(ss, sep)
	}
	exts["strconv.FormatInt"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if k, ok := a[0].(*I).Const(); ok {
			b, _ := a[1].(*I).Const()
			return k.Text(int(b.Int64()))
		}
		return &OStr{desc: "FormatInt"}
	}
	exts["strconv.FormatUint"] = exts["strconv.FormatInt"]
	exts["strconv.Itoa"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if k, ok := a[0].(*I).Const(); ok {
			return k.String()
		}
		return &OStr{desc: "Itoa"}
	}
	exts["strconv.Quote"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return a[0]
	}

	// ---- sort
	sortSlice := func(p *Path, fn *ssa.Function, a []Value) Value {
		f := a[0].(iface)
		sl := f.v.([]Value)
		less := func(i, j int) bool {
			return p.Branch(p.invoke(a[1], []Value{p.intOf(i), p.intOf(j)}).(*B))
		}
		for i := 1; i < len(sl); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				x, y := copyVal(sl[j]), copyVal(sl[j-1])
				sl[j], sl[j-1] = y, x
			}
		}
		return nil
	}
	exts["sort.Slice"] = sortSlice
	exts["sort.SliceStable"] = sortSlice

	// ---- fmt, errors
	exts["fmt.Sprintf"] = fmtExt(0)
	exts["fmt.Errorf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.e.prog.namedType("errors", "errorString")
		f, ok := a[0].(string)
		var m Value = &OStr{desc: "Errorf"}
		if ok {
			m = p.sprintf(strings.ReplaceAll(f, "%w", "%v"), a[1])
			if pre, _, ok := strings.Cut(f, "%w"); ok {
				args := a[1].([]Value)
				if n := strings.Count(strings.ReplaceAll(pre, "%%", ""), "%"); n < len(args) {
					if e, ok := args[n].(iface); ok && e.t != nil {
						var s Value = structure{m, e}
						return iface{types.NewPointer(p.e.prog.namedType("fmt", "wrapError")), &s}
					}
				}
			}
		}
		var s Value = structure{m}
		return iface{types.NewPointer(t), &s}
	}
	exts["fmt.Sprint"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprint(a[0], false) }
	exts["fmt.Sprintln"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprint(a[0], true) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		exts[n] = noop
	}
	for n, text := range map[string]func(p *Path, a []Value) Value{
		"fmt.Fprintf":  func(p *Path, a []Value) Value { return p.sprintf(p.str(a[1]), a[2]) },
		"fmt.Fprint":   func(p *Path, a []Value) Value { return p.sprint(a[1], false) },
		"fmt.Fprintln": func(p *Path, a []Value) Value { return p.sprint(a[1], true) },
	} {
		text := text
		exts[n] = func(p *Path, fn *ssa.Function, a []Value) Value {
			w := a[0].(iface)
			if w.t == nil || (w.t.String() != "*strings.Builder" && w.t.String() != "*bytes.Buffer") {
				return noop(p, fn, a)
			}
			var b []Value
			switch x := text(p, a).(type) {
			case string:
				b = p.toBytes(x)
			default:
				b = []Value{&blob{nil, x}}
			}
			return p.call(p.e.prog.method(w.t, nil, "Write"), []Value{w.v, b}, nil)
		}
	}
	exts["github.com/pkg/errors.callers"] = noop
	exts["google.golang.org/grpc/status.Error"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.e.prog.namedType("errors", "errorString")
		var s Value = structure{a[1]}
		return iface{types.NewPointer(t), &s}
	}
	exts["google.golang.org/grpc/status.Errorf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.mkErr("grpc status")
	}

	// ---- runtime, sync
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put", "runtime/debug.PrintStack", "runtime.GC"} {
		exts[n] = noop
	}
	exts["(*sync.Once).Do"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k := fmt.Sprintf("once%p", a[0].(*Value))
		if _, ok := p.ext[k]; !ok {
			p.ext[k] = a[0]
			p.invoke(a[1], nil)
		}
		return nil
	}

	exts["maps.clone"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		f := a[0].(iface)
		m, _ := f.v.(*hmap)
		if m == nil {
			return f
		}
		n := &hmap{idx: map[string]*hentry{}, sym: m.sym, n: m.n}
		for _, e := range m.ents {
			if e.del {
				continue
			}
			x := &hentry{k: copyVal(e.k), v: copyVal(e.v)}
			n.ents = append(n.ents, x)
			if ks, ok := keyStr(e.k); ok {
				n.idx[ks] = x
			}
		}
		return iface{f.t, n}
	}
	exts["errors.As"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(iface)
		if tgt.t == nil {
			p.panicStr("errors: target cannot be nil")
		}
		cell, t := tgt.v.(*Value), tgt.t.Underlying().(*types.Pointer).Elem()
		var as func(e iface) bool
		as = func(e iface) bool {
			for e.t != nil {
				if it, ok := t.Underlying().(*types.Interface); ok {
					if types.Implements(e.t, it) {
						*cell = e
						return true
					}
				} else if types.Identical(e.t, t) {
					*cell = copyVal(e.v)
					return true
				}
				u := p.e.prog.method(e.t, nil, "Unwrap")
				if u == nil {
					return false
				}
				r := p.call(u, []Value{e.v}, nil)
				if l, ok := r.([]Value); ok {
					for _, x := range l {
						if as(x.(iface)) {
							return true
						}
					}
					return false
				}
				e = r.(iface)
			}
			return false
		}
		return p.c.Bool(as(a[0].(iface)))
	}
	// one thread: atomic operations are plain ones
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		exts["sync/atomic.Load"+k] = func(p *Path, fn *ssa.Function, a []Value) Value { return *(a[0].(*Value)) }
		exts["sync/atomic.Store"+k] = func(p *Path, fn *ssa.Function, a []Value) Value {
			*(a[0].(*Value)) = a[1]
			return nil
		}
		exts["sync/atomic.Swap"+k] = func(p *Path, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Value)
			old := *c
			*c = a[1]
			return old
		}
		exts["sync/atomic.CompareAndSwap"+k] = func(p *Path, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Value)
			same := p.Branch(p.eq(fn.Signature.Params().At(1).Type(), *c, a[1]))
			if same {
				*c = a[2]
			}
			return p.c.Bool(same)
		}
		exts["sync/atomic.Add"+k] = func(p *Path, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Value)
			*c = p.wrap(p.c.Add((*c).(*I), a[1].(*I)), fn.Signature.Results().At(0).Type())
			return *c
		}
	}
	exts["(*sync.Mutex).TryLock"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Bool(true) }
	exts["math/bits.Add64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.c.Add(p.c.Add(a[0].(*I), a[1].(*I)), a[2].(*I))
		c := p.c.Ite(p.c.Le(s, p.c.Big(maxU64)), p.c.Int(0), p.c.Int(1))
		return tuple{p.wrap(s, types.Typ[types.Uint64]), c}
	}
	exts["math/bits.Sub64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.c.Sub(p.c.Sub(a[0].(*I), a[1].(*I)), a[2].(*I))
		c := p.c.Ite(p.c.Le(p.c.Int(0), s), p.c.Int(0), p.c.Int(1))
		return tuple{p.wrap(s, types.Typ[types.Uint64]), c}
	}
	exts["math/bits.Mul64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		q, r := p.c.DivMod(p.mul(a[0].(*I), a[1].(*I)), p.c.Big(new(big.Int).Add(maxU64, bz1)))
		return tuple{q, r}
	}

	// ---- time
	exts["time.initLocal"] = noop
	for n, d := range map[string]int64{"Seconds": 1e9, "Minutes": 60e9, "Hours": 3600e9} {
		d := big.NewInt(d)
		exts["(time.Duration)."+n] = func(p *Path, fn *ssa.Function, a []Value) Value {
			x := a[0].(*I)
			if k, ok := x.Const(); ok {
				f, _ := new(big.Rat).SetFrac(k, d).Float64()
				return f
			}
			return &ratio{x, d}
		}
	}
	exts["time.Now"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.zero(fn.Signature.Results().At(0).Type()) }
	exts["errors.Is"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return p.c.Bool(x.t == nil && y.t == nil)
		}
		return p.call(fn.Pkg.Func("is"), []Value{x, y, p.c.Bool(types.Comparable(y.t))}, nil)
	}
	exts["github.com/cosmos/gogoproto/proto.MessageName"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if n := p.e.prog.messageName(a[0].(iface).t); n != "" {
			return n
		}
		return "msg"
	}
	exts["github.com/cosmos/cosmos-sdk/codec.CollInterfaceValue"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok && strings.Contains(m.X.Type().String(), "collInterfaceValue") {
					return iface{m.X.Type(), structure{a[0]}}
				}
			}
		}
		p.unsupported("CollInterfaceValue")
		return nil
	}
	exts["github.com/cosmos/cosmos-sdk/codec/types.NewAnyWithValue"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		// the packed bytes stay empty: serialization clones the cached value
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		v := p.zero(t)
		st, u := v.(structure), t.Underlying().(*types.Struct)
		for i := range st {
			switch u.Field(i).Name() {
			case "TypeUrl":
				st[i] = "/" + p.e.prog.messageName(a[0].(iface).t)
			case "cachedValue":
				st[i] = a[0]
			}
		}
		return tuple{&v, iface{}}
	}
	// cryptography is outside: a signature equal to the signed bytes stands for a good one
	exts["(*github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1.PubKey).VerifySignature"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.call(fn.Prog.ImportedPackage("bytes").Func("Equal"), []Value{a[1], a[2]}, nil)
	}
	exts["github.com/cosmos/gogoproto/proto.Clone"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		f := a[0].(iface)
		t := f.t.Underlying().(*types.Pointer).Elem()
		v := p.clone(*(f.v.(*Value)), t)
		return iface{f.t, &v}
	}
	exts["time.Parse"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t, err := time.Parse(p.str(a[0]), p.str(a[1]))
		tt := p.call(fn.Pkg.Func("Unix"), []Value{p.c.Int(t.Unix()), p.c.Int(int64(t.Nanosecond()))}, nil)
		if err != nil {
			return tuple{tt, p.mkErr(err.Error())}
		}
		return tuple{tt, p.nilErr()}
	}
	exts["github.com/cosmos/cosmos-sdk/types/bech32.DecodeAndConvert"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.str(a[0])
		b, e := p.addrFromStr(s)
		if e != "" {
			return tuple{"", []Value{}, p.mkErr(e)}
		}
		return tuple{s[:strings.Index(s, "1")], b, p.nilErr()}
	}
	same := func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] }
	exts["internal/stringslite.Clone"] = same
	exts["strings.Clone"] = same
	exts["(time.Time).Format"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t := a[0].(structure)
		wall, ok1 := t[0].(*I).Const()
		ext, ok2 := t[1].(*I).Const()
		l, ok3 := a[1].(string)
		if !ok1 || !ok2 || !ok3 || wall.Uint64()>>63 != 0 {
			return &OStr{desc: "time"}
		}
		return time.Unix(ext.Int64()-62135596800, int64(wall.Uint64()&(1<<30-1))).UTC().Format(l)
	}
	exts["time.Since"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Int(0) }

	// ---- Cosmos SDK: telemetry, events, logging have no effect on state
	prefixExts = append(prefixExts,
		prefixExt{"github.com/cosmos/cosmos-sdk/telemetry.", noop},
		prefixExt{"(*github.com/cosmos/cosmos-sdk/types.EventManager).Emit", noop},
		prefixExt{"(cosmossdk.io/log.nopLogger).", func(p *Path, fn *ssa.Function, a []Value) Value {
			if fn.Name() == "With" {
				return iface{p.e.prog.namedType("cosmossdk.io/log", "nopLogger"), a[0]}
			}
			return noop(p, fn, a)
		}},
	)

	record := func(p *Path, v Value) {
		if f, ok := v.(iface); ok && p.recEvents && f.t != nil {
			if c, ok := f.v.(*Value); ok && c != nil {
				nv := p.clone(*c, f.t.Underlying().(*types.Pointer).Elem())
				p.events = append(p.events, iface{f.t, &nv})
			}
		}
	}
	exts["(*github.com/cosmos/cosmos-sdk/types.EventManager).EmitTypedEvent"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		record(p, a[1])
		return noop(p, fn, a)
	}
	exts["(*github.com/cosmos/cosmos-sdk/types.EventManager).EmitTypedEvents"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		for _, x := range a[1].([]Value) {
			record(p, x)
		}
		return noop(p, fn, a)
	}
	exts["(github.com/cosmos/cosmos-sdk/types.Coins).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		o := &OStr{desc: "coins"}
		conc := ""
		for i, x := range a[0].([]Value) {
			s := x.(structure)
			c := s[1].(structure)[0].(*Value)
			if c == nil {
				p.unsupported("text of a coin without amount")
			}
			o.denoms = append(o.denoms, p.str(s[0]))
			o.amts = append(o.amts, big1(c))
			if k, ok := big1(c).Const(); ok && (i == 0 || conc != "") {
				if i > 0 {
					conc += ","
				}
				conc += k.String() + p.str(s[0])
			} else {
				conc = ""
			}
		}
		if len(o.denoms) == 0 || conc != "" {
			return conc
		}
		return o
	}

	// ---- addresses (bijective model of bech32)
	const sdkT = "github.com/cosmos/cosmos-sdk/types"
	exts[sdkT+".AccAddressFromBech32"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		b, e := p.addrFromStr(p.str(a[0]))
		if e != "" {
			return tuple{[]Value{}, p.mkErr(e)}
		}
		return tuple{b, p.nilErr()}
	}
	exts[sdkT+".MustAccAddressFromBech32"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		b, e := p.addrFromStr(p.str(a[0]))
		if e != "" {
			p.panicStr(e)
		}
		return b
	}
	addrStr := func(p *Path, fn *ssa.Function, a []Value) Value {
		s, ok := concBytes(a[0].([]Value))
		if !ok {
			p.unsupported("symbolic address")
		}
		return addrToStr(s)
	}
	exts["("+sdkT+".AccAddress).String"] = addrStr
	exts["("+sdkT+".ValAddress).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, ok := concBytes(a[0].([]Value))
		if !ok {
			p.unsupported("symbolic address")
		}
		return "kyvevaloper1" + s
	}
	exts[sdkT+".ValAddressFromBech32"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.str(a[0])
		if !strings.HasPrefix(s, "kyvevaloper1") {
			return tuple{[]Value{}, p.mkErr("decoding bech32 failed")}
		}
		return tuple{p.bytesOf(s[len("kyvevaloper1"):]), p.nilErr()}
	}
	exts[sdkT+".ValidateDenom"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if denomRe.MatchString(p.str(a[0])) {
			return p.nilErr()
		}
		return p.mkErr("invalid denom: " + p.str(a[0]))
	}
	exts["github.com/cosmos/cosmos-sdk/x/auth/types.NewModuleAddress"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.bytesOf("module/" + p.str(a[0]))
	}
	exts["cosmossdk.io/collections.(*SchemaBuilder).addCollection"] = noop
	exts["(*cosmossdk.io/collections.SchemaBuilder).addCollection"] = noop

	// ---- harness API
	v := func(n string, f extFn) { exts[vsPkg+"."+n] = f }
	v("Symbolic", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Bool(true) })
	num := func(p *Path, fn *ssa.Function, a []Value) Value {
		lo, o1 := a[1].(*I).Const()
		hi, o2 := a[2].(*I).Const()
		if !o1 || !o2 {
			p.unsupported("symbolic bounds of a symbolic value")
		}
		return p.ndInt(p.str(a[0]), lo, hi)
	}
	v("U64", num)
	v("I64", num)
	v("bigRange", func(p *Path, fn *ssa.Function, a []Value) Value {
		lo, o1 := new(big.Int).SetString(p.str(a[1]), 10)
		hi, o2 := new(big.Int).SetString(p.str(a[2]), 10)
		if !o1 || !o2 {
			p.unsupported("bad bounds")
		}
		return p.newBig(p.ndInt(p.str(a[0]), lo, hi))
	})
	v("Record", func(p *Path, fn *ssa.Function, a []Value) Value { p.recEvents, p.events = true, nil; return nil })
	v("Events", func(p *Path, fn *ssa.Function, a []Value) Value { return append([]Value{}, p.events...) })
	v("EventMark", func(p *Path, fn *ssa.Function, a []Value) Value { return p.intOf(len(p.events)) })
	v("EventCut", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.events = p.events[:p.concInt(a[0].(*I), "event mark")]
		return nil
	})
	v("Bool", func(p *Path, fn *ssa.Function, a []Value) Value { return p.ndBool(p.str(a[0])) })
	v("Choose", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.intOf(p.ndChoice(p.str(a[0]), p.concInt(a[1].(*I), "choose")))
	})
	v("Fork", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Bool(p.Branch(a[0].(*B))) })
	v("Assume", func(p *Path, fn *ssa.Function, a []Value) Value { p.Assume(a[0].(*B)); return nil })
	v("Assert", func(p *Path, fn *ssa.Function, a []Value) Value { p.Assert(a[0].(*B), p.str(a[1])); return nil })
	v("Reach", func(p *Path, fn *ssa.Function, a []Value) Value { p.reached[p.str(a[0])] = true; return nil })
	v("Observe", func(p *Path, fn *ssa.Function, a []Value) Value { p.observe(p.str(a[0]), a[1].(iface)); return nil })
	v("MapOrder", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.mapLeft = p.concInt(a[0].(*I), "map order")
		p.mapOrd = p.mapLeft > 0
		return nil
	})
	list := func(v Value) []*B {
		var out []*B
		for _, x := range v.([]Value) {
			out = append(out, x.(*B))
		}
		return out
	}
	v("And", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.And(list(a[0])...) })
	v("Or", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Or(list(a[0])...) })
	v("Not", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Not(a[0].(*B)) })
	v("Implies", func(p *Path, fn *ssa.Function, a []Value) Value { return p.c.Or(p.c.Not(a[0].(*B)), a[1].(*B)) })
	v("Iff", func(p *Path, fn *ssa.Function, a []Value) Value { return p.eq(nil, a[0], a[1]) })
	v("IteU64", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Ite(a[0].(*B), a[1].(*I), a[2].(*I))
	})
	v("IteBig", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newBig(p.c.Ite(a[0].(*B), p.bigArg(a[1]), p.bigArg(a[2])))
	})
	v("U64Big", func(p *Path, fn *ssa.Function, a []Value) Value { return p.newBig(a[0].(*I)) })
	v("I64Big", func(p *Path, fn *ssa.Function, a []Value) Value { return p.newBig(a[0].(*I)) })
	v("FloorDiv", func(p *Path, fn *ssa.Function, a []Value) Value { // y > 0
		q, _ := p.c.DivMod(p.bigArg(a[0]), p.bigArg(a[1]))
		return p.newBig(q)
	})
	v("Marshal", func(p *Path, fn *ssa.Function, a []Value) Value {
		f := a[0].(iface)
		c, ok := f.v.(*Value)
		if !ok || c == nil {
			p.unsupported("marshal of nil message")
		}
		t := f.t.Underlying().(*types.Pointer).Elem()
		return []Value{&blob{t, p.clone(*c, t)}}
	})
	v("Unmarshal", func(p *Path, fn *ssa.Function, a []Value) Value {
		b := a[0].([]Value)
		if len(b) == 0 {
			return nil
		}
		if !isBlob(b) {
			p.unsupported("unmarshal of raw bytes")
		}
		bl := b[0].(*blob)
		f := a[1].(iface)
		c := f.v.(*Value)
		t := f.t.Underlying().(*types.Pointer).Elem()
		if it, ok := t.Underlying().(*types.Interface); ok && bl.t != nil {
			pt := types.NewPointer(bl.t)
			if !types.Implements(pt, it) {
				p.unsupported("unmarshal of %v into %v", bl.t, t)
			}
			nv := p.clone(bl.v, bl.t)
			p.store(c, iface{pt, &nv})
			return nil
		}
		if bl.t == nil || !types.Identical(t, bl.t) {
			p.unsupported("unmarshal of %v into %v", bl.t, t)
		}
		p.store(c, p.clone(bl.v, t))
		return nil
	})
	v("SameMsg", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(iface), a[1].(iface)
		if !types.Identical(x.t, y.t) {
			return p.c.Bool(false)
		}
		t := x.t.Underlying().(*types.Pointer).Elem()
		return p.deepEq(t, p.clone(*(x.v.(*Value)), t), p.clone(*(y.v.(*Value)), t))
	})
	v("JSON", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.jsons = append(p.jsons, jsonObj{a[0].([]Value), a[1].([]Value)})
		return fmt.Sprintf("{\"#\":%d}", len(p.jsons)-1)
	})
	exts["encoding/json.Valid"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.c.Bool(json.Valid([]byte(p.concBytes(a[0].([]Value)))))
	}
	exts["encoding/json.Unmarshal"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.jsonUnmarshal(a[0].([]Value), a[1].(iface))
	}
	v("SameBytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.sameBytes(a[0].([]Value), a[1].([]Value))
	})
}

var denomRe = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9/:._-]{2,127}$`)

// sameBytes compares stored values; serialized messages are compared structurally.
func (p *Path) sameBytes(a, b []Value) *B {
	if isBlob(a) && isBlob(b) {
		x, y := a[0].(*blob), b[0].(*blob)
		if x == y {
			return p.c.Bool(true)
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			p.unsupported("comparison of different serialized types")
		}
		return p.deepEq(x.t, x.v, y.v)
	}
	if isBlob(a) != isBlob(b) {
		if len(a) == 0 || len(b) == 0 {
			p.unsupported("message vs empty bytes")
		}
		p.unsupported("message vs raw bytes")
	}
	return p.bytesEq(a, b)
}

// deepEq: structural equality of (normalised) message values.
func (p *Path) deepEq(t types.Type, a, b Value) *B {
	if isBigInt(t) {
		return p.c.Eq(a.(*I), b.(*I))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		var r []*B
		for i := range x {
			r = append(r, p.deepEq(u.Field(i).Type(), x[i], y[i]))
		}
		return p.c.And(r...)
	case *types.Pointer:
		x, y := a.(*Value), b.(*Value)
		if x == nil || y == nil {
			return p.c.Bool(x == y)
		}
		return p.deepEq(u.Elem(), *x, *y)
	case *types.Slice:
		x, y := a.([]Value), b.([]Value)
		if len(x) != len(y) {
			return p.c.Bool(false)
		}
		var r []*B
		for i := range x {
			r = append(r, p.deepEq(u.Elem(), x[i], y[i]))
		}
		return p.c.And(r...)
	case *types.Interface:
		x, y := a.(iface), b.(iface)
		if x.t == nil || y.t == nil {
			return p.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return p.c.Bool(false)
		}
		return p.deepEq(x.t, x.v, y.v)
	case *types.Map:
		x, y := a.(*hmap), b.(*hmap)
		nx, ny := 0, 0
		if x != nil {
			nx = x.n
		}
		if y != nil {
			ny = y.n
		}
		if nx != ny {
			return p.c.Bool(false)
		}
		if nx == 0 {
			return p.c.Bool(true)
		}
		var r []*B
		for _, e := range x.ents {
			f := p.mapFind(y, e.k)
			if f == nil {
				return p.c.Bool(false)
			}
			r = append(r, p.deepEq(u.Elem(), e.v, f.v))
		}
		return p.c.And(r...)
	}
	if s, ok := a.(*OStr); ok {
		if s2, ok := b.(*OStr); ok && s == s2 {
			return p.c.Bool(true)
		}
	}
	return p.eq(t, a, b)
}

func (p *Path) observe(name string, f iface) {
	o := obs{name: name}
	switch x := f.v.(type) {
	case *I:
		o.t = x
	case *B:
		o.b = x
	case string:
		o.s = x
	case *Value: // *big.Int
		if x != nil {
			if t, ok := (*x).(*I); ok {
				o.t = t
				break
			}
		}
		return
	case structure: // math.Int / LegacyDec
		if len(x) == 1 {
			if c, ok := x[0].(*Value); ok && c != nil {
				if t, ok := (*c).(*I); ok {
					o.t = t
					break
				}
			}
		}
		return
	default:
		return
	}
	p.obs = append(p.obs, o)
}

func (p *Path) mul(x, y *I) *I { return p.c.Mul(x, y) }
