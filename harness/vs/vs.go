// Package vs is the harness interface: the symbolic engine intercepts these functions;
// the bodies below are the native versions used to replay a solver model concretely.
package vs

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"

	"cosmossdk.io/math"
)

type Stop struct{ Why string }

var (
	Values   map[string]string
	Obs      []string
	Failed   []string
	Reached  []string
	Thor     bool
	counters = map[string]int{}
)

func uniq(name string) string {
	counters[name]++
	if n := counters[name]; n > 1 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func val(name string) string {
	name = uniq(name)
	v, ok := Values[name]
	if !ok {
		panic(Stop{"no value for " + name})
	}
	return v
}

// Symbolic reports whether the program runs inside the symbolic engine.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return Thor }

// U64 returns an arbitrary value in [lo, hi].
func U64(name string, lo, hi uint64) uint64 {
	n, err := strconv.ParseUint(val(name), 10, 64)
	if err != nil {
		panic(err)
	}
	if n < lo || n > hi {
		panic(Stop{"value out of range: " + name})
	}
	return n
}

// I64 returns an arbitrary value in [lo, hi].
func I64(name string, lo, hi int64) int64 {
	n, err := strconv.ParseInt(val(name), 10, 64)
	if err != nil {
		panic(err)
	}
	if n < lo || n > hi {
		panic(Stop{"value out of range: " + name})
	}
	return n
}

func bigRange(name, lo, hi string) *big.Int {
	n, ok := new(big.Int).SetString(val(name), 10)
	if !ok {
		panic("bad value " + name)
	}
	l, _ := new(big.Int).SetString(lo, 10)
	h, _ := new(big.Int).SetString(hi, 10)
	if n.Cmp(l) < 0 || n.Cmp(h) > 0 {
		panic(Stop{"value out of range: " + name})
	}
	return n
}

func Big(name, lo, hi string) *big.Int { return bigRange(name, lo, hi) }
func Int(name, lo, hi string) math.Int { return math.NewIntFromBigInt(bigRange(name, lo, hi)) }

// Dec returns an arbitrary decimal with raw value (times 10^18) in [lo, hi].
func Dec(name, lo, hi string) math.LegacyDec {
	return math.LegacyNewDecFromBigIntWithPrec(bigRange(name, lo, hi), 18)
}

func Bool(name string) bool { return val(name) == "true" }

// Choose forks into n cases.
func Choose(name string, n int) int {
	k, err := strconv.Atoi(val(name))
	if err != nil {
		panic(err)
	}
	return k
}

// Fork decides a condition now (the engine explores both outcomes).
func Fork(b bool) bool { return b }

func Assume(b bool) {
	if !b {
		panic(Stop{"assumption"})
	}
}

func Assert(b bool, msg string) {
	if !b {
		Failed = append(Failed, msg)
	}
}

func Reach(name string) { Reached = append(Reached, name) }

func Observe(name string, v any) {
	switch x := v.(type) {
	case nil:
		return
	case *big.Int:
		if x == nil {
			return
		}
		Obs = append(Obs, name+"="+x.String())
	case math.LegacyDec:
		if x.IsNil() {
			return
		}
		Obs = append(Obs, name+"="+x.BigInt().String())
	case math.Int:
		if x.IsNil() {
			return
		}
		Obs = append(Obs, name+"="+x.String())
	default:
		Obs = append(Obs, name+"="+fmt.Sprint(v))
	}
}

// Obj is a nested object inside JSON.
type Obj struct {
	Names []string
	Vals  []any
}

// JSON renders an object; values are strings, numbers, decimals, integers, Obj or []any.
func JSON(names []string, vals []any) string {
	out := "{"
	for i, n := range names {
		if i > 0 {
			out += ","
		}
		out += strconv.Quote(n) + ":" + jsonVal(vals[i])
	}
	return out + "}"
}

func jsonVal(v any) string {
	switch x := v.(type) {
	case Obj:
		return JSON(x.Names, x.Vals)
	case []any:
		out := "["
		for i, e := range x {
			if i > 0 {
				out += ","
			}
			out += jsonVal(e)
		}
		return out + "]"
	case math.LegacyDec:
		return strconv.Quote(x.String())
	case math.Int:
		return strconv.Quote(x.String())
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

// MapOrder makes the engine explore the iteration orders of Go maps: up to n iterations over a map run in any order
// (n = 0: none).
func MapOrder(n int) {}

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteBig(c bool, a, b *big.Int) *big.Int {
	if c {
		return new(big.Int).Set(a)
	}
	return new(big.Int).Set(b)
}
func U64Big(a uint64) *big.Int { return new(big.Int).SetUint64(a) }
func I64Big(a int64) *big.Int  { return big.NewInt(a) }

// FloorDiv is floor(x/y) for y > 0.
func FloorDiv(x, y *big.Int) *big.Int { return new(big.Int).Div(x, y) }

// serialization (engine only)
func Marshal(o any) []byte      { panic("native") }
func Unmarshal(b []byte, o any) { panic("native") }

type marshaler interface{ Marshal() ([]byte, error) }

// SameMsg compares two protobuf messages field by field (pointers to messages).
func SameMsg(a, b any) bool {
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	x, e1 := a.(marshaler).Marshal()
	y, e2 := b.(marshaler).Marshal()
	if e1 != nil || e2 != nil {
		panic(fmt.Sprint(e1, e2))
	}
	return bytes.Equal(x, y)
}
func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// typed events (engine only): start recording; what was recorded since
func Record()        { panic("native") }
func Events() []any  { panic("native") }
func EventMark() int { panic("native") }
func EventCut(n int) { panic("native") }

// key-value stores (engine only)
func KVGet(store int, key []byte) []byte { panic("native") }
func KVHas(store int, key []byte) bool   { panic("native") }
func KVSet(store int, key, value []byte) { panic("native") }
func KVDelete(store int, key []byte)     { panic("native") }
func KVSnap() int                        { panic("native") }
func KVRestore(id int)                   { panic("native") }
func KVRange(store int, start, end []byte, reverse bool) (keys, values [][]byte) {
	panic("native")
}
