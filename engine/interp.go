package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	p        *Path
	fn       *ssa.Function
	info     *fnInfo
	env      []Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	defers   []deferred
	result   Value
	panicing bool
	pv       Value
	recov    bool
	caller   *frame
	cur      ssa.Instruction
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

func (fr *frame) pos() string {
	if fr.cur == nil {
		return ""
	}
	ps := fr.p.e.prog.fset.Position(fr.cur.Pos())
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

const maxSteps = 60_000_000

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(v)
	case *ssa.Function:
		return &closure{fn: v}
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Builtin:
		return v
	case nil:
		return nil
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.info.idx[v]] = x }

func (p *Path) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return p.zero(k.Type())
	}
	t := k.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		p.unsupported("type parameter constant")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		p.unsupported("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return p.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return p.c.Int(i)
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return p.c.Big(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return f
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	}
	p.unsupported("constant %s", k)
	return nil
}

// ---------- globals (lazily initialised)

func (p *Path) global(g *ssa.Global) *Value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	var v Value
	cell := &v
	if s, ok := globalOverride[g.String()]; ok {
		*cell = s(p, elem)
		p.globals[g] = cell
		return cell
	}
	*cell = p.zero(elem)
	p.globals[g] = cell
	p.initGlobal(g)
	return cell
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (p *Path) initGlobal(g *ssa.Global) {
	if g.Pkg == nil {
		return
	}
	init := g.Pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	need := map[ssa.Value]bool{g: true}
	mark := map[ssa.Instruction]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if mark[in] {
					continue
				}
				use := false
				switch x := in.(type) {
				case *ssa.Store:
					r := rootOf(x.Addr)
					use = need[r]
					if _, isG := r.(*ssa.Global); isG && r != ssa.Value(g) {
						use = false
					}
				case *ssa.MapUpdate:
					use = need[x.Map]
				case ssa.Value:
					use = need[x]
				}
				if !use {
					continue
				}
				mark[in] = true
				changed = true
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, isG := (*op).(*ssa.Global); isG {
						continue // loaded lazily
					}
					need[*op] = true
				}
			}
		}
	}
	fr := &frame{p: p, fn: init, info: p.e.prog.fn(init)}
	fr.env = make([]Value, fr.info.n)
	p.stack = append(p.stack, fr)
	any := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if mark[in] {
				any = true
				fr.cur = in
				fr.exec(in)
			}
		}
	}
	p.stack = p.stack[:len(p.stack)-1]
	_ = any
	{ // also assigned in an explicit func init()?
		for i := 1; ; i++ {
			f := g.Pkg.Func(fmt.Sprintf("init#%d", i))
			if f == nil {
				break
			}
			if p.ginit[f] || !writesGlobal(f, g) {
				continue
			}
			p.ginit[f] = true
			p.call(f, nil, nil)
		}
	}
}

func writesGlobal(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && rootOf(s.Addr) == ssa.Value(g) {
				return true
			}
			if s, ok := in.(*ssa.Store); ok {
				if u, ok := rootOf(s.Addr).(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// ---------- calls

func (p *Path) call(fn *ssa.Function, args []Value, env []Value) Value {
	info := p.e.prog.fn(fn)
	if info.ext != nil {
		return info.ext(p, fn, args)
	}
	if fn.Blocks == nil {
		p.unsupported("call of external function %s", info.name)
	}
	p.depth++
	if p.depth > 400 {
		panic(&pathAbort{abLimit, "call depth 400 exceeded in " + info.name})
	}
	fr := &frame{p: p, fn: fn, info: info, env: make([]Value, info.n)}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arg count %d != %d for %s", len(args), len(fn.Params), fn))
	}
	copy(fr.env, args)
	copy(fr.env[len(args):], env)
	p.stack = append(p.stack, fr)
	n := len(p.stack)
	fr.block = fn.Blocks[0]
	if info.repo {
		p.reachedFn(fn)
	}
	fr.run()
	p.stack = p.stack[:n-1]
	p.depth--
	return fr.result
}

func (p *Path) reachedFn(fn *ssa.Function) bool {
	p.e.mu.Lock()
	if !p.e.Funcs[fn] {
		p.e.Funcs[fn] = true
	}
	p.e.mu.Unlock()
	return true
}

func (p *Path) panicStr(msg string) {
	p.markPanic()
	panic(&targetPanic{iface{types.Typ[types.String], msg}})
}

func (fr *frame) run() {
	base := len(fr.p.stack)
	for fr.block != nil {
		if len(fr.defers) == 0 && fr.fn.Recover == nil {
			fr.runBlocks()
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.p.stack = fr.p.stack[:base]
					fr.p.depth = base
					fr.panicing = true
					fr.pv = tp.v
				}
			}()
			fr.runBlocks()
		}()
		if fr.panicing {
			fr.runDefers()
			if fr.panicing {
				panic(&targetPanic{fr.pv})
			}
			// recovered
			fr.block = fr.fn.Recover
			fr.prev = nil
			if fr.block == nil {
				// zero results
				fr.result = fr.zeroResult()
				return
			}
			fr.defers = nil
			fr.runBlocks()
			return
		}
	}
}

func (fr *frame) zeroResult() Value {
	res := fr.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return fr.p.zero(res.At(0).Type())
	}
	return fr.p.zero(res)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			base := len(fr.p.stack)
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.p.stack = fr.p.stack[:base]
					fr.p.depth = base
					fr.panicing = true
					fr.pv = tp.v
				}
			}()
			fr.p.deferCaller = append(fr.p.deferCaller, fr)
			defer func() { fr.p.deferCaller = fr.p.deferCaller[:len(fr.p.deferCaller)-1] }()
			fr.p.invoke(d.fn, d.args)
		}()
	}
}

// runBlocks executes until return; returns early (with block != nil) only after the first
// Defer instruction so that run can install a recover handler.
func (fr *frame) runBlocks() {
	p := fr.p
	for {
		blk := fr.block
		if h := fr.info.hit; !h[blk.Index] {
			h[blk.Index] = true
		}
		// phis
		i := 0
		if fr.prev != nil {
			var vals []Value
			for ; i < len(blk.Instrs); i++ {
				phi, ok := blk.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				for j, pr := range blk.Preds {
					if pr == fr.prev {
						vals = append(vals, fr.get(phi.Edges[j]))
						break
					}
				}
			}
			for j, v := range vals {
				fr.set(blk.Instrs[j].(*ssa.Phi), v)
			}
		}
		var next *ssa.BasicBlock
	instrs:
		for ; i < len(blk.Instrs); i++ {
			in := blk.Instrs[i]
			p.steps++
			if p.steps > maxSteps {
				panic(&pathAbort{abLimit, "step limit"})
			}
			if p.steps&0xfffff == 0 {
				p.timeCheck()
			}
			fr.cur = in
			if in == mutInstr && fr.mutated(in, &next) {
				if next != nil {
					break instrs
				}
				continue
			}
			switch in := in.(type) {
			case *ssa.Jump:
				next = blk.Succs[0]
				break instrs
			case *ssa.If:
				if p.Branch(fr.get(in.Cond).(*B)) {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
				break instrs
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = copyVal(fr.get(in.Results[0]))
				default:
					t := make(tuple, len(in.Results))
					for j, r := range in.Results {
						t[j] = copyVal(fr.get(r))
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				fr.p.markPanic()
				panic(&targetPanic{fr.get(in.X)})
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panicing {
					panic(&targetPanic{fr.pv})
				}
			default:
				fr.exec(in)
			}
		}
		fr.prev = blk
		fr.block = next
		if next == nil {
			return
		}
	}
}

func (p *Path) nilDeref() {
	p.panicStr("runtime error: invalid memory address or nil pointer dereference")
}

func (fr *frame) ptr(v Value) *Value {
	c, ok := v.(*Value)
	if !ok {
		fr.p.unsupported("pointer of kind %T", v)
	}
	if c == nil {
		fr.p.nilDeref()
	}
	return c
}

func (fr *frame) exec(in ssa.Instruction) {
	p := fr.p
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		var v Value = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, &v)
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Store:
		c := fr.ptr(fr.get(in.Addr))
		p.store(c, fr.get(in.Val))
	case *ssa.FieldAddr:
		c := fr.ptr(fr.get(in.X))
		s, ok := (*c).(structure)
		if !ok {
			p.unsupported("field address in %T", *c)
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(structure)
		if !ok {
			p.unsupported("field of %T", fr.get(in.X))
		}
		fr.set(in, copyVal(s[in.Field]))
	case *ssa.IndexAddr:
		x := fr.get(in.X)
		switch x := x.(type) {
		case []Value:
			i := p.index(fr.get(in.Index).(*I), len(x))
			fr.set(in, &x[i])
		case *Value:
			if x == nil {
				p.nilDeref()
			}
			a := (*x).(array)
			i := p.index(fr.get(in.Index).(*I), len(a))
			fr.set(in, &a[i])
		default:
			p.unsupported("indexaddr %T", x)
		}
	case *ssa.Index:
		switch x := fr.get(in.X).(type) {
		case array:
			i := p.index(fr.get(in.Index).(*I), len(x))
			fr.set(in, copyVal(x[i]))
		case string:
			i := p.index(fr.get(in.Index).(*I), len(x))
			fr.set(in, p.byteConst(x[i]))
		default:
			p.unsupported("index %T", x)
		}
	case *ssa.Lookup:
		switch x := fr.get(in.X).(type) {
		case string:
			i := p.index(fr.get(in.Index).(*I), len(x))
			fr.set(in, p.byteConst(x[i]))
		case *hmap:
			e := p.mapFind(x, fr.get(in.Index))
			et := in.X.Type().Underlying().(*types.Map).Elem()
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = p.zero(et)
			}
			if in.CommaOk {
				fr.set(in, tuple{v, p.c.Bool(e != nil)})
			} else {
				fr.set(in, v)
			}
		default:
			p.unsupported("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*hmap)
		if m == nil {
			p.panicStr("assignment to entry in nil map")
		}
		p.mapSet(m, fr.get(in.Key), copyVal(fr.get(in.Value)))
	case *ssa.MakeMap:
		fr.set(in, &hmap{idx: map[string]*hentry{}})
	case *ssa.MakeSlice:
		n := p.concInt(fr.get(in.Len).(*I), "make len")
		cp := p.concInt(fr.get(in.Cap).(*I), "make cap")
		if n < 0 || cp < n {
			p.panicStr("runtime error: makeslice: len out of range")
		}
		s := make([]Value, n, cp)
		et := in.Type().Underlying().(*types.Slice).Elem()
		full := s[:cp]
		for i := range full {
			full[i] = p.zero(et)
		}
		fr.set(in, s)
	case *ssa.MakeInterface:
		fr.set(in, iface{in.X.Type(), copyVal(fr.get(in.X))})
	case *ssa.MakeClosure:
		c := &closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.set(in, c)
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, p.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, p.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		sl := fr.get(in.X).([]Value)
		if len(sl) < n {
			p.panicStr("runtime error: cannot convert slice to array or pointer to array: length out of range")
		}
		if sl == nil {
			fr.set(in, (*Value)(nil))
			break
		}
		var av Value = array(sl[:n:n])
		fr.set(in, &av)
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in))
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.Range:
		switch x := fr.get(in.X).(type) {
		case string:
			fr.set(in, &strIter{s: x})
		case *hmap:
			fr.set(in, p.newMapIter(x))
		default:
			p.unsupported("range over %T", x)
		}
	case *ssa.Next:
		fr.set(in, fr.next(in))
	case *ssa.Call:
		fr.set(in, fr.doCall(&in.Call))
	case *ssa.Defer:
		fn, args := fr.prepCall(&in.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, call: &in.Call})
	case *ssa.Go:
		p.unsupported("go statement")
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		p.unsupported("channel operation")
	case *ssa.Phi:
		// entry-block phi without predecessor cannot occur
		p.unsupported("phi")
	default:
		p.unsupported("instruction %T", in)
	}
}

func (p *Path) store(c *Value, v Value) {
	// keep addresses of fields/elements stable: copy in place
	switch x := v.(type) {
	case structure:
		if d, ok := (*c).(structure); ok && len(d) == len(x) {
			for i := range x {
				p.store(&d[i], x[i])
			}
			return
		}
		*c = copyVal(x)
		return
	case array:
		if d, ok := (*c).(array); ok && len(d) == len(x) {
			for i := range x {
				p.store(&d[i], x[i])
			}
			return
		}
		*c = copyVal(x)
		return
	}
	*c = v
}

func (p *Path) newMapIter(m *hmap) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	for _, e := range m.ents {
		if !e.del {
			it.order = append(it.order, e)
		}
	}
	if n := len(it.order); p.mapOrd && n > 1 && p.mapLeft > 0 {
		p.mapUsed = true
		if n <= 4 { // every permutation
			f := 1
			for i := 2; i <= n; i++ {
				f *= i
			}
			k := p.Choose(f)
			if k > 0 {
				p.mapLeft--
			}
			for i := 0; i < n-1; i++ {
				f /= n - i
				j := i + k/f
				k %= f
				e := it.order[j]
				copy(it.order[i+1:j+1], it.order[i:j])
				it.order[i] = e
			}
		} else if k := p.Choose(n + 1); k > 0 { // every rotation, and the reverse order
			p.mapLeft--
			if k == n {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			} else {
				it.order = append(append([]*hentry{}, it.order[k:]...), it.order[:k]...)
			}
		}
	}
	return it
}

func (fr *frame) next(in *ssa.Next) Value {
	p := fr.p
	tt := in.Type().(*types.Tuple)
	zeroOr := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return p.zero(t)
	}
	switch it := fr.get(in.Iter).(type) {
	case *mapIter:
		for it.pos < len(it.order) {
			e := it.order[it.pos]
			it.pos++
			if e.del {
				continue
			}
			return tuple{p.c.Bool(true), e.k, copyVal(e.v)}
		}
		return tuple{p.c.Bool(false), zeroOr(tt.At(1).Type()), zeroOr(tt.At(2).Type())}
	case *strIter:
		if it.pos >= len(it.s) {
			return tuple{p.c.Bool(false), p.c.Int(0), p.c.Int(0)}
		}
		for i, r := range it.s[it.pos:] {
			_ = i
			k := it.pos
			it.pos += len(string(r))
			if r == 0xFFFD {
				it.pos = k + 1
			}
			return tuple{p.c.Bool(true), p.c.Int(int64(k)), p.c.Int(int64(r))}
		}
	}
	p.unsupported("next")
	return nil
}

// concInt forces an integer term to a concrete value (small enumeration).
func (p *Path) concInt(t *I, what string) int {
	if k, ok := t.Const(); ok {
		if !k.IsInt64() || k.Int64() > 1<<24 {
			p.panicStr("runtime error: makeslice: len out of range")
		}
		return int(k.Int64())
	}
	for i := int64(0); i <= 12; i++ {
		if p.Branch(p.c.Eq(t, p.c.Int(i))) {
			return int(i)
		}
	}
	panic(&pathAbort{abLimit, "symbolic " + what + " above 12 in " + p.where()})
}

func (p *Path) index(t *I, n int) int {
	if k, ok := t.Const(); ok {
		if k.Sign() < 0 || k.Cmp(big.NewInt(int64(n))) >= 0 {
			p.panicStr(fmt.Sprintf("runtime error: index out of range [%s] with length %d", k, n))
		}
		return int(k.Int64())
	}
	if n > 64 {
		p.unsupported("symbolic index into %d elements", n)
	}
	for i := 0; i < n; i++ {
		if p.Branch(p.c.Eq(t, p.c.Int(int64(i)))) {
			return i
		}
	}
	p.panicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	return 0
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	lo, hi, mx := -1, -1, -1
	if in.Low != nil {
		lo = p.concInt(fr.get(in.Low).(*I), "slice bound")
	}
	if in.High != nil {
		hi = p.concInt(fr.get(in.High).(*I), "slice bound")
	}
	if in.Max != nil {
		mx = p.concInt(fr.get(in.Max).(*I), "slice bound")
	}
	if lo < 0 {
		if in.Low != nil {
			p.panicStr("runtime error: slice bounds out of range")
		}
		lo = 0
	}
	if in.High != nil && hi < 0 {
		p.panicStr("runtime error: slice bounds out of range")
	}
	switch x := x.(type) {
	case string:
		if hi < 0 {
			hi = len(x)
		}
		if lo > hi || hi > len(x) {
			p.panicStr("runtime error: slice bounds out of range")
		}
		return x[lo:hi]
	case []Value:
		if hi < 0 {
			hi = len(x)
		}
		if mx < 0 {
			mx = cap(x)
		}
		if lo > hi || hi > mx || mx > cap(x) {
			p.panicStr("runtime error: slice bounds out of range")
		}
		return x[lo:hi:mx]
	case *Value:
		if x == nil {
			p.nilDeref()
		}
		a := []Value((*x).(array))
		if hi < 0 {
			hi = len(a)
		}
		if mx < 0 {
			mx = cap(a)
		}
		if lo > hi || hi > mx || mx > len(a) {
			p.panicStr("runtime error: slice bounds out of range")
		}
		return a[lo:hi:mx]
	case *OStr:
		if x.b != nil {
			if hi < 0 {
				hi = len(x.b)
			}
			if lo > hi || hi > len(x.b) {
				p.panicStr("runtime error: slice bounds out of range")
			}
			s, _ := symStr(x.b[lo:hi])
			return s
		}
		return x
	}
	p.unsupported("slice of %T", x)
	return nil
}

func (fr *frame) typeAssert(in *ssa.TypeAssert) Value {
	p := fr.p
	x := fr.get(in.X).(iface)
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = x.v
		}
	}
	if !ok {
		if !in.CommaOk {
			p.panicStr(fmt.Sprintf("interface conversion: %v is not %v", x.t, in.AssertedType))
		}
		v = p.zero(in.AssertedType)
	}
	if in.CommaOk {
		return tuple{copyVal(v), p.c.Bool(ok)}
	}
	return copyVal(v)
}

func (fr *frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	var args []Value
	var fn Value
	if c.IsInvoke() {
		recv, ok := fr.get(c.Value).(iface)
		if !ok {
			p.unsupported("invoke on %T", fr.get(c.Value))
		}
		if recv.t == nil {
			p.panicStr("runtime error: nil interface method call " + c.Method.Name())
		}
		f := p.e.prog.method(recv.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			p.unsupported("method %s not found on %s", c.Method.Name(), recv.t)
		}
		fn = &closure{fn: f}
		args = append(args, recv.v)
	} else {
		fn = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fn, args
}

func (fr *frame) doCall(c *ssa.CallCommon) Value {
	fn, args := fr.prepCall(c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.builtin(b, c, args)
	}
	return fr.p.invoke(fn, args)
}

func (p *Path) invoke(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *closure:
		if f == nil {
			p.nilDeref()
		}
		return p.call(f.fn, args, f.env)
	case *ssa.Builtin:
		// deferred builtin
		fr := &frame{p: p}
		return fr.builtin(f, nil, args)
	}
	p.unsupported("call of %T", fn)
	return nil
}

func (fr *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	p := fr.p
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case string:
			return p.c.Int(int64(len(x)))
		case []Value:
			if b.Name() == "cap" {
				return p.c.Int(int64(cap(x)))
			}
			if isBlob(x) {
				return p.c.Int(32) // serialized length: opaque, non-zero
			}
			return p.c.Int(int64(len(x)))
		case *hmap:
			if x == nil {
				return p.c.Int(0)
			}
			return p.c.Int(int64(x.n))
		case array:
			return p.c.Int(int64(len(x)))
		case *Value:
			return p.c.Int(int64(len((*x).(array))))
		case *OStr:
			if x.b != nil {
				return p.c.Int(int64(len(x.b)))
			}
			v := p.c.Fresh("ostrlen", big.NewInt(1), big.NewInt(1000))
			return v
		case nil:
			return p.c.Int(0)
		}
		p.unsupported("len of %T", args[0])
	case "append":
		dst := args[0].([]Value)
		if len(args) == 1 {
			return dst
		}
		var src []Value
		switch x := args[1].(type) {
		case []Value:
			src = x
		case string:
			src = p.toBytes(x)
		case *OStr:
			if x.b == nil {
				p.unsupported("append of opaque string")
			}
			src = x.b
		}
		if len(src) == 0 {
			return dst
		}
		need := len(dst) + len(src)
		var out []Value
		if need <= cap(dst) {
			out = dst[:need]
		} else {
			nc := 2 * cap(dst)
			if nc < need {
				nc = need
			}
			out = make([]Value, need, nc)
			for i := range dst {
				out[i] = dst[i]
			}
			if len(src) > 0 {
				full := out[:nc]
				z := zeroLike(p, src[0])
				for i := need; i < nc; i++ {
					full[i] = copyVal(z)
				}
			}
		}
		tmp := make([]Value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		copy(out[len(dst):], tmp)
		return out
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch x := args[1].(type) {
		case []Value:
			src = x
		case string:
			src = p.toBytes(x)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(dst, tmp)
		return p.c.Int(int64(n))
	case "delete":
		if m := args[0].(*hmap); m != nil {
			p.mapDel(m, args[1])
		}
		return nil
	case "panic":
		p.markPanic()
		panic(&targetPanic{args[0]})
	case "recover":
		if n := len(p.deferCaller); n > 0 {
			fr := p.deferCaller[n-1]
			if fr.panicing {
				fr.panicing = false
				if f, ok := fr.pv.(iface); ok {
					return f
				}
				return iface{types.Typ[types.String], "panic"}
			}
		}
		return iface{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*I)
			y, ok2 := a.(*I)
			if !ok1 || !ok2 {
				p.unsupported("min/max on %T", r)
			}
			if b.Name() == "min" {
				r = p.c.Ite(p.c.Le(x, y), x, y)
			} else {
				r = p.c.Ite(p.c.Le(x, y), y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *hmap:
			if x != nil {
				x.ents, x.idx, x.n, x.sym = nil, map[string]*hentry{}, 0, false
			}
		case []Value:
			for i := range x {
				x[i] = zeroLike(p, x[i])
			}
		}
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Value); ok && c == nil {
			p.nilDeref()
		}
		return args[0]
	case "close":
		return nil
	}
	p.unsupported("builtin %s", b.Name())
	return nil
}

func zeroLike(p *Path, v Value) Value {
	switch x := v.(type) {
	case *I:
		return p.c.Int(0)
	case *B:
		return p.c.Bool(false)
	case string, *OStr:
		return ""
	case float64:
		return float64(0)
	case *Value:
		return (*Value)(nil)
	case []Value:
		return []Value(nil)
	case *hmap:
		return (*hmap)(nil)
	case *closure:
		return (*closure)(nil)
	case iface:
		return iface{}
	case structure:
		s := make(structure, len(x))
		for i := range x {
			s[i] = zeroLike(p, x[i])
		}
		return s
	case array:
		s := make(array, len(x))
		for i := range x {
			s[i] = zeroLike(p, x[i])
		}
		return s
	}
	return nil
}

// ---------- operators

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		c := fr.ptr(x)
		return copyVal(*c)
	case token.NOT:
		return p.c.Not(x.(*B))
	case token.SUB:
		switch x := x.(type) {
		case *I:
			return p.wrap(p.c.Neg(x), in.Type())
		case float64:
			return -x
		}
	case token.XOR:
		t := x.(*I)
		lo, hi := intRange(in.Type())
		// ^x = -x-1 (signed) or max-x (unsigned)
		if lo.Sign() < 0 {
			return p.c.Sub(p.c.Neg(t), p.c.Int(1))
		}
		return p.c.Sub(p.c.Big(hi), t)
	case token.ARROW:
		p.unsupported("channel receive")
	}
	p.unsupported("unop %s", in.Op)
	return nil
}

var (
	two63 = new(big.Int).Lsh(bz1, 63)
	two64 = new(big.Int).Lsh(bz1, 64)
)

func intRange(t types.Type) (lo, hi *big.Int) {
	b := t.Underlying().(*types.Basic)
	var n uint
	s := true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		n = 64
	case types.Int32, types.UntypedRune:
		n = 32
	case types.Int16:
		n = 16
	case types.Int8:
		n = 8
	case types.Uint, types.Uint64, types.Uintptr:
		n, s = 64, false
	case types.Uint32:
		n, s = 32, false
	case types.Uint16:
		n, s = 16, false
	case types.Uint8:
		n, s = 8, false
	}
	if s {
		m := new(big.Int).Lsh(bz1, n-1)
		return new(big.Int).Neg(m), m.Sub(m, bz1)
	}
	m := new(big.Int).Lsh(bz1, n)
	return bz0, m.Sub(m, bz1)
}

// wrap makes machine-word wrap-around explicit.
func (p *Path) wrap(t *I, typ types.Type) *I {
	lo, hi := intRange(typ)
	if k, ok := t.Const(); ok {
		if k.Cmp(lo) >= 0 && k.Cmp(hi) <= 0 {
			return t
		}
		sz := new(big.Int).Sub(hi, lo)
		sz.Add(sz, bz1)
		r := new(big.Int).Sub(k, lo)
		r.Mod(r, sz)
		return p.c.Big(r.Add(r, lo))
	}
	l, h := p.c.Iv(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	in := p.c.And(p.c.Le(p.c.Big(lo), t), p.c.Le(t, p.c.Big(hi)))
	if p.Branch(in) {
		return t
	}
	sz := new(big.Int).Sub(hi, lo)
	sz.Add(sz, bz1)
	_, m := p.c.DivMod(p.c.Sub(t, p.c.Big(lo)), p.c.Big(sz))
	return p.c.Add(m, p.c.Big(lo))
}

func (p *Path) strOf(v Value) (string, bool) { s, ok := v.(string); return s, ok }

func (p *Path) binop(op token.Token, t types.Type, a, b Value, tb types.Type) Value {
	switch op {
	case token.EQL:
		return p.eq(t, a, b)
	case token.NEQ:
		return p.c.Not(p.eq(t, a, b))
	}
	switch x := a.(type) {
	case *I:
		y := b.(*I)
		switch op {
		case token.ADD:
			return p.wrap(p.c.Add(x, y), t)
		case token.SUB:
			return p.wrap(p.c.Sub(x, y), t)
		case token.MUL:
			return p.wrap(p.c.Mul(x, y), t)
		case token.QUO, token.REM:
			if p.Branch(p.c.Eq(y, p.c.Int(0))) {
				p.panicStr("runtime error: integer divide by zero")
			}
			q, r := p.quoRem(x, y)
			if op == token.QUO {
				return p.wrap(q, t)
			}
			return r
		case token.LSS:
			return p.c.Lt(x, y)
		case token.LEQ:
			return p.c.Le(x, y)
		case token.GTR:
			return p.c.Lt(y, x)
		case token.GEQ:
			return p.c.Le(y, x)
		case token.SHL, token.SHR:
			k, ok := y.Const()
			if !ok {
				p.unsupported("symbolic shift amount")
			}
			if k.Sign() < 0 {
				p.panicStr("negative shift amount")
			}
			n := uint(256)
			if k.IsUint64() && k.Uint64() < 256 {
				n = uint(k.Uint64())
			}
			pw := new(big.Int).Lsh(bz1, n)
			if op == token.SHL {
				r := p.c.MulC(x, pw)
				if kc, ok := r.Const(); ok {
					return p.wrap(p.c.Big(kc), t)
				}
				return p.wrap(r, t)
			}
			q, _ := p.c.DivMod(x, p.c.Big(pw)) // arithmetic shift = floor
			return q
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			kx, c1 := x.Const()
			ky, c2 := y.Const()
			if c1 && c2 {
				r := new(big.Int)
				switch op {
				case token.AND:
					r.And(kx, ky)
				case token.OR:
					r.Or(kx, ky)
				case token.XOR:
					r.Xor(kx, ky)
				case token.AND_NOT:
					r.AndNot(kx, ky)
				}
				return p.wrap(p.c.Big(r), t)
			}
			if op == token.AND && c1 && !c2 {
				x, ky, c2 = y, kx, true
			}
			if op == token.AND && c2 {
				if ky.Sign() == 0 {
					return p.c.Int(0)
				}
				m := new(big.Int).Add(ky, bz1)
				if new(big.Int).And(m, ky).Sign() == 0 && ky.Sign() > 0 { // 2^k-1
					_, r := p.c.DivMod(x, p.c.Big(m))
					return r
				}
				// contiguous mask (2^a-1)<<b
				b := ky.TrailingZeroBits()
				hm := new(big.Int).Rsh(ky, b)
				hm.Add(hm, bz1)
				if ky.Sign() > 0 && new(big.Int).And(hm, new(big.Int).Sub(hm, bz1)).Sign() == 0 {
					q, _ := p.c.DivMod(x, p.c.Big(new(big.Int).Lsh(bz1, b)))
					_, r := p.c.DivMod(q, p.c.Big(hm))
					return p.c.MulC(r, new(big.Int).Lsh(bz1, b))
				}
			}
			if (op == token.OR || op == token.XOR) && (c1 && kx.Sign() == 0) {
				return y
			}
			if (op == token.OR || op == token.XOR || op == token.AND_NOT) && (c2 && ky.Sign() == 0) {
				return x
			}
			// with a constant c >= 0: x|c = x+c-(x&c), x^c = x+c-2(x&c), x&^c = x-(x&c),
			// and x&c is the sum over the runs of ones in c
			if c1 && op != token.AND_NOT {
				x, ky, c1, c2 = y, kx, c2, c1
			}
			if c2 && ky.Sign() > 0 {
				and := p.andConst(x, ky)
				switch op {
				case token.AND:
					return and
				case token.OR:
					return p.wrap(p.c.Sub(p.c.Add(x, p.c.Big(ky)), and), t)
				case token.XOR:
					return p.wrap(p.c.Sub(p.c.Add(x, p.c.Big(ky)), p.c.MulC(and, big.NewInt(2))), t)
				case token.AND_NOT:
					return p.wrap(p.c.Sub(x, and), t)
				}
			}
			p.unsupported("symbolic bit operation %s", op)
		}
	case *B:
		y := b.(*B)
		switch op {
		case token.AND, token.LAND:
			return p.c.And(x, y)
		case token.OR, token.LOR:
			return p.c.Or(x, y)
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return p.c.Bool(x < y)
		case token.LEQ:
			return p.c.Bool(x <= y)
		case token.GTR:
			return p.c.Bool(x > y)
		case token.GEQ:
			return p.c.Bool(x >= y)
		}
	case string, *OStr:
		sx, ok1 := a.(string)
		sy, ok2 := b.(string)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return sx + sy
			case token.LSS:
				return p.c.Bool(sx < sy)
			case token.LEQ:
				return p.c.Bool(sx <= sy)
			case token.GTR:
				return p.c.Bool(sx > sy)
			case token.GEQ:
				return p.c.Bool(sx >= sy)
			}
		}
		if op == token.ADD {
			if ok1 && sx == "" {
				return b
			}
			if ok2 && sy == "" {
				return a
			}
			if ba, ok := p.strBytes(a); ok {
				if bb, ok := p.strBytes(b); ok {
					s, _ := symStr(append(append([]Value{}, ba...), bb...))
					return s
				}
			}
			return &OStr{desc: "concat"}
		}
		p.unsupported("ordering of opaque strings")
	}
	p.unsupported("binop %s on %T", op, a)
	return nil
}

// quoRem: truncated division, y != 0 on the path.
func (p *Path) quoRem(x, y *I) (*I, *I) {
	xn := !p.Branch(p.c.Le(p.c.Int(0), x))
	yn := !p.Branch(p.c.Lt(p.c.Int(0), y))
	ax, ay := x, y
	if xn {
		ax = p.c.Neg(x)
	}
	if yn {
		ay = p.c.Neg(y)
	}
	q, r := p.c.DivMod(ax, ay)
	if xn != yn {
		q = p.c.Neg(q)
	}
	if xn {
		r = p.c.Neg(r)
	}
	return q, r
}

// andConst is x & k for a constant k > 0.
func (p *Path) andConst(x *I, k *big.Int) *I {
	acc := p.c.Int(0)
	for i := 0; i < k.BitLen(); {
		if k.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < k.BitLen() && k.Bit(j) == 1 {
			j++
		}
		q, _ := p.c.DivMod(x, p.c.Big(new(big.Int).Lsh(bz1, uint(i))))
		_, r := p.c.DivMod(q, p.c.Big(new(big.Int).Lsh(bz1, uint(j-i))))
		acc = p.c.Add(acc, p.c.MulC(r, new(big.Int).Lsh(bz1, uint(i))))
		i = j
	}
	return acc
}

func (p *Path) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case *I:
				return p.wrap(x, to)
			case float64:
				f := new(big.Float).SetFloat64(x)
				i, _ := f.Int(nil)
				return p.wrap(p.c.Big(i), to)
			case *ratio:
				q, _ := p.quoRem(x.n, p.c.Big(x.d))
				return p.wrap(q, to)
			case *Value:
				return p.c.Int(1)
			}
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case *I:
				if k, ok := x.Const(); ok {
					f, _ := new(big.Float).SetInt(k).Float64()
					if t.Kind() == types.Float32 {
						return float64(float32(f))
					}
					return f
				}
				p.unsupported("symbolic integer to float")
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string, *OStr:
				return x
			case []Value:
				if el, ok := fu.(*types.Slice); ok {
					if bt, ok := el.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
						var sb strings.Builder
						for _, e := range x {
							k, ok := e.(*I).Const()
							if !ok {
								p.unsupported("symbolic rune")
							}
							sb.WriteRune(rune(k.Int64()))
						}
						return sb.String()
					}
				}
				if s, ok := symStr(x); ok {
					return s
				}
				return &OStr{desc: "bytes"}
			case *I:
				k, ok := x.Const()
				if !ok {
					p.unsupported("symbolic rune to string")
				}
				return string(rune(k.Int64()))
			}
		case t.Kind() == types.UnsafePointer:
			return v
		}
	case *types.Slice:
		switch x := v.(type) {
		case string:
			if bt, ok := t.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
				var out []Value
				for _, r := range x {
					out = append(out, p.c.Int(int64(r)))
				}
				return out
			}
			r := p.toBytes(x)
			if r == nil {
				r = []Value{}
			}
			return r
		case *OStr:
			if x.b != nil {
				return append([]Value{}, x.b...)
			}
			return []Value{&blob{nil, x}}
		case []Value:
			return x
		}
	case *types.Pointer:
		return v
	}
	_ = fu
	p.unsupported("conversion %s -> %s", from, to)
	return nil
}
