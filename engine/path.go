package main

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	v      int32
	forced bool
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abLimit
	abTime
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type targetPanic struct{ v Value } // panic in the interpreted program

type Failure struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Values  map[string]string `json:"values"`
	Kind    string            `json:"kind"` // assert | panic
	Trace   []string          `json:"trace,omitempty"`
	MapOrd  bool              `json:"map_order,omitempty"`
}

type nondet struct {
	name string
	kind string // int | bool | choice
	t    *I
	b    *B
	ch   int
}

type obs struct {
	name string
	t    *I
	b    *B
	s    string
}

type Path struct {
	e           *Explorer
	c           *Ctx
	s           *Solver
	prefix      []decision
	pos         int
	dec         []decision
	facts       map[int]bool
	nds         []nondet
	names       map[string]int
	obs         []obs
	globals     map[*ssa.Global]*Value
	ginit       map[*ssa.Function]bool
	bytesC      [256]*I
	steps       int64
	depth       int
	mapOrd      bool
	mapLeft     int // how many more map iterations may be permuted
	jsons       []jsonObj
	mapUsed     bool
	ext         map[string]Value
	kv          map[int]*kvStore
	snaps       []map[int]*kvStore
	recEvents   bool
	events      []Value // recorded events
	evSnaps     []int
	lowZero     map[*I]int // how many low bytes of a 64 bit term are known to be zero
	stack       []*frame
	deferCaller []*frame
	asserts     int
	assumes     int
	reached     map[string]bool
	hard        bool     // an unknown feasibility verdict occurred
	panicAt     []string // call stack of the latest panic
	seed        *Model   // model of the whole prefix
}

type Explorer struct {
	prog     *Program
	entry    *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	work     []workItem
	active   int
	stop     bool
	deadline time.Time

	Paths      int64
	Infeasible int64
	Unsup      map[string]int
	Limits     map[string]int
	Inconcl    map[string]int
	Asserts    int64
	AssertQ    int64
	Fails      []*Failure
	failSeen   map[string]int
	Reached    map[string]int64
	Funcs      map[*ssa.Function]bool
	Steps      int64
	MaxDec     int
	Witness    []*Witness
	maxWit     int
	maxFails   int
	failFast   bool            // mutation campaigns: stop at the first failure
	ignore     map[string]bool // mutation campaigns: failures of the unchanged code
	BranchTmo  int
	AssertTmo  int
	HardTmo    time.Duration
	Known      []string
	Assumes    map[string]bool
	queueDrop  int64
	secs       float64
	NoRepro    int
}

// Witness: a concrete input for one explored path with the values the encoding predicts.
type Witness struct {
	Harness string            `json:"harness"`
	Values  map[string]string `json:"values"`
	Obs     []string          `json:"obs"`
	Panic   bool              `json:"panic"`
}

func NewExplorer(prog *Program, entry *ssa.Function) *Explorer {
	e := &Explorer{prog: prog, entry: entry, name: entry.Name(), Unsup: map[string]int{}, Limits: map[string]int{},
		Inconcl: map[string]int{}, failSeen: map[string]int{}, Reached: map[string]int64{}, Funcs: map[*ssa.Function]bool{},
		BranchTmo: 3000, AssertTmo: 5000, HardTmo: 60 * time.Second, maxWit: wits(), maxFails: 4, Assumes: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

// workItem is a decision prefix to explore and, if known, a model of its path condition.
type workItem struct {
	d []decision
	m *Model
}

func (e *Explorer) push(d workItem) {
	e.mu.Lock()
	e.work = append(e.work, d)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) Run(workers int) {
	e.work = []workItem{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := NewSolver()
			defer s.Close()
			for {
				e.mu.Lock()
				for len(e.work) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.work) == 0 {
					e.queueDrop = int64(len(e.work))
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				// LIFO with a slight preference for depth
				d := e.work[len(e.work)-1]
				e.work = e.work[:len(e.work)-1]
				e.active++
				e.mu.Unlock()
				e.runPath(s, d)
				e.mu.Lock()
				e.active--
				if !e.deadline.IsZero() && time.Now().After(e.deadline) {
					if len(e.work) > 0 || e.active > 0 {
						e.Limits["time budget exhausted"]++
					}
					e.stop = true
				}
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (e *Explorer) runPath(s *Solver, it workItem) {
	prefix := it.d
	p := &Path{e: e, c: NewCtx(), s: s, prefix: prefix, facts: map[int]bool{}, names: map[string]int{},
		globals: map[*ssa.Global]*Value{}, ginit: map[*ssa.Function]bool{}, ext: map[string]Value{}, kv: map[int]*kvStore{}, reached: map[string]bool{}}
	s.Reset(p.c)
	p.seed = it.m
	if len(prefix) == 0 {
		p.seed = nil
	}
	panicked := false
	var pv Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case *pathAbort:
					e.mu.Lock()
					switch r.kind {
					case abInfeasible:
						e.Infeasible++
					case abUnsupported:
						e.Unsup[r.msg]++
					case abLimit:
						e.Limits[r.msg]++
					case abTime:
					}
					e.mu.Unlock()
					pv = r
				case *targetPanic:
					panicked = true
					pv = r.v
				default:
					if debugPanics {
						panic(r)
					}
					e.mu.Lock()
					e.Unsup[fmt.Sprintf("engine: %v (in %s)", r, p.where())]++
					e.mu.Unlock()
					pv = &pathAbort{abUnsupported, fmt.Sprint(r)}
				}
			}
		}()
		p.call(e.entry, nil, nil)
	}()
	if _, ok := pv.(*pathAbort); ok {
		atomic.AddInt64(&e.Steps, p.steps)
		return
	}
	atomic.AddInt64(&e.Paths, 1)
	atomic.AddInt64(&e.Asserts, int64(p.asserts))
	atomic.AddInt64(&e.Steps, p.steps)
	if panicked {
		r, m := p.decide(nil)
		if r == Sat {
			p.fail("panic", "panic: "+p.descr(pv), m)
		} else if r == Unknown {
			e.mu.Lock()
			e.Inconcl["panic path feasibility: "+p.descr(pv)]++
			e.mu.Unlock()
		}
		return
	}
	e.mu.Lock()
	if len(p.dec) > e.MaxDec {
		e.MaxDec = len(p.dec)
	}
	for k := range p.reached {
		e.Reached[k]++
	}
	want := len(e.Witness) < e.maxWit
	e.mu.Unlock()
	if want && !p.mapUsed {
		if r, m := p.s.Solve(nil, e.AssertTmo); r == Sat {
			w := &Witness{Harness: e.name, Values: p.values(m)}
			for _, o := range p.obs {
				v := o.s
				if o.t != nil {
					v = p.c.EvalI(o.t, m).String()
				} else if o.b != nil {
					v = fmt.Sprint(p.c.EvalB(o.b, m))
				}
				w.Obs = append(w.Obs, o.name+"="+v)
			}
			e.mu.Lock()
			if len(e.Witness) < e.maxWit {
				e.Witness = append(e.Witness, w)
			}
			e.mu.Unlock()
		}
	}
}

func (p *Path) markPanic() {
	p.panicAt = nil
	for i := len(p.stack) - 1; i >= 0 && len(p.panicAt) < 12; i-- {
		f := p.stack[i]
		p.panicAt = append(p.panicAt, f.fn.String()+" "+f.pos())
	}
}

func (p *Path) where() string {
	if len(p.stack) == 0 {
		return "?"
	}
	f := p.stack[len(p.stack)-1]
	return f.fn.String() + " " + f.pos()
}

func (p *Path) unsupported(f string, a ...any) {
	if os.Getenv("GOSYM_DEBUG") != "" {
		p.e.mu.Lock()
		k := fmt.Sprintf(f, a...)
		if p.e.Unsup[k+"*"] == 0 {
			p.e.Unsup[k+"*"]++
			fmt.Fprintln(os.Stderr, "UNSUPPORTED", k)
			for i := len(p.stack) - 1; i >= 0 && i > len(p.stack)-14; i-- {
				fmt.Fprintln(os.Stderr, "   ", p.stack[i].fn, p.stack[i].pos())
			}
		}
		p.e.mu.Unlock()
	}
	panic(&pathAbort{abUnsupported, fmt.Sprintf(f, a...) + " (in " + p.where() + ")"})
}

func (p *Path) values(m *Model) map[string]string {
	out := map[string]string{}
	for _, n := range p.nds {
		switch n.kind {
		case "int":
			out[n.name] = p.c.EvalI(n.t, m).String()
		case "bool":
			out[n.name] = fmt.Sprint(m.B[n.name])
		case "choice":
			out[n.name] = fmt.Sprint(n.ch)
		}
	}
	return out
}

func (p *Path) fail(kind, msg string, m *Model) {
	f := &Failure{Harness: p.e.name, Msg: msg, Kind: kind, Values: p.values(m), MapOrd: p.mapUsed}
	if kind == "panic" {
		f.Trace = p.panicAt
	}
	if p.e.ignore[msg] {
		return
	}
	p.e.mu.Lock()
	p.e.failSeen[msg]++
	if p.e.failSeen[msg] <= p.e.maxFails {
		p.e.Fails = append(p.e.Fails, f)
	}
	if len(p.e.Fails) >= 40 || p.e.failFast {
		p.e.stop = true
	}
	p.e.mu.Unlock()
}

func (p *Path) timeCheck() {
	if !p.e.deadline.IsZero() && time.Now().After(p.e.deadline) {
		panic(&pathAbort{abTime, "time"})
	}
}

func (p *Path) nextDec() (decision, bool) {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		return d, true
	}
	if p.seed != nil {
		if p.s.holds(p.c.evaluator(p.seed), nil) {
			p.s.addModel(p.seed)
		}
		p.seed = nil
	}
	if len(p.dec) > 4000 {
		panic(&pathAbort{abLimit, "more than 4000 decisions on one path (unwinding bound) in " + p.where()})
	}
	p.timeCheck()
	return decision{}, false
}

func (p *Path) assume(b *B) {
	p.facts[b.id] = true
	p.facts[p.c.Not(b).id] = false
	p.s.Assert(b)
	p.c.Refine(b)
}

// lemma records an implied constraint (no need to send it to the solver).
func (p *Path) lemma(b *B) {
	p.facts[b.id] = true
	p.facts[p.c.Not(b).id] = false
	p.c.Refine(b)
}

// Branch decides a symbolic condition, forking if both outcomes are feasible.
func (p *Path) Branch(b *B) bool {
	if b.kind == BConst {
		return b.c
	}
	if v, ok := p.facts[b.id]; ok {
		return v
	}
	// re-simplify with refined intervals
	if b.kind == BLe || b.kind == BEq || b.kind == BNot && (b.args[0].kind == BLe || b.args[0].kind == BEq) {
		x := b
		neg := false
		if b.kind == BNot {
			x = b.args[0]
			neg = true
		}
		var r *B
		if x.kind == BLe {
			r = p.c.LeZ(x.x)
		} else {
			r = p.c.EqZ(x.x)
		}
		if r.kind == BConst {
			return r.c != neg
		}
	}
	if d, ok := p.nextDec(); ok {
		v := d.v == 1
		bb := b
		if !v {
			bb = p.c.Not(b)
		}
		if d.forced {
			p.lemma(bb)
		} else {
			p.assume(bb)
		}
		return v
	}
	nb := p.c.Not(b)
	r1, mT := p.feasible(b)
	if r1 == Unsat {
		p.dec = append(p.dec, decision{0, true})
		p.lemma(nb)
		return false
	}
	r2, mF := p.feasible(nb)
	if r2 == Unsat {
		p.dec = append(p.dec, decision{1, true})
		p.lemma(b)
		return true
	}
	if mT != nil {
		p.s.addModel(mT)
	}
	alt := make([]decision, len(p.dec)+1)
	copy(alt, p.dec)
	alt[len(p.dec)] = decision{0, false}
	p.e.push(workItem{alt, mF})
	p.dec = append(p.dec, decision{1, false})
	p.assume(b)
	return true
}

// feasible decides path ∧ b; unknown counts as possible.
func (p *Path) feasible(b *B) (Res, *Model) {
	p.s.flushSide()
	if len(p.c.muls) == 0 {
		return p.s.Solve(b, p.e.BranchTmo)
	}
	r, m := p.s.Solve(b, p.e.BranchTmo/4)
	if r != Unknown {
		return r, m
	}
	return p.s.portfolio(b, time.Duration(p.e.BranchTmo)*time.Millisecond, true)
}

// Choose is an n-way nondeterministic choice without a constraint.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := p.nextDec(); ok {
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		alt := make([]decision, len(p.dec)+1)
		copy(alt, p.dec)
		alt[len(p.dec)] = decision{int32(i), false}
		p.e.push(workItem{d: alt})
	}
	p.dec = append(p.dec, decision{0, false})
	return 0
}

// decide settles path ∧ b with the portfolio if needed.
func (p *Path) decide(b *B) (Res, *Model) {
	tm := p.e.AssertTmo
	if len(p.c.muls) > 0 {
		tm /= 2
	}
	r, m := p.s.Solve(b, tm)
	if r != Unknown {
		return r, m
	}
	tmo := p.e.HardTmo
	if !p.e.deadline.IsZero() {
		if left := time.Until(p.e.deadline); left < tmo {
			tmo = left
		}
	}
	if tmo < time.Second {
		return Unknown, nil
	}
	return p.s.CheckHard(b, tmo)
}

// Assume adds a harness assumption.
func (p *Path) Assume(b *B) {
	if b.kind == BConst {
		if !b.c {
			panic(&pathAbort{abInfeasible, "assume"})
		}
		return
	}
	if v, ok := p.facts[b.id]; ok {
		if !v {
			panic(&pathAbort{abInfeasible, "assume"})
		}
		return
	}
	if d, ok := p.nextDec(); ok {
		_ = d
		p.assume(b)
		return
	}
	p.assume(b)
	r, _ := p.feasible(nil)
	if r == Unsat {
		panic(&pathAbort{abInfeasible, "assume"})
	}
	p.dec = append(p.dec, decision{1, false})
}

// Assert checks that b holds on every input of the path.
func (p *Path) Assert(b *B, msg string) {
	p.asserts++
	if b.kind == BConst && b.c {
		return
	}
	if v, ok := p.facts[b.id]; ok && v {
		return
	}
	if b.kind == BConst && !b.c {
		if d, ok := p.nextDec(); ok {
			_ = d
			panic(&pathAbort{abInfeasible, "assert"})
		}
		r, m := p.decide(nil)
		if r == Sat {
			p.fail("assert", msg, m)
		} else if r == Unknown {
			p.e.mu.Lock()
			p.e.Inconcl["assert "+msg]++
			p.e.mu.Unlock()
		}
		panic(&pathAbort{abInfeasible, "assert failed"})
	}
	if d, ok := p.nextDec(); ok {
		if d.forced {
			p.lemma(b)
		} else {
			p.assume(b)
		}
		return
	}
	atomic.AddInt64(&p.e.AssertQ, 1)
	r, m := p.decide(p.c.Not(b))
	switch r {
	case Unsat:
		p.dec = append(p.dec, decision{1, true})
		p.lemma(b)
		return
	case Sat:
		p.fail("assert", msg, m)
	case Unknown:
		p.e.mu.Lock()
		p.e.Inconcl["assert "+msg]++
		if p.e.Inconcl["assert "+msg] == 1 && dumpDir != "" {
			writeFile(dumpDir+"/"+sanitize(p.e.name+"_"+msg)+".smt2", p.s.script(p.c.Not(b), true))
		}
		p.e.mu.Unlock()
	}
	p.assume(b)
	if r, _ := p.feasible(nil); r == Unsat {
		panic(&pathAbort{abInfeasible, "assert always fails"})
	}
	p.dec = append(p.dec, decision{1, false})
}

func (p *Path) uniq(name string) string {
	p.names[name]++
	if n := p.names[name]; n > 1 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (p *Path) ndInt(name string, lo, hi *big.Int) *I {
	name = p.uniq(name)
	t := p.c.Var(name, lo, hi)
	p.nds = append(p.nds, nondet{name: name, kind: "int", t: t})
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		p.nds[len(p.nds)-1].t = p.c.Big(lo)
		return p.c.Big(lo)
	}
	return t
}
func (p *Path) ndBool(name string) *B {
	name = p.uniq(name)
	b := p.c.BoolVar(name)
	p.nds = append(p.nds, nondet{name: name, kind: "bool", b: b})
	return b
}
func (p *Path) ndChoice(name string, n int) int {
	name = p.uniq(name)
	v := p.Choose(n)
	p.nds = append(p.nds, nondet{name: name, kind: "choice", ch: v})
	return v
}

func wits() int {
	if n, err := strconv.Atoi(os.Getenv("GOSYM_WIT")); err == nil {
		return n
	}
	return 6
}
