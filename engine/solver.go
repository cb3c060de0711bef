package main

// SMT-LIB2 back end: one incremental z3 per worker plus a portfolio for hard queries.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Stats struct {
	Queries, Sat, Unsat, Unknown, Hard int64
	SolverNs                           int64
}

var stats Stats

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	w        *bufio.Writer
	path     []string // commands of the current path scope (declarations, definitions, assertions)
	sent     int
	decl     map[int]bool
	prods    map[string]bool
	plist    []prodRec
	asserted []*B
	mods     []*Model // models of everything asserted
	mdone    int      // product records named in the script
	lems     map[string]bool
	rlt      map[string]bool
	defs     map[int]string
	bdefs    map[int]string
	c        *Ctx
	log      io.Writer
	tmo      int
	alive    bool
}

var z3bin = "z3-new"

func NewSolver() *Solver {
	s := &Solver{}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = exec.Command(z3bin, "-in", "-smt2", "memory_max_size=3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.w = bufio.NewWriterSize(s.in, 1<<16)
	s.alive = true
	fmt.Fprintln(s.w, "(set-option :print-success false)\n(push 1)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Reset begins a new path.
func (s *Solver) Reset(c *Ctx) {
	s.c = c
	if s.sent > 0 || !s.alive {
		if s.alive {
			fmt.Fprintln(s.w, "(pop 1)\n(push 1)")
		} else {
			s.start()
		}
	}
	s.path = s.path[:0]
	s.sent = 0
	s.decl = map[int]bool{}
	s.prods = map[string]bool{}
	s.plist, s.asserted, s.mods, s.mdone = nil, nil, nil, 0
	s.lems = map[string]bool{}
	s.rlt = map[string]bool{}
	s.defs = map[int]string{}
	s.bdefs = map[int]string{}
	s.tmo = -1
}

func num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func q(n string) string { return "|" + n + "|" }

func (s *Solver) emit(f string, a ...any) { s.path = append(s.path, fmt.Sprintf(f, a...)) }

func (s *Solver) declAtom(a *Atom) string {
	switch a.kind {
	case AVar:
		if !s.decl[a.id] {
			s.decl[a.id] = true
			s.emit("(declare-fun %s () Int)", q(a.name))
			// bounds at declaration time are part of the variable's meaning
			if a.lo0() != nil {
				s.emit("(assert (>= %s %s))", q(a.name), num(a.lo0()))
			}
			if a.hi0() != nil {
				s.emit("(assert (<= %s %s))", q(a.name), num(a.hi0()))
			}
		}
		return q(a.name)
	case AIte:
		n := fmt.Sprintf("ite%d", a.id)
		if !s.decl[a.id] {
			s.decl[a.id] = true
			cnd, x, y := s.strB(a.cond), s.strI(a.x), s.strI(a.y)
			s.emit("(declare-fun %s () Int)", n)
			s.emit("(assert (= %s (ite %s %s %s)))", n, cnd, x, y)
		}
		return n
	case AByte:
		n := fmt.Sprintf("byte%d", a.id)
		if !s.decl[a.id] {
			s.decl[a.id] = true
			x := s.strI(a.x)
			d := new(big.Int).Lsh(bz1, uint(8*(7-a.bi)))
			s.emit("(define-fun %s () Int (mod (div %s %s) 256))", n, x, d)
		}
		return n
	}
	panic("declAtom")
}

// refinements may have tightened lo/hi; they are implied by asserted constraints, so
// declaring with the tightened values in the same path scope is sound as well.
func (a *Atom) lo0() *big.Int { return a.lo }
func (a *Atom) hi0() *big.Int { return a.hi }

func (s *Solver) strI(t *I) string {
	if k, ok := t.Const(); ok {
		return num(k)
	}
	if n, ok := s.defs[t.id]; ok {
		return n
	}
	var parts []string
	for _, m := range t.ts {
		if len(m.atoms) == 0 {
			parts = append(parts, num(m.coef))
			continue
		}
		var fs []string
		if m.coef.Cmp(bz1) != 0 {
			fs = append(fs, num(m.coef))
		}
		if len(m.atoms) == 1 {
			fs = append(fs, s.declAtom(m.atoms[0]))
		} else {
			fs = append(fs, s.prod(m.atoms))
		}
		if len(fs) == 1 {
			parts = append(parts, fs[0])
		} else {
			parts = append(parts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	r := parts[0]
	if len(parts) > 1 {
		r = "(+ " + strings.Join(parts, " ") + ")"
	}
	s.defs[t.id] = r
	return r
}

// prod names a product of atoms; the defining equation is a line of its own, so that the
// abstracted script can leave it out.
func (s *Solver) prod(as []*Atom) string {
	k := ""
	for _, a := range as {
		k += fmt.Sprintf("_%d", a.id)
	}
	n := "p" + k
	if s.prods[n] {
		return n
	}
	s.prods[n] = true
	var l string
	if len(as) == 2 {
		l = s.declAtom(as[0])
	} else {
		l = s.prod(as[:len(as)-1])
	}
	r := s.declAtom(as[len(as)-1])
	s.plist = append(s.plist, prodRec{n, l, r, as})
	s.emit("(declare-fun %s () Int)", n)
	s.emit(prodTag+"(assert (= %s (* %s %s)))", n, l, r)
	return n
}

type prodRec struct {
	n, l, r string
	as      []*Atom
}

const prodTag, lemTag = "\t", " "

// absScript is the script with every nonlinear product replaced by an unconstrained variable
// plus monotonicity and bound lemmas (all valid for integer products): unsat carries over.
func (s *Solver) absScript(b *B) string {
	c := s.c
	s.flushSide()
	var x string
	if b != nil {
		x = s.strB(b)
	}
	s.flushSide()
	ms := c.muls
	if len(ms) > 48 {
		ms = ms[len(ms)-48:]
	}
	type pm struct{ a, b, r string }
	var ps []pm
	var lem []string
	add := func(f string, a ...any) { lem = append(lem, "(assert "+fmt.Sprintf(f, a...)+")") }
	for _, m := range ms {
		p := pm{s.strI(m.a), s.strI(m.b), s.strI(m.r)}
		ps = append(ps, p)
		la, ha := c.Iv(m.a)
		lb, hb := c.Iv(m.b)
		mc := func(ka, kb *big.Int, sgn bool) { // (a-ka)(b-kb) >= 0 or <= 0
			if ka == nil || kb == nil {
				return
			}
			op := ">="
			if !sgn {
				op = "<="
			}
			k := new(big.Int).Mul(ka, kb)
			add("(%s (+ %s %s) (+ (* %s %s) (* %s %s)))", op, p.r, num(k), num(ka), p.b, num(kb), p.a)
		}
		mc(la, lb, true)
		mc(ha, hb, true)
		mc(la, hb, false)
		mc(ha, lb, false)
		add("(=> (= %s 0) (= %s 0))", p.a, p.r)
		add("(=> (= %s 0) (= %s 0))", p.b, p.r)
		add("(=> (and (>= %s 1) (>= %s 1)) (and (>= %s %s) (>= %s %s)))", p.a, p.b, p.r, p.a, p.r, p.b)
	}
	mono := func(p, q pm) {
		for _, w := range [2]pm{{q.a, q.b, q.r}, {q.b, q.a, q.r}} {
			add("(=> (and (<= 0 %s) (<= 0 %s) (<= %s %s) (<= %s %s)) (<= %s %s))", p.a, p.b, p.a, w.a, p.b, w.b, p.r, w.r)
			add("(=> (and (<= 0 %s) (<= 0 %s) (< %s %s) (<= %s %s)) (<= (+ %s %s) %s))", p.a, p.b, p.a, w.a, p.b, w.b, p.r, p.b, w.r)
			add("(=> (and (<= 0 %s) (<= 0 %s) (<= %s %s) (< %s %s)) (<= (+ %s %s) %s))", p.a, p.b, p.a, w.a, p.b, w.b, p.r, p.a, w.r)
		}
	}
	for i := range ps {
		for j := range ps {
			if i != j {
				mono(ps[i], ps[j])
			}
		}
	}
	s.flushSide()
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, l := range s.path {
		if !strings.HasPrefix(l, prodTag) {
			sb.WriteString(l)
			sb.WriteByte('\n')
		}
	}
	for _, l := range lem {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	if b != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", x)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (s *Solver) strB(b *B) string {
	switch b.kind {
	case BConst:
		if b.c {
			return "true"
		}
		return "false"
	case BVar:
		if !s.decl[b.id] {
			s.decl[b.id] = true
			s.emit("(declare-fun %s () Bool)", q(b.name))
		}
		return q(b.name)
	}
	if n, ok := s.bdefs[b.id]; ok {
		return n
	}
	var r string
	switch b.kind {
	case BLe:
		r = "(<= " + s.strI(b.x) + " 0)"
	case BEq:
		r = "(= " + s.strI(b.x) + " 0)"
	case BNot:
		r = "(not " + s.strB(b.args[0]) + ")"
	case BAnd, BOr:
		ps := make([]string, len(b.args))
		for i, a := range b.args {
			ps[i] = s.strB(a)
		}
		op := "and"
		if b.kind == BOr {
			op = "or"
		}
		r = "(" + op + " " + strings.Join(ps, " ") + ")"
		if len(r) > 200 {
			n := fmt.Sprintf("bd%d", b.id)
			s.emit("(define-fun %s () Bool %s)", n, r)
			r = n
		}
	}
	s.bdefs[b.id] = r
	return r
}

func (s *Solver) flushSide() {
	for len(s.c.side) > 0 {
		sd := s.c.side
		s.c.side = nil
		for _, b := range sd {
			x := s.strB(b)
			s.emit("(assert %s)", x)
		}
	}
}

func (s *Solver) Assert(b *B) {
	s.asserted = append(s.asserted, b)
	k := s.mods[:0]
	for _, m := range s.mods {
		if e := s.c.evaluator(m); e.B(b) && !e.bad {
			k = append(k, m)
		}
	}
	s.mods = k
	s.flushSide()
	x := s.strB(b)
	s.flushSide()
	s.emit("(assert %s)", x)
}

func (s *Solver) sync() {
	for ; s.sent < len(s.path); s.sent++ {
		if strings.HasPrefix(s.path[s.sent], prodTag) {
			continue
		}
		s.w.WriteString(s.path[s.sent])
		s.w.WriteByte('\n')
	}
}

// Check decides satisfiability of the current path plus b (nil: path only).
// Solve decides path ∧ b over all integers. Products of unknowns are abstracted by variables
// which are refined with valid lemmas (incremental linearisation); a model counts only after
// the path condition has been evaluated under it, unsat of the abstraction is unsat.
func (s *Solver) Solve(b *B, tmoMs int) (res Res, mod *Model) {
	if b != nil && b.kind == BConst && !b.c {
		return Unsat, nil
	}
	for _, m := range s.mods {
		e := s.c.evaluator(m)
		if (b == nil || e.B(b)) && !e.bad {
			return Sat, m
		}
	}
	atomic.AddInt64(&stats.Queries, 1)
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&stats.SolverNs, int64(d))
		switch res {
		case Sat:
			atomic.AddInt64(&stats.Sat, 1)
			if b == nil {
				s.addModel(mod)
			}
		case Unsat:
			atomic.AddInt64(&stats.Unsat, 1)
		default:
			atomic.AddInt64(&stats.Unknown, 1)
		}
		s.slow("solve", d, b, res)
	}()
	deadline := t0.Add(time.Duration(tmoMs) * time.Millisecond)
	s.flushSide()
	var x string
	if b != nil {
		x = s.strB(b)
	}
	s.flushSide()
	for round := 0; ; round++ {
		s.nameMuls()
		if !s.alive {
			s.start()
			s.sent = 0
		}
		s.sync()
		left := int(time.Until(deadline) / time.Millisecond)
		if left < 10 {
			return Unknown, nil
		}
		fmt.Fprintln(s.w, "(push 1)")
		if b != nil {
			fmt.Fprintf(s.w, "(assert %s)\n", x)
		}
		r := s.checkSat(left)
		var m *Model
		if r == Sat {
			m = s.getModel()
		}
		ok := false
		if m != nil {
			e := s.c.evaluator(m)
			ok = s.holds(e, b)
			if !ok && len(s.plist) > 0 && s.alive {
				for k := 0; k < 2 && !ok && s.alive; k++ {
					if m2 := s.linearised(m, k, deadline); m2 != nil {
						if s.holds(s.c.evaluator(m2), b) {
							ok, m = true, m2
						}
					}
				}
			}
		}
		if s.alive {
			fmt.Fprintln(s.w, "(pop 1)")
		}
		switch {
		case r == Unsat:
			return Unsat, nil
		case r == Unknown || m == nil:
			return Unknown, nil
		case ok:
			return Sat, m
		case len(s.plist) == 0:
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "model does not evaluate:", m.I, x)
				for _, a := range s.asserted {
					if e := s.c.evaluator(m); !e.B(a) {
						fmt.Fprintln(os.Stderr, "  false:", s.strB(a))
					}
				}
			}
			return Unknown, nil
		}
		n := s.refine(m)
		if round >= 1 {
			n += s.multiply()
		}
		if n == 0 {
			return Unknown, nil
		}
	}
}

func (s *Solver) addModel(m *Model) {
	for _, x := range s.mods {
		if x == m {
			return
		}
	}
	if len(s.mods) >= 4 {
		s.mods = s.mods[1:]
	}
	s.mods = append(s.mods, m)
}

func (s *Solver) holds(e *evaluator, b *B) bool {
	for _, a := range s.asserted {
		if !e.B(a) || e.bad {
			return false
		}
	}
	return (b == nil || e.B(b)) && !e.bad
}

func (s *Solver) checkSat(left int) Res {
	fmt.Fprintf(s.w, "(set-option :timeout %d)\n(check-sat)\n(set-option :timeout 4294967295)\n", left)
	s.w.Flush()
	return s.readRes(time.Duration(left)*time.Millisecond + 5*time.Second)
}

// nameMuls gives the operands of new products names and emits their static bound lemmas.
func (s *Solver) nameMuls() {
	c := s.c
	for ; s.mdone < len(c.muls); s.mdone++ {
		m := c.muls[s.mdone]
		i := s.mdone
		a, b, r := s.strI(m.a), s.strI(m.b), s.strI(m.r)
		s.flushSide()
		s.emit("(define-fun |mA%d| () Int %s)", i, a)
		s.emit("(define-fun |mB%d| () Int %s)", i, b)
		s.emit("(define-fun |mR%d| () Int %s)", i, r)
		la, ha := c.Iv(m.a)
		lb, hb := c.Iv(m.b)
		mc := func(ka, kb *big.Int, op string) {
			if ka == nil || kb == nil {
				return
			}
			k := new(big.Int).Mul(ka, kb)
			s.emit(lemTag+"(assert (%s (+ |mR%d| %s) (+ (* %s |mB%d|) (* %s |mA%d|))))", op, i, num(k), num(ka), i, num(kb), i)
		}
		mc(la, lb, ">=")
		mc(ha, hb, ">=")
		mc(la, hb, "<=")
		mc(ha, lb, "<=")
	}
}

func (s *Solver) addLemma(f string, a ...any) bool {
	l := lemTag + "(assert " + fmt.Sprintf(f, a...) + ")"
	if s.lems[l] {
		return false
	}
	s.lems[l] = true
	s.path = append(s.path, l)
	return true
}

// refine adds lemmas about products that the model m violates.
func (s *Solver) refine(m *Model) int {
	n := 0
	add := func(f string, a ...any) {
		if s.addLemma(f, a...) {
			n++
		}
	}
	type v3 struct{ a, b, r *big.Int }
	vs := make([]v3, s.mdone)
	for i := range vs {
		vs[i] = v3{m.I[fmt.Sprintf("mA%d", i)], m.I[fmt.Sprintf("mB%d", i)], m.I[fmt.Sprintf("mR%d", i)]}
	}
	tang := 0
	for i, v := range vs {
		if v.a == nil || v.b == nil || v.r == nil {
			continue
		}
		p := new(big.Int).Mul(v.a, v.b)
		if p.Cmp(v.r) == 0 {
			continue
		}
		if v.a.Sign() == 0 {
			add("(=> (= |mA%d| 0) (= |mR%d| 0))", i, i)
		}
		if v.b.Sign() == 0 {
			add("(=> (= |mB%d| 0) (= |mR%d| 0))", i, i)
		}
		if v.a.Sign() > 0 && v.b.Sign() > 0 && (v.r.Cmp(v.a) < 0 || v.r.Cmp(v.b) < 0) {
			add("(=> (and (>= |mA%d| 1) (>= |mB%d| 1)) (and (>= |mR%d| |mA%d|) (>= |mR%d| |mB%d|)))", i, i, i, i, i, i)
		}
		if v.a.Sign() < 0 && v.b.Sign() > 0 && v.r.Sign() >= 0 || v.a.Sign() > 0 && v.b.Sign() < 0 && v.r.Sign() >= 0 {
			add("(=> (or (and (< |mA%d| 0) (> |mB%d| 0)) (and (> |mA%d| 0) (< |mB%d| 0))) (< |mR%d| 0))", i, i, i, i, i)
		}
		if v.a.Sign() < 0 && v.b.Sign() < 0 && v.r.Sign() <= 0 {
			add("(=> (and (< |mA%d| 0) (< |mB%d| 0)) (> |mR%d| 0))", i, i, i)
		}
		mono := 0
		for j, w := range vs {
			if i == j || w.a == nil || w.b == nil || w.r == nil || mono >= 6 {
				continue
			}
			for _, o := range [2][2]string{{"A", "B"}, {"B", "A"}} {
				wa, wb := w.a, w.b
				if o[0] == "B" {
					wa, wb = wb, wa
				}
				pos := func(x, y *big.Int) bool { return x.Sign() >= 0 && y.Sign() >= 0 }
				if pos(v.a, v.b) && v.a.Cmp(wa) <= 0 && v.b.Cmp(wb) <= 0 && v.r.Cmp(w.r) > 0 {
					add("(=> (and (<= 0 |mA%d|) (<= 0 |mB%d|) (<= |mA%d| |m%s%d|) (<= |mB%d| |m%s%d|)) (<= |mR%d| |mR%d|))", i, i, i, o[0], j, i, o[1], j, i, j)
					mono++
				}
				if pos(wa, wb) && wa.Cmp(v.a) <= 0 && wb.Cmp(v.b) <= 0 && w.r.Cmp(v.r) > 0 {
					add("(=> (and (<= 0 |m%s%d|) (<= 0 |m%s%d|) (<= |m%s%d| |mA%d|) (<= |m%s%d| |mB%d|)) (<= |mR%d| |mR%d|))", o[0], j, o[1], j, o[0], j, i, o[1], j, i, j, i)
					mono++
				}
				// strict: a < a', b <= b' gives ab + b <= a'b'
				if pos(v.a, v.b) && v.a.Cmp(wa) < 0 && v.b.Cmp(wb) <= 0 && new(big.Int).Add(v.r, v.b).Cmp(w.r) > 0 {
					add("(=> (and (<= 0 |mA%d|) (<= 0 |mB%d|) (< |mA%d| |m%s%d|) (<= |mB%d| |m%s%d|)) (<= (+ |mR%d| |mB%d|) |mR%d|))", i, i, i, o[0], j, i, o[1], j, i, i, j)
					mono++
				}
				if pos(wa, wb) && wa.Cmp(v.a) < 0 && wb.Cmp(v.b) <= 0 && new(big.Int).Add(w.r, wb).Cmp(v.r) > 0 {
					add("(=> (and (<= 0 |m%s%d|) (<= 0 |m%s%d|) (< |m%s%d| |mA%d|) (<= |m%s%d| |mB%d|)) (<= (+ |mR%d| |m%s%d|) |mR%d|))", o[0], j, o[1], j, o[0], j, i, o[1], j, i, j, o[1], j, i)
					mono++
				}
			}
		}
		if tang < 8 {
			tang++
			add("(=> (= |mA%d| %s) (= |mR%d| (* %s |mB%d|)))", i, num(v.a), i, num(v.a), i)
			add("(=> (= |mB%d| %s) (= |mR%d| (* %s |mA%d|)))", i, num(v.b), i, num(v.b), i)
			if v.r.Cmp(p) > 0 {
				add("(=> (or (and (>= |mA%d| %s) (<= |mB%d| %s)) (and (<= |mA%d| %s) (>= |mB%d| %s))) (<= (+ |mR%d| %s) (+ (* %s |mA%d|) (* %s |mB%d|))))",
					i, num(v.a), i, num(v.b), i, num(v.a), i, num(v.b), i, num(p), num(v.b), i, num(v.a), i)
			} else {
				add("(=> (or (and (>= |mA%d| %s) (>= |mB%d| %s)) (and (<= |mA%d| %s) (<= |mB%d| %s))) (>= (+ |mR%d| %s) (+ (* %s |mA%d|) (* %s |mB%d|))))",
					i, num(v.a), i, num(v.b), i, num(v.a), i, num(v.b), i, num(p), num(v.b), i, num(v.a), i)
			}
		}
	}
	return n
}

const maxMultiply = 160

// multiply adds the defining inequalities of quotients and roundings multiplied by the other
// factors of the products they occur in (valid because those factors are non-negative).
func (s *Solver) multiply() int {
	c := s.c
	n := 0
	ps := s.plist
	for _, p := range ps {
		if len(p.as) > 5 {
			continue
		}
		for i, a := range p.as {
			if a.kind != AVar || a.def == nil || a.def.op != 'q' && a.def.op != 'n' {
				continue
			}
			if i > 0 && p.as[i-1] == a {
				continue
			}
			rest := append(append([]*Atom{}, p.as[:i]...), p.as[i+1:]...)
			n += s.multiplyDef(a, rest)
			if a.def.op == 'q' {
				seen := map[int]bool{}
				for _, t := range a.def.y.ts {
					if len(t.atoms) != 1 || seen[t.atoms[0].id] {
						continue
					}
					seen[t.atoms[0].id] = true
					for j, b := range rest {
						if b == t.atoms[0] && len(rest) > 1 {
							n += s.multiplyDef(a, append(append([]*Atom{}, rest[:j]...), rest[j+1:]...))
							break
						}
					}
				}
			}
			if len(s.rlt) > maxMultiply || n > 40 {
				return n
			}
		}
	}
	// asserted linear constraints times a factor that two of their unknowns occur with
	part := map[*Atom]map[*Atom]bool{}
	for _, p := range ps {
		if len(p.as) == 2 {
			for i := 0; i < 2; i++ {
				a, f := p.as[i], p.as[1-i]
				if part[a] == nil {
					part[a] = map[*Atom]bool{}
				}
				part[a][f] = true
			}
		}
	}
	for _, b := range s.asserted {
		if b.kind != BLe {
			continue
		}
		cnt := map[*Atom]int{}
		lin := 0
		for _, t := range b.x.ts {
			if len(t.atoms) > 1 {
				lin = -100
			}
			if len(t.atoms) == 1 {
				lin++
				for f := range part[t.atoms[0]] {
					cnt[f]++
				}
			}
		}
		if lin < 2 {
			continue
		}
		var fs []*Atom
		for f, k := range cnt {
			if k >= 2 {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		for _, f := range fs {
			k := fmt.Sprintf("b%d,%d", b.id, f.id)
			if lo, _ := c.atomIv(f); s.rlt[k] || lo == nil || lo.Sign() < 0 || len(s.rlt) > maxMultiply {
				continue
			}
			s.rlt[k] = true
			g := c.Neg(b.x)
			c.bound(g, bz0, nil)
			c.Mul(c.atomI(f), g)
			n++
		}
	}
	return n
}

func (s *Solver) multiplyDef(a *Atom, rest []*Atom) int {
	c := s.c
	if len(rest) == 0 || len(s.rlt) > maxMultiply {
		return 0
	}
	k := fmt.Sprint(a.id)
	f := c.Int(1)
	for _, b := range rest {
		if lo, _ := c.atomIv(b); lo == nil || lo.Sign() < 0 {
			return 0
		}
		k += fmt.Sprintf(",%d", b.id)
		f = c.mul(f, c.atomI(b))
	}
	if s.rlt[k] {
		return 0
	}
	if a.def.op == 'q' {
		if _, ok := a.def.y.Const(); !ok && len(rest) == 1 && single(a.def.y) == rest[0] {
			return 0
		}
	}
	s.rlt[k] = true
	q := c.atomI(a)
	if a.def.op == 'q' {
		low := c.Sub(a.def.x, c.mul(q, a.def.y))
		top := c.Sub(c.Sub(a.def.y, c.Int(1)), low)
		var hi *big.Int
		if ky, ok := a.def.y.Const(); ok {
			hi = new(big.Int).Sub(ky, bz1)
		}
		c.bound(low, bz0, hi)
		c.bound(top, bz0, hi)
		c.Mul(f, low)
		c.Mul(f, top)
	} else {
		p2 := new(big.Int).Lsh(a.def.p, 1)
		d := c.Sub(c.MulC(q, p2), c.MulC(a.def.x, big.NewInt(2)))
		low := c.Add(d, c.Big(a.def.p))
		c.bound(low, bz0, p2)
		c.Mul(f, low)
	}
	return 1
}

// linearised fixes enough factors to their values in m that every product becomes linear and
// asks for a model of that restriction.
func (s *Solver) linearised(m *Model, variant int, deadline time.Time) *Model {
	val := map[string]*big.Int{}
	deg := map[*Atom]int{}
	for _, p := range s.plist {
		for _, a := range p.as {
			deg[a]++
		}
	}
	fixed := map[*Atom]bool{}
	e := s.c.evaluator(m)
	for _, p := range s.plist {
		for {
			free := map[*Atom]int{}
			nfree := 0
			for _, a := range p.as {
				if !fixed[a] {
					free[a]++
					nfree++
				}
			}
			if nfree <= 1 {
				break
			}
			var best *Atom
			for a := range free {
				if best == nil {
					best = a
					continue
				}
				// a defined atom is a worse choice than an input
				ka, kb := deg[a], deg[best]
				if a.kind != AVar || a.def != nil {
					ka -= 1000
				}
				if best.kind != AVar || best.def != nil {
					kb -= 1000
				}
				if variant == 1 {
					ka, kb = -ka, -kb
				}
				if ka > kb || ka == kb && a.id < best.id {
					best = a
				}
			}
			fixed[best] = true
		}
	}
	fmt.Fprintln(s.w, "(push 1)")
	var as []*Atom
	for a := range fixed {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		n := s.declAtom(a)
		v := e.atom(a)
		if a.kind == AVar && m.I[a.name] != nil {
			v = m.I[a.name]
		}
		val[n] = v
		fmt.Fprintf(s.w, "(assert (= %s %s))\n", n, num(v))
	}
	for _, p := range s.plist {
		lv, lok := val[p.l]
		rv, rok := val[p.r]
		switch {
		case lok && rok:
			v := new(big.Int).Mul(lv, rv)
			val[p.n] = v
			fmt.Fprintf(s.w, "(assert (= %s %s))\n", p.n, num(v))
		case rok:
			fmt.Fprintf(s.w, "(assert (= %s (* %s %s)))\n", p.n, num(rv), p.l)
		case lok:
			fmt.Fprintf(s.w, "(assert (= %s (* %s %s)))\n", p.n, num(lv), p.r)
		}
	}
	left := int(time.Until(deadline) / time.Millisecond)
	if left > 2000 {
		left = 2000
	}
	var out *Model
	if left > 10 {
		if s.checkSat(left) == Sat {
			out = s.getModel()
		}
	}
	if s.alive {
		fmt.Fprintln(s.w, "(pop 1)")
	}
	return out
}

func (s *Solver) getModel() *Model {
	vl := s.varList()
	for i := 0; i < s.mdone; i++ {
		vl += fmt.Sprintf(" |mA%d| |mB%d| |mR%d|", i, i, i)
	}
	m := &Model{map[string]*big.Int{}, map[string]bool{}}
	if strings.TrimSpace(vl) == "" {
		return m
	}
	fmt.Fprintf(s.w, "(get-value (%s))\n(echo \"--end--\")\n", vl)
	s.w.Flush()
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.alive = false
			return nil
		}
		if strings.Contains(line, "--end--") {
			break
		}
		sb.WriteString(line)
	}
	return parseModel(sb.String())
}

var slowN int64

func (s *Solver) slow(kind string, d time.Duration, b *B, r Res) {
	if dumpDir == "" || d < time.Second {
		return
	}
	n := atomic.AddInt64(&slowN, 1)
	writeFile(fmt.Sprintf("%s/%03d_%s_%s_%.1f.smt2", dumpDir, n, kind, r, d.Seconds()), s.script(b, false))
	if len(s.c.muls) > 0 {
		writeFile(fmt.Sprintf("%s/%03d_abs.smt2", dumpDir, n), s.absScript(b))
	}
}

func (s *Solver) readRes(limit time.Duration) Res {
	done := make(chan struct{})
	cmd := s.cmd
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	defer t.Stop()
	close(done)
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.alive = false
			return Unknown
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", line)
			if os.Getenv("GOSYM_DUMP") != "" {
				os.WriteFile(os.Getenv("GOSYM_DUMP"), []byte(strings.Join(s.path, "\n")), 0o644)
			}
			s.alive = false
			return Unknown
		}
	}
}

func (s *Solver) script(b *B, vals bool) string {
	s.flushSide()
	var x string
	if b != nil {
		x = s.strB(b)
	}
	s.flushSide()
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, l := range s.path {
		if strings.HasPrefix(l, lemTag) {
			continue
		}
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	if b != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", x)
	}
	sb.WriteString("(check-sat)\n")
	if vals {
		if v := s.varList(); v != "" {
			fmt.Fprintf(&sb, "(get-value (%s))\n", v)
		}
	}
	return sb.String()
}

func (s *Solver) varList() string {
	var vs []string
	for _, a := range s.c.vars {
		if s.decl[a.id] {
			vs = append(vs, q(a.name))
		}
	}
	for _, b := range s.c.bvars {
		if s.decl[b.id] {
			vs = append(vs, q(b.name))
		}
	}
	return strings.Join(vs, " ")
}

type Model struct {
	I map[string]*big.Int
	B map[string]bool
}

// parseModel reads ((name value) ...) with |quoted| or plain names.
func parseModel(txt string) *Model {
	m := &Model{map[string]*big.Int{}, map[string]bool{}}
	i := 0
	tok := func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		switch txt[i] {
		case '(', ')':
			i++
			return txt[i-1 : i]
		case '|':
			k := strings.IndexByte(txt[i+1:], '|')
			if k < 0 {
				i = len(txt)
				return ""
			}
			t := txt[i+1 : i+1+k]
			i += k + 2
			return "|" + t
		}
		j := i
		for i < len(txt) && !strings.ContainsRune(" \n\r\t()", rune(txt[i])) {
			i++
		}
		return txt[j:i]
	}
	if tok() != "(" {
		return m
	}
	for tok() == "(" {
		name := strings.TrimPrefix(tok(), "|")
		v := tok()
		neg := false
		if v == "(" { // (- n)
			if tok() != "-" {
				return m
			}
			neg = true
			v = tok()
			tok()
		}
		switch v {
		case "true":
			m.B[name] = true
		case "false":
			m.B[name] = false
		default:
			if n, ok := new(big.Int).SetString(v, 10); ok {
				if neg {
					n.Neg(n)
				}
				m.I[name] = n
			}
		}
		if tok() != ")" {
			return m
		}
	}
	return m
}

var portfolioSem = make(chan struct{}, 8)

// CheckHard runs a portfolio on a stand-alone script; returns result and a model if sat.
func (s *Solver) CheckHard(b *B, tmo time.Duration) (Res, *Model) {
	return s.portfolio(b, tmo, false)
}

// portfolio: linear over- and under-approximations only if lite.
func (s *Solver) portfolio(b *B, tmo time.Duration, lite bool) (Res, *Model) {
	atomic.AddInt64(&stats.Hard, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.SolverNs, int64(time.Since(t0))) }()
	scr := s.script(b, true)
	type out struct {
		r Res
		m *Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	abs, rel := "", ""
	if len(s.c.muls) > 0 {
		for i := 0; i < 3 && s.multiply() > 0; i++ {
			s.nameMuls()
		}
		abs = s.absScript(b)
		if !strings.Contains(abs, "(mod ") && !strings.Contains(abs, "(div ") {
			rel = strings.NewReplacer("() Int", "() Real").Replace(abs)
		}
	}
	cmds := [][]string{
		{"rel", "z3-new", "-in", "-smt2", "memory_max_size=3000"},
		{"abs", "z3-new", "-in", "-smt2", "memory_max_size=3000"},
		{"abs", "cvc5", "--lang=smt2", "-"},
		{"z3-new", "-in", "-smt2", "memory_max_size=3000"},
		{"cvc5", "--lang=smt2", "--produce-models", "--nl-ext-tplanes", "-"},
	}
	if lite {
		cmds = cmds[:2]
		if abs == "" {
			return Unknown, nil
		}
	}
	if rel == "" {
		cmds = cmds[1:]
	}
	if abs == "" {
		cmds = cmds[2:]
	}
	ch := make(chan out, len(cmds))
	var wg sync.WaitGroup
	for _, a := range cmds {
		wg.Add(1)
		go func(a []string) {
			defer wg.Done()
			portfolioSem <- struct{}{}
			defer func() { <-portfolioSem }()
			in := scr
			isAbs := a[0] == "abs" || a[0] == "rel"
			if isAbs {
				in = abs
				if a[0] == "rel" {
					in = rel
				}
				a = a[1:]
			}
			cmd := exec.CommandContext(ctx, a[0], a[1:]...)
			cmd.Stdin = strings.NewReader(in)
			o, _ := cmd.Output()
			txt := string(o)
			first := strings.TrimSpace(strings.SplitN(txt, "\n", 2)[0])
			if isAbs && first != "unsat" {
				first = "unknown"
			}
			switch first {
			case "sat":
				rest := ""
				if p := strings.SplitN(txt, "\n", 2); len(p) > 1 {
					rest = p[1]
				}
				ch <- out{Sat, parseModel(rest)}
			case "unsat":
				ch <- out{Unsat, nil}
			default:
				ch <- out{Unknown, nil}
			}
		}(a)
	}
	res := out{Unknown, nil}
	for range cmds {
		o := <-ch
		if o.r != Unknown {
			res = o
			cancel()
			break
		}
	}
	go wg.Wait()
	if res.r == Sat && !s.holds(s.c.evaluator(res.m), b) {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "portfolio model does not evaluate:", res.m.I)
		}
		res = out{Unknown, nil}
	}
	s.slow("hard", time.Since(t0), b, res.r)
	return res.r, res.m
}
