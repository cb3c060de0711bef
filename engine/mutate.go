package main

// Mutation campaigns: the harnesses run on the loaded program with one instruction changed at a time,
// to find changes of the code which no harness notices. A tool for developing the harnesses; no check uses it.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	mutate   string
	mutInstr ssa.Instruction
	mutKind  string
)

type mutant struct {
	in   ssa.Instruction
	kind string
}

var swapOp = map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR,
	token.EQL: token.NEQ, token.NEQ: token.EQL, token.ADD: token.SUB, token.SUB: token.ADD, token.MUL: token.ADD}

var swapCall = map[string]string{"LT": "LTE", "LTE": "LT", "GT": "GTE", "GTE": "GT", "Add": "Sub", "Sub": "Add", "MulTruncate": "Mul", "QuoTruncate": "Quo", "TruncateInt": "RoundInt", "TruncateInt64": "RoundInt64", "Ceil": "TruncateDec"}

// mutated executes the changed instruction.
func (fr *frame) mutated(in ssa.Instruction, next **ssa.BasicBlock) bool {
	p := fr.p
	switch in := in.(type) {
	case *ssa.BinOp:
		fr.set(in, p.binop(swapOp[in.Op], in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.If:
		s := in.Block().Succs
		switch mutKind {
		case "true":
			*next = s[0]
		case "false":
			*next = s[1]
		default:
			if p.Branch(fr.get(in.Cond).(*B)) {
				*next = s[1]
			} else {
				*next = s[0]
			}
		}
	case *ssa.Store, *ssa.MapUpdate:
	case *ssa.Call:
		switch mutKind {
		case "skip":
			if in.Call.Signature().Results().Len() > 0 {
				fr.set(in, p.zero(in.Type()))
			}
		case "swap":
			c := in.Call.StaticCallee()
			t := c.Signature.Recv().Type()
			m := p.e.prog.prog.LookupMethod(t, c.Pkg.Pkg, swapCall[c.Name()])
			var args []Value
			for _, a := range in.Call.Args {
				args = append(args, fr.get(a))
			}
			fr.set(in, p.call(m, args, nil))
		}
	default:
		return false
	}
	return true
}

func mutantsOf(P *Program, fn *ssa.Function) []mutant {
	var out []mutant
	add := func(in ssa.Instruction, k string) { out = append(out, mutant{in, k}) }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				if _, ok := swapOp[in.Op]; !ok {
					break
				}
				if bt, ok := in.X.Type().Underlying().(*types.Basic); in.Op == token.EQL || in.Op == token.NEQ || ok && bt.Info()&types.IsString == 0 {
					if types.Identical(in.X.Type(), types.Universe.Lookup("error").Type()) {
						break
					}
					add(in, "swap")
				}
			case *ssa.If:
				if x, ok := in.Cond.(*ssa.BinOp); ok {
					if types.Identical(x.X.Type(), types.Universe.Lookup("error").Type()) {
						break
					}
				} else {
					add(in, "neg")
				}
				add(in, "true")
				add(in, "false")
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.FieldAddr); ok {
					add(in, "skip")
				}
			case *ssa.MapUpdate:
				add(in, "skip")
			case *ssa.Call:
				c := in.Call.StaticCallee()
				name := ""
				if c != nil {
					name = c.Name()
				} else if in.Call.Method != nil {
					name = in.Call.Method.Name()
				}
				if name == "" || strings.Contains(name, "Event") || name == "PanicHalt" || name == "Close" || name == "Info" || name == "Error" || name == "SetupTelemetry" || name == "Logger" {
					break
				}
				res := in.Call.Signature().Results()
				if res.Len() == 0 || res.Len() == 1 && types.Identical(res.At(0).Type(), types.Universe.Lookup("error").Type()) && name != "Wrap" && name != "Wrapf" {
					add(in, "skip")
				}
				if c != nil && c.Signature.Recv() != nil && c.Pkg != nil && swapCall[name] != "" {
					if m := P.prog.LookupMethod(c.Signature.Recv().Type(), c.Pkg.Pkg, swapCall[name]); m != nil && types.Identical(m.Signature.Results(), c.Signature.Results()) {
						add(in, "swap")
					}
				}
			}
		}
	}
	return out
}

func repoFuncs(P *Program) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		if len(fn.Blocks) > 0 && fn.Synthetic == "" {
			out = append(out, fn)
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for path, pk := range P.pkgs {
		if !strings.Contains(path, strings.TrimSuffix(repoPkgPrefix, "/")) || strings.Contains(path, overlayDir) {
			continue
		}
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(P.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func mutation(c *config, P *Program, names []string) int {
	re := regexp.MustCompile(mutate)
	type base struct {
		e    *Explorer
		hits map[*ssa.Function][]bool
		msgs map[string]bool
	}
	bases := map[string]*base{}
	run := func(n string, limit time.Duration, fails int) *Explorer {
		e := NewExplorer(P, P.main.Func(n))
		e.deadline = time.Now().Add(limit)
		if fails > 0 {
			e.maxFails = fails
			e.failFast = true
		}
		if b := bases[n]; b != nil {
			e.ignore = b.msgs
		}
		s0 := time.Now()
		e.Run(c.workers)
		e.secs = time.Since(s0).Seconds()
		return e
	}
	for _, n := range names {
		for _, i := range P.info {
			for k := range i.hit {
				i.hit[k] = false
			}
		}
		e := run(n, 60*time.Second, 0)
		b := &base{e: e, hits: map[*ssa.Function][]bool{}, msgs: map[string]bool{}}
		for f, i := range P.info {
			if i.repo {
				b.hits[f] = append([]bool{}, i.hit...)
			}
		}
		for _, f := range e.Fails {
			b.msgs[f.Msg] = true
		}
		bases[n] = b
		fmt.Printf("base %s %.1fs fails=%d\n", n, e.secs, len(e.Fails))
	}
	for _, b := range bases {
		for f, h := range b.hits {
			for k, x := range h {
				P.info[f].hit[k] = P.info[f].hit[k] || x
			}
		}
	}
	if coverFile != "" {
		out := coverFile
		coverFile += ".cov"
		P.writeCover()
		coverFile = out
	}
	type mu struct {
		m  mutant
		fn *ssa.Function
	}
	var all []mu
	for _, fn := range repoFuncs(P) {
		pos := P.fset.Position(fn.Pos())
		if strings.Contains(pos.Filename, ".pb.") || !re.MatchString(pos.Filename+":"+fn.String()) {
			continue
		}
		for _, m := range mutantsOf(P, fn) {
			if m.in.Pos().IsValid() || m.kind != "skip" {
				all = append(all, mu{m, fn})
			}
		}
	}
	rand.New(rand.NewSource(7)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	done := map[string]bool{}
	if f, err := os.Open(coverFile); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var r map[string]any
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				done[fmt.Sprint(r["id"])] = true
			}
		}
		f.Close()
	}
	out, _ := os.OpenFile(coverFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	defer out.Close()
	stop := time.Now().Add(c.budget)
	for k, m := range all {
		if time.Now().After(stop) {
			break
		}
		blk := m.m.in.Block()
		line := 0
		for _, i := range blk.Instrs {
			if i == m.m.in && i.Pos().IsValid() {
				line = P.fset.Position(i.Pos()).Line
			}
		}
		if iff, ok := m.m.in.(*ssa.If); ok && line == 0 {
			if iff.Cond.Pos().IsValid() {
				line = P.fset.Position(iff.Cond.Pos()).Line
			}
		}
		idx := 0
		for j, i := range blk.Instrs {
			if i == m.m.in {
				idx = j
			}
		}
		id := fmt.Sprintf("%s#%d.%d %s", m.fn, blk.Index, idx, m.m.kind)
		if done[id] {
			continue
		}
		var hs []string
		for _, n := range names {
			if h := bases[n].hits[m.fn]; h != nil && h[blk.Index] {
				hs = append(hs, n)
			}
		}
		sort.SliceStable(hs, func(i, j int) bool { return bases[hs[i]].e.secs < bases[hs[j]].e.secs })
		res := "SURVIVED"
		if len(hs) == 0 {
			res = "uncovered"
		}
		by := ""
		t0 := time.Now()
		ran := 0
		for _, n := range hs {
			if time.Since(t0) > 120*time.Second {
				res = "timeout"
				break
			}
			mutInstr, mutKind = m.m.in, m.m.kind
			e := run(n, 40*time.Second, 1)
			mutInstr = nil
			ran++
			if len(e.Fails) > 0 {
				res, by = "killed", n+": "+e.Fails[0].Msg
				break
			}
			bad := false
			for r := range bases[n].e.Reached {
				if e.Reached[r] == 0 {
					bad = true
				}
			}
			if bad || len(e.Unsup) > len(bases[n].e.Unsup) || len(e.Limits) > len(bases[n].e.Limits) {
				res, by = "unreached", n
			}
		}
		pos := P.fset.Position(m.fn.Pos())
		b, _ := json.Marshal(map[string]any{"id": id, "file": pos.Filename, "line": line, "res": res, "by": by, "ins": m.m.in.String(), "covering": len(hs), "ran": ran, "secs": time.Since(t0).Seconds()})
		fmt.Fprintln(out, string(b))
		if k%20 == 0 {
			fmt.Println(k, len(all))
		}
	}
	return 0
}
