package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const overlayDir = "zz_verif"

type config struct {
	repo, verif string
	prop        string
	tier        string
	budget      time.Duration
	workers     int
	harness     string
	verbose     bool
	noNative    bool
	keep        bool
}

// overlayFiles maps virtual paths under /repo to the harness files of one property.
func overlayFiles(c *config) (map[string]string, error) {
	out := map[string]string{}
	dir := filepath.Join(c.verif, "harness")
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	need := map[string]bool{}
	var hs []string
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		switch {
		case n == "world.go" || n == "main.go":
			need[n] = true
		case strings.HasPrefix(n, "h_") && (c.prop == "ALL" || n == "h_"+c.prop+".go" || strings.HasPrefix(n, "h_"+c.prop+"_")):
			need[n] = true
			hs = append(hs, n)
		}
	}
	if len(hs) == 0 {
		return nil, fmt.Errorf("no harness for %s", c.prop)
	}
	// harness files name the helper libraries they use: //verif:use lib_x.go ...
	todo := hs
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if r, ok := strings.CutPrefix(l, "//verif:use "); ok {
				for _, u := range strings.Fields(r) {
					if !need[u] {
						need[u] = true
						todo = append(todo, u)
					}
				}
			}
		}
	}
	for n := range need {
		out[filepath.Join(c.repo, overlayDir, n)] = filepath.Join(dir, n)
	}
	out[filepath.Join(c.repo, overlayDir, "vs", "vs.go")] = filepath.Join(dir, "vs", "vs.go")
	return out, nil
}

// registry source: native dispatch by harness name
func registrySrc(names []string) []byte {
	var sb strings.Builder
	sb.WriteString("package main\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\tharnesses[%q] = %s\n", n, n)
	}
	sb.WriteString("}\n")
	return []byte(sb.String())
}

func harnessNames(c *config, files map[string]string) []string {
	var out []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			pre := "func H_" + c.prop + "_"
			if c.prop == "ALL" {
				pre = "func H_"
			}
			if strings.HasPrefix(l, pre) {
				l = strings.TrimPrefix(l, "func ")
				out = append(out, l[:strings.IndexByte(l, '(')])
			}
		}
	}
	sort.Strings(out)
	return out
}

type nativeResult struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Stopped string   `json:"stopped"`
	Obs     []string `json:"obs"`
	OK      bool     `json:"ok"`
	err     string
}

type native struct {
	c     *config
	bin   string
	once  sync.Once
	err   error
	dir   string
	files map[string]string
	reg   []byte
	secs  float64
}

func (n *native) build() error {
	n.once.Do(func() {
		t0 := time.Now()
		n.dir, n.err = os.MkdirTemp("", "gosym")
		if n.err != nil {
			return
		}
		rep := map[string]string{}
		for k, v := range n.files {
			rep[k] = v
		}
		rf := filepath.Join(n.dir, "registry.go")
		os.WriteFile(rf, n.reg, 0o644)
		rep[filepath.Join(n.c.repo, overlayDir, "registry.go")] = rf
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		of := filepath.Join(n.dir, "overlay.json")
		os.WriteFile(of, b, 0o644)
		n.bin = filepath.Join(n.dir, "replay")
		cmd := exec.Command("go", "build", "-overlay", of, "-ldflags=-s -w", "-o", n.bin, "./"+overlayDir)
		cmd.Dir = n.c.repo
		o, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, o)
		}
		n.secs = time.Since(t0).Seconds()
	})
	return n.err
}

func (n *native) run(harness string, values map[string]string) *nativeResult {
	in, _ := json.Marshal(map[string]any{"harness": harness, "values": values, "thorough": thorough})
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Stdin = strings.NewReader(string(in))
	cmd.Dir = n.dir
	o, err := cmd.Output()
	r := &nativeResult{}
	if e := json.Unmarshal(o, r); e != nil {
		r.err = fmt.Sprintf("%v %v %s", err, e, o)
	}
	return r
}

type known struct{ prop, key, text string }

func loadKnown(c *config) []known {
	var out []known
	f, err := os.Open(filepath.Join(c.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(l, ' ')
		prop, rest := l[:i], strings.TrimSpace(l[i:])
		if !strings.HasPrefix(rest, "match=\"") {
			continue
		}
		rest = rest[len("match=\""):]
		j := strings.IndexByte(rest, '"')
		out = append(out, known{prop, rest[:j], strings.TrimSpace(rest[j+1:])})
	}
	return out
}

func docs(P *Program, name string) string {
	f := P.main.Func(name)
	if f == nil || f.Syntax() == nil {
		return ""
	}
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return strings.TrimSpace(strings.ReplaceAll(d.Doc.Text(), "\n", " "))
	}
	return ""
}

func main() {
	debug.SetGCPercent(300)
	c := &config{}
	flag.StringVar(&c.repo, "repo", "/repo", "repository")
	flag.StringVar(&c.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "tier")
	flag.StringVar(&c.harness, "harness", "", "run only this harness (debugging)")
	flag.DurationVar(&c.budget, "budget", 0, "exploration budget")
	flag.IntVar(&c.workers, "workers", runtime.NumCPU(), "workers")
	flag.BoolVar(&c.verbose, "v", false, "verbose")
	flag.BoolVar(&c.noNative, "nonative", false, "skip native validation (debugging)")
	flag.BoolVar(&debugPanics, "debug", false, "do not catch engine panics")
	flag.StringVar(&dumpDir, "dump", "", "dump hard queries")
	flag.BoolVar(&c.keep, "keep", false, "keep native binary")
	prof := flag.String("cpuprofile", "", "")
	flag.StringVar(&mutate, "mutate", "", "mutation campaign over the functions matching this expression (debugging; with -prop ALL)")
	flag.StringVar(&coverFile, "cover", "", "write the executed blocks of the repository to this file (debugging)")
	flag.Parse()
	if *prof != "" {
		startProfile(*prof)
		defer stopProfile()
	}
	thorough = c.tier == "thorough"
	if c.budget == 0 {
		c.budget = 280 * time.Second
		if thorough {
			c.budget = 640 * time.Second
		}
	}
	code := check(c)
	stopProfile()
	os.Exit(code)
}

func check(c *config) int {
	t0 := time.Now()
	setEnv()
	files, err := overlayFiles(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	names := harnessNames(c, files)
	reg := registrySrc(names)
	ov := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ov[k] = b
	}
	ov[filepath.Join(c.repo, overlayDir, "registry.go")] = reg
	nat := &native{c: c, files: files, reg: reg}
	defer func() {
		if nat.dir != "" && !c.keep {
			os.RemoveAll(nat.dir)
		}
	}()
	if !c.noNative {
		go nat.build() // overlaps with loading and exploration
	}
	P, err := Load(c.repo, ov, "./"+overlayDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		nat.build()
		return 2
	}
	fmt.Printf("gosym: loaded %d packages in %.1fs\n", P.NPkgs, P.LoadSec)
	var sel []string
	for _, n := range names {
		if c.harness == "" || n == c.harness || strings.HasSuffix(n, "_"+c.harness) {
			sel = append(sel, n)
		}
	}
	if mutate != "" {
		return mutation(c, P, sel)
	}
	kn := loadKnown(c)
	end := time.Now().Add(c.budget)
	var exps []*Explorer
	for i, n := range sel {
		f := P.main.Func(n)
		if f == nil {
			fmt.Fprintln(os.Stderr, "missing harness", n)
			return 2
		}
		e := NewExplorer(P, f)
		left := time.Until(end)
		share := left / time.Duration(len(sel)-i)
		if k := len(sel) - i; k > 1 { // allow slower harnesses to borrow
			share = share * 2
			if share > left*9/10 {
				share = left * 9 / 10
			}
		}
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		e.deadline = time.Now().Add(share)
		s0 := time.Now()
		e.Run(c.workers)
		e.secs = time.Since(s0).Seconds()
		exps = append(exps, e)
		P.writeCover()
		fmt.Printf("  %-34s paths=%d infeasible=%d asserts=%d solver-asserts=%d steps=%d fails=%d %.1fs\n", n, e.Paths, e.Infeasible, e.Asserts, e.AssertQ, e.Steps, len(e.Fails), e.secs)
		pr := func(k string, m map[string]int) {
			for _, s := range sortedKeys(m) {
				fmt.Printf("    %s: %s (x%d)\n", k, s, m[s])
			}
		}
		pr("unsupported", e.Unsup)
		pr("limit", e.Limits)
		pr("inconclusive", e.Inconcl)
		if c.verbose {
			for _, s := range sortedKeys64(e.Reached) {
				fmt.Printf("    reached: %s (x%d)\n", s, e.Reached[s])
			}
			for _, f := range e.Fails {
				fmt.Printf("    FAIL %s %s %v\n", f.Kind, f.Msg, f.Values)
				for _, t := range f.Trace {
					fmt.Println("        at", t)
				}
			}
		}
	}
	rc, viol := 0, 0
	validated, mismatched := 0, 0
	var mismatch []string
	var samples []any
	knownHit := map[string]bool{}
	if !c.noNative {
		if err := nat.build(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		// 1. counterexamples
		for _, e := range exps {
			seen := map[string]bool{}
			for _, f := range e.Fails {
				if seen[f.Msg] {
					continue
				}
				tries := 1
				if f.MapOrd {
					tries = 60
				}
				repro := false
				var last *nativeResult
				for t := 0; t < tries && !repro; t++ {
					r := nat.run(e.name, f.Values)
					last = r
					if f.Kind == "panic" {
						repro = r.Panic != ""
					} else {
						for _, m := range r.Failed {
							repro = repro || m == f.Msg
						}
					}
				}
				if !repro {
					e.NoRepro++
					fmt.Printf("    counterexample did not reproduce natively: %s: %s -> %+v\n", e.name, f.Msg, last)
					if c.verbose {
						fmt.Println("     ", f.Values)
					}
					continue
				}
				seen[f.Msg] = true
				isKnown := false
				for _, k := range kn {
					if k.prop == c.prop && k.key == e.name+": "+f.Msg {
						isKnown = true
						if !knownHit[k.key] {
							knownHit[k.key] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.text)
						}
					}
				}
				if isKnown {
					continue
				}
				viol++
				rd := filepath.Join(c.verif, "evidence", "replays")
				os.MkdirAll(rd, 0o755)
				rp := filepath.Join(rd, fmt.Sprintf("%s_%d.json", c.prop, viol))
				b, _ := json.MarshalIndent(map[string]any{"property": c.prop, "harness": e.name, "assertion": f.Msg, "kind": f.Kind, "inputs": f.Values, "native": last,
					"how": "inputs are the solver's model; replayed by the natively compiled harness against the real code"}, "", " ")
				os.WriteFile(rp, b, 0o644)
				fmt.Printf("counterexample (%s): %s\n  %v\n", e.name, f.Msg, f.Values)
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
				rc = 1
			}
		}
		// 2. validation of the encoding: predicted observations vs. native execution
		for _, e := range exps {
			for _, w := range e.Witness {
				r := nat.run(e.name, w.Values)
				ok := r.err == "" && r.Stopped == "" && r.Panic == "" && len(r.Obs) == len(w.Obs)
				for i := 0; ok && i < len(w.Obs); i++ {
					ok = r.Obs[i] == w.Obs[i]
				}
				if ok {
					validated++
					if len(samples) < 5 {
						samples = append(samples, map[string]any{"harness": e.name, "inputs": w.Values, "observed": w.Obs})
					}
				} else {
					mismatched++
					d := ""
					for i := 0; i < len(w.Obs) && i < len(r.Obs); i++ {
						if w.Obs[i] != r.Obs[i] {
							d += w.Obs[i] + " vs native " + r.Obs[i] + "; "
						}
					}
					m := fmt.Sprintf("%s: encoding and native run differ (%s) native=%+v", e.name, d, r)
					if len(m) > 1500 {
						m = m[:1500]
					}
					mismatch = append(mismatch, m)
					fmt.Println("    MISMATCH", m)
					if c.verbose {
						fmt.Println("      values", w.Values)
						fmt.Println("      predicted", w.Obs)
					}
				}
			}
		}
	}
	writeEvidence(c, P, exps, samples, validated, mismatch, viol, nat, time.Since(t0).Seconds())
	fmt.Printf("gosym: %s %s: violations=%d validated=%d mismatched=%d queries=%d solver=%.1fs wall=%.1fs\n", c.prop, c.tier, viol, validated, mismatched,
		stats.Queries, float64(stats.SolverNs)/1e9, time.Since(t0).Seconds())
	return rc
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedKeys64(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeEvidence(c *config, P *Program, exps []*Explorer, samples []any, validated int, mismatch []string, viol int, nat *native, wall float64) {
	var paths, infeas, steps, asserts, aq int64
	fset := map[string]bool{}
	var per []any
	assume := map[string]bool{}
	for _, e := range exps {
		paths += e.Paths
		infeas += e.Infeasible
		steps += e.Steps
		asserts += e.Asserts
		aq += e.AssertQ
		for f := range e.Funcs {
			fset[fnLabel(f)] = true
		}
		h := map[string]any{"harness": e.name, "claim_and_bounds": docs(P, e.name), "paths": e.Paths, "infeasible_paths": e.Infeasible,
			"assertions_checked": e.Asserts, "assertion_queries": e.AssertQ, "max_decisions": e.MaxDec, "instructions": e.Steps,
			"reachability_witnesses": e.Reached, "seconds": e.secs, "counterexamples_not_reproduced": e.NoRepro}
		complete := len(e.Unsup) == 0 && len(e.Limits) == 0 && len(e.Inconcl) == 0 && e.NoRepro == 0
		h["complete_within_bounds"] = complete
		if len(e.Unsup) > 0 {
			h["unsupported_paths_not_covered"] = e.Unsup
		}
		if len(e.Limits) > 0 {
			h["limits_hit_not_covered"] = e.Limits
		}
		if len(e.Inconcl) > 0 {
			h["undecided_queries"] = e.Inconcl
		}
		per = append(per, h)
		for a := range e.Assumes {
			assume[a] = true
		}
	}
	var fs []string
	for f := range fset {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no path witness was validated in this run"})
	}
	cov := map[string]any{
		"states": paths + infeas, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"unit":                            "states = symbolic paths executed to their end (each stands for all inputs satisfying its path condition); transitions = SSA instructions executed symbolically",
		"harnesses":                       per,
		"functions_encoded":               fs,
		"functions_encoded_count":         len(fs),
		"assertions_checked":              asserts,
		"assertion_queries_discharged":    aq,
		"solver_queries":                  stats.Queries,
		"solver_results":                  map[string]int64{"sat": stats.Sat, "unsat": stats.Unsat, "unknown": stats.Unknown, "portfolio": stats.Hard},
		"solver_seconds":                  float64(stats.SolverNs) / 1e9,
		"encoding_mismatches":             mismatch,
		"packages_loaded":                 P.NPkgs,
		"load_seconds":                    P.LoadSec,
		"native_replay_binary_build_secs": nat.secs,
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": seed(), "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"bank, account, distribution and upgrade keepers are stubs (plain coin ledger; recorded halts); store and protobuf codec are engine models, checked against the SDK's own ones by native replay of path witnesses",
			"bech32 encoding is modelled as an injective map; events, telemetry, logging and gas have no effect on state",
			"each harness states its own bounds in claim_and_bounds; nothing outside them is claimed",
		}}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func fnLabel(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, "github.com/KYVENetwork/chain/", "")
}
