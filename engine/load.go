package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	main    *ssa.Package
	infoMu  sync.RWMutex
	info    map[*ssa.Function]*fnInfo
	LoadSec float64
	NPkgs   int

	msgNames map[string]map[string]string
}

type fnInfo struct {
	idx  map[ssa.Value]int
	n    int
	name string
	ext  extFn
	repo bool
	hit  []bool // executed blocks (coverage; racy but monotone)
}

func setEnv() {
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOFLAGS", "-buildvcs=false")
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	for _, k := range []string{"GOWORK", "GOROOT", "GOOS", "GOARCH"} {
		os.Unsetenv(k)
	}
}

func Load(repo string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	t0 := time.Now()
	fs := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fs, Overlay: overlay}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	n := 0
	packages.Visit(pk, nil, func(p *packages.Package) {
		n++
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fset: fs, pkgs: map[string]*ssa.Package{}, info: map[*ssa.Function]*fnInfo{}, NPkgs: n}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	P.main = prog.Package(pk[0].Types)
	P.LoadSec = time.Since(t0).Seconds()
	return P, nil
}

func (P *Program) fn(f *ssa.Function) *fnInfo {
	P.infoMu.RLock()
	i := P.info[f]
	P.infoMu.RUnlock()
	if i != nil {
		return i
	}
	i = &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, v := range f.Params {
		add(v)
	}
	for _, v := range f.FreeVars {
		add(v)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if f.Recover != nil {
		for _, in := range f.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := i.idx[v]; !ok {
					add(v)
				}
			}
		}
	}
	i.name = f.String()
	if o := f.Origin(); o != nil && o != f {
		i.name = o.String()
	}
	i.ext = lookupExt(i.name, f)
	i.hit = make([]bool, len(f.Blocks))
	i.repo = strings.Contains(i.name, repoPkgPrefix) && !strings.Contains(i.name, repoPkgPrefix+overlayDir)
	P.infoMu.Lock()
	P.info[f] = i
	P.infoMu.Unlock()
	return i
}

func (P *Program) namedType(pkg, name string) types.Type {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// method returns the named method of a dynamic type, nil when there is none.
func (P *Program) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

// messageName is the registered protobuf name of a generated message type: the argument its
// package's init functions pass to RegisterType.
func (P *Program) messageName(t types.Type) string {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return ""
	}
	path := nt.Obj().Pkg().Path()
	P.infoMu.Lock()
	defer P.infoMu.Unlock()
	if P.msgNames == nil {
		P.msgNames = map[string]map[string]string{}
	}
	m := P.msgNames[path]
	if m == nil {
		m = map[string]string{}
		P.msgNames[path] = m
		if sp := P.pkgs[path]; sp != nil {
			for n, mem := range sp.Members {
				f, ok := mem.(*ssa.Function)
				if !ok || !strings.HasPrefix(n, "init#") {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(*ssa.Call)
						if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "RegisterType" || len(c.Call.Args) != 2 {
							continue
						}
						var at types.Type
						switch x := c.Call.Args[0].(type) {
						case *ssa.MakeInterface:
							at = x.X.Type()
						case *ssa.ChangeInterface:
							continue
						}
						k, ok := c.Call.Args[1].(*ssa.Const)
						if at == nil || !ok {
							continue
						}
						m[at.String()] = constant.StringVal(k.Value)
					}
				}
			}
		}
	}
	return m[t.String()]
}
