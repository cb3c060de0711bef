package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var profFile *os.File

func startProfile(n string) {
	profFile, _ = os.Create(n)
	pprof.StartCPUProfile(profFile)
}
func stopProfile() {
	if profFile != nil {
		pprof.StopCPUProfile()
		profFile.Close()
		profFile = nil
	}
}

var coverFile string

// writeCover lists every block of the repository's functions with a mark if it was executed.
func (P *Program) writeCover() {
	if coverFile == "" {
		return
	}
	f, err := os.Create(coverFile)
	if err != nil {
		return
	}
	defer f.Close()
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		P.infoMu.RLock()
		in := P.info[fn]
		P.infoMu.RUnlock()
		for _, b := range fn.Blocks {
			lo, hi := 0, 0
			file := ""
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					q := P.fset.Position(i.Pos())
					if file == "" {
						file = q.Filename
					}
					if lo == 0 || q.Line < lo {
						lo = q.Line
					}
					if q.Line > hi {
						hi = q.Line
					}
				}
			}
			if file != "" {
				h := 0
				if in != nil && in.hit[b.Index] {
					h = 1
				}
				fmt.Fprintf(f, "%s:%d-%d %s#%d %d\n", file, lo, hi, fn.String(), b.Index, h)
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for path, pk := range P.pkgs {
		if !strings.Contains(path, strings.TrimSuffix(repoPkgPrefix, "/")) || strings.Contains(path, overlayDir) {
			continue
		}
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						visit(P.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
}
