package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog       *ssa.Program
	pkgs       []*ssa.Package
	tt         *TypeTable
	fnMu       sync.RWMutex
	ssaMu      sync.Mutex
	fns        map[*ssa.Function]*FnInfo
	globIdx    map[*ssa.Global]int
	globs      []*ssa.Global
	repoModule string

	rtErr, tRtype, tRtypeLite, tRValue, tStructField, tUint64, tFloat64, tUint8, tBytes, tAny, tString, tInt *TInfo
	errorMethod                                                                                              *types.Func
	errorIface                                                                                               *types.Interface

	solverTimeout int
	maxSteps      int64
	maxDepth      int
	thorough      bool
	stopOnCE      bool
	workers       []*W
	stdCache      sync.Map
	mainPkg       *ssa.Package
	src           []*packages.Package
	seed          int64
}

func (e *Engine) stdFn(pkg, name string) *FnInfo {
	k := pkg + "." + name
	if f, ok := e.stdCache.Load(k); ok {
		return f.(*FnInfo)
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	fi := e.Fn(p.Func(name))
	e.stdCache.Store(k, fi)
	return fi
}

func Load(dir string, patterns []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOEXPERIMENT=nojsonv2", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", er)
			bad = true
		}
	})
	if bad {
		return nil, fmt.Errorf("packages do not load")
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: sp, fns: map[*ssa.Function]*FnInfo{}, globIdx: map[*ssa.Global]int{}, repoModule: "github.com/lyraproj/dgo",
		solverTimeout: 15000, maxSteps: 4000000, maxDepth: 1200}
	e.tt = &TypeTable{prog: prog, sizes: types.SizesFor("gc", "amd64")}
	e.tUint8 = e.tt.Get(types.Typ[types.Uint8])
	e.tBytes = e.tt.Get(types.NewSlice(types.Typ[types.Uint8]))
	e.tAny = e.tt.Get(types.NewInterfaceType(nil, nil))
	e.tString = e.tt.Get(types.Typ[types.String])
	e.tInt = e.tt.Get(types.Typ[types.Int])
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		e.rtErr = e.tt.Get(rt.Type("errorString").Type())
	} else {
		return nil, fmt.Errorf("runtime not loaded")
	}
	e.tUint64 = e.tt.Get(types.Typ[types.Uint64])
	e.tFloat64 = e.tt.Get(types.Typ[types.Float64])
	if rp := prog.ImportedPackage("reflect"); rp != nil {
		e.tRtype = e.tt.Get(types.NewPointer(rp.Type("rtype").Type()))
		e.tRValue = e.tt.Get(rp.Type("Value").Type())
		e.tStructField = e.tt.Get(rp.Type("StructField").Type())
	}
	if rp := prog.ImportedPackage("internal/reflectlite"); rp != nil {
		e.tRtypeLite = e.tt.Get(rp.Type("rtype").Type())
	}
	e.errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	e.errorMethod = e.errorIface.Method(0)
	e.mainPkg = sp[0]
	e.src = pkgs
	return e, nil
}

func (w *W) init() {
	defer func() {
		if r := recover(); r != nil {
			m := fmt.Sprint(r)
			switch x := r.(type) {
			case *pathEnd:
				m = x.why
			case *targetPanic:
				m = w.panicLabel(x) + " " + x.trace
			}
			fmt.Fprintln(os.Stderr, "package initialisation failed:", m, w.trace())
			debug.PrintStack()
			os.Exit(3)
		}
	}()
	w.initSide = map[any]any{}
	w.maxSteps = 1 << 40
	w.ser = 0
	w.initDone = false
	w.h = &Harness{Name: "init", inconclusive: map[string]int64{}}
	for _, p := range w.eng.pkgs {
		if f := p.Func("init"); f != nil {
			w.call(w.eng.Fn(f), nil, nil, nil)
		}
	}
	w.initSer = w.ser
	w.initDone = true
}

func main() {
	dir := flag.String("dir", "/verif/harness", "harness module")
	run := flag.String("run", "", "comma separated harness names or prefixes")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Duration("budget", 120*time.Second, "time budget")
	pkg := flag.String("pkg", "./h", "harness package")
	prop := flag.String("check", "", "property id to check")
	verif := flag.String("verif", "/verif", "verif directory")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *tier == "" {
		*tier = "quick"
	}
	if *prop != "" {
		os.Exit(runCheck(*verif, *prop, *tier, *budget, *nw))
	}
	t0 := time.Now()
	e, err := Load(*dir, []string{*pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	e.thorough = *tier == "thorough"
	hs := e.harnesses(func(n string) bool {
		for _, r := range strings.Split(*run, ",") {
			if r != "" && strings.HasPrefix(n, r) {
				return true
			}
		}
		return false
	})
	e.Run(hs, *nw, time.Now().Add(*budget))
	for _, h := range hs {
		fmt.Printf("%s: paths=%d infeasible=%d asserts=%d conc=%d oblig=%d disch=%d dropped=%d inc=%v reach=%v wall=%v fns=%d\n", h.Name, h.paths, h.infeasible, h.asserts, h.assertsConc, h.obligations, h.discharged, h.dropped, h.inconclusive, h.reach, h.wall, len(h.fns))
		for k, c := range h.ces {
			fmt.Printf("   CE %s %v\n      %s\n      %s\n", k, c.Values, c.Detail, c.Trace)
		}
	}
	var q, ck, dh, ch int64
	var st time.Duration
	for _, w := range e.workers {
		q += w.sol.Queries
		ck += w.checks
		dh += w.domHits
		ch += w.cacheHits
		st += w.sol.Time
	}
	fmt.Printf("checks=%d dom=%d cache=%d queries=%d solver=%v total=%v\n", ck, dh, ch, q, st, time.Since(t0))
}
