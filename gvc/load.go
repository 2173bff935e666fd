package main

// Loading of /repo and construction of SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*packages.Package
	pkgByKey map[string]*types.Package // short name -> package
	fnByName map[string]*ssa.Function
	hasBody  map[*types.Package]bool
	repo     string

	spec *Spec

	// recording used while building recursive spec functions
	recHeaps    map[string]string
	recSubst    map[string]*Term
	recAbstract bool
	recBusy     map[string]bool

	epochAlloc map[string]*Term
	writes     *WriteSet

	emit    bool
	obls    []*Oblig
	cur     *FnCtx
	stack   []*ssa.Function
	loops   map[*ssa.Function]*fnLoops
	globals map[*ssa.Global]*globInfo

	heapRead      bool
	depth         int
	stats         Stats
	floatReal     bool
	trustedUsed   map[string]bool
	externUsed    map[string]bool
	inlined       map[string]bool
	usedContracts map[string]bool
	cellTypes     map[int]types.Type
	scouting      bool
	deadline      time.Time
	hard          time.Time          // symbolic execution gives up
	uses          map[*Contract]bool // helper contracts relied on by the current function
}

type Stats struct {
	houdini int
	userInv int
	loops   int
}

type globInfo struct {
	stored bool // stored outside init
	init   ssa.Value
}

func load(repo, overlayDir string) (*Engine, error) {
	overlay := map[string][]byte{}
	if overlayDir != "" {
		filepath.Walk(overlayDir, func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(overlayDir, p)
			b, err := os.ReadFile(p)
			if err == nil {
				overlay[filepath.Join(repo, rel)] = b
			}
			return nil
		})
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedImports | packages.NeedExportFile | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOWORK=off"),
	}
	pats := []string{"./...", "slices", "sort", "maps", "cmp"}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var keep []*packages.Package
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/examples/") {
			continue
		}
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
		keep = append(keep, p)
	}
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	e := &Engine{fset: prog.Fset, prog: prog, pkgs: keep, pkgByKey: map[string]*types.Package{}, fnByName: map[string]*ssa.Function{},
		hasBody: map[*types.Package]bool{}, repo: repo, epochAlloc: map[string]*Term{}, loops: map[*ssa.Function]*fnLoops{}, globals: map[*ssa.Global]*globInfo{},
		trustedUsed: map[string]bool{}, externUsed: map[string]bool{}, inlined: map[string]bool{}, usedContracts: map[string]bool{}, cellTypes: map[int]types.Type{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", keep[i].PkgPath)
		}
		sp.Build()
		e.hasBody[sp.Pkg] = true
		e.pkgByKey[shortPath(sp.Pkg.Path())] = sp.Pkg
	}
	// imported packages by short path (for spec type names)
	var addImports func(p *types.Package)
	seen := map[*types.Package]bool{}
	addImports = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		k := shortPath(p.Path())
		if _, ok := e.pkgByKey[k]; !ok {
			e.pkgByKey[k] = p
		}
		for _, q := range p.Imports() {
			addImports(q)
		}
	}
	for _, sp := range spkgs {
		addImports(sp.Pkg)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil || fn.Object() != nil {
			e.fnByName[fnName(fn)] = fn
		}
	}
	// methods of all named types (AllFunctions may omit unreachable ones)
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				e.fnByName[fnName(x)] = x
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							e.fnByName[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	e.scanGlobals(spkgs)
	return e, nil
}

// fnName: "(*navigator.Navigator).MoveToRoute", "types.NewSpeed".
func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	// replace full package paths with short ones
	var pkg *types.Package
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg
	} else if f.Object() != nil {
		pkg = f.Object().Pkg()
	}
	if pkg != nil {
		s = strings.ReplaceAll(s, pkg.Path()+".", shortPath(pkg.Path())+".")
	}
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (e *Engine) scanGlobals(spkgs []*ssa.Package) {
	get := func(g *ssa.Global) *globInfo {
		gi := e.globals[g]
		if gi == nil {
			gi = &globInfo{}
			e.globals[g] = gi
		}
		return gi
	}
	for _, sp := range spkgs {
		var fns []*ssa.Function
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				fns = append(fns, f)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := e.prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := e.prog.MethodValue(ms.At(i)); f != nil {
							fns = append(fns, f)
						}
					}
				}
			}
		}
		for len(fns) > 0 {
			f := fns[0]
			fns = append(fns[1:], f.AnonFuncs...)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							gi := get(g)
							if f.Synthetic == "package initializer" && gi.init == nil {
								gi.init = st.Val
							} else if strings.HasPrefix(f.Name(), "init") {
								gi.init = nil
								gi.stored = true
							} else {
								gi.stored = true
							}
						}
					}
				}
			}
		}
	}
}

var errGlobals = map[string]int{}

// noteGlobal registers facts about an immutable package-level variable.
func (e *Engine) noteGlobal(g *ssa.Global, t *Term, ty types.Type) {
	if _, ok := symAxioms[t.name]; ok {
		return
	}
	symAxioms[t.name] = True
	gi := e.globals[g]
	var ax []*Term
	if t.sort == "Iface" {
		isErr := false
		if gi != nil && gi.init != nil && !gi.stored {
			if c, ok := gi.init.(*ssa.Call); ok {
				if f := c.Common().StaticCallee(); f != nil {
					n := f.RelString(nil)
					isErr = n == "errors.New" || n == "fmt.Errorf"
				}
			}
		}
		// error sentinels of imported packages without bodies are taken as non-nil, too
		if isErr || (gi == nil && strings.HasPrefix(g.Name(), "Err")) {
			id, ok := errGlobals[t.name]
			if !ok {
				id = len(errGlobals) + 1
				errGlobals[t.name] = id
			}
			ax = append(ax, Not(Eq(t, nilIface())), Eq(App("errid", "Int", t), Int(int64(id))))
		}
	}
	if gi != nil && gi.init != nil && !gi.stored {
		if c, ok := gi.init.(*ssa.Const); ok {
			if v := constTerm(c); v != nil {
				ax = append(ax, Eq(t, v))
			}
		}
		if isRefType(ty) {
			switch gi.init.(type) {
			case *ssa.Call, *ssa.Alloc, *ssa.MakeMap:
				// package-level pointers set up by a constructor in the package initializer
				ax = append(ax, Lt(Int(0), t))
			}
		}
	}
	if hasRefs(ty) {
		ax = append(ax, wfValue(t, ty, Sym("A@0", "Int")))
	}
	symAxioms[t.name] = And(ax...)
}

// ---- loops ---------------------------------------------------------------------------------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	latch  []*ssa.BasicBlock
	ord    int
}

type fnLoops struct {
	rpo   []*ssa.BasicBlock
	idx   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*loop // by header
}

func (e *Engine) loopsOf(f *ssa.Function) *fnLoops {
	if l, ok := e.loops[f]; ok {
		return l
	}
	fl := &fnLoops{idx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fl.idx[post[i]] = len(fl.rpo)
		fl.rpo = append(fl.rpo, post[i])
	}
	for _, b := range fl.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fl.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fl.loops[s] = l
				}
				l.latch = append(l.latch, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var hs []*loop
	for _, l := range fl.loops {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return fl.idx[hs[i].header] < fl.idx[hs[j].header] })
	for i, l := range hs {
		l.ord = i
		for _, m := range hs {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	e.loops[f] = fl
	return fl
}

var _ = ast.NewIdent
