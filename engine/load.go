package main

// Loading of /repo's current sources together with the harness packages
// (overlaid under /repo/internal/zzverif) and construction of their SSA form.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const zzPrefix = "recengine/internal/zzverif/"

type Program struct {
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	roots    []*ssa.Package
	infos    sync.Map
	subst    map[string]*ssa.Function
	noStub   map[string]bool
	initMu   sync.Mutex
	inits    map[*ssa.Package]*initPlanT
	implC    sync.Map
	methC    sync.Map
	buildC   sync.Map
	buildMu  sync.Mutex
	loadSecs float64

	runtimeErrT    types.Type
	plainErrT      types.Type
	errorStringPtr types.Type
	wrapErrorPtr   types.Type
	wrapErrorsPtr  types.Type
}

type initPlanT struct {
	full   bool
	stores map[*ssa.Global][]int
	funcs  map[*ssa.Global][]*ssa.Function // init#k functions storing to the global
	block  int
}

// overlayFiles maps /repo/internal/zzverif/<dir>/<file> to the harness sources.
func overlayFiles(repo, harness string, dirs []string) (map[string]string, error) {
	out := map[string]string{}
	seen := map[string]bool{}
	for len(dirs) > 0 {
		d := dirs[0]
		dirs = dirs[1:]
		if seen[d] {
			continue
		}
		seen[d] = true
		if d == "rootmain" {
			if err := rootMain(repo, out); err != nil {
				return nil, err
			}
			continue
		}
		fs, err := filepath.Glob(filepath.Join(harness, d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			out[filepath.Join(repo, "internal/zzverif", d, filepath.Base(f))] = f
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			for _, m := range zzImportRE.FindAllStringSubmatch(string(b), -1) {
				dirs = append(dirs, m[1])
			}
		}
	}
	return out, nil
}

var zzImportRE = regexp.MustCompile(`"recengine/internal/zzverif/(\w+)"`)

var rootMu sync.Mutex
var rootTmp string // copies of the main package under another name

// rootMain makes the program's main package importable: its files come as a
// package called rootmain, with main exported as Main.
func rootMain(repo string, out map[string]string) error {
	rootMu.Lock()
	defer rootMu.Unlock()
	if rootTmp == "" {
		d, err := os.MkdirTemp("", "gosmt-main-")
		if err != nil {
			return err
		}
		rootTmp = d
	}
	fs, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	n := 0
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		set := token.NewFileSet()
		af, err := parser.ParseFile(set, f, b, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		if af.Name.Name != "main" {
			continue
		}
		at := set.Position(af.Name.Pos()).Offset
		t := filepath.Join(rootTmp, filepath.Base(f))
		if err := os.WriteFile(t, []byte(string(b[:at])+"rootmain"+string(b[at+len("main"):])), 0o644); err != nil {
			return err
		}
		out[filepath.Join(repo, "internal/zzverif/rootmain", filepath.Base(f))] = t
		n++
	}
	if n == 0 {
		return fmt.Errorf("no main package in %s", repo)
	}
	t := filepath.Join(rootTmp, "zz_export.go")
	out[filepath.Join(repo, "internal/zzverif/rootmain", "zz_export.go")] = t
	return os.WriteFile(t, []byte("package rootmain\n\nfunc Main() { main() }\n"), 0o644)
}

func loadProgram(repo, harness string, dirs []string) (*Program, error) {
	ov, err := overlayFiles(repo, harness, append([]string{"v", "world"}, dirs...))
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, zzPrefix+d)
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	sp, roots := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{
		fset: ps[0].Fset, prog: sp, roots: roots,
		pkgs: map[string]*ssa.Package{}, subst: map[string]*ssa.Function{},
		inits: map[*ssa.Package]*initPlanT{},
	}
	for _, x := range sp.AllPackages() {
		p.pkgs[x.Pkg.Path()] = x
	}
	p.runtimeErrT = p.namedType("runtime", "errorString", false)
	p.plainErrT = p.namedType("runtime", "plainError", false)
	p.errorStringPtr = p.namedType("errors", "errorString", true)
	p.wrapErrorPtr = p.namedType("fmt", "wrapError", true)
	p.wrapErrorsPtr = p.namedType("fmt", "wrapErrors", true)
	if p.plainErrT == nil {
		p.plainErrT = types.Typ[types.String]
	}
	// substitutions declared in harness sources
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, zzPrefix) {
			return
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(c.Text, "//verif:subst "); ok {
						fn := p.pkgs[pk.PkgPath].Func(fd.Name.Name)
						p.subst[strings.TrimSpace(t)] = fn
					}
				}
			}
		}
	})
	return p, nil
}

func (p *Program) namedType(pkg, name string, ptr bool) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if ptr {
		return types.NewPointer(o.Type())
	}
	return o.Type()
}

func (p *Program) build(pkg *ssa.Package) {
	if _, ok := p.buildC.Load(pkg); ok {
		return
	}
	p.buildMu.Lock()
	pkg.Build()
	p.buildC.Store(pkg, true)
	p.buildMu.Unlock()
}

type implKey struct{ t, i types.Type }

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := p.implC.Load(k); ok {
		return v.(bool)
	}
	p.buildMu.Lock()
	r := types.Implements(t, it)
	p.buildMu.Unlock()
	p.implC.Store(k, r)
	return r
}

type methKey struct {
	t  types.Type
	id string
}

func (p *Program) method(t types.Type, meth *types.Func) *ssa.Function {
	return p.methodNamed(t, meth.Pkg(), meth.Name())
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	return p.methodNamed(t, nil, name)
}

func (p *Program) methodNamed(t types.Type, pkg *types.Package, name string) *ssa.Function {
	id := name
	if !token.IsExported(name) && pkg != nil {
		id = pkg.Path() + "." + name
	}
	k := methKey{t, id}
	if v, ok := p.methC.Load(k); ok {
		return v.(*ssa.Function)
	}
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	var fn *ssa.Function
	if _, isIface := t.Underlying().(*types.Interface); !isIface {
		if sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name); sel != nil {
			fn = p.prog.MethodValue(sel)
		}
	}
	p.methC.Store(k, fn)
	return fn
}

func (p *Program) funcByName(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(engineBug("package %s not loaded", pkg))
	}
	fn := sp.Func(name)
	if fn == nil {
		panic(engineBug("no function %s.%s", pkg, name))
	}
	return fn
}

func isOwnPkg(path string) bool {
	return path == "recengine" || strings.HasPrefix(path, "recengine/")
}

func (p *Program) initPlan(pkg *ssa.Package) *initPlanT {
	p.initMu.Lock()
	defer p.initMu.Unlock()
	if pl, ok := p.inits[pkg]; ok {
		return pl
	}
	pl := p.makeInitPlan(pkg)
	p.inits[pkg] = pl
	return pl
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Program) makeInitPlan(pkg *ssa.Package) *initPlanT {
	pl := &initPlanT{stores: map[*ssa.Global][]int{}, funcs: map[*ssa.Global][]*ssa.Function{}}
	if isOwnPkg(pkg.Pkg.Path()) {
		pl.full = true
		return pl
	}
	initFn := pkg.Func("init")
	if initFn == nil || len(initFn.Blocks) < 2 {
		pl.full = initFn != nil && len(initFn.Blocks) > 0
		return pl
	}
	// stores made by the explicit init functions
	for name, mem := range pkg.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "init#") {
			continue
		}
		seen := map[*ssa.Global]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch s := in.(type) {
				case *ssa.Store:
					addr = s.Addr
				case *ssa.MapUpdate:
					if u, ok := s.Map.(*ssa.UnOp); ok {
						addr = u.X
					}
				case *ssa.Call:
					if b, ok := s.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" {
						if u, ok := s.Call.Args[0].(*ssa.UnOp); ok {
							addr = u.X
						}
					}
				}
				if addr == nil {
					continue
				}
				if g := rootGlobal(addr); g != nil && !seen[g] {
					seen[g] = true
					pl.funcs[g] = append(pl.funcs[g], f)
				}
			}
		}
	}
	// where are the variable initialisers
	if len(initFn.Blocks) > 3 {
		// control flow inside initialisers: find whether it is confined to few globals; use the block holding
		// most stores and fall back to full initialisation for globals stored elsewhere
	}
	best, bestN := 1, -1
	count := map[*ssa.Global]map[int]bool{}
	for _, b := range initFn.Blocks {
		n := 0
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g := rootGlobal(s.Addr); g != nil {
					n++
					if count[g] == nil {
						count[g] = map[int]bool{}
					}
					count[g][b.Index] = true
				}
			}
		}
		if n > bestN {
			best, bestN = b.Index, n
		}
	}
	pl.block = best
	blk := initFn.Blocks[best]
	// index of each instruction in the compiled body
	idx := map[ssa.Instruction]int{}
	n := 0
	for _, in := range blk.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.DebugRef:
			continue
		}
		idx[in] = n
		n++
	}
	for g, bs := range count {
		if g.Name() == "init$guard" {
			continue
		}
		if len(bs) != 1 || !bs[best] {
			pl.stores[g] = []int{-1} // needs the whole initialiser
			continue
		}
		want := map[ssa.Instruction]bool{}
		var add func(in ssa.Instruction)
		bad := false
		var addVal func(v ssa.Value)
		addVal = func(v ssa.Value) {
			in, ok := v.(ssa.Instruction)
			if !ok {
				return
			}
			add(in)
		}
		add = func(in ssa.Instruction) {
			if want[in] {
				return
			}
			if _, ok := idx[in]; !ok {
				bad = true
				return
			}
			want[in] = true
			for _, op := range in.Operands(nil) {
				if *op != nil {
					addVal(*op)
				}
			}
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				for _, r := range *x.(ssa.Value).Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == x.(ssa.Value) {
							add(r)
						}
					case *ssa.MapUpdate:
						if r.Map == x.(ssa.Value) {
							add(r)
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						add(r.(ssa.Instruction))
					case *ssa.Slice:
						add(r)
					}
				}
			}
		}
		for _, in := range blk.Instrs {
			if s, ok := in.(*ssa.Store); ok && rootGlobal(s.Addr) == g {
				add(s)
			}
		}
		if bad {
			pl.stores[g] = []int{-1}
			continue
		}
		var is []int
		for in := range want {
			is = append(is, idx[in])
		}
		sort.Ints(is)
		pl.stores[g] = is
	}
	return pl
}

var _ = runtime.NumCPU
