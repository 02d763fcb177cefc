package main

import (
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Verifier holds the loaded program and the contracts.
type Verifier struct {
	extPkgs      map[string]*types.Package
	repo         string
	fset         *token.FileSet
	pkgs         []*packages.Package
	allPkgs      map[string]*types.Package
	prog         *ssa.Program
	contracts    map[string]*Contract
	conOrder     []string
	macros       map[string]*macro
	ghosts       map[string]*ghostDecl
	specUFs      map[string]*ufDecl
	axioms       []*Clause
	constGlobals []*constGlobal
	boxTypes     map[string]types.Type
	errIDs       map[string]int
	reass        map[*ssa.Global]bool
	initStore    map[*ssa.Global][]ssa.Value
	funcsBy      map[string]*ssa.Function
	opts         *options
}

type options struct {
	timeout  int
	jobs     int
	cross    bool
	verbose  bool
	dumpDir  string
	verifDir string
}

// a package variable that only the package's initialisation assigns, and what holds of it afterwards
type constGlobal struct {
	Pkg, Name string
	Fact      *Clause
}

func newVerifier(repo string, overlay map[string][]byte) (*Verifier, error) {
	v := &Verifier{repo: repo, contracts: map[string]*Contract{}, macros: map[string]*macro{}, ghosts: map[string]*ghostDecl{}, specUFs: map[string]*ufDecl{}, boxTypes: map[string]types.Type{}, errIDs: map[string]int{}, allPkgs: map[string]*types.Package{}}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:     repo,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
		Overlay: overlay,
	}
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	v.pkgs = pkgs
	prog, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	v.prog = prog
	v.fset = prog.Fset
	var addP func(p *types.Package)
	addP = func(p *types.Package) {
		if _, ok := v.allPkgs[p.Path()]; ok {
			return
		}
		v.allPkgs[p.Path()] = p
		for _, i := range p.Imports() {
			addP(i)
		}
	}
	for _, p := range pkgs {
		addP(p.Types)
		sc := p.Types.Scope()
		names := sc.Names()
		sort.Slice(names, func(i, j int) bool {
			ei, ej := token.IsExported(names[i]), token.IsExported(names[j])
			if ei != ej {
				return ei
			}
			return names[i] < names[j]
		})
		for _, n := range names {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					if _, have := structCanon[st]; !have {
						structCanon[st] = tname(tn.Type())
					}
				}
			}
		}
	}
	v.funcsBy = map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(prog) {
		if inModule(fn) && (fn.Synthetic == "" || fn.Synthetic == "package initializer") {
			v.funcsBy[fnKey(fn)] = fn
		}
	}
	v.scanGlobals()
	return v, nil
}

func (v *Verifier) scanGlobals() {
	v.reass = map[*ssa.Global]bool{}
	v.initStore = map[*ssa.Global][]ssa.Value{}
	for fn := range ssautil.AllFunctions(v.prog) {
		if !inModule(fn) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if isInit {
							v.initStore[g] = append(v.initStore[g], st.Val)
						} else {
							v.reass[g] = true
						}
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := in.(*ssa.DebugRef); ok {
							continue
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							continue
						}
						v.reass[g] = true // address escapes
					}
				}
			}
		}
	}
}

func (v *Verifier) globalReassigned(g *ssa.Global) bool { return v.reass[g] }

func (v *Verifier) extErr(name string) int {
	if n, ok := v.errIDs[name]; ok {
		return n
	}
	v.errIDs[name] = len(v.errIDs) + 1
	return v.errIDs[name]
}

// errGlobal numbers error variables known to be non-nil.
func (v *Verifier) errGlobal(g *ssa.Global) int {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if t.String() != "error" {
		return 0
	}
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return v.extErr(name)
	}
	st := v.initStore[g]
	if len(st) != 1 {
		return 0
	}
	if c, ok := st[0].(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && (fnKey(f) == "errors.New" || fnKey(f) == "fmt.Errorf") {
			return v.extErr(name)
		}
	}
	return 0
}

func (v *Verifier) constGlobal(e *Exec, g *ssa.Global) (Value, bool) {
	st := v.initStore[g]
	if len(st) != 1 || g.Name() == "init$guard" || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return nil, false
	}
	if c, ok := st[0].(*ssa.Const); ok {
		return e.constVal(c), true
	}
	return nil, false
}

func (v *Verifier) method(t types.Type, m *types.Func) *ssa.Function {
	ms := v.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		sel = ms.Lookup(nil, m.Name())
	}
	if sel == nil {
		return nil
	}
	fn := v.prog.MethodValue(sel)
	if fn == nil || fn.Blocks == nil && !strings.HasPrefix(pkgOf(fn), modPath) {
		return fn
	}
	return fn
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv check|verify|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	prop := fs.String("prop", "", "property id")
	fun := fs.String("func", "", "function (substring)")
	verbose := fs.Bool("v", false, "verbose")
	dump := fs.String("dump", "", "dump scripts of undischarged obligations here")
	timeout := fs.Int("timeout", 0, "solver timeout (s)")
	jobs := fs.Int("j", 8, "parallel solvers")
	tier := fs.String("tier", "", "quick or thorough")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	o := &options{timeout: *timeout, jobs: *jobs, verbose: *verbose, dumpDir: *dump, verifDir: *verif}
	if o.timeout == 0 {
		o.timeout = 20
		if *tier == "thorough" {
			o.timeout = 60
		}
	}
	o.cross = *tier == "thorough"
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(*repo, *verif, *prop, *tier, o))
	case "verify":
		os.Exit(runVerify(*repo, *verif, *fun, *prop, o))
	case "dump":
		v, err := newVerifier(*repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for k, fn := range v.funcsBy {
			if strings.Contains(k, *fun) {
				fn.WriteTo(os.Stdout)
			}
		}
	}
}
