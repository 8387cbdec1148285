package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository, specification package and dependencies.
type Program struct {
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Repo  string
	Mod   string
	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo

	globals  []*ssa.Global
	globalID map[*ssa.Global]int
	inits    []*ssa.Function
	redirect map[string]*ssa.Function
	ifaceKey map[string]bool
	interpC  map[*ssa.Function]bool
	byPath   map[string]*types.Package

	reflectValueT, reflectKindT, structFieldT, structTagT types.Type
}

const HarnessDir = "verifharness"

// packages whose bodies are analysed rather than modelled
var interpPkgs = map[string]bool{
	"sort": true, "slices": true, "maps": true, "cmp": true, "strings": true, "iter": true,
	"unicode/utf8": true, "container/list": true, "bytes": true, "errors": true,
	"github.com/lestrrat-go/jsschema": true, "github.com/lestrrat-go/jsref": true, "github.com/lestrrat-go/jsref/provider": true,
	"github.com/lestrrat-go/jspointer": true, "github.com/lestrrat-go/structinfo": true, "internal/stringslite": true,
	"internal/bytealg": false, "golang.org/x/net/context": true, "math/bits": true,
	"html": false,
}

// third-party packages that work on concrete names and types; their loops are
// followed without widening
var concretePkgs = map[string]bool{
	"github.com/lestrrat-go/jsref": true, "github.com/lestrrat-go/jspointer": true, "github.com/lestrrat-go/structinfo": true,
}

// Load type-checks the repository at dir with the specification overlay.
func Load(dir, harness, prop string) (*Program, error) {
	overlay := map[string][]byte{}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		// inpkg/<path>/file.go is added to the package at <path>
		if strings.HasPrefix(rel, "inpkg/") {
			if prop != "" && filepath.Base(rel) != strings.ToLower(prop)+".go" {
				return nil
			}
			overlay[filepath.Join(dir, filepath.Dir(rel[len("inpkg/"):]), "zz_verif_"+filepath.Base(rel))] = b
		} else {
			overlay[filepath.Join(dir, HarnessDir, rel)] = b
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Fset: fset, Overlay: overlay,
		Env: append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...", "./"+HarnessDir+"/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	p := &Program{Fset: fset, Pkgs: pkgs, SSA: prog, Repo: dir, infos: map[*ssa.Function]*fnInfo{},
		globalID: map[*ssa.Global]int{}, redirect: map[string]*ssa.Function{}, ifaceKey: map[string]bool{},
		interpC: map[*ssa.Function]bool{}, byPath: map[string]*types.Package{}}
	for _, q := range pkgs {
		if q.Module != nil && q.Module.Main {
			p.Mod = q.Module.Path
		}
	}
	var order []*ssa.Package
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		sp := prog.Package(q.Types)
		if sp == nil {
			return
		}
		p.byPath[q.PkgPath] = q.Types
		if p.interpPath(q.PkgPath) {
			order = append(order, sp)
		}
	})
	for _, sp := range order {
		sp.Build()
	}
	if r := p.byPath["reflect"]; r != nil {
		p.reflectValueT = r.Scope().Lookup("Value").Type()
		p.reflectKindT = r.Scope().Lookup("Kind").Type()
		p.structFieldT = r.Scope().Lookup("StructField").Type()
		p.structTagT = r.Scope().Lookup("StructTag").Type()
	}
	// globals of analysed packages get real initialisers
	for _, sp := range order {
		if !p.initPath(sp.Pkg.Path()) {
			continue
		}
		names := make([]string, 0, len(sp.Members))
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok && n != "init$guard" {
				p.gid(g)
				p.globals = append(p.globals, g)
			}
		}
		if f := sp.Func("init"); f != nil {
			p.inits = append(p.inits, f)
		}
	}
	// redirections: functions named Model_x__y in the model package
	if mp := p.byPath[p.Mod+"/"+HarnessDir+"/models"]; mp != nil {
		sp := prog.Package(mp)
		for n, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			for _, t := range ioRedirects[n] {
				p.redirect[t] = f
			}
			if t, ok := redirects[n]; ok {
				p.redirect[t] = f
				for _, t := range redirectsToo[n] {
					p.redirect[t] = f
				}
			}
		}
	}
	return p, nil
}

func (p *Program) interpPath(path string) bool {
	return strings.HasPrefix(path, p.Mod+"/") || path == p.Mod || interpPkgs[path]
}

func (p *Program) initPath(path string) bool {
	return strings.HasPrefix(path, p.Mod+"/") || path == p.Mod || concretePkgs[path]
}

func (p *Program) gid(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if id, ok := p.globalID[g]; ok {
		return id
	}
	id := -(len(p.globalID) + 1)
	p.globalID[g] = id
	return id
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

// inRepo reports whether fn is code of the repository under analysis.
func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	path := pk.Path()
	if strings.HasPrefix(path, p.Mod+"/"+HarnessDir) || strings.HasPrefix(path, "verifgen/") {
		return false
	}
	if path != p.Mod && !strings.HasPrefix(path, p.Mod+"/") {
		return false
	}
	if fn.Pos().IsValid() && strings.Contains(p.Fset.Position(fn.Pos()).Filename, "zz_verif_") {
		return false
	}
	return true
}

func (p *Program) interpretable(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return true // wrappers, bound methods
	}
	path := pk.Path()
	if strings.HasPrefix(path, "verifgen/") {
		return true
	}
	if fn.Synthetic != "" && fn.Object() == nil {
		return true
	}
	if strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "promoted") {
		return true
	}
	return p.interpPath(path)
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Func finds a package-level function.
func (p *Program) Func(path, name string) *ssa.Function {
	t := p.byPath[path]
	if t == nil {
		return nil
	}
	return p.SSA.Package(t).Func(name)
}

// Entries lists the specification entries of the loaded program.
func (p *Program) Entries() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for path, t := range p.byPath {
		if path != p.Mod && !strings.HasPrefix(path, p.Mod+"/") {
			continue
		}
		sp := p.SSA.Package(t)
		for n, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "Spec_") {
				continue
			}
			out[n] = f
		}
	}
	return out
}

// ExternalCalls lists calls leaving the analysed packages.
func (p *Program) ExternalCalls() []string {
	set := map[string]bool{}
	for fn := range ssautil.AllFunctions(p.SSA) {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil && !p.inRepo(f) {
					set[fnName(f)] = true
				} else if c.Common().IsInvoke() {
					set["invoke "+typeKey(c.Common().Value.Type())+"."+c.Common().Method.Name()] = true
				}
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// InRepo reports whether fn belongs to the repository under analysis.
func (p *Program) InRepo(fn *ssa.Function) bool { return p.inRepo(fn) }

// PosStr renders a position relative to the repository.
func (p *Program) PosStr(pos token.Pos) string { return p.posStr(pos) }
