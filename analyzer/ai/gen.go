package ai

import (
	"crypto/sha1"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genPkg is a program text emitted by the repository's generator, type-checked
// and translated to the same intermediate representation.
type genPkg struct {
	key  string
	err  string
	pkg  *ssa.Package
	ints map[int64]Val
	flts map[string]Val
	strs map[string]Val
}

const (
	intHole = 734000000
	badHole = "\n\x01`\"\n"
)

type holeSet struct {
	ints map[int64]Val
	flts map[string]Val
	strs map[string]Val
	n    int
	asF  map[string]bool // g(v) rendered as a float literal
	bad  []string
}

// render replaces the unknown parts of emitted text by placeholder literals.
func (h *holeSet) render(text Val) string {
	var sb strings.Builder
	for _, p := range catParts(text) {
		if c, ok := constStr(p); ok {
			sb.WriteString(c)
			continue
		}
		t, ok := p.(*Term)
		if !ok {
			sb.WriteString(badHole)
			h.bad = append(h.bad, show(p))
			continue
		}
		h.n++
		mangle := false
		for t.Op == "fmtmangle" {
			u, ok := t.Args[0].(*Term)
			if !ok {
				break
			}
			switch u.Op {
			case "quote":
				mangle = true
			}
			t = u
		}
		wrap := func(v Val) Val {
			if mangle {
				return mkTerm("mangled", tString, v)
			}
			return v
		}
		switch {
		case t.Op == "dec":
			n := int64(intHole + h.n)
			h.ints[n] = t.Args[0]
			fmt.Fprintf(&sb, "%d", n)
		case t.Op == "g":
			if h.asF != nil && !h.asF[rawKey(t.Args[0])] {
				n := int64(intHole + h.n)
				h.ints[n] = t.Args[0]
				fmt.Fprintf(&sb, "%d", n)
				break
			}
			f := fmt.Sprintf("%d.5", intHole+h.n)
			h.flts[f] = t.Args[0]
			sb.WriteString(f)
		case strings.HasPrefix(t.Op, "fmt%") && len(t.Args) == 1 && (strings.HasSuffix(t.Op, "f") || strings.HasSuffix(t.Op, "e") || strings.HasSuffix(t.Op, "E")):
			a := t.Args[0]
			if i, ok := a.(Iface); ok {
				a = i.V
			}
			f := fmt.Sprintf("%d.5", intHole+h.n)
			h.flts[f] = mkTerm("rounded", tFloat, a)
			sb.WriteString(f)
		case t.Op == "quote":
			s := fmt.Sprintf("hole\u00abh%d\u00bb", h.n)
			h.strs[s] = wrap(t.Args[0])
			sb.WriteString(strconv.Quote(s))
		default:
			h.bad = append(h.bad, show(t))
			sb.WriteString(badHole)
		}
	}
	return sb.String()
}

func newHoles() *holeSet {
	return &holeSet{ints: map[int64]Val{}, flts: map[string]Val{}, strs: map[string]Val{}}
}

// renderHoles renders text for a syntax check.
func renderHoles(text Val) (string, bool) {
	h := newHoles()
	return h.render(text), true
}

// compileGenerated type-checks emitted text and translates it.
func (e *Engine) compileGenerated(s *State, text Val) *genPkg {
	h := newHoles()
	h.asF = map[string]bool{}
	for _, p := range catParts(text) {
		for {
			t, ok := p.(*Term)
			if !ok {
				break
			}
			if t.Op == "fmtmangle" {
				p = t.Args[0]
				continue
			}
			if t.Op == "g" {
				h.asF[rawKey(t.Args[0])] = !s.truth(mkIsInt(t.Args[0]))
			}
			break
		}
	}
	src := h.render(text)
	key := fmt.Sprintf("%x", sha1.Sum([]byte(src+"|"+rawKey(text))))[:16]
	if g, ok := e.genCache[key]; ok {
		return g
	}
	g := &genPkg{key: key, ints: h.ints, flts: h.flts, strs: h.strs}
	e.genCache[key] = g
	if len(h.bad) > 0 {
		g.err = "text of " + h.bad[0] + " is emitted without being rendered as a literal"
	}
	e.Prog.mu.Lock()
	defer e.Prog.mu.Unlock()
	full := "package gen\nimport jsval \"" + e.Prog.Mod + "\"\n" + src
	f, err := parser.ParseFile(e.Prog.Fset, "generated-"+key+".go", full, 0)
	if err != nil {
		if g.err == "" {
			g.err = "emitted text does not parse: " + err.Error()
		}
		return g
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: progImporter{e.Prog}}
	pkg, err := conf.Check("verifgen/"+key, e.Prog.Fset, []*ast.File{f}, info)
	if err != nil {
		if g.err == "" {
			g.err = "emitted text does not type-check: " + err.Error()
		}
		return g
	}
	sp := e.Prog.SSA.CreatePackage(pkg, []*ast.File{f}, info, true)
	sp.Build()
	g.pkg = sp
	return g
}

type progImporter struct{ p *Program }

func (i progImporter) Import(path string) (*types.Package, error) {
	if t := i.p.byPath[path]; t != nil {
		return t, nil
	}
	return nil, fmt.Errorf("package %s not loaded", path)
}

// holeConst maps a placeholder literal of emitted code back to the value it
// was rendered from.
func (s *State) holeConst(fn *ssa.Function, c *ssa.Const) Val {
	pk := fnPkg(fn)
	if pk == nil || !strings.HasPrefix(pk.Path(), "verifgen/") {
		return nil
	}
	g := s.eng.genCache[pk.Path()[len("verifgen/"):]]
	if g == nil {
		return nil
	}
	switch c.Value.Kind() {
	case constant.String:
		if v, ok := g.strs[constant.StringVal(c.Value)]; ok {
			return v
		}
	case constant.Int, constant.Float:
		if isInteger(c.Type()) || isFloat(c.Type()) {
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && c.Value.Kind() == constant.Int || ok && isFloat(c.Type()) {
				if v, ok := g.ints[n]; ok {
					from := typeOf(v)
					if from == nil {
						from = tInt
					}
					return s.convert(v, from, c.Type())
				}
			}
			f, _ := constant.Float64Val(c.Value)
			if v, ok := g.flts[strconv.FormatFloat(f, 'f', 1, 64)]; ok {
				return s.convert(v, tFloat, c.Type())
			}
		}
	}
	return nil
}

var _ = token.NoPos
