// Command mutate lists or applies small syntactic changes to a Go file:
//
//	mutate FILE            lists the mutants, one per line: N<TAB>line<TAB>what
//	mutate FILE N > OUT    writes the file with mutant N applied
//
// It is a development tool: none of the checks uses it.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	from, to int
	text     string
	what     string
	line     int
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var muts []mut
	add := func(n ast.Node, text, what string) {
		muts = append(muts, mut{off(n.Pos()), off(n.End()), text, what, fs.Position(n.Pos()).Line})
	}
	short := func(s string) string {
		if len(s) > 60 {
			s = s[:60]
		}
		return strconv.Quote(s)
	}
	debug := func(n ast.Node) bool {
		s := str(n)
		return len(s) > 0 && (contains(s, "pdebug"))
	}
	cmp := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			if debug(n.Cond) {
				return false
			}
			add(n.Cond, "!("+str(n.Cond)+")", "negate "+short(str(n.Cond)))
			if n.Else == nil {
				add(n.Cond, "false && ("+str(n.Cond)+")", "never "+short(str(n.Cond)))
			}
			add(n.Cond, "true || ("+str(n.Cond)+")", "always "+short(str(n.Cond)))
		case *ast.BinaryExpr:
			for _, op := range cmp[n.Op] {
				add(n, str(n.X)+" "+op+" "+str(n.Y), "op "+op+" in "+short(str(n)))
			}
			switch n.Op {
			case token.LAND:
				add(n, str(n.X), "drop right of "+short(str(n)))
				add(n, str(n.Y), "drop left of "+short(str(n)))
			case token.LOR:
				add(n, str(n.X), "drop right of "+short(str(n)))
				add(n, str(n.Y), "drop left of "+short(str(n)))
			case token.ADD:
				if _, ok := n.Y.(*ast.BasicLit); ok {
					add(n, str(n.X), "drop + in "+short(str(n)))
				}
			}
		case *ast.ExprStmt:
			if !debug(n) {
				add(n, "", "delete "+short(str(n)))
			}
		case *ast.DeferStmt:
			if !debug(n) {
				add(n, "", "delete "+short(str(n)))
			}
		case *ast.IncDecStmt:
			add(n, "", "delete "+short(str(n)))
		case *ast.AssignStmt:
			if n.Tok == token.ASSIGN && !debug(n) {
				add(n, "", "delete "+short(str(n)))
			}
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE && n.Label == nil {
				add(n, "break", "break for continue")
				add(n, "", "delete continue")
			} else if n.Tok == token.BREAK && n.Label == nil {
				add(n, "", "delete break")
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				last := n.Results[k-1]
				s := str(last)
				if s != "nil" && (contains(s, "err") || contains(s, "Err")) {
					add(last, "nil", "return nil for "+short(s))
				}
				if s == "true" {
					add(last, "false", "return false")
				}
				if s == "false" {
					add(last, "true", "return true")
				}
				if k == 1 && s == "nil" {
					break
				}
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				add(n, "("+n.Value+"+1)", "const "+n.Value+"+1")
				if n.Value != "0" {
					add(n, "("+n.Value+"-1)", "const "+n.Value+"-1")
				}
			case token.STRING:
				if len(n.Value) > 2 && n.Value[0] == '"' {
					add(n, n.Value[:len(n.Value)-1]+"~\"", "string "+n.Value)
				}
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				for i := range n.List {
					from, to := n.List[0].Pos(), n.List[len(n.List)-1].End()
					t := ""
					for j, e := range n.List {
						if j != i {
							if t != "" {
								t += ", "
							}
							t += str(e)
						}
					}
					muts = append(muts, mut{off(from), off(to), t, "drop case " + str(n.List[i]), fs.Position(from).Line})
				}
			}
			if len(n.Body) > 0 && n.List != nil {
				muts = append(muts, mut{off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), "", "empty case " + short(str(n.List[0])), fs.Position(n.Pos()).Line})
			}
		case *ast.RangeStmt:
			muts = append(muts, mut{off(n.Body.Lbrace) + 1, off(n.Body.Lbrace) + 1, " if true { break };", "no iterations of " + short(str(n.X)), fs.Position(n.Pos()).Line})
			muts = append(muts, mut{off(n.Body.Rbrace), off(n.Body.Rbrace), "break\n", "one iteration of " + short(str(n.X)), fs.Position(n.Pos()).Line})
		case *ast.Ident:
			if n.Name == "true" {
				add(n, "false", "false for true")
			} else if n.Name == "false" {
				add(n, "true", "true for false")
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range muts {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, m.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := muts[i]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.to:])
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}
