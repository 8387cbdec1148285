package ai

import (
	"crypto/sha1"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vpkg = "github.com/lestrrat-go/jsval/verifharness/v."

func (c *callCtx) str(i int) string {
	v, ok := constStr(c.s.norm(c.args[i]))
	if !ok {
		c.s.fail("%s: constant string expected", c.name)
	}
	return v
}

func input(c *callCtx) Val {
	return &Term{Op: "in:" + c.str(0), T: c.retType(0)}
}

// reachable marks all heap objects reachable from v.
func (s *State) reachable(vs []Val) map[int]bool {
	l := &leafSet{objs: map[int]bool{}, leafs: map[string]bool{}, st: s}
	for _, v := range vs {
		l.val(v)
	}
	l.drain()
	return l.objs
}

func intrinsics() map[string]model {
	m := map[string]model{
		"In": input, "Bool": input, "Int": input, "Int64": input, "Uint64": input, "Float": input, "Str": input,
		"Many":  func(c *callCtx) Val { return &Term{Op: "in:" + c.str(0), T: c.retType(0), Sum: true} },
		"StrOf": func(c *callCtx) Val { return &Term{Op: "in:" + c.str(0) + "|chars=" + c.str(1), T: c.retType(0)} },
		"Chars": func(c *callCtx) Val {
			n, _ := constInt(c.s.norm(c.args[1]))
			cs := make([]Val, n)
			for i := range cs {
				t := &Term{Op: "in:" + c.str(0) + strconv.Itoa(i), T: tByte}
				if !c.s.cmpNum(token.LEQ, t, mkInt(127)) {
					c.s.prune()
				}
				cs[i] = t
			}
			return fromChars(cs)
		},
		"Deep": func(c *callCtx) Val {
			c.e.deep, _ = constInt(c.s.norm(c.args[0]))
			return nil
		},
		"Regexp": func(c *callCtx) Val {
			src := &Term{Op: "in:" + c.str(0), T: tString}
			valid := mkTerm("validre", tBool, src)
			c.s.ownFacts()
			c.s.facts.b[rawKey(valid)] = bfact{valid, true}
			return &Term{Op: "re", Args: []Val{src}, T: c.retType(0), NonNil: true}
		},
		"ManyRegexps": func(c *callCtx) Val {
			return &Term{Op: "re", Args: []Val{&Term{Op: "in:" + c.str(0), T: tString, Sum: true}}, T: c.retType(0), NonNil: true, Sum: true}
		},
		"ValidPattern": func(c *callCtx) Val {
			return mkBool(c.s.truth(mkTerm("validre", tBool, c.s.norm(c.args[0]))))
		},
		"Choose": func(c *callCtx) Val {
			n, ok := constInt(c.s.norm(c.args[0]))
			if !ok {
				c.s.fail("Choose")
			}
			return mkInt(c.s.choose(n))
		},
		"Holds": func(c *callCtx) Val {
			as, _ := c.variadic(c.args[1])
			t := mkTerm("P:"+c.str(0), tBool, c.terms(as)...)
			return mkBool(c.s.truth(t))
		},
		"IsInt": func(c *callCtx) Val { return mkBool(c.s.truth(mkIsInt(c.s.norm(c.args[0])))) },
		"Divisible": func(c *callCtx) Val {
			z := Const{zero(tFloat).(Const).V, tFloat}
			t := mkTerm("mod", tFloat, c.s.norm(c.args[0]), c.s.norm(c.args[1]))
			return mkBool(c.s.truth(c.s.floatAtom(t, z)))
		},
		"Assert": func(c *callCtx) Val {
			cl := c.str(1)
			c.e.Obls[cl]++
			if !c.s.truth(c.args[0]) {
				c.e.report(c.s, "assert", cl, "")
				c.s.prune()
			}
			return nil
		},
		"Assume": func(c *callCtx) Val {
			if !c.s.truth(c.args[0]) {
				c.s.prune()
			}
			return nil
		},
		"Reach": func(c *callCtx) Val { c.e.Reached[c.str(0)] = true; return nil },
		"Clear": func(c *callCtx) Val { c.s.lastRet = ""; return nil },
		"Freeze": func(c *callCtx) Val {
			label := c.str(0)
			as, _ := c.variadic(c.args[1])
			c.s.ownHeap()
			for id := range c.s.reachable(as) {
				if o := c.s.heap[id]; o != nil {
					n := *o
					n.Frozen = label
					c.s.heap[id] = &n
				}
			}
			return nil
		},
		"Thaw": func(c *callCtx) Val {
			c.s.ownHeap()
			for id, o := range c.s.heap {
				if o.Frozen != "" {
					n := *o
					n.Frozen = ""
					c.s.heap[id] = &n
				}
			}
			return nil
		},
		"List": func(c *callCtx) Val {
			line, shape := c.str(0), c.str(1)
			es, _ := c.variadic(c.args[2])
			if len(es) != len(shape) {
				c.s.fail("List: %d elements for shape %q", len(es), shape)
			}
			sums := make([]bool, len(shape))
			for i := range shape {
				sums[i] = shape[i] == '+'
			}
			et := under(c.retType(0)).(*types.Slice).Elem()
			if old, ok := c.s.lines[line]; ok && !strings.HasPrefix(old, shape) && !strings.HasPrefix(shape, old) {
				c.s.fail("List: line %s has shape %s", line, old)
			}
			if len(c.s.lines[line]) < len(shape) {
				c.s.setLine(line, shape)
			}
			id := c.s.alloc(types.NewArray(et, int64(len(es))), Arr{E: es, Sum: sums, Line: line, ET: et}, "list "+line)
			return Slice{Obj: id, Lo: 0, Hi: len(es), ET: et, Line: line}
		},
		"PutMany": func(c *callCtx) Val {
			mm := c.s.norm(c.args[0]).(Map)
			md := c.s.heap[mm.Obj].V.(MapData)
			es := append(append([]Entry(nil), md.E...), Entry{c.s.norm(c.args[1]), c.args[2], true, true})
			c.s.setObj(mm.Obj, MapData{es, md.KT, md.VT})
			return nil
		},
		"DeepEq": func(c *callCtx) Val { return mkBool(c.s.deepEq(c.args[0], c.args[1], 0)) },
		"Same": func(c *callCtx) Val {
			return mkBool(rawKey(c.s.norm(c.args[0])) == rawKey(c.s.norm(c.args[1])))
		},
		"Held": func(c *callCtx) Val { return mkInt(len(c.s.locks)) },
		"Share": func(c *callCtx) Val {
			// the same state gets the same number, whichever path led to it
			k := c.s.key()
			for _, id := range sortedInts(c.s.heap) {
				k += fmt.Sprintf(",%d:%s", id, c.s.heap[id].Name)
			}
			h := sha1.Sum([]byte(k))
			if c.e.shareIDs == nil {
				c.e.shareIDs = map[[20]byte]int{}
			}
			if _, ok := c.e.shareIDs[h]; !ok {
				c.e.shareIDs[h] = len(c.e.shareIDs) + 1
			}
			c.s.shareID = c.e.shareIDs[h]
			c.s.shared = c.s.next
			for _, k := range sortedKeys(c.s.mon) {
				if strings.HasPrefix(k, "acq:") {
					c.s.setMon(k, 0)
				}
			}
			return nil
		},
		"Role":    func(c *callCtx) Val { c.s.role = fmt.Sprintf("%d:%s", c.s.shareID, c.str(0)); return nil },
		"Unshare": func(c *callCtx) Val { c.s.shared, c.s.role = 0, ""; return nil },
		"Failed":  func(c *callCtx) Val { return mkBool(c.s.mon["err:"+c.str(0)] > 0) },
		"AnyFailure": func(c *callCtx) Val {
			for k := range c.s.mon {
				if strings.HasPrefix(k, "err:") {
					return mkBool(true)
				}
			}
			return mkBool(false)
		},
		"ResetFailures": func(c *callCtx) Val {
			for _, k := range sortedKeys(c.s.mon) {
				if strings.HasPrefix(k, "err:") {
					c.s.setMon(k, 0)
				}
			}
			return nil
		},
		"Compiles": func(c *callCtx) Val {
			g := c.e.compileGenerated(c.s, c.s.norm(c.args[0]))
			if g.err != "" {
				c.s.note(g.err)
				c.s.gen = ""
				return mkBool(false)
			}
			c.s.gen = g.key
			return mkBool(true)
		},
		"RunGenerated": func(c *callCtx) Val {
			g := c.e.genCache[c.s.gen]
			if g == nil || g.pkg == nil {
				c.s.fail("RunGenerated without a compiled text")
			}
			for n, mem := range g.pkg.Members {
				if gl, ok := mem.(*ssa.Global); ok && n != "init$guard" {
					id := c.e.Prog.gid(gl)
					el := gl.Type().(*types.Pointer).Elem()
					c.s.ownHeap()
					c.s.heap[id] = &Obj{T: el, V: zero(el), Name: gl.RelString(nil)}
					c.e.addGlobal(id)
				} else if ok {
					id := c.e.Prog.gid(gl)
					c.s.ownHeap()
					c.s.heap[id] = &Obj{T: tBool, V: mkBool(false), Name: "guard"}
				}
			}
			c.e.push(c.s, g.pkg.Func("init"), nil, nil, c.mode, c.dst)
			c.pushed = true
			return nil
		},
		"GeneratedVar": func(c *callCtx) Val {
			g := c.e.genCache[c.s.gen]
			if g == nil || g.pkg == nil {
				c.s.fail("GeneratedVar without a compiled text")
			}
			gl := g.pkg.Var(c.str(0))
			if gl == nil {
				return Nil{tAny}
			}
			el := gl.Type().(*types.Pointer).Elem()
			v := c.s.load(Ptr{Obj: c.e.Prog.gid(gl)})
			if isIface(el) {
				return v
			}
			return Iface{Dyn: el, V: v}
		},
		"Trace": func(c *callCtx) Val {
			as, _ := c.variadic(c.args[0])
			for _, a := range as {
				fmt.Fprintf(os.Stderr, "TRACE %s\n", c.s.debugVal(a, 6))
			}
			return nil
		},
	}
	out := map[string]model{}
	for k, f := range m {
		out[vpkg+k] = f
	}
	return out
}

// terms strips interfaces so that predicates relate the contained values.
func (c *callCtx) terms(as []Val) []Val {
	out := make([]Val, len(as))
	for i, a := range as {
		out[i] = c.s.ground(c.s.norm(a), 0)
	}
	return out
}

// ground replaces references by the values they denote.
func (s *State) ground(v Val, d int) Val {
	if d > 8 {
		return v
	}
	v = s.norm(v)
	switch x := v.(type) {
	case Iface:
		return Iface{x.Dyn, s.ground(x.V, d+1)}
	case Slice:
		if o := s.heap[x.Obj]; o != nil {
			if ex, ok := o.V.(Ext); ok {
				return ex.Data
			}
			es, _, _ := s.points(x)
			t := Tuple{}
			for _, y := range es {
				t.V = append(t.V, s.ground(y, d+1))
			}
			return Ext{"list", t}
		}
	case Ptr:
		if o := s.heap[x.Obj]; o != nil {
			return Ext{"ptr", s.ground(s.getPath(o.V, splitPath(x.Path)), d+1)}
		}
	case Map:
		md := s.heap[x.Obj].V.(MapData)
		var ks []Val
		es := append([]Entry(nil), md.E...)
		sort.Slice(es, func(i, j int) bool { return rawKey(es[i].K) < rawKey(es[j].K) })
		for _, e := range es {
			ks = append(ks, Tuple{[]Val{s.norm(e.K), s.ground(e.V, d+1)}})
		}
		return Ext{"map", Tuple{ks}}
	case Struct:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = s.ground(x.F[i], d+1)
		}
		return Struct{f, x.T}
	}
	return v
}

func (s *State) debugVal(v Val, d int) string {
	return rawKey(s.ground(v, 8-d))
}

func (e *Engine) addGlobal(id int) {
	for _, x := range e.globalIDs {
		if x == id {
			return
		}
	}
	e.globalIDs = append(e.globalIDs, id)
}

// orderedAfter: b happened in a critical section, and a follows one of the
// same lock (or both follow an operation of the same synchronising object).
func (a *accessRec) orderedAfter(b *accessRec) bool {
	for l := range b.locks {
		if a.acq[l[:len(l)-2]] {
			return true
		}
	}
	for l := range b.acq {
		if l[0] == 'S' && a.acq[l] {
			return true
		}
	}
	return false
}

// LockCycles reports locks that different operations take in opposite orders.
func (e *Engine) LockCycles() {
	for _, k := range sortedKeys(e.lockEdges) {
		a := e.lockEdges[k]
		// is a.from reachable from a.to?
		seen := map[string]bool{a.to: true}
		q := []string{a.to}
		var path []string
		for len(q) > 0 && !seen[a.from] {
			n := q[0]
			q = q[1:]
			for _, k2 := range sortedKeys(e.lockEdges) {
				b := e.lockEdges[k2]
				if b.share == a.share && b.from == n && !seen[b.to] {
					seen[b.to] = true
					path = append(path, b.path...)
					q = append(q, b.to)
				}
			}
		}
		if !seen[a.from] {
			continue
		}
		cl := "deadlock: locks are taken in opposite orders by operations that can run at the same time"
		key := "deadlock|" + a.where
		if _, ok := e.Violations[key]; !ok {
			e.Violations[key] = &Violation{Entry: e.Entry, Clause: cl, Kind: "deadlock", Pos: strings.Fields(a.where)[0], Where: a.where,
				Path: append(append([]string(nil), a.path...), path...), Key: key}
		}
	}
}

// Races reports conflicting accesses not ordered by a common lock.
func (e *Engine) Races() {
	keys := sortedKeys(e.accesses)
	overlap := func(a, b string) bool {
		return a == b || strings.HasPrefix(a, b+"/") || strings.HasPrefix(b, a+"/") || a == "" || b == ""
	}
	share := func(r string) string { return r[:strings.IndexByte(r+":", ':')] }
	for i, k1 := range keys {
		a := e.accesses[k1]
		for _, k2 := range keys[i:] {
			b := e.accesses[k2]
			if a.obj != b.obj || !(a.w || b.w) || !overlap(a.path, b.path) || share(a.role) != share(b.role) {
				continue
			}
			common := false
			for l := range a.locks {
				base := l[:len(l)-2]
				wa := strings.HasSuffix(l, ":w")
				for m := range b.locks {
					if m[:len(m)-2] == base && (wa || strings.HasSuffix(m, ":w")) {
						common = true
					}
				}
			}
			// An access that follows a critical section is ordered with
			// what another thread did in its critical section before it;
			// that it can also happen the other way round shows only once
			// the first round of operations is over.
			if !strings.Contains(a.role, ":again") || !strings.Contains(b.role, ":again") {
				common = a.orderedAfter(b) || b.orderedAfter(a)
			}
			if common {
				continue
			}
			w, o := a, b
			if !w.w {
				w, o = b, a
			}
			what := "read"
			if o.w {
				what = "write"
			}
			cl := fmt.Sprintf("data race on %s%s: write in %s is not ordered with the %s in %s", w.name, w.path, w.fn, what, o.fn)
			key := "race|" + cl
			if _, ok := e.Violations[key]; !ok {
				e.Violations[key] = &Violation{Entry: e.Entry, Clause: cl, Kind: "race", Pos: w.pos, Where: w.pos + " (" + w.fn + ")",
					Path: []string{w.pos + " " + w.fn + ": write", o.pos + " " + o.fn + ": " + what}, Key: key}
			}
		}
	}
}

// Labels lists the Reach labels the entry's specification contains.
func (p *Program) Labels(entry *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if fnName(g) == vpkg+"Reach" {
							if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
								labels[strings.Trim(k.Value.ExactString(), "\"")] = true
							}
							continue
						}
						if pk := fnPkg(g); pk != nil && (strings.Contains(pk.Path(), HarnessDir) || strings.Contains(p.posStr(g.Pos()), "zz_verif_")) {
							walk(g)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(entry)
	return sortedKeys(labels)
}

func sortedInts(m map[int]*Obj) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
