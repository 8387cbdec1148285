package ai

import (
	"crypto/sha1"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	id       int
	fn       *ssa.Function
	reg      map[ssa.Value]int
	vals     []ssa.Value
	liveIn   []bitset // per block, after phis
	heads    map[*ssa.BasicBlock]bool
	phiInd   map[*ssa.Phi]bool // induction-like loop phis
	phiStep  map[*ssa.Phi]bool // phis stepped once in every iteration
	concrete bool              // works on concrete names: no widening of constants
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i>>6]&(1<<(i&63)) != 0 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (i & 63) }
func (b bitset) clr(i int)      { b[i>>6] &^= 1 << (i & 63) }

// Violation is one reported failure.
type Violation struct {
	Entry  string
	Clause string
	Kind   string
	Pos    string
	Where  string // construct in the repository
	Path   []string
	Key    string
}

// Engine analyses one entry.
type Engine struct {
	Prog      *Program
	Entry     string
	EntryFn   *ssa.Function
	alts      [][]int
	work      []*State
	visited   map[[20]byte]int
	graph     []node // of memoised states, for divergence
	late      bool   // the deadline has passed
	steps     int    // emissions and ends so far
	globalIDs []int
	Deadline  time.Time

	Violations map[string]*Violation
	Reached    map[string]bool
	Fns        map[*ssa.Function]map[int]bool
	Externals  map[string]int
	deep       int // bound of loop counters, if not widenAt
	Steps      int
	States     int
	Forks      int
	Ends       int
	Obls       map[string]int
	MaxStates  int
	accesses   map[string]*accessRec
	Debug      bool
	Accesses   int
	shareIDs   map[[20]byte]int
	lockEdges  map[string]lockEdge
	genCache   map[string]*genPkg
}

type accessRec struct {
	obj   string
	path  string
	w     bool
	locks map[string]bool
	acq   map[string]bool // synchronisation that precedes the access
	role  string
	pos   string
	fn    string
	name  string
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	e.Prog.mu.Lock()
	defer e.Prog.mu.Unlock()
	if fi, ok := e.Prog.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{id: len(e.Prog.infos), fn: fn, reg: map[ssa.Value]int{}, heads: map[*ssa.BasicBlock]bool{}, phiInd: map[*ssa.Phi]bool{}, phiStep: map[*ssa.Phi]bool{}}
	if pk := fnPkg(fn); pk != nil {
		fi.concrete = concretePkgs[pk.Path()] || interpPkgs[pk.Path()] && pk.Path() == "github.com/lestrrat-go/jsschema"
	}
	add := func(v ssa.Value) {
		fi.reg[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
		for _, sc := range b.Succs {
			if sc.Dominates(b) {
				fi.heads[sc] = true
			}
		}
	}
	// liveness
	n := (len(fi.vals) + 63) / 64
	fi.liveIn = make([]bitset, len(fn.Blocks))
	for i := range fi.liveIn {
		fi.liveIn[i] = make(bitset, n+1)
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := fi.liveOut(b)
			live = fi.back(b, live, 0)
			for w := range live {
				if live[w] != fi.liveIn[i][w] {
					changed = true
				}
			}
			fi.liveIn[i] = live
		}
	}
	for h := range fi.heads {
		for _, in := range h.Instrs {
			if p, ok := in.(*ssa.Phi); ok && isInteger(p.Type()) {
				for j, ed := range p.Edges {
					if h.Dominates(h.Preds[j]) {
						if bo, ok := ed.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
							fi.phiInd[p] = true
							if _, ok := bo.Y.(*ssa.Const); ok && bo.X == p {
								fi.phiStep[p] = true
							}
						}
						if _, ok := ed.(*ssa.Phi); ok && ed != p {
							fi.phiInd[p] = true
						}
					}
				}
			}
		}
	}
	e.Prog.infos[fn] = fi
	return fi
}

// liveOut of b: live-in of successors with their phi operands for this edge.
func (fi *fnInfo) liveOut(b *ssa.BasicBlock) bitset {
	out := make(bitset, len(fi.liveIn[0]))
	for _, sc := range b.Succs {
		for w, x := range fi.liveIn[sc.Index] {
			out[w] |= x
		}
	}
	for _, sc := range b.Succs {
		for _, in := range sc.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			out.clr(fi.reg[p])
		}
	}
	for _, sc := range b.Succs {
		for j, pr := range sc.Preds {
			if pr != b {
				continue
			}
			for _, in := range sc.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				// only needed if the phi is live, but keep it simple
				if r, ok := fi.reg[p.Edges[j]]; ok {
					out.set(r)
				}
			}
		}
	}
	return out
}

// back propagates liveness backwards from the end of b to instruction `from`.
func (fi *fnInfo) back(b *ssa.BasicBlock, live bitset, from int) bitset {
	var ops [16]*ssa.Value
	for i := len(b.Instrs) - 1; i >= from; i-- {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			live.clr(fi.reg[v])
		}
		for _, op := range in.Operands(ops[:0]) {
			if *op == nil {
				continue
			}
			if r, ok := fi.reg[*op]; ok {
				live.set(r)
			}
		}
	}
	// a function with a Recover block keeps its named results (allocs) alive
	return live
}

func (fi *fnInfo) liveAt(b *ssa.BasicBlock, pc int) bitset {
	return fi.back(b, fi.liveOut(b), pc)
}

func (s *State) trim(f *Frame) {
	live := f.info.liveAt(f.block, f.pc)
	for i, v := range f.env {
		if v != nil && !live.has(i) {
			if f.fn.Recover != nil {
				if _, ok := f.info.vals[i].(*ssa.Alloc); ok {
					continue
				}
			}
			f.env[i] = nil
		}
	}
}

type progPanic struct{ v Val }

func (s *State) goPanic(msg string) {
	panic(progPanic{Iface{Dyn: tString, V: mkStr("runtime error: " + msg)}})
}

// ---- running ----

// Run analyses the entry function.
func (e *Engine) Run(entry *ssa.Function) {
	e.visited = map[[20]byte]int{}
	e.graph = []node{{}}
	e.Violations = map[string]*Violation{}
	e.Reached = map[string]bool{}
	e.Fns = map[*ssa.Function]map[int]bool{}
	e.Externals = map[string]int{}
	e.deep = 0
	e.Obls = map[string]int{}
	e.accesses = map[string]*accessRec{}
	e.genCache = map[string]*genPkg{}
	e.EntryFn = entry
	s := &State{heap: map[int]*Obj{}, facts: Facts{map[string]bfact{}, map[string]ifact{}, map[string]rfact{}},
		lines: map[string]string{}, mon: map[string]int{}, eng: e}
	for _, g := range e.Prog.globals {
		id := e.Prog.gid(g)
		e.globalIDs = append(e.globalIDs, id)
		el := g.Type().(*types.Pointer).Elem()
		s.ownHeap()
		s.heap[id] = &Obj{T: el, V: zero(el), Name: g.RelString(nil)}
	}
	// entry last, inits in dependency order before it
	e.push(s, entry, nil, nil, retNormal, nil)
	for i := len(e.Prog.inits) - 1; i >= 0; i-- {
		e.push(s, e.Prog.inits[i], nil, nil, retInit, nil)
	}
	e.work = []*State{s}
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.States++
		if e.late || MemoryLow.Load() || e.States > e.MaxStates || e.States&255 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			e.report(st, "undecided", "undecided: abstract state budget exceeded", "the analysis did not reach a fixpoint within its budget")
			return
		}
		e.expand(st)
		if e.late && len(e.work) == 0 {
			e.work = append(e.work, st)
		}
		if len(e.Violations) > 40 {
			return
		}
	}
	e.divergence()
}

// MemoryLow makes every analysis end as undecided.
var MemoryLow atomic.Bool

// node is a memoised state: what it leads to, and where it is.
type node struct {
	next []int32
	exit bool // leads to an end, or to something not followed further
	at   *State
}

// divergence reports states from which the program never gets anywhere: no
// end is reachable in the (over-approximating) state graph, so every run
// that gets there goes on forever.
func (e *Engine) divergence() {
	prev := make([][]int32, len(e.graph))
	good := make([]bool, len(e.graph))
	var todo []int32
	for i, n := range e.graph {
		for _, j := range n.next {
			prev[j] = append(prev[j], int32(i))
		}
		if n.exit {
			good[i] = true
			todo = append(todo, int32(i))
		}
	}
	for len(todo) > 0 {
		i := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, j := range prev[i] {
			if !good[j] {
				good[j] = true
				todo = append(todo, j)
			}
		}
	}
	for i, n := range e.graph {
		if !good[i] && n.at != nil {
			e.report(n.at, "diverge", "never ends", "no end is reachable")
			return
		}
	}
}

func (s *State) exits() { s.eng.graph[s.node].exit = true }

func (e *Engine) expand(st *State) {
	e.alts = [][]int{nil}
	first := true
	for len(e.alts) > 0 {
		alt := e.alts[len(e.alts)-1]
		e.alts = e.alts[:len(e.alts)-1]
		if !first {
			e.Forks++
			if MemoryLow.Load() || e.Forks&255 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
				e.late = true
				return
			}
		}
		first = false
		s := st.clone()
		s.dec, s.decPos = alt, 0
		e.segment(s)
	}
}

func (e *Engine) segment(s *State) {
	steps := e.steps
	defer func() {
		r := recover()
		if r == nil && steps == e.steps {
			s.exits()
		}
		switch r := r.(type) {
		case nil:
		case prunedPath:
			s.exits()
		case undecided:
			s.exits()
			e.report(s, "undecided", "undecided: "+r.msg, r.msg)
		case progPanic:
			e.segmentPanic(s, r.v)
		default:
			if os.Getenv("JC_PANIC") != "" {
				panic(r)
			}
			s.exits()
			e.report(s, "undecided", fmt.Sprintf("undecided: analyser limitation: %v", r), fmt.Sprint(r))
		}
	}()
	e.exec(s)
}

func (e *Engine) segmentPanic(s *State, v Val) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case prunedPath:
			s.exits()
		case undecided:
			s.exits()
			e.report(s, "undecided", "undecided: "+r.msg, r.msg)
		case progPanic:
			e.segmentPanic(s, r.v)
		default:
			panic(r)
		}
	}()
	s.note("panic: " + show(v))
	s.setMonIfAbsent("panicpos", s)
	e.unwind(s, v)
}

func (s *State) setMonIfAbsent(string, *State) {}

// unwind propagates panic v in the top frame.
func (e *Engine) unwind(s *State, v Val) {
	for {
		f := s.top()
		f.panicking = v
		f.recovered = false
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if e.callDeferred(s, d, retUnwind) {
				e.emit(s)
				return
			}
			// model executed inline
			continue
		}
		if len(s.frames) == 1 {
			e.end(s, "panic", v)
			return
		}
		mode := f.mode
		s.frames = s.frames[:len(s.frames)-1]
		k := len(s.frames) - 1
		s.frames[k] = s.frames[k].clone()
		if mode == retInit {
			s.fail("panic during package initialisation")
		}
	}
}

func (e *Engine) callDeferred(s *State, d deferred, mode int) bool {
	if d.inv != nil {
		_, pushed := e.invoke(s, d.inv.Method, d.fn, d.args, nil, mode)
		return pushed
	}
	_, pushed := e.callVal(s, d.fn, d.args, nil, mode)
	return pushed
}

// end handles the completion of the entry function.
func (e *Engine) end(s *State, kind string, v Val) {
	e.Ends++
	e.steps++
	s.exits()
	if kind == "panic" {
		e.report(s, "panic", "panic escapes: "+show(v), "panic "+show(v))
	}
}

// place is what a report about a state needs: where it is and how it got there.
func (e *Engine) place(s *State) *State {
	at := &State{trace: s.trace, lastRet: s.lastRet, approx: s.approx, eng: e}
	if at.approx == "" && s.partialFacts() {
		at.approx = "the path goes through functions known only in part"
	}
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if e.Prog.inRepo(f.fn) && i < len(s.frames)-1 {
			at.frames = append(at.frames, &Frame{fn: f.fn, info: f.info, block: f.block, pc: f.pc})
			break
		}
	}
	f := s.top()
	at.frames = append(at.frames, &Frame{fn: f.fn, info: f.info, block: f.block, pc: f.pc})
	return at
}

// emit schedules a state for further exploration, unless already covered.
func (e *Engine) emit(s *State) {
	e.steps++
	f := s.top()
	if f.pc <= firstNonPhi(f.block) && len(f.block.Preds) > 1 || s.afterReturn() {
		s.trim(f)
		s.gc()
		k := sha1.Sum([]byte(s.key()))
		n, seen := e.visited[k]
		if !seen {
			n = len(e.graph)
			e.visited[k] = n
			e.graph = append(e.graph, node{at: e.place(s)})
		}
		from := &e.graph[s.node]
		from.next = append(from.next, int32(n))
		if seen {
			return
		}
		s.node = int32(n)
	}
	e.work = append(e.work, s)
}

func (s *State) afterReturn() bool {
	f := s.top()
	if f.pc == 0 {
		return false
	}
	switch f.block.Instrs[f.pc-1].(type) {
	case *ssa.Call:
		return true
	}
	return false
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func (e *Engine) push(s *State, fn *ssa.Function, args, binds []Val, mode int, dst ssa.Value) {
	if len(fn.Blocks) == 0 {
		s.fail("no body for %s", fn)
	}
	if len(s.frames) > 220 {
		s.fail("call depth exceeded in %s", fn)
	}
	fi := e.info(fn)
	// bound recursion on identical arguments
	if len(s.frames) > 60 {
		n := 0
		for _, f := range s.frames {
			if f.fn == fn {
				n++
			}
		}
		if n > 25 {
			s.fail("unbounded recursion through %s", fn)
		}
	}
	f := &Frame{fn: fn, info: fi, env: make([]Val, len(fi.vals)), block: fn.Blocks[0], mode: mode, dst: dst}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[fi.reg[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.env[fi.reg[p]] = binds[i]
	}
	m := e.Fns[fn]
	if m == nil {
		m = map[int]bool{}
		e.Fns[fn] = m
	}
	m[0] = true
	s.frames = append(s.frames, f)
}

// ret pops the top frame with the given result.
func (e *Engine) ret(s *State, v Val) {
	f := s.top()
	if len(s.frames) == 1 {
		e.end(s, "return", v)
		return
	}
	s.frames = s.frames[:len(s.frames)-1]
	k := len(s.frames) - 1
	s.frames[k] = s.frames[k].clone()
	c := s.frames[k]
	switch f.mode {
	case retNormal:
		if f.dst != nil {
			c.env[c.info.reg[f.dst]] = v
		}
	case retReflect:
		if f.dst != nil {
			c.env[c.info.reg[f.dst]] = s.reflectResults(v, f.rtypes)
		}
	case retDefer:
		// re-executes RunDefers
	case retInit:
	case retUnwind:
		if c.recovered {
			c.recovered = false
			c.panicking = nil
			if c.fn.Recover != nil {
				c.block = c.fn.Recover
				c.pc = 0
			} else {
				// return zero results
				e.retZero(s)
				return
			}
		} else {
			e.unwind(s, c.panicking)
			return
		}
	}
	e.emit(s)
}

func (e *Engine) retZero(s *State) {
	f := s.top()
	res := f.fn.Signature.Results()
	var v Val
	switch res.Len() {
	case 0:
	case 1:
		v = zero(res.At(0).Type())
	default:
		v = zero(res)
	}
	e.ret(s, v)
}

func (s *State) reflectResults(v Val, rt *types.Tuple) Val {
	var es []Val
	switch rt.Len() {
	case 0:
	case 1:
		es = []Val{RV{Valid: true, T: rt.At(0).Type(), V: v}}
	default:
		for i, x := range v.(Tuple).V {
			es = append(es, RV{Valid: true, T: rt.At(i).Type(), V: x})
		}
	}
	return s.newSlice(es, s.eng.Prog.reflectValueT)
}

func (s *State) newSlice(es []Val, et types.Type) Val {
	id := s.alloc(types.NewArray(et, int64(len(es))), Arr{E: es, ET: et}, "slice")
	return Slice{Obj: id, Lo: 0, Hi: len(es), ET: et}
}

func (s *State) get(v ssa.Value) Val {
	f := s.top()
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		if h := s.holeConst(f.fn, x); h != nil {
			return h
		}
		return convConst(Const{x.Value, x.Type()}, x.Type())
	case *ssa.Function:
		return Func{Fn: x}
	case *ssa.Global:
		return s.global(x)
	case *ssa.Builtin:
		return Func{Name: "builtin." + x.Name()}
	}
	r, ok := f.info.reg[v]
	if !ok {
		s.fail("no register for %s", v)
	}
	if f.env[r] == nil {
		s.fail("dead register %s = %s in %s", v.Name(), v, f.fn)
	}
	return f.env[r]
}

func (s *State) global(g *ssa.Global) Val {
	id := s.eng.Prog.gid(g)
	if _, ok := s.heap[id]; !ok {
		el := g.Type().(*types.Pointer).Elem()
		s.ownHeap()
		t := &Term{Op: "var:" + g.RelString(nil), T: el}
		var v Val = t
		switch under(el).(type) {
		case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
			v = t.nonNil()
		}
		if g.Name() == "init$guard" {
			v = mkBool(false)
		}
		if m, ok := globalModels[g.RelString(nil)]; ok {
			v = m(s)
		}
		s.heap[id] = &Obj{T: el, V: v, Name: g.RelString(nil)}
		s.eng.addGlobal(id)
	}
	return Ptr{Obj: id}
}

func (s *State) set(v ssa.Value, x Val) {
	f := s.top()
	f.env[f.info.reg[v]] = x
}

// jump moves to block b, evaluating its phis.
func (e *Engine) jump(s *State, b *ssa.BasicBlock) {
	f := s.top()
	prev := f.block
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		if r, ok := f.info.reg[p.Edges[idx]]; ok {
			v = f.env[r] // may be nil when dead
		} else {
			v = s.get(p.Edges[idx])
		}
		if v != nil && f.info.phiInd[p] && !(f.info.concrete && isConst(v)) {
			v = widen(v, b.Dominates(prev), e.deep)
		}
		vals = append(vals, v)
		phis = append(phis, p)
	}
	f.prev, f.block, f.pc = prev, b, len(phis)
	for i, p := range phis {
		f.env[f.info.reg[p]] = vals[i]
	}
	e.Fns[f.fn][b.Index] = true
	e.emit(s)
}

const widenAt = 14

// widen bounds loop counters.
func widen(v Val, back bool, deep int) Val {
	widenAt := widenAt
	if deep > 0 {
		widenAt = deep
	}
	switch x := v.(type) {
	case Const:
		if !back || x.V.Kind() != constant.Int {
			return v
		}
		if n, ok := constInt(x); ok {
			if n > widenAt {
				return Rng{widenAt, -1}
			}
			if n < -widenAt {
				return Rng{-1 << 40, -widenAt}
			}
		}
	case Rng:
		if x.Lo > widenAt {
			return Rng{widenAt, -1}
		}
		if x.Hi < -widenAt && x.Lo < 0 && x.Hi != -1 {
			return Rng{-1 << 40, -widenAt}
		}
	case *Term:
		if back && termDepth(x) > 6 {
			return Rng{-1 << 40, -1}
		}
	}
	return v
}

func termDepth(v Val) int {
	d := 0
	switch x := v.(type) {
	case *Term:
		for _, a := range x.Args {
			if n := termDepth(a); n > d {
				d = n
			}
		}
		d++
	case Cat:
		for _, a := range x.P {
			if n := termDepth(a); n > d {
				d = n
			}
		}
		d++
	}
	return d
}

// exec runs instructions until control leaves the block.
func (e *Engine) exec(s *State) {
	for {
		f := s.top()
		in := f.block.Instrs[f.pc]
		e.Steps++
		switch x := in.(type) {
		case *ssa.Jump:
			e.jump(s, f.block.Succs[0])
			return
		case *ssa.If:
			if s.truth(s.get(x.Cond)) {
				e.jump(s, f.block.Succs[0])
			} else {
				e.jump(s, f.block.Succs[1])
			}
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = s.get(x.Results[0])
			default:
				t := Tuple{}
				for _, r := range x.Results {
					t.V = append(t.V, s.get(r))
				}
				v = t
			}
			if e.Prog.inRepo(f.fn) && x.Pos().IsValid() {
				s.note("return " + showRet(v))
				s.lastRet = e.Prog.posStr(x.Pos()) + " (" + f.fn.RelString(nil) + ")"
			}
			e.ret(s, v)
			return
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if e.callDeferred(s, d, retDefer) {
					e.emit(s)
					return
				}
				continue
			}
			f.pc++
		case *ssa.Panic:
			panic(progPanic{s.get(x.X)})
		case *ssa.Call:
			f.pc++
			v, pushed := e.call(s, x.Common(), x, retNormal)
			if pushed {
				e.emit(s)
				return
			}
			if v == nil {
				v = Tuple{}
			}
			s.set(x, v)
		case *ssa.Defer:
			d := deferred{pos: x.Pos()}
			c := x.Common()
			if c.IsInvoke() {
				d.inv = c
				d.fn = s.get(c.Value)
			} else {
				d.fn = s.get(c.Value)
			}
			for _, a := range c.Args {
				d.args = append(d.args, s.get(a))
			}
			f.defers = append(f.defers, d)
			f.pc++
		case *ssa.Go:
			s.fail("go statement (goroutines are outside the analysed model)")
		case *ssa.Select, *ssa.Send, *ssa.MakeChan:
			s.fail("channel operation")
		default:
			e.simple(s, in)
			f.pc++
		}
	}
}

func showRet(v Val) string {
	if v == nil {
		return ""
	}
	return show(v)
}

// simple executes a non-control instruction.
func (e *Engine) simple(s *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(el, zero(el), x.Comment)
		s.set(x, Ptr{Obj: id})
	case *ssa.Store:
		s.storeVal(s.get(x.Addr), s.get(x.Val))
	case *ssa.UnOp:
		s.set(x, e.unop(s, x))
	case *ssa.BinOp:
		s.set(x, e.binop(s, x))
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		_ = st
		switch p := s.norm(s.get(x.X)).(type) {
		case Ptr:
			s.set(x, Ptr{p.Obj, fmt.Sprintf("%s/%d", p.Path, x.Field)})
		case Nil:
			s.goPanic("nil pointer dereference")
		case *Term:
			if s.isNil(p) {
				s.goPanic("nil pointer dereference")
			}
			u := under(st).(*types.Struct)
			s.set(x, (&Term{Op: "&." + u.Field(x.Field).Name(), Args: []Val{p}, T: x.Type(), Sum: p.Sum}).nonNil())
		default:
			s.fail("FieldAddr of %T", p)
		}
	case *ssa.Field:
		switch p := s.get(x.X).(type) {
		case Struct:
			s.set(x, p.F[x.Field])
		case *Term:
			s.set(x, s.component(p, x.Field))
		default:
			s.fail("Field of %T", p)
		}
	case *ssa.IndexAddr:
		s.set(x, s.indexAddr(x))
	case *ssa.Index:
		s.set(x, s.index(x))
	case *ssa.Lookup:
		s.set(x, s.lookup(s.get(x.X), s.get(x.Index), x.X.Type(), x.CommaOk, x.Type()))
	case *ssa.MapUpdate:
		s.mapUpdate(s.get(x.Map), s.get(x.Key), s.get(x.Value))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		s.set(x, Map{s.alloc(x.Type(), MapData{KT: mt.Key(), VT: mt.Elem()}, "map")})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		s.set(x, s.makeSlice(s.get(x.Len), et))
	case *ssa.MakeInterface:
		s.set(x, s.toIface(s.get(x.X), x.X.Type()))
	case *ssa.ChangeInterface:
		s.set(x, s.get(x.X))
	case *ssa.ChangeType:
		s.set(x, retype(s.get(x.X), x.Type()))
	case *ssa.Convert:
		s.set(x, s.convert(s.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		s.set(x, s.convert(s.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeClosure:
		fn := Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fn.Binds = append(fn.Binds, s.get(b))
		}
		s.set(x, fn)
	case *ssa.Extract:
		switch t := s.get(x.Tuple).(type) {
		case Tuple:
			s.set(x, t.V[x.Index])
		case *Term:
			s.set(x, mkTerm(fmt.Sprintf("#%d", x.Index), x.Type(), t))
		default:
			s.fail("Extract of %T", t)
		}
	case *ssa.Slice:
		s.set(x, s.sliceOp(x))
	case *ssa.TypeAssert:
		s.set(x, s.typeAssert(s.get(x.X), x.AssertedType, x.CommaOk, x.Type()))
	case *ssa.Range:
		s.set(x, s.rangeOver(s.get(x.X), x.X.Type()))
	case *ssa.Next:
		s.set(x, s.iterNext(s.get(x.Iter), x))
	case *ssa.SliceToArrayPointer:
		s.fail("slice to array pointer conversion")
	default:
		s.fail("instruction %T", in)
	}
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case Const:
		return Const{x.V, t}
	case Nil:
		return Nil{t}
	case Struct:
		return Struct{x.F, t}
	case *Term:
		c := *x
		c.T = t
		return &c
	}
	return v
}

func (s *State) toIface(v Val, t types.Type) Val {
	if namedPath(t) == "reflect.Type" {
		return v
	}
	if c, ok := v.(Choice); ok {
		v = c.V[s.choose(len(c.V))]
	}
	if _, ok := v.(Nil); ok && isIface(t) {
		return v
	}
	return Iface{t, v}
}

func (s *State) storeVal(addr, v Val) {
	switch p := s.norm(addr).(type) {
	case Ptr:
		s.store(p, v)
	case Nil:
		s.goPanic("nil pointer dereference")
	case *Term:
		if s.isNil(p) {
			s.goPanic("nil pointer dereference")
		}
		s.eng.externalWrite(s, p)
	default:
		s.fail("store through %T", p)
	}
}

func (e *Engine) unop(s *State, x *ssa.UnOp) Val {
	v := s.get(x.X)
	switch x.Op {
	case token.MUL:
		switch p := s.norm(v).(type) {
		case Ptr:
			return s.load(p)
		case Nil:
			s.goPanic("nil pointer dereference")
		case *Term:
			if s.isNil(p) {
				s.goPanic("nil pointer dereference")
			}
			if strings.HasPrefix(p.Op, "&.") {
				return mkTerm(p.Op[1:], x.Type(), p.Args...)
			}
			return mkTerm("*", x.Type(), p)
		}
		s.fail("load through %T", v)
	case token.NOT:
		if t, ok := v.(*Term); ok {
			v = s.norm(t)
		}
		return mkBool(!s.truth(v))
	case token.SUB:
		v = s.norm(v)
		if c, ok := v.(Const); ok {
			return convConst(Const{constant.UnaryOp(token.SUB, c.V, 0), x.Type()}, x.Type())
		}
		if isInteger(x.Type()) {
			return s.arith(token.SUB, Const{constant.MakeInt64(0), x.Type()}, v, x.Type())
		}
		return mkTerm("neg", x.Type(), v)
	case token.XOR:
		v = s.norm(v)
		if c, ok := v.(Const); ok {
			return convConst(Const{constant.UnaryOp(token.XOR, c.V, 0), x.Type()}, x.Type())
		}
		return mkTerm("^", x.Type(), v)
	case token.ARROW:
		s.fail("channel receive")
	}
	return nil
}

func (e *Engine) binop(s *State, x *ssa.BinOp) Val {
	a, b := s.get(x.X), s.get(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := s.eqTyped(a, b, x.X.Type(), x.Y.Type())
		s.relocate(x.X, x.Y)
		return mkBool(r == (x.Op == token.EQL))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(x.X.Type()) {
			return mkBool(s.cmpStr(x.Op, a, b))
		}
		r := s.cmpNum(x.Op, a, b)
		s.relocate(x.X, x.Y)
		return mkBool(r)
	}
	return s.arith(x.Op, a, b, x.Type())
}

// relocate replaces a constant index 0 compared with a position of a line by
// the line's first point.
func (s *State) relocate(a, b ssa.Value) {
	f := s.top()
	// only an index that visits every position may stand for a position
	// within a summary
	index := func(v ssa.Value) bool {
		if bo, ok := v.(*ssa.BinOp); ok {
			if p, ok := bo.X.(*ssa.Phi); ok && f.info.phiStep[p] {
				for _, e := range p.Edges {
					if e == v {
						return true
					}
				}
			}
		}
		p, ok := v.(*ssa.Phi)
		return ok && f.info.phiStep[p]
	}
	try := func(v, w ssa.Value) {
		r, ok := f.info.reg[v]
		if !ok {
			return
		}
		c, ok := f.env[r].(Const)
		if !ok {
			return
		}
		p, ok := s.norm(s.get(w)).(Pos)
		if !ok {
			return
		}
		if n, ok := constInt(c); ok && n >= 0 {
			if q, ok := s.locate(n, p.Line); ok {
				if shape := s.lines[p.Line]; index(v) || q.Pt >= len(shape) || shape[q.Pt] != '+' {
					f.env[r] = q
				}
			} else if !index(v) {
			} else if end := len(s.lines[p.Line]); p.Pt == end && s.cmpNum(token.LSS, c, p) {
				if k := s.pointsAt(n, p.Line, end); len(k) > 0 {
					f.env[r] = Pos{p.Line, k[s.choose(len(k))]}
				}
			}
		}
	}
	try(a, b)
	try(b, a)
}

// pointsAt lists the points before end that may stand at index n.
func (s *State) pointsAt(n int, line string, end int) []int {
	var c []int
	for j := 0; j < end; j++ {
		lo, hi := s.posRange(Pos{line, j})
		if n >= lo && (hi < 0 || n <= hi) {
			c = append(c, j)
		}
	}
	return c
}

// locate converts a constant index to a position when unambiguous.
func (s *State) locate(n int, line string) (Pos, bool) {
	shape := s.lines[line]
	for i := 0; i < len(shape); i++ {
		if i == n {
			return Pos{line, i}, true
		}
		if shape[i] == '+' {
			return Pos{}, false
		}
	}
	if n == len(shape) {
		return Pos{line, n}, true
	}
	return Pos{}, false
}

func (s *State) eqTyped(a, b Val, ta, tb types.Type) bool {
	// mixed interface / concrete comparison
	if isIface(ta) && !isIface(tb) {
		b = s.toIface(b, tb)
	} else if isIface(tb) && !isIface(ta) {
		a = s.toIface(a, ta)
	}
	return s.eq(a, b)
}

func (s *State) cmpStr(op token.Token, a, b Val) bool {
	a, b = s.norm(a), s.norm(b)
	if x, ok := constStr(a); ok {
		if y, ok := constStr(b); ok {
			return constant.Compare(constant.MakeString(x), op, constant.MakeString(y))
		}
	}
	switch op {
	case token.GTR:
		return s.cmpStr(token.LSS, b, a)
	case token.LEQ:
		return !s.cmpStr(token.LSS, b, a)
	case token.GEQ:
		return !s.cmpStr(token.LSS, a, b)
	}
	if s.eqStr(a, b) {
		return false
	}
	a, b = s.norm(a), s.norm(b)
	// a < b, with a != b: one atom per unordered pair
	if rawKey(a) <= rawKey(b) {
		return s.truth(mkTerm("strless", tBool, a, b))
	}
	return !s.truth(mkTerm("strless", tBool, b, a))
}

func (s *State) convert(v Val, from, to types.Type) Val {
	v = s.norm(v)
	fu, tu := under(from), under(to)
	if c, ok := v.(Choice); ok {
		v = c.V[s.choose(len(c.V))]
	}
	if _, ok := v.(Nil); ok {
		return Nil{to}
	}
	if isString(to) {
		if isString(from) {
			return retype(v, to)
		}
		if sl, ok := fu.(*types.Slice); ok {
			_ = sl
			return s.bytesToString(v)
		}
		if isInteger(from) {
			if c, ok := v.(Const); ok {
				n, _ := constant.Int64Val(c.V)
				return mkStr(string(rune(n)))
			}
			if s.ascii(v) {
				return mkTerm("char", to, v)
			}
			return mkTerm("runestr", to, v)
		}
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		if basicInfo(sl.Elem())&types.IsInteger != 0 {
			return s.stringToBytes(v, sl.Elem())
		}
	}
	if isNumeric(from) && isNumeric(to) {
		if c, ok := v.(Const); ok {
			return convConst(c, to)
		}
		switch {
		case isInteger(from) && isInteger(to):
			switch v.(type) {
			case Pos, Rng:
				return v
			}
			fb, tb := fu.(*types.Basic), tu.(*types.Basic)
			if sizeOf(fb) <= sizeOf(tb) && (isUnsigned(from) == isUnsigned(to) || isUnsigned(from) && sizeOf(fb) < sizeOf(tb)) {
				return retype(v, to)
			}
			if s.ascii(v) {
				return retype(v, to)
			}
			// undo a widening conversion
			return mkTerm("int<"+tb.Name()+">", to, v)
		case isInteger(from):
			switch v.(type) {
			case Pos, Rng:
			}
			if tu.(*types.Basic).Kind() == types.Float32 {
				return mkTerm("f32i", to, v)
			}
			return mkTerm("f64", to, v)
		case isFloat(from) && isInteger(to):
			if t, ok := v.(*Term); ok && t.Op == "f64" && types.Identical(under(t.Args[0].(*Term).T), tu) {
				return t.Args[0]
			}
			// outside the range of the type the result is not the number
			lo, hi := intRange(tu.(*types.Basic))
			if s.cmpNum(token.LEQ, v, ratConst(new(big.Rat).Sub(lo, big.NewRat(1, 1)), from)) || s.cmpNum(token.GEQ, v, ratConst(new(big.Rat).Add(hi, big.NewRat(1, 1)), from)) {
				return mkTerm("badint", to, v)
			}
			return mkTerm("trunc", to, v)
		default:
			if tu.(*types.Basic).Kind() == types.Float32 && fu.(*types.Basic).Kind() != types.Float32 {
				return mkTerm("f32", to, v)
			}
			return retype(v, to) // float32 -> float64 is exact
		}
	}
	if t, ok := v.(*Term); ok {
		return retype(t, to)
	}
	return retype(v, to)
}

// intRange is the range of an integer type.
func intRange(b *types.Basic) (lo, hi *big.Rat) {
	n := uint(sizeOf(b))
	one := big.NewInt(1)
	l, h := new(big.Int), new(big.Int)
	if b.Info()&types.IsUnsigned == 0 {
		l.Neg(new(big.Int).Lsh(one, n-1))
		n--
	}
	h.Sub(new(big.Int).Lsh(one, n), one)
	return new(big.Rat).SetInt(l), new(big.Rat).SetInt(h)
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// byte slices made from strings are exact only as a whole: an Arr with a
// single summary point holding the string as its content term.
func (s *State) stringToBytes(v Val, et types.Type) Val {
	id := s.alloc(nil, Ext{"bytes", v}, "bytes")
	return Slice{Obj: id, Lo: 0, Hi: -1, ET: et}
}

func (s *State) bytesToString(v Val) Val {
	switch x := v.(type) {
	case Nil:
		return mkStr("")
	case Slice:
		o := s.heap[x.Obj]
		if ex, ok := o.V.(Ext); ok && ex.Kind == "bytes" {
			return ex.Data
		}
		if a, ok := o.V.(Arr); ok {
			bs := []byte{}
			allc := true
			for i := x.Lo; i < x.Hi; i++ {
				n, ok := constInt(a.E[i])
				if !ok || a.Sum != nil && a.Sum[i] {
					allc = false
					break
				}
				if isRune(x.ET) {
					bs = append(bs, string(rune(n))...)
				} else {
					bs = append(bs, byte(n))
				}
			}
			if allc {
				return mkStr(string(bs))
			}
			return mkTerm("bytestr", tString, x)
		}
	case *Term:
		return mkTerm("bytestr", tString, x)
	}
	s.fail("bytes to string of %T", v)
	return nil
}

func isRune(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// ---- indexing ----

// resolveIndex maps an index value to a point of a slice.
func (s *State) resolveIndex(idx Val, sl Slice, sums []bool) int {
	idx = s.norm(idx)
	n := sl.Hi - sl.Lo
	if sl.Line != "" {
		shape := s.lines[sl.Line]
		switch i := idx.(type) {
		case Const:
			k, _ := constInt(i)
			if k < 0 {
				s.goPanic("index out of range")
			}
			if p, ok := s.locate(k, sl.Line); ok {
				if p.Pt >= n {
					s.goPanic("index out of range")
				}
				return sl.Lo + p.Pt
			}
			// after a summary: any later point, or out of range
			if !s.cmpNum(token.LSS, i, Pos{sl.Line, n}) {
				s.goPanic("index out of range")
			}
			c := s.pointsAt(k, sl.Line, n)
			if len(c) == 0 {
				s.prune()
			}
			return sl.Lo + c[s.choose(len(c))]
		case Pos:
			if i.Line == sl.Line {
				if i.Pt >= n {
					s.goPanic("index out of range")
				}
				return sl.Lo + i.Pt
			}
		}
		_ = shape
		// unknown position
		if s.choose(2) == 0 {
			if s.cmpNum(token.LSS, idx, mkInt(0)) {
				s.goPanic("index out of range")
			}
			if !s.cmpNum(token.LSS, idx, Pos{sl.Line, n}) {
				s.goPanic("index out of range")
			}
		}
		if n == 0 {
			s.prune()
		}
		return sl.Lo + s.choose(n)
	}
	switch i := idx.(type) {
	case Const:
		k, _ := constInt(i)
		if k < 0 || k >= n {
			s.goPanic("index out of range")
		}
		return sl.Lo + k
	}
	for k := 0; k < n; k++ {
		if s.cmpNum(token.EQL, idx, mkInt(k)) {
			return sl.Lo + k
		}
	}
	s.goPanic("index out of range")
	return 0
}

func (s *State) indexAddr(x *ssa.IndexAddr) Val {
	idx := s.get(x.Index)
	switch b := s.norm(s.get(x.X)).(type) {
	case Slice:
		if o := s.heap[b.Obj]; o != nil {
			if ex, ok := o.V.(Ext); ok && ex.Kind == "bytes" {
				// explode constant byte strings
				if str, ok := constStr(ex.Data); ok {
					var es []Val
					for i := 0; i < len(str); i++ {
						es = append(es, Const{constant.MakeInt64(int64(str[i])), tByte})
					}
					s.setObj(b.Obj, Arr{E: es, ET: tByte})
					b.Hi = len(es)
				} else {
					return (&Term{Op: "&byteat", Args: []Val{ex.Data, idx}, T: x.Type(), Sum: true}).nonNil()
				}
			}
		}
		k := s.resolveIndex(idx, b, nil)
		return Ptr{b.Obj, fmt.Sprintf("/%d", k)}
	case Ptr: // pointer to array
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		k := s.resolveIndex(idx, Slice{Lo: 0, Hi: int(at.Len())}, nil)
		return Ptr{b.Obj, fmt.Sprintf("%s/%d", b.Path, k)}
	case Nil:
		if _, ok := under(x.X.Type()).(*types.Slice); ok {
			s.goPanic("index out of range")
		}
		s.goPanic("nil pointer dereference")
	case *Term:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		_ = et
		// bounds are unknown
		l := mkTerm("len", tInt, b)
		if s.cmpNum(token.LSS, idx, mkInt(0)) || !s.cmpNum(token.LSS, idx, l) {
			s.goPanic("index out of range")
		}
		return (&Term{Op: "&elem", Args: []Val{b, idx}, T: x.Type()}).nonNil()
	}
	s.fail("IndexAddr of %T", s.get(x.X))
	return nil
}

func (s *State) index(x *ssa.Index) Val {
	idx := s.norm(s.get(x.Index))
	switch b := s.norm(s.get(x.X)).(type) {
	case Arr:
		k := s.resolveIndex(idx, Slice{Lo: 0, Hi: len(b.E)}, nil)
		return b.E[k]
	case Const, Cat, *Term:
		return s.strIndex(b, idx)
	}
	s.fail("Index of %T", s.get(x.X))
	return nil
}

func (s *State) strIndex(b, idx Val) Val {
	if str, ok := constStr(b); ok {
		if k, ok := constInt(idx); ok {
			if k < 0 || k >= len(str) {
				s.goPanic("index out of range")
			}
			return Const{constant.MakeInt64(int64(str[k])), tByte}
		}
	}
	if k, ok := constInt(idx); ok && k >= 0 {
		if c, ok := b.(Cat); ok {
			if pre, ok := constStr(c.P[0]); ok && k < len(pre) {
				return Const{constant.MakeInt64(int64(pre[k])), tByte}
			}
		}
	}
	if cs, ok := chars(b); ok && hasChars(b) {
		if k, ok := constInt(idx); ok {
			if k < 0 || k >= len(cs) {
				s.goPanic("index out of range")
			}
			return retype(cs[k], tByte)
		}
		s.fail("index into a string of known length")
	}
	if l := s.strLine(b); l != "" {
		return s.strLineAt(b, l, idx)
	}
	if s.cmpNum(token.LSS, idx, mkInt(0)) || !s.cmpNum(token.LSS, idx, s.strLen(b)) {
		s.goPanic("index out of range")
	}
	t := mkTerm("byteat", tByte, b, idx)
	if !s.stable(idx) {
		t.Sum = true
		s.killSum()
	}
	return t
}

// ---- maps ----

func (s *State) mapData(m Val) (int, MapData, bool) {
	switch x := m.(type) {
	case Map:
		return x.Obj, s.heap[x.Obj].V.(MapData), true
	}
	return 0, MapData{}, false
}

// find returns the index of the entry for key k, or -1.
func (s *State) find(md MapData, k Val) int {
	if isSum(k) {
		for i, e := range md.E {
			if e.All && rawKey(e.K) == rawKey(k) {
				return i
			}
		}
	}
	for i, e := range md.E {
		if e.Sum {
			continue
		}
		if s.eqKey(e.K, k) {
			return i
		}
	}
	for i, e := range md.E {
		if e.Sum && s.eqKey(e.K, k) {
			return i
		}
	}
	return -1
}

func (s *State) eqKey(a, b Val) bool {
	if x, ok := a.(Iface); ok {
		if !types.Comparable(x.Dyn) {
			s.goPanic("hash of unhashable type " + typeKey(x.Dyn))
		}
	}
	return s.eq(a, b)
}

func (s *State) lookup(m, k Val, mt types.Type, commaOk bool, rt types.Type) Val {
	if isString(mt) {
		return s.strIndex(s.norm(m), s.norm(k))
	}
	m = s.norm(m)
	k = s.norm(k)
	vt := under(mt).(*types.Map).Elem()
	mk := func(v Val, ok bool) Val {
		if commaOk {
			return Tuple{[]Val{v, mkBool(ok)}}
		}
		return v
	}
	switch x := m.(type) {
	case Nil:
		return mk(zero(vt), false)
	case Map:
		s.access(x.Obj, "", false)
		_, md, _ := s.mapData(x)
		if i := s.find(md, k); i >= 0 {
			v := md.E[i].V
			if c, ok := v.(Choice); ok {
				v = c.V[s.choose(len(c.V))]
			}
			return mk(v, true)
		}
		return mk(zero(vt), false)
	case *Term:
		if s.truth(mkTerm("has", tBool, x, k)) {
			return mk(mkTerm("at", vt, x, k), true)
		}
		return mk(zero(vt), false)
	}
	s.fail("lookup in %T", m)
	return nil
}

func (s *State) mapUpdate(m, k, v Val) {
	m = s.norm(m)
	k = s.norm(k)
	switch x := m.(type) {
	case Nil:
		s.goPanic("assignment to entry in nil map")
	case Map:
		s.access(x.Obj, "", true)
		o := s.heap[x.Obj]
		if o.Frozen != "" {
			s.eng.frozenWrite(s, o, "[]")
		}
		md := o.V.(MapData)
		es := append([]Entry(nil), md.E...)
		if iv, ok := k.(Iface); ok && !types.Comparable(iv.Dyn) {
			s.goPanic("hash of unhashable type " + typeKey(iv.Dyn))
		}
		if isSum(k) {
			for i, e := range es {
				if e.Sum && rawKey(e.K) == rawKey(k) {
					if rawKey(e.V) != rawKey(v) {
						s.taint("store into one of many entries")
					}
					es[i].V = mkChoice(e.V, v)
					s.setObj(x.Obj, MapData{es, md.KT, md.VT})
					return
				}
			}
			for i, e := range es {
				if s.eqKey(e.K, k) {
					if e.Sum {
						v = mkChoice(e.V, v)
					}
					es[i].V = v
					s.setObj(x.Obj, MapData{es, md.KT, md.VT})
					return
				}
			}
			es = append(es, Entry{K: k, V: v, Sum: true})
			s.setObj(x.Obj, MapData{es, md.KT, md.VT})
			return
		}
		if i := s.find(md, k); i >= 0 {
			if es[i].Sum {
				es[i].V = mkChoice(es[i].V, v)
			} else {
				es[i].V = v
			}
		} else {
			es = append(es, Entry{K: k, V: v})
		}
		s.setObj(x.Obj, MapData{es, md.KT, md.VT})
	case *Term:
		if s.isNil(x) {
			s.goPanic("assignment to entry in nil map")
		}
		s.eng.externalWrite(s, x)
	default:
		s.fail("map update of %T", m)
	}
}

func (s *State) mapDelete(m, k Val) {
	m, k = s.norm(m), s.norm(k)
	switch x := m.(type) {
	case Nil:
		return
	case Map:
		s.access(x.Obj, "", true)
		o := s.heap[x.Obj]
		if o.Frozen != "" {
			s.eng.frozenWrite(s, o, "[]")
		}
		md := o.V.(MapData)
		i := s.find(md, k)
		if i < 0 {
			return
		}
		if md.E[i].Sum {
			s.taint("deletion of one of many entries")
			if s.choose(2) == 0 {
				es := append([]Entry(nil), md.E...)
				es[i].All = false
				s.setObj(x.Obj, MapData{es, md.KT, md.VT})
				return // other instances remain
			}
		}
		es := append([]Entry(nil), md.E[:i]...)
		es = append(es, md.E[i+1:]...)
		s.setObj(x.Obj, MapData{es, md.KT, md.VT})
	default:
		s.fail("delete on %T", m)
	}
}

func (s *State) mapLen(m Val) Val {
	switch x := s.norm(m).(type) {
	case Nil:
		return mkInt(0)
	case Map:
		s.access(x.Obj, "", false)
		_, md, _ := s.mapData(x)
		for _, e := range md.E {
			if e.Sum {
				return Rng{len(md.E), -1}
			}
		}
		return mkInt(len(md.E))
	case *Term:
		return mkTerm("len", tInt, x)
	}
	s.fail("len of map %T", m)
	return nil
}

func (s *State) rangeOver(v Val, t types.Type) Val {
	v = s.norm(v)
	if isString(t) {
		return Iter{s.alloc(nil, IterData{Str: catParts(v)}, "iter")}
	}
	it := IterData{M: v}
	if m, ok := v.(Map); ok {
		_, md, _ := s.mapData(m)
		for _, e := range md.E {
			it.First = append(it.First, e.K)
		}
	}
	return Iter{s.alloc(nil, it, "iter")}
}

func (s *State) iterNext(v Val, x *ssa.Next) Val {
	id := v.(Iter).Obj
	it := s.heap[id].V.(IterData)
	if x.IsString {
		return s.strNext(id, it)
	}
	return s.iterNextCore(v, x.Type().(*types.Tuple))
}

func (s *State) iterNextCore(v Val, tt *types.Tuple) Val {
	id := v.(Iter).Obj
	it := s.heap[id].V.(IterData)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	z := func(t types.Type) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Nil{}
		}
		return zero(t)
	}
	done := Tuple{[]Val{mkBool(false), z(kt), z(vt)}}
	switch m := it.M.(type) {
	case Nil:
		return done
	case *Term:
		// opaque map: any number of opaque entries
		if s.choose(2) == 0 {
			return done
		}
		k := &Term{Op: "key", Args: []Val{m}, T: kt, Sum: true}
		val := &Term{Op: "val", Args: []Val{m}, T: vt, Sum: true}
		s.killSum()
		return Tuple{[]Val{mkBool(true), k, val}}
	case Map:
		s.access(m.Obj, "", false)
		_, md, _ := s.mapData(m)
		in := func(l []Val, k Val) bool {
			for _, y := range l {
				if rawKey(y) == rawKey(k) {
					return true
				}
			}
			return false
		}
		var cand []Entry
		canStop := true
		for _, e := range md.E {
			if e.Sum {
				if !in(it.SumSeen, e.K) && in(it.First, e.K) {
					canStop = false
				}
				cand = append(cand, e)
				continue
			}
			if in(it.Seen, e.K) {
				continue
			}
			if in(it.First, e.K) {
				canStop = false
			}
			cand = append(cand, e)
		}
		if len(it.First) > maxOrders && len(cand) > 1 {
			// all orders of a large map are too many: ascending and descending
			if it.Dir == 0 {
				it.Dir = 1 + s.choose(2)
			}
			sort.Slice(cand, func(i, j int) bool {
				return (rawKey(cand[i].K) < rawKey(cand[j].K)) == (it.Dir == 1)
			})
			cand = cand[:1]
		}
		n := len(cand)
		if canStop {
			n++
		}
		c := s.choose(n)
		if c == len(cand) {
			return done
		}
		e := cand[c]
		if e.Sum {
			if !in(it.SumSeen, e.K) {
				s.taintSum()
				it.SumSeen = append(append([]Val(nil), it.SumSeen...), e.K)
			}
			s.killSum()
		} else {
			it.Seen = append(append([]Val(nil), it.Seen...), e.K)
			if len(cand) > 1 {
				s.note("range visits " + show(e.K))
			}
		}
		s.setObj(id, it)
		val := e.V
		if ch, ok := val.(Choice); ok {
			val = ch.V[s.choose(len(ch.V))]
		}
		return Tuple{[]Val{mkBool(true), e.K, val}}
	}
	s.fail("range over %T", it.M)
	return nil
}

// maxOrders: maps up to this size are visited in every order.
const maxOrders = 4

var tRune = types.Universe.Lookup("rune").Type()

func (s *State) strNext(id int, it IterData) Val {
	mk := func(ok bool, off Val, r Val) Val {
		return Tuple{[]Val{mkBool(ok), off, r}}
	}
	if len(it.Str) == 0 {
		return mk(false, mkInt(0), Const{constant.MakeInt64(0), tRune})
	}
	if str, ok := constStr(it.Str[0]); ok {
		for _, r := range str {
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				if strings.HasPrefix(str, "\uFFFD") {
					n = 3
				}
			}
			ni := it
			ni.Str = append([]Val(nil), it.Str...)
			if len(str) > n {
				ni.Str[0] = mkStr(str[n:])
			} else {
				ni.Str = ni.Str[1:]
			}
			ni.Off = it.Off + n
			s.setObj(id, ni)
			return mk(true, mkInt(it.Off), Const{constant.MakeInt64(int64(r)), tRune})
		}
	}
	// opaque part
	h := it.Str[0]
	if t, ok := h.(*Term); ok && t.Op == "char" {
		ni := it
		ni.Str = it.Str[1:]
		ni.Off = it.Off + 1
		s.setObj(id, ni)
		return mk(true, mkInt(it.Off), retype(t.Args[0], tRune))
	}
	if l := s.strLine(h); l != "" && len(it.Str) == 1 {
		p := it.Off
		shape := s.lines[l]
		if p >= len(shape) {
			return mk(false, mkInt(0), Const{constant.MakeInt64(0), tRune})
		}
		ch := s.strLineAt(h, l, Pos{l, p})
		ni := it
		if shape[p] == '+' && s.choose(2) == 0 {
			// stay on the same point
		} else {
			ni.Off = p + 1
		}
		s.setObj(id, ni)
		return mk(true, Pos{l, p}, retype(ch, tRune))
	}
	if s.norm(s.strLen(h)) != nil {
		if n, ok := constInt(s.norm(s.strLen(h))); ok && n == 0 {
			ni := it
			ni.Str = it.Str[1:]
			s.setObj(id, ni)
			return s.strNext(id, ni)
		}
	}
	if !it.Open {
		// the characters an earlier loop saw are not remembered
		k := "iter:" + rawKey(h)
		if s.mon[k] != 0 {
			s.taint("the same text examined by two loops")
		}
		s.setMon(k, 1)
		it.Open = true
	}
	if s.choose(2) == 0 {
		ni := it
		ni.Open = false
		ni.Str = it.Str[1:]
		s.setObj(id, ni)
		return s.strNext(id, ni)
	}
	s.setObj(id, it)
	if set, ok := charsOf(h); ok {
		rs := []rune(set)
		r := rs[s.choose(len(rs))]
		return mk(true, Rng{0, -1}, Const{constant.MakeInt64(int64(r)), tRune})
	}
	s.killSum()
	return mk(true, Rng{0, -1}, &Term{Op: "runeof", Args: []Val{h}, T: tRune, Sum: true})
}

// ---- slices ----

func (s *State) sliceLen(v Val) Val {
	switch x := v.(type) {
	case Nil:
		return mkInt(0)
	case Slice:
		if x.Hi < 0 {
			if ex, ok := s.heap[x.Obj].V.(Ext); ok {
				if isRune(x.ET) {
					return s.runeCount(ex.Data)
				}
				return s.strLen(ex.Data)
			}
			if a, ok := s.heap[x.Obj].V.(Arr); ok {
				return mkInt(len(a.E))
			}
		}
		if x.Line != "" {
			return Pos{x.Line, x.Hi - x.Lo}
		}
		return mkInt(x.Hi - x.Lo)
	case *Term:
		return mkTerm("len", tInt, x)
	}
	s.fail("len of slice %T", v)
	return nil
}

func (s *State) makeSlice(n Val, et types.Type) Val {
	n = s.norm(n)
	switch x := n.(type) {
	case Const:
		k, _ := constInt(x)
		if k < 0 {
			s.goPanic("makeslice: len out of range")
		}
		es := make([]Val, k)
		for i := range es {
			es[i] = zero(et)
		}
		return s.newSlice(es, et)
	case Pos:
		shape := s.lines[x.Line]
		es := make([]Val, x.Pt)
		sums := make([]bool, x.Pt)
		for i := range es {
			es[i] = zero(et)
			sums[i] = shape[i] == '+'
		}
		id := s.alloc(nil, Arr{es, sums, x.Line, et}, "slice")
		return Slice{Obj: id, Hi: x.Pt, ET: et, Line: x.Line}
	case Rng:
		// length known only as a range
		if x.Lo <= 0 && s.choose(2) == 0 {
			return s.newSlice(nil, et)
		}
		line := "mk"
		s.setLine(line, "+")
		id := s.alloc(nil, Arr{[]Val{zero(et)}, []bool{true}, line, et}, "slice")
		return Slice{Obj: id, Hi: 1, ET: et, Line: line}
	case *Term:
		if s.cmpNum(token.LSS, x, mkInt(0)) {
			s.goPanic("makeslice: len out of range")
		}
		if s.cmpNum(token.EQL, x, mkInt(0)) {
			return s.newSlice(nil, et)
		}
		line := "mk:" + rawKey(x)
		s.setLine(line, "+")
		id := s.alloc(nil, Arr{[]Val{zero(et)}, []bool{true}, line, et}, "slice")
		return Slice{Obj: id, Hi: 1, ET: et, Line: line}
	}
	s.fail("make slice of length %T", n)
	return nil
}

func (s *State) setLine(name, shape string) {
	if s.lines[name] == shape {
		return
	}
	s.lines = cpm(s.lines)
	s.lines[name] = shape
}

// points returns the elements of a slice with their summary flags.
func (s *State) points(v Val) ([]Val, []bool, types.Type) {
	switch x := v.(type) {
	case Nil:
		return nil, nil, nil
	case Slice:
		o := s.heap[x.Obj]
		s.access(x.Obj, "", false)
		a, ok := o.V.(Arr)
		if !ok {
			s.fail("elements of byte string")
		}
		sums := a.Sum
		if sums == nil {
			sums = make([]bool, len(a.E))
		}
		return a.E[x.Lo:x.Hi], sums[x.Lo:x.Hi], x.ET
	}
	s.fail("elements of %T", v)
	return nil, nil, nil
}

func (s *State) buildSlice(es []Val, sums []bool, et types.Type) Val {
	any := false
	shape := make([]byte, len(es))
	for i := range es {
		shape[i] = '1'
		if sums[i] {
			any = true
			shape[i] = '+'
		}
	}
	if !any {
		return s.newSlice(es, et)
	}
	line := fmt.Sprintf("ap%d:%s", s.curPos(), shape)
	s.setLine(line, string(shape))
	id := s.alloc(nil, Arr{es, sums, line, et}, "slice")
	return Slice{Obj: id, Hi: len(es), ET: et, Line: line}
}

func (s *State) appendVals(base Val, add []Val, addSum []bool, et types.Type) Val {
	var es []Val
	var sums []bool
	switch b := base.(type) {
	case Nil:
	case Slice:
		if o := s.heap[b.Obj]; o != nil {
			if _, ok := o.V.(Arr); !ok {
				s.fail("append to byte string")
			}
		}
		e, sm, _ := s.points(b)
		es = append(es, e...)
		sums = append(sums, sm...)
		// in-place growth is possible when the slice is a prefix of its array:
		// the array is shared, so an append may overwrite.
		if a, ok := s.heap[b.Obj].V.(Arr); ok && b.Hi < len(a.E) && a.Sum == nil && addAllExact(addSum) {
			for i, v := range add {
				if b.Hi+i < len(a.E) && len(add) <= len(a.E)-b.Hi {
					s.store(Ptr{b.Obj, fmt.Sprintf("/%d", b.Hi+i)}, v)
				}
			}
			if len(add) <= len(a.E)-b.Hi {
				return Slice{b.Obj, b.Lo, b.Hi + len(add), et, ""}
			}
		}
	case *Term:
		s.fail("append to opaque slice")
	}
	for i, v := range add {
		sm := addSum != nil && addSum[i] || isSum(v)
		if sm && len(es) > 0 && sums[len(es)-1] && rawKey(es[len(es)-1]) == rawKey(v) {
			continue
		}
		if len(es) > 40 {
			// widen very long lists into a summary
			es[len(es)-1] = mkChoice(es[len(es)-1], v)
			sums[len(es)-1] = true
			continue
		}
		es = append(es, v)
		sums = append(sums, sm)
	}
	if len(add) == 0 {
		return base
	}
	return s.buildSlice(es, sums, et)
}

func addAllExact(b []bool) bool {
	for _, x := range b {
		if x {
			return false
		}
	}
	return true
}

func (s *State) sliceOp(x *ssa.Slice) Val {
	b := s.norm(s.get(x.X))
	var lo, hi Val
	if x.Low != nil {
		lo = s.norm(s.get(x.Low))
	}
	if x.High != nil {
		hi = s.norm(s.get(x.High))
	}
	if isString(x.X.Type()) {
		return s.substr(b, lo, hi)
	}
	switch v := b.(type) {
	case Ptr: // array pointer
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		obj := v.Obj
		if v.Path != "" {
			s.fail("slice of embedded array")
		}
		b = Slice{Obj: obj, Lo: 0, Hi: int(at.Len()), ET: at.Elem()}
	case Nil:
		if n, ok := constInt(orZero(lo)); ok && n == 0 {
			if hi == nil {
				return b
			}
			if m, ok := constInt(hi); ok && m == 0 {
				return b
			}
		}
		s.goPanic("slice bounds out of range")
	}
	sl, ok := b.(Slice)
	if !ok {
		if t, ok := b.(*Term); ok {
			args := []Val{t}
			if lo != nil {
				args = append(args, lo)
			}
			if hi != nil {
				args = append(args, hi)
			}
			return mkTerm("slice", t.T, args...)
		}
		s.fail("slice of %T", b)
	}
	if ex, ok := s.heap[sl.Obj].V.(Ext); ok {
		if lo == nil && hi == nil {
			return sl
		}
		return s.stringToBytes(s.substr(ex.Data, lo, hi), sl.ET)
	}
	a := s.heap[sl.Obj].V.(Arr)
	pt := func(v Val, def int) int {
		if v == nil {
			return def
		}
		switch p := v.(type) {
		case Const:
			n, _ := constInt(p)
			if n < 0 {
				s.goPanic("slice bounds out of range")
			}
			if sl.Line == "" {
				if sl.Lo+n > len(a.E) {
					s.goPanic("slice bounds out of range")
				}
				return sl.Lo + n
			}
			if q, ok := s.locate(n, sl.Line); ok {
				if q.Pt > sl.Hi-sl.Lo {
					s.goPanic("slice bounds out of range")
				}
				return sl.Lo + q.Pt
			}
		case Pos:
			if p.Line == sl.Line {
				if p.Pt > sl.Hi-sl.Lo {
					s.goPanic("slice bounds out of range")
				}
				if s.posSummary(p) {
					s.fail("slicing inside a summarised range")
				}
				return sl.Lo + p.Pt
			}
		}
		if sl.Line == "" {
			for k := 0; k <= sl.Hi-sl.Lo; k++ {
				if s.cmpNum(token.EQL, v, mkInt(k)) {
					return sl.Lo + k
				}
			}
			s.goPanic("slice bounds out of range")
		}
		s.fail("slice bound %s", show(v))
		return 0
	}
	l, h := pt(lo, sl.Lo), pt(hi, sl.Hi)
	if l > h {
		s.goPanic("slice bounds out of range")
	}
	line := sl.Line
	if line != "" && l > sl.Lo {
		shape := s.lines[line][l-sl.Lo:]
		line = fmt.Sprintf("%s@%d", line, l-sl.Lo)
		s.setLine(line, shape)
	}
	return Slice{sl.Obj, l, h, sl.ET, line}
}

func orZero(v Val) Val {
	if v == nil {
		return mkInt(0)
	}
	return v
}

// substr evaluates str[lo:hi].
func (s *State) substr(b, lo, hi Val) Val {
	if lo == nil && hi == nil {
		return b
	}
	lo = orZero(lo)
	n, okl := constInt(lo)
	if str, ok := constStr(b); ok && okl {
		m := len(str)
		okh := true
		if hi != nil {
			m, okh = constInt(hi)
		}
		if okh {
			if n < 0 || m < n || m > len(str) {
				s.goPanic("slice bounds out of range")
			}
			return mkStr(str[n:m])
		}
	}
	if cs, ok := chars(b); ok && okl && hasChars(b) {
		m, okh := len(cs), true
		if hi != nil {
			m, okh = constInt(hi)
		}
		if okh {
			if n < 0 || m < n || m > len(cs) {
				s.goPanic("slice bounds out of range")
			}
			return fromChars(cs[n:m])
		}
	}
	if c, ok := b.(Cat); ok && okl {
		rest := c.P
		if n > 0 {
			pre, ok := constStr(c.P[0])
			if !ok || len(pre) < n {
				return s.opaqueSub(b, lo, hi)
			}
			rest = append([]Val{mkStr(pre[n:])}, c.P[1:]...)
		}
		if hi == nil {
			return mkCat(rest...)
		}
		// hi inside the constant prefix
		if m, ok := constInt(hi); ok {
			if pre, ok := constStr(c.P[0]); ok && m <= len(pre) {
				if m < n {
					s.goPanic("slice bounds out of range")
				}
				return mkStr(pre[n:m])
			}
		}
		// hi == len - k within the constant suffix
		base, off := lin(s.norm(s.strLen(b)))
		hb, ho := lin(hi)
		if base != nil && hb != nil && rawKey(base) == rawKey(hb) {
			d := int(off.Num().Int64() - ho.Num().Int64())
			suf, ok := constStr(rest[len(rest)-1])
			if d == 0 {
				return mkCat(rest...)
			}
			if ok && d > 0 && d <= len(suf) {
				r := append([]Val(nil), rest[:len(rest)-1]...)
				return mkCat(append(r, mkStr(suf[:len(suf)-d]))...)
			}
		}
	}
	return s.opaqueSub(b, lo, hi)
}

func (s *State) opaqueSub(b, lo, hi Val) Val {
	l := s.strLen(b)
	if hi == nil {
		hi = l
	}
	if s.cmpNum(token.LSS, lo, mkInt(0)) || s.cmpNum(token.GTR, hi, l) || s.cmpNum(token.GTR, lo, hi) {
		s.goPanic("slice bounds out of range")
	}
	if okZero(lo) && rawKey(s.norm(hi)) == rawKey(s.norm(l)) {
		return b
	}
	t := mkTerm("substr", tString, b, lo, hi)
	if !s.stable(lo) || !s.stable(hi) {
		t.Sum = true
	}
	return t
}

func okZero(v Val) bool { n, ok := constInt(v); return ok && n == 0 }

// ---- type assertions ----

func (s *State) typeAssert(v Val, t types.Type, commaOk bool, rt types.Type) Val {
	v = s.norm(v)
	mk := func(x Val, ok bool) Val {
		if commaOk {
			return Tuple{[]Val{x, mkBool(ok)}}
		}
		if !ok {
			s.goPanic("interface conversion: wrong dynamic type for " + typeKey(t))
		}
		return x
	}
	if c, ok := v.(Choice); ok {
		v = c.V[s.choose(len(c.V))]
	}
	switch x := v.(type) {
	case Nil:
		return mk(zero(t), false)
	case Iface:
		if isIface(t) {
			it := under(t).(*types.Interface)
			if types.Implements(x.Dyn, it) {
				return mk(x, true)
			}
			return mk(zero(t), false)
		}
		if types.Identical(x.Dyn, t) {
			return mk(x.V, true)
		}
		return mk(zero(t), false)
	case RT:
		if isIface(t) && (namedPath(t) == "reflect.Type" || under(t).(*types.Interface).NumMethods() == 0) {
			return mk(x, true)
		}
		return mk(zero(t), false)
	case *Term:
		if x.Op == "error" || x.Op == "newerror" {
			if isIface(t) {
				it := under(t).(*types.Interface)
				ok := it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
				return mk(x, ok)
			}
			return mk(zero(t), false)
		}
		if s.isNil(x) {
			return mk(zero(t), false)
		}
		if isIface(t) && x.T != nil && isIface(x.T) && types.Implements(x.T, under(t).(*types.Interface)) {
			return mk(x, true)
		}
		if s.truth(mkTerm("is<"+typeKey(t)+">", tBool, x)) {
			// exclude other concrete types
			if !isIface(t) {
				for _, f := range s.facts.b {
					if u, ok := f.t.(*Term); ok && f.v && strings.HasPrefix(u.Op, "is<") && u.Op != "is<"+typeKey(t)+">" && len(u.Args) == 1 && rawKey(u.Args[0]) == rawKey(x) {
						if !strings.HasPrefix(u.Op, "is<interface") && !s.eng.Prog.ifaceKey[u.Op] {
							s.prune()
						}
					}
				}
			} else {
				s.eng.Prog.mu.Lock()
				s.eng.Prog.ifaceKey["is<"+typeKey(t)+">"] = true
				s.eng.Prog.mu.Unlock()
				return mk(x.nonNil(), true)
			}
			r := mkTerm("as<"+typeKey(t)+">", t, x)
			return mk(r, true)
		}
		return mk(zero(t), false)
	}
	s.fail("type assertion on %T", v)
	return nil
}

// ---- calls ----

func (e *Engine) call(s *State, c *ssa.CallCommon, dst ssa.Value, mode int) (Val, bool) {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = s.get(a)
	}
	if c.IsInvoke() {
		return e.invoke(s, c.Method, s.get(c.Value), args, dst, mode)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(s, b.Name(), args, c), false
	}
	return e.callVal(s, s.get(c.Value), args, dst, mode)
}

func (e *Engine) invoke(s *State, m *types.Func, recv Val, args []Val, dst ssa.Value, mode int) (Val, bool) {
	recv = s.norm(recv)
	if c, ok := recv.(Choice); ok {
		recv = c.V[s.choose(len(c.V))]
	}
	switch r := recv.(type) {
	case Nil:
		s.goPanic("nil pointer dereference (method call on nil interface)")
	case RT:
		return e.reflectType(s, m.Name(), r, args), false
	case Iface:
		fn := e.Prog.SSA.LookupMethod(r.Dyn, m.Pkg(), m.Name())
		if fn == nil {
			s.fail("no method %s on %s", m.Name(), typeKey(r.Dyn))
		}
		return e.callFn(s, fn, nil, append([]Val{r.V}, args...), dst, mode)
	case *Term:
		if s.isNil(r) {
			s.goPanic("nil pointer dereference (method call on nil interface)")
		}
		return e.opaqueInvoke(s, m, r, args), false
	}
	s.fail("invoke %s on %T", m.Name(), recv)
	return nil, false
}

func (e *Engine) callVal(s *State, fv Val, args []Val, dst ssa.Value, mode int) (Val, bool) {
	fv = s.norm(fv)
	if c, ok := fv.(Choice); ok {
		fv = c.V[s.choose(len(c.V))]
	}
	switch f := fv.(type) {
	case Func:
		if f.Fn != nil {
			return e.callFn(s, f.Fn, f.Binds, args, dst, mode)
		}
		if strings.HasPrefix(f.Name, "builtin.") {
			return e.builtin(s, f.Name[8:], args, nil), false
		}
		s.fail("call of %s", f.Name)
	case Nil:
		s.goPanic("nil function call")
	case *Term:
		if s.isNil(f) {
			s.goPanic("nil function call")
		}
		sig, ok := under(f.T).(*types.Signature)
		if !ok {
			s.fail("call of opaque %s", typeKey(f.T))
		}
		return s.opaqueResult("call", sig, append([]Val{f}, args...)), false
	}
	s.fail("call of %T", fv)
	return nil, false
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

var sorters = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "slices.Sort": true, "slices.SortFunc": true,
	"slices.SortStableFunc": true, "sort.Slice": true, "sort.SliceStable": true}

// sortsSummary leaves a list of unknown length as it is: it stands for the
// lists whose order is that one already.
func (s *State) sortsSummary(v Val) bool {
	v = s.norm(v)
	if i, ok := v.(Iface); ok {
		v = s.norm(i.V)
	}
	sl, ok := v.(Slice)
	if !ok || s.heap[sl.Obj] == nil {
		return false
	}
	a, ok := s.heap[sl.Obj].V.(Arr)
	if !ok {
		return false
	}
	sum, definite := false, 0
	for i := sl.Lo; i < sl.Hi && i < len(a.E); i++ {
		if i < len(a.Sum) && a.Sum[i] {
			sum = true
		} else {
			definite++
		}
	}
	if sum && definite > 1 && s.approx == "" {
		s.approx = "the order of a sorted list of unknown length is not known"
	}
	return sum
}

func (e *Engine) callFn(s *State, fn *ssa.Function, binds, args []Val, dst ssa.Value, mode int) (Val, bool) {
	if fn.Synthetic == "package initializer" {
		return nil, false
	}
	name := fnName(fn)
	if m, ok := models[name]; ok {
		ctx := &callCtx{e: e, s: s, fn: fn, args: args, dst: dst, mode: mode, name: name}
		v := m(ctx)
		return v, ctx.pushed
	}
	if sorters[name] && s.sortsSummary(args[0]) {
		return nil, false
	}
	if r, ok := e.Prog.redirect[name]; ok {
		fn = r
	}
	if len(fn.Blocks) > 0 && (e.Prog.interpretable(fn)) {
		e.push(s, fn, args, binds, mode, dst)
		return nil, true
	}
	return e.external(s, fn, name, args), false
}

func (e *Engine) builtin(s *State, name string, args []Val, c *ssa.CallCommon) Val {
	switch name {
	case "len", "cap":
		v := s.norm(args[0])
		var t types.Type
		if c != nil {
			t = c.Args[0].Type()
		}
		if t != nil {
			switch u := under(t).(type) {
			case *types.Basic:
				if l := s.strLine(v); l != "" {
					return Pos{l, len(s.lines[l])}
				}
				return s.strLen(v)
			case *types.Map:
				return s.mapLen(v)
			case *types.Array:
				return mkInt(int(u.Len()))
			case *types.Pointer:
				return mkInt(int(under(u.Elem()).(*types.Array).Len()))
			}
		}
		if sl, ok := v.(Slice); ok && name == "cap" {
			if a, ok := s.heap[sl.Obj].V.(Arr); ok && sl.Line == "" {
				return mkInt(len(a.E) - sl.Lo)
			}
		}
		return s.sliceLen(v)
	case "append":
		base := s.norm(args[0])
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		if isString(c.Args[1].Type()) || isByteStr(s, base) || isByteStr(s, args[1]) {
			x := s.bytesToString(base)
			y := args[1]
			if !isString(c.Args[1].Type()) {
				y = s.bytesToString(y)
			}
			return s.stringToBytes(mkCat(x, y), et)
		}
		add, sums, _ := s.points(s.norm(args[1]))
		return s.appendVals(base, append([]Val(nil), add...), append([]bool(nil), sums...), et)
	case "copy":
		return s.copySlice(s.norm(args[0]), s.norm(args[1]), c)
	case "delete":
		s.mapDelete(args[0], args[1])
		return nil
	case "print", "println":
		return nil
	case "recover":
		// valid only when called directly by a deferred function
		f := s.top()
		if (f.mode == retUnwind) && len(s.frames) >= 2 {
			k := len(s.frames) - 2
			c := s.frames[k]
			if c.panicking != nil && !c.recovered {
				v := c.panicking
				n := c.clone()
				n.recovered = true
				s.frames[k] = n
				return v
			}
		}
		return Nil{tAny}
	case "ssa:wrapnilchk":
		if s.isNil(s.norm(args[0])) {
			s.goPanic("nil pointer dereference (value method called through nil pointer)")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			if s.cmpNum(op, a, r) {
				r = a
			}
		}
		return r
	case "clear":
		if m, ok := s.norm(args[0]).(Map); ok {
			s.access(m.Obj, "", true)
			_, md, _ := s.mapData(m)
			s.setObj(m.Obj, MapData{nil, md.KT, md.VT})
			return nil
		}
	}
	s.fail("builtin %s", name)
	return nil
}

func isByteStr(s *State, v Val) bool {
	if sl, ok := v.(Slice); ok {
		if o := s.heap[sl.Obj]; o != nil {
			_, ok := o.V.(Ext)
			return ok
		}
	}
	return false
}

func (s *State) copySlice(dst, src Val, c *ssa.CallCommon) Val {
	if _, ok := dst.(Nil); ok {
		return mkInt(0)
	}
	if _, ok := src.(Nil); ok {
		return mkInt(0)
	}
	d, ok := dst.(Slice)
	if !ok {
		s.fail("copy to %T", dst)
	}
	if isByteStr(s, d) {
		s.fail("copy into byte string")
	}
	if _, ok := src.(Slice); !ok {
		s.fail("copy from %T", src)
	}
	es, sums, _ := s.points(src)
	sl := src.(Slice)
	a := s.heap[d.Obj].V.(Arr)
	n := d.Hi - d.Lo
	if len(es) < n {
		n = len(es)
	}
	s.access(d.Obj, "", true)
	if o := s.heap[d.Obj]; o.Frozen != "" {
		s.eng.frozenWrite(s, o, "[]")
	}
	if d.Line != sl.Line {
		s.fail("copy between differently summarised lists")
	}
	ne := append([]Val(nil), a.E...)
	copy(ne[d.Lo:], es[:n])
	_ = sums
	s.setObj(d.Obj, Arr{ne, a.Sum, a.Line, a.ET})
	if d.Line != "" {
		return Pos{d.Line, n}
	}
	return mkInt(n)
}

// report records a violation.
func (e *Engine) report(s *State, kind, clause, msg string) {
	key := kind + "|" + clause + "|" + s.lastRet
	if s.approx != "" && kind != "undecided" {
		kind, msg = "undecided", "not decided ("+s.approx+"): "+clause
		clause = "undecided: " + msg
	}
	if _, ok := e.Violations[key]; ok && kind != "undecided" {
		return
	}
	if kind != "undecided" && s.impossible() {
		return
	}
	if kind != "undecided" && s.partialFacts() && !s.witness() {
		msg = "no concrete values found for a path through functions known only in part: " + clause
		kind, clause = "undecided", "undecided: "+msg
	}
	if kind == "undecided" {
		key = kind + "|" + msg
	}
	if _, ok := e.Violations[key]; ok {
		return
	}
	v := &Violation{Entry: e.Entry, Clause: clause, Kind: kind, Pos: e.Prog.posStr(s.curPos()), Key: key}
	v.Where = s.lastRet
	var path []string
	for t := s.trace; t != nil && len(path) < 60; t = t.up {
		if t.fn != nil && e.Prog.inRepo(t.fn) || len(path) < 4 {
			fn := ""
			if t.fn != nil {
				fn = t.fn.RelString(nil)
			}
			path = append(path, e.Prog.posStr(t.pos)+" "+fn+": "+t.text)
		}
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	v.Path = path
	if v.Where == "" || kind == "panic" || kind == "undecided" {
		// innermost repository frame or trace node
		for i := len(s.frames) - 1; i >= 0; i-- {
			if e.Prog.inRepo(s.frames[i].fn) {
				sub := &State{frames: s.frames[:i+1]}
				v.Where = e.Prog.posStr(sub.curPos()) + " (" + s.frames[i].fn.RelString(nil) + ")"
				break
			}
		}
		if kind == "panic" {
			for t := s.trace; t != nil; t = t.up {
				if strings.HasPrefix(t.text, "panic") && t.fn != nil {
					v.Where = e.Prog.posStr(t.pos) + " (" + t.fn.RelString(nil) + ")"
					break
				}
			}
		}
	}
	e.Violations[key] = v
}

func (e *Engine) frozenWrite(s *State, o *Obj, path string) {
	label := o.Frozen
	e.report(s, "write", label+": write to "+o.Name+path, "")
	s.prune()
}

func (e *Engine) externalWrite(s *State, p *Term) {
	s.setMon("extwrite", 1)
}

func (e *Engine) permLeaf(op string) bool {
	return strings.HasPrefix(op, "var:") || strings.HasPrefix(op, "in:")
}

type lockEdge struct {
	share    int
	from, to string
	path     []string
	where    string
}

// lockEdge records that one lock is taken while another is held.
func (e *Engine) lockEdge(s *State, h held, to string) {
	if e.lockEdges == nil {
		e.lockEdges = map[string]lockEdge{}
	}
	k := fmt.Sprintf("%d|%s|%s", s.shareID, h.key, to)
	if _, ok := e.lockEdges[k]; ok {
		return
	}
	at := e.Prog.posStr(s.curPos()) + " " + s.top().fn.RelString(nil)
	e.lockEdges[k] = lockEdge{s.shareID, h.key, to,
		[]string{e.Prog.posStr(h.pos) + ": lock " + h.key + " taken", at + ": lock " + to + " taken while it is held"}, at}
}

func (e *Engine) logAccess(s *State, obj int, path string, w bool) {
	f := s.top()
	if !e.Prog.inRepo(f.fn) {
		return
	}
	var ls []string
	for _, h := range s.locks {
		m := "r"
		if h.w {
			m = "w"
		}
		ls = append(ls, fmt.Sprintf("%d%s:%s", h.obj, h.path, m))
	}
	sort.Strings(ls)
	acq := map[string]bool{}
	for k := range s.mon {
		if strings.HasPrefix(k, "acq:") {
			acq[k[4:]] = true
		}
	}
	key := fmt.Sprintf("%d%s|%v|%s|%s|%s", obj, path, w, strings.Join(ls, ","), s.role, strings.Join(sortedKeys(acq), ","))
	e.Accesses++
	if _, ok := e.accesses[key]; ok {
		return
	}
	r := &accessRec{obj: fmt.Sprintf("%d", obj), path: path, w: w, locks: map[string]bool{}, acq: acq, role: s.role, pos: e.Prog.posStr(s.curPos()), fn: f.fn.RelString(nil)}
	for _, l := range ls {
		r.locks[l] = true
	}
	name := ""
	if o := s.heap[obj]; o != nil {
		name = o.Name
	}
	r.name = name
	e.accesses[key] = r
}
