package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is an immutable heap cell; a write replaces it.
type Obj struct {
	T      types.Type
	V      Val
	Name   string // allocation site or global
	Frozen string // purity label
}

type bfact struct {
	t Val
	v bool
}

// bound of an interval; nil r is infinite
type bound struct {
	r    *big.Rat
	open bool
}

type ifact struct {
	a, b   Val // a - b in [lo,hi]; b may be nil
	lo, hi bound
}

type rfact struct {
	t  *Term
	to Val
}

// Facts is the relational part of an abstract state.
type Facts struct {
	b   map[string]bfact
	itv map[string]ifact
	rep map[string]rfact
}

func cpm[T any](m map[string]T) map[string]T {
	n := make(map[string]T, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

type traceNode struct {
	pos  token.Pos
	fn   *ssa.Function
	text string
	up   *traceNode
	n    int
}

type deferred struct {
	fn   Val
	args []Val
	inv  *ssa.CallCommon
	pos  token.Pos
}

const (
	retNormal = iota
	retDefer
	retUnwind
	retReflect // wrap results into []reflect.Value
	retInit
)

// Frame is an activation record.
type Frame struct {
	fn        *ssa.Function
	info      *fnInfo
	env       []Val
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []deferred
	mode      int
	dst       ssa.Value // register of the caller receiving the result
	panicking Val
	recovered bool
	rtypes    *types.Tuple
}

type held struct {
	key  string
	obj  int
	path string
	w    bool
	pos  token.Pos
}

// State is one abstract configuration.
type State struct {
	heap    map[int]*Obj
	hOwn    bool
	facts   Facts
	fOwn    bool
	frames  []*Frame
	locks   []held
	lines   map[string]string
	mon     map[string]int // ghost counters / flags
	monOwn  bool
	next    int
	inputs  int
	trace   *traceNode
	shared  int // >0: accesses are logged; object ids below are shared
	role    string
	shareID int
	gen     string
	lastRet string
	dec     []int
	decPos  int
	eng     *Engine
	// approx: an imprecise step (one that may combine facts no single run
	// combines) was taken; what is found from here on proves nothing.
	approx string
	node   int32 // the memoised state this one follows
	// partial: the path depends on functions known only in part; hist holds
	// the facts dropped since
	partial bool
	hist    *oldFact
}

func (s *State) taint(why string) {
	if s.approx == "" {
		s.approx = why
	}
}

func (s *State) clone() *State {
	n := *s
	s.hOwn, s.fOwn, s.monOwn = false, false, false
	n.hOwn, n.fOwn, n.monOwn = false, false, false
	n.frames = append([]*Frame(nil), s.frames...)
	if k := len(n.frames); k > 0 {
		n.frames[k-1] = n.frames[k-1].clone()
	}
	n.locks = s.locks[:len(s.locks):len(s.locks)]
	return &n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = append([]Val(nil), f.env...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) ownHeap() {
	if !s.hOwn {
		h := make(map[int]*Obj, len(s.heap)+8)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap = h
		s.hOwn = true
	}
}

func (s *State) ownFacts() {
	if !s.fOwn {
		s.facts = Facts{cpm(s.facts.b), cpm(s.facts.itv), cpm(s.facts.rep)}
		s.fOwn = true
	}
}

func (s *State) setMon(k string, v int) {
	if !s.monOwn {
		s.mon = cpm(s.mon)
		s.monOwn = true
	}
	if v == 0 {
		delete(s.mon, k)
	} else {
		s.mon[k] = v
	}
}

func (s *State) alloc(t types.Type, v Val, name string) int {
	s.ownHeap()
	s.next++
	s.heap[s.next] = &Obj{T: t, V: v, Name: name}
	return s.next
}

type prunedPath struct{}

type undecided struct {
	msg string
	pos token.Pos
}

func (s *State) fail(format string, a ...any) {
	panic(undecided{fmt.Sprintf(format, a...), s.curPos()})
}

func (s *State) prune() { panic(prunedPath{}) }

func (s *State) curPos() token.Pos {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.block == nil {
			continue
		}
		pc := f.pc
		if pc >= len(f.block.Instrs) {
			pc = len(f.block.Instrs) - 1
		}
		for j := pc; j >= 0; j-- {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				return p
			}
		}
		for j := pc; j < len(f.block.Instrs); j++ {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				return p
			}
		}
		return f.fn.Pos()
	}
	return token.NoPos
}

// choose makes a nondeterministic choice among n alternatives.
func (s *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if s.decPos < len(s.dec) {
		c := s.dec[s.decPos]
		s.decPos++
		return c
	}
	for k := n - 1; k >= 1; k-- {
		alt := append(append([]int(nil), s.dec[:s.decPos]...), k)
		s.eng.alts = append(s.eng.alts, alt)
	}
	s.dec = append(s.dec[:s.decPos:s.decPos], 0)
	s.decPos++
	return 0
}

func (s *State) note(text string) {
	var fn *ssa.Function
	if len(s.frames) > 0 {
		fn = s.top().fn
	}
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{s.curPos(), fn, text, s.trace, n}
}

// taintSum: an earlier loop already decided facts about the elements that are
// about to be visited again.
func (s *State) taintSum() {
	for _, f := range s.facts.b {
		if isSum(f.t) {
			s.taint("second visit to many elements")
		}
	}
}

// ---- heap access ----

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	parts := strings.Split(p[1:], "/")
	r := make([]int, len(parts))
	for i, x := range parts {
		r[i], _ = strconv.Atoi(x)
	}
	return r
}

func (s *State) getPath(v Val, path []int) Val {
	for _, i := range path {
		switch x := v.(type) {
		case Struct:
			v = x.F[i]
		case Arr:
			if i >= len(x.E) {
				s.fail("array point %d out of range", i)
			}
			v = x.E[i]
		case Choice:
			v = x.V[s.choose(len(x.V))]
			return s.getPath(v, path)
		case *Term:
			// component of an opaque aggregate
			v = s.component(x, i)
		default:
			s.fail("path into %T", v)
		}
	}
	if c, ok := v.(Choice); ok {
		v = c.V[s.choose(len(c.V))]
	}
	return v
}

func (s *State) component(x *Term, i int) Val {
	switch u := under(x.T).(type) {
	case *types.Struct:
		return mkTerm("."+u.Field(i).Name(), u.Field(i).Type(), x)
	case *types.Array:
		return mkTerm("["+strconv.Itoa(i)+"]", u.Elem(), x)
	}
	s.fail("component of opaque %s", typeKey(x.T))
	return nil
}

func (s *State) setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case Struct:
		f := append([]Val(nil), x.F...)
		f[i] = s.setPath(f[i], path[1:], nv)
		return Struct{f, x.T}
	case Arr:
		e := append([]Val(nil), x.E...)
		if i >= len(e) {
			s.fail("array point %d out of range", i)
		}
		w := s.setPath(e[i], path[1:], nv)
		if x.Sum != nil && x.Sum[i] {
			if len(path) == 1 && isFresh(e[i]) {
				// first store into a cell group of a list being filled
				// position by position: taken to cover the group
			} else if rawKey(e[i]) != rawKey(w) {
				w = mkChoice(e[i], w)
				s.taint("store into one of many elements")
			}
		}
		e[i] = w
		return Arr{e, x.Sum, x.Line, x.ET}
	case *Term:
		// explode an opaque struct
		if u, ok := under(x.T).(*types.Struct); ok {
			f := make([]Val, u.NumFields())
			for j := range f {
				f[j] = s.component(x, j)
			}
			f[i] = s.setPath(f[i], path[1:], nv)
			return Struct{f, x.T}
		}
	case Choice:
		return s.setPath(x.V[s.choose(len(x.V))], path, nv)
	}
	s.fail("store path into %T", v)
	return nil
}

// isFresh: the zero value a new list element starts with.
func isFresh(v Val) bool {
	switch x := v.(type) {
	case Const:
		switch x.V.Kind() {
		case constant.String:
			return constant.StringVal(x.V) == ""
		case constant.Bool:
			return !constant.BoolVal(x.V)
		}
		return constant.Sign(x.V) == 0
	case Nil:
		return true
	case RV:
		return !x.Valid
	case Struct:
		for _, f := range x.F {
			if !isFresh(f) {
				return false
			}
		}
		return true
	}
	return false
}

func mkChoice(vs ...Val) Val {
	var out []Val
	seen := map[string]bool{}
	var add func(v Val)
	add = func(v Val) {
		if c, ok := v.(Choice); ok {
			for _, x := range c.V {
				add(x)
			}
			return
		}
		k := rawKey(v)
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	for _, v := range vs {
		add(v)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return rawKey(out[i]) < rawKey(out[j]) })
	return Choice{out}
}

func (s *State) load(p Ptr) Val {
	o := s.heap[p.Obj]
	if o == nil {
		s.fail("load of unknown object %d", p.Obj)
	}
	s.access(p.Obj, p.Path, false)
	return s.getPath(o.V, splitPath(p.Path))
}

func (s *State) store(p Ptr, v Val) {
	o := s.heap[p.Obj]
	if o == nil {
		s.fail("store to unknown object %d", p.Obj)
	}
	s.access(p.Obj, p.Path, true)
	if o.Frozen != "" {
		s.eng.frozenWrite(s, o, p.Path)
	}
	s.ownHeap()
	n := *o
	n.V = s.setPath(o.V, splitPath(p.Path), v)
	s.heap[p.Obj] = &n
}

func (s *State) setObj(id int, v Val) {
	o := s.heap[id]
	s.ownHeap()
	n := *o
	n.V = v
	s.heap[id] = &n
}

// access records a memory access for the lockset analysis.
func (s *State) access(obj int, path string, w bool) {
	if s.shared == 0 || obj > s.shared {
		return
	}
	s.eng.logAccess(s, obj, path, w)
}

// ---- reachability, canonical keys ----

type leafSet struct {
	objs  map[int]bool
	leafs map[string]bool
	st    *State
	q     []int
}

func (l *leafSet) obj(id int) {
	if !l.objs[id] {
		l.objs[id] = true
		l.q = append(l.q, id)
	}
}

func (l *leafSet) val(v Val) {
	switch v := v.(type) {
	case *Term:
		if len(v.Args) == 0 {
			l.leafs[v.Op] = true
			// an equality class keeps its representative alive
			return
		}
		for _, a := range v.Args {
			l.val(a)
		}
	case Ptr:
		l.obj(v.Obj)
	case Slice:
		l.obj(v.Obj)
	case Map:
		l.obj(v.Obj)
	case Iter:
		l.obj(v.Obj)
	case Struct:
		for _, a := range v.F {
			l.val(a)
		}
	case Arr:
		for _, a := range v.E {
			l.val(a)
		}
	case Iface:
		l.val(v.V)
	case Func:
		for _, a := range v.Binds {
			l.val(a)
		}
	case Tuple:
		for _, a := range v.V {
			l.val(a)
		}
	case Cat:
		for _, a := range v.P {
			l.val(a)
		}
	case Choice:
		for _, a := range v.V {
			l.val(a)
		}
	case Ext:
		if v.Data != nil {
			l.val(v.Data)
		}
	case RV:
		if v.V != nil {
			l.val(v.V)
		}
		if v.Addr != nil {
			l.obj(v.Addr.Obj)
		}
	case MapData:
		for _, e := range v.E {
			l.val(e.K)
			l.val(e.V)
		}
	case IterData:
		if v.M != nil {
			l.val(v.M)
		}
		for _, a := range v.Str {
			l.val(a)
		}
		for _, a := range v.Seen {
			l.val(a)
		}
	}
}

func (l *leafSet) drain() {
	for len(l.q) > 0 {
		id := l.q[len(l.q)-1]
		l.q = l.q[:len(l.q)-1]
		if o := l.st.heap[id]; o != nil {
			l.val(o.V)
		}
	}
}

func (s *State) roots() *leafSet {
	l := &leafSet{objs: map[int]bool{}, leafs: map[string]bool{}, st: s}
	for _, f := range s.frames {
		for _, v := range f.env {
			if v != nil {
				l.val(v)
			}
		}
		for _, d := range f.defers {
			if d.fn != nil {
				l.val(d.fn)
			}
			for _, a := range d.args {
				l.val(a)
			}
		}
		if f.panicking != nil {
			l.val(f.panicking)
		}
	}
	for _, h := range s.locks {
		l.obj(h.obj)
	}
	for _, g := range s.eng.globalIDs {
		l.obj(g)
	}
	l.drain()
	return l
}

func (s *State) mentions(v Val, l *leafSet) bool {
	// reports whether all leaves of v are reachable
	ok := true
	var walk func(v Val)
	walk = func(v Val) {
		switch v := v.(type) {
		case *Term:
			if len(v.Args) == 0 && !l.leafs[v.Op] && !s.eng.permLeaf(v.Op) {
				ok = false
			}
			for _, a := range v.Args {
				walk(a)
			}
		case Ptr:
			if !l.objs[v.Obj] {
				ok = false
			}
		case Slice:
			if !l.objs[v.Obj] {
				ok = false
			}
		case Map:
			if !l.objs[v.Obj] {
				ok = false
			}
		case Cat:
			for _, a := range v.P {
				walk(a)
			}
		case Iface:
			walk(v.V)
		case Struct:
			for _, a := range v.F {
				walk(a)
			}
		}
	}
	if v != nil {
		walk(v)
	}
	return ok
}

// gc drops unreachable objects and facts about unreachable values.
func (s *State) gc() {
	l := s.roots()
	// representatives keep their classes' leaves alive
	for changed := true; changed; {
		changed = false
		for _, r := range s.facts.rep {
			if len(r.t.Args) == 0 && l.leafs[r.t.Op] {
				n := len(l.leafs) + len(l.objs)
				l.val(r.to)
				l.drain()
				if len(l.leafs)+len(l.objs) != n {
					changed = true
				}
			}
		}
	}
	s.ownHeap()
	for id := range s.heap {
		if !l.objs[id] {
			delete(s.heap, id)
		}
	}
	s.partial = s.partialFacts()
	s.ownFacts()
	var drop []string
	for k, f := range s.facts.b {
		if !s.mentions(f.t, l) {
			drop = append(drop, k)
		}
	}
	sort.Strings(drop)
	for _, k := range drop {
		if f := s.facts.b[k]; s.partial && !isSum(f.t) {
			s.hist = &oldFact{b: f, up: s.hist}
		}
		delete(s.facts.b, k)
	}
	drop = drop[:0]
	for k, f := range s.facts.itv {
		if !s.mentions(f.a, l) || !s.mentions(f.b, l) {
			drop = append(drop, k)
		}
	}
	sort.Strings(drop)
	for _, k := range drop {
		if f := s.facts.itv[k]; !isSum(f.a) && (f.b == nil || !isSum(f.b)) {
			s.hist = &oldFact{i: f, up: s.hist}
		}
		delete(s.facts.itv, k)
	}
	drop = drop[:0]
	for k, f := range s.facts.rep {
		if !s.mentions(f.t, l) {
			drop = append(drop, k)
		}
	}
	sort.Strings(drop)
	for _, k := range drop {
		if f := s.facts.rep[k]; s.partial || f.t.T != nil && isNumeric(f.t.T) && !isSum(f.t) && !isSum(f.to) {
			s.hist = &oldFact{r: s.facts.rep[k], up: s.hist}
		}
		delete(s.facts.rep, k)
	}
}

// key is the canonical key of the state (call gc first).
func (s *State) key() string {
	k := &keyer{ren: map[int]int{}}
	sb := &k.sb
	for _, f := range s.frames {
		fmt.Fprintf(sb, "F%d.%d.%d.%d", f.info.id, blockIdx(f.block), f.pc, f.mode)
		if f.prevMatters() {
			fmt.Fprintf(sb, "<%d", blockIdx(f.prev))
		}
		if f.panicking != nil {
			sb.WriteString("!")
			k.val(f.panicking)
		}
		if f.recovered {
			sb.WriteString("R")
		}
		sb.WriteByte('[')
		for i, v := range f.env {
			if v != nil {
				fmt.Fprintf(sb, "%d=", i)
				k.val(v)
				sb.WriteByte(';')
			}
		}
		sb.WriteByte(']')
		for _, d := range f.defers {
			sb.WriteString("D")
			if d.fn != nil {
				k.val(d.fn)
			}
			k.list(d.args)
		}
	}
	sb.WriteString("|L")
	for _, h := range s.locks {
		fmt.Fprintf(sb, "%s%s%v;", k.obj(h.obj), h.path, h.w)
	}
	sb.WriteString("|M")
	for _, m := range sortedKeys(s.mon) {
		fmt.Fprintf(sb, "%s=%d;", m, s.mon[m])
	}
	sb.WriteString("|N")
	for _, m := range sortedKeys(s.lines) {
		fmt.Fprintf(sb, "%s=%s;", m, s.lines[m])
	}
	fmt.Fprintf(sb, "|S%v%s.%d.%s.%v.%v|G", s.shared > 0, s.role, s.shareID, s.gen, s.approx != "", s.partial)
	for _, g := range s.eng.globalIDs {
		k.obj(g)
	}
	for i := 0; i < len(k.q); i++ {
		id := k.q[i]
		o := s.heap[id]
		fmt.Fprintf(sb, "\n%d", k.ren[id])
		if o == nil {
			continue
		}
		if o.Frozen != "" {
			sb.WriteByte('f')
		}
		if s.shared > 0 && id <= s.shared {
			sb.WriteByte('s')
		}
		sb.WriteByte(':')
		k.val(o.V)
	}
	// facts, with canonical object numbers
	var fs []string
	main := sb.String()
	for _, f := range s.facts.b {
		k.sb = strings.Builder{}
		k.val(f.t)
		fs = append(fs, k.sb.String()+"="+strconv.FormatBool(f.v))
	}
	for _, f := range s.facts.itv {
		k.sb = strings.Builder{}
		k.val(f.a)
		k.sb.WriteByte('-')
		if f.b != nil {
			k.val(f.b)
		}
		fs = append(fs, k.sb.String()+" in "+f.lo.String()+","+f.hi.String())
	}
	for _, f := range s.facts.rep {
		k.sb = strings.Builder{}
		k.val(f.t)
		k.sb.WriteString("->")
		k.val(f.to)
		fs = append(fs, k.sb.String())
	}
	sort.Strings(fs)
	return main + "\n" + strings.Join(fs, "\n")
}

func blockIdx(b *ssa.BasicBlock) int {
	if b == nil {
		return -1
	}
	return b.Index
}

// prevMatters reports whether pending phis depend on the incoming edge.
func (f *Frame) prevMatters() bool {
	if f.pc != 0 || f.block == nil || len(f.block.Instrs) == 0 {
		return false
	}
	_, ok := f.block.Instrs[0].(*ssa.Phi)
	return ok
}

func (b bound) String() string {
	if b.r == nil {
		return "inf"
	}
	if b.open {
		return b.r.RatString() + "o"
	}
	return b.r.RatString()
}

var _ = constant.MakeInt64
