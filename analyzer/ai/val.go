// Package ai is an abstract interpreter for go/ssa programs.
//
// It computes, by worklist fixpoint, an over-approximation of the abstract
// states reachable in a program made of the repository's own packages plus a
// small "specification" package (never executed).  See /verif/DESIGN.md.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. All values are immutable.
type Val interface{ isVal() }

type (
	// Const is a known basic value.
	Const struct {
		V constant.Value
		T types.Type
	}
	// Nil is the nil value of a pointer, slice, map, func or interface type.
	Nil struct{ T types.Type }
	// Term is an uninterpreted value: an input or a pure operation on values.
	Term struct {
		Op     string
		Args   []Val
		T      types.Type
		NonNil bool
		size   int
		Sum    bool // denotes many concrete values
	}
	// Ptr addresses a component of a heap object.
	Ptr struct {
		Obj  int
		Path string // "/3/1": field or element numbers
	}
	Struct struct {
		F []Val
		T types.Type
	}
	// Arr is an array whose points may be summaries (one or more elements).
	Arr struct {
		E    []Val
		Sum  []bool
		Line string
		ET   types.Type
	}
	Iface struct {
		Dyn types.Type
		V   Val
	}
	Slice struct {
		Obj    int
		Lo, Hi int // points
		ET     types.Type
		Line   string // index line of positions relative to Lo
	}
	Map  struct{ Obj int }
	Func struct {
		Fn    *ssa.Function
		Binds []Val
		Name  string // modelled function
	}
	Tuple struct{ V []Val }
	Cat   struct{ P []Val } // string concatenation
	// Pos is a position on an abstract index line.
	Pos struct {
		Line string
		Pt   int
	}
	Choice struct{ V []Val } // any one of
	Ext    struct {
		Kind string
		Data Val
	}
	Iter struct{ Obj int }
	// Rng is an unspecified integer in [Lo,Hi] (Hi<0: unbounded).
	Rng struct{ Lo, Hi int }
	// MapData is the content of a map object.
	MapData struct {
		E      []Entry
		KT, VT types.Type
	}
	// IterData is the content of a range iterator object.
	IterData struct {
		M       Val
		Seen    []Val // keys already produced
		SumSeen []Val
		First   []Val // keys present when the iteration started
		Str     []Val // remaining parts of a string
		Off     int
		Dir     int  // 1, 2: large map visited in one fixed order
		Open    bool // some of an unknown text was visited
	}
	// RV is a reflect.Value. The zero RV is the invalid Value.
	RV struct {
		Valid bool
		T     types.Type // static slot type; nil when opaque
		V     Val        // content when not addressable
		Addr  *Ptr       // storage when addressable
		Opq   *Term      // opaque content (an interface term)
		RO    bool       // obtained through an unexported field
		Embed bool       // ... that is embedded
	}
	// RT is a reflect.Type.
	RT struct {
		T   types.Type
		Opq Val
	}
)

// Entry is a map entry; Sum stands for one or more entries.
type Entry struct {
	K, V Val
	Sum  bool
	All  bool // every value of the class of K is a key
}

func (Rng) isVal()      {}
func (MapData) isVal()  {}
func (IterData) isVal() {}
func (Const) isVal()    {}
func (Nil) isVal()      {}
func (*Term) isVal()    {}
func (Ptr) isVal()      {}
func (Struct) isVal()   {}
func (Arr) isVal()      {}
func (Iface) isVal()    {}
func (Slice) isVal()    {}
func (Map) isVal()      {}
func (Func) isVal()     {}
func (Tuple) isVal()    {}
func (Cat) isVal()      {}
func (Pos) isVal()      {}
func (Choice) isVal()   {}
func (Ext) isVal()      {}
func (Iter) isVal()     {}
func (RV) isVal()       {}
func (RT) isVal()       {}

var (
	tBool    = types.Typ[types.Bool]
	tInt     = types.Typ[types.Int]
	tString  = types.Typ[types.String]
	tFloat   = types.Typ[types.Float64]
	tError   = types.Universe.Lookup("error").Type()
	tAny     = types.NewInterfaceType(nil, nil)
	tByte    = types.Universe.Lookup("byte").Type()
	tByteSli = types.NewSlice(tByte)
)

func mkBool(b bool) Const { return Const{constant.MakeBool(b), tBool} }
func mkInt(i int) Const   { return Const{constant.MakeInt64(int64(i)), tInt} }
func mkStr(s string) Const {
	return Const{constant.MakeString(s), tString}
}
func mkStrT(s string, t types.Type) Const { return Const{constant.MakeString(s), t} }

func isSum(v Val) bool {
	switch v := v.(type) {
	case *Term:
		return v.Sum
	case Struct:
		for _, f := range v.F {
			if isSum(f) {
				return true
			}
		}
	case Iface:
		return isSum(v.V)
	case Tuple:
		for _, f := range v.V {
			if isSum(f) {
				return true
			}
		}
	case Cat:
		for _, f := range v.P {
			if isSum(f) {
				return true
			}
		}
	case Choice:
		for _, f := range v.V {
			if isSum(f) {
				return true
			}
		}
	case RV:
		if v.Opq != nil && v.Opq.Sum {
			return true
		}
		if v.V != nil {
			return isSum(v.V)
		}
	case RT:
		if v.Opq != nil {
			return isSum(v.Opq)
		}
	}
	return false
}

func mkTerm(op string, t types.Type, args ...Val) *Term {
	tm := &Term{Op: op, Args: args, T: t, size: 1}
	for _, a := range args {
		if isSum(a) {
			tm.Sum = true
		}
		if x, ok := a.(*Term); ok {
			tm.size += x.size
			if tm.size > 5000 {
				panic(undecided{"a value became too complicated to follow", token.NoPos})
			}
		}
	}
	return tm
}

func (t *Term) nonNil() *Term {
	c := *t
	c.NonNil = true
	return &c
}

// ---- keys ----

type keyer struct {
	ren    map[int]int // nil: raw keys
	q      []int
	sb     strings.Builder
	hasObj bool
}

func (k *keyer) obj(id int) string {
	k.hasObj = true
	if k.ren == nil {
		return "#" + strconv.Itoa(id)
	}
	n, ok := k.ren[id]
	if !ok {
		n = len(k.ren)
		k.ren[id] = n
		k.q = append(k.q, id)
	}
	return "#" + strconv.Itoa(n)
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (k *keyer) list(vs []Val) {
	for i, v := range vs {
		if i > 0 {
			k.sb.WriteByte(',')
		}
		k.val(v)
	}
}

func (k *keyer) set(vs []Val) {
	cp := append([]Val(nil), vs...)
	sort.Slice(cp, func(i, j int) bool { return rawKey(cp[i]) < rawKey(cp[j]) })
	k.list(cp)
}

func (k *keyer) val(v Val) {
	sb := &k.sb
	switch v := v.(type) {
	case nil:
		sb.WriteString("_")
	case Const:
		sb.WriteString(v.V.ExactString())
	case Nil:
		sb.WriteString("nil")
	case *Term:
		sb.WriteString(v.Op)
		if v.Sum {
			sb.WriteByte('*')
		}
		if len(v.Args) > 0 {
			sb.WriteByte('(')
			k.list(v.Args)
			sb.WriteByte(')')
		}
	case Ptr:
		sb.WriteString("&" + k.obj(v.Obj) + v.Path)
	case Struct:
		sb.WriteByte('{')
		k.list(v.F)
		sb.WriteByte('}')
	case Arr:
		sb.WriteString("[" + v.Line + "|")
		for i, e := range v.E {
			if i > 0 {
				sb.WriteByte(',')
			}
			k.val(e)
			if v.Sum != nil && v.Sum[i] {
				sb.WriteByte('*')
			}
		}
		sb.WriteByte(']')
	case Iface:
		sb.WriteString("i<" + typeKey(v.Dyn) + ":")
		k.val(v.V)
		sb.WriteByte('>')
	case Slice:
		fmt.Fprintf(sb, "s%s[%d:%d]%s", k.obj(v.Obj), v.Lo, v.Hi, v.Line)
	case Map:
		sb.WriteString("m" + k.obj(v.Obj))
	case Func:
		if v.Fn != nil {
			sb.WriteString("f" + v.Fn.RelString(nil))
		} else {
			sb.WriteString("F" + v.Name)
		}
		sb.WriteByte('<')
		k.list(v.Binds)
		sb.WriteByte('>')
	case Tuple:
		sb.WriteString("(")
		k.list(v.V)
		sb.WriteByte(')')
	case Cat:
		sb.WriteString("cat(")
		k.list(v.P)
		sb.WriteByte(')')
	case Pos:
		fmt.Fprintf(sb, "@%s.%d", v.Line, v.Pt)
	case Rng:
		fmt.Fprintf(sb, "rng[%d,%d]", v.Lo, v.Hi)
	case MapData:
		sb.WriteString("map{")
		idx := make([]int, len(v.E))
		ks := make([]string, len(v.E))
		for i := range idx {
			idx[i] = i
			ks[i] = rawKey(v.E[i].K)
		}
		sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
		for _, i := range idx {
			e := v.E[i]
			k.val(e.K)
			sb.WriteByte(':')
			k.val(e.V)
			if e.Sum {
				sb.WriteByte('*')
			}
			if e.All {
				sb.WriteByte('A')
			}
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	case IterData:
		sb.WriteString("iter{")
		if v.M != nil {
			k.val(v.M)
		}
		sb.WriteByte('|')
		k.set(v.Seen)
		sb.WriteByte('|')
		k.set(v.SumSeen)
		sb.WriteByte('|')
		k.set(v.First)
		sb.WriteByte('|')
		k.list(v.Str)
		fmt.Fprintf(sb, "|%d.%d.%t}", v.Off, v.Dir, v.Open)
	case Choice:
		sb.WriteString("one(")
		k.list(v.V)
		sb.WriteByte(')')
	case Ext:
		sb.WriteString("x:" + v.Kind + "<")
		k.val(v.Data)
		sb.WriteByte('>')
	case Iter:
		sb.WriteString("it" + k.obj(v.Obj))
	case RV:
		if !v.Valid {
			sb.WriteString("RV0")
			return
		}
		sb.WriteString("RV<")
		sb.WriteString(typeKey(v.T))
		sb.WriteByte(':')
		if v.Opq != nil {
			k.val(v.Opq)
		} else if v.Addr != nil {
			k.val(*v.Addr)
		} else {
			k.val(v.V)
		}
		if v.Embed {
			sb.WriteString("!e")
		}
		if v.RO {
			sb.WriteString("!ro")
		}
		sb.WriteByte('>')
	case RT:
		sb.WriteString("RT<")
		if v.T != nil {
			sb.WriteString(typeKey(v.T))
		} else {
			k.val(v.Opq)
		}
		sb.WriteByte('>')
	default:
		panic(fmt.Sprintf("key: %T", v))
	}
}

func rawKey(v Val) string {
	k := keyer{}
	k.val(v)
	return k.sb.String()
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- types helpers ----

func under(t types.Type) types.Type { return t.Underlying() }

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}

func basicInfo(t types.Type) types.BasicInfo {
	if t == nil {
		return 0
	}
	if b, ok := under(t).(*types.Basic); ok {
		return b.Info()
	}
	return 0
}
func isInteger(t types.Type) bool  { return basicInfo(t)&types.IsInteger != 0 }
func isFloat(t types.Type) bool    { return basicInfo(t)&types.IsFloat != 0 }
func isNumeric(t types.Type) bool  { return basicInfo(t)&types.IsNumeric != 0 }
func isString(t types.Type) bool   { return basicInfo(t)&types.IsString != 0 }
func isBoolean(t types.Type) bool  { return basicInfo(t)&types.IsBoolean != 0 }
func isUnsigned(t types.Type) bool { return basicInfo(t)&types.IsUnsigned != 0 }

func namedPath(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

func extKind(t types.Type) string {
	switch p := namedPath(t); p {
	case "bytes.Buffer", "strings.Builder":
		return "buf"
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.Map", "sync.Pool":
		return p
	case "sync/atomic.Bool", "sync/atomic.Value", "sync/atomic.Int32", "sync/atomic.Int64":
		return p
	}
	return ""
}

func zero(t types.Type) Val {
	switch namedPath(t) {
	case "reflect.Value":
		return RV{}
	case "reflect.Type":
		return Nil{t}
	}
	if k := extKind(t); k != "" {
		if k == "buf" {
			return Ext{k, Cat{}}
		}
		return Ext{k, nil}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return Const{constant.MakeString(""), t}
		case u.Info()&types.IsInteger != 0:
			return Const{constant.MakeInt64(0), t}
		case u.Info()&types.IsFloat != 0:
			return Const{constant.MakeFloat64(0), t}
		case u.Info()&types.IsComplex != 0:
			return Const{constant.MakeFloat64(0), t}
		}
		return Nil{t} // unsafe pointer, untyped nil
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return Struct{f, t}
	case *types.Array:
		n := int(u.Len())
		if n > 4096 {
			n = 4096
		}
		e := make([]Val, n)
		for i := range e {
			e[i] = zero(u.Elem())
		}
		return Arr{E: e, ET: u.Elem()}
	case *types.Tuple:
		v := make([]Val, u.Len())
		for i := range v {
			v[i] = zero(u.At(i).Type())
		}
		return Tuple{v}
	}
	return Nil{t}
}

func typeOf(v Val) types.Type {
	switch v := v.(type) {
	case Const:
		return v.T
	case Nil:
		return v.T
	case *Term:
		return v.T
	case Struct:
		return v.T
	case Iface:
		return tAny
	case Cat:
		return tString
	case Pos:
		return tInt
	}
	return nil
}

// ---- strings ----

func catParts(v Val) []Val {
	switch v := v.(type) {
	case Cat:
		return v.P
	case Const:
		if v.V.Kind() == constant.String && constant.StringVal(v.V) == "" {
			return nil
		}
	}
	return []Val{v}
}

// mkCat concatenates string values, merging adjacent constants.
func mkCat(vs ...Val) Val {
	var out []Val
	for _, v := range vs {
		for _, p := range catParts(v) {
			if c, ok := p.(Const); ok && len(out) > 0 {
				if l, ok := out[len(out)-1].(Const); ok {
					out[len(out)-1] = mkStr(constant.StringVal(l.V) + constant.StringVal(c.V))
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return Cat{out}
}

func constStr(v Val) (string, bool) {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}

func constInt(v Val) (int, bool) {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.Int {
		i, ok := constant.Int64Val(c.V)
		return int(i), ok
	}
	return 0, false
}

func constBool(v Val) (bool, bool) {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

var _ = token.NoPos
