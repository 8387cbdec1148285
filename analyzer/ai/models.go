package ai

import (
	"fmt"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"net/http"
	"net/textproto"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// callCtx is a call of a modelled function.
type callCtx struct {
	e      *Engine
	s      *State
	fn     *ssa.Function
	args   []Val
	dst    ssa.Value
	mode   int
	name   string
	pushed bool
}

type model = func(*callCtx) Val

var models map[string]model

// redirects maps functions of harness/models to the functions they stand for.
var redirects = map[string]string{
	"SortSlice":     "sort.Slice",
	"SliceIsSorted": "sort.SliceIsSorted",
}

var redirectsToo = map[string][]string{"SortSlice": {"sort.SliceStable"}}

var globalModels = map[string]func(*State) Val{
	"os.Stdin":                    func(s *State) Val { return opaquePtr("os.Stdin") },
	"io.EOF":                      func(s *State) Val { return mkErr("io.EOF") },
	"net/http.DefaultServeMux":    func(s *State) Val { return opaquePtr("mux") },
	"encoding/base64.StdEncoding": func(s *State) Val { return opaquePtr("b64") },
}

func opaquePtr(n string) Val {
	return &Term{Op: "opaqueptr", Args: []Val{mkStr(n)}, NonNil: true}
}

func mkErr(site string) *Term {
	return &Term{Op: "error", Args: []Val{mkStr(site)}, T: tError, NonNil: true}
}

func (c *callCtx) site() string {
	return c.e.Prog.posStr(c.s.curPos())
}

func (c *callCtx) result(vs ...Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return Tuple{vs}
}

func nilErr() Val { return Nil{tError} }

func (c *callCtx) retType(i int) types.Type { return c.fn.Signature.Results().At(i).Type() }

// ptr dereferences the receiver, reporting nil dereferences.
func (c *callCtx) ptr(v Val) (Ptr, bool) {
	v = c.s.norm(v)
	switch x := v.(type) {
	case Ptr:
		return x, true
	case Nil:
		c.s.goPanic("nil pointer dereference in " + c.name)
	case *Term:
		if c.s.isNil(x) {
			c.s.goPanic("nil pointer dereference in " + c.name)
		}
	}
	return Ptr{}, false
}

// variadic returns the elements of a variadic argument.
func (c *callCtx) variadic(v Val) ([]Val, bool) {
	v = c.s.norm(v)
	switch x := v.(type) {
	case Nil:
		return nil, true
	case Slice:
		es, sums, _ := c.s.points(x)
		for _, b := range sums {
			if b {
				return es, false
			}
		}
		return es, true
	}
	return nil, false
}

// ---- opaque and external calls ----

var purePkgs = map[string]bool{
	"strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "net/url": true, "net/mail": true, "net": true,
	"time": true, "regexp": true, "regexp/syntax": true, "html": true, "path": true, "path/filepath": true, "strings": true, "bytes": true,
	"mime": true, "encoding/base64": true, "encoding/hex": true, "hash/fnv": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/md5": true,
	"math/big": true, "net/netip": true, "unicode/letter": true, "go/format": true, "go/token": true, "go/scanner": true, "math/bits": true,
	"errors": true, "text/template": true, "html/template": true,
	"net/textproto": true,
}

// functions that answer with a nil byte slice when their argument is not acceptable
var nilBytes = map[string]bool{"net.ParseIP": true}

func (s *State) opaqueResult(name string, sig *types.Signature, args []Val) Val {
	res := sig.Results()
	n := res.Len()
	if n == 0 {
		return nil
	}
	for i, a := range args {
		args[i] = s.norm(a)
	}
	fallible := n > 0 && types.Identical(res.At(n-1).Type(), tError)
	ok := true
	if fallible {
		ok = s.truth(mkTerm("ok:"+name, tBool, args...))
	}
	vs := make([]Val, n)
	for i := 0; i < n; i++ {
		t := res.At(i).Type()
		if i == n-1 && fallible {
			if ok {
				vs[i] = Nil{tError}
			} else {
				vs[i] = mkErr(name)
				s.setMon("err:"+name, 1)
			}
			continue
		}
		if !ok {
			vs[i] = zero(t)
			continue
		}
		op := name
		if i > 0 {
			op += "." + strconv.Itoa(i)
		}
		tm := mkTerm(op, t, args...)
		if fallible {
			tm = tm.nonNil()
		}
		if sl, isS := under(t).(*types.Slice); isS {
			if b, isB := under(sl.Elem()).(*types.Basic); isB && b.Kind() == types.Byte {
				x := *tm
				x.T = tString
				if nilBytes[name] && !s.truth(mkTerm("ok:"+name, tBool, args...)) {
					vs[i] = Nil{t}
					continue
				}
				vs[i] = s.stringToBytes(&x, sl.Elem())
				continue
			}
		}
		vs[i] = tm
	}
	if n == 1 {
		return vs[0]
	}
	return Tuple{vs}
}

// external handles a call of a function without an analysed body.
func (e *Engine) external(s *State, fn *ssa.Function, name string, args []Val) Val {
	e.Externals[name]++
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return nil
	}
	pk := fnPkg(fn)
	if pk != nil && purePkgs[pk.Path()] {
		for _, a := range args {
			switch s.norm(a).(type) {
			case Func:
				s.fail("unmodelled function with a function argument: %s", name)
			}
			if strings.HasPrefix(name, "(net.IP).") {
				s.fail("unmodelled function %s", name)
			}
		}
		if v, ok := constCall(name, args, fn.Signature); ok {
			return v
		}
		return s.opaqueResult(name, fn.Signature, args)
	}
	s.fail("unmodelled external function %s", name)
	return nil
}

// opaqueInvoke calls an interface method on an opaque value.
func (e *Engine) opaqueInvoke(s *State, m *types.Func, r *Term, args []Val) Val {
	sig := m.Type().(*types.Signature)
	if m.Name() == "Error" && sig.Params().Len() == 0 {
		return mkTerm("errmsg", tString, r)
	}
	if r.Op == "error" {
		switch m.Name() {
		case "Unwrap", "Cause":
			return Nil{tError}
		}
	}
	e.Externals["invoke "+m.FullName()]++
	return s.opaqueResult("."+m.Name(), sig, append([]Val{r}, args...))
}

func (s *State) strLine(v Val) string { return "" }
func (s *State) strLineAt(b Val, line string, idx Val) Val {
	s.fail("string index")
	return nil
}

// ---- constant evaluation of pure functions ----

var constFns = map[string]any{
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Index": strings.Index,
	"strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title, "strings.TrimSpace": strings.TrimSpace,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Count": strings.Count,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.ContainsRune": strings.ContainsRune,
	"strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny, "strings.Compare": strings.Compare, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseFloat": strconv.ParseFloat,
	"strconv.ParseBool": strconv.ParseBool, "strconv.Unquote": strconv.Unquote, "net/url.QueryUnescape": url.QueryUnescape, "net/url.PathUnescape": url.PathUnescape,
	"net/textproto.CanonicalMIMEHeaderKey": textproto.CanonicalMIMEHeaderKey, "net/http.StatusText": http.StatusText,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool,
	"strconv.FormatUint": strconv.FormatUint, "strconv.FormatFloat": strconv.FormatFloat, "strconv.QuoteRune": strconv.QuoteRune, "strconv.QuoteToASCII": strconv.QuoteToASCII,
	"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Mod": math.Mod, "math.Remainder": math.Remainder,
	"math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Round": math.Round, "math.Max": math.Max, "math.Min": math.Min,
	"math/bits.Len": bits.Len, "math/bits.Len64": bits.Len64, "math/bits.Len32": bits.Len32,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsNumber": unicode.IsNumber,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"regexp.QuoteMeta":                regexp.QuoteMeta,
}

func constCall(name string, args []Val, sig *types.Signature) (Val, bool) {
	f, ok := constFns[name]
	if !ok {
		return nil, false
	}
	rf := reflect.ValueOf(f)
	if rf.Type().NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		c, ok := a.(Const)
		if !ok {
			return nil, false
		}
		t := rf.Type().In(i)
		v := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.String:
			if c.V.Kind() != constant.String {
				return nil, false
			}
			v.SetString(constant.StringVal(c.V))
		case reflect.Bool:
			v.SetBool(constant.BoolVal(c.V))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			n, ok := constant.Int64Val(constant.ToInt(c.V))
			if !ok {
				return nil, false
			}
			v.SetInt(n)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			n, ok := constant.Uint64Val(constant.ToInt(c.V))
			if !ok {
				return nil, false
			}
			v.SetUint(n)
		case reflect.Float64:
			n, _ := constant.Float64Val(c.V)
			v.SetFloat(n)
		default:
			return nil, false
		}
		in[i] = v
	}
	out := rf.Call(in)
	vs := make([]Val, len(out))
	for i, o := range out {
		t := sig.Results().At(i).Type()
		switch o.Kind() {
		case reflect.String:
			vs[i] = Const{constant.MakeString(o.String()), t}
		case reflect.Bool:
			vs[i] = Const{constant.MakeBool(o.Bool()), t}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			vs[i] = Const{constant.MakeInt64(o.Int()), t}
		case reflect.Float64:
			if math.IsNaN(o.Float()) || math.IsInf(o.Float(), 0) {
				return nil, false
			}
			vs[i] = Const{constant.MakeFloat64(o.Float()), t}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			vs[i] = Const{constant.MakeUint64(o.Uint()), t}
		case reflect.Interface:
			if !types.Identical(t, tError) {
				return nil, false
			}
			vs[i] = Nil{tError}
			if !o.IsNil() {
				vs[i] = mkErr(name)
			}
		default:
			return nil, false
		}
	}
	if len(vs) == 1 {
		return vs[0], true
	}
	return Tuple{vs}, true
}

// ---- formatting ----

// ifaceParts splits an interface value.
func (s *State) ifaceParts(v Val) (types.Type, Val) {
	v = s.norm(v)
	if c, ok := v.(Choice); ok {
		v = c.V[s.choose(len(c.V))]
	}
	switch x := v.(type) {
	case Iface:
		return x.Dyn, s.norm(x.V)
	}
	return nil, v
}

// decimal is the text of an integer.
func decimal(v Val) Val {
	if c, ok := v.(Const); ok && c.V.Kind() == constant.Int {
		return mkStr(c.V.ExactString())
	}
	return mkTerm("dec", tString, v)
}

func gText(v Val) Val {
	if c, ok := v.(Const); ok {
		f, _ := constant.Float64Val(c.V)
		return mkStr(strconv.FormatFloat(f, 'g', -1, 64))
	}
	return mkTerm("g", tString, v)
}

func quoteText(v Val) Val {
	if c, ok := constStr(v); ok {
		return mkStr(strconv.Quote(c))
	}
	return mkTerm("quote", tString, v)
}

// formatOne renders one operand.
func (s *State) formatOne(flags string, verb byte, arg Val) Val {
	t, v := s.ifaceParts(arg)
	mangled := func(text Val) Val {
		ty := "?"
		if t != nil {
			ty = rtString(t)
		}
		return mkCat(mkStr("%!"+string(verb)+"("+ty+"="), text, mkStr(")"))
	}
	opq := func() Val {
		return mkTerm("fmt%"+flags+string(verb), tString, arg)
	}
	if t == nil {
		switch x := v.(type) {
		case Nil:
			if verb == 'v' {
				return mkStr("<nil>")
			}
			return mkStr("%!" + string(verb) + "(<nil>)")
		case *Term:
			if x.Op == "error" {
				return mkTerm("errmsg", tString, x)
			}
			if x.T != nil && isString(x.T) {
				return x
			}
		}
		return mkTerm("fmtv", tString, v)
	}
	if verb == 'T' {
		return mkStr(rtString(t))
	}
	if flags != "" && flags != "#" && flags != "+" {
		return opq()
	}
	// methods Error and String take precedence
	if (verb == 's' || verb == 'v' || verb == 'q') && flags != "#" {
		if tm, ok := v.(*Term); ok && tm.Op == "re" {
			return tm.Args[0]
		}
		if hasMethod(t, "Error") || hasMethod(t, "String") {
			return mkTerm("stringer", tString, v)
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 's':
				return retypeStr(v)
			case 'v':
				if flags == "#" {
					return quoteText(v)
				}
				return retypeStr(v)
			case 'q':
				return quoteText(v)
			case 'd', 't', 'f', 'g', 'e':
				return mangled(v)
			}
		case u.Info()&types.IsBoolean != 0:
			switch verb {
			case 't', 'v':
				if s.truth(v) {
					return mkStr("true")
				}
				return mkStr("false")
			default:
				return mangled(mkTerm("fmtv", tString, v))
			}
		case u.Info()&types.IsInteger != 0:
			switch verb {
			case 'd', 'v':
				if flags == "+" {
					return opq()
				}
				return decimal(v)
			case 'c', 'q', 'x', 'X', 'o', 'b', 'U':
				return opq()
			default:
				return mangled(decimal(v))
			}
		case u.Info()&types.IsFloat != 0:
			switch verb {
			case 'v', 'g':
				return gText(v)
			case 'f', 'e', 'F', 'E', 'G':
				if c, ok := v.(Const); ok {
					f, _ := constant.Float64Val(c.V)
					return mkStr(fmt.Sprintf("%"+string(verb), f))
				}
				return opq()
			default:
				return mangled(gText(v))
			}
		}
	}
	if (verb == 'v' || verb == 's') && (flags == "" || flags == "#") {
		if r, ok := s.formatComposite(flags, verb, t, v); ok {
			return r
		}
	}
	return mkTerm("fmt%"+flags+string(verb), tString, s.groundIface(t, v))
}

// formatComposite renders lists and small maps.
func (s *State) formatComposite(flags string, verb byte, t types.Type, v Val) (Val, bool) {
	elem := func(e Val, et types.Type) Val {
		if isIface(et) {
			return s.formatOne(flags, verb, e)
		}
		return s.formatOne(flags, verb, Iface{et, e})
	}
	sep, open, close := " ", "[", "]"
	switch u := under(t).(type) {
	case *types.Slice:
		if flags == "#" {
			sep, open, close = ", ", rtString(t)+"{", "}"
		}
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Byte {
			return nil, false
		}
		switch v.(type) {
		case Nil:
			if flags == "#" {
				return mkStr(rtString(t) + "(nil)"), true
			}
			return mkStr("[]"), true
		case Slice:
		default:
			return nil, false
		}
		es, sums, _ := s.points(v)
		for _, b := range sums {
			if b {
				return nil, false
			}
		}
		out := []Val{mkStr(open)}
		for i, e := range es {
			if i > 0 {
				out = append(out, mkStr(sep))
			}
			out = append(out, elem(e, u.Elem()))
		}
		return mkCat(append(out, mkStr(close))...), true
	case *types.Map:
		open = "map["
		if flags == "#" {
			sep, open, close = ", ", rtString(t)+"{", "}"
		}
		m, ok := v.(Map)
		if !ok {
			return nil, false
		}
		_, md, _ := s.mapData(m)
		if len(md.E) > 1 {
			return nil, false
		}
		out := []Val{mkStr(open)}
		for _, e := range md.E {
			if e.Sum {
				return nil, false
			}
			val := e.V
			if ch, ok := val.(Choice); ok {
				val = ch.V[s.choose(len(ch.V))]
			}
			out = append(out, elem(e.K, u.Key()), mkStr(":"), elem(val, u.Elem()))
		}
		return mkCat(append(out, mkStr(close))...), true
	}
	return nil, false
}

func (s *State) groundIface(t types.Type, v Val) Val {
	return s.ground(Iface{t, v}, 0)
}

// firstChars is the set of characters a text may start with ("" if unknown).
func firstChars(v Val) string {
	if c, ok := constStr(v); ok {
		if c == "" {
			return ""
		}
		return c[:1]
	}
	switch x := v.(type) {
	case Cat:
		if len(x.P) > 0 {
			return firstChars(x.P[0])
		}
	case *Term:
		switch x.Op {
		case "quote":
			return "\""
		case "dec":
			return "-0123456789"
		case "g":
			return "-+0123456789NI"
		}
		if strings.HasPrefix(x.Op, "fmt%#v") {
			return "m[&(*ifsub" // composite values: type names
		}
	}
	return ""
}

func retypeStr(v Val) Val {
	if c, ok := v.(Const); ok {
		return mkStr(constant.StringVal(c.V))
	}
	return v
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			sig := ms.At(i).Type().(*types.Signature)
			return sig.Params().Len() == 0 && sig.Results().Len() == 1
		}
	}
	return false
}

// sprintf renders a format.
func (s *State) sprintf(f Val, args []Val, exact bool) Val {
	f = s.norm(f)
	var out []Val
	argi := 0
	next := func() (Val, bool) {
		if argi < len(args) {
			argi++
			return args[argi-1], true
		}
		return nil, false
	}
	parts := catParts(f)
	if !exact {
		return mkTerm("sprintf", tString, append([]Val{f}, args...)...)
	}
	for _, p := range parts {
		c, ok := constStr(p)
		if !ok {
			if len(parts) == 1 && len(args) == 0 {
				out = append(out, mkTerm("fmtmangle", tString, p))
				continue
			}
			if t, ok := p.(*Term); ok {
				switch t.Op {
				case "dec", "g":
					out = append(out, p) // contains no verbs
					continue
				}
			}
			out = append(out, mkTerm("fmtmangle", tString, p))
			continue
		}
		for len(c) > 0 {
			i := strings.IndexByte(c, '%')
			if i < 0 {
				out = append(out, mkStr(c))
				break
			}
			out = append(out, mkStr(c[:i]))
			c = c[i+1:]
			j := 0
			for j < len(c) && strings.IndexByte("+-# 0123456789.*[]", c[j]) >= 0 {
				j++
			}
			if j >= len(c) {
				out = append(out, mkStr("%!(NOVERB)"))
				c = ""
				break
			}
			flags, verb := c[:j], c[j]
			c = c[j+1:]
			if verb == '%' {
				out = append(out, mkStr("%"))
				continue
			}
			if strings.Contains(flags, "[") || strings.Contains(flags, "*") {
				return mkTerm("sprintf", tString, append([]Val{f}, args...)...)
			}
			a, ok := next()
			if !ok {
				out = append(out, mkStr("%!"+string(verb)+"(MISSING)"))
				continue
			}
			out = append(out, s.formatOne(flags, verb, a))
		}
	}
	if argi < len(args) {
		out = append(out, mkTerm("fmtextra", tString, args[argi:]...))
	}
	return mkCat(out...)
}

// sprint renders operands the way fmt.Sprint (ln=false) or Sprintln do.
func (s *State) sprint(args []Val, ln bool) Val {
	var out []Val
	prevStr := true
	for i, a := range args {
		t, _ := s.ifaceParts(a)
		isS := t != nil && isString(t)
		if i > 0 && (ln || !isS && !prevStr) {
			out = append(out, mkStr(" "))
		}
		prevStr = isS
		out = append(out, s.formatOne("", 'v', a))
	}
	if ln {
		out = append(out, mkStr("\n"))
	}
	return mkCat(out...)
}

// ---- buffers ----

func (c *callCtx) buf(v Val) (Ptr, Val) {
	p, ok := c.ptr(v)
	if !ok {
		return Ptr{Obj: 0}, &Term{Op: "buf", Args: []Val{c.s.norm(v)}, T: tString}
	}
	x := c.s.load(p)
	switch e := x.(type) {
	case Ext:
		if e.Kind == "buf" {
			return p, e.Data
		}
	}
	c.s.fail("not a buffer: %T", x)
	return p, nil
}

func (c *callCtx) bufWrite(v Val, text Val) {
	p, d := c.buf(v)
	if p.Obj == 0 {
		c.s.fail("write to opaque buffer")
	}
	c.s.store(p, Ext{"buf", mkCat(d, text)})
}

func bufRW(read bool) model {
	return func(c *callCtx) Val {
		_, d := c.buf(c.args[0])
		if strings.HasSuffix(c.name, ".Bytes") {
			return c.s.stringToBytes(d, tByte)
		}
		return strOf(d)
	}
}

func strOf(d Val) Val {
	if ct, ok := d.(Cat); ok && len(ct.P) == 0 {
		return mkStr("")
	}
	return d
}

// invokeWrite calls w.Write with the given text.
func (c *callCtx) invokeWrite(w Val, text Val) Val {
	s := c.s
	w = s.norm(w)
	var recv Val = w
	if i, ok := w.(Iface); ok {
		recv = i.V
		switch namedPath(derefT(i.Dyn)) {
		case "bytes.Buffer", "strings.Builder":
			c.bufWrite(i.V, text)
			return Tuple{[]Val{s.strLen2(text), nilErr()}}
		}
		bs := s.stringToBytes(text, tByte)
		m := c.e.Prog.SSA.LookupMethod(i.Dyn, nil, "Write")
		if m == nil {
			s.fail("no Write on %s", typeKey(i.Dyn))
		}
		v, pushed := c.e.callFn(s, m, nil, []Val{recv, bs}, c.dst, c.mode)
		c.pushed = pushed
		return v
	}
	if _, ok := w.(Nil); ok {
		s.goPanic("nil pointer dereference (write to nil io.Writer)")
	}
	return c.fileWrite(w, text)
}

func (s *State) strLen2(v Val) Val { return mkTerm("len", tInt, v) }

func derefT(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fileWrite is a write to an external sink; it may fail.
func (c *callCtx) fileWrite(w Val, text Val) Val {
	s := c.s
	s.setMon("wrote", 1)
	if s.choose(2) == 1 {
		s.note("external write fails")
		s.setMon("err:write", 1)
		return Tuple{[]Val{mkInt(0), mkErr("write")}}
	}
	return Tuple{[]Val{s.strLen2(text), nilErr()}}
}

// ---- error constructors ----

func newErr(c *callCtx) Val { return mkErr(c.site()) }

func wrapErr(c *callCtx) Val {
	if c.s.isNil(c.s.norm(c.args[0])) {
		return nilErr()
	}
	return mkErr(c.site())
}

func pure(c *callCtx) Val {
	for i, a := range c.args {
		c.args[i] = c.s.norm(a)
	}
	if v, ok := constCall(c.name, c.args, c.fn.Signature); ok {
		return v
	}
	return c.s.opaqueResult(c.name, c.fn.Signature, c.args)
}

// ---- regexps ----

func (c *callCtx) compile(src Val, must bool) Val {
	s := c.s
	src = s.norm(src)
	t := types.NewPointer(c.e.Prog.byPath["regexp"].Scope().Lookup("Regexp").Type())
	ok := true
	if str, isC := constStr(src); isC {
		_, err := regexp.Compile(str)
		ok = err == nil
	} else if tm, isT := src.(*Term); isT && tm.Op == "resrc" {
		ok = true // source of a compiled expression
	} else {
		ok = s.truth(mkTerm("validre", tBool, src))
	}
	re := &Term{Op: "re", Args: []Val{src}, T: t, NonNil: true}
	if must {
		if !ok {
			s.goPanic("regexp: Compile: invalid pattern")
		}
		return re
	}
	if !ok {
		s.setMon("err:regexp.Compile", 1)
		return Tuple{[]Val{Nil{t}, mkErr("regexp.Compile")}}
	}
	return Tuple{[]Val{re, nilErr()}}
}

func (c *callCtx) reSrc(v Val) Val {
	v = c.s.norm(v)
	switch x := v.(type) {
	case Nil:
		c.s.goPanic("nil pointer dereference in " + c.name)
	case *Term:
		if x.Op == "re" {
			return x.Args[0]
		}
		if c.s.isNil(x) {
			c.s.goPanic("nil pointer dereference in " + c.name)
		}
		return mkTerm("resrc", tString, x)
	}
	c.s.fail("regexp %T", v)
	return nil
}

func (c *callCtx) match(src, str Val) Val {
	s := c.s
	str = s.norm(str)
	src = s.norm(src)
	if a, ok := constStr(src); ok {
		if b, ok := constStr(str); ok {
			re, err := regexp.Compile(a)
			if err == nil {
				return mkBool(re.MatchString(b))
			}
		}
	}
	t := mkTerm("match", tBool, src, str)
	if isSum(t) {
		return mkBool(s.truth(t))
	}
	return t
}

// ---- locks ----

func (c *callCtx) lock(w bool) Val {
	p, ok := c.ptr(c.args[0])
	if !ok {
		return nil
	}
	key := fmt.Sprintf("%d%s", p.Obj, p.Path)
	for _, h := range c.s.locks {
		if h.key == key && (h.w || w) {
			c.s.note("lock already held")
			c.e.report(c.s, "deadlock", "self-deadlock: acquires a lock already held by the same call chain", "lock held since "+c.e.Prog.posStr(h.pos))
			c.s.prune()
		}
	}
	if c.s.shared > 0 {
		c.s.setMon("acq:"+key, 1)
		for _, h := range c.s.locks {
			if h.obj <= c.s.shared && p.Obj <= c.s.shared {
				c.e.lockEdge(c.s, h, key)
			}
		}
	}
	c.s.locks = append(c.s.locks[:len(c.s.locks):len(c.s.locks)], held{key, p.Obj, p.Path, w, c.s.curPos()})
	return nil
}

func (c *callCtx) unlock(w bool) Val {
	p, ok := c.ptr(c.args[0])
	if !ok {
		return nil
	}
	key := fmt.Sprintf("%d%s", p.Obj, p.Path)
	for i := len(c.s.locks) - 1; i >= 0; i-- {
		if h := c.s.locks[i]; h.key == key && h.w == w {
			n := append([]held(nil), c.s.locks[:i]...)
			c.s.locks = append(n, c.s.locks[i+1:]...)
			return nil
		}
	}
	c.s.goPanic("unlock of unlocked mutex")
	return nil
}

func (c *callCtx) extPtr(kind string) (Ptr, Ext) {
	p, ok := c.ptr(c.args[0])
	if !ok {
		c.s.fail("%s on opaque receiver", c.name)
	}
	sh := c.s.shared
	if sh > 0 {
		c.s.setMon(fmt.Sprintf("acq:S%d%s", p.Obj, p.Path), 1)
	}
	c.s.shared = 0 // synchronised
	x, ok := c.s.load(p).(Ext)
	c.s.shared = sh
	if !ok {
		c.s.fail("%s: not a %s", c.name, kind)
	}
	return p, x
}

func (c *callCtx) setExt(p Ptr, x Ext) {
	sh := c.s.shared
	c.s.shared = 0
	c.s.store(p, x)
	c.s.shared = sh
}

func (c *callCtx) pushFn(f Val, args []Val) Val {
	v, pushed := c.e.callVal(c.s, f, args, c.dst, c.mode)
	c.pushed = pushed
	return v
}

func noop(c *callCtx) Val {
	n := c.fn.Signature.Results().Len()
	switch n {
	case 0:
		return nil
	case 1:
		return zero(c.retType(0))
	}
	return zero(c.fn.Signature.Results())
}

func opaqueObj(op string) model {
	return func(c *callCtx) Val {
		t := &Term{Op: op, T: c.retType(0), NonNil: true}
		for _, a := range c.args {
			t.Args = append(t.Args, c.s.norm(a))
		}
		return t
	}
}

// effect is an external effectful call that may fail.
func effect(c *callCtx) Val {
	s := c.s
	res := c.fn.Signature.Results()
	n := res.Len()
	short := c.name
	fallible := n > 0 && types.Identical(res.At(n-1).Type(), tError)
	ok := true
	if fallible && s.choose(2) == 1 {
		ok = false
		s.note(short + " fails")
		s.setMon("err:"+short, 1)
	}
	vs := make([]Val, n)
	for i := range vs {
		t := res.At(i).Type()
		if i == n-1 && fallible {
			if ok {
				vs[i] = nilErr()
			} else {
				vs[i] = mkErr(short)
			}
			continue
		}
		if !ok {
			vs[i] = zero(t)
			continue
		}
		s.inputs++
		tm := &Term{Op: fmt.Sprintf("ext:%s.%d", short, i), T: t, NonNil: true}
		for _, a := range c.args {
			tm.Args = append(tm.Args, s.norm(a))
		}
		vs[i] = tm
	}
	switch n {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return Tuple{vs}
}

// havoc fills *dst with an unknown decoded value.
func (c *callCtx) decodeInto(dst Val, src Val) {
	s := c.s
	t, v := s.ifaceParts(dst)
	if t == nil {
		return
	}
	p, ok := v.(Ptr)
	if !ok {
		return
	}
	el := derefT(t)
	s.store(p, s.decoded(src, el))
}

func (s *State) decoded(src Val, el types.Type) Val {
	if j, ok := src.(*Term); ok && j.Op == "json" {
		it, iv := s.ifaceParts(j.Args[0])
		if it != nil && types.Identical(it, el) {
			return iv
		}
	}
	tm := mkTerm("decoded<"+typeKey(el)+">", el, src)
	if st, ok := under(el).(*types.Struct); ok && extKind(el) == "" {
		f := make([]Val, st.NumFields())
		for i := range f {
			f[i] = s.component(tm, i)
		}
		return Struct{f, el}
	}
	return tm
}

// gofmt models go/format.Source.
func gofmtModel(c *callCtx) Val {
	s := c.s
	text := s.bytesToString(s.norm(c.args[0]))
	if src, ok := renderHoles(text); ok {
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\n"+src, 0); err == nil {
			return Tuple{[]Val{c.args[0], nilErr()}}
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0); err == nil {
			return Tuple{[]Val{c.args[0], nilErr()}}
		}
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", "package p\nfunc _() {\n"+src+"\n}", 0); err == nil {
			return Tuple{[]Val{c.args[0], nilErr()}}
		}
		s.note("emitted text is not valid Go")
		s.setMon("err:go/format.Source", 1)
		return Tuple{[]Val{Nil{tByteSli}, mkErr("go/format.Source")}}
	}
	if s.choose(2) == 0 {
		return Tuple{[]Val{c.args[0], nilErr()}}
	}
	s.setMon("err:go/format.Source", 1)
	return Tuple{[]Val{Nil{tByteSli}, mkErr("go/format.Source")}}
}

func joinModel(c *callCtx) Val {
	s := c.s
	es, exact := c.variadic(c.args[0])
	if !exact {
		return mkTerm("join", tString, append(append([]Val{}, es...), c.args[1])...)
	}
	var out []Val
	for i, x := range es {
		if i > 0 {
			out = append(out, s.norm(c.args[1]))
		}
		out = append(out, s.norm(x))
	}
	return mkCat(out...)
}

func prefixModel(c *callCtx) Val {
	s := c.s
	a, b := s.norm(c.args[0]), s.norm(c.args[1])
	c.args[0], c.args[1] = a, b
	suffix := strings.HasSuffix(c.name, "Suffix")
	has := -1
	var rest Val
	if hasChars(a) {
		if cs, ok := chars(a); ok {
			if p, ok := chars(b); ok {
				has = 1
				off := 0
				if suffix {
					off = len(cs) - len(p)
				}
				for i := range p {
					if off < 0 || off+i >= len(cs) || !s.cmpNum(token.EQL, cs[off+i], p[i]) {
						has = 0
						break
					}
				}
				if has == 1 && suffix {
					rest = fromChars(cs[:off])
				} else if has == 1 {
					rest = fromChars(cs[len(p):])
				}
				b = mkStr("")
			}
		}
	}
	if has >= 0 {
	} else if p, ok := constStr(b); ok {
		if p == "" {
			has, rest = 1, a
		} else if full, ok := constStr(a); ok {
			if suffix && strings.HasSuffix(full, p) {
				has, rest = 1, mkStr(strings.TrimSuffix(full, p))
			} else if !suffix && strings.HasPrefix(full, p) {
				has, rest = 1, mkStr(strings.TrimPrefix(full, p))
			} else {
				has = 0
			}
		} else if ct, ok := a.(Cat); ok {
			k := 0
			if suffix {
				k = len(ct.P) - 1
			}
			if x, ok := constStr(ct.P[k]); ok {
				n := len(x)
				if len(p) < n {
					n = len(p)
				}
				r := append([]Val(nil), ct.P...)
				if suffix {
					if x[len(x)-n:] != p[len(p)-n:] {
						has = 0
					} else if n == len(p) {
						has = 1
						r[k] = mkStr(x[:len(x)-n])
						rest = mkCat(r...)
					}
				} else {
					if x[:n] != p[:n] {
						has = 0
					} else if n == len(p) {
						has = 1
						r[k] = mkStr(x[n:])
						rest = mkCat(r...)
					}
				}
			}
		}
	} else if rawKey(a) == rawKey(b) && !isSum(a) {
		has, rest = 1, mkStr("")
	}
	op := "hasprefix"
	if suffix {
		op = "hassuffix"
	}
	if has < 0 {
		if s.truth(mkTerm(op, tBool, a, b)) {
			has = 1
			rest = mkTerm("trim"+op[3:], tString, a, b)
		} else {
			has = 0
		}
	}
	short := c.name[strings.LastIndexByte(c.name, '.')+1:]
	switch {
	case strings.HasPrefix(short, "Has"):
		return mkBool(has == 1)
	case strings.HasPrefix(short, "Trim"):
		if has == 1 {
			return rest
		}
		return a
	}
	if has == 1 {
		return Tuple{[]Val{rest, mkBool(true)}}
	}
	return Tuple{[]Val{a, mkBool(false)}}
}

// typeOfVal models reflect.TypeOf.
func (s *State) typeOfVal(v Val) Val {
	t, x := s.ifaceParts(v)
	if t != nil {
		return RT{T: t}
	}
	switch x := x.(type) {
	case Nil:
		return Nil{s.eng.Prog.byPath["reflect"].Scope().Lookup("Type").Type()}
	case RT:
		s.fail("TypeOf of a reflect.Type")
	case *Term:
		return RT{Opq: x}
	}
	s.fail("TypeOf %T", x)
	return nil
}

func (c *callCtx) rtArg(i int) types.Type {
	r, ok := c.s.norm(c.args[i]).(RT)
	if !ok || r.T == nil {
		if _, isNil := c.s.norm(c.args[i]).(Nil); isNil {
			c.s.goPanic("nil reflect.Type in " + c.name)
		}
		c.s.fail("%s on an opaque type", c.name)
	}
	return r.T
}

// deepEq compares values structurally.
func (s *State) deepEq(a, b Val, seen int) bool {
	a, b = s.norm(a), s.norm(b)
	if seen > 60 {
		s.fail("deep comparison of cyclic data")
	}
	if c, ok := a.(Choice); ok {
		a = c.V[s.choose(len(c.V))]
	}
	if c, ok := b.(Choice); ok {
		b = c.V[s.choose(len(c.V))]
	}
	_, an := a.(Nil)
	_, bn := b.(Nil)
	if an || bn {
		return an && bn || an && isTermNil(s, b) || bn && isTermNil(s, a)
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return s.eq(a, b)
		}
		return types.Identical(x.Dyn, y.Dyn) && s.deepEq(x.V, y.V, seen+1)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return s.deepEq(s.load(x), s.load(y), seen+1)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return false
		}
		if isByteStr(s, x) || isByteStr(s, y) {
			return s.eqStr(s.bytesToString(x), s.bytesToString(y))
		}
		ea, sa, _ := s.points(x)
		eb, sb, _ := s.points(y)
		if len(ea) != len(eb) {
			if x.Line == "" && y.Line == "" {
				return false
			}
			if x.Line != y.Line {
				s.fail("deep comparison of differently summarised lists")
			}
			return false
		}
		for i := range ea {
			if (sa != nil && sa[i]) || (sb != nil && sb[i]) {
				if rawKey(ea[i]) == rawKey(eb[i]) {
					if s.choose(2) == 0 {
						continue
					}
					return false
				}
			}
			if !s.deepEq(ea[i], eb[i], seen+1) {
				return false
			}
		}
		return true
	case Map:
		y, ok := b.(Map)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		_, da, _ := s.mapData(x)
		_, db, _ := s.mapData(y)
		if len(da.E) != len(db.E) {
			return false
		}
		for _, e := range da.E {
			if e.Sum {
				s.fail("deep comparison of summarised maps")
			}
			i := s.find(db, e.K)
			if i < 0 || !s.deepEq(e.V, db.E[i].V, seen+1) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return s.eq(a, b)
		}
		for i := range x.F {
			if !s.deepEq(x.F[i], y.F[i], seen+1) {
				return false
			}
		}
		return true
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !s.deepEq(x.E[i], y.E[i], seen+1) {
				return false
			}
		}
		return true
	case Func:
		return false
	}
	return s.eq(a, b)
}

func isTermNil(s *State, v Val) bool {
	if t, ok := v.(*Term); ok {
		return s.isNil(t)
	}
	return false
}

func init() {
	models = map[string]model{
		// formatting
		"fmt.Sprintf": func(c *callCtx) Val {
			as, ok := c.variadic(c.args[1])
			return c.s.sprintf(c.args[0], as, ok)
		},
		"fmt.Sprint":   func(c *callCtx) Val { as, _ := c.variadic(c.args[0]); return c.s.sprint(as, false) },
		"fmt.Sprintln": func(c *callCtx) Val { as, _ := c.variadic(c.args[0]); return c.s.sprint(as, true) },
		"fmt.Fprintf": func(c *callCtx) Val {
			as, ok := c.variadic(c.args[2])
			return c.invokeWrite(c.args[0], c.s.sprintf(c.args[1], as, ok))
		},
		"fmt.Fprint": func(c *callCtx) Val {
			as, _ := c.variadic(c.args[1])
			return c.invokeWrite(c.args[0], c.s.sprint(as, false))
		},
		"fmt.Fprintln": func(c *callCtx) Val {
			as, _ := c.variadic(c.args[1])
			return c.invokeWrite(c.args[0], c.s.sprint(as, true))
		},
		"fmt.Appendf": func(c *callCtx) Val {
			as, ok := c.variadic(c.args[2])
			return c.s.stringToBytes(mkCat(c.s.bytesToString(c.s.norm(c.args[0])), c.s.sprintf(c.args[1], as, ok)), tByte)
		},
		"fmt.Errorf": newErr, "errors.New": newErr,
		"github.com/pkg/errors.New": newErr, "github.com/pkg/errors.Errorf": newErr,
		"github.com/pkg/errors.Wrap": wrapErr, "github.com/pkg/errors.Wrapf": wrapErr,
		"github.com/pkg/errors.WithStack": wrapErr, "github.com/pkg/errors.WithMessage": wrapErr, "github.com/pkg/errors.WithMessagef": wrapErr,
		"github.com/pkg/errors.Cause": func(c *callCtx) Val { return c.args[0] },
		"errors.Unwrap":               func(c *callCtx) Val { return nilErr() },
		"errors.Is": func(c *callCtx) Val {
			a, b := c.s.norm(c.args[0]), c.s.norm(c.args[1])
			return mkBool(c.s.eq(a, b))
		},
		"errors.Join": func(c *callCtx) Val {
			as, _ := c.variadic(c.args[0])
			for _, a := range as {
				if !c.s.isNil(c.s.norm(a)) {
					return mkErr(c.site())
				}
			}
			return nilErr()
		},
		"io.WriteString": func(c *callCtx) Val { return c.invokeWrite(c.args[0], c.s.norm(c.args[1])) },

		// logging
		"log.Printf": noop, "log.Println": noop, "log.Print": noop,
		"github.com/lestrrat-go/pdebug.Printf": noop, "github.com/lestrrat-go/pdebug.IPrintf": noop, "github.com/lestrrat-go/pdebug.Dump": noop,
		"github.com/lestrrat-go/pdebug.Marker":               opaqueObj("marker"),
		"(*github.com/lestrrat-go/pdebug.markerg).End":       noop,
		"(*github.com/lestrrat-go/pdebug.markerg).BindError": func(c *callCtx) Val { return c.args[0] },
		"(github.com/lestrrat-go/pdebug.guard).IRelease":     noop,

		// text
		"strings.Join": joinModel, "strings.HasPrefix": prefixModel, "strings.HasSuffix": prefixModel, "strings.TrimPrefix": prefixModel,
		"strings.TrimSuffix": prefixModel, "strings.CutPrefix": prefixModel, "strings.CutSuffix": prefixModel,
		"strconv.Quote": func(c *callCtx) Val { return quoteText(c.s.norm(c.args[0])) },
		"strconv.Itoa":  func(c *callCtx) Val { return decimal(c.s.norm(c.args[0])) },
		"strconv.FormatInt": func(c *callCtx) Val {
			if n, ok := constInt(c.args[1]); ok && n == 10 {
				return decimal(c.s.norm(c.args[0]))
			}
			return pure(c)
		},
		"strconv.FormatUint": func(c *callCtx) Val {
			if n, ok := constInt(c.args[1]); ok && n == 10 {
				return decimal(c.s.norm(c.args[0]))
			}
			return pure(c)
		},
		"strconv.FormatBool": func(c *callCtx) Val {
			if c.s.truth(c.args[0]) {
				return mkStr("true")
			}
			return mkStr("false")
		},
		"strconv.FormatFloat": func(c *callCtx) Val {
			v := c.s.norm(c.args[0])
			f, _ := constInt(c.args[1])
			p, _ := constInt(c.args[2])
			b, _ := constInt(c.args[3])
			if p == -1 && b == 64 {
				if _, isC := v.(Const); !isC {
					return mkTerm("g", tString, v)
				}
			}
			_ = f
			return pure(c)
		},
		"strconv.AppendQuote": func(c *callCtx) Val {
			return c.s.stringToBytes(mkCat(c.s.bytesToString(c.s.norm(c.args[0])), quoteText(c.s.norm(c.args[1]))), tByte)
		},
		"go/format.Source": gofmtModel,

		"(time.Time).IsZero": func(c *callCtx) Val {
			c.args[0] = c.s.norm(c.args[0])
			if show(c.args[0]) == show(zero(c.fn.Signature.Recv().Type())) {
				return mkBool(true)
			}
			return pure(c)
		},

		// buffers
		"(*bytes.Buffer).String": bufRW(true), "(*bytes.Buffer).Bytes": bufRW(true), "(*strings.Builder).String": bufRW(true),
		"(*bytes.Buffer).Len":      func(c *callCtx) Val { _, d := c.buf(c.args[0]); return c.s.norm(c.s.strLen(strOf(d))) },
		"(*strings.Builder).Len":   func(c *callCtx) Val { _, d := c.buf(c.args[0]); return c.s.norm(c.s.strLen(strOf(d))) },
		"(*bytes.Buffer).Reset":    func(c *callCtx) Val { p, _ := c.buf(c.args[0]); c.s.store(p, Ext{"buf", Cat{}}); return nil },
		"(*strings.Builder).Reset": func(c *callCtx) Val { p, _ := c.buf(c.args[0]); c.s.store(p, Ext{"buf", Cat{}}); return nil },
		"(*bytes.Buffer).Truncate": func(c *callCtx) Val {
			if n, ok := constInt(c.s.norm(c.args[1])); ok && n == 0 {
				p, _ := c.buf(c.args[0])
				c.s.store(p, Ext{"buf", Cat{}})
				return nil
			}
			p, d := c.buf(c.args[0])
			c.s.store(p, Ext{"buf", c.s.substr(strOf(d), mkInt(0), c.s.norm(c.args[1]))})
			return nil
		},
		"(*bytes.Buffer).Grow": noop, "(*strings.Builder).Grow": noop,
		"(*bytes.Buffer).WriteString": func(c *callCtx) Val {
			t := c.s.norm(c.args[1])
			c.bufWrite(c.args[0], t)
			return Tuple{[]Val{c.s.strLen2(t), nilErr()}}
		},
		"(*bytes.Buffer).Write": func(c *callCtx) Val {
			t := c.s.bytesToString(c.s.norm(c.args[1]))
			c.bufWrite(c.args[0], t)
			return Tuple{[]Val{c.s.strLen2(t), nilErr()}}
		},
		"(*bytes.Buffer).WriteByte": func(c *callCtx) Val { c.bufWrite(c.args[0], byteText(c, c.args[1])); return nilErr() },
		"(*bytes.Buffer).WriteRune": func(c *callCtx) Val {
			c.bufWrite(c.args[0], byteText(c, c.args[1]))
			return Tuple{[]Val{mkInt(1), nilErr()}}
		},
		"(*bytes.Buffer).WriteTo": func(c *callCtx) Val {
			p, d := c.buf(c.args[0])
			v := c.invokeWrite(c.args[1], strOf(d))
			c.s.store(p, Ext{"buf", Cat{}})
			if !c.pushed {
				t := v.(Tuple)
				return Tuple{[]Val{t.V[0], t.V[1]}}
			}
			return v
		},
		"bytes.NewBuffer": func(c *callCtx) Val {
			t := c.s.bytesToString(c.s.norm(c.args[0]))
			id := c.s.alloc(derefT(c.retType(0)), Ext{"buf", mkCat(t)}, "buffer")
			return Ptr{Obj: id}
		},
		"bytes.NewBufferString": func(c *callCtx) Val {
			id := c.s.alloc(derefT(c.retType(0)), Ext{"buf", mkCat(c.s.norm(c.args[0]))}, "buffer")
			return Ptr{Obj: id}
		},

		// regexps
		"regexp.MustCompile":           func(c *callCtx) Val { return c.compile(c.args[0], true) },
		"regexp.Compile":               func(c *callCtx) Val { return c.compile(c.args[0], false) },
		"(*regexp.Regexp).String":      func(c *callCtx) Val { return c.reSrc(c.args[0]) },
		"(*regexp.Regexp).MatchString": func(c *callCtx) Val { return c.match(c.reSrc(c.args[0]), c.args[1]) },
		"(*regexp.Regexp).Match": func(c *callCtx) Val {
			return c.match(c.reSrc(c.args[0]), c.s.bytesToString(c.s.norm(c.args[1])))
		},
		"regexp.MatchString": func(c *callCtx) Val {
			r := c.compile(c.args[0], false).(Tuple)
			if c.s.isNil(r.V[0]) {
				return Tuple{[]Val{mkBool(false), r.V[1]}}
			}
			return Tuple{[]Val{c.match(c.args[0], c.args[1]), nilErr()}}
		},

		// arithmetic
		"math.Floor": mathFn("floor"), "math.Trunc": mathFn("ftrunc"), "math.Ceil": mathFn("ceil"), "math.Round": mathFn("round"), "math.Abs": mathFn("abs"),
		"math.Mod": func(c *callCtx) Val {
			a, b := c.s.norm(c.args[0]), c.s.norm(c.args[1])
			c.args[0], c.args[1] = a, b
			if v, ok := constCall(c.name, c.args, c.fn.Signature); ok {
				return v
			}
			return mkTerm("mod", tFloat, a, b)
		},
		"math.Remainder": func(c *callCtx) Val { return mkTerm("mod", tFloat, c.s.norm(c.args[0]), c.s.norm(c.args[1])) },
		"math.IsNaN":     func(c *callCtx) Val { return mkBool(false) },
		"math.IsInf":     func(c *callCtx) Val { return mkBool(false) },
		"math.Modf": func(c *callCtx) Val {
			a := c.s.norm(c.args[0])
			return Tuple{[]Val{mkTerm("floor", tFloat, a), mkTerm("mod", tFloat, a, Const{constant.MakeFloat64(1), tFloat})}}
		},
		"unicode/utf8.RuneCountInString": func(c *callCtx) Val {
			v := c.s.norm(c.args[0])
			if r, ok := constCall(c.name, []Val{v}, c.fn.Signature); ok {
				return r
			}
			return c.s.runeCount(v)
		},
		"unicode/utf8.RuneCount": func(c *callCtx) Val { return c.s.runeCount(c.s.norm(c.s.bytesToString(c.args[0]))) },

		// locks
		"(*sync.Mutex).Lock": func(c *callCtx) Val { return c.lock(true) }, "(*sync.Mutex).Unlock": func(c *callCtx) Val { return c.unlock(true) },
		"(*sync.RWMutex).Lock": func(c *callCtx) Val { return c.lock(true) }, "(*sync.RWMutex).Unlock": func(c *callCtx) Val { return c.unlock(true) },
		"(*sync.RWMutex).RLock": func(c *callCtx) Val { return c.lock(false) }, "(*sync.RWMutex).RUnlock": func(c *callCtx) Val { return c.unlock(false) },
		"(*sync.Mutex).TryLock": func(c *callCtx) Val {
			if c.s.choose(2) == 0 {
				c.lock(true)
				return mkBool(true)
			}
			return mkBool(false)
		},
		"(*sync.Once).Do": func(c *callCtx) Val {
			p, x := c.extPtr("sync.Once")
			if x.Data != nil {
				return nil
			}
			c.setExt(p, Ext{x.Kind, mkBool(true)})
			return c.pushFn(c.args[1], nil)
		},
		"(*sync.WaitGroup).Add": noop, "(*sync.WaitGroup).Done": noop, "(*sync.WaitGroup).Wait": noop,
		"(*sync.Pool).Put": noop,
		"(*sync.Map).Load": func(c *callCtx) Val {
			_, x := c.extPtr("sync.Map")
			return syncMapGet(c, x, c.args[1])
		},
		"(*sync.Map).Store": func(c *callCtx) Val { syncMapPut(c, c.args[1], c.args[2]); return nil },
		"(*sync.Map).LoadOrStore": func(c *callCtx) Val {
			_, x := c.extPtr("sync.Map")
			r := syncMapGet(c, x, c.args[1]).(Tuple)
			if ok, _ := constBool(r.V[1]); ok {
				return r
			}
			syncMapPut(c, c.args[1], c.args[2])
			return Tuple{[]Val{c.args[2], mkBool(false)}}
		},
		"(*sync.Map).Delete": func(c *callCtx) Val {
			_, x := c.extPtr("sync.Map")
			if m, ok := x.Data.(Map); ok {
				sh := c.s.shared
				c.s.shared = 0
				c.s.mapDelete(m, c.args[1])
				c.s.shared = sh
			}
			return nil
		},

		// reflection
		"reflect.ValueOf":   func(c *callCtx) Val { return c.s.valueOf(c.args[0]) },
		"reflect.TypeOf":    func(c *callCtx) Val { return c.s.typeOfVal(c.args[0]) },
		"reflect.PtrTo":     func(c *callCtx) Val { return RT{T: types.NewPointer(c.rtArg(0))} },
		"reflect.PointerTo": func(c *callCtx) Val { return RT{T: types.NewPointer(c.rtArg(0))} },
		"reflect.SliceOf":   func(c *callCtx) Val { return RT{T: types.NewSlice(c.rtArg(0))} },
		"reflect.Zero":      func(c *callCtx) Val { t := c.rtArg(0); return RV{Valid: true, T: t, V: zero(t)} },
		"reflect.New": func(c *callCtx) Val {
			t := c.rtArg(0)
			id := c.s.alloc(t, zero(t), "reflect.New")
			return RV{Valid: true, T: types.NewPointer(t), V: Ptr{Obj: id}}
		},
		"reflect.MakeMap": func(c *callCtx) Val {
			t := c.rtArg(0)
			m := under(t).(*types.Map)
			id := c.s.alloc(t, MapData{KT: m.Key(), VT: m.Elem()}, "reflect.MakeMap")
			return RV{Valid: true, T: t, V: Map{id}}
		},
		"reflect.Indirect": func(c *callCtx) Val {
			r := asRV(c.s, c.args[0])
			if r.Valid && r.kind() == reflect.Ptr {
				return c.s.rvElem(r)
			}
			return r
		},
		"reflect.DeepEqual": func(c *callCtx) Val { return mkBool(c.s.deepEq(c.args[0], c.args[1], 0)) },
		"(reflect.StructTag).Get": func(c *callCtx) Val {
			v, _ := tagOf(c)
			return mkStr(v)
		},
		"(reflect.StructTag).Lookup": func(c *callCtx) Val {
			v, ok := tagOf(c)
			return Tuple{[]Val{mkStr(v), mkBool(ok)}}
		},
		"(reflect.Kind).String": func(c *callCtx) Val {
			if n, ok := constInt(c.s.norm(c.args[0])); ok {
				return mkStr(reflect.Kind(n).String())
			}
			return pure(c)
		},
		"(*reflect.rtype).String": pure,

		// JSON
		"encoding/json.Marshal": func(c *callCtx) Val {
			v := c.s.norm(c.args[0])
			if dt, _ := c.s.ifaceParts(v); dt != nil && plainJSON(c.e, dt) {
				c.e.push(c.s, c.e.Prog.redirect["plain"], []Val{v}, nil, c.mode, c.dst)
				c.pushed = true
				return nil
			}
			return Tuple{[]Val{c.s.stringToBytes(mkTerm("json", tString, v), tByte), nilErr()}}
		},
		"encoding/json.Unmarshal": func(c *callCtx) Val {
			src := trimJSON(c.s.bytesToString(c.s.norm(c.args[0])))
			if text, ok := constStr(src); ok {
				dt, dv := c.s.ifaceParts(c.args[1])
				if p, isPtr := dv.(Ptr); isPtr && dt != nil {
					v, ok := c.s.constJSON(text, derefT(dt))
					if !ok {
						c.s.setMon("err:encoding/json.Unmarshal", 1)
						return mkErr("encoding/json.Unmarshal")
					}
					c.s.store(p, v)
					return nilErr()
				}
			}
			if t, ok := src.(*Term); !ok || t.Op != "json" {
				dt, _ := c.s.ifaceParts(c.args[1])
				if !c.s.truth(mkTerm("isjson<"+typeKey(dt)+">", tBool, src)) {
					c.s.setMon("err:encoding/json.Unmarshal", 1)
					return mkErr("encoding/json.Unmarshal")
				}
			}
			c.decodeInto(c.args[1], src)
			return nilErr()
		},
		// operating system
		"os.Getwd": effect, "os.Rename": effect, "os.Stat": effect,
		"github.com/lestrrat-go/structinfo.StructFieldFromJSONName": func(c *callCtx) Val {
			r, ok := c.s.norm(c.args[0]).(RV)
			n, ok2 := constStr(c.s.norm(c.args[1]))
			if !ok || !ok2 || r.Opq != nil {
				c.s.fail("struct field of an unknown name or value")
			}
			if !r.Valid || r.kind() != reflect.Struct {
				return mkStr("")
			}
			return mkStr(jsonFields(under(r.T).(*types.Struct))[n])
		},
		"net/url.Parse": func(c *callCtx) Val {
			txt, ok := constStr(c.s.norm(c.args[0]))
			if !ok {
				return pure(c)
			}
			u, err := url.Parse(txt)
			if err != nil {
				return Tuple{[]Val{Nil{c.retType(0)}, mkErr("url.Parse")}}
			}
			ut := c.retType(0).(*types.Pointer).Elem()
			z := zero(ut).(Struct)
			st := under(ut).(*types.Struct)
			f := append([]Val(nil), z.F...)
			for i := range f {
				var x string
				switch st.Field(i).Name() {
				case "Scheme":
					x = u.Scheme
				case "Opaque":
					x = u.Opaque
				case "Host":
					x = u.Host
				case "Path":
					x = u.Path
				case "RawPath":
					x = u.RawPath
				case "RawQuery":
					x = u.RawQuery
				case "Fragment":
					x = u.Fragment
				case "RawFragment":
					x = u.RawFragment
				default:
					continue
				}
				f[i] = mkStr(x)
			}
			z.F = f
			return Tuple{[]Val{Ptr{c.s.alloc(ut, z, "url"), ""}, nilErr()}}
		},
	}
	for n, f := range rvMethods() {
		models["(reflect.Value)."+n] = f
	}
	models["(*reflect.MapIter).Next"] = func(c *callCtx) Val { return c.s.mapIterNext(c) }
	for i, n := range []string{"Key", "Value"} {
		i := i + 1
		models["(*reflect.MapIter)."+n] = func(c *callCtx) Val {
			p, ok := c.s.norm(c.args[0]).(Ptr)
			if !ok {
				c.s.fail("%s of an unknown iterator", c.name)
			}
			r := c.s.load(p).(Struct).F[i].(RV)
			if !r.Valid {
				c.s.goPanic("MapIter." + c.fn.Name() + " called before Next")
			}
			return r
		}
	}
	for _, n := range []string{"Index", "LastIndex", "Contains", "ToLower", "ToUpper", "TrimSpace", "Replace", "ReplaceAll", "Repeat", "EqualFold", "Trim", "TrimLeft", "TrimRight",
		"Count", "Split", "SplitN", "Fields", "ContainsRune", "ContainsAny", "IndexAny", "Title", "IndexByte", "IndexRune", "LastIndexByte", "Cut", "SplitAfter"} {
		models["strings."+n] = strModel
	}
	models["internal/bytealg.IndexByteString"] = pure
	delete(models, "strings.IndexByte")
	models["strings.IndexByte"] = strModel
	models["strings.Compare"] = func(c *callCtx) Val {
		a, b := c.s.norm(c.args[0]), c.s.norm(c.args[1])
		if c.s.cmpStr(token.LSS, a, b) {
			return mkInt(-1)
		}
		if c.s.eqStr(a, b) {
			return mkInt(0)
		}
		return mkInt(1)
	}
	models["math/bits.Len"] = pure
	models["math/bits.Len64"] = pure
	models["unicode/utf8.DecodeRuneInString"] = pure
	for _, k := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64", "Value", "Pointer"} {
		models["(*sync/atomic."+k+").Load"] = atomicLoad
		models["(*sync/atomic."+k+").Store"] = func(c *callCtx) Val {
			p, x := c.extPtr("atomic")
			c.setExt(p, Ext{x.Kind, c.args[1]})
			return nil
		}
		models["(*sync/atomic."+k+").Add"] = func(c *callCtx) Val {
			p, x := c.extPtr("atomic")
			d := x.Data
			if d == nil {
				d = zero(c.retType(0))
			}
			v := c.s.arith(token.ADD, d, c.args[1], c.retType(0))
			c.setExt(p, Ext{x.Kind, v})
			return v
		}
		models["(*sync/atomic."+k+").CompareAndSwap"] = func(c *callCtx) Val {
			p, x := c.extPtr("atomic")
			d := x.Data
			if d == nil {
				d = zero(c.fn.Signature.Params().At(0).Type())
			}
			if c.s.eq(d, c.args[1]) {
				c.setExt(p, Ext{x.Kind, c.args[2]})
				return mkBool(true)
			}
			return mkBool(false)
		}
	}
	for n, f := range intrinsics() {
		models[n] = f
	}
	for n, f := range webIntrinsics() {
		models[vpkg+n] = f
	}
	for n, f := range webModels() {
		models[n] = f
	}
}

func atomicLoad(c *callCtx) Val {
	_, x := c.extPtr("atomic")
	if x.Data == nil {
		return zero(c.retType(0))
	}
	return x.Data
}

// strModel evaluates string functions, splitting constants out of lists.
func strModel(c *callCtx) Val {
	for i, a := range c.args {
		c.args[i] = c.s.norm(a)
	}
	if v, ok := constCall(c.name, c.args, c.fn.Signature); ok {
		return v
	}
	all := true
	for _, a := range c.args {
		if !isConst(a) {
			all = false
		}
	}
	if all {
		switch c.name {
		case "strings.Split", "strings.Fields", "strings.SplitN", "strings.SplitAfter":
			a, _ := constStr(c.args[0])
			var parts []string
			switch c.name {
			case "strings.Fields":
				parts = strings.Fields(a)
			case "strings.Split":
				b, _ := constStr(c.args[1])
				parts = strings.Split(a, b)
			case "strings.SplitAfter":
				b, _ := constStr(c.args[1])
				parts = strings.SplitAfter(a, b)
			default:
				b, _ := constStr(c.args[1])
				n, _ := constInt(c.args[2])
				parts = strings.SplitN(a, b, n)
			}
			var es []Val
			for _, p := range parts {
				es = append(es, mkStr(p))
			}
			return c.s.newSlice(es, tString)
		}
	}
	if v, ok := charsModel(c); ok {
		return v
	}
	if v, ok := containsModel(c); ok {
		return v
	}
	return c.s.opaqueResult(c.name, c.fn.Signature, c.args)
}

// charsModel evaluates string functions on strings of known length.
func charsModel(c *callCtx) (Val, bool) {
	s := c.s
	if len(c.args) == 2 {
		// a symbolic character in a constant string
		if set, ok := constStr(c.args[0]); ok && ascii(set) {
			switch c.name {
			case "strings.ContainsRune", "strings.IndexByte", "strings.IndexRune":
				if ch, ok := c.s.norm(c.args[1]).(*Term); ok && isNumeric(ch.T) {
					set, _ := chars(mkStr(set))
					if c.name == "strings.ContainsRune" {
						return mkBool(s.memberOf(ch, set)), true
					}
					if !s.memberOf(ch, set) {
						return mkInt(-1), true
					}
					return mkTerm("indexof", tInt, c.args[0], ch), true
				}
			}
		}
	}
	if len(c.args) < 2 || !hasChars(c.args[0]) {
		return nil, false
	}
	cs, ok := chars(c.args[0])
	if !ok {
		return nil, false
	}
	var sep []Val
	if n, ok := constInt(c.args[1]); ok {
		sep = []Val{mkInt(n)}
		if n < 0 || n > 127 {
			return nil, false
		}
	} else if sep, ok = chars(c.args[1]); !ok || len(sep) == 0 {
		return nil, false
	}
	at := func(i int) bool {
		if i < 0 || i+len(sep) > len(cs) {
			return false
		}
		for j := range sep {
			if !s.cmpNum(token.EQL, cs[i+j], sep[j]) {
				return false
			}
		}
		return true
	}
	any := func(i int) bool { return s.memberOf(cs[i], sep) }
	first := func(f func(int) bool) int {
		for i := range cs {
			if f(i) {
				return i
			}
		}
		return -1
	}
	last := func() int {
		for i := len(cs) - 1; i >= 0; i-- {
			if at(i) {
				return i
			}
		}
		return -1
	}
	split := func(n int) []Val {
		var out []Val
		start := 0
		for i := 0; i+len(sep) <= len(cs) && (n < 0 || len(out)+1 < n); i++ {
			if at(i) {
				out = append(out, fromChars(cs[start:i]))
				start = i + len(sep)
				i = start - 1
			}
		}
		return append(out, fromChars(cs[start:]))
	}
	switch c.name {
	case "strings.Contains", "strings.ContainsRune":
		return mkBool(first(at) >= 0), true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		return mkInt(first(at)), true
	case "strings.LastIndex", "strings.LastIndexByte":
		return mkInt(last()), true
	case "strings.ContainsAny":
		return mkBool(first(any) >= 0), true
	case "strings.IndexAny":
		return mkInt(first(any)), true
	case "strings.Count":
		return mkInt(len(split(-1)) - 1), true
	case "strings.Split":
		return s.newSlice(split(-1), tString), true
	case "strings.SplitN":
		if n, ok := constInt(c.args[2]); ok && n != 0 {
			return s.newSlice(split(n), tString), true
		}
	case "strings.Cut":
		if i := first(at); i >= 0 {
			return Tuple{[]Val{fromChars(cs[:i]), fromChars(cs[i+len(sep):]), mkBool(true)}}, true
		}
		return Tuple{[]Val{c.args[0], mkStr(""), mkBool(false)}}, true
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		lo, hi := 0, len(cs)
		for c.name != "strings.TrimRight" && lo < hi && any(lo) {
			lo++
		}
		for c.name != "strings.TrimLeft" && hi > lo && any(hi-1) {
			hi--
		}
		return fromChars(cs[lo:hi]), true
	}
	return nil, false
}

// memberOf decides whether a character is one of some characters, range by range.
func (s *State) memberOf(ch Val, set []Val) bool {
	var ns []int
	for _, x := range set {
		n, ok := constInt(x)
		if !ok {
			for _, y := range set {
				if s.cmpNum(token.EQL, ch, y) {
					return true
				}
			}
			return false
		}
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for i := 0; i < len(ns); {
		j := i
		for j+1 < len(ns) && ns[j+1] <= ns[j]+1 {
			j++
		}
		if ns[i] == ns[j] {
			if s.cmpNum(token.EQL, ch, mkInt(ns[i])) {
				return true
			}
		} else if s.cmpNum(token.GEQ, ch, mkInt(ns[i])) && s.cmpNum(token.LEQ, ch, mkInt(ns[j])) {
			return true
		}
		i = j + 1
	}
	return false
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

// charsOf is the set of characters an input string is made of, if known.
func charsOf(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || !strings.HasPrefix(t.Op, "in:") {
		return "", false
	}
	i := strings.Index(t.Op, "|chars=")
	if i < 0 {
		return "", false
	}
	return t.Op[i+7:], true
}

// runeCount is the number of characters of a string.
func (s *State) runeCount(v Val) Val {
	if str, ok := constStr(v); ok {
		return mkInt(utf8.RuneCountInString(str))
	}
	if c, ok := v.(Cat); ok {
		var r Val = mkInt(0)
		for _, p := range c.P {
			r = s.arith(token.ADD, r, s.runeCount(p), tInt)
		}
		return r
	}
	if x, ok := v.(*Term); ok && x.Op == "char" {
		return mkInt(1)
	}
	t := mkTerm("runes", tInt, v)
	n := s.norm(t)
	if nt, ok := n.(*Term); ok && nt.Op == "runes" {
		// never more characters than bytes, and none only in the empty string
		if !s.cmpNum(token.LEQ, nt, s.strLen(v)) {
			s.prune()
		}
	}
	return s.norm(t)
}

// containsModel decides whether a string contains a character.
func containsModel(c *callCtx) (Val, bool) {
	if len(c.args) < 2 {
		return nil, false
	}
	var needle string
	any := false
	switch c.name {
	case "strings.Contains", "strings.Index", "strings.LastIndex":
		n, ok := constStr(c.args[1])
		if !ok {
			return nil, false
		}
		needle = n
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte", "strings.LastIndexByte":
		n, ok := constInt(c.args[1])
		if !ok {
			return nil, false
		}
		needle = string(rune(n))
	case "strings.ContainsAny", "strings.IndexAny":
		n, ok := constStr(c.args[1])
		if !ok {
			return nil, false
		}
		needle, any = n, true
	default:
		return nil, false
	}
	if needle == "" {
		return nil, false
	}
	has := func(n string) bool {
		possible := false
		for _, p := range catParts(c.args[0]) {
			if cs, ok := constStr(p); ok {
				if strings.Contains(cs, n) {
					return true
				}
				continue
			}
			if set, ok := charsOf(p); ok {
				all := true
				for _, r := range n {
					if !strings.ContainsRune(set, r) {
						all = false
					}
				}
				if !all && utf8.RuneCountInString(n) == 1 {
					continue
				}
			}
			possible = true
		}
		if !possible && utf8.RuneCountInString(n) == 1 {
			return false
		}
		return c.s.truth(mkTerm("contains", tBool, c.args[0], mkStr(n)))
	}
	found := false
	if any {
		for _, r := range needle {
			if has(string(r)) {
				found = true
				break
			}
		}
	} else {
		found = has(needle)
	}
	if strings.Contains(c.name, "Index") {
		if !found {
			return mkInt(-1), true
		}
		t := mkTerm(c.name, tInt, c.args...)
		if !c.s.cmpNum(token.GEQ, t, mkInt(0)) {
			c.s.prune()
		}
		return t, true
	}
	return mkBool(found), true
}

func byteText(c *callCtx, v Val) Val {
	v = c.s.norm(v)
	if n, ok := constInt(v); ok {
		return mkStr(string(rune(n)))
	}
	return mkTerm("chr", tString, v)
}

func mathFn(op string) model {
	return func(c *callCtx) Val {
		v := c.s.norm(c.args[0])
		if r, ok := constCall(c.name, []Val{v}, c.fn.Signature); ok {
			return r
		}
		return mkTerm(op, tFloat, v)
	}
}

func syncMapGet(c *callCtx, x Ext, k Val) Val {
	m, ok := x.Data.(Map)
	if !ok {
		return Tuple{[]Val{Nil{tAny}, mkBool(false)}}
	}
	sh := c.s.shared
	c.s.shared = 0
	defer func() { c.s.shared = sh }()
	return c.s.lookup(m, k, types.NewMap(tAny, tAny), true, nil)
}

func syncMapPut(c *callCtx, k, v Val) {
	p, x := c.extPtr("sync.Map")
	m, ok := x.Data.(Map)
	sh := c.s.shared
	c.s.shared = 0
	defer func() { c.s.shared = sh }()
	if !ok {
		m = Map{c.s.alloc(types.NewMap(tAny, tAny), MapData{KT: tAny, VT: tAny}, "sync.Map")}
		c.s.store(p, Ext{x.Kind, m})
	}
	c.s.mapUpdate(m, k, v)
}

func tagOf(c *callCtx) (string, bool) {
	tag, ok1 := constStr(c.s.norm(c.args[0]))
	key, ok2 := constStr(c.s.norm(c.args[1]))
	if !ok1 || !ok2 {
		c.s.fail("opaque struct tag")
	}
	return tagGet(tag, key)
}

var _ = sort.Strings

// jsonFields maps property names to field names the way structinfo does.
func jsonFields(st *types.Struct) map[string]string {
	m := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			t := f.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if es, ok := under(t).(*types.Struct); ok {
				for k, v := range jsonFields(es) {
					m[k] = v
				}
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		if tag == "" || tag[0] == ',' {
			m[f.Name()] = f.Name()
			continue
		}
		if j := strings.IndexByte(tag, ','); j >= 0 {
			tag = tag[:j]
		}
		m[tag] = f.Name()
	}
	return m
}

func init() {
	for _, m := range []string{"WriteString", "Write", "WriteByte", "WriteRune"} {
		models["(*strings.Builder)."+m] = models["(*bytes.Buffer)."+m]
	}
}
