package ai

import (
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var kindOf = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
	types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8,
	types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64,
	types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func typeKind(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		return kindOf[u.Kind()]
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (p *Program) kindConst(k reflect.Kind) Val {
	return Const{constant.MakeInt64(int64(k)), p.reflectKindT}
}

// content returns the value held by an RV.
func (s *State) content(r RV) Val {
	if r.Addr != nil {
		return s.load(*r.Addr)
	}
	return r.V
}

// valueOf implements reflect.ValueOf.
func (s *State) valueOf(v Val) Val {
	v = s.norm(v)
	if c, ok := v.(Choice); ok {
		v = c.V[s.choose(len(c.V))]
	}
	switch x := v.(type) {
	case Nil:
		return RV{}
	case Iface:
		return RV{Valid: true, T: x.Dyn, V: x.V}
	case RT:
		return RV{Valid: true, T: types.NewPointer(types.NewStruct(nil, nil)), V: x}
	case *Term:
		if s.isNil(x) {
			return RV{}
		}
		s.fail("reflect.ValueOf of an opaque value %s", show(x))
	}
	s.fail("reflect.ValueOf of %T", v)
	return nil
}

func (r RV) kind() reflect.Kind {
	if !r.Valid {
		return reflect.Invalid
	}
	return typeKind(r.T)
}

func (s *State) rvIface(r RV) Val {
	v := s.content(r)
	if isIface(r.T) {
		return s.norm(v)
	}
	return Iface{r.T, v}
}

func (s *State) rvElem(r RV) RV {
	switch r.kind() {
	case reflect.Ptr:
		el := under(r.T).(*types.Pointer).Elem()
		switch p := s.norm(s.content(r)).(type) {
		case Nil:
			return RV{}
		case Ptr:
			return RV{Valid: true, T: el, Addr: &p, RO: r.RO, Embed: r.Embed}
		case *Term:
			if s.isNil(p) {
				return RV{}
			}
			return RV{Valid: true, T: el, V: mkTerm("*", el, p), RO: r.RO, Embed: r.Embed}
		}
	case reflect.Interface:
		v := s.norm(s.content(r))
		switch x := v.(type) {
		case Nil:
			return RV{}
		case Iface:
			return RV{Valid: true, T: x.Dyn, V: x.V, RO: r.RO}
		}
		s.fail("Elem of interface holding %T", v)
	}
	s.goPanic("reflect: call of reflect.Value.Elem on " + r.kind().String() + " Value")
	return RV{}
}

func (s *State) rvIsNil(r RV) bool {
	switch r.kind() {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
		return s.isNil(s.norm(s.content(r)))
	}
	s.goPanic("reflect: call of reflect.Value.IsNil on " + r.kind().String() + " Value")
	return false
}

// field returns field i of a struct RV.
func (s *State) rvField(r RV, i int) RV {
	st := under(r.T).(*types.Struct)
	f := st.Field(i)
	// Values reached through an unexported embedded field are read only
	// themselves, their exported fields are not.
	ro := r.RO && !r.Embed || !f.Exported()
	embed := ro && f.Embedded() && !(r.RO && !r.Embed)
	if r.Addr != nil {
		p := Ptr{r.Addr.Obj, r.Addr.Path + "/" + strconv.Itoa(i)}
		return RV{Valid: true, T: f.Type(), Addr: &p, RO: ro, Embed: embed}
	}
	switch x := r.V.(type) {
	case Struct:
		return RV{Valid: true, T: f.Type(), V: x.F[i], RO: ro, Embed: embed}
	case *Term:
		return RV{Valid: true, T: f.Type(), V: s.component(x, i), RO: ro, Embed: embed}
	}
	s.fail("field of %T", r.V)
	return RV{}
}

func (s *State) rvMethod(r RV, name string) RV {
	ms := types.NewMethodSet(r.T)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		fn := sel.Obj().(*types.Func)
		if fn.Name() != name || !fn.Exported() {
			continue
		}
		sig := sel.Type().(*types.Signature)
		if isIface(r.T) {
			v := s.norm(s.content(r))
			if s.isNil(v) {
				s.goPanic("reflect: Method on nil interface value")
			}
			iv := v.(Iface)
			m := s.eng.Prog.SSA.LookupMethod(iv.Dyn, fn.Pkg(), name)
			return RV{Valid: true, T: sig, V: Func{Fn: m, Name: "bound", Binds: []Val{iv.V}}, RO: r.RO}
		}
		m := s.eng.Prog.SSA.MethodValue(sel)
		if m == nil {
			s.fail("no method value %s", name)
		}
		return RV{Valid: true, T: sig, V: Func{Fn: m, Name: "bound", Binds: []Val{s.content(r)}}, RO: r.RO}
	}
	return RV{}
}

func mustValid(s *State, r RV, m string) {
	if !r.Valid {
		s.goPanic("reflect: call of reflect.Value." + m + " on zero Value")
	}
}

func (s *State) assignTo(v Val, from, to types.Type) Val {
	if isIface(to) && !isIface(from) {
		return s.toIface(v, from)
	}
	return retypeVal(v, to)
}

func retypeVal(v Val, t types.Type) Val {
	switch v.(type) {
	case Const, *Term, Nil, Struct:
		return retype(v, t)
	}
	return v
}

func (s *State) rvCheckSet(r RV, m string) {
	mustValid(s, r, m)
	if r.RO {
		s.goPanic("reflect: reflect.Value." + m + " using value obtained using unexported field")
	}
	if r.Addr == nil {
		s.goPanic("reflect: reflect.Value." + m + " using unaddressable value")
	}
}

func (s *State) mapOf(r RV, m string) Val {
	if r.kind() != reflect.Map {
		s.goPanic("reflect: call of reflect.Value." + m + " on " + r.kind().String() + " Value")
	}
	return s.norm(s.content(r))
}

func asRV(s *State, v Val) RV {
	switch x := v.(type) {
	case RV:
		return x
	case Choice:
		return asRV(s, x.V[s.choose(len(x.V))])
	}
	s.fail("not a reflect.Value: %T", v)
	return RV{}
}

func rvMethods() map[string]func(c *callCtx) Val {
	T := func(c *callCtx) RV { return asRV(c.s, c.args[0]) }
	m := map[string]func(c *callCtx) Val{
		"Kind":    func(c *callCtx) Val { return c.e.Prog.kindConst(T(c).kind()) },
		"IsValid": func(c *callCtx) Val { return mkBool(T(c).Valid) },
		"Type": func(c *callCtx) Val {
			r := T(c)
			mustValid(c.s, r, "Type")
			return RT{T: r.T}
		},
		"Elem":  func(c *callCtx) Val { return c.s.rvElem(T(c)) },
		"IsNil": func(c *callCtx) Val { return mkBool(c.s.rvIsNil(T(c))) },
		"IsZero": func(c *callCtx) Val {
			r := T(c)
			mustValid(c.s, r, "IsZero")
			return mkBool(c.s.eq(c.s.content(r), zero(r.T)))
		},
		"Interface": func(c *callCtx) Val {
			r := T(c)
			mustValid(c.s, r, "Interface")
			if r.RO {
				c.s.goPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			return c.s.rvIface(r)
		},
		"CanInterface": func(c *callCtx) Val {
			r := T(c)
			mustValid(c.s, r, "CanInterface")
			return mkBool(!r.RO)
		},
		"CanSet":  func(c *callCtx) Val { r := T(c); return mkBool(r.Addr != nil && !r.RO) },
		"CanAddr": func(c *callCtx) Val { return mkBool(T(c).Addr != nil) },
		"Addr": func(c *callCtx) Val {
			r := T(c)
			if r.Addr == nil {
				c.s.goPanic("reflect.Value.Addr of unaddressable value")
			}
			return RV{Valid: true, T: types.NewPointer(r.T), V: *r.Addr, RO: r.RO}
		},
		"Len": func(c *callCtx) Val {
			r := T(c)
			switch r.kind() {
			case reflect.Slice:
				return c.s.sliceLen(c.s.norm(c.s.content(r)))
			case reflect.Map:
				return c.s.mapLen(c.s.content(r))
			case reflect.String:
				return c.s.strLen(c.s.norm(c.s.content(r)))
			case reflect.Array:
				return mkInt(int(under(r.T).(*types.Array).Len()))
			}
			c.s.goPanic("reflect: call of reflect.Value.Len on " + r.kind().String() + " Value")
			return nil
		},
		"Index": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			switch r.kind() {
			case reflect.Slice:
				et := under(r.T).(*types.Slice).Elem()
				switch x := s.norm(s.content(r)).(type) {
				case Nil:
					s.goPanic("reflect: slice index out of range")
				case Slice:
					if ex, ok := s.heap[x.Obj].V.(Ext); ok && x.Hi < 0 {
						if isRune(x.ET) {
							s.fail("Index of runes")
						}
						return RV{Valid: true, T: et, V: s.strIndex(s.norm(ex.Data), c.args[1]), RO: r.RO}
					}
					k := s.resolveIndex(c.args[1], x, nil)
					p := Ptr{x.Obj, "/" + strconv.Itoa(k)}
					return RV{Valid: true, T: et, Addr: &p, RO: r.RO}
				default:
					s.fail("Index of %T", x)
				}
			case reflect.Array:
				at := under(r.T).(*types.Array)
				k := s.resolveIndex(c.args[1], Slice{Lo: 0, Hi: int(at.Len())}, nil)
				if r.Addr != nil {
					p := Ptr{r.Addr.Obj, r.Addr.Path + "/" + strconv.Itoa(k)}
					return RV{Valid: true, T: at.Elem(), Addr: &p, RO: r.RO}
				}
				return RV{Valid: true, T: at.Elem(), V: r.V.(Arr).E[k], RO: r.RO}
			case reflect.String:
				return RV{Valid: true, T: types.Typ[types.Uint8], V: s.strIndex(s.norm(s.content(r)), c.args[1])}
			}
			s.goPanic("reflect: call of reflect.Value.Index on " + r.kind().String() + " Value")
			return nil
		},
		"String": func(c *callCtx) Val {
			r := T(c)
			if !r.Valid {
				return mkStr("<invalid Value>")
			}
			if r.kind() != reflect.String {
				return mkStr("<" + rtString(r.T) + " Value>")
			}
			return retype(c.s.norm(c.s.content(r)), tString)
		},
		"Bool": func(c *callCtx) Val {
			r := T(c)
			if r.kind() != reflect.Bool {
				c.s.goPanic("reflect: call of reflect.Value.Bool on " + r.kind().String() + " Value")
			}
			return retypeVal(c.s.content(r), tBool)
		},
		"Float": func(c *callCtx) Val {
			r := T(c)
			if r.kind() != reflect.Float32 && r.kind() != reflect.Float64 {
				c.s.goPanic("reflect: call of reflect.Value.Float on " + r.kind().String() + " Value")
			}
			return retypeVal(c.s.content(r), tFloat)
		},
		"Int": func(c *callCtx) Val {
			r := T(c)
			if k := r.kind(); k < reflect.Int || k > reflect.Int64 {
				c.s.goPanic("reflect: call of reflect.Value.Int on " + r.kind().String() + " Value")
			}
			return retypeVal(c.s.content(r), types.Typ[types.Int64])
		},
		"Uint": func(c *callCtx) Val {
			r := T(c)
			if k := r.kind(); k < reflect.Uint || k > reflect.Uintptr {
				c.s.goPanic("reflect: call of reflect.Value.Uint on " + r.kind().String() + " Value")
			}
			return retypeVal(c.s.content(r), types.Typ[types.Uint64])
		},
		"MapKeys": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			mv := s.mapOf(r, "MapKeys")
			if _, ok := mv.(Nil); ok {
				return s.newSlice(nil, c.e.Prog.reflectValueT)
			}
			kt := under(r.T).(*types.Map).Key()
			mm, ok := mv.(Map)
			if !ok {
				s.fail("MapKeys of %T", mv)
			}
			s.access(mm.Obj, "", false)
			_, md, _ := s.mapData(mm)
			// unspecified order
			rest := append([]Entry(nil), md.E...)
			var es []Val
			var sums []bool
			for len(rest) > 0 {
				i := s.choose(len(rest))
				es = append(es, RV{Valid: true, T: kt, V: rest[i].K})
				sums = append(sums, rest[i].Sum)
				rest = append(rest[:i:i], rest[i+1:]...)
			}
			return s.buildSlice(es, sums, c.e.Prog.reflectValueT)
		},
		"MapIndex": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			mv := s.mapOf(r, "MapIndex")
			k := asRV(s, c.args[1])
			mt := under(r.T).(*types.Map)
			mustValid(s, k, "MapIndex key")
			if !types.AssignableTo(k.T, mt.Key()) {
				s.goPanic("reflect.Value.MapIndex: value of type " + typeKey(k.T) + " is not assignable to type " + typeKey(mt.Key()))
			}
			kv := s.assignTo(s.content(k), k.T, mt.Key())
			res := s.lookup(mv, kv, r.T, true, nil).(Tuple)
			if !s.truth(res.V[1]) {
				return RV{}
			}
			return RV{Valid: true, T: mt.Elem(), V: res.V[0], RO: r.RO || k.RO}
		},
		"SetMapIndex": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			mv := s.mapOf(r, "SetMapIndex")
			k := asRV(s, c.args[1])
			el := asRV(s, c.args[2])
			if r.RO {
				s.goPanic("reflect: SetMapIndex using value obtained using unexported field")
			}
			mt := under(r.T).(*types.Map)
			mustValid(s, k, "SetMapIndex key")
			if !types.AssignableTo(k.T, mt.Key()) {
				s.goPanic("reflect.Value.SetMapIndex: key type mismatch")
			}
			kv := s.assignTo(s.content(k), k.T, mt.Key())
			if !el.Valid {
				s.mapDelete(mv, kv)
				return nil
			}
			if !types.AssignableTo(el.T, mt.Elem()) {
				s.goPanic("reflect.Value.SetMapIndex: value of type " + typeKey(el.T) + " is not assignable to type " + typeKey(mt.Elem()))
			}
			s.mapUpdate(mv, kv, s.assignTo(s.content(el), el.T, mt.Elem()))
			return nil
		},
		"NumField": func(c *callCtx) Val {
			r := T(c)
			if r.kind() != reflect.Struct {
				c.s.goPanic("reflect: call of reflect.Value.NumField on " + r.kind().String() + " Value")
			}
			return mkInt(under(r.T).(*types.Struct).NumFields())
		},
		"Field": func(c *callCtx) Val {
			r := T(c)
			if r.kind() != reflect.Struct {
				c.s.goPanic("reflect: call of reflect.Value.Field on " + r.kind().String() + " Value")
			}
			n, ok := constInt(c.s.norm(c.args[1]))
			if !ok {
				c.s.fail("Field with unknown index")
			}
			if n < 0 || n >= under(r.T).(*types.Struct).NumFields() {
				c.s.goPanic("reflect: Field index out of range")
			}
			return c.s.rvField(r, n)
		},
		"FieldByName": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			if r.kind() != reflect.Struct {
				s.goPanic("reflect: call of reflect.Value.FieldByName on " + r.kind().String() + " Value")
			}
			name, ok := constStr(s.norm(c.args[1]))
			if !ok {
				s.fail("FieldByName with unknown name")
			}
			idx := fieldByName(r.T, name)
			if idx == nil {
				return RV{}
			}
			return s.fieldByIndex(r, idx)
		},
		"FieldByIndex": func(c *callCtx) Val {
			r := T(c)
			es, _, _ := c.s.points(c.s.norm(c.args[1]))
			var idx []int
			for _, v := range es {
				n, ok := constInt(v)
				if !ok {
					c.s.fail("FieldByIndex with unknown index")
				}
				idx = append(idx, n)
			}
			return c.s.fieldByIndex(r, idx)
		},
		"MethodByName": func(c *callCtx) Val {
			r := T(c)
			mustValid(c.s, r, "MethodByName")
			name, ok := constStr(c.s.norm(c.args[1]))
			if !ok {
				c.s.fail("MethodByName with unknown name")
			}
			return c.s.rvMethod(r, name)
		},
		"NumMethod": func(c *callCtx) Val {
			r := T(c)
			n := 0
			ms := types.NewMethodSet(r.T)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return mkInt(n)
		},
		"Call": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			if r.kind() != reflect.Func {
				s.goPanic("reflect: call of Call on " + r.kind().String() + " Value")
			}
			if r.RO {
				s.goPanic("reflect: reflect.Value.Call using value obtained using unexported field")
			}
			f, ok := s.norm(s.content(r)).(Func)
			if !ok {
				s.goPanic("reflect: call of nil function")
			}
			sig := under(r.T).(*types.Signature)
			in, _, _ := s.points(s.norm(c.args[1]))
			if len(in) != sig.Params().Len() {
				s.goPanic("reflect: Call with wrong number of input arguments")
			}
			var args []Val
			if f.Name == "bound" {
				args = append(args, f.Binds...)
			}
			for i, a := range in {
				av := asRV(s, a)
				mustValid(s, av, "Call argument")
				pt := sig.Params().At(i).Type()
				if !types.AssignableTo(av.T, pt) {
					s.goPanic("reflect: Call using " + typeKey(av.T) + " as type " + typeKey(pt))
				}
				args = append(args, s.assignTo(s.content(av), av.T, pt))
			}
			if f.Name == "bound" {
				f = Func{Fn: f.Fn}
			}
			res, pushed := c.e.callFn(s, f.Fn, f.Binds, args, c.dst, retReflect)
			if pushed {
				s.top().rtypes = sig.Results()
				c.pushed = true
				return nil
			}
			return s.reflectResults(res, sig.Results())
		},
		"Set": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			s.rvCheckSet(r, "Set")
			x := asRV(s, c.args[1])
			mustValid(s, x, "Set argument")
			if x.RO {
				s.goPanic("reflect: Set using value obtained using unexported field")
			}
			if !types.AssignableTo(x.T, r.T) {
				s.goPanic("reflect.Set: value of type " + typeKey(x.T) + " is not assignable to type " + typeKey(r.T))
			}
			s.store(*r.Addr, s.assignTo(s.content(x), x.T, r.T))
			return nil
		},
		"SetZero": func(c *callCtx) Val {
			r := T(c)
			c.s.rvCheckSet(r, "SetZero")
			c.s.store(*r.Addr, zero(r.T))
			return nil
		},
		"Convert": func(c *callCtx) Val {
			r := T(c)
			s := c.s
			mustValid(s, r, "Convert")
			to, ok := c.args[1].(RT)
			if !ok {
				s.goPanic("reflect.Value.Convert: nil type")
			}
			if !types.ConvertibleTo(r.T, to.T) {
				s.goPanic("reflect.Value.Convert: value of type " + typeKey(r.T) + " cannot be converted to type " + typeKey(to.T))
			}
			v := s.content(r)
			if isIface(to.T) {
				return RV{Valid: true, T: to.T, V: s.rvIface(r), RO: r.RO}
			}
			return RV{Valid: true, T: to.T, V: s.convert(v, r.T, to.T), RO: r.RO}
		},
		"CanConvert": func(c *callCtx) Val {
			r := T(c)
			to := c.args[1].(RT)
			return mkBool(types.ConvertibleTo(r.T, to.T))
		},
		"CanFloat": func(c *callCtx) Val { k := T(c).kind(); return mkBool(k == reflect.Float32 || k == reflect.Float64) },
		"CanInt":   func(c *callCtx) Val { k := T(c).kind(); return mkBool(k >= reflect.Int && k <= reflect.Int64) },
		"CanUint":  func(c *callCtx) Val { k := T(c).kind(); return mkBool(k >= reflect.Uint && k <= reflect.Uintptr) },
		"Comparable": func(c *callCtx) Val {
			r := T(c)
			return mkBool(!r.Valid || types.Comparable(r.T))
		},
		"Pointer": func(c *callCtx) Val { return mkTerm("ptrval", types.Typ[types.Uintptr], c.s.content(T(c))) },
		"MapRange": func(c *callCtx) Val {
			r := T(c)
			mv := c.s.mapOf(r, "MapRange")
			it := c.s.rangeOver(mv, r.T)
			id := c.s.alloc(nil, Struct{F: []Val{it, RV{}, RV{}, Iface{r.T, Nil{}}}}, "mapiter")
			return Ptr{Obj: id}
		},
		"Slice": func(c *callCtx) Val {
			c.s.fail("reflect.Value.Slice")
			return nil
		},
	}
	for name, kind := range map[string]types.Type{"SetString": tString, "SetBool": tBool, "SetInt": types.Typ[types.Int64], "SetUint": types.Typ[types.Uint64], "SetFloat": tFloat} {
		name, kt := name, kind
		m[name] = func(c *callCtx) Val {
			r := T(c)
			s := c.s
			s.rvCheckSet(r, name)
			if basicInfo(r.T)&basicInfo(kt) == 0 {
				s.goPanic("reflect: call of reflect.Value." + name + " on " + r.kind().String() + " Value")
			}
			s.store(*r.Addr, s.convert(c.args[1], kt, r.T))
			return nil
		}
	}
	return m
}

func (s *State) mapIterNext(c *callCtx) Val {
	p, ok := s.norm(c.args[0]).(Ptr)
	if !ok {
		s.fail("Next of an unknown iterator")
	}
	st := s.load(p).(Struct)
	mt := st.F[3].(Iface).Dyn
	u := under(mt).(*types.Map)
	it := s.heap[st.F[0].(Iter).Obj].V.(IterData)
	_ = it
	tup := types.NewTuple(types.NewVar(0, nil, "ok", tBool), types.NewVar(0, nil, "k", u.Key()), types.NewVar(0, nil, "v", u.Elem()))
	res := s.iterNextT(st.F[0], tup).(Tuple)
	if !s.truth(res.V[0]) {
		s.store(p, Struct{F: []Val{st.F[0], RV{}, RV{}, st.F[3]}})
		return mkBool(false)
	}
	s.store(p, Struct{F: []Val{st.F[0], RV{Valid: true, T: u.Key(), V: res.V[1]}, RV{Valid: true, T: u.Elem(), V: res.V[2]}, st.F[3]}})
	return mkBool(true)
}

// iterNextT advances a map iterator.
func (s *State) iterNextT(v Val, tt *types.Tuple) Val {
	n := &fakeNext{tt}
	return s.iterNextCore(v, n.tt)
}

type fakeNext struct{ tt *types.Tuple }

// fieldByName mirrors reflect.Type.FieldByName: breadth-first over embedded
// structs, ambiguous names hidden.
func fieldByName(t types.Type, name string) []int {
	type node struct {
		t   types.Type
		idx []int
	}
	cur := []node{{t, nil}}
	seen := map[string]bool{}
	for len(cur) > 0 {
		var next []node
		var found []int
		n := 0
		for _, c := range cur {
			ct := c.t
			if p, ok := under(ct).(*types.Pointer); ok {
				ct = p.Elem()
			}
			k := typeKey(ct)
			if seen[k] && len(c.idx) > 0 {
				continue
			}
			seen[k] = true
			st, ok := under(ct).(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				idx := append(append([]int(nil), c.idx...), i)
				if f.Name() == name {
					found = idx
					n++
					continue
				}
				if f.Embedded() {
					next = append(next, node{f.Type(), idx})
				}
			}
		}
		if n == 1 {
			return found
		}
		if n > 1 {
			return nil
		}
		cur = next
	}
	return nil
}

func (s *State) fieldByIndex(r RV, idx []int) RV {
	for i, k := range idx {
		if i > 0 && r.kind() == reflect.Ptr {
			if s.rvIsNil(r) {
				s.goPanic("reflect: indirection through nil pointer to embedded struct")
			}
			r = s.rvElem(r)
		}
		r = s.rvField(r, k)
	}
	return r
}

func rtString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// structField builds a reflect.StructField value.
func (s *State) structField(st *types.Struct, i int) Val {
	f := st.Field(i)
	sf := s.eng.Prog.structFieldT
	u := under(sf).(*types.Struct)
	v := zero(sf).(Struct)
	set := func(name string, x Val) {
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == name {
				v.F[j] = x
			}
		}
	}
	set("Name", mkStr(f.Name()))
	if !f.Exported() && f.Pkg() != nil {
		set("PkgPath", mkStr(f.Pkg().Path()))
	}
	set("Type", RT{T: f.Type()})
	set("Tag", Const{constant.MakeString(st.Tag(i)), s.eng.Prog.structTagT})
	set("Index", s.newSlice([]Val{mkInt(i)}, tInt))
	set("Anonymous", mkBool(f.Embedded()))
	return v
}

func (e *Engine) reflectType(s *State, name string, r RT, args []Val) Val {
	t := r.T
	k := typeKind(t)
	need := func(ks ...reflect.Kind) {
		for _, x := range ks {
			if x == k {
				return
			}
		}
		s.goPanic("reflect: " + name + " of " + k.String() + " type " + typeKey(t))
	}
	switch name {
	case "Kind":
		return e.Prog.kindConst(k)
	case "String":
		return mkStr(rtString(t))
	case "Name":
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return mkStr(n.Obj().Name())
		}
		if b, ok := t.(*types.Basic); ok {
			return mkStr(b.Name())
		}
		return mkStr("")
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return mkStr("")
	case "Elem":
		switch u := under(t).(type) {
		case *types.Pointer:
			return RT{T: u.Elem()}
		case *types.Slice:
			return RT{T: u.Elem()}
		case *types.Array:
			return RT{T: u.Elem()}
		case *types.Map:
			return RT{T: u.Elem()}
		case *types.Chan:
			return RT{T: u.Elem()}
		}
		need()
	case "Key":
		need(reflect.Map)
		return RT{T: under(t).(*types.Map).Key()}
	case "NumField":
		need(reflect.Struct)
		return mkInt(under(t).(*types.Struct).NumFields())
	case "Field":
		need(reflect.Struct)
		n, ok := constInt(s.norm(args[0]))
		if !ok {
			s.fail("Type.Field with unknown index")
		}
		st := under(t).(*types.Struct)
		if n < 0 || n >= st.NumFields() {
			s.goPanic("reflect: Field index out of bounds")
		}
		return s.structField(st, n)
	case "FieldByName":
		need(reflect.Struct)
		nm, ok := constStr(s.norm(args[0]))
		if !ok {
			s.fail("Type.FieldByName with unknown name")
		}
		idx := fieldByName(t, nm)
		if idx == nil {
			return Tuple{[]Val{zero(e.Prog.structFieldT), mkBool(false)}}
		}
		ct := t
		for i, j := range idx {
			if p, ok := under(ct).(*types.Pointer); ok {
				ct = p.Elem()
			}
			if i == len(idx)-1 {
				return Tuple{[]Val{s.structField(under(ct).(*types.Struct), j), mkBool(true)}}
			}
			ct = under(ct).(*types.Struct).Field(j).Type()
		}
	case "Implements":
		u, ok := args[0].(RT)
		if !ok {
			s.goPanic("reflect: nil type passed to Type.Implements")
		}
		it, ok := under(u.T).(*types.Interface)
		if !ok {
			s.goPanic("reflect: non-interface type passed to Type.Implements")
		}
		return mkBool(types.Implements(t, it))
	case "AssignableTo":
		return mkBool(types.AssignableTo(t, args[0].(RT).T))
	case "ConvertibleTo":
		u, ok := args[0].(RT)
		if !ok {
			s.goPanic("reflect: nil type passed to Type.ConvertibleTo")
		}
		return mkBool(types.ConvertibleTo(t, u.T))
	case "Comparable":
		return mkBool(types.Comparable(t))
	case "NumMethod":
		n := 0
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return mkInt(n)
	case "Len":
		need(reflect.Array)
		return mkInt(int(under(t).(*types.Array).Len()))
	}
	s.fail("reflect.Type.%s", name)
	return nil
}

// tagGet mirrors reflect.StructTag.Lookup.
func tagGet(tag, key string) (string, bool) {
	return reflect.StructTag(tag).Lookup(key)
}

var _ = strings.HasPrefix
var _ *ssa.Function
