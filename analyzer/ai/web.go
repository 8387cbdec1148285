package ai

import (
	"bytes"
	"encoding/json"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"text/template"
)

// ioRedirects maps functions of harness/models to the functions they stand for.
var ioRedirects = map[string][]string{
	"PlainMarshal": {"plain"}, "Print": {"fmt.Print"}, "Println": {"fmt.Println"}, "Printf": {"fmt.Printf"}, "OsExit": {"os.Exit"}, "LogFatal": {"log.Fatal", "log.Fatalln"}, "LogFatalf": {"log.Fatalf"},
	"OsOpen": {"os.Open"}, "OsCreate": {"os.Create"}, "OsOpenFile": {"os.OpenFile"}, "OsReadFile": {"os.ReadFile", "io/ioutil.ReadFile"},
	"OsWriteFile": {"os.WriteFile", "io/ioutil.WriteFile"}, "OsRemove": {"os.Remove"},
	"FileWrite": {"(*os.File).Write"}, "FileWriteString": {"(*os.File).WriteString"}, "FileClose": {"(*os.File).Close"},
	"FileName": {"(*os.File).Name"}, "FileSync": {"(*os.File).Sync"},
	"BytesNewReader": {"bytes.NewReader"}, "StringsNewReader": {"strings.NewReader"}, "IoReadAll": {"io.ReadAll", "io/ioutil.ReadAll"},
	"IoCopy": {"io.Copy"}, "IoMultiWriter": {"io.MultiWriter"}, "BufferReadFrom": {"(*bytes.Buffer).ReadFrom"}, "IoNopCloser": {"io.NopCloser", "io/ioutil.NopCloser"},
	"HttpMaxBytesReader": {"net/http.MaxBytesReader"}, "BufioNewReader": {"bufio.NewReader"},
	"BufioNewWriter": {"bufio.NewWriter"}, "BufioWrite": {"(*bufio.Writer).Write"}, "BufioWriteString": {"(*bufio.Writer).WriteString"}, "BufioFlush": {"(*bufio.Writer).Flush"},
	"JSONNewDecoder": {"encoding/json.NewDecoder"}, "JSONDecode": {"(*encoding/json.Decoder).Decode"},
	"JSONNewEncoder": {"encoding/json.NewEncoder"}, "JSONEncode": {"(*encoding/json.Encoder).Encode"},
	"JSONSetting": {"(*encoding/json.Encoder).SetEscapeHTML"}, "JSONIndent": {"(*encoding/json.Encoder).SetIndent"},
	"JSONDecoderSetting": {"(*encoding/json.Decoder).UseNumber", "(*encoding/json.Decoder).DisallowUnknownFields"},
	"JSONMarshalIndent":  {"encoding/json.MarshalIndent"},
	"FlagsParse":         {"github.com/jessevdk/go-flags.Parse"}, "FlagsParseArgs": {"github.com/jessevdk/go-flags.ParseArgs"},
	"HeaderSet": {"(net/http.Header).Set"}, "HeaderAdd": {"(net/http.Header).Add"}, "HeaderGet": {"(net/http.Header).Get"}, "HeaderDel": {"(net/http.Header).Del"},
	"HttpError": {"net/http.Error"}, "HttpNotFound": {"net/http.NotFound"}, "HttpListenAndServe": {"net/http.ListenAndServe"},
	"ServerListenAndServe": {"(*net/http.Server).ListenAndServe"},
	"TmplNew":              {"html/template.New"}, "TmplAssoc": {"(*html/template.Template).New"}, "TmplParse": {"(*html/template.Template).Parse"},
	"TmplMust": {"html/template.Must"}, "TmplLookup": {"(*html/template.Template).Lookup"},
	"TmplExecute": {"(*html/template.Template).Execute"}, "TmplExecuteNamed": {"(*html/template.Template).ExecuteTemplate"},
}

// plainJSON reports types whose JSON is described by models.Plain.
func plainJSON(e *Engine, t types.Type) bool {
	if m, ok := under(t).(*types.Map); ok {
		return isString(m.Key())
	}
	if _, ok := under(derefT(t)).(*types.Struct); !ok || extKind(derefT(t)) != "" {
		return false
	}
	for _, x := range []types.Type{t, types.NewPointer(derefT(t))} {
		ms := e.Prog.SSA.MethodSets.MethodSet(x)
		if ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil {
			return false
		}
	}
	return true
}

// webIntrinsics are the parts of the models that cannot be written in Go.
func webIntrinsics() map[string]model {
	return map[string]model{
		"GiveUp": func(c *callCtx) Val {
			c.s.fail("%s", c.str(0))
			return nil
		},
		// JSONValue is the first JSON value of a text.
		"JSONValue": func(c *callCtx) Val {
			src := trimJSON(c.s.norm(c.args[0]))
			switch x := src.(type) {
			case Const:
				dec := json.NewDecoder(strings.NewReader(constant.StringVal(x.V)))
				var raw json.RawMessage
				if dec.Decode(&raw) != nil {
					return Tuple{[]Val{mkStr(""), mkBool(false)}}
				}
				return Tuple{[]Val{mkStr(string(raw)), mkBool(true)}}
			case *Term:
				if x.Op == "json" {
					return Tuple{[]Val{x, mkBool(true)}}
				}
				if c.s.truth(mkTerm("isjson", tBool, x)) {
					return Tuple{[]Val{x, mkBool(true)}}
				}
				return Tuple{[]Val{mkStr(""), mkBool(false)}}
			}
			c.s.fail("JSON text made of pieces")
			return nil
		},
		"JSON": func(c *callCtx) Val { return mkTerm("json", tString, c.s.norm(c.args[0])) },
		"TemplateOK": func(c *callCtx) Val {
			_, err := template.New("").Parse(c.str(0))
			return mkBool(err == nil)
		},
	}
}

// trimJSON removes white space around a JSON text.
func trimJSON(v Val) Val {
	ct, ok := v.(Cat)
	if !ok {
		return v
	}
	ps := append([]Val(nil), ct.P...)
	for len(ps) > 0 && blankConst(ps[0]) {
		ps = ps[1:]
	}
	for len(ps) > 0 && blankConst(ps[len(ps)-1]) {
		ps = ps[:len(ps)-1]
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return mkCat(ps...)
}

func blankConst(v Val) bool {
	s, ok := constStr(v)
	return ok && strings.TrimSpace(s) == ""
}

// constJSON decodes a constant JSON text into a value of type el.
func (s *State) constJSON(text string, el types.Type) (v Val, ok bool) {
	if !json.Valid([]byte(text)) {
		return nil, false
	}
	dec := json.NewDecoder(bytes.NewReader([]byte(text)))
	var x interface{}
	if dec.Decode(&x) != nil {
		return nil, false
	}
	switch u := under(el).(type) {
	case *types.Interface:
		if u.NumMethods() == 0 {
			return s.fromJSON(x), true
		}
	case *types.Map:
		m, isMap := x.(map[string]interface{})
		if x == nil {
			return Nil{el}, true
		}
		if !isMap {
			return nil, false
		}
		if it, ok := under(u.Elem()).(*types.Interface); ok && it.NumMethods() == 0 && isString(u.Key()) {
			return retype(s.jsonMap(m), el), true
		}
	case *types.Slice:
		l, isList := x.([]interface{})
		if x == nil {
			return Nil{el}, true
		}
		if !isList {
			return nil, false
		}
		if it, ok := under(u.Elem()).(*types.Interface); ok && it.NumMethods() == 0 {
			es := make([]Val, len(l))
			for i := range l {
				es[i] = s.fromJSON(l[i])
			}
			return s.newSlice(es, u.Elem()), true
		}
	case *types.Basic:
		switch y := x.(type) {
		case string:
			if u.Info()&types.IsString != 0 {
				return Const{constant.MakeString(y), el}, true
			}
			return nil, false
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				return Const{constant.MakeBool(y), el}, true
			}
			return nil, false
		case float64:
			if u.Info()&types.IsFloat != 0 {
				return Const{constant.MakeFloat64(y), el}, true
			}
		case []interface{}, map[string]interface{}:
			return nil, false
		}
	}
	s.fail("constant JSON decoded into %s", typeKey(el))
	return nil, false
}

func (s *State) jsonMap(m map[string]interface{}) Val {
	mt := types.NewMap(tString, tAny)
	mv := Map{s.alloc(mt, MapData{KT: tString, VT: tAny}, "json")}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s.mapUpdate(mv, mkStr(k), s.fromJSON(m[k]))
	}
	return mv
}

func (s *State) fromJSON(x interface{}) Val {
	switch y := x.(type) {
	case nil:
		return Nil{tAny}
	case bool:
		return s.toIface(mkBool(y), tBool)
	case string:
		return s.toIface(mkStr(y), tString)
	case float64:
		return s.toIface(Const{constant.MakeFloat64(y), tFloat}, tFloat)
	case []interface{}:
		es := make([]Val, len(y))
		for i := range y {
			es[i] = s.fromJSON(y[i])
		}
		return s.toIface(s.newSlice(es, tAny), types.NewSlice(tAny))
	case map[string]interface{}:
		return s.toIface(s.jsonMap(y), types.NewMap(tString, tAny))
	}
	s.fail("JSON value")
	return nil
}

func webModels() map[string]model { return map[string]model{} }
