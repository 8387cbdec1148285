package main

import (
	"os"
	"strings"

	"github.com/lestrrat-go/jsval/server"
	vh "github.com/lestrrat-go/jsval/verifharness"
	"github.com/lestrrat-go/jsval/verifharness/models"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// status runs the command and returns its exit status.
func verifStatus() (code int) {
	defer func() {
		r := recover()
		if e, ok := r.(models.Exit); ok {
			code = e.Code
			return
		}
		v.Assert(r == nil, "the command never panics")
	}()
	main()
	return 0
}

// verifOld is what the output file held before; longer than what is generated.
var verifOld = strings.Repeat("o", 1<<13)

type verifSetup struct {
	options map[string]interface{}
	text    string // of the schema file
	out     string
}

// start prepares files and options.
func verifStart(text string) *verifSetup {
	s := &verifSetup{options: map[string]interface{}{}, text: text}
	models.TheDisk = models.Disk{Names: []string{"schema.json", "other.txt"}, Texts: []string{text, verifOld}}
	models.Options = s.options
	models.BadOptions = false
	os.Args = []string{"jsval", "-s", "schema.json"}
	os.Stdout = models.NewFile("<stdout>")
	s.options["--schema"] = "schema.json"
	switch v.Choose(4) {
	case 1:
		s.out = "new.go"
	case 2:
		s.out = "other.txt"
	case 3:
		s.out = v.Str("out")
		v.Assume(s.out != "" && s.out != "schema.json")
	}
	if s.out != "" {
		s.options["--outfile"] = s.out
	}
	return s
}

// failed checks a run that cannot have produced code.
func (s *verifSetup) failed(code int) {
	v.Assert(code != 0, "the exit status is not zero if no code was generated")
	v.Assert(models.Written(os.Stdout) == "", "nothing is printed if no code was generated")
	v.Assert(len(models.TheDisk.Created) == 0 && len(models.TheDisk.Removed) == 0, "no file is touched if no validator could be built")
}

// succeeded checks a run that generated code.
func (s *verifSetup) succeeded(code int, want string) {
	v.Assert(code == 0, "the exit status is zero if code was generated")
	v.Assume(code == 0)
	if s.out == "" {
		v.Assert(models.Written(os.Stdout) == want, "the generated code is printed, and nothing else")
		v.Assert(len(models.TheDisk.Created) == 0, "no file is written without an output file")
	} else {
		got, _ := models.Text(s.out)
		v.Assert(got == want, "the output file holds the generated code, and nothing else")
		v.Assert(models.Written(os.Stdout) == "", "nothing is printed if there is an output file")
		v.Assert(len(models.TheDisk.Created) == 1 && models.TheDisk.Created[0] == s.out, "only the output file is written")
	}
	in, _ := models.Text("schema.json")
	v.Assert(in == s.text, "the schema file is left alone")
	v.Assert(len(models.TheDisk.Removed) == 0, "no file is removed")
}

// One validator for the whole document.
func Spec_C25_whole() {
	doc := vh.AnyDoc()
	v.Assume(doc["default"] == nil) // see Spec_C25_no_code
	s := verifStart(v.JSON(doc))
	var names []string
	if v.Choose(2) == 1 {
		s.options["--prefix"] = "Foo"
		names = []string{"Foo0"}
	}
	want, err := vh.CodeFor(names, doc, doc)
	code := verifStatus()
	if err != nil {
		s.failed(code)
		return
	}
	s.succeeded(code, want)
}

// Validators for parts of the document.
func Spec_C25_pointers() {
	a := map[string]interface{}{"type": "string", "enum": []interface{}{v.Str("a")}}
	b := map[string]interface{}{"type": "object", "properties": map[string]interface{}{"p": map[string]interface{}{"$ref": "#/definitions/d"}}}
	root := map[string]interface{}{
		"links":       []interface{}{map[string]interface{}{"schema": a}, map[string]interface{}{"schema": b}},
		"definitions": map[string]interface{}{"d": map[string]interface{}{"type": "integer"}},
		"number":      3.0,
		"bad":         map[string]interface{}{"type": "nosuch"},
		"broken":      map[string]interface{}{"properties": map[string]interface{}{"p": map[string]interface{}{"$ref": "#/nowhere"}}},
	}
	s := verifStart(v.JSON(root))
	var ptrs []string
	var docs []map[string]interface{}
	ok := true
	switch v.Choose(13) {
	case 10:
		ptrs, docs = []string{""}, []map[string]interface{}{root}
	case 11:
		ptrs, docs = []string{"/links/0/schema", ""}, []map[string]interface{}{a, root}
	case 12:
		ptrs, docs = []string{"", "/definitions/d"}, []map[string]interface{}{root, root["definitions"].(map[string]interface{})["d"].(map[string]interface{})}
	case 0:
		ptrs, docs = []string{"/links/0/schema"}, []map[string]interface{}{a}
	case 1:
		ptrs, docs = []string{"/links/0/schema", "/links/1/schema"}, []map[string]interface{}{a, b}
	case 2:
		ptrs, docs = []string{"/links/1/schema", "/links/0/schema", "/definitions/d"}, []map[string]interface{}{b, a, root["definitions"].(map[string]interface{})["d"].(map[string]interface{})}
	case 3:
		ptrs, docs = []string{"/links/0/schema", "/links/0/schema"}, []map[string]interface{}{a, a}
	case 4:
		ptrs, ok = []string{"/nowhere"}, false
	case 5:
		ptrs, ok = []string{"/number"}, false
	case 6:
		ptrs, ok = []string{"/links/0/schema", "/links/7/schema"}, false
	case 7:
		ptrs, ok = []string{"links"}, false
	case 8:
		ptrs, ok = []string{"/links/0/schema", "/bad"}, false
	case 9:
		ptrs, ok = []string{"/broken", "/links/0/schema"}, false
	}
	s.options["--ptr"] = ptrs
	var names []string
	if v.Choose(2) == 1 {
		s.options["--prefix"] = "Foo"
		names = []string{"Foo0", "Foo1", "Foo2"}[:len(docs)]
	}
	if !ok {
		s.failed(verifStatus())
		return
	}
	want, err := vh.CodeFor(names, root, docs...)
	v.Assume(err == nil)
	s.succeeded(verifStatus(), want)
}

// Input that is missing, unreadable or no schema.
func Spec_C25_bad_input() {
	text := []string{"{}", "", "{", "[]", "3", "{\"type\":3}"}[v.Choose(6)]
	s := verifStart(text)
	switch v.Choose(6) {
	case 0:
		v.Assume(text != "{}")
	case 1:
		s.options["--schema"] = "missing.json"
	case 2:
		delete(s.options, "--schema")
	case 3:
		models.TheDisk.FailOpen = 1
	case 4:
		models.TheDisk.FailOpen = 2
	case 5:
		models.BadOptions = true
	}
	code := verifStatus()
	v.Assume(models.TheDisk.FailOpen <= models.TheDisk.Opens) // the file that cannot be opened was needed
	s.failed(code)
}

// Output that cannot be written.
func Spec_C25_bad_output() {
	s := verifStart("{\"type\":\"string\"}")
	if v.Choose(2) == 0 {
		v.Assume(s.out != "")
		models.TheDisk.NoCreate = true
	} else {
		models.TheDisk.NoWrite = true
	}
	v.Assert(verifStatus() != 0, "the exit status is not zero if the code could not be written")
}

// A validator that cannot be generated.
func Spec_C25_no_code() {
	s := verifStart("{\"type\":\"string\",\"default\":3}")
	code := verifStatus()
	v.Assert(code != 0, "the exit status is not zero if no code was generated")
	v.Assert(models.Written(os.Stdout) == "", "nothing is printed if no code was generated")
	got, _ := models.Text(s.out)
	v.Assert(got == "" || got == verifOld, "no incomplete code is written")
}

// Every option has its documented short and long names.
func Spec_C25_options() {
	doc := map[string]interface{}{"a": map[string]interface{}{"type": "string"}, "b": map[string]interface{}{"type": "null"}}
	s := verifStart(v.JSON(doc))
	for k := range s.options {
		delete(s.options, k)
	}
	short := v.Choose(2) == 1
	name := func(l, s string) string {
		if short {
			return "-" + s
		}
		return "--" + l
	}
	s.out = "new.go"
	s.options[name("schema", "s")] = "schema.json"
	s.options[name("outfile", "o")] = "new.go"
	s.options[name("ptr", "p")] = []string{"/a", "/b"}
	s.options[name("prefix", "P")] = "X"
	want, err := vh.CodeFor([]string{"X0", "X1"}, doc, doc["a"].(map[string]interface{}), doc["b"].(map[string]interface{}))
	v.Assume(err == nil)
	s.succeeded(verifStatus(), want)
}

// The playground.
func Spec_C25_server() {
	verifStart("")
	models.Options = map[string]interface{}{}
	os.Args = []string{"jsval", "server"}
	addr := ":8080"
	switch v.Choose(3) {
	case 1:
		addr = v.Str("addr")
		models.Options["--listen"] = addr
	case 2:
		addr = v.Str("addr")
		models.Options["-l"] = addr
	}
	models.BadOptions = v.Choose(2) == 1
	models.Listened, models.Handlers = nil, nil
	code := verifStatus()
	v.Assert(code != 0, "the exit status is not zero if the server could not be started or ended with an error")
	if models.BadOptions {
		v.Assert(len(models.Listened) == 0, "nothing is served with bad options")
		return
	}
	v.Assert(len(models.Listened) == 1 && models.Listened[0] == addr, "the server listens at the address given, or :8080")
	_, ok := models.Handlers[0].(*server.Server)
	v.Assert(ok, "the server serves the playground")
	v.Assert(len(models.TheDisk.Created) == 0 && models.TheDisk.Opens == 0, "the server touches no files")
}
