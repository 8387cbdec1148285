package verifharness

import (
	"bytes"
	"encoding/json"
	"net/http"
	"net/url"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"github.com/lestrrat-go/jsval/server"
	"github.com/lestrrat-go/jsval/verifharness/models"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

// reply records a response.
type reply struct {
	header  http.Header
	status  int
	body    string
	headers http.Header // as sent
	late    bool        // the status was set twice, or after the body
}

func newReply() *reply { return &reply{header: http.Header{}} }

func (r *reply) Header() http.Header { return r.header }
func (r *reply) WriteHeader(code int) {
	if r.status != 0 {
		r.late = true
		return
	}
	r.status = code
	r.headers = http.Header{}
	for k, l := range r.header {
		r.headers[k] = l
	}
}
func (r *reply) Write(p []byte) (int, error) {
	if r.status == 0 {
		r.WriteHeader(http.StatusOK)
	}
	r.body += string(p)
	return len(p), nil
}

// method is any method; a HEAD request gets no body anyway.
func method() string {
	m := v.Str("method")
	v.Assume(m != http.MethodHead)
	return m
}

func request(path, body string, breaks bool) *http.Request {
	return &http.Request{Method: method(), URL: &url.URL{Path: path}, Header: http.Header{}, Body: &models.Body{Text: body, Breaks: breaks}}
}

// anyDoc is a schema as decoded from JSON.
func anyDoc() map[string]interface{} {
	switch v.Choose(9) {
	case 0:
		return map[string]interface{}{}
	case 7: // cannot be generated
		return map[string]interface{}{"type": "string", "default": 3.0}
	case 1:
		return map[string]interface{}{"type": "string", "minLength": 2.0}
	case 2:
		return map[string]interface{}{"type": "number", "minimum": v.Float("min"), "exclusiveMinimum": true}
	case 3:
		return map[string]interface{}{"type": "string", "enum": []interface{}{v.Str("a"), "b"}}
	case 4:
		return map[string]interface{}{"type": "object", "properties": map[string]interface{}{"p": map[string]interface{}{"$ref": "#/definitions/d"}},
			"definitions": map[string]interface{}{"d": map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "integer"}}}}
	case 5: // a list member, only found in the document
		return map[string]interface{}{"anyOf": []interface{}{map[string]interface{}{"type": "null"}, map[string]interface{}{"type": "object"}},
			"properties": map[string]interface{}{"p": map[string]interface{}{"$ref": "#/anyOf/0"}}}
	case 6:
		return map[string]interface{}{"properties": map[string]interface{}{"p": map[string]interface{}{"$ref": "#/nowhere"}}}
	default:
		return map[string]interface{}{"type": "nosuch"}
	}
}

// codeFor is the code that should be generated for a document.
func codeFor(names []string, root map[string]interface{}, docs ...map[string]interface{}) (string, error) {
	var vals []*jsval.JSVal
	for i, doc := range docs {
		s := schema.New()
		if err := s.Extract(doc); err != nil {
			return "", err
		}
		val, err := builder.New().BuildWithCtx(s, root)
		if err != nil {
			return "", err
		}
		if names != nil {
			val.Name = names[i]
		}
		vals = append(vals, val)
	}
	var buf bytes.Buffer
	if err := jsval.NewGenerator().Process(&buf, vals...); err != nil {
		return "", err
	}
	return buf.String(), nil
}

func serve(s *server.Server, r *http.Request) *reply {
	w := newReply()
	calm("a request never makes the server panic", func() { s.ServeHTTP(w, r) })
	if w.status == 0 {
		w.WriteHeader(http.StatusOK)
	}
	v.Assert(!w.late, "a response has one status, set before its body")
	v.Assert(v.Held() == 0, "a request leaves no lock behind")
	return w
}

// answer decodes a response.
func answer(w *reply) map[string]interface{} {
	var m map[string]interface{}
	err := json.Unmarshal([]byte(w.body), &m)
	v.Assert(err == nil, "the response is a JSON object")
	v.Assume(err == nil)
	return m
}

func checkCode(w *reply, doc map[string]interface{}) {
	want, err := codeFor(nil, doc, doc)
	m := answer(w)
	v.Assert(w.status == http.StatusOK, "the status is 200")
	if err != nil {
		v.Assert(m["success"] == false, "a schema that cannot be built is answered with success false")
		_, hasCode := m["code"]
		v.Assert(!hasCode, "a failure carries no code")
		msg, ok := m["message"].(string)
		v.Assert(ok, "a failure carries a message")
		_ = msg
		return
	}
	v.Assert(m["success"] == true, "a schema that can be built is answered with success true")
	code, _ := m["code"].(string)
	v.Assert(code == want, "the code is the one the generator makes for the schema sent")
	v.Assert(w.headers["Content-Type"] != nil && w.headers["Content-Type"][0] == "application/json; charset=utf-8", "generated code is sent as JSON")
}

func Spec_C26_generate() {
	doc := anyDoc()
	checkCode(serve(server.New(), request("/generate.json", v.JSON(doc), false)), doc)
}

// Bodies that are no schema.
func Spec_C26_malformed() {
	text := []string{"", "{", "[]", "3", "\"x\"", "tru", "{\"type\": 3}", "{\"properties\": []}", "{\"type\": \"string\"", "{\"minimum\": \"x\"}"}[v.Choose(10)]
	w := serve(server.New(), request("/generate.json", text, false))
	m := answer(w)
	v.Assert(m["success"] == false, "a body that is no schema is answered with success false")
	_, hasCode := m["code"]
	v.Assert(!hasCode, "a failure carries no code")
	_, ok := m["message"].(string)
	v.Assert(ok, "a failure carries a message")
}

// Bodies that break off.
func Spec_C26_broken() {
	text := []string{"", "{\"type\": \"string\"", "{\"type\": \"string\"}"}[v.Choose(3)]
	m := answer(serve(server.New(), request("/generate.json", text, true)))
	v.Assert(m["success"] == false, "a body that cannot be read is answered with success false")
	_, hasCode := m["code"]
	v.Assert(!hasCode, "a failure carries no code")
	_, ok := m["message"].(string)
	v.Assert(ok, "a failure carries a message")
}

// A schema in a document with text after it, and the null schema.
func Spec_C26_lenient() {
	text := "{\"type\": \"string\"}\n"
	w := serve(server.New(), request("/generate.json", text, false))
	checkCode(w, map[string]interface{}{"type": "string"})
}

func isIndex(w *reply) bool {
	return w.status == http.StatusOK && w.headers["Content-Type"] != nil && w.headers["Content-Type"][0] == "text/html; charset=utf-8" &&
		len(w.body) > 15 && w.body[:15] == "<!doctype html>" && w.body[len(w.body)-7:] == "</html>"
}

func Spec_C26_paths() {
	path := v.Str("path")
	w := serve(server.New(), request(path, "{}", false))
	switch path {
	case "/":
		v.Assert(isIndex(w), "the root is answered with the index page")
		v.Reach("index")
	case "/generate.json":
		v.Assert(answer(w)["success"] == true, "a schema that can be built is answered with success true")
		v.Reach("code")
	default:
		v.Assert(w.status == http.StatusNotFound, "every other path is answered with 404")
		v.Reach("not found")
	}
}

// Requests do not influence each other.
func Spec_C26_history() {
	s := server.New()
	n := v.Choose(4)
	for i := 0; i < 2; i++ {
		switch n {
		case 0:
			serve(s, request("/", "", false))
		case 1:
			serve(s, request("/generate.json", "{\"properties\":{\"x\":{\"$ref\":\"#/definitions/d\"}},\"definitions\":{\"d\":{}}}", false))
		case 2:
			serve(s, request("/generate.json", "{", false))
		case 3:
			serve(s, request("/generate.json", "{\"properties\":{\"x\":{\"$ref\":\"#/nowhere\"}}}", false))
		}
	}
	if v.Choose(2) == 0 {
		v.Assert(isIndex(serve(s, request("/", "", false))), "the root is answered with the index page, whatever was asked before")
		return
	}
	doc := map[string]interface{}{"type": "object", "properties": map[string]interface{}{"p": map[string]interface{}{"$ref": "#/definitions/d"}},
		"definitions": map[string]interface{}{"d": map[string]interface{}{"type": "string", "enum": []interface{}{v.Str("a")}}}}
	want, err := codeFor(nil, doc, doc)
	m := answer(serve(s, request("/generate.json", v.JSON(doc), false)))
	code, _ := m["code"].(string)
	v.Assert(err == nil && m["success"] == true && code == want, "the code is the one the generator makes for the schema sent, whatever was asked before")
}

// Requests can be served at the same time.
func Spec_C26_concurrent() {
	s := server.New()
	doc := map[string]interface{}{"type": "object", "properties": map[string]interface{}{"p": map[string]interface{}{"type": "string"}}}
	concurrently(
		func() { s.ServeHTTP(newReply(), request("/", "", false)) },
		func() { s.ServeHTTP(newReply(), request("/generate.json", v.JSON(doc), false)) },
		func() { s.ServeHTTP(newReply(), request("/nowhere", "", false)) },
	)
}
