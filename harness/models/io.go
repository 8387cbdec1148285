package models

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	htmpl "html/template"
	"io"
	"net/http"
	"net/textproto"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/lestrrat-go/jsval/verifharness/v"
)

// ---- processes ----

// Exit is what os.Exit panics with.
type Exit struct{ Code int }

func OsExit(code int)                            { panic(Exit{code}) }
func LogFatal(xs ...interface{})                 { panic(Exit{1}) }
func LogFatalf(format string, xs ...interface{}) { panic(Exit{1}) }

func init() { os.Stdout, os.Stderr = NewFile("<stdout>"), NewFile("<stderr>") }

func Print(xs ...interface{}) (int, error)   { return os.Stdout.Write([]byte(fmt.Sprint(xs...))) }
func Println(xs ...interface{}) (int, error) { return os.Stdout.Write([]byte(fmt.Sprintln(xs...))) }
func Printf(f string, xs ...interface{}) (int, error) {
	return os.Stdout.Write([]byte(fmt.Sprintf(f, xs...)))
}

// ---- files ----

// Disk describes the files a program sees and what it does to them.
type Disk struct {
	Names    []string // existing files
	Texts    []string // their contents
	Opens    int      // files opened so far
	FailOpen int      // which of them fails (counted from 1)
	NoCreate bool     // files cannot be created
	NoWrite  bool     // files cannot be written
	NoClose  bool     // written files cannot be closed
	Created  []string // files created or truncated, in order
	Removed  []string
}

var TheDisk Disk

type file struct {
	name    string
	text    string
	writing bool
	closed  bool
	old     string // what the file held before, if it was not truncated
}

// NewFile makes an open file, such as a standard stream.
func NewFile(name string) *os.File {
	return (*os.File)(unsafe.Pointer(&file{name: name, writing: true}))
}

func handle(f *os.File) *file { return (*file)(unsafe.Pointer(f)) }

// Written is what was written to an open file.
func Written(f *os.File) string { return handle(f).text }

// Text is the contents of a file.
func Text(name string) (string, bool) {
	for i, n := range TheDisk.Names {
		if n == name {
			return TheDisk.Texts[i], true
		}
	}
	return "", false
}

func setText(name, text string) {
	for i, n := range TheDisk.Names {
		if n == name {
			TheDisk.Texts[i] = text
			return
		}
	}
	TheDisk.Names = append(TheDisk.Names, name)
	TheDisk.Texts = append(TheDisk.Texts, text)
}

func OsOpen(name string) (*os.File, error) {
	TheDisk.Opens++
	if TheDisk.Opens == TheDisk.FailOpen {
		return nil, errors.New("open")
	}
	text, ok := Text(name)
	if !ok {
		return nil, errors.New("no such file")
	}
	return (*os.File)(unsafe.Pointer(&file{name: name, text: text})), nil
}

func OsCreate(name string) (*os.File, error) {
	if TheDisk.NoCreate {
		return nil, errors.New("create")
	}
	TheDisk.Created = append(TheDisk.Created, name)
	setText(name, "")
	return (*os.File)(unsafe.Pointer(&file{name: name, writing: true})), nil
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag == os.O_RDONLY {
		return OsOpen(name)
	}
	if flag&os.O_CREATE != 0 && flag&os.O_TRUNC != 0 && flag&os.O_EXCL == 0 && flag&os.O_APPEND == 0 {
		return OsCreate(name)
	}
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		v.GiveUp("file opened in an unusual mode")
	}
	if TheDisk.NoCreate {
		return nil, errors.New("create")
	}
	text, ok := Text(name)
	if ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, os.ErrExist
	}
	if !ok && flag&os.O_CREATE == 0 {
		return nil, os.ErrNotExist
	}
	if flag&os.O_TRUNC != 0 {
		text = ""
	}
	TheDisk.Created = append(TheDisk.Created, name)
	setText(name, text)
	h := &file{name: name, writing: true}
	if flag&os.O_APPEND != 0 {
		h.text = text
	} else {
		h.old = text
	}
	return (*os.File)(unsafe.Pointer(h)), nil
}

func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	return []byte(handle(f).text), nil
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OsCreate(name)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	return err
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	h := handle(f)
	if h.closed || !h.writing || TheDisk.NoWrite {
		return 0, errors.New("write")
	}
	h.text += string(b)
	all := h.text
	if h.old != "" && len(h.old) > len(all) {
		all += h.old[len(all):]
	}
	setText(h.name, all)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	h := handle(f)
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	if h.writing && TheDisk.NoClose {
		return errors.New("close")
	}
	return nil
}

func FileName(f *os.File) string { return handle(f).name }
func FileSync(f *os.File) error  { return nil }

func OsRemove(name string) error {
	TheDisk.Removed = append(TheDisk.Removed, name)
	return nil
}

// ---- readers ----

// Body is a source of text that may break off.
type Body struct {
	Text   string
	Breaks bool
	Closed bool
}

func (b *Body) Read(p []byte) (int, error) { v.GiveUp("partial read"); return 0, nil }
func (b *Body) Close() error               { b.Closed = true; return nil }

type textReader struct{ text string }

func BytesNewReader(b []byte) *bytes.Reader {
	return (*bytes.Reader)(unsafe.Pointer(&textReader{string(b)}))
}
func StringsNewReader(s string) *strings.Reader {
	return (*strings.Reader)(unsafe.Pointer(&textReader{s}))
}

type limited struct {
	r io.Reader
	n int64
}

func (l *limited) Read(p []byte) (int, error) { v.GiveUp("partial read"); return 0, nil }
func (l *limited) Close() error               { return nil }

func HttpMaxBytesReader(w http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser {
	if n < 1<<16 {
		v.GiveUp("limited reader")
	}
	return &limited{r, n}
}

// several writes to all of its writers.
type several struct{ ws []io.Writer }

func (s *several) Write(p []byte) (int, error) {
	for _, w := range s.ws {
		if n, err := w.Write(p); err != nil {
			return n, err
		}
	}
	return len(p), nil
}

func IoMultiWriter(ws ...io.Writer) io.Writer {
	return &several{append([]io.Writer(nil), ws...)}
}

func IoNopCloser(r io.Reader) io.ReadCloser { return &limited{r, 0} }

// content reads all of r.
func content(r io.Reader) (string, error) {
	switch x := r.(type) {
	case *Body:
		t := x.Text
		x.Text = ""
		if x.Breaks {
			return t, errors.New("unexpected EOF")
		}
		return t, nil
	case *os.File:
		t := handle(x).text
		handle(x).text = ""
		return t, nil
	case *bytes.Reader:
		h := (*textReader)(unsafe.Pointer(x))
		t := h.text
		h.text = ""
		return t, nil
	case *strings.Reader:
		h := (*textReader)(unsafe.Pointer(x))
		t := h.text
		h.text = ""
		return t, nil
	case *bytes.Buffer:
		t := x.String()
		x.Reset()
		return t, nil
	case *bufio.Reader:
		return content((*limited)(unsafe.Pointer(x)).r)
	case *limited:
		return content(x.r)
	}
	v.GiveUp("unknown reader")
	return "", nil
}

func BufioNewReader(r io.Reader) *bufio.Reader {
	return (*bufio.Reader)(unsafe.Pointer(&limited{r, 0}))
}

func IoReadAll(r io.Reader) ([]byte, error) {
	t, err := content(r)
	return []byte(t), err
}

func IoCopy(w io.Writer, r io.Reader) (int64, error) {
	t, err := content(r)
	n, werr := w.Write([]byte(t))
	if werr != nil {
		return int64(n), werr
	}
	return int64(n), err
}

func BufferReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) { return IoCopy(b, r) }

type bufWriter struct {
	w    io.Writer
	text string
	err  error
}

func BufioNewWriter(w io.Writer) *bufio.Writer {
	return (*bufio.Writer)(unsafe.Pointer(&bufWriter{w: w}))
}
func BufioWrite(b *bufio.Writer, p []byte) (int, error) {
	h := (*bufWriter)(unsafe.Pointer(b))
	if h.err != nil {
		return 0, h.err
	}
	h.text += string(p)
	return len(p), nil
}
func BufioWriteString(b *bufio.Writer, s string) (int, error) { return BufioWrite(b, []byte(s)) }
func BufioFlush(b *bufio.Writer) error {
	h := (*bufWriter)(unsafe.Pointer(b))
	if h.err == nil && h.text != "" {
		_, h.err = h.w.Write([]byte(h.text))
		h.text = ""
	}
	return h.err
}

// ---- JSON ----

type decoder struct {
	r     io.Reader
	begun bool
}

func JSONNewDecoder(r io.Reader) *json.Decoder {
	return (*json.Decoder)(unsafe.Pointer(&decoder{r: r}))
}

func JSONDecode(d *json.Decoder, x interface{}) error {
	h := (*decoder)(unsafe.Pointer(d))
	if h.begun {
		v.GiveUp("several values in one stream")
	}
	h.begun = true
	text, err := content(h.r)
	val, ok := v.JSONValue(text)
	if !ok {
		if err != nil {
			return err
		}
		return errors.New("invalid JSON")
	}
	if u, ok := x.(json.Unmarshaler); ok {
		return u.UnmarshalJSON([]byte(val))
	}
	return json.Unmarshal([]byte(val), x)
}

type encoder struct{ w io.Writer }

func JSONNewEncoder(w io.Writer) *json.Encoder {
	return (*json.Encoder)(unsafe.Pointer(&encoder{w: w}))
}

func JSONEncode(e *json.Encoder, x interface{}) error {
	b, err := json.Marshal(x)
	if err != nil {
		return err
	}
	_, err = (*encoder)(unsafe.Pointer(e)).w.Write(append(b, '\n'))
	return err
}

func JSONSetting(e *json.Encoder, on bool)                         {}
func JSONIndent(e *json.Encoder, a, b string)                      {}
func JSONDecoderSetting(d *json.Decoder)                           { v.GiveUp("decoder option") }
func JSONMarshalIndent(x interface{}, a, b string) ([]byte, error) { return json.Marshal(x) }

func PlainMarshal(x interface{}) ([]byte, error) { return []byte(v.JSON(Plain(x))), nil }

// Plain turns maps and structs into the map their JSON describes.
func Plain(x interface{}) interface{} {
	rv := reflect.ValueOf(x)
	for rv.Kind() == reflect.Ptr && !rv.IsNil() {
		rv = rv.Elem()
	}
	switch rv.Kind() {
	case reflect.Map:
		out := map[string]interface{}{}
		for _, k := range rv.MapKeys() {
			out[k.String()] = rv.MapIndex(k).Interface()
		}
		return out
	case reflect.Struct:
		out := map[string]interface{}{}
		rt := rv.Type()
		for i := 0; i < rv.NumField(); i++ {
			sf := rt.Field(i)
			if sf.PkgPath != "" {
				continue
			}
			name, omit := sf.Name, false
			tag := sf.Tag.Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			if parts[0] != "" {
				name = parts[0]
			}
			for _, o := range parts[1:] {
				if o == "omitempty" {
					omit = true
				}
			}
			f := rv.Field(i)
			if omit && empty(f) {
				continue
			}
			out[name] = f.Interface()
		}
		return out
	}
	return x
}

func empty(f reflect.Value) bool {
	switch f.Kind() {
	case reflect.String:
		return f.String() == ""
	case reflect.Bool:
		return !f.Bool()
	case reflect.Ptr, reflect.Interface:
		return f.IsNil()
	case reflect.Map, reflect.Slice:
		return f.Len() == 0
	}
	v.GiveUp("omitempty")
	return false
}

// ---- command line ----

// Options holds the command line options, by short or long name.
var Options map[string]interface{}

// BadOptions makes parsing the command line fail.
var BadOptions bool

func FlagsParse(data interface{}) ([]string, error) {
	if BadOptions {
		return nil, errors.New("usage")
	}
	used := 0
	rv := reflect.ValueOf(data).Elem()
	rt := rv.Type()
	for i := 0; i < rt.NumField(); i++ {
		tag := rt.Field(i).Tag
		x, ok := Options["--"+tag.Get("long")]
		if !ok {
			x, ok = Options["-"+tag.Get("short")]
		}
		if ok {
			used++
		} else if d := tag.Get("default"); d != "" {
			x, ok = d, true
		}
		if !ok {
			if tag.Get("required") == "true" {
				return nil, errors.New("required option missing")
			}
			continue
		}
		f := rv.Field(i)
		if f.Kind() == reflect.Slice {
			if s, isOne := x.(string); isOne {
				x = []string{s}
			}
		} else if l, isList := x.([]string); isList {
			x = l[len(l)-1]
		}
		f.Set(reflect.ValueOf(x))
	}
	if used < len(Options) {
		return nil, errors.New("unknown option")
	}
	return nil, nil
}

func FlagsParseArgs(data interface{}, args []string) ([]string, error) { return FlagsParse(data) }

// ---- HTTP ----

func HeaderSet(h http.Header, k, val string) { h[textproto.CanonicalMIMEHeaderKey(k)] = []string{val} }
func HeaderAdd(h http.Header, k, val string) {
	k = textproto.CanonicalMIMEHeaderKey(k)
	h[k] = append(h[k], val)
}
func HeaderGet(h http.Header, k string) string {
	if l := h[textproto.CanonicalMIMEHeaderKey(k)]; len(l) > 0 {
		return l[0]
	}
	return ""
}
func HeaderDel(h http.Header, k string) { delete(h, textproto.CanonicalMIMEHeaderKey(k)) }

func HttpError(w http.ResponseWriter, msg string, code int) {
	h := w.Header()
	HeaderSet(h, "Content-Type", "text/plain; charset=utf-8")
	HeaderSet(h, "X-Content-Type-Options", "nosniff")
	w.WriteHeader(code)
	w.Write([]byte(msg + "\n"))
}
func HttpNotFound(w http.ResponseWriter, r *http.Request) {
	HttpError(w, "404 page not found", http.StatusNotFound)
}

// Listened are the addresses and handlers a program served.
var Listened []string
var Handlers []http.Handler

// NoListen makes serving fail at once.
var NoListen bool

func HttpListenAndServe(addr string, h http.Handler) error {
	Listened = append(Listened, addr)
	Handlers = append(Handlers, h)
	if NoListen {
		return errors.New("listen")
	}
	return http.ErrServerClosed
}

func ServerListenAndServe(s *http.Server) error { return HttpListenAndServe(s.Addr, s.Handler) }

// ---- templates ----

type tmpl struct {
	name string
	text string
	set  *[]*tmpl
}

func TmplNew(name string) *htmpl.Template {
	return (*htmpl.Template)(unsafe.Pointer(&tmpl{name: name, set: &[]*tmpl{}}))
}

func th(t *htmpl.Template) *tmpl { return (*tmpl)(unsafe.Pointer(t)) }

func TmplAssoc(t *htmpl.Template, name string) *htmpl.Template {
	return (*htmpl.Template)(unsafe.Pointer(&tmpl{name: name, set: th(t).set}))
}

func TmplParse(t *htmpl.Template, text string) (*htmpl.Template, error) {
	if !v.TemplateOK(text) {
		return nil, errors.New("template")
	}
	h := th(t)
	h.text = text
	*h.set = append(*h.set, h)
	return t, nil
}

func TmplMust(t *htmpl.Template, err error) *htmpl.Template {
	if err != nil {
		panic(err)
	}
	return t
}

func TmplLookup(t *htmpl.Template, name string) *htmpl.Template {
	for _, h := range *th(t).set {
		if h.name == name {
			return (*htmpl.Template)(unsafe.Pointer(h))
		}
	}
	return nil
}

func TmplExecute(t *htmpl.Template, w io.Writer, data interface{}) error {
	if strings.Contains(th(t).text, "{{") {
		v.GiveUp("template actions")
	}
	_, err := w.Write([]byte(th(t).text))
	return err
}

func TmplExecuteNamed(t *htmpl.Template, w io.Writer, name string, data interface{}) error {
	x := TmplLookup(t, name)
	if x == nil {
		return errors.New("no such template")
	}
	return TmplExecute(x, w, data)
}
