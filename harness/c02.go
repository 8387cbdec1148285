package verifharness

import (
	"net"
	"net/mail"
	"net/url"
	"regexp"
	"time"
	"unicode/utf8"

	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/verifharness/v"
)

type strSpec struct {
	hasMin, hasMax, hasRx, hasEnum bool
	min, max                       int
	rx                             *regexp.Regexp
	enum                           []interface{}
}

func anyStrSpec() strSpec {
	var s strSpec
	if v.Choose(2) == 1 {
		s.hasMin, s.min = true, v.Int("minLength")
		v.Assume(s.min >= 0)
	}
	if v.Choose(2) == 1 {
		s.hasMax, s.max = true, v.Int("maxLength")
		v.Assume(s.max >= 0)
	}
	if v.Choose(2) == 1 {
		s.hasRx, s.rx = true, v.Regexp("pattern")
	}
	if v.Choose(2) == 1 {
		s.hasEnum = true
		s.enum = []interface{}{v.Str("enum0"), v.Str("enum1")}
	}
	return s
}

func (s strSpec) constraint() *jsval.StringConstraint {
	c := jsval.String()
	if s.hasMin {
		c.MinLength(s.min)
	}
	if s.hasMax {
		c.MaxLength(s.max)
	}
	if s.hasRx {
		c.Regexp(s.rx)
	}
	if s.hasEnum {
		c.Enum(s.enum...)
	}
	return c
}

func (s strSpec) holds(x string) bool {
	n := utf8.RuneCountInString(x)
	if s.hasMin && n < s.min {
		return false
	}
	if s.hasMax && n > s.max {
		return false
	}
	if s.hasRx && !s.rx.MatchString(x) {
		return false
	}
	if s.hasEnum && x != s.enum[0].(string) && x != s.enum[1].(string) {
		return false
	}
	return true
}

func Spec_C02_keywords() {
	s := anyStrSpec()
	c := s.constraint()
	x, kind := anyScalar("x")
	got := accepts(c, x)
	if got {
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
	if kind != kString {
		v.Assert(!got, "a value that is not a string is rejected by a string constraint")
		return
	}
	want := s.holds(x.(string))
	v.Assert(!got || want, "a string that breaks minLength, maxLength (in characters), pattern or enum is rejected")
	v.Assert(got || !want, "a string that satisfies every declared keyword is accepted")
}

func Spec_C02_pointer() {
	s := anyStrSpec()
	x := v.Str("x")
	got := accepts(s.constraint(), &x)
	v.Assert(got == s.holds(x), "a pointer to a string is judged by the string it points to")
}

func Spec_C02_regexpstring() {
	p := v.Str("pattern")
	v.Assume(v.ValidPattern(p))
	x := v.Str("x")
	got := accepts(jsval.String().RegexpString(p), x)
	v.Assert(got == regexp.MustCompile(p).MatchString(x), "a pattern given as text accepts exactly the strings it matches")
}

// Formats that are decided by the standard library's parsers. The format is
// combined with other keywords.
func Spec_C02_formats() {
	x := v.Str("x")
	c := jsval.String()
	with := true
	switch v.Choose(6) {
	case 1:
		max := v.Int("maxLength")
		v.Assume(max >= 0)
		c.MaxLength(max)
		with = utf8.RuneCountInString(x) <= max
	case 2:
		min := v.Int("minLength")
		v.Assume(min >= 0)
		c.MinLength(min)
		with = utf8.RuneCountInString(x) >= min
	case 3:
		p := v.Regexp("pattern")
		c.Regexp(p)
		with = p.MatchString(x)
	case 4:
		c.Enum(v.Str("e0"), v.Str("e1"))
		with = x == v.Str("e0") || x == v.Str("e1")
	case 5:
		c.MinLength(2).MaxLength(4).Enum(v.Str("e0"), "abc")
		with = (x == v.Str("e0") || x == "abc") && utf8.RuneCountInString(x) >= 2 && utf8.RuneCountInString(x) <= 4
	}
	var ok bool
	switch v.Choose(4) {
	case 0:
		c.Format("email")
		_, err := mail.ParseAddress(x)
		ok = err == nil
	case 1:
		c.Format("uri")
		_, err := url.Parse(x)
		ok = err == nil
	case 2:
		c.Format("date-time")
		_, err := time.Parse(time.RFC3339, x)
		ok = err == nil
	default:
		f := v.Str("format")
		v.Assume(f != "email" && f != "uri" && f != "date-time" && f != "datetime" && f != "hostname" && f != "ipv4" && f != "ipv6")
		c.Format(f)
		ok = true
	}
	ok = ok && with
	got := accepts(c, x)
	v.Assert(!got || ok, "a string that is not an e-mail address, URI or RFC 3339 date-time is rejected under that format")
	v.Assert(got || !ok, "a string in the declared format is accepted, and an unknown format restricts nothing")
}

func Spec_C02_datetime() {
	x := v.Str("x")
	_, err := time.Parse(time.RFC3339, x)
	v.Assert(accepts(jsval.String().Format("datetime"), x) == (err == nil), "the format name datetime means date-time")
}

func Spec_C02_ipv4() {
	c := jsval.String().Format("ipv4")
	if v.Choose(2) == 0 {
		x := v.Str("x")
		v.Assert(!accepts(c, x) || net.ParseIP(x) != nil, "a string that is not an IP address is rejected under ipv4")
		return
	}
	x := v.Chars("c", 7)
	got := accepts(c, x)
	dotted := true
	for i := 0; i < len(x); i++ {
		if x[i] != '.' && (x[i] < '0' || x[i] > '9') {
			dotted = false
			break
		}
	}
	v.Assert(got == (dotted && net.ParseIP(x) != nil), "exactly the dotted-decimal IP addresses are accepted under ipv4")
}

func Spec_C02_ipv6() {
	c := jsval.String().Format("ipv6")
	if v.Choose(2) == 0 {
		x := v.Str("x")
		v.Assert(!accepts(c, x) || net.ParseIP(x) != nil, "a string that is not an IP address is rejected under ipv6")
		return
	}
	x := v.Chars("c", 3)
	got := accepts(c, x)
	hex := true
	for i := 0; i < len(x); i++ {
		if x[i] != ':' && (x[i] < '0' || x[i] > '9') && (x[i] < 'a' || x[i] > 'f') && (x[i] < 'A' || x[i] > 'F') {
			hex = false
			break
		}
	}
	v.Assert(got == (hex && net.ParseIP(x) != nil), "exactly the IP addresses of hexadecimal digits and colons are accepted under ipv6")
}

// hostname: labels of letters, digits, underscores and inner hyphens.
func hostname(x string) bool {
	if len(x) == 0 || len(x) > 255 {
		return false
	}
	named := false
	start := 0
	for i := 0; i <= len(x); i++ {
		if i < len(x) && x[i] != '.' {
			switch {
			case x[i] >= 'a' && x[i] <= 'z', x[i] >= 'A' && x[i] <= 'Z', x[i] == '_':
				named = true
			case x[i] >= '0' && x[i] <= '9':
			case x[i] == '-':
				if i == start || i+1 == len(x) || x[i+1] == '.' {
					return false
				}
			default:
				return false
			}
			continue
		}
		if i == len(x) && i == start && i > 0 {
			break // the root's dot
		}
		if i == start || i-start > 63 {
			return false
		}
		start = i + 1
	}
	return named
}

const (
	label59 = "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw"
	label62 = "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"
	host251 = label62 + "x." + label62 + "x." + label62 + "x." + label59
)

func Spec_C02_hostname() {
	c := jsval.String().Format("hostname")
	x := v.Chars("c", v.Choose(5))
	v.Assert(accepts(c, x) == hostname(x), "exactly the host names (labels of letters, digits, underscores and inner hyphens) are accepted")
}

func Spec_C02_long() {
	v.Deep(400)
	c := jsval.String().Format("hostname")
	var x string
	switch v.Choose(4) {
	case 0:
		x = label62 + v.Chars("c", 2)
	case 1:
		x = label62 + v.Chars("c", 1) + "-a"
	case 2:
		x = "a." + label62 + "b" + v.Chars("c", 1) + ".b"
	default:
		x = host251 + "xyz" + []string{"", "a"}[v.Choose(2)] + v.Chars("c", 1)
	}
	v.Assert(accepts(c, x) == hostname(x), "labels longer than 63 and names longer than 255 bytes are rejected, shorter ones are not")
}

// The order in which keywords are set does not matter, and a keyword set
// again replaces what was set before.
func Spec_C02_order() {
	s := anyStrSpec()
	x := v.Str("x")
	c := jsval.String()
	again := v.Choose(2) == 1
	if again {
		if s.hasEnum {
			c.Enum("a", x, 1.5)
		}
		if s.hasRx {
			c.RegexpString("^other")
		}
		if s.hasMax {
			c.MaxLength(v.Int("m"))
		}
		if s.hasMin {
			c.MinLength(v.Int("n"))
		}
		c.Format("ipv4")
		c.Format("unheard-of")
	}
	none := s.hasEnum && v.Choose(2) == 1
	if none {
		c.Enum()
	} else if s.hasEnum {
		c.Enum(s.enum...)
	}
	if s.hasRx {
		c.Regexp(s.rx)
	}
	if s.hasMax {
		c.MaxLength(s.max)
	}
	if s.hasMin {
		c.MinLength(s.min)
	}
	v.Assert(accepts(c, x) == (s.holds(x) && !none), "the order in which the keywords of a string constraint are set does not matter, a keyword set again replaces the earlier one, and an enum without values accepts nothing")
}
