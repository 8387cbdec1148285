package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"net"
	"net/mail"
	"net/netip"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Functions of the standard library are uninterpreted where their arguments
// are not known: a path may then combine outcomes no single argument yields
// (trimming digits leaves something, though the string is an IPv4 address).
// Before anything found on such a path counts, concrete strings and numbers
// must be found for the arguments under which every fact of the path that
// can be evaluated holds. A few parsers the specifications themselves are
// written in terms of are exempt: one outcome of one parser is always
// possible.
var trusted = map[string]bool{
	"(time.Time).Format": true, "(time.Time).IsZero": true, "net.ParseIP": true, "net/mail.ParseAddress": true, "net/textproto.CanonicalMIMEHeaderKey": true,
	"time.Parse": true, "unicode.IsSpace": true, "net/url.Parse": true,
}

var partial = map[string]bool{"byteat": true, "substr": true, "contains": true, "hasprefix": true, "hassuffix": true, "trimprefix": true, "trimsuffix": true, "chr": true, "char": true}

// baseOp strips what marks the success or a further result of a function.
func baseOp(op string) (name string, ok bool, res int) {
	name, ok = strings.CutPrefix(op, "ok:")
	if i := strings.LastIndexByte(name, '.'); i > 0 && i+1 < len(name) {
		if n, err := strconv.Atoi(name[i+1:]); err == nil {
			return name[:i], ok, n
		}
	}
	return name, ok, 0
}

func partialOp(op string, nargs int) bool {
	if nargs == 0 {
		return false
	}
	if partial[op] {
		return true
	}
	if !strings.Contains(op, ".") || op[0] == '.' || strings.HasPrefix(op, "in:") {
		return false
	}
	name, _, _ := baseOp(op)
	if trusted[name] {
		return false
	}
	pk := strings.TrimLeft(name, "(*")
	if i := strings.LastIndexByte(pk, '/'); i >= 0 {
		if j := strings.IndexByte(pk[i:], '.'); j >= 0 {
			pk = pk[:i+j]
		}
	} else if j := strings.IndexByte(pk, '.'); j >= 0 {
		pk = pk[:j]
	}
	return purePkgs[pk]
}

// hasPartial: the value depends on a function known only in part.
func hasPartial(v Val) bool {
	switch x := v.(type) {
	case *Term:
		if partialOp(x.Op, len(x.Args)) {
			return true
		}
		if x.Op == "match" {
			if _, ok := x.Args[0].(Const); ok {
				return true
			}
		}
		for _, a := range x.Args {
			if hasPartial(a) {
				return true
			}
		}
	case Cat:
		for _, a := range x.P {
			if hasPartial(a) {
				return true
			}
		}
	}
	return false
}

// oldFact is a fact dropped with the values it was about.
type oldFact struct {
	b  bfact
	i  ifact
	r  rfact
	up *oldFact
}

func (s *State) partialFacts() bool {
	if s.partial {
		return true
	}
	for _, f := range s.facts.b {
		if hasPartial(f.t) {
			return true
		}
	}
	for _, f := range s.facts.itv {
		if hasPartial(f.a) || f.b != nil && hasPartial(f.b) {
			return true
		}
	}
	for _, f := range s.facts.rep {
		if hasPartial(f.t) || hasPartial(f.to) {
			return true
		}
	}
	return false
}

type prober struct {
	s    *State
	asg  map[string]Const
	vars map[string]*Term
	strs map[string]bool
	nums map[string]bool
	free bool // met an operator that cannot be evaluated
}

var evalOps = map[string]bool{"len": true, "runes": true, "quote": true, "match": true, "validre": true, "strless": true, "+": true, "eq": true, "not": true, "isnil": true,
	"f64": true, "isint": true, "floor": true, "ceil": true, "ftrunc": true, "round": true, "abs": true, "mod": true, "divisible": true}

func canEval(op string, nargs int) bool {
	if nargs == 0 {
		return false
	}
	if evalOps[op] || partial[op] {
		return true
	}
	name, _, _ := baseOp(op)
	_, ok := constFns[name]
	return ok || parserOK[name] != nil
}

// parserOK: whether a parser accepts a string.
var parserOK = map[string]func(a []string) bool{
	"net.ParseIP":               func(a []string) bool { return net.ParseIP(a[0]) != nil },
	"net/mail.ParseAddress":     func(a []string) bool { _, err := mail.ParseAddress(a[0]); return err == nil },
	"net/url.Parse":             func(a []string) bool { _, err := url.Parse(a[0]); return err == nil },
	"net/url.ParseRequestURI":   func(a []string) bool { _, err := url.ParseRequestURI(a[0]); return err == nil },
	"net/mail.ParseAddressList": func(a []string) bool { _, err := mail.ParseAddressList(a[0]); return err == nil },
	"net/netip.ParseAddr":       func(a []string) bool { _, err := netip.ParseAddr(a[0]); return err == nil },
	"net/netip.ParsePrefix":     func(a []string) bool { _, err := netip.ParsePrefix(a[0]); return err == nil },
	"net.ParseCIDR":             func(a []string) bool { _, _, err := net.ParseCIDR(a[0]); return err == nil },
	"net.ParseMAC":              func(a []string) bool { _, err := net.ParseMAC(a[0]); return err == nil },
	"time.Parse":                func(a []string) bool { _, err := time.Parse(a[0], a[1]); return err == nil },
	"time.ParseDuration":        func(a []string) bool { _, err := time.ParseDuration(a[0]); return err == nil },
}

// collect finds the unknowns and the constants of a fact.
func (p *prober) collect(v Val, inside bool) {
	switch x := v.(type) {
	case Const:
		switch x.V.Kind() {
		case constant.String:
			p.strs[constant.StringVal(x.V)] = true
		case constant.Int, constant.Float:
			p.nums[x.V.ExactString()] = true
		}
	case Cat:
		for _, a := range x.P {
			p.collect(a, inside)
		}
	case *Term:
		if canEval(x.Op, len(x.Args)) {
			for _, a := range x.Args {
				p.collect(a, inside)
			}
			return
		}
		if inside && !x.Sum && x.T != nil {
			if b, ok := under(x.T).(*types.Basic); ok && b.Info()&(types.IsString|types.IsNumeric) != 0 {
				p.vars[rawKey(x)] = x
			}
		}
		for _, a := range x.Args {
			p.collect(a, false)
		}
	}
}

func (p *prober) eval(v Val) Val {
	switch x := v.(type) {
	case Const, Nil:
		return x
	case Cat:
		var sb strings.Builder
		for _, a := range x.P {
			c, ok := constStr(p.eval(a))
			if !ok {
				return nil
			}
			sb.WriteString(c)
		}
		return mkStr(sb.String())
	case *Term:
		if c, ok := p.asg[rawKey(x)]; ok {
			return c
		}
		if x.Sum || !canEval(x.Op, len(x.Args)) {
			return nil
		}
		if x.Op == "isnil" {
			t, ok := x.Args[0].(*Term)
			if !ok || parserOK[t.Op] == nil {
				return nil
			}
			if r, ok := constBool(p.parser(t)); ok {
				return mkBool(!r)
			}
			return nil
		}
		name, isOK, _ := baseOp(x.Op)
		if parserOK[name] != nil {
			if isOK {
				return p.parser(x)
			}
			return nil
		}
		args := make([]Val, len(x.Args))
		for i, a := range x.Args {
			if args[i] = p.eval(a); args[i] == nil {
				return nil
			}
		}
		return p.apply(x, args)
	}
	return nil
}

func (p *prober) parser(t *Term) Val {
	name, _, _ := baseOp(t.Op)
	var a []string
	for _, x := range t.Args {
		c, ok := constStr(p.eval(x))
		if !ok {
			return nil
		}
		a = append(a, c)
	}
	return mkBool(parserOK[name](a))
}

// apply evaluates an operator on constants.
func (p *prober) apply(x *Term, args []Val) Val {
	str := func(i int) string { c, _ := constStr(args[i]); return c }
	num := func(i int) int { n, _ := constInt(args[i]); return n }
	for _, a := range args {
		if _, ok := a.(Const); !ok {
			return nil
		}
	}
	switch x.Op {
	case "byteat":
		if i, s := num(1), str(0); i >= 0 && i < len(s) {
			return Const{constant.MakeInt64(int64(s[i])), x.T}
		}
		return nil
	case "substr":
		if lo, hi, s := num(1), num(2), str(0); lo >= 0 && lo <= hi && hi <= len(s) {
			return mkStr(s[lo:hi])
		}
		return nil
	case "contains":
		return mkBool(strings.Contains(str(0), str(1)))
	case "hasprefix":
		return mkBool(strings.HasPrefix(str(0), str(1)))
	case "hassuffix":
		return mkBool(strings.HasSuffix(str(0), str(1)))
	case "trimprefix":
		return mkStr(strings.TrimPrefix(str(0), str(1)))
	case "trimsuffix":
		return mkStr(strings.TrimSuffix(str(0), str(1)))
	case "chr", "char":
		return mkStr(string(rune(num(0))))
	case "not":
		b, ok := constBool(args[0])
		if !ok {
			return nil
		}
		return mkBool(!b)
	case "eq":
		if r, ok := p.s.eqKnown(args[0], args[1]); ok {
			return mkBool(r)
		}
		return nil
	}
	if name, ok, res := baseOp(x.Op); res > 0 && !ok {
		r, done := foldCall(name, args)
		if tp, isT := r.(Tuple); done && isT && res < len(tp.V) {
			if c, isC := tp.V[res].(Const); isC {
				return c
			}
		}
		return nil
	}
	r := p.s.rebuild(x, args)
	if c, ok := r.(Const); ok {
		return c
	}
	return nil
}

// boolFact: 1 holds, 0 unknown, -1 does not hold.
func (p *prober) boolFact(f bfact) int {
	r, ok := constBool(p.eval(f.t))
	switch {
	case !ok:
		return 0
	case r == f.v:
		return 1
	}
	return -1
}

func (p *prober) itvFact(f ifact) int {
	val := func(v Val) *big.Rat {
		if c, ok := p.eval(v).(Const); ok && (c.V.Kind() == constant.Int || c.V.Kind() == constant.Float) {
			return ratOf(c.V)
		}
		return nil
	}
	a := val(f.a)
	if a == nil {
		return 0
	}
	d := new(big.Rat).Set(a)
	if f.b != nil {
		b := val(f.b)
		if b == nil {
			return 0
		}
		d.Sub(d, b)
	}
	if f.lo.r != nil && (d.Cmp(f.lo.r) < 0 || f.lo.open && d.Cmp(f.lo.r) == 0) || f.hi.r != nil && (d.Cmp(f.hi.r) > 0 || f.hi.open && d.Cmp(f.hi.r) == 0) {
		return -1
	}
	return 1
}

func (p *prober) repFact(f rfact) int {
	a, b := p.eval(f.t), p.eval(f.to)
	if a == nil || b == nil {
		return 0
	}
	if r, ok := p.s.eqKnown(a, b); ok && !r {
		return -1
	}
	return 1
}

var commonStrings = []string{"", "a", "A", "ab", "aB", "z", " ", " a ", "a b", "\t", "\n", "0", "1", "-1", "01", "1.5", "1e3", "1.0", "+1", "true", "false", "null",
	"1.1.1.1", "1.2.3.4.", "256.1.1.1", "::1", "::ffff:1.2.3.4", "fe80::1%eth0", "1.2.3.4:80", "1.2.3.4/8", "é", "ß", "İ", "日本", "%", "%zz", "%41", "http://a/", "HTTP://A", "/a", "//", ":", "a:b", "?", "a@b.c", "a@b",
	"A <a@b.c>", "a@b.c, d@e.f", "2016-01-02", "2016-01-02T03:04:05Z", "2016-01-02T03:04:05.678+09:00", "2016-13-01", "#", "#/", "#/a", "#/definitions/a", "a.b", "a.b.", ".", "-", "a-b", "-a", "a-", "_", "~0", "~1",
	"\x00", "\xff", "\"", "'", "`", "\\", "\\n", "{", "}", "[", "[0]", "<a>", "&", "$ref", "^a$", "a*", "(", "*", "x-a", "go", "Go"}

// pool lists strings to try: everything the facts mention, and variations.
func (p *prober) pool(v *Term) []Const {
	var out []Const
	if !isString(v.T) {
		seen := map[string]bool{}
		add := func(c constant.Value) {
			b := under(v.T).(*types.Basic)
			if b.Info()&types.IsInteger != 0 && constant.ToInt(c).Kind() != constant.Int {
				return
			}
			if k := c.ExactString(); !seen[k] {
				seen[k] = true
				out = append(out, Const{c, v.T})
			}
		}
		one := constant.MakeInt64(1)
		if b := under(v.T).(*types.Basic); b.Kind() == types.Uint8 || b.Kind() == types.Int32 {
			for _, r := range "1.:aFAf029z/Zg-G_ @;" {
				add(constant.MakeInt64(int64(r)))
			}
		}
		for _, k := range sortedKeys(p.nums) {
			c := constant.MakeFromLiteral(k, token.INT, 0)
			if c.Kind() == constant.Unknown {
				c = constant.MakeFromLiteral(k, token.FLOAT, 0)
			}
			if c.Kind() == constant.Unknown {
				if r, ok := new(big.Rat).SetString(k); ok {
					f, _ := r.Float64()
					c = constant.MakeFloat64(f)
				}
			}
			if c.Kind() == constant.Unknown {
				continue
			}
			add(c)
			add(constant.BinaryOp(c, token.ADD, one))
			add(constant.BinaryOp(c, token.SUB, one))
		}
		for _, n := range []int64{0, 1, -1, 2, 3, 7, 10, 97, 48, 100, 255, -5, 1000} {
			add(constant.MakeInt64(n))
		}
		for _, f := range []float64{0.5, 1.5, -2.5, 1e20, 0.1} {
			add(constant.MakeFloat64(f))
		}
		return out
	}
	set, limited := charsOf(v)
	seen := map[string]bool{}
	add := func(t string) {
		if seen[t] {
			return
		}
		seen[t] = true
		if limited {
			for _, r := range t {
				if !strings.ContainsRune(set, r) {
					return
				}
			}
		}
		out = append(out, Const{constant.MakeString(t), v.T})
	}
	cs := sortedKeys(p.strs)
	for _, c := range cs {
		if len(c) > 300 {
			continue
		}
		add(c)
	}
	for _, c := range commonStrings {
		add(c)
	}
	for _, c := range cs {
		if len(c) > 300 || c == "" {
			continue
		}
		for _, t := range []string{strings.ToUpper(c), strings.ToLower(c), " " + c, c + " ", " " + c + " ", c + "a", "a" + c, "a" + c + "b", c + c, c[:len(c)-1], c[1:], c + "1", "1" + c, c + ".", c + "/a"} {
			add(t)
		}
		if len(c) > 1 && len(c) < 20 {
			for _, r := range c {
				add(string(r))
			}
		}
	}
	for _, n := range []int{5, 63, 64, 255, 256, 1000} {
		add(strings.Repeat("a", n))
	}
	if limited {
		for _, r := range set {
			add(string(r))
			add(string(r) + string(r))
		}
		add(set)
	}
	return out
}

// witness looks for concrete values under which the path is possible.
func (s *State) witness() (found bool) {
	defer func() {
		if r := recover(); r != nil {
			found = false
		}
	}()
	sc := s.clone()
	sc.ownFacts()
	facts := sc.facts
	sc.facts = Facts{map[string]bfact{}, map[string]ifact{}, map[string]rfact{}}
	p := &prober{s: sc, vars: map[string]*Term{}, strs: map[string]bool{}, nums: map[string]bool{}, asg: map[string]Const{}}
	type chk struct {
		f    func() int
		must bool
	}
	var chks []chk
	add := func(f func() int, vs ...Val) {
		part, sum := false, false
		for _, v := range vs {
			if v != nil {
				part = part || hasPartial(v)
				sum = sum || isSum(v)
			}
		}
		if sum {
			return
		}
		for _, v := range vs {
			if v != nil {
				p.collect(v, part)
			}
		}
		chks = append(chks, chk{f, part})
	}
	addB := func(f bfact) { add(func() int { return p.boolFact(f) }, f.t) }
	addI := func(f ifact) { add(func() int { return p.itvFact(f) }, f.a, f.b) }
	addR := func(f rfact) { add(func() int { return p.repFact(f) }, f.t, f.to) }
	for _, k := range sortedKeys(facts.b) {
		addB(facts.b[k])
	}
	for _, k := range sortedKeys(facts.itv) {
		addI(facts.itv[k])
	}
	for _, k := range sortedKeys(facts.rep) {
		addR(facts.rep[k])
	}
	for h := s.hist; h != nil; h = h.up {
		switch {
		case h.b.t != nil:
			addB(h.b)
		case h.i.a != nil:
			addI(h.i)
		default:
			addR(h.r)
		}
	}
	names := sortedKeys(p.vars)
	sort.SliceStable(names, func(i, j int) bool { return len(names[i]) < len(names[j]) })
	pools := make([][]Const, len(names))
	total := 1
	for i, n := range names {
		pools[i] = p.pool(p.vars[n])
		// facts about this unknown alone
		var keep []Const
	next:
		for _, c := range pools[i] {
			p.asg = map[string]Const{n: c}
			for _, k := range chks {
				if k.f() < 0 {
					continue next
				}
			}
			keep = append(keep, c)
		}
		p.asg = map[string]Const{}
		pools[i] = keep
		if len(pools[i]) == 0 {
			return false
		}
		total *= len(pools[i])
		if total > 1<<20 {
			total = 1 << 20
		}
	}
	ok := func() bool {
		for _, c := range chks {
			if r := c.f(); r < 0 || r == 0 && c.must {
				return false
			}
		}
		return true
	}
	full := 1
	for i := range pools {
		full *= len(pools[i])
		if full > 1<<20 {
			full = 0
			break
		}
	}
	if full == 0 {
		full = 200000
	}
	seed := uint64(1)
	exhaustive := total < 1<<20
	for n := 0; n < full; n++ {
		k := n
		for i, name := range names {
			if exhaustive {
				p.asg[name] = pools[i][k%len(pools[i])]
				k /= len(pools[i])
			} else {
				seed = seed*6364136223846793005 + 1442695040888963407
				p.asg[name] = pools[i][int(seed>>33)%len(pools[i])]
			}
		}
		if ok() {
			for _, name := range names {
				s.note("for instance " + show(p.vars[name]) + " = " + show(p.asg[name]))
			}
			return true
		}
	}
	return false
}
