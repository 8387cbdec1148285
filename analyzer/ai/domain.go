package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// norm rewrites a value with the known equalities.
func (s *State) norm(v Val) Val {
	if len(s.facts.rep) == 0 {
		return v
	}
	return s.norm1(v, 0)
}

func (s *State) norm1(v Val, d int) Val {
	if d > 20 {
		return v
	}
	switch x := v.(type) {
	case *Term:
		if len(x.Args) > 0 {
			args := make([]Val, len(x.Args))
			ch := false
			for i, a := range x.Args {
				args[i] = s.norm1(a, d+1)
				if !sameVal(args[i], a) {
					ch = true
				}
			}
			if ch {
				n := s.rebuild(x, args)
				t, ok := n.(*Term)
				if !ok {
					return n
				}
				x = t
			}
		}
		if r, ok := s.facts.rep[rawKey(x)]; ok {
			return s.norm1(r.to, d+1)
		}
		return x
	case Cat:
		ps := make([]Val, len(x.P))
		for i, a := range x.P {
			ps[i] = s.norm1(a, d+1)
		}
		return mkCat(ps...)
	}
	return v
}

func sameVal(a, b Val) bool {
	if x, ok := a.(*Term); ok {
		y, ok := b.(*Term)
		return ok && x == y
	}
	return rawKey(a) == rawKey(b)
}

// rebuild re-evaluates an operator on new arguments, folding constants.
func (s *State) rebuild(x *Term, args []Val) Val {
	switch x.Op {
	case "len":
		return s.strLen(args[0])
	case "f64":
		return s.convTerm("f64", args[0], x.T)
	case "+":
		if len(args) == 2 {
			return s.arith(token.ADD, args[0], args[1], x.T)
		}
	case "divisible":
		if c, ok := args[1].(Const); ok && ratOf(c.V).Cmp(big.NewRat(1, 1)) == 0 {
			return mkIsInt(args[0])
		}
	}
	if v := foldConst(x, args); v != nil {
		return v
	}
	t := mkTerm(x.Op, x.T, args...)
	t.NonNil = x.NonNil
	return t
}

// lin splits a numeric value into base + constant.
func lin(v Val) (Val, *big.Rat) {
	switch x := v.(type) {
	case Const:
		return nil, ratOf(x.V)
	case *Term:
		if x.Op == "+" && len(x.Args) == 2 {
			if c, ok := x.Args[1].(Const); ok {
				b, o := lin(x.Args[0])
				return b, new(big.Rat).Add(o, ratOf(c.V))
			}
		}
	}
	return v, new(big.Rat)
}

func ratOf(c constant.Value) *big.Rat {
	switch c.Kind() {
	case constant.Int, constant.Float:
		switch v := constant.Val(constant.ToFloat(c)).(type) {
		case *big.Rat:
			return v
		case *big.Float:
			r, _ := v.Rat(nil)
			if r != nil {
				return r
			}
		case int64:
			return new(big.Rat).SetInt64(v)
		case *big.Int:
			return new(big.Rat).SetInt(v)
		}
		f, _ := constant.Float64Val(c)
		r := new(big.Rat)
		r.SetFloat64(f)
		return r
	}
	return new(big.Rat)
}

func intOnly(a, b Val) bool {
	chk := func(v Val) bool {
		if v == nil {
			return true
		}
		switch x := v.(type) {
		case Pos:
			return true
		case *Term:
			return isInteger(x.T) || x.Op == "f64"
		}
		return false
	}
	return chk(a) && chk(b)
}

func (b bound) valid() bool { return b.r != nil }

// posRange gives the numeric index range of a position.
func (s *State) posRange(p Pos) (int, int) {
	shape := s.lines[p.Line]
	max := p.Pt
	for i := 0; i < len(shape) && i <= p.Pt; i++ {
		if shape[i] == '+' {
			max = -1
		}
	}
	return p.Pt, max
}

func (s *State) posSummary(p Pos) bool {
	shape := s.lines[p.Line]
	return p.Pt < len(shape) && shape[p.Pt] == '+'
}

// stable reports whether equal keys denote equal numbers.
func (s *State) stable(v Val) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Const:
		return true
	case Pos:
		return !s.posSummary(x)
	case Rng:
		return false
	case *Term:
		if x.Sum {
			return false
		}
		for _, a := range x.Args {
			if !s.stable(a) {
				return false
			}
		}
	}
	return true
}

func (s *State) baseItv(v Val) (lo, hi bound) {
	zero := bound{r: new(big.Rat)}
	switch x := v.(type) {
	case Pos:
		a, b := s.posRange(x)
		lo = bound{r: big.NewRat(int64(a), 1)}
		if b >= 0 {
			hi = bound{r: big.NewRat(int64(b), 1)}
		}
	case Rng:
		lo = bound{r: big.NewRat(int64(x.Lo), 1)}
		if x.Hi >= 0 {
			hi = bound{r: big.NewRat(int64(x.Hi), 1)}
		}
	case *Term:
		if x.Op == "len" || x.Op == "runes" || x.Op == "indexof" || isUnsigned(x.T) {
			lo = zero
		}
		if x.Op == "f64" {
			return s.baseItv(x.Args[0])
		}
		if x.Op == "badint" || x.Op == "trunc" {
			if b, ok := under(x.T).(*types.Basic); ok {
				l, h := intRange(b)
				return bound{r: l}, bound{r: h}
			}
		}
		if x.Op == "+" && len(x.Args) == 2 {
			itv := func(v Val) (bound, bound) {
				base, off := lin(v)
				if base == nil {
					return bound{r: off}, bound{r: off}
				}
				if base == v {
					off = new(big.Rat)
				}
				lo, hi, _, _ := s.diffItv(base, nil)
				return shift(lo, off), shift(hi, off)
			}
			alo, ahi := itv(x.Args[0])
			blo, bhi := itv(x.Args[1])
			if alo.valid() && blo.valid() {
				lo = bound{new(big.Rat).Add(alo.r, blo.r), alo.open || blo.open}
			}
			if ahi.valid() && bhi.valid() {
				hi = bound{new(big.Rat).Add(ahi.r, bhi.r), ahi.open || bhi.open}
			}
		}
	}
	return
}

func maxLo(a, b bound) bound {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	switch a.r.Cmp(b.r) {
	case 1:
		return a
	case -1:
		return b
	}
	return bound{a.r, a.open || b.open}
}
func minHi(a, b bound) bound {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	switch a.r.Cmp(b.r) {
	case -1:
		return a
	case 1:
		return b
	}
	return bound{a.r, a.open || b.open}
}

func emptyItv(lo, hi bound) bool {
	if lo.r == nil || hi.r == nil {
		return false
	}
	c := lo.r.Cmp(hi.r)
	return c > 0 || c == 0 && (lo.open || hi.open)
}

// diffItv returns the known interval of a-b and the fact key and whether the
// stored pair is (b,a).
func (s *State) diffItv(a, b Val) (lo, hi bound, key string, swap bool) {
	if b == nil {
		key = rawKey(a) + "|"
		lo, hi = s.baseItv(a)
		if f, ok := s.facts.itv[key]; ok {
			lo, hi = maxLo(lo, f.lo), minHi(hi, f.hi)
		}
		return
	}
	ka, kb := rawKey(a), rawKey(b)
	swap = ka > kb
	if swap {
		ka, kb = kb, ka
	}
	key = ka + "|" + kb
	if f, ok := s.facts.itv[key]; ok {
		if swap {
			lo, hi = negb(f.hi), negb(f.lo)
		} else {
			lo, hi = f.lo, f.hi
		}
	}
	// unary bounds
	alo, ahi, _, _ := s.diffItv(a, nil)
	blo, bhi, _, _ := s.diffItv(b, nil)
	if alo.valid() && bhi.valid() {
		lo = maxLo(lo, bound{new(big.Rat).Sub(alo.r, bhi.r), alo.open || bhi.open})
	}
	if ahi.valid() && blo.valid() {
		hi = minHi(hi, bound{new(big.Rat).Sub(ahi.r, blo.r), ahi.open || blo.open})
	}
	return
}

func shift(b bound, off *big.Rat) bound {
	if b.r == nil {
		return b
	}
	return bound{new(big.Rat).Add(b.r, off), b.open}
}

func negb(b bound) bound {
	if b.r == nil {
		return b
	}
	return bound{new(big.Rat).Neg(b.r), b.open}
}

func (s *State) setItv(a, b Val, lo, hi bound) {
	_, _, key, swap := s.diffItv(a, b)
	if emptyItv(lo, hi) {
		s.prune()
	}
	if !s.stable(a) || !s.stable(b) {
		return
	}
	s.ownFacts()
	f := ifact{a: a, b: b, lo: lo, hi: hi}
	if swap {
		f = ifact{a: b, b: a, lo: negb(hi), hi: negb(lo)}
	}
	s.facts.itv[key] = f
	if lo.r != nil && hi.r != nil && lo.r.Cmp(hi.r) == 0 && !lo.open && !hi.open {
		if b == nil {
			if t, ok := a.(*Term); ok {
				s.addRep(t, ratConst(lo.r, t.T))
			}
		} else if lo.r.Sign() == 0 {
			if t, ok := a.(*Term); ok {
				if u, ok2 := b.(*Term); !ok2 || !strings.Contains(rawKey(u), rawKey(t)) {
					s.addRep(t, b)
					return
				}
			}
			if t, ok := b.(*Term); ok {
				s.addRep(t, a)
			}
		}
	}
}

func ratConst(r *big.Rat, t types.Type) Val {
	if r.IsInt() {
		c := constant.Make(r.Num())
		if r.Num().IsInt64() {
			c = constant.MakeInt64(r.Num().Int64())
		}
		if isFloat(t) {
			c = constant.ToFloat(c)
		}
		return Const{c, t}
	}
	return Const{constant.Make(new(big.Rat).Set(r)), t}
}

// addRep records t == to.
func (s *State) addRep(t *Term, to Val) {
	if t.Sum || isSum(to) {
		return
	}
	kt := rawKey(t)
	if kt == rawKey(to) {
		return
	}
	// prefer a constant, then the simpler value, as representative
	if u, ok := to.(*Term); ok {
		if containsTerm(u, kt) {
			// x == f(x): not a rewriting
			if containsTerm(t, rawKey(u)) {
				return
			}
			t, to = u, t
			kt = rawKey(t)
		}
	}
	s.ownFacts()
	s.facts.rep[kt] = rfact{t, to}
	s.refact()
}

// containsTerm tells whether a value contains the term with the given key.
func containsTerm(x Val, key string) bool {
	t, ok := x.(*Term)
	if !ok {
		return false
	}
	if rawKey(t) == key {
		return true
	}
	for _, a := range t.Args {
		if containsTerm(a, key) {
			return true
		}
	}
	return false
}

// refact re-normalises the facts after a new equality.
func (s *State) refact() {
	old := s.facts
	s.facts = Facts{map[string]bfact{}, map[string]ifact{}, cpm(old.rep)}
	s.fOwn = true
	for _, k := range sortedKeys(old.b) {
		f := old.b[k]
		t := s.norm(f.t)
		if u, ok := t.(*Term); ok && u.Op == "eq" {
			if r, known := s.eqKnown(u.Args[0], u.Args[1]); known {
				if r != f.v {
					s.prune()
				}
				continue
			}
			t = mkEq(u.Args[0], u.Args[1])
		}
		if b, ok := constBool(t); ok {
			if b != f.v {
				s.prune()
			}
			continue
		}
		nk := rawKey(t)
		if g, ok := s.facts.b[nk]; ok && g.v != f.v {
			s.prune()
		}
		s.facts.b[nk] = bfact{t, f.v}
	}
	for _, k := range sortedKeys(old.itv) {
		f := old.itv[k]
		a := s.norm(f.a)
		var b Val
		if f.b != nil {
			b = s.norm(f.b)
		}
		ab, ao := lin(a)
		var bb Val
		bo := new(big.Rat)
		if b != nil {
			bb, bo = lin(b)
		}
		off := new(big.Rat).Sub(bo, ao) // (ab - bb) = f - ao + bo
		lo, hi := f.lo, f.hi
		if lo.r != nil {
			lo = bound{new(big.Rat).Add(lo.r, off), lo.open}
		}
		if hi.r != nil {
			hi = bound{new(big.Rat).Add(hi.r, off), hi.open}
		}
		if ab == nil && bb == nil {
			z := new(big.Rat)
			if lo.r != nil && (lo.r.Cmp(z) > 0 || lo.r.Cmp(z) == 0 && lo.open) || hi.r != nil && (hi.r.Cmp(z) < 0 || hi.r.Cmp(z) == 0 && hi.open) {
				s.prune()
			}
			continue
		}
		if ab == nil {
			ab, bb = bb, nil
			lo, hi = negb(hi), negb(lo)
		}
		if bb != nil && rawKey(ab) == rawKey(bb) {
			z := new(big.Rat)
			if lo.r != nil && (lo.r.Cmp(z) > 0 || lo.r.Cmp(z) == 0 && lo.open) || hi.r != nil && (hi.r.Cmp(z) < 0 || hi.r.Cmp(z) == 0 && hi.open) {
				s.prune()
			}
			continue
		}
		clo, chi, key, swap := s.diffItv(ab, bb)
		lo, hi = maxLo(lo, clo), minHi(hi, chi)
		if emptyItv(lo, hi) {
			s.prune()
		}
		nf := ifact{a: ab, b: bb, lo: lo, hi: hi}
		if swap {
			nf = ifact{a: bb, b: ab, lo: negb(hi), hi: negb(lo)}
		}
		s.facts.itv[key] = nf
	}
}

// cmp3 restricts a-b (numeric) to the given op, choosing if undetermined.
func (s *State) cmpNum(op token.Token, a, b Val) bool {
	a, b = s.norm(a), s.norm(b)
	if ca, ok := a.(Const); ok {
		if cb, ok := b.(Const); ok {
			return constant.Compare(ca.V, op, cb.V)
		}
	}
	if p, ok := a.(Pos); ok {
		if q, ok := b.(Pos); ok && p.Line == q.Line {
			switch {
			case p.Pt < q.Pt:
				return op == token.LSS || op == token.LEQ || op == token.NEQ
			case p.Pt > q.Pt:
				return op == token.GTR || op == token.GEQ || op == token.NEQ
			case !s.posSummary(p):
				return op == token.EQL || op == token.LEQ || op == token.GEQ
			}
			return s.choose(2) == 0
		}
	}
	if op == token.EQL || op == token.NEQ {
		if t := s.floatAtom(a, b); t != nil {
			r := s.truth(t)
			return r == (op == token.EQL)
		}
	}
	if sg, atom := s.floorCmp(a, b); atom != nil {
		// a-b is zero exactly when atom holds, and has sign sg otherwise
		if s.truth(atom) {
			return op == token.EQL || op == token.LEQ || op == token.GEQ
		}
		if sg < 0 {
			return op == token.LSS || op == token.LEQ || op == token.NEQ
		}
		return op == token.GTR || op == token.GEQ || op == token.NEQ
	}
	ab, ao := lin(a)
	bb, bo := lin(b)
	c := new(big.Rat).Sub(bo, ao) // ab - bb  op  c
	flip := false
	if ab == nil {
		ab, bb = bb, nil
		c.Neg(c)
		flip = true
	}
	if ab == nil {
		return false
	}
	if flip {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if bb != nil && rawKey(ab) == rawKey(bb) && s.stable(ab) {
		z := new(big.Rat)
		return ratCmp(z, op, c)
	}
	lo, hi, _, _ := s.diffItv(ab, bb)
	ints := intOnly(ab, bb)
	canLess, canEq, canGtr := true, true, true
	if lo.r != nil {
		switch lo.r.Cmp(c) {
		case 0:
			canLess = false
			if lo.open {
				canEq = false
			}
		case 1:
			canLess, canEq = false, false
		}
	}
	if hi.r != nil {
		switch hi.r.Cmp(c) {
		case 0:
			canGtr = false
			if hi.open {
				canEq = false
			}
		case -1:
			canGtr, canEq = false, false
		}
	}
	if ints && !c.IsInt() {
		canEq = false
	}
	if !canLess && !canEq && !canGtr {
		s.prune()
	}
	setLess := func() {
		h := bound{c, true}
		if ints && c.IsInt() {
			h = bound{new(big.Rat).Sub(c, big.NewRat(1, 1)), false}
		}
		s.setItv(ab, bb, lo, minHi(hi, h))
	}
	setGtr := func() {
		l := bound{c, true}
		if ints && c.IsInt() {
			l = bound{new(big.Rat).Add(c, big.NewRat(1, 1)), false}
		}
		s.setItv(ab, bb, maxLo(lo, l), hi)
	}
	setEq := func() { s.setItv(ab, bb, maxLo(lo, bound{c, false}), minHi(hi, bound{c, false})) }
	setLE := func() { s.setItv(ab, bb, lo, minHi(hi, bound{c, false})) }
	setGE := func() { s.setItv(ab, bb, maxLo(lo, bound{c, false}), hi) }
	desc := func(r bool) {
		s.note(show(a) + " " + opFlip(op, flip).String() + " " + show(b) + " is " + strconv.FormatBool(r))
	}
	pick := func(t, f bool, st, sf func()) bool {
		if t && !f {
			return true
		}
		if f && !t {
			return false
		}
		r := s.choose(2) == 0
		s.taintNum(ab, bb)
		if r {
			st()
		} else {
			sf()
		}
		desc(r)
		return r
	}
	switch op {
	case token.LSS:
		return pick(canLess, canEq || canGtr, setLess, setGE)
	case token.LEQ:
		return pick(canLess || canEq, canGtr, setLE, setGtr)
	case token.GTR:
		return pick(canGtr, canLess || canEq, setGtr, setLE)
	case token.GEQ:
		return pick(canGtr || canEq, canLess, setGE, setLess)
	}
	// EQL / NEQ: three-way
	var alts []int
	if canEq {
		alts = append(alts, 0)
	}
	if canLess {
		alts = append(alts, -1)
	}
	if canGtr {
		alts = append(alts, 1)
	}
	k := alts[s.choose(len(alts))]
	if len(alts) > 1 {
		s.taintNum(ab, bb)
	}
	switch {
	case k == 0 && len(alts) > 1:
		setEq()
	case k < 0 && len(alts) > 1:
		setLess()
	case k > 0 && len(alts) > 1:
		setGtr()
	}
	r := (k == 0) == (op == token.EQL)
	if len(alts) > 1 {
		s.note(show(a) + map[int]string{0: " == ", -1: " < ", 1: " > "}[k] + show(b) + " (operands as normalised)")
	}
	return r
}

// taintNum: a range has no identity, so two decisions about it may disagree.
func (s *State) taintNum(vs ...Val) {
	var has func(v Val) bool
	has = func(v Val) bool {
		switch x := v.(type) {
		case Rng:
			return true
		case *Term:
			for _, a := range x.Args {
				if has(a) {
					return true
				}
			}
		}
		return false
	}
	for _, v := range vs {
		if v != nil && has(v) {
			s.taint("comparison of a number known only as a range")
		}
	}
}

func opFlip(op token.Token, flip bool) token.Token {
	if !flip {
		return op
	}
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func ratCmp(a *big.Rat, op token.Token, b *big.Rat) bool {
	c := a.Cmp(b)
	switch op {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	}
	return c >= 0
}

func show(v Val) string {
	k := rawKey(v)
	if len(k) > 80 {
		k = k[:77] + "..."
	}
	return k
}

// floatAtom recognises integrality and divisibility tests.
func (s *State) floatAtom(a, b Val) Val {
	try := func(a, b Val) Val {
		t, ok := a.(*Term)
		if !ok {
			return nil
		}
		switch t.Op {
		case "floor", "ceil", "ftrunc", "round":
			if rawKey(t.Args[0]) == rawKey(b) {
				return mkIsInt(b)
			}
		case "f64":
			if u, ok := t.Args[0].(*Term); ok && u.Op == "trunc" && rawKey(u.Args[0]) == rawKey(b) {
				return mkIsInt(b)
			}
		case "mod":
			if c, ok := b.(Const); ok && constant.Sign(c.V) == 0 {
				if m, ok := t.Args[1].(Const); ok {
					if r := ratOf(m.V); r.Cmp(big.NewRat(1, 1)) == 0 {
						return mkIsInt(t.Args[0])
					}
				}
				return mkTerm("divisible", tBool, t.Args[0], t.Args[1])
			}
		case "f-":
			if c, ok := b.(Const); ok && constant.Sign(c.V) == 0 {
				if u, ok := t.Args[1].(*Term); ok && (u.Op == "floor" || u.Op == "ceil" || u.Op == "ftrunc" || u.Op == "round") && rawKey(u.Args[0]) == rawKey(t.Args[0]) {
					return mkIsInt(t.Args[0])
				}
			}
		}
		return nil
	}
	if r := try(a, b); r != nil {
		return r
	}
	return try(b, a)
}

// floorCmp recognises comparisons of a number with its own floor or ceiling.
func (s *State) floorCmp(a, b Val) (int, Val) {
	one := func(a, b Val) (int, Val) { // sign of a-b
		t, ok := a.(*Term)
		if !ok {
			return 0, nil
		}
		switch t.Op {
		case "floor", "ceil":
			if rawKey(t.Args[0]) == rawKey(b) {
				if t.Op == "floor" {
					return -1, mkIsInt(b)
				}
				return 1, mkIsInt(b)
			}
		case "f-":
			if c, ok := b.(Const); ok && constant.Sign(c.V) == 0 {
				if u, ok := t.Args[1].(*Term); ok && u.Op == "floor" && rawKey(u.Args[0]) == rawKey(t.Args[0]) {
					return 1, mkIsInt(t.Args[0])
				}
				if u, ok := t.Args[0].(*Term); ok && u.Op == "ceil" && rawKey(u.Args[0]) == rawKey(t.Args[1]) {
					return 1, mkIsInt(t.Args[1])
				}
			}
		case "abs":
			if c, ok := b.(Const); ok && constant.Sign(c.V) == 0 {
				if at := s.floatAtom(t.Args[0], b); at != nil {
					return 1, at
				}
			}
		}
		return 0, nil
	}
	if sg, at := one(a, b); at != nil {
		return sg, at
	}
	sg, at := one(b, a)
	return -sg, at
}

func mkIsInt(v Val) Val {
	if t, ok := v.(*Term); ok && t.Op == "f64" {
		return mkBool(true)
	}
	if c, ok := v.(Const); ok {
		return mkBool(ratOf(c.V).IsInt())
	}
	return mkTerm("isint", tBool, v)
}

// truth decides a boolean value.
func (s *State) truth(v Val) bool {
	v = s.norm(v)
	switch x := v.(type) {
	case Const:
		return constant.BoolVal(x.V)
	case *Term:
		switch x.Op {
		case "not":
			return !s.truth(x.Args[0])
		case "eq":
			return s.eq(x.Args[0], x.Args[1])
		}
		k := rawKey(x)
		if f, ok := s.facts.b[k]; ok {
			return f.v
		}
		r := s.choose(2) == 0
		s.ownFacts()
		s.facts.b[k] = bfact{x, r}
		s.note(show(x) + " is " + strconv.FormatBool(r))
		return r
	case Choice:
		return s.truth(x.V[s.choose(len(x.V))])
	}
	s.fail("truth of %T", v)
	return false
}

// killSum drops facts about summary values (a new instance is considered).
func (s *State) killSum() {
	has := func(v Val) bool { return v != nil && isSum(v) }
	for _, f := range s.facts.b {
		if has(f.t) {
			goto kill
		}
	}
	for _, f := range s.facts.itv {
		if has(f.a) || has(f.b) {
			goto kill
		}
	}
	return
kill:
	s.ownFacts()
	for k, f := range s.facts.b {
		if has(f.t) {
			delete(s.facts.b, k)
		}
	}
	for k, f := range s.facts.itv {
		if has(f.a) || has(f.b) {
			delete(s.facts.itv, k)
		}
	}
}

func mkEq(a, b Val) *Term {
	if rawKey(a) > rawKey(b) {
		a, b = b, a
	}
	if _, ok := a.(Const); ok {
		a, b = b, a
	}
	return mkTerm("eq", tBool, a, b)
}

// injective operators: op(x)==op(y) iff x==y
var injective = map[string]bool{"fmtv": true, "quote": true, "dec": true, "g": true, "f64": false, "tstr": true}

// eqKnown decides equality of string-like values without choosing.
func (s *State) eqKnown(a, b Val) (res, known bool) {
	// errors have messages
	for _, p := range [][2]Val{{a, b}, {b, a}} {
		if t, ok := p[0].(*Term); ok && t.Op == "errmsg" {
			if c, ok := constStr(p[1]); ok && c == "" {
				return false, true
			}
		}
	}
	if sa, ok := constStr(a); ok {
		if sb, ok := constStr(b); ok {
			return sa == sb, true
		}
	}
	if ca, ok := a.(Const); ok {
		if cb, ok := b.(Const); ok {
			if ca.V.Kind() == cb.V.Kind() || ca.V.Kind() != constant.String && ca.V.Kind() != constant.Bool && cb.V.Kind() != constant.String && cb.V.Kind() != constant.Bool {
				return constant.Compare(ca.V, token.EQL, cb.V), true
			}
			return false, true
		}
	}
	if rawKey(a) == rawKey(b) && !isSum(a) {
		return true, true
	}
	return false, false
}

// mayRead tells whether a string can be the constant c, given the constant
// parts and the characters known of it.
func mayRead(x Val, c string) bool {
	parts := []Val{x}
	if cat, ok := x.(Cat); ok {
		parts = cat.P
	}
	var re strings.Builder
	re.WriteString("(?s)^")
	known := false
	for _, p := range parts {
		if k, ok := constStr(p); ok {
			re.WriteString(regexp.QuoteMeta(k))
			known = true
		} else if set, ok := charsOf(p); ok {
			re.WriteString("(?:")
			for i, r := range set {
				if i > 0 {
					re.WriteString("|")
				}
				re.WriteString(regexp.QuoteMeta(string(r)))
			}
			re.WriteString(")*")
			known = true
		} else {
			re.WriteString(".*")
		}
	}
	if !known {
		return true
	}
	re.WriteString("$")
	rx, err := regexp.Compile(re.String())
	return err != nil || rx.MatchString(c)
}

// eqStr decides equality of two strings.
func (s *State) eqStr(a, b Val) bool {
	a, b = s.norm(a), s.norm(b)
	if r, ok := s.eqKnown(a, b); ok {
		return r
	}
	if hasChars(a) || hasChars(b) {
		if ca, ok := chars(a); ok {
			if cb, ok := chars(b); ok {
				if len(ca) != len(cb) {
					return false
				}
				for i := range ca {
					if !s.cmpNum(token.EQL, ca[i], cb[i]) {
						return false
					}
				}
				return true
			}
		}
	}
	// strip common prefixes and suffixes
	pa, pb := append([]Val(nil), catParts(a)...), append([]Val(nil), catParts(b)...)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if rawKey(x) == rawKey(y) && !isSum(x) {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		cx, okx := constStr(x)
		cy, oky := constStr(y)
		if okx && oky {
			n := 0
			for n < len(cx) && n < len(cy) && cx[n] == cy[n] {
				n++
			}
			if n < len(cx) && n < len(cy) {
				return false
			}
			pa, pb = pa[1:], pb[1:]
			if n < len(cx) {
				pa = append([]Val{mkStr(cx[n:])}, pa...)
			}
			if n < len(cy) {
				pb = append([]Val{mkStr(cy[n:])}, pb...)
			}
			continue
		}
		if tx, ok := x.(*Term); ok && len(pa) > 1 && len(pb) > 1 {
			if ty, ok := y.(*Term); ok && tx.Op == ty.Op && delimited(tx.Op, pa[1:]) && delimited(ty.Op, pb[1:]) {
				if !s.eq(tx.Args[0], ty.Args[0]) {
					return false
				}
				return s.eqStr(mkCat(pa[1:]...), mkCat(pb[1:]...))
			}
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if rawKey(x) == rawKey(y) && !isSum(x) {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		cx, okx := constStr(x)
		cy, oky := constStr(y)
		if okx && oky {
			n := 0
			for n < len(cx) && n < len(cy) && cx[len(cx)-1-n] == cy[len(cy)-1-n] {
				n++
			}
			if n < len(cx) && n < len(cy) {
				return false
			}
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			if n < len(cx) {
				pa = append(pa[:len(pa):len(pa)], mkStr(cx[:len(cx)-n]))
			}
			if n < len(cy) {
				pb = append(pb[:len(pb):len(pb)], mkStr(cy[:len(cy)-n]))
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return true
	}
	minLen := func(p []Val) int {
		n := 0
		for _, x := range p {
			if c, ok := constStr(x); ok {
				n += len(c)
			} else if t, ok := x.(*Term); ok {
				switch t.Op {
				case "dec", "g", "fmtv":
					n++
				case "quote":
					n += 2
				}
			}
		}
		return n
	}
	if len(pa) == 0 && minLen(pb) > 0 || len(pb) == 0 && minLen(pa) > 0 {
		return false
	}
	allConst := func(p []Val) bool {
		for _, x := range p {
			if _, ok := constStr(x); !ok {
				return false
			}
		}
		return true
	}
	if allConst(pa) {
		if c, _ := constStr(mkCat(pa...)); len(c) < minLen(pb) {
			return false
		}
	}
	if allConst(pb) {
		if c, _ := constStr(mkCat(pb...)); len(c) < minLen(pa) {
			return false
		}
	}
	a, b = mkCat(pa...), mkCat(pb...)
	if fa, fb := firstChars(a), firstChars(b); fa != "" && fb != "" && !strings.ContainsAny(fa, fb) {
		return false
	}
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if oka && okb && ta.Op == tb.Op && injective[ta.Op] && len(ta.Args) == len(tb.Args) {
		if len(ta.Args) == 1 {
			return s.eq(ta.Args[0], tb.Args[0])
		}
	}
	// empty string
	for i, x := range []Val{a, b} {
		if c, ok := constStr(x); ok && c == "" {
			o := b
			if i == 1 {
				o = a
			}
			if _, ok := o.(*Term); ok {
				if s.cmpNum(token.EQL, s.strLen(o), mkInt(0)) {
					s.addRep(o.(*Term), mkStr(""))
					return true
				}
				return false
			}
		}
	}
	if oka && okb || oka && isConst(b) || okb && isConst(a) {
		// lengths
		la, lb := s.norm(s.strLen(a)), s.norm(s.strLen(b))
		if xa, ok := constInt(la); ok {
			if xb, ok := constInt(lb); ok && xa != xb {
				return false
			}
		}
		if (isConst(a) || isConst(b)) && !s.possibleLen(a, b) {
			return false
		}
	}
	if isSum(a) || isSum(b) {
		if s.distinctClasses(a, b) {
			return false
		}
		s.taint("comparison of one of many strings")
		return s.choose(2) == 0
	}
	e := mkEq(a, b)
	k := rawKey(e)
	if f, ok := s.facts.b[k]; ok {
		return f.v
	}
	for _, p := range [][2]Val{{a, b}, {b, a}} {
		if c, ok := constStr(p[0]); ok && !mayRead(p[1], c) {
			return false
		}
	}
	r := s.choose(2) == 0
	s.note(show(a) + " == " + show(b) + " is " + strconv.FormatBool(r))
	if r {
		ca, hasa := charsOf(a)
		cb, hasb := charsOf(b)
		switch {
		case hasa && hasb && ca != cb, hasa && !okb && !isConst(b), hasb && !oka && !isConst(a):
			s.taint("equal strings of different characters")
		case hasa && okb:
			ta, tb = tb, ta
		}
		switch {
		case oka && !okb:
			s.addRep(ta, b)
		case okb && !oka:
			s.addRep(tb, a)
		case oka && okb:
			s.addRep(ta, tb)
		}
		if rawKey(s.norm(a)) != rawKey(s.norm(b)) {
			s.ownFacts()
			s.facts.b[k] = bfact{e, r}
		}
	} else {
		s.ownFacts()
		s.facts.b[k] = bfact{e, r}
	}
	return r
}

// delimited: where a text of this kind ends does not depend on its value.
func delimited(op string, rest []Val) bool {
	switch op {
	case "quote":
		return true
	case "dec", "g":
		if c, ok := constStr(rest[0]); ok {
			return c != "" && strings.IndexByte("0123456789+-.eEaInNf", c[0]) < 0
		}
	}
	return false
}

func isConst(v Val) bool { _, ok := v.(Const); return ok }

// possibleLen: term and constant could have equal lengths under the facts.
func (s *State) possibleLen(a, b Val) bool {
	c, ok := constStr(b)
	t := a
	if !ok {
		c, ok = constStr(a)
		t = b
	}
	if !ok {
		return true
	}
	l := s.norm(s.strLen(t))
	if n, ok := constInt(l); ok {
		return n == len(c)
	}
	base, off := lin(l)
	if base == nil {
		return true
	}
	lo, hi, _, _ := s.diffItv(base, nil)
	x := new(big.Rat).Sub(big.NewRat(int64(len(c)), 1), off)
	if lo.r != nil && x.Cmp(lo.r) < 0 || hi.r != nil && x.Cmp(hi.r) > 0 {
		return false
	}
	return true
}

// distinctClasses: summary inputs of different classes never coincide.
func (s *State) distinctClasses(a, b Val) bool {
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok || !ok2 || len(x.Args) > 0 || len(y.Args) > 0 {
		// a summary name never equals a literal
		if ok && x.Sum && len(x.Args) == 0 && isConst(b) || ok2 && y.Sum && len(y.Args) == 0 && isConst(a) {
			return true
		}
		return false
	}
	return x.Op != y.Op
}

func (s *State) strLen(v Val) Val {
	switch x := v.(type) {
	case Const:
		return mkInt(len(constant.StringVal(x.V)))
	case Cat:
		var r Val = mkInt(0)
		for _, p := range x.P {
			r = s.arith(token.ADD, r, s.strLen(p), tInt)
		}
		return r
	case *Term:
		if x.Op == "char" {
			return mkInt(1)
		}
		return mkTerm("len", tInt, x)
	}
	s.fail("len of %T", v)
	return nil
}

func (s *State) convTerm(op string, v Val, t types.Type) Val {
	if c, ok := v.(Const); ok {
		return convConst(c, t)
	}
	return mkTerm(op, t, v)
}

// eq decides equality of two values of the same static type.
func (s *State) eq(a, b Val) bool {
	a, b = s.norm(a), s.norm(b)
	if c, ok := a.(Choice); ok {
		a = c.V[s.choose(len(c.V))]
	}
	if c, ok := b.(Choice); ok {
		b = c.V[s.choose(len(c.V))]
	}
	if tu, ok := a.(*Term); ok && tu.Op == "ite" {
		s.fail("ite")
	}
	// nil tests
	if _, ok := a.(Nil); ok {
		return s.isNil(b)
	}
	if _, ok := b.(Nil); ok {
		return s.isNil(a)
	}
	switch x := a.(type) {
	case Const:
		return s.eqConst(x, b)
	case Cat:
		return s.eqStr(a, b)
	case Pos, Rng:
		return s.cmpNum(token.EQL, a, b)
	case Ptr:
		y, ok := b.(Ptr)
		if ok {
			return x == y
		}
		return false
	case Map:
		y, ok := b.(Map)
		return ok && x == y
	case Func:
		return rawKey(a) == rawKey(b)
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			if t, ok := b.(*Term); ok {
				for i := range x.F {
					if !s.eq(x.F[i], s.component(t, i)) {
						return false
					}
				}
				return true
			}
			return false
		}
		for i := range x.F {
			if !s.eq(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !s.eq(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case Iface:
		switch y := b.(type) {
		case Iface:
			if !types.Identical(x.Dyn, y.Dyn) {
				return false
			}
			if !types.Comparable(x.Dyn) {
				s.goPanic("comparing uncomparable type " + typeKey(x.Dyn))
			}
			return s.eq(x.V, y.V)
		case *Term:
			return s.truthRaw(mkEq(a, b))
		}
		return false
	case RV:
		y, ok := b.(RV)
		if !ok {
			return false
		}
		if !x.Valid || !y.Valid {
			return x.Valid == y.Valid
		}
		return rawKey(a) == rawKey(b)
	case RT:
		y, ok := b.(RT)
		return ok && types.Identical(x.T, y.T)
	case *Term:
		switch y := b.(type) {
		case Const:
			return s.eqConst(y, a)
		case Cat:
			return s.eqStr(a, b)
		case Pos, Rng:
			return s.cmpNum(token.EQL, a, b)
		case *Term:
			if isString(x.T) {
				return s.eqStr(a, b)
			}
			if isNumeric(x.T) {
				return s.cmpNum(token.EQL, a, b)
			}
			if isBoolean(x.T) {
				return s.truth(a) == s.truth(b)
			}
			if rawKey(a) == rawKey(b) && !x.Sum {
				return true
			}
			if x.Op == "re" && y.Op == "re" {
				// every compilation makes its own object
				if rawKey(a) != rawKey(b) {
					return false
				}
			}
			if x.Sum || y.Sum {
				if s.distinctClasses(a, b) {
					return false
				}
				s.taint("comparison of one of many values")
				return s.choose(2) == 0
			}
			return s.truthRaw(mkEq(a, b))
		case Struct:
			return s.eq(b, a)
		case Ptr, Map, Func, Iface:
			if x.Op == "opaqueptr" {
				return false
			}
			if isSum(a) {
				s.taint("comparison of one of many values")
				return s.choose(2) == 0
			}
			return s.truthRaw(mkEq(a, b))
		}
	}
	return false
}

func (s *State) truthRaw(t *Term) bool {
	k := rawKey(t)
	if f, ok := s.facts.b[k]; ok {
		return f.v
	}
	r := s.choose(2) == 0
	s.ownFacts()
	s.facts.b[k] = bfact{t, r}
	s.note(show(t) + " is " + strconv.FormatBool(r))
	return r
}

func (s *State) eqConst(c Const, b Val) bool {
	switch c.V.Kind() {
	case constant.String:
		return s.eqStr(c, b)
	case constant.Bool:
		return s.truth(b) == constant.BoolVal(c.V)
	}
	return s.cmpNum(token.EQL, c, b)
}

func (s *State) isNil(v Val) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case *Term:
		if x.NonNil {
			return false
		}
		if isSum(x) {
			// recorded until the next instance
		}
		return s.truth(mkTerm("isnil", tBool, x))
	case Choice:
		return s.isNil(x.V[s.choose(len(x.V))])
	case Func:
		return false
	}
	return false
}

// arith evaluates integer/float/string arithmetic.
func (s *State) arith(op token.Token, a, b Val, t types.Type) Val {
	if isString(t) && op == token.ADD {
		return mkCat(a, b)
	}
	a, b = s.norm(a), s.norm(b)
	ca, oka := a.(Const)
	cb, okb := b.(Const)
	if oka && okb {
		switch op {
		case token.QUO, token.REM:
			if isInteger(t) {
				if constant.Sign(cb.V) == 0 {
					s.goPanic("integer divide by zero")
				}
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
			} else if constant.Sign(cb.V) == 0 {
				return mkTerm("float/0", t, a)
			}
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(cb.V)
			return convConst(Const{constant.Shift(ca.V, op, uint(n)), t}, t)
		}
		va, vb := ca.V, cb.V
		if isFloat(t) {
			va, vb = constant.ToFloat(va), constant.ToFloat(vb)
		}
		return convConst(Const{constant.BinaryOp(va, op, vb), t}, t)
	}
	if p, ok := a.(Pos); ok && okb {
		if n, ok := constInt(cb); ok {
			if op == token.SUB {
				return s.posStep(p, -n)
			}
			if op == token.ADD {
				return s.posStep(p, n)
			}
		}
	}
	if p, ok := b.(Pos); ok && oka && op == token.ADD {
		if n, ok := constInt(ca); ok {
			return s.posStep(p, n)
		}
	}
	if p, ok := a.(Pos); ok && op == token.SUB {
		if q, ok := b.(Pos); ok && p.Line == q.Line && p.Pt == q.Pt && !s.posSummary(p) {
			return mkInt(0)
		}
	}
	if r, ok := a.(Rng); ok && okb {
		if n, ok := constInt(cb); ok && (op == token.ADD || op == token.SUB) {
			if op == token.SUB {
				n = -n
			}
			hi := r.Hi
			if hi >= 0 {
				hi += n
				if hi < 0 {
					hi = 0
				}
			}
			return Rng{r.Lo + n, hi}
		}
	}
	if r, ok := b.(Rng); ok && oka && op == token.ADD {
		return s.arith(op, r, a, t)
	}
	if _, ok := a.(Rng); ok {
		return Rng{-1 << 40, -1}
	}
	if _, ok := b.(Rng); ok {
		return Rng{-1 << 40, -1}
	}
	switch op {
	case token.ADD, token.SUB:
		if isInteger(t) {
			if oka && op == token.ADD {
				a, b, oka, okb = b, a, false, true
				ca, cb = cb, ca
			}
			if okb {
				c := cb.V
				if op == token.SUB {
					c = constant.UnaryOp(token.SUB, c, 0)
				}
				base, off := lin(a)
				o := new(big.Rat).Add(off, ratOf(c))
				if base == nil {
					return ratConst(o, t)
				}
				if o.Sign() == 0 {
					return base
				}
				return mkTerm("+", t, base, ratConst(o, t))
			}
			if op == token.SUB && rawKey(a) == rawKey(b) && s.stable(a) {
				return Const{constant.MakeInt64(0), t}
			}
			if op == token.ADD && rawKey(a) > rawKey(b) {
				a, b = b, a
			}
		}
	case token.MUL:
		if isInteger(t) && (oka || okb) {
			x, c := a, cb
			if oka {
				x, c = b, ca
			}
			if n, ok := constInt(c); ok && n == 1 {
				return x
			} else if ok && n == 0 {
				return Const{constant.MakeInt64(0), t}
			}
		}
		if rawKey(a) > rawKey(b) {
			a, b = b, a
		}
	case token.QUO, token.REM:
		if n, ok := constInt(b); ok && n == 1 && isInteger(t) {
			if op == token.QUO {
				return a
			}
			return Const{constant.MakeInt64(0), t}
		}
		if isInteger(t) && s.cmpNum(token.EQL, b, mkInt(0)) {
			s.goPanic("integer divide by zero")
		}
	}
	name := op.String()
	if !isInteger(t) {
		name = "f" + name
	}
	return mkTerm(name, t, a, b)
}

// posStep moves a position by n elements.
func (s *State) posStep(p Pos, n int) Val {
	shape := s.lines[p.Line]
	for ; n > 0; n-- {
		if p.Pt >= len(shape) {
			return mkTerm("+", tInt, p, mkInt(n))
		}
		if shape[p.Pt] == '+' {
			if s.choose(2) == 0 {
				s.killSum()
				continue
			}
		}
		p.Pt++
	}
	for ; n < 0; n++ {
		if p.Pt < len(shape) && shape[p.Pt] == '+' {
			if s.choose(2) == 0 {
				s.killSum()
				continue
			}
		}
		p.Pt--
		if p.Pt < 0 {
			return mkInt(n)
		}
	}
	return p
}

func convConst(c Const, t types.Type) Const {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return Const{c.V, t}
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		v := c.V
		if v.Kind() == constant.Float {
			r := ratOf(v)
			q := new(big.Int).Quo(r.Num(), r.Denom())
			v = constant.Make(q)
			if q.IsInt64() {
				v = constant.MakeInt64(q.Int64())
			}
		}
		if v.Kind() != constant.Int {
			return Const{v, t}
		}
		size, signed := 64, b.Info()&types.IsUnsigned == 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			size = 8
		case types.Int16, types.Uint16:
			size = 16
		case types.Int32, types.Uint32:
			size = 32
		}
		n := new(big.Int)
		switch x := constant.Val(v).(type) {
		case int64:
			n.SetInt64(x)
		case *big.Int:
			n.Set(x)
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(size))
		n.Mod(n, m)
		if signed && n.Bit(size-1) == 1 {
			n.Sub(n, m)
		}
		if n.IsInt64() {
			return Const{constant.MakeInt64(n.Int64()), t}
		}
		return Const{constant.Make(n), t}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.V))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Const{constant.MakeFloat64(f), t}
	}
	return Const{c.V, t}
}

// foldConst evaluates an operator whose arguments turned out to be constants,
// the way it would have been evaluated had they been known at the call.
func foldConst(x *Term, args []Val) Val {
	if len(args) == 0 {
		return nil
	}
	var str []string
	var num []float64
	for _, a := range args {
		c, ok := a.(Const)
		if !ok {
			return nil
		}
		switch c.V.Kind() {
		case constant.String:
			str = append(str, constant.StringVal(c.V))
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(constant.ToFloat(c.V))
			num = append(num, f)
		}
	}
	num1, num2 := len(num) == len(args) && len(num) == 1, len(num) == len(args) && len(num) == 2
	str1, str2 := len(str) == len(args) && len(str) == 1, len(str) == len(args) && len(str) == 2
	flt := func(f float64) Val {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil
		}
		return Const{constant.MakeFloat64(f), x.T}
	}
	switch {
	case x.Op == "divisible" && num2 && num[1] != 0:
		return mkBool(math.Mod(num[0], num[1]) == 0)
	case x.Op == "isint" && num1:
		return mkBool(math.Floor(num[0]) == num[0])
	case x.Op == "mod" && num2 && num[1] != 0:
		return flt(math.Mod(num[0], num[1]))
	case x.Op == "floor" && num1:
		return flt(math.Floor(num[0]))
	case x.Op == "ceil" && num1:
		return flt(math.Ceil(num[0]))
	case x.Op == "ftrunc" && num1:
		return flt(math.Trunc(num[0]))
	case x.Op == "round" && num1:
		return flt(math.Round(num[0]))
	case x.Op == "abs" && num1:
		return flt(math.Abs(num[0]))
	case x.Op == "match" && str2:
		if re, err := regexp.Compile(str[0]); err == nil {
			return mkBool(re.MatchString(str[1]))
		}
	case x.Op == "validre" && str1:
		_, err := regexp.Compile(str[0])
		return mkBool(err == nil)
	case x.Op == "strless" && str2:
		return mkBool(str[0] < str[1])
	case x.Op == "char" && num1:
		return mkStr(string(rune(int(num[0]))))
	case x.Op == "runes" && str1:
		return Const{constant.MakeInt64(int64(utf8.RuneCountInString(str[0]))), x.T}
	case x.Op == "quote" && str1:
		return mkStr(strconv.Quote(str[0]))
	}
	name, ok := strings.CutPrefix(x.Op, "ok:")
	if f, isFn := constFns[name]; isFn {
		outs := constOuts(f)
		r, done := constCall(name, args, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(outs...), false))
		if !done {
			return nil
		}
		first, last := r, r
		if tp, isT := r.(Tuple); isT {
			first, last = tp.V[0], tp.V[len(tp.V)-1]
		}
		if ok {
			_, isNil := last.(Nil)
			return mkBool(isNil)
		}
		if c, isC := first.(Const); isC && (len(outs) == 1 || outs[len(outs)-1].Type() != types.Type(tError) || isNilVal(last)) {
			return Const{c.V, x.T}
		}
	}
	return nil
}

func isNilVal(v Val) bool {
	_, ok := v.(Nil)
	return ok
}

// constOuts is the result list of a function evaluated on constants.
func constOuts(f any) []*types.Var {
	rt := reflect.TypeOf(f)
	outs := make([]*types.Var, rt.NumOut())
	for i := range outs {
		t := types.Type(tAny)
		switch rt.Out(i).Kind() {
		case reflect.String:
			t = tString
		case reflect.Bool:
			t = tBool
		case reflect.Interface:
			t = tError
		case reflect.Float64:
			t = tFloat
		default:
			t = tInt
		}
		outs[i] = types.NewVar(token.NoPos, nil, "", t)
	}
	return outs
}

func foldCall(name string, args []Val) (Val, bool) {
	f, ok := constFns[name]
	if !ok {
		return nil, false
	}
	return constCall(name, args, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(constOuts(f)...), false))
}

// ---- strings of a known length ----

// chars splits a string into its bytes, if its length is known and every
// unknown character is a single byte.
func chars(v Val) ([]Val, bool) {
	var out []Val
	for _, p := range catParts(v) {
		if c, ok := constStr(p); ok {
			for i := 0; i < len(c); i++ {
				out = append(out, Const{constant.MakeInt64(int64(c[i])), tByte})
			}
			continue
		}
		t, ok := p.(*Term)
		if !ok || t.Op != "char" {
			return nil, false
		}
		out = append(out, t.Args[0])
	}
	return out, true
}

func hasChars(v Val) bool {
	for _, p := range catParts(v) {
		if t, ok := p.(*Term); ok && t.Op == "char" {
			return true
		}
	}
	return false
}

func mkChar(b Val) Val {
	if n, ok := constInt(b); ok {
		return mkStr(string([]byte{byte(n)}))
	}
	return mkTerm("char", tString, b)
}

func fromChars(cs []Val) Val {
	ps := make([]Val, len(cs))
	for i, c := range cs {
		ps[i] = mkChar(c)
	}
	return mkCat(ps...)
}

// ascii: the number is known to be a single-byte character.
func (s *State) ascii(v Val) bool { return s.within(v, 0, 127) }

func (s *State) within(v Val, lo, hi int64) bool {
	if _, ok := v.(*Term); !ok {
		return false
	}
	base, off := lin(s.norm(v))
	if base == nil {
		return false
	}
	l, h, _, _ := s.diffItv(base, nil)
	return l.r != nil && h.r != nil && new(big.Rat).Add(l.r, off).Cmp(big.NewRat(lo, 1)) >= 0 && new(big.Rat).Add(h.r, off).Cmp(big.NewRat(hi, 1)) <= 0
}
