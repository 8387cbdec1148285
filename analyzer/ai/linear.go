package ai

import (
	"go/constant"
	"math/big"
	"sort"
)

// The domain keeps bounds of single terms and of differences of two terms,
// and does not close them under addition. Before something found on a path
// counts, the bounds collected along it are taken together, as a system of
// linear inequalities: where that has no solution, the path does not exist.

type linRow struct {
	c      map[string]*big.Rat // sum of c[k]*k + r <= 0 (or < 0)
	r      *big.Rat
	strict bool
}

type linSys struct {
	rows  []linRow
	isInt map[string]bool
	seen  map[string]bool
	grew  bool
}

func (l *linSys) atom(v Val, t *Term) string {
	k := rawKey(v)
	if l.seen[k] {
		return k
	}
	l.seen[k] = true
	if t == nil {
		l.isInt[k] = true // a position
		return k
	}
	l.isInt[k] = isInteger(t.T)
	if n := 0; t.Op == "/" && isInteger(t.T) {
		// truncated division: |c*q - x| < c
		if c, ok := t.Args[1].(Const); ok {
			n, _ = constInt(c)
		}
		if n > 0 {
			for _, f := range []int64{1, -1} {
				row := linRow{c: map[string]*big.Rat{}, r: new(big.Rat), strict: true}
				l.addAtom(&row, k, big.NewRat(f*int64(n), 1))
				if l.add(&row, t.Args[0], big.NewRat(-f, 1)) {
					row.r.Sub(row.r, big.NewRat(int64(n), 1))
					l.rows = append(l.rows, row)
				}
			}
		}
	}
	ge0 := t.Op == "len" || t.Op == "runes" || t.Op == "indexof" || isUnsigned(t.T)
	if ge0 {
		l.rows = append(l.rows, linRow{c: map[string]*big.Rat{k: big.NewRat(-1, 1)}, r: new(big.Rat)})
	}
	if t.Op == "runes" || t.Op == "len" && len(t.Args) == 1 && isStringTerm(t.Args[0]) {
		ln := mkTerm("len", tInt, t.Args[0])
		rn := mkTerm("runes", tInt, t.Args[0])
		kl, kr := l.atom(ln, ln), l.atom(rn, rn)
		if t.Op == "runes" {
			l.rows = append(l.rows,
				linRow{c: map[string]*big.Rat{kr: big.NewRat(1, 1), kl: big.NewRat(-1, 1)}, r: new(big.Rat)},
				linRow{c: map[string]*big.Rat{kl: big.NewRat(1, 1), kr: big.NewRat(-4, 1)}, r: new(big.Rat)})
		}
	}
	return k
}

func isStringTerm(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.T != nil && isString(t.T)
}

// add adds f*v to a row.
func (l *linSys) add(row *linRow, v Val, f *big.Rat) bool {
	switch x := v.(type) {
	case Const:
		if x.V.Kind() != constant.Int && x.V.Kind() != constant.Float {
			return false
		}
		row.r.Add(row.r, new(big.Rat).Mul(f, ratOf(x.V)))
		return true
	case Pos:
		l.addAtom(row, l.atom(x, nil), f)
		return true
	case *Term:
		if x.Sum {
			return false
		}
		if len(x.Args) == 2 && isInteger(x.T) {
			switch x.Op {
			case "+":
				return l.add(row, x.Args[0], f) && l.add(row, x.Args[1], f)
			case "-":
				return l.add(row, x.Args[0], f) && l.add(row, x.Args[1], new(big.Rat).Neg(f))
			case "*":
				for i := range x.Args {
					if c, ok := x.Args[i].(Const); ok {
						return l.add(row, x.Args[1-i], new(big.Rat).Mul(f, ratOf(c.V)))
					}
				}
			}
		}
		if x.Op == "f64" {
			return l.add(row, x.Args[0], f)
		}
		l.addAtom(row, l.atom(x, x), f)
		return true
	}
	return false
}

func (l *linSys) addAtom(row *linRow, k string, f *big.Rat) {
	if o := row.c[k]; o != nil {
		o.Add(o, f)
		if o.Sign() == 0 {
			delete(row.c, k)
		}
		return
	}
	row.c[k] = new(big.Rat).Set(f)
}

// bounds adds lo <= a-b <= hi.
func (l *linSys) bounds(a, b Val, lo, hi bound) {
	one, neg := big.NewRat(1, 1), big.NewRat(-1, 1)
	mk := func(f *big.Rat, lim bound, sign int64) {
		if lim.r == nil {
			return
		}
		row := linRow{c: map[string]*big.Rat{}, r: new(big.Rat), strict: lim.open}
		if !l.add(&row, a, f) {
			return
		}
		if b != nil && !l.add(&row, b, new(big.Rat).Neg(f)) {
			return
		}
		row.r.Add(row.r, new(big.Rat).Mul(big.NewRat(sign, 1), lim.r))
		l.rows = append(l.rows, row)
	}
	mk(one, hi, -1) // a-b-hi <= 0
	mk(neg, lo, 1)  // -(a-b)+lo <= 0
}

// tighten: over integers, < is <= with one less.
func (l *linSys) tighten(r linRow) linRow {
	for k, c := range r.c {
		if !l.isInt[k] || !c.IsInt() {
			return r
		}
	}
	if !r.r.IsInt() || len(r.c) == 0 {
		return r
	}
	if r.strict {
		r.r = new(big.Rat).Add(r.r, big.NewRat(1, 1))
		r.strict = false
	}
	return r
}

// infeasible: the bounds contradict each other.
func (l *linSys) infeasible() bool {
	rows := make([]linRow, len(l.rows))
	for i, r := range l.rows {
		rows[i] = l.tighten(r)
	}
	bad := func(r linRow) bool {
		return len(r.c) == 0 && (r.r.Sign() > 0 || r.strict && r.r.Sign() == 0)
	}
	for n := 0; n < 200; n++ {
		count := map[string][2]int{}
		for _, r := range rows {
			if bad(r) {
				return true
			}
			for k, c := range r.c {
				p := count[k]
				if c.Sign() > 0 {
					p[0]++
				} else {
					p[1]++
				}
				count[k] = p
			}
		}
		if len(count) == 0 {
			return false
		}
		keys := make([]string, 0, len(count))
		for k := range count {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			a, b := count[keys[i]], count[keys[j]]
			x, y := a[0]*a[1]-a[0]-a[1], b[0]*b[1]-b[0]-b[1]
			if x != y {
				return x < y
			}
			return keys[i] < keys[j]
		})
		k := keys[0]
		var pos, neg, rest []linRow
		for _, r := range rows {
			switch c := r.c[k]; {
			case c == nil:
				rest = append(rest, r)
			case c.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		if len(rest)+len(pos)*len(neg) > 4000 {
			return false
		}
		have := map[string]bool{}
		for _, p := range pos {
			for _, q := range neg {
				nr := linRow{c: map[string]*big.Rat{}, r: new(big.Rat), strict: p.strict || q.strict}
				fp := new(big.Rat).Neg(new(big.Rat).Inv(q.c[k]))
				fp.Abs(fp)
				fq := new(big.Rat).Inv(p.c[k])
				fp, fq = fq, fp // p/p.c + q/|q.c|
				for a, c := range p.c {
					if a != k {
						l.addAtom(&nr, a, new(big.Rat).Mul(fp, c))
					}
				}
				for a, c := range q.c {
					if a != k {
						l.addAtom(&nr, a, new(big.Rat).Mul(fq, c))
					}
				}
				nr.r.Add(new(big.Rat).Mul(fp, p.r), new(big.Rat).Mul(fq, q.r))
				nr = l.tighten(nr)
				if bad(nr) {
					return true
				}
				if len(nr.c) == 0 {
					continue
				}
				if s := nr.String(); !have[s] {
					have[s] = true
					rest = append(rest, nr)
				}
			}
		}
		rows = rest
	}
	return false
}

func (r linRow) String() string {
	out := ""
	for _, k := range sortedKeys(r.c) {
		out += r.c[k].RatString() + "*" + k + "+"
	}
	out += r.r.RatString()
	if r.strict {
		out += "<"
	}
	return out
}

// impossible: the bounds along the path have no common solution.
func (s *State) impossible() bool {
	l := &linSys{isInt: map[string]bool{}, seen: map[string]bool{}}
	rep := func(f rfact) {
		if f.t.T == nil || isString(f.t.T) {
			return
		}
		if isNumeric(f.t.T) {
			z := bound{r: new(big.Rat)}
			l.bounds(f.t, f.to, z, z)
		}
	}
	for _, k := range sortedKeys(s.facts.itv) {
		f := s.facts.itv[k]
		l.bounds(f.a, f.b, f.lo, f.hi)
	}
	for _, k := range sortedKeys(s.facts.rep) {
		rep(s.facts.rep[k])
	}
	for h := s.hist; h != nil; h = h.up {
		switch {
		case h.b.t != nil:
		case h.i.a != nil:
			l.bounds(h.i.a, h.i.b, h.i.lo, h.i.hi)
		default:
			if h.r.t != nil {
				rep(h.r)
			}
		}
	}
	return l.infeasible()
}
