package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A zone is what the facts of a path say about differences of integers:
// a graph whose edges a->b with weight c mean a-b <= c. The node nil stands for 0.
type zone struct {
	x      *Explorer
	facts  map[*Term]bool
	edges  map[*Term]map[*Term]int64
	seen   map[*Term]bool
	cong   map[*Term][2]int64 // known remainders: t = r mod k
	scaled []scaled           // quotients
	mults  []scaled           // products
	side   bool               // loop variables may be related to the values that flow into them
}

// scaled says that by is k times t, or a little more.
type scaled struct {
	t, by *Term
	k     int64
}

// products derives what holds for products and quotients.
func (z *zone) products() {
	for _, m := range z.mults {
		if d, ok := z.dist1(nil, m.t); ok { // -t <= d
			z.edge(nil, m.by, d*m.k)
		}
		if d, ok := z.dist1(m.t, nil); ok {
			z.edge(m.by, nil, d*m.k)
		}
		for _, q := range z.scaled {
			if q.k == m.k {
				if d, ok := z.dist1(m.t, q.t); ok { // t <= n/k+d, so k*t <= n+k*d
					z.edge(m.by, q.by, d*m.k)
				}
			}
		}
	}
	for _, q := range z.scaled {
		if d, ok := z.dist1(nil, q.t); ok { // n/k >= -d, so n >= -k*d
			z.edge(nil, q.by, d*q.k)
		}
	}
}

// zlin splits an integer into something unknown (or nil) and a constant.
func zlin(tt *termTable, t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	switch t.op {
	case OpConv:
		return zlin(tt, t.args[0])
	case OpBin:
		if t.s != "+" && t.s != "-" {
			return t, 0
		}
		a, ao := zlin(tt, t.args[0])
		b, bo := zlin(tt, t.args[1])
		switch {
		case t.s == "+" && a == nil:
			return b, ao + bo
		case t.s == "+" && b == nil:
			return a, ao + bo
		case t.s == "-" && b == nil:
			return a, ao - bo
		case t.s == "-" && a == b:
			return nil, ao - bo
		}
	case OpPure:
		if t.s != "len" {
			return t, 0
		}
		switch s := t.args[0]; s.op {
		case OpSub:
			if s.args[2] != nil {
				a, lo := zlin(tt, s.args[1])
				b, off := zlin(tt, s.args[2])
				if a == nil || a == b {
					if a != nil {
						b = nil
					}
					return b, off - lo
				}
			}
		case OpPure:
			if s.s == "substr" {
				if lo, ok := s.args[1].intVal(); ok {
					b, off := zlin(tt, s.args[2])
					return b, off - lo
				}
			}
		case OpSeq:
			n := int64(0)
			var sp *Term
			for _, p := range s.args[1:] {
				switch {
				case p.op == OpElem:
					n++
				case sp == nil:
					sp = p.args[0]
				default:
					return t, 0
				}
			}
			if sp == nil {
				return nil, n
			}
			if l := tt.length(sp); l != t {
				b, off := zlin(tt, l)
				return b, off + n
			}
		}
	}
	return t, 0
}

func newZone(x *Explorer, facts map[*Term]bool, side bool) *zone {
	z := &zone{x: x, facts: facts, edges: map[*Term]map[*Term]int64{}, seen: map[*Term]bool{}, cong: map[*Term][2]int64{}, side: side}
	for f, v := range facts {
		switch {
		case f.op == OpBin && f.s == "==":
			a, b := f.args[0], f.args[1]
			if s, ok := b.strVal(); ok {
				l := x.tt.length(a)
				if v {
					z.le(l, x.tt.num(int64(len(s))), 0)
					z.le(x.tt.num(int64(len(s))), l, 0)
				} else if s == "" {
					z.le(x.tt.num(1), l, 0)
				}
				continue
			}
			if b.op == OpNil || b.op == OpConst && !isInt(b) {
				continue
			}
			if a.op == OpBin && a.s == "%" {
				k, ok1 := a.args[1].intVal()
				r, ok2 := b.intVal()
				if ok1 && ok2 && k == 2 && !v && (r == 0 || r == 1) {
					r, v = 1-r, true // not quite right for negative numbers, which have no remainder 1
					if a.args[0].op != OpPure {
						continue
					}
				}
				if ok1 && ok2 && v && k > 0 {
					base, off := zlin(x.tt, a.args[0])
					if base != nil {
						z.cong[base] = [2]int64{mod(r-off, k), k}
					}
				}
				continue
			}
			if v {
				z.le(a, b, 0)
				z.le(b, a, 0)
			} else if n, ok := b.intVal(); ok && n == 0 && a.isPure("len") {
				z.le(x.tt.num(1), a, 0)
			}
		case f.op == OpBin && f.s == "<":
			if v {
				z.le(f.args[0], f.args[1], -1)
			} else {
				z.le(f.args[1], f.args[0], 0)
			}
		case v && f.op == OpPure && oneOf(f.s, "strings.HasPrefix", "strings.HasSuffix", "strings.Contains"):
			if s, ok := f.args[1].strVal(); ok {
				z.le(x.tt.num(int64(len(s))), x.tt.length(f.args[0]), 0)
			}
		}
	}
	return z
}

func isInt(t *Term) bool { _, ok := t.intVal(); return ok }

func mod(a, k int64) int64 { return ((a % k) + k) % k }

// le adds a-b <= c.
func (z *zone) le(a, b *Term, c int64) {
	ab, ao := zlin(z.x.tt, a)
	bb, bo := zlin(z.x.tt, b)
	z.edge(ab, bb, c-ao+bo)
	z.axioms(ab)
	z.axioms(bb)
}

func (z *zone) edge(a, b *Term, c int64) {
	if a == b {
		return
	}
	m := z.edges[a]
	if m == nil {
		m = map[*Term]int64{}
		z.edges[a] = m
	}
	if o, ok := m[b]; !ok || c < o {
		m[b] = c
	}
}

// axioms adds what holds for a term whatever the path.
func (z *zone) axioms(t *Term) {
	if t == nil || z.seen[t] {
		return
	}
	z.seen[t] = true
	tt := z.x.tt
	switch {
	case t.isPure("len") || t.isPure("cap"):
		z.edge(nil, t, 0)
		if l := tt.length(t.args[0]); t.isPure("cap") {
			z.le(l, t, 0)
		}
		if t.args[0].splits() {
			z.le(tt.num(1), t, 0)
		}
		if n, ok := z.matches(t.args[0]); ok {
			z.le(t, tt.num(n), 0)
			z.le(tt.num(n), t, 0)
		}
		// a list is at least as long as each of the lists spread into it
		if s := t.args[0]; s.op == OpSeq {
			n := int64(0)
			for _, p := range s.args[1:] {
				if p.op == OpElem {
					n++
				} else {
					z.le(tt.length(p.args[0]), t, 0)
				}
			}
			z.le(tt.num(n), t, 0)
		}
	case t.op == OpPure && hasPrefixAny(t.s, "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex"):
		z.le(tt.num(-1), t, 0)
		z.le(t, tt.length(t.args[0]), -1)
		if s, ok := t.args[1].strVal(); ok && oneOf(t.s, "strings.Index", "strings.LastIndex") {
			// if found
			if lo, ok := z.dist(nil, t); ok && lo <= 0 {
				z.le(t, tt.length(t.args[0]), -int64(len(s)))
			}
		}
	case t.op == OpBin && t.s == "%":
		if k, ok := t.args[1].intVal(); ok && k > 0 {
			z.le(t, tt.num(k-1), 0)
			z.le(tt.num(1-k), t, 0)
		}
	case t.op == OpBin && t.s == "/" && t.args[0].isPure("len"):
		// k*(n/k) <= n < k*(n/k)+k
		if k, ok := t.args[1].intVal(); ok && k > 0 {
			z.edge(nil, t, 0)
			z.le(t, t.args[0], 0)
			z.scaled = append(z.scaled, scaled{t, t.args[0], k})
		}
	case t.op == OpBin && t.s == "*":
		a, b := t.args[0], t.args[1]
		if isInt(a) {
			a, b = b, a
		}
		if k, ok := b.intVal(); ok && k > 0 {
			z.axioms(a)
			z.mults = append(z.mults, scaled{a, t, k})
		}
	case (t.op == OpPhi || t.op == OpMem) && z.side:
		z.rows(t)
		up, down, k := true, true, int64(0)
		var init []*Term
		for _, v := range z.x.side[t] {
			b, off := zlin(tt, v)
			if b != t {
				init = append(init, v)
				continue
			}
			up = up && off >= 0
			down = down && off <= 0
			if off < 0 {
				off = -off
			}
			k = gcd(k, off)
		}
		if len(init) == 0 {
			return
		}
		// the first values are related to a common term
		ib, lo := zlin(tt, init[0])
		hi := lo
		for _, v := range init[1:] {
			b, off := zlin(tt, v)
			if b != ib {
				return
			}
			k = gcd(k, max(off-lo, lo-off))
			lo, hi = min(lo, off), max(hi, off)
		}
		if up {
			z.edge(ib, t, -lo)
		}
		if down {
			z.edge(t, ib, hi)
		}
		if k > 1 && ib == nil {
			z.cong[t] = [2]int64{mod(lo, k), k}
		}
		z.axioms(ib)
	}
}

// matches is the length of what a regular expression matched, if it matched.
func (z *zone) matches(t *Term) (int64, bool) {
	if _, ok := z.x.groups(t); !ok {
		return 0, false
	}
	some := false
	if v, ok := z.facts[z.x.tt.eq(t, z.x.tt.null())]; ok && !v {
		some = true
	}
	ln := z.x.tt.length(t)
	for f, v := range z.facts {
		if f.op != OpBin || f.args[0] != ln && f.args[1] != ln {
			continue
		}
		a, aInt := f.args[0].intVal()
		b, bInt := f.args[1].intVal()
		switch {
		case f.s == "==" && bInt:
			some = some || v && b > 0 || !v && b == 0
		case f.s == "<" && aInt && v: // a < len
			some = some || a >= 0
		case f.s == "<" && bInt && !v: // len >= b
			some = some || b > 0
		}
	}
	if !some {
		return 0, false
	}
	n, ok := z.x.groups(t)
	return n + 1, ok
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// dist is the least c known with a-b <= c.
func (z *zone) dist(a, b *Term) (int64, bool) {
	z.axioms(a)
	z.axioms(b)
	if len(z.scaled)+len(z.mults) > 0 {
		z.products()
	}
	return z.dist1(a, b)
}

func (z *zone) dist1(a, b *Term) (int64, bool) {
	d := map[*Term]int64{a: 0}
	work := []*Term{a}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		u := work[0]
		work = work[1:]
		for v, c := range z.edges[u] {
			c = z.round(u, v, c)
			if o, ok := d[v]; !ok || d[u]+c < o {
				if v == a {
					return -1 << 40, true // contradiction: this path cannot be taken
				}
				d[v] = d[u] + c
				work = append(work, v)
			}
		}
	}
	r, ok := d[b]
	if ok {
		r = z.round(a, b, r)
	}
	return r, ok
}

// round makes use of known remainders.
func (z *zone) round(a, b *Term, c int64) int64 {
	rem := func(t *Term, k int64) (int64, bool) {
		if t == nil {
			return 0, true
		}
		g, ok := z.cong[t]
		if !ok || g[1]%k != 0 {
			return 0, false
		}
		return mod(g[0], k), true
	}
	for _, t := range []*Term{a, b} {
		g, ok := z.cong[t]
		if t == nil || !ok {
			continue
		}
		ra, ok1 := rem(a, g[1])
		rb, ok2 := rem(b, g[1])
		if ok1 && ok2 {
			// a-b has remainder ra-rb
			c -= mod(c-(ra-rb), g[1])
		}
	}
	return c
}

// proves tells whether a <= b+c.
func (z *zone) proves(a, b *Term, c int64) bool {
	ab, ao := zlin(z.x.tt, a)
	bb, bo := zlin(z.x.tt, b)
	c = c - ao + bo
	if ab == bb {
		return c >= 0
	}
	if ab == nil && bb.isPure("len") && bb.args[0].op == OpSub && bb.args[0].args[2] != nil {
		// 0 <= hi-lo+c
		return z.proves(bb.args[0].args[1], bb.args[0].args[2], c)
	}
	if d, ok := z.dist(ab, bb); ok && d <= c {
		return true
	}
	// k*p <= k*q+c
	k, p := multiple(ab)
	l, q := multiple(bb)
	switch {
	case k == 0 && l == 0 || k != 0 && l != 0 && k != l || k == 0 && ab != nil || l == 0 && bb != nil:
		return false
	case k == 0:
		k, p = l, z.x.tt.num(0)
	case l == 0:
		q = z.x.tt.num(0)
	}
	n := c / k
	if c%k < 0 {
		n--
	}
	return z.proves(p, q, n)
}

// multiple gives k, positive, and p for the product k*p.
func multiple(t *Term) (int64, *Term) {
	if t != nil && t.op == OpBin && t.s == "*" {
		for i, a := range t.args {
			if k, ok := a.intVal(); ok && k > 0 {
				return k, t.args[1-i]
			}
		}
	}
	return 0, nil
}

// rowRec says what the loop variables get at the start of a loop or at the end of an iteration,
// and how much larger than some lengths they may then be.
type rowRec struct {
	vals   map[*ssa.Phi]*Term
	bounds map[*ssa.Phi]map[*Term]int64
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// addRow records what the loop variables get.
func (x *Explorer) addRow(st *State, r *loopRec, news map[*ssa.Phi]*Term) {
	var z *zone
	add := func(facts map[*Term]bool, vals map[*ssa.Phi]*Term) {
		row := rowRec{vals: map[*ssa.Phi]*Term{}, bounds: map[*ssa.Phi]map[*Term]int64{}}
		z = nil
		for ph, v := range vals {
			if !isIntType(ph.Type()) {
				continue
			}
			if z == nil {
				z = newZone(x, facts, false)
			}
			row.vals[ph] = v
			m := map[*Term]int64{}
			base, off := zlin(x.tt, v)
			z.axioms(base)
			for l := range z.seen {
				if l.isPure("len") && l != base {
					if d, ok := z.dist(base, l); ok {
						m[l] = d + off
					}
				}
			}
			row.bounds[ph] = m
		}
		if len(row.vals) > 0 {
			x.rowsOf[r.name] = append(x.rowsOf[r.name], row)
		}
	}
	if r.class >= 0 {
		add(st.facts, r.entry)
	}
	add(st.facts, news)
}

// rows derives upper bounds of a loop variable that hold at the start and after each iteration.
func (z *zone) rows(t *Term) {
	ph, ok := t.ins.(*ssa.Phi)
	if !ok || t.op != OpPhi {
		return
	}
	name := strings.TrimPrefix(t.s[:strings.LastIndex(t.s, "#")], "phi@")
	var best map[*Term]int64
	for _, r := range z.x.rowsOf[name] {
		v := r.vals[ph]
		if v == nil {
			return
		}
		if b, off := zlin(z.x.tt, v); b == t && off <= 0 {
			continue
		}
		n := map[*Term]int64{}
		for l, d := range r.bounds[ph] {
			if best == nil {
				n[l] = d
			} else if o, ok := best[l]; ok {
				n[l] = max(o, d)
			}
		}
		if k, ok := v.intVal(); ok {
			for l, d := range best {
				if _, ok := n[l]; !ok && l.isPure("len") {
					n[l] = max(k, d)
				}
			}
			if best == nil {
				for _, r2 := range z.x.rowsOf[name] {
					for l := range r2.bounds[ph] {
						if _, ok := n[l]; !ok {
							n[l] = k
						}
					}
				}
			}
		}
		best = n
	}
	for l, d := range best {
		z.edge(t, l, d)
		z.axioms(l)
	}
}
