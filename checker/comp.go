package main

import (
	"go/types"
)

// compRec describes how a list is built by a loop.
type compRec struct {
	coll    *Term
	isMap   bool
	inOrder bool
	raw     *Term     // value before the loop
	init    *Term     // its elements
	bodies  [][]*Term // what one iteration appends, with the element and index of the iteration replaced by markers
	skipped bool      // some iteration appends nothing
	lost    bool      // some iteration drops what was there before
	nested  []nestedRec
	alts    [][]*Term // an iteration may be said to append any one of these, which are empty then
}

// nestedRec says that an iteration appends what an inner loop appends.
type nestedRec struct {
	phi, base *Term
	marks     map[*Term]*Term
}

// backRec is what one iteration of a loop stores at its index into arrays made outside the loop.
type backRec struct {
	coll   *Term
	stores map[*Term]*Term
}

func (x *Explorer) elemMark() *Term { return x.tt.mk(Term{op: OpParam, s: "$elem"}) }
func (x *Explorer) idxMark() *Term  { return x.tt.mk(Term{op: OpParam, s: "$idx"}) }

// subst replaces subterms.
func (x *Explorer) subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = x.subst(a, m)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	n := *t
	n.args = args
	n.leaves, n.scopes, n.id = nil, nil, 0
	r := x.tt.mk(n)
	if r.typ == nil {
		r.typ = t.typ
	}
	return r
}

// marks are the replacements that make the terms of one iteration of l generic.
func (x *Explorer) marks(st *State, l *loopRec) map[*Term]*Term {
	m := map[*Term]*Term{}
	if l.coll == nil {
		return m
	}
	if l.isMap {
		for _, t := range x.keyTerms[l.name] {
			m[t] = x.elemMark()
		}
		return m
	}
	if l.idx == nil {
		return m
	}
	if e := x.loopElem(st, l); e != nil && e.op != OpConst {
		m[e] = x.elemMark()
	}
	a := x.indexAddr(st, l.coll, l.idx)
	m[x.tt.mk(Term{op: OpLoad, args: []*Term{a}})] = x.elemMark()
	if l.idx.op != OpConst {
		m[l.idx] = x.idxMark()
	} else if a.op == OpIndex {
		m[a] = x.tt.mk(Term{op: OpIndex, typ: a.typ, args: []*Term{a.args[0], x.idxMark()}})
	}
	return m
}

// widened tells whether t stands for what a loop made of a variable.
func (t *Term) widened() bool { return t.op == OpPhi || t.op == OpMem }

// compWiden records what an iteration did to a list.
func (x *Explorer) compWiden(st *State, l *loopRec, typ types.Type, entry, base, from, to *Term) {
	if _, ok := typ.Underlying().(*types.Slice); !ok {
		return
	}
	var rec *compRec
	for _, r := range x.comps[to] {
		if r.coll == l.coll && r.raw == entry {
			rec = r
		}
	}
	if rec == nil {
		rec = &compRec{coll: l.coll, isMap: l.isMap, inOrder: true, raw: entry, init: x.canon(st, entry)}
		x.comps[to] = append(x.comps[to], rec)
	}
	if !l.inOrder {
		rec.inOrder = false
	}
	if from == base {
		if alts := x.emptyParts(st, l); len(alts) > 0 {
			rec.alts = append(rec.alts, alts)
			return
		}
		rec.skipped = true
		return
	}
	bp := x.parts(st, base)
	if base != entry && (x.knownNil(st, base) || x.knownTrue(st, x.tt.eq(x.tt.length(base), x.tt.num(0)))) {
		bp = nil
	}
	fp := x.parts(st, from)
	if len(fp) == 1 && len(bp) <= 1 && fp[0].op == OpSpread && fp[0].args[0].widened() && fp[0].args[0] != base {
		rec.nested = append(rec.nested, nestedRec{fp[0].args[0], base, x.marks(st, l)})
		return
	}
	if len(fp) < len(bp) {
		rec.lost = true
		return
	}
	for i, p := range bp {
		if fp[i] != p {
			rec.lost = true
			return
		}
	}
	m := x.marks(st, l)
	var body []*Term
	for _, p := range fp[len(bp):] {
		body = append(body, x.subst(p, m))
	}
	if len(body) == 0 {
		rec.skipped = true
		return
	}
	for _, b := range rec.bodies {
		if sameTerms(b, body) {
			return
		}
	}
	rec.bodies = append(rec.bodies, body)
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// emptyParts are the lists depending on the element of an iteration that are known to be empty.
func (x *Explorer) emptyParts(st *State, l *loopRec) []*Term {
	if l.coll == nil {
		return nil
	}
	var r []*Term
	m := x.marks(st, l)
	for f, v := range st.facts {
		if !v || f.op != OpBin || f.s != "==" {
			continue
		}
		for i, a := range f.args {
			if a.isPure("len") && f.args[1-i].isInt(0) {
				if p := x.subst(a.args[0], m); p != a.args[0] {
					r = append(r, x.tt.spread(p))
				}
			}
		}
	}
	return r
}

func (x *Explorer) hasElemMark(t *Term) bool {
	return t.any(func(s *Term) bool { return s == x.elemMark() })
}

// innerOfOther tells whether an inner loop, with the given list of elements, belongs to an outer loop over other elements than that of r.
// (The same loop may be entered with different lists to go through.)
func (x *Explorer) innerOfOther(r *compRec, phi, coll *Term) bool {
	for _, recs := range x.comps {
		for _, o := range recs {
			if o.coll == r.coll {
				continue
			}
			for _, n := range o.nested {
				if n.phi == phi && x.hasElemMark(x.subst(coll, n.marks)) {
					return true
				}
			}
		}
	}
	return false
}

// innerBodies is what the iterations append whose elements an inner loop appends.
func (x *Explorer) innerBodies(r *compRec) (bodies [][]*Term, why string) {
	for _, n := range r.nested {
		found := false
		for _, in := range x.comps[n.phi] {
			if in.raw != n.base || in.coll == nil {
				continue
			}
			found = true
			if why := in.faulty(); why != "" {
				return nil, why
			}
			if len(in.nested) > 0 {
				return nil, "it is built by loops that are nested too deeply"
			}
			coll := x.subst(in.coll, n.marks)
			if !x.hasElemMark(coll) && x.innerOfOther(r, n.phi, in.coll) {
				continue
			}
			for _, b := range in.bodies {
				p := x.tt.spread(coll)
				if len(b) != 1 || b[0] != x.tt.elem(x.elemMark()) {
					m := map[*Term]*Term{x.elemMark(): x.tt.mk(Term{op: OpParam, s: "$inner"})}
					args := []*Term{coll}
					for _, e := range b {
						args = append(args, x.subst(x.subst(e, m), n.marks))
					}
					p = x.tt.spread(x.tt.pure("comp", args...))
				}
				bodies = append(bodies, []*Term{p})
			}
		}
		if !found {
			return nil, "it is not built by a loop over all elements"
		}
	}
	return bodies, ""
}

// backStores records what an iteration stored at its own index.
func (x *Explorer) backStores(st *State, l *loopRec) {
	if l.coll == nil || l.idx == nil || l.isMap {
		return
	}
	br := backRec{coll: l.coll, stores: map[*Term]*Term{}}
	m := x.marks(st, l)
	for a, v := range st.heap {
		if a.op == OpIndex && a.args[0].op == OpMake && a.args[1] == l.idx {
			br.stores[a.args[0]] = x.subst(v, m)
		}
	}
	x.backs[l.name] = append(x.backs[l.name], br)
}

// mapped checks that list has, for each element of coll in order, the parts that ok accepts (given in terms of elemMark and idxMark).
// The verdict may only be known when the exploration is complete; bad is then called with a reason.
func (x *Explorer) mapped(st *State, list, coll *Term, ok func(body []*Term) bool, bad func(why string)) {
	x.mappedAfter(st, list, coll, ok, bad, func(es, ss []*Term) bool { return len(es)+len(ss) == 0 })
}

// mappedAfter allows what the list had before the loop that adds the parts.
func (x *Explorer) mappedAfter(st *State, list, coll *Term, ok func(body []*Term) bool, bad func(why string), before func(es, ss []*Term) bool) {
	list = x.canon(st, list)
	if list.op == OpNil || list.op == OpSeq && len(list.args) == 1 {
		if !x.knownTrue(st, x.tt.eq(x.tt.length(coll), x.tt.num(0))) && !x.knownNil(st, coll) {
			bad("it is empty")
		}
		return
	}
	if list == coll {
		if !ok([]*Term{x.tt.elem(x.elemMark())}) {
			bad("its elements are used as they are")
		}
		return
	}
	ce, cs := listOf(coll)
	if len(cs) == 0 && len(ce) > 0 {
		le := []*Term{}
		if list.op == OpSeq {
			le = list.args[1:]
		}
		if len(le)%len(ce) != 0 || len(le) == 0 {
			bad("it does not have an entry for each element")
			return
		}
		k := len(le) / len(ce)
		for i, e := range ce {
			var body []*Term
			for _, p := range le[i*k : (i+1)*k] {
				body = append(body, x.subst(p, map[*Term]*Term{e: x.elemMark()}))
			}
			if !ok(body) {
				bad("it has a wrong entry")
			}
		}
		return
	}
	switch list.op {
	case OpPhi, OpMem:
		x.later(func() {
			recs := x.comps[list]
			if len(recs) == 0 {
				bad("it is not built by a loop over all elements")
				return
			}
			n := 0
			for _, r := range recs {
				if r.coll != coll {
					continue
				}
				n++
				if e, s := listOf(r.init); !before(e, s) {
					bad("it has other elements, too")
					return
				}
				if why := r.faulty(); why != "" {
					bad(why)
					return
				}
				inner, why := x.innerBodies(r)
				if why != "" {
					bad(why)
					return
				}
				for _, b := range append(inner, r.bodies...) {
					if !ok(b) {
						bad("it has a wrong entry")
						return
					}
				}
				for _, alts := range r.alts {
					fits := false
					for _, a := range alts {
						fits = fits || ok([]*Term{a})
					}
					if !fits {
						bad("some elements are left out")
						return
					}
				}
			}
			if n == 0 {
				bad("it is built from other elements")
			}
		})
		return
	case OpMake:
		if len(list.args) > 0 && list.args[0] == x.tt.length(coll) {
			x.later(func() {
				n := 0
				for _, brs := range x.backs {
					hit := false
					for _, br := range brs {
						if br.coll == coll && br.stores[list] != nil {
							hit = true
						}
					}
					if !hit {
						continue
					}
					for _, br := range brs {
						v := br.stores[list]
						if v == nil {
							bad("some elements are left out")
							return
						}
						if !ok([]*Term{x.tt.elem(v)}) {
							bad("it has a wrong entry")
							return
						}
						n++
					}
				}
				if n == 0 {
					bad("it is not filled by a loop over all elements")
				}
			})
			return
		}
	}
	bad("it is not built from all the elements")
}

// faulty says why the list is not built from every element in order.
func (r *compRec) faulty() string {
	switch {
	case r.skipped:
		return "some elements are left out"
	case r.lost:
		return "elements are lost"
	case !r.inOrder:
		return "not every element is visited in order"
	}
	return ""
}

// knownEmpty tells whether a list is known to have no elements.
func (x *Explorer) knownEmpty(st *State, l *Term) bool {
	l = x.canon(st, l)
	n := x.tt.length(l)
	return n.isInt(0) || x.knownNil(st, l) || x.knownTrue(st, x.tt.eq(n, x.tt.num(0)))
}
