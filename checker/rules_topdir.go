package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "TopDir and everything it calls is explored over all paths, with an abstract position of the search (the directory reached so far) and an abstract position of the comparison of a _dir declaration with it (a pair of paths). Each step of a loop is compared with the step the search has to make, and each result with the position it was reached at.", checkTopDir)
}

func pureOf(t *Term, name string) *Term {
	if t != nil && t.isPure(name) && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

const nDir = "path/filepath.Dir"

// topSearch is the state of checkTopDir.
type topSearch struct {
	c     *Check
	x     *Explorer
	start *Term
	walks map[string]*Term // loop variable of the search -> value before the loop
	bad   map[string]string
	pairs map[[2]string][2]*Term
	badP  map[[2]string]string
	dots  map[string]string // boolean loop variable -> loop variable that is "." if it is true
	noDot map[string]bool
}

// where is the directory that a path is _fab or a YAML file in.
func where(p *Term, names ...string) (*Term, string) {
	es := joined(p)
	if len(es) < 2 {
		return nil, ""
	}
	n, ok := es[len(es)-1].strVal()
	if !ok || !oneOf(n, names...) || len(es) != 2 {
		return nil, ""
	}
	return es[0], n
}

// position tells whether t is a directory that the search reaches.
func (s *topSearch) position(t *Term, depth int) bool {
	if t == s.start {
		return true
	}
	e, ok := s.walks[t.s]
	return ok && t.op == OpPhi && depth < 5 && s.bad[t.s] == "" && (e == t || s.position(e, depth+1))
}

// directory tells whether t is surely the path of a directory, and so not empty.
func (s *topSearch) directory(t *Term) bool {
	if s.position(t, 0) {
		return true
	}
	for k := range s.pairs {
		if t.op == OpPhi && k[0] == t.s && s.bad[t.s] == "" {
			return true
		}
	}
	return false
}

// declaration is the address of a YAML string that t is the value of, and the decoding it comes from.
func declaration(st *State, t *Term) (present func(x *Explorer, st *State) (bool, bool), decode *Term) {
	tagged := func(f *Term) bool {
		if f.op != OpField {
			return false
		}
		sct := structOf(deref(f.args[0].typ))
		if f.args[0].typ == nil || sct == nil || f.i >= sct.NumFields() {
			return false
		}
		tag := reflect.StructTag(sct.Tag(f.i)).Get("yaml")
		return strings.Split(tag, ",")[0] == "_dir"
	}
	decoded := func(o *Term) *Term {
		for _, k := range tsKeys(st, "decode:") {
			if d := st.ts[k]; len(d.args) > 1 && objRoot(unbox(d.args[1])) == o {
				return d
			}
		}
		return nil
	}
	if t.op != OpLoad {
		return nil, nil
	}
	a := t.args[0]
	switch {
	case tagged(a):
		// a string
		if d := decoded(objRoot(a)); d != nil {
			return func(x *Explorer, st *State) (bool, bool) {
				v, ok := x.decide(st, x.tt.eq(t, x.tt.str("")))
				return !v, ok
			}, d
		}
	case a.op == OpLoad && tagged(a.args[0]):
		// a pointer to a string
		if d := decoded(objRoot(a.args[0])); d != nil {
			return func(x *Explorer, st *State) (bool, bool) {
				v, ok := x.isNil(st, a)
				return !v, ok
			}, d
		}
	}
	return nil, nil
}

func checkTopDir(c *Check) {
	c.rule("the search starts in the absolute path of the argument and steps from a directory to its parent only if that is another directory, the directory has no _fab directory, and it has neither fab.yaml nor fab.yml")
	c.rule("a result is the directory reached if it has a _fab directory or a YAML file without a _dir declaration, or the directory that remains when the last elements of its path, compared one by one with those of the declaration, are all equal and the declaration is used up")
	c.rule("an absolute declaration is refused, as is one with an element that differs; there are no other reasons to fail than these, the root, and a failing operation; the declaration is any scalar")
	fn := c.need("", "TopDir")
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	s := &topSearch{c: c, walks: map[string]*Term{}, bad: map[string]string{}, pairs: map[[2]string][2]*Term{}, badP: map[[2]string]string{}, dots: map[string]string{}, noDot: map[string]bool{}}
	rule := &Rule{keepArgs: allArgs, forget: true}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		s.x = x
		switch {
		case ev.name == "path/filepath.Abs" && len(ev.args) == 1 && ev.args[0] == x.params[0]:
			s.start = x.tt.extract(ev.res, 0)
			st.ts["abs"] = ev.res
		case ev.is("os.Stat", "os.Lstat"):
			if d, _ := where(ev.args[0], "_fab"); d != nil {
				c.count("directories examined", 1)
				st.ts["stat:"+tid(d)] = ev.res
				if ev.name == "os.Lstat" {
					x.report(st, ev.ins.Pos(), "stat:lstat", "a symbolic link named _fab is not followed")
				}
			} else if d, n := where(ev.args[0], "fab.yaml", "fab.yml"); d != nil {
				st.ts[n+":"+tid(d)] = ev.res
			} else {
				x.report(st, ev.ins.Pos(), "stat:other", "%s is examined", ev.args[0])
			}
		case ev.is("os.Open", "os.OpenFile", "os.ReadFile", "os.ReadDir"):
			d, n := where(ev.args[0], "fab.yaml", "fab.yml")
			if d == nil {
				x.report(st, ev.ins.Pos(), "open:other", "%s is opened", ev.args[0])
				return
			}
			c.count("YAML files opened", 1)
			if n == "fab.yml" {
				if r := st.ts["fab.yaml:"+tid(d)]; r == nil || !x.knownTrue(st, x.isNotExist(x.tt.extract(r, 1))) {
					x.report(st, ev.ins.Pos(), "open:second", "fab.yml may be read although there is a fab.yaml")
				}
			}
			st.ts[n+":"+tid(d)] = ev.res
		case ev.is("invoke os.FileInfo.IsDir", "invoke io/fs.FileInfo.IsDir", "(io/fs.FileMode).IsDir"):
			st.ts["isdir:"+tid(ev.args[0])] = ev.res
		case ev.is("(*gopkg.in/yaml.v3.Decoder).Decode", "gopkg.in/yaml.v3.Unmarshal"):
			c.count("decodings", 1)
			src := ev.args[0]
			st.ts["decode:"+tid(ev.res)] = ev.res
			st.ts["source:"+tid(ev.res)] = src
			if ev.name == "gopkg.in/yaml.v3.Unmarshal" {
				x.report(st, ev.ins.Pos(), "decode:unmarshal", "the document is read in a way this check does not know")
			}
		}
	}
	// isDir tells whether the directory has a _fab directory.
	isDir := func(x *Explorer, st *State, d *Term) (bool, bool) {
		r := st.ts["stat:"+tid(d)]
		if r == nil {
			return false, false
		}
		if x.knownNonNil(st, x.tt.extract(r, 1)) {
			return false, true
		}
		info := x.tt.extract(r, 0)
		for _, k := range tsKeys(st, "isdir:") {
			v := st.ts[k]
			if len(v.args) > 0 && v.args[0].contains(info) {
				yes, ok := x.decide(st, v)
				return yes && x.knownNil(st, x.tt.extract(r, 1)), ok
			}
		}
		return false, false
	}
	noFab := func(x *Explorer, st *State, d *Term) bool {
		yes, ok := isDir(x, st, d)
		return ok && !yes
	}
	// absent tells that the directory has no YAML file.
	absent := func(x *Explorer, st *State, d *Term) bool {
		for _, n := range []string{"fab.yaml", "fab.yml"} {
			r := st.ts[n+":"+tid(d)]
			if r == nil || !x.knownTrue(st, x.isNotExist(x.tt.extract(r, 1))) {
				return false
			}
		}
		return true
	}
	// source is the directory whose YAML file was decoded.
	source := func(x *Explorer, st *State, decode *Term) *Term {
		src := st.ts["source:"+tid(decode)]
		if cl := callTo(src, "gopkg.in/yaml.v3.NewDecoder"); cl != nil && x.knownNil(st, decode) {
			if p := openedPath(unbox(cl.args[0])); p != nil {
				d, n := where(p, "fab.yaml", "fab.yml")
				if d != nil {
					if r := st.ts[n+":"+tid(d)]; r != nil && x.knownNil(st, x.tt.extract(r, 1)) {
						return d
					}
				}
			}
		}
		return nil
	}
	// pair tells whether the comparison of a declaration with a path reaches these positions.
	var pair func(x *Explorer, st *State, a, b *Term, depth int) bool
	pair = func(x *Explorer, st *State, a, b *Term, depth int) bool {
		if depth > 5 {
			return false
		}
		if _, d := declaration(st, b); d != nil {
			return source(x, st, d) == a
		}
		k := [2]string{a.s, b.s}
		if e, ok := s.pairs[k]; ok && a.op == OpPhi && b.op == OpPhi && s.badP[k] == "" {
			return pair(x, st, e[0], e[1], depth+1)
		}
		if pa, pb := pureOf(a, nDir), pureOf(b, nDir); pa != nil && pb != nil {
			return s.step(x, st, pa, pb) && pair(x, st, pa, pb, depth+1)
		}
		return false
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		// what is known about paths is kept for the steps that rest on it
		if cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if val && cond.op == OpBin && cond.s == "==" && cond.args[1].isStr("") && s.directory(cond.args[0]) {
			st.dead = true // no directory has an empty path
			return
		}
		if cond.any(func(t *Term) bool {
			return t.isPure("path/filepath.Base") || t.isPure(nDir) || t.isPure("path/filepath.IsAbs")
		}) {
			k := "no:"
			if val {
				k = "yes:"
			}
			st.ts[k+tid(cond)] = cond
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		s.x = x
		c.count("loop steps", 1)
		for ph, nv := range news {
			ov, en := old[ph], l.entry[ph]
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				k := x.phiTerm(l, ph)
				d := ""
				for ph2, nv2 := range news {
					if nv == x.tt.eq(nv2, x.tt.str(".")) {
						d = x.phiTerm(l, ph2)
					}
				}
				if d == "" && !x.knownFalse(st, nv) || en == nil || !en.isFalse() {
					s.noDot[k] = true
				} else if d != "" {
					s.dots[k] = d
				}
			}
			if pureOf(nv, nDir) != ov || ov == nil {
				if nv != ov {
					if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						s.bad[x.phiTerm(l, ph)] = "another step"
					}
				}
				continue
			}
			// as a step of the comparison
			isPair := false
			for ph2, nv2 := range news {
				ov2 := old[ph2]
				if ph2 == ph || ov2 == nil || pureOf(nv2, nDir) != ov2 {
					continue
				}
				_, d := declaration(st, l.entry[ph2])
				if d == nil {
					if _, d1 := declaration(st, en); d1 != nil {
						isPair = true
					}
					continue
				}
				isPair = true
				k := [2]string{x.phiTerm(l, ph), x.phiTerm(l, ph2)}
				s.pairs[k] = [2]*Term{en, l.entry[ph2]}
				if !s.step(x, st, ov, ov2) {
					s.badP[k] = "step"
					x.report(st, headPos(l), "decl:step", "the comparison goes on although the elements %s and %s may differ", ov2, ov)
				}
				abs := x.tt.pure("path/filepath.IsAbs", l.entry[ph2])
				if !s.fact(st, abs, false) && !s.fact(st, x.tt.eq(ov, nv), false) {
					x.report(st, headPos(l), "decl:end", "the comparison of an absolute declaration may not end")
				}
			}
			if isPair {
				continue
			}
			// as a step of the search
			pt := x.phiTerm(l, ph)
			if !s.position(en, 0) {
				s.bad[pt] = "start"
				continue
			}
			s.walks[pt] = en
			if yes, ok := isDir(x, st, ov); !ok || yes {
				x.report(st, headPos(l), "search:fab", "the search goes on to the parent although the directory may have a _fab subdirectory")
			}
			if r := st.ts["stat:"+tid(ov)]; r != nil {
				if e := x.tt.extract(r, 1); !x.knownNil(st, e) && !x.knownTrue(st, x.isNotExist(e)) {
					x.report(st, headPos(l), "search:staterr", "the search goes on although the _fab subdirectory may be unreadable")
				}
			}
			if !absent(x, st, ov) {
				x.report(st, headPos(l), "search:yaml", "the search goes on to the parent although the directory may have a YAML file")
			}
			if !s.fact(st, x.tt.eq(ov, nv), false) {
				x.report(st, headPos(l), "search:root", "the search may go on at the root, without end")
			}
			c.count("steps to the parent", 1)
			for _, p := range []string{"stat:", "fab.yaml:", "fab.yml:", "isdir:", "decode:", "source:", "yes:", "no:"} {
				tsClear(st, p)
			}
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		for ph, v := range l.phi0 {
			if v.op == OpPhi && x.knownTrue(st, v) {
				for ph2, v2 := range l.phi0 {
					if d := s.dots[x.phiTerm(l, ph)]; d != "" && d == x.phiTerm(l, ph2) {
						st.ts["dot:"+x.phiTerm(l, ph)] = v2
					}
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		s.x = x
		if x.knownNonNil(st, res[1]) {
			c.count("failures", 1)
			if !s.reason(x, st, isDir) {
				x.report(st, fn.Pos(), "fail:reason", "the search fails with %s for no known reason", res[1])
			}
			return
		}
		if !x.succeeds(st, res) {
			return
		}
		c.count("results", 1)
		r := res[0]
		x.later(func() {
			// a directory with _fab
			if yes, ok := isDir(x, st, r); ok && yes && s.position(r, 0) {
				c.count("results with _fab", 1)
				return
			}
			// a directory with a YAML file without a declaration
			for _, k := range tsKeys(st, "decode:") {
				d := st.ts[k]
				if src := source(x, st, d); src == r && s.position(r, 0) && noFab(x, st, r) {
					if s.undeclared(x, st, d) {
						c.count("results without a declaration", 1)
						return
					}
				}
			}
			// what remains
			for _, b := range s.seconds(st) {
				if x.knownTrue(st, x.tt.eq(b, x.tt.str("."))) || s.fact(st, x.tt.eq(b, x.tt.str(".")), true) {
					if pair(x, st, r, b, 0) {
						if e := s.first(st, r); s.position(e, 0) && noFab(x, st, e) {
							c.count("results of a declaration", 1)
							return
						}
					}
				}
			}
			x.report(st, fn.Pos(), "result", "the result %s is not known to be the first enclosing project directory", r)
		})
	}
	c.explore(fn, rule, nil, nil)
	for _, n := range []string{"results with _fab", "results without a declaration", "results of a declaration", "steps to the parent"} {
		c.atLeast(n, 1)
	}
	c.errorDiscipline()
}

// phiTerm names the value of a loop variable in an arbitrary iteration.
func (x *Explorer) phiTerm(l *loopRec, ph *ssa.Phi) string {
	return "phi@" + l.name + "#" + strconv.Itoa(x.id(ph))
}

// fact tells whether cond was found to be val on this path.
func (s *topSearch) fact(st *State, cond *Term, val bool) bool {
	if cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	if v, ok := s.x.decide(st, cond); ok {
		return v == val
	}
	k := "no:"
	if val {
		k = "yes:"
	}
	return st.ts[k+tid(cond)] == cond
}

// step tells whether the last elements of a and b are known to be equal.
func (s *topSearch) step(x *Explorer, st *State, a, b *Term) bool {
	return s.fact(st, x.tt.eq(x.tt.pure("path/filepath.Base", a), x.tt.pure("path/filepath.Base", b)), true)
}

// seconds are the positions in a declaration that the path knows something about.
func (s *topSearch) seconds(st *State) []*Term {
	var out []*Term
	dot := s.x.tt.str(".")
	add := func(t *Term) {
		if t.op == OpBin && t.s == "==" {
			for i, a := range t.args {
				if a == dot {
					out = append(out, t.args[1-i])
				}
			}
		}
	}
	for f := range st.facts {
		add(f)
	}
	for _, k := range tsKeys(st, "dot:") {
		bv := strings.TrimPrefix(k, "dot:")
		if t := st.ts[k]; s.dots[bv] == t.s && !s.noDot[bv] {
			out = append(out, t)
			e := s.x.tt.eq(t, dot)
			st.ts["yes:"+tid(e)] = e
		}
	}
	for _, k := range tsKeys(st, "yes:") {
		add(st.ts[k])
	}
	return out
}

// first is the directory that a comparison that got to a started from.
func (s *topSearch) first(st *State, a *Term) *Term {
	for i := 0; i < 6; i++ {
		if s.position(a, 0) {
			return a
		}
		if p := pureOf(a, nDir); p != nil {
			a = p
			continue
		}
		for k, e := range s.pairs {
			if a.op == OpPhi && k[0] == a.s {
				a = e[0]
				break
			}
		}
	}
	return a
}

// undeclared tells whether the decoded document is known to have no declaration.
func (s *topSearch) undeclared(x *Explorer, st *State, d *Term) bool {
	if len(d.args) < 2 {
		return false
	}
	o := unbox(d.args[1])
	sct := structOf(deref(o.typ))
	if o.typ == nil || sct == nil {
		return false
	}
	for i := 0; i < sct.NumFields(); i++ {
		a := x.tt.field(o, i, o.typ)
		v := x.load(st, a, sct.Field(i).Type())
		if _, ok := sct.Field(i).Type().Underlying().(*types.Pointer); ok {
			v = x.load(st, v, deref(sct.Field(i).Type()))
			if present, dd := declaration(st, v); dd == d {
				yes, ok := present(x, st)
				return ok && !yes
			}
			continue
		}
		if present, dd := declaration(st, v); dd == d {
			yes, ok := present(x, st)
			return ok && !yes
		}
	}
	return false
}

// reason tells whether there is a reason to fail.
func (s *topSearch) reason(x *Explorer, st *State, isDir func(x *Explorer, st *State, d *Term) (bool, bool)) bool {
	if r := st.ts["abs"]; r != nil && x.knownNonNil(st, x.tt.extract(r, 1)) {
		return true
	}
	for _, p := range []string{"stat:", "fab.yaml:", "fab.yml:"} {
		for _, k := range tsKeys(st, p) {
			e := x.tt.extract(st.ts[k], 1)
			if x.knownNonNil(st, e) && x.knownFalse(st, x.isNotExist(e)) {
				return true
			}
		}
	}
	for _, k := range tsKeys(st, "decode:") {
		if x.knownNonNil(st, st.ts[k]) {
			return true
		}
	}
	for _, k := range tsKeys(st, "yes:") {
		t := st.ts[k]
		if t.isPure("path/filepath.IsAbs") {
			if _, d := declaration(st, t.args[0]); d != nil {
				return true
			}
		}
		if t.op == OpBin && t.s == "==" {
			for i := range t.args {
				if pureOf(t.args[i], nDir) == t.args[1-i] && t.args[1-i] != nil {
					return true
				}
			}
		}
	}
	for _, k := range tsKeys(st, "no:") {
		t := st.ts[k]
		if t.op == OpBin && t.s == "==" && pureOf(t.args[0], "path/filepath.Base") != nil && pureOf(t.args[1], "path/filepath.Base") != nil {
			return true
		}
	}
	return false
}
