package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "RegisterTarget, RegistryTarget, Describe, RegistryNames and ListTargets are explored over all paths; the two registry maps and the layout of their entries are learned from RegisterTarget, and every other writer of the maps is searched in the call graph.", checkRegistry)
	register("C26", "ParseArgs is explored over all paths and all lists; each iteration over the arguments is classified by what it appends, and the classification decides which results success may give.", checkParseArgs)
	register("C32", "JoinPath and RelPath are explored over all paths and all lists; the loops of JoinPath are matched against inductive specifications of finding the last absolute segment.", checkPaths)
}

// regTable says how the controller's registry is kept.
type regTable struct {
	byName, byID      string // fields of Controller
	target, name, doc int    // fields of the entries
	entry             *types.Struct
}

// entryParts are the fields of a registry entry.
func (x *Explorer) entryParts(st *State, v *Term, s *types.Struct, t types.Type) []*Term {
	out := make([]*Term, s.NumFields())
	_, isPtr := t.Underlying().(*types.Pointer)
	for i := range out {
		if isPtr {
			out[i] = x.load(st, x.tt.field(v, i, t), s.Field(i).Type())
		} else {
			out[i] = x.fieldOf(v, i, t)
		}
	}
	return out
}

// registryLayout finds the maps from names and from identities to entries with a target, a name and a documentation string.
func (c *Check) registryLayout() *regTable {
	ct := c.namedType("", "Controller")
	fn := c.need("", "Controller.RegisterTarget")
	if ct == nil || fn == nil {
		return nil
	}
	if len(fn.Params) != 4 {
		c.undecided("registry", "RegisterTarget(name, doc, target) is expected")
		return nil
	}
	rt := &regTable{target: -1, name: -1, doc: -1}
	rule := &Rule{}
	learn := func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if m.op != OpLoad || m.args[0].op != OpField || v == nil || m.args[0].args[0] != x.params[0] {
			return
		}
		f := fieldName(m.args[0].typ, m.args[0].i)
		et := ins.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map).Elem()
		s := structOf(deref(et))
		if s == nil {
			return
		}
		switch {
		case k == x.params[1]:
			rt.byName = f
		case identifies(x, st, k, x.params[3]):
			rt.byID = f
		default:
			return
		}
		rt.entry = s
		for i, p := range x.entryParts(st, v, s, et) {
			switch p {
			case x.params[3]:
				rt.target = i
			case x.params[1]:
				rt.name = i
			case x.params[2]:
				rt.doc = i
			}
		}
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if _, ok := ins.(*ssa.MapUpdate); ok {
			learn(x, st, m, k, v, ins)
		}
	}
	c.explore(fn, rule, nil, nil)
	if rt.byName == "" || rt.byID == "" || rt.target < 0 || rt.name < 0 || rt.doc < 0 {
		c.undecided("registry", "RegisterTarget does not put the target, its name and its documentation under its name and its identity (%+v)", *rt)
		return nil
	}
	return rt
}

// part recognises a field of a registry entry: the key it is found under, and whether that is a name.
func (rt *regTable) part(t, con *Term, i int) (key *Term, byName, ok bool) {
	if t == nil || t.op != OpLoad {
		return
	}
	a := t.args[0]
	if a.op != OpField || a.i != i {
		return
	}
	e := a.args[0]
	if e.op == OpLoad { // entries kept by pointer
		e = e.args[0]
	}
	if e.op != OpMapElem {
		return
	}
	switch {
	case isFieldOf(e.args[0], con, rt.byName):
		return e.args[1], true, true
	case isFieldOf(e.args[0], con, rt.byID):
		return e.args[1], false, true
	}
	return
}

// found decides whether there is an entry under a key.
func (rt *regTable) found(x *Explorer, st *State, con, key *Term, byName bool) (val, known bool) {
	f := rt.byID
	if byName {
		f = rt.byName
	}
	var has, hasKnown bool
	for c, v := range st.facts {
		switch {
		case c.op == OpLoad && c.args[0].op == OpMapHas && c.args[0].args[1] == key && isFieldOf(c.args[0].args[0], con, f):
			has, hasKnown = v, true
		case c.op == OpBin && c.s == "==":
			for i := range c.args {
				if !c.args[1-i].isNil() {
					continue
				}
				if k, b, ok := rt.part(c.args[i], con, rt.target); ok && k == key && b == byName {
					return !v, true
				}
				if e := c.args[i]; e.op == OpLoad && e.args[0].op == OpMapElem && e.args[0].args[1] == key && isFieldOf(e.args[0].args[0], con, f) {
					has, hasKnown = !v, true
				}
			}
		}
	}
	return has, hasKnown
}

// notPointer decides whether the target is known (not) to be a pointer.
func kindKnown(x *Explorer, st *State, target *Term) (isPtr, known bool) {
	for c, v := range st.facts {
		if c.op != OpBin || c.s != "==" {
			continue
		}
		for i := range c.args {
			k := c.args[i]
			if !c.args[1-i].isInt(22) || k.op != OpPure || !strings.HasSuffix(k.s, ".Kind") || !k.contains(target) {
				continue
			}
			return v, true
		}
	}
	// another kind
	for c, v := range st.facts {
		if c.op == OpBin && c.s == "==" && v {
			for i := range c.args {
				if k := c.args[i]; k.op == OpPure && strings.HasSuffix(k.s, ".Kind") && k.contains(target) && c.args[1-i].op == OpConst {
					return false, true
				}
			}
		}
	}
	return false, false
}

// mapWriters checks that a field of Controller holding a map is only written under the given function.
func (c *Check) mapWriters(ct types.Type, field, root string) {
	i := fieldIndex(ct, field)
	isAddr := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fa.Field != i {
			return false
		}
		pt, ok := fa.X.Type().Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), ct)
	}
	isMap := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && isAddr(u.X)
	}
	made := 0
	for _, fn := range c.p.srcFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if isAddr(in.Addr) {
						made++
						if _, ok := in.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !ok {
							c.violate(c.p.instrPos(in), "map:reset:"+field, nil, "%s of an existing controller is replaced by %s", field, fnName(fn))
						}
					}
				case *ssa.MapUpdate:
					if isMap(in.Map) {
						c.count("writers of the maps", 1)
						c.onlyUnder(fn, root, c.p.instrPos(in), "map:writer:"+field+":"+fnName(fn), map[*ssa.Function]bool{})
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isMap(in.Call.Args[0]) {
						c.violate(c.p.instrPos(in), "map:delete:"+field, nil, "%s removes entries from %s", fnName(fn), field)
					}
				}
			}
		}
	}
	if made == 0 {
		c.undecided("map:"+field, "no place was found where %s is made", field)
	}
}

// sortedList follows which lists were sorted last.
func sortEvent(x *Explorer, st *State, ev *CallEvent) {
	if l := sortedBy(ev); l != nil {
		st.ts["sorted:"+tid(l)] = l
	}
}

func isSorted(st *State, l *Term) bool {
	return st.ts["sorted:"+tid(l)] == l || l.op == OpPure && (l.s == "slices.Sorted" || strings.HasPrefix(l.s, "slices.Sorted["))
}

// checkRegistry decides C31.
func checkRegistry(c *Check) {
	c.rule("RegisterTarget: on every successful path the target is known to be a pointer, and an entry with exactly (target, name, doc) is assigned, unconditionally, under the name and under the identity (type and address) of the target; on every failing path nothing is assigned")
	c.rule("RegistryTarget returns target and doc of the entry under exactly the given name; Describe returns the name in the entry under the identity of the target if there is one, and otherwise \"unnamed \" and the target's description")
	c.rule("RegistryNames returns the keys of the name map, sorted; ListTargets writes the name and the documentation of each of them in order")
	c.rule("the maps are written by RegisterTarget only and never replaced")
	rt := c.registryLayout()
	ct := c.namedType("", "Controller")
	if rt == nil || ct == nil {
		return
	}
	reg := c.need("", "Controller.RegisterTarget")
	rule := &Rule{}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		con, name, doc, target := x.params[0], x.params[1], x.params[2], x.params[3]
		if isLocalObj(objRoot(m)) {
			return
		}
		st.ts["wrote"] = flag(x)
		mu, ok := ins.(*ssa.MapUpdate)
		which := ""
		switch {
		case ok && isFieldOf(m, con, rt.byName) && k == name:
			which = "name"
		case ok && isFieldOf(m, con, rt.byID) && identifies(x, st, k, target) && exact(k):
			which = "id"
		default:
			x.report(st, ins.Pos(), "register:other", "RegisterTarget changes another entry (%s[%s])", m, k)
			return
		}
		et := mu.Map.Type().Underlying().(*types.Map).Elem()
		ps := x.entryParts(st, v, rt.entry, et)
		if ps[rt.target] != target || ps[rt.name] != name || ps[rt.doc] != doc {
			x.report(st, ins.Pos(), "register:entry", "the entry does not have the target, name and documentation given")
			return
		}
		st.ts["set:"+which] = flag(x)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if e := last(res); x.knownNonNil(st, e) {
			c.count("failing registrations", 1)
			if st.ts["wrote"] != nil {
				x.report(st, reg.Pos(), "register:failed", "a failing registration changes the registry")
			}
			if p, known := kindKnown(x, st, x.params[3]); !known || p {
				x.report(st, reg.Pos(), "register:refused", "a target that is a pointer may be refused")
			}
			return
		}
		if !x.succeeds(st, res) {
			return
		}
		c.count("successful registrations", 1)
		if st.ts["set:name"] == nil || st.ts["set:id"] == nil {
			x.report(st, reg.Pos(), "register:missing", "success is returned without an entry under the name and the identity of the target")
		}
		if p, known := kindKnown(x, st, x.params[3]); !known || !p {
			x.report(st, reg.Pos(), "register:kind", "a target that is not a pointer may be registered")
		}
		if len(res) == 2 && res[0] != x.params[3] {
			x.report(st, reg.Pos(), "register:result", "the target returned is not the one registered")
		}
	}
	c.explore(reg, rule, nil, nil)
	c.atLeast("successful registrations", 1)
	c.atLeast("failing registrations", 1)

	if fn := c.need("", "Controller.RegistryTarget"); fn != nil {
		c.explore(fn, &Rule{onExit: func(x *Explorer, st *State, res []*Term) {
			c.count("lookups", 1)
			con, name := x.params[0], x.params[1]
			f, known := rt.found(x, st, con, name, true)
			for i, p := range []int{rt.target, rt.doc} {
				k, byName, ok := rt.part(res[i], con, p)
				if ok && byName && k == name {
					continue
				}
				if known && !f && (res[i].isNil() || res[i].isStr("")) {
					continue
				}
				x.report(st, fn.Pos(), "lookup", "the result (%s) is not from the entry under the given name", res[i])
			}
		}}, nil, nil)
		c.atLeast("lookups", 1)
	}
	if fn := c.need("", "Controller.Describe"); fn != nil {
		c.explore(fn, &Rule{onExit: func(x *Explorer, st *State, res []*Term) {
			c.count("descriptions", 1)
			con, target := x.params[0], x.params[1]
			if k, byName, ok := rt.part(res[0], con, rt.name); ok && !byName && identifies(x, st, k, target) && exact(k) {
				if f, known := rt.found(x, st, con, k, false); !known || !f {
					x.report(st, fn.Pos(), "describe:name", "the name is taken from an entry that may not exist")
				}
				return
			}
			desc := res[0].any(func(t *Term) bool {
				return t.op == OpCall && strings.HasPrefix(t.s, "invoke github.com/bobg/fab.Target.Desc@")
			})
			if !desc || !res[0].any(func(t *Term) bool { s, ok := t.strVal(); return ok && strings.HasPrefix(s, "unnamed ") }) {
				x.report(st, fn.Pos(), "describe:other", "the description (%s) is neither the registered name nor the target's own description", res[0])
				return
			}
			if p, known := kindKnown(x, st, target); known && !p {
				return
			}
			for f := range st.facts {
				var hit bool
				f.any(func(t *Term) bool {
					if (t.op == OpMapElem || t.op == OpMapHas) && isFieldOf(t.args[0], con, rt.byID) && identifies(x, st, t.args[1], target) && exact(t.args[1]) {
						if v, known := rt.found(x, st, con, t.args[1], false); known && !v {
							hit = true
						}
					}
					return false
				})
				if hit {
					return
				}
			}
			x.report(st, fn.Pos(), "describe:registered", "a registered target may be described as unnamed")
		}}, nil, nil)
		c.atLeast("descriptions", 2)
	}
	names := func(x *Explorer, st *State, l *Term, pos tokenPos) {
		if !isSorted(st, l) {
			x.report(st, pos, "names:sorted", "the names are not sorted")
		}
		for l.op == OpPure && strings.HasPrefix(l.s, "slices.Sorted") && len(l.args) > 0 {
			l = l.args[0]
		}
		x.keysOf(st, l, func(m *Term) bool { return isFieldOf(m, x.params[0], rt.byName) }, func(why string) {
			x.report(st, pos, "names", "the names are not those in the registry: %s", why)
		})
	}
	if fn := c.need("", "Controller.RegistryNames"); fn != nil {
		c.explore(fn, &Rule{onCall: sortEvent, onExit: func(x *Explorer, st *State, res []*Term) {
			c.count("lists of names", 1)
			if l := x.canon(st, res[0]); l.op == OpNil || l.op == OpSeq && len(l.args) == 1 {
				return // only if there are none: the loop is over the map
			}
			names(x, st, res[0], fn.Pos())
		}}, nil, nil)
		c.atLeast("lists of names", 1)
	}
	if fn := c.need("", "Controller.ListTargets"); fn != nil {
		rule := &Rule{keepArgs: func(n string) bool { return hasPrefixAny(n, "(*regexp.Regexp).", "strings.", "fmt.Sprint") }}
		isList := func(l *loopRec) bool {
			return l.coll != nil && l.idx != nil && !l.isMap && (l.coll.widened() || l.coll.isPure("keys") || l.coll.op == OpPure && !l.coll.splits())
		}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			sortEvent(x, st, ev)
			toW := false
			for _, a := range ev.args {
				toW = toW || unbox(a) == x.params[1]
			}
			if !toW {
				return
			}
			for _, fr := range st.frames {
				for _, l := range fr.loops {
					if !isList(l) {
						continue
					}
					for _, a := range ev.args {
						isName, isDoc := false, false
						var docOf func(t *Term) (whole, before, after bool)
						docOf = func(t *Term) (whole, before, after bool) {
							if k, byName, ok := rt.part(t, x.params[0], rt.doc); ok {
								return byName && x.isElemOf(st, l, k), false, false
							}
							if t.op == OpPhi {
								// What remains of the documentation in a loop that consumes it.
								for _, l := range st.top().loops {
									for p, v := range l.phi0 {
										if v == t && l.entry[p] != nil && l.entry[p] != t {
											return docOf(x.deepVal(st, l.entry[p]))
										}
									}
								}
							}
							for _, a := range t.args {
								w, b, e := docOf(a)
								whole, before, after = whole || w, before || b, after || e
							}
							part := func(first, second bool) {
								if whole && first != second {
									whole, before, after = false, before || first, after || second
								}
							}
							var cut *Term
							defer func() {
								if before && cut != nil {
									st.ts["cut:"+l.name] = cut
								}
							}()
							switch {
							case t.op == OpExtract && t.args[0].isPure("strings.Cut") && !(t.args[0].args[0].op == OpPhi):
								found, known := x.decide(st, x.tt.extract(t.args[0], 2))
								if !known || found {
									part(t.i == 0, t.i == 1)
									cut = x.tt.extract(t.args[0], 2)
								}
							case t.isPure("substr"):
								part(t.args[2] != x.tt.length(t.args[0]), !t.args[1].isInt(0))
							case t.op == OpIndex && t.args[0].op == OpPure && hasPrefixAny(t.args[0].s, "strings.Split"):
								n, isConst := t.args[1].intVal()
								part(isConst && n == 0, isConst && n > 0)
							}
							return whole, before, after
						}
						whole, before, after := docOf(x.deepVal(st, a))
						for _, fr := range st.frames {
							for _, l2 := range fr.loops {
								a := x.deepVal(st, a)
								if l2.coll != nil && l2.coll.splits() && a.any(func(t *Term) bool { return x.isElemOf(st, l2, t) }) {
									st.ts["line:"+l2.name] = flag(x)
								}
								for _, v := range l2.phi0 {
									if l2.coll == nil && a.contains(v) {
										st.ts["line:"+l2.name] = flag(x)
									}
								}
							}
						}
						if isDoc = whole || before || after; !whole {
							if before {
								st.ts["doc0:"+l.name] = flag(x)
							}
							if after {
								st.ts["doc1:"+l.name] = flag(x)
							}
						}
						if isDoc && !whole && (st.ts["doc0:"+l.name] == nil || st.ts["doc1:"+l.name] == nil) {
							continue
						}
						a := a
						if a.any(func(t *Term) bool { return x.isElemOf(st, l, t) }) && !isDoc {
							isName = true
						}
						if isName {
							st.ts["name:"+l.name] = flag(x)
						}
						if isDoc {
							if st.ts["name:"+l.name] == nil {
								x.report(st, ev.ins.Pos(), "list:order", "the documentation is written before the name")
							}
							st.ts["doc:"+l.name] = flag(x)
						}
					}
				}
			}
		}
		// A loop that writes the documentation of a target in pieces.
		pieces := func(x *Explorer, st *State, l *loopRec) (outer *loopRec, rest *Term) {
			isDoc := func(t *Term) bool {
				return t != nil && x.deepVal(st, t).any(func(t *Term) bool {
					k, byName, ok := rt.part(t, x.params[0], rt.doc)
					if !ok || !byName {
						return false
					}
					for _, fr := range st.frames {
						for _, o := range fr.loops {
							if o != l && isList(o) && x.isElemOf(st, o, k) {
								outer = o
								return true
							}
						}
					}
					return false
				})
			}
			if l.coll != nil {
				if l.coll.splits() && l.inOrder && isDoc(l.coll.args[0]) {
					return outer, nil
				}
				return nil, nil
			}
			for p, v := range l.phi0 {
				if isDoc(l.entry[p]) {
					return outer, v
				}
			}
			return nil, nil
		}
		rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			if !isList(l) {
				if o, _ := pieces(x, st, l); o != nil && st.ts["line:"+l.name] == nil {
					x.report(st, headPos(l), "list:line", "a part of the documentation may be left out")
				}
				delete(st.ts, "line:"+l.name)
				return
			}
			c.count("names listed", 1)
			if st.ts["name:"+l.name] == nil {
				x.report(st, headPos(l), "list:name", "a name may be left out")
			} else {
				names(x, st, l.coll, headPos(l))
			}
			if cut := st.ts["cut:"+l.name]; cut != nil && st.ts["doc0:"+l.name] != nil && x.knownFalse(st, cut) {
				st.ts["doc:"+l.name] = flag(x)
			}
			if st.ts["doc:"+l.name] == nil {
				f, known := rt.found(x, st, x.params[0], x.loopElem(st, l), true)
				none := known && !f
				for f, v := range st.facts {
					if v && f.op == OpBin && f.s == "==" {
						for i := range f.args {
							t := f.args[i]
							if t.isPure("len") {
								t = t.args[0]
							}
							if k, byName, ok := rt.part(t, x.params[0], rt.doc); ok && byName && x.isElemOf(st, l, k) && (f.args[1-i].isStr("") || f.args[1-i].isInt(0)) {
								none = true
							}
						}
					}
				}
				if !none {
					x.report(st, headPos(l), "list:doc", "the documentation of a target may be left out")
				}
			}
			delete(st.ts, "name:"+l.name)
			delete(st.ts, "doc:"+l.name)
			delete(st.ts, "doc0:"+l.name)
			delete(st.ts, "cut:"+l.name)
			delete(st.ts, "doc1:"+l.name)
		}
		rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			if o, rest := pieces(x, st, l); o != nil && (rest == nil && exhausted(l, from) || rest != nil && x.knownTrue(st, x.tt.eq(rest, x.tt.str("")))) {
				st.ts["doc:"+o.name] = flag(x)
			} else if o != nil {
				delete(st.ts, "doc:"+o.name)
			}
			if l.isMap && l.class == 0 && exhausted(l, from) && isFieldOf(l.coll, x.params[0], rt.byName) {
				st.ts["nonames"] = flag(x)
			}
			if (isList(l) || st.ts["nonames"] != nil && l.coll != nil && x.knownTrue(st, x.tt.eq(x.tt.length(l.coll), x.tt.num(0)))) && exhausted(l, from) && l.inOrder {
				st.ts["listed"] = flag(x)
			}
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			if st.ts["listed"] == nil {
				x.report(st, fn.Pos(), "list:all", "listing may end before all names were written")
			}
		}
		c.explore(fn, rule, nil, nil)
		c.atLeast("names listed", 1)
	}
	for _, f := range []string{rt.byName, rt.byID} {
		c.mapWriters(ct, f, "Controller.RegisterTarget")
	}
	c.atLeast("writers of the maps", 2)
}

// checkParseArgs decides C26.
func checkParseArgs(c *Check) {
	c.rule("every iteration over the arguments appends the target registered under the argument (known to exist) to one list or, if it is known not to exist, the argument to another")
	c.rule("success is returned only if the lists that iterations without a target add to are known to be empty; the result is then the list of targets, or the one target wrapped with args[1:] exactly if len(args)>1 and args[1] is known to begin with a hyphen")
	c.rule("an error is returned only if some name is unknown, and it includes all of the unknown names")
	fn := c.need("", "Controller.ParseArgs")
	rt := c.registryLayout()
	at := c.constructed("ArgTarget")
	if fn == nil || rt == nil || at == nil {
		return
	}
	type outcome struct {
		found  bool
		target string // the list that the target was appended to
		grown  map[string]bool
		st     *State
		pos    tokenPos
	}
	outs := map[string][]outcome{}
	loopPhi := map[*Term]string{} // widened list: loop
	isArgs := func(x *Explorer, t *Term) bool { return copied(t) == x.params[1] }
	el := func(x *Explorer, st *State, i int64) *Term {
		return x.load(st, x.indexAddr(st, x.params[1], x.tt.num(i)), types.Typ[types.String])
	}
	// hyphen decides whether the second argument exists and begins with a hyphen
	hyphen := func(x *Explorer, st *State) (val, known bool) {
		n := x.tt.length(x.params[1])
		if v, ok := x.decide(st, x.tt.lt(x.tt.num(1), n)); ok && !v {
			return false, true
		} else if !ok {
			for k := int64(0); k <= 1; k++ {
				if x.knownTrue(st, x.tt.eq(n, x.tt.num(k))) {
					return false, true
				}
			}
		}
		if x.knownTrue(st, x.tt.eq(n, x.tt.num(0))) {
			return false, true
		}
		a := el(x, st, 1)
		for f, v := range st.facts {
			switch {
			case f.isPure("strings.HasPrefix") && f.args[0] == a && f.args[1].isStr("-"):
				return v, true
			case f.op == OpBin && f.s == "==":
				for i := range f.args {
					o := f.args[1-i]
					if f.args[i].isPure("index") && f.args[i].args[0] == a && f.args[i].args[1].isInt(0) && o.isInt('-') {
						return v, true
					}
					if f.args[i] == a && o.isStr("") || f.args[i] == x.tt.length(a) && o.isInt(0) {
						if v {
							return false, true
						}
					}
				}
			}
		}
		return false, false
	}
	rule := &Rule{keepArgs: func(n string) bool { return hasPrefixAny(n, "fmt.Errorf", "strings.Join", "errors.New", "fmt.Sprint") }}
	x := c.explorer(rule)
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == nil || !isArgs(x, l.coll) {
			return
		}
		c.count("iterations over the arguments", 1)
		o := outcome{grown: map[string]bool{}, st: st.clone(), pos: headPos(l)}
		var elem *Term
		if l.idx != nil {
			elem = x.loopElem(st, l)
		}
		f, known := rt.found(x, st, x.params[0], elem, true)
		o.found = known && f
		for ph, ch := range x.listChanges(st, l, old, news) {
			op, np := x.parts(st, ch[0]), x.parts(st, ch[1])
			if len(np) != len(op)+1 || !sameTerms(np[:len(op)], op) || np[len(op)].op != OpElem {
				if o.found {
					x.report(st, headPos(l), "args:list", "a list of results is changed other than by appending one element")
				}
				continue
			}
			e := np[len(op)].args[0]
			if k, byName, ok := rt.part(e, x.params[0], rt.target); ok && byName {
				if k != elem {
					x.report(st, headPos(l), "args:other", "the target appended is not the one named by the argument")
				}
				o.target = ph
				continue
			}
			if e == elem {
				if known && !f {
					o.grown[ph] = true
				} else {
					x.report(st, headPos(l), "args:known", "a known name may be reported as unknown")
				}
				continue
			}
		}
		outs[l.name] = append(outs[l.name], o)
	}
	rule.onWiden = func(x *Explorer, st *State, l *loopRec, from, to *Term) { loopPhi[to] = l.name }
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == nil || !isArgs(x, l.coll) {
			return
		}
		if exhausted(l, from) && l.inOrder {
			st.ts["done:"+l.name] = flag(x)
		}
		for ph := range l.phi0 {
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				st.ts["v:"+l.name+"#"+ph.Name()] = st.top().env[ph]
			}
		}
		for _, f := range st.frames {
			for _, a := range f.env {
				if a != nil && isSliceCell(a) {
					st.ts["v:"+l.name+"#"+cellName(a)] = x.load(st, a, cellType(a))
				}
			}
		}
	}
	empty := func(st *State, t *Term) bool {
		return t != nil && (x.knownTrue(st, x.tt.eq(x.tt.length(t), x.tt.num(0))) || x.knownNil(st, t))
	}
	// covered tells whether the iteration cannot have happened, because a list it adds to is empty
	covered := func(st *State, l string, o outcome) bool {
		for ph := range o.grown {
			if empty(st, st.ts["v:"+l+"#"+ph]) {
				return true
			}
		}
		return false
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		con, args := x.params[0], x.params[1]
		hy, known := hyphen(x, st)
		if e := res[1]; x.knownNonNil(st, e) {
			c.count("failures", 1)
			x.later(func() {
				checkUnknown(c, x, st, e, args, rt, outs2(outs, func(o outcome) map[string]bool { return o.grown }), hy && known)
			})
			return
		}
		if !x.succeeds(st, res) {
			return
		}
		c.count("successes", 1)
		list := x.canon(st, res[0])
		if !known {
			x.report(st, fn.Pos(), "args:mode", "success is returned without regard to whether the second argument begins with a hyphen")
			return
		}
		if hy {
			es, ss := listOf(list)
			ok := len(es) == 1 && len(ss) == 0
			if ok {
				r := unbox(es[0])
				ok = r.op == OpAlloc && types.Identical(r.typ, at.typ)
				if ok {
					t := x.load(st, x.fieldAddr(r, at.typ, at.fields[0]), c.fieldType(at.typ, at.fields[0]))
					k, byName, isPart := rt.part(t, con, rt.target)
					f, fk := rt.found(x, st, con, el(x, st, 0), true)
					if !isPart || !byName || k != el(x, st, 0) || !fk || !f {
						x.report(st, fn.Pos(), "args:target", "the target given arguments is not the one registered under args[0]")
					}
					a := x.canon(st, x.load(st, x.fieldAddr(r, at.typ, at.fields[1]), c.fieldType(at.typ, at.fields[1])))
					a = copied(a)
					if a.op != OpSub || a.args[0] != args || !a.args[1].isInt(1) || a.args[2] != x.tt.length(args) {
						x.report(st, fn.Pos(), "args:rest", "the arguments given to the target are %s, not args[1:]", a)
					}
				}
			}
			if !ok {
				x.report(st, fn.Pos(), "args:wrap", "the result is not one target with arguments although the second argument begins with a hyphen")
			}
			return
		}
		x.later(func() {
			if list.op == OpNil || list.op == OpSeq && len(list.args) == 1 {
				if !x.knownTrue(st, x.tt.eq(x.tt.length(args), x.tt.num(0))) {
					// nothing was appended, so no iteration can have appended a target
					for l, os := range outs {
						if st.ts["done:"+l] == nil {
							continue
						}
						for _, o := range os {
							if o.target != "" {
								return // the empty list is reached only if no iteration took place
							}
						}
					}
					x.report(st, fn.Pos(), "args:none", "success may be returned with no targets although there are arguments")
				}
				return
			}
			resultLoop, checked := "", false
			resPhi := ""
			for k, v := range st.ts {
				if strings.HasPrefix(k, "v:") && x.canon(st, v) == list {
					resultLoop, resPhi, _ = strings.Cut(k[2:], "#")
				}
			}
			if resultLoop == "" || st.ts["done:"+resultLoop] == nil {
				x.report(st, fn.Pos(), "args:result", "the result (%s) is not a list built by going through all the arguments in order", list)
				return
			}
			for _, o := range outs[resultLoop] {
				if o.target != resPhi && !covered(st, resultLoop, o) {
					x.report(o.st, o.pos, "args:dropped", "success may be returned although no target was appended for some argument")
				}
			}
			for l, os := range outs {
				if st.ts["done:"+l] == nil {
					continue
				}
				all := true
				for _, o := range os {
					all = all && (o.found || covered(st, l, o))
				}
				checked = checked || all
			}
			if !checked {
				x.report(st, fn.Pos(), "args:unknown", "success may be returned although some name is unknown")
			}
			for _, r := range x.comps[list] {
				if _, ss := listOf(r.init); len(ss) > 0 {
					x.report(st, fn.Pos(), "args:extra", "the result has targets that were not asked for")
				}
			}
		})
	}
	c.exploreWith(x, fn, nil, nil)
	c.atLeast("iterations over the arguments", 2)
	c.atLeast("successes", 2)
	c.atLeast("failures", 2)
}

// isSliceCell tells whether a is the address of a local variable holding a list.
func isSliceCell(a *Term) bool {
	t := cellType(a)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// cellName names a variable in memory, as opposed to those in registers.
func cellName(a *Term) string { return "m" + strconv.Itoa(int(a.id)) }

// listChanges tells which lists an iteration changed, in registers or (if closures share them) in memory.
func (x *Explorer) listChanges(st *State, l *loopRec, old, news map[*ssa.Phi]*Term) map[string][2]*Term {
	r := map[string][2]*Term{}
	for ph, nv := range news {
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && nv != old[ph] {
			r[ph.Name()] = [2]*Term{old[ph], nv}
		}
	}
	for a, nv := range st.heap {
		if isSliceCell(a) {
			if ov := x.loadIn(st, l.heap0, a, cellType(a)); ov != nv {
				r[cellName(a)] = [2]*Term{ov, nv}
			}
		}
	}
	return r
}

// outs2 collects the lists that unknown names are added to, by loop.
func outs2[T any](outs map[string][]T, grown func(T) map[string]bool) map[string]bool {
	r := map[string]bool{}
	for l, os := range outs {
		for _, o := range os {
			for ph := range grown(o) {
				r[l+"#"+ph] = true
			}
		}
	}
	return r
}

// checkUnknown checks that an error reports unknown names, and all of them.
func checkUnknown(c *Check, x *Explorer, st *State, e, args *Term, rt *regTable, lists map[string]bool, one bool) {
	if one {
		a := x.load(st, x.indexAddr(st, args, x.tt.num(0)), types.Typ[types.String])
		if f, known := rt.found(x, st, x.params[0], a, true); !known || f {
			x.report(st, x.entry.Pos(), "args:refused", "an error may be returned although the target is known")
		}
		if !x.deepVal(st, e).contains(a) {
			x.report(st, x.entry.Pos(), "args:name", "the error does not include the unknown name")
		}
		return
	}
	n := 0
	for k, v := range st.ts {
		if !strings.HasPrefix(k, "v:") || !lists[k[2:]] {
			continue
		}
		if x.knownTrue(st, x.tt.eq(x.tt.length(v), x.tt.num(0))) || x.knownNil(st, v) {
			continue
		}
		n++
		ln := x.tt.length(v)
		if x.knownFalse(st, x.tt.eq(ln, x.tt.num(0))) || x.knownTrue(st, x.tt.lt(x.tt.num(0), ln)) || len(x.parts(st, v)) > 0 && v.op == OpSeq || atLeastOne(x, st, ln) {
		} else {
			x.report(st, x.entry.Pos(), "args:refused", "an error may be returned although no name is unknown")
		}
		full := false
		elems, spreads := listOf(x.canon(st, v))
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == v || t == x.canon(st, v) {
				full = true
				return
			}
			if t.op == OpLoad && t.args[0].op == OpIndex && copied(t.args[0].args[0]) == v {
				if t.args[0].args[1].isInt(0) && x.knownTrue(st, x.tt.eq(ln, x.tt.num(1))) {
					full = true
				}
				return
			}
			if t.op == OpSub {
				return
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		d := x.deepVal(st, e)
		walk(d)
		if len(spreads) == 0 && len(elems) > 0 {
			all := true
			for _, el := range elems {
				all = all && d.contains(el)
			}
			full = full || all
		}
		if !full {
			x.report(st, x.entry.Pos(), "args:names", "the error does not include all unknown names")
		}
	}
	if n == 0 {
		x.report(st, x.entry.Pos(), "args:refused", "an error may be returned although no name is unknown")
	}
}

// atLeastOne tells whether the number is known to be positive.
func atLeastOne(x *Explorer, st *State, n *Term) bool {
	for k := int64(1); k <= 2; k++ {
		if x.knownTrue(st, x.tt.eq(n, x.tt.num(k))) {
			return true
		}
	}
	return x.knownFalse(st, x.tt.lt(n, x.tt.num(1)))
}

// checkPaths decides C32.
func checkPaths(c *Check) {
	c.rule("JoinPath returns filepath.Join(elts[k:]...) only if elts[k] is known to be absolute and every later segment was found relative, and filepath.Join(top, elts...) only if every segment was found relative (loops are checked inductively: descending search, ascending search, or accumulation that restarts at an absolute segment)")
	c.rule("RelPath returns filepath.Rel(top, path)")
	fn := c.need("", "Controller.JoinPath")
	ct := c.namedType("", "Controller")
	if fn == nil || ct == nil {
		return
	}
	pct := types.NewPointer(ct)
	kinds := map[string]map[string]bool{} // loop#phi: what it may be
	say := func(key string, got map[string]bool) {
		if old, ok := kinds[key]; ok {
			for k := range old {
				if !got[k] {
					delete(old, k)
				}
			}
			return
		}
		kinds[key] = got
	}
	rule := &Rule{}
	x := c.explorer(rule)
	elts := func() *Term { return x.params[1] }
	n := func() *Term { return x.tt.length(elts()) }
	elem := func(st *State, i *Term) *Term {
		return x.load(st, x.indexAddr(st, elts(), i), types.Typ[types.String])
	}
	abs := func(st *State, i *Term) (bool, bool) {
		return x.decide(st, x.tt.pure("path/filepath.IsAbs", elem(st, i)))
	}
	top := func(st *State) *Term {
		return x.load(st, x.fieldAddr(x.params[0], pct, "topdir"), types.Typ[types.String])
	}
	plus := func(t *Term, d int64) *Term {
		if d == 0 {
			return t
		}
		return x.tt.bin(token.ADD, t, x.tt.num(d), types.Typ[types.Int])
	}
	isJoin := func(t *Term) (args []*Term, ok bool) {
		if t.isPure("path/filepath.Join") || t.isPure("path/filepath.Clean") {
			return t.args, true
		}
		return nil, false
	}
	oneOrJoin := func(t, e *Term) bool {
		if t == e {
			return true
		}
		if a, ok := isJoin(t); ok && len(a) == 1 {
			es, ss := listOf(a[0])
			return a[0] == e || len(ss) == 0 && len(es) == 1 && es[0] == e
		}
		return false
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		c.count("iterations of JoinPath", 1)
		for ph, nv := range news {
			ov, en := old[ph], l.entry[ph]
			got := map[string]bool{}
			for _, d := range []int64{0, -1} {
				if plus(en, d) == plus(n(), -1) && nv == plus(ov, -1) {
					if v, ok := abs(st, plus(ov, d)); ok && !v {
						got[fmt.Sprintf("desc%d", d)] = true
					}
				}
			}
			if l.coll != nil && copied(l.coll) == elts() && l.idx != nil {
				v, ok := abs(st, l.idx)
				if k, isInt := en.intVal(); ok && isInt && k < 0 {
					if v && nv == l.idx || !v && nv == ov {
						got["last"] = true
					}
				}
				e := elem(st, l.idx)
				if ok {
					op, np := x.parts(st, ov), x.parts(st, nv)
					ep := x.parts(st, en)
					if len(ep) == 1 && ep[0].op == OpElem && ep[0].args[0] == top(st) {
						if v && len(np) == 1 && np[0] == x.tt.elem(e) || !v && len(np) == len(op)+1 && sameTerms(np[:len(op)], op) && np[len(op)] == x.tt.elem(e) {
							got["acc"] = true
						}
					}
					if oneOrJoin(en, top(st)) {
						if v && oneOrJoin(nv, e) {
							got["str"] = true
						}
						if a, isJ := isJoin(nv); isJ && !v {
							es, ss := a, []*Term(nil)
							if len(a) == 1 {
								es, ss = listOf(a[0])
							}
							if len(ss) == 0 && len(es) == 2 && es[0] == ov && es[1] == e {
								got["str"] = true
							}
						}
					}
				}
			}
			say(l.name+"#"+ph.Name(), got)
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		for ph := range l.phi0 {
			st.ts["v:"+l.name+"#"+ph.Name()] = st.top().env[ph]
			if exhausted(l, from) {
				st.ts["x:"+l.name+"#"+ph.Name()] = flag(x)
				if l.inOrder {
					st.ts["o:"+l.name+"#"+ph.Name()] = flag(x)
				}
			}
			// a loop that was left before its first iteration ended has no back edge to tell what it does
			if l.class == 0 {
				st.ts["first:"+l.name+"#"+ph.Name()] = l.entry[ph]
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("results of JoinPath", 1)
		x.later(func() {
			r := res[0]
			none := x.knownTrue(st, x.tt.eq(n(), x.tt.num(0))) || x.knownTrue(st, x.tt.lt(plus(n(), -1), x.tt.num(0)))
			each := func(kind string, f func(v *Term, key string) bool) bool {
				for k, v := range st.ts {
					if key, ok := strings.CutPrefix(k, "v:"); ok && kinds[key][kind] && f(v, key) {
						return true
					}
				}
				return false
			}
			// accumulated strings
			if each("str", func(v *Term, key string) bool { return oneOrJoin(r, v) && st.ts["o:"+key] != nil }) {
				return
			}
			args, ok := isJoin(r)
			if !ok {
				if none && r == top(st) {
					return
				}
				x.report(st, fn.Pos(), "join:result", "the result (%s) is not a joined path", r)
				return
			}
			var es, ss []*Term
			whole := (*Term)(nil)
			if len(args) == 1 && args[0].typ == nil || len(args) == 1 {
				whole = copied(x.canon(st, args[0]))
				es, ss = listOf(whole)
			} else {
				es = args
			}
			// relative segments may be joined first
			if len(ss) == 0 && len(es) == 2 {
				if a, ok := isJoin(es[1]); ok && len(a) == 1 {
					if e2, s2 := listOf(copied(x.canon(st, a[0]))); len(e2) == 0 && len(s2) == 1 {
						es, ss = es[:1], s2
					}
				}
			}
			if whole != nil && each("acc", func(v *Term, key string) bool { return x.canon(st, v) == whole && st.ts["o:"+key] != nil }) {
				return
			}
			allRelative := none ||
				each("desc0", func(v *Term, key string) bool {
					return st.ts["x:"+key] != nil && x.knownTrue(st, x.tt.lt(v, x.tt.num(0)))
				}) ||
				each("desc-1", func(v *Term, key string) bool {
					return st.ts["x:"+key] != nil && (x.knownFalse(st, x.tt.lt(x.tt.num(0), v)) || x.knownTrue(st, x.tt.eq(v, x.tt.num(0))))
				}) ||
				each("last", func(v *Term, key string) bool {
					return st.ts["o:"+key] != nil && (x.knownTrue(st, x.tt.lt(v, x.tt.num(0))) || x.knownTrue(st, x.tt.eq(v, x.tt.num(-1))) || v.isInt(-1))
				})
			switch {
			case len(es) == 1 && es[0] == top(st) && (len(ss) == 0 && none || len(ss) == 1 && copied(ss[0]) == elts()):
				if !allRelative {
					x.report(st, fn.Pos(), "join:top", "the top directory may be joined although a segment is absolute")
				}
			case whole != nil && (whole.op == OpSub && whole.args[0] == elts() && whole.args[2] == n() || whole == elts()):
				k := x.tt.num(0)
				if whole.op == OpSub {
					k = whole.args[1]
				}
				if each("last", func(v *Term, key string) bool {
					return v == k && st.ts["o:"+key] != nil && (x.knownFalse(st, x.tt.lt(v, x.tt.num(0))) || x.knownFalse(st, x.tt.eq(v, x.tt.num(-1))))
				}) {
					return
				}
				if v, known := abs(st, k); !known || !v {
					x.report(st, fn.Pos(), "join:abs", "the segments from %s on are joined although that one may be relative", k)
					return
				}
				if k == plus(n(), -1) {
					return
				}
				ok := false
				for _, d := range []int64{0, -1} {
					ok = ok || each(fmt.Sprintf("desc%d", d), func(v *Term, key string) bool { return plus(v, d) == k })
				}
				if !ok {
					x.report(st, fn.Pos(), "join:last", "the segments from %s on are joined although a later one may be absolute", k)
				}
			default:
				x.report(st, fn.Pos(), "join:parts", "what is joined (%s) is neither all segments after the top directory nor a tail of them", r)
			}
		})
	}
	c.exploreWith(x, fn, nil, nil)
	c.atLeast("results of JoinPath", 2)
	c.atLeast("iterations of JoinPath", 1)

	rel := c.need("", "Controller.RelPath")
	if rel == nil {
		return
	}
	c.explore(rel, &Rule{onExit: func(x *Explorer, st *State, res []*Term) {
		c.count("results of RelPath", 1)
		t := x.load(st, x.fieldAddr(x.params[0], pct, "topdir"), types.Typ[types.String])
		want := x.tt.pure("path/filepath.Rel", t, x.params[1])
		e := x.tt.extract(want, 1)
		if x.knownNonNil(st, res[1]) {
			if unwrapErr(res[1]) != e {
				x.report(st, rel.Pos(), "rel:error", "RelPath may fail for another reason than filepath.Rel")
			}
			return
		}
		if res[0] != x.tt.extract(want, 0) && !x.knownNonNil(st, e) || unwrapErr(res[1]) != e && !x.knownNil(st, e) {
			x.report(st, rel.Pos(), "rel", "RelPath does not return filepath.Rel of the top directory and the path")
		}
	}}, nil, nil)
	c.atLeast("results of RelPath", 1)
}
