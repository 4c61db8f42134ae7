package main

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Typestate over every path of (*files).Run: success without running the subtarget needs a positive answer for a fresh hash, and neither force nor dry-run; every fallible step is known to have succeeded.", func(c *Check) { checkFilesRun(c); c.errorDiscipline() })
	register("C06", "Typestate over every path of (*files).Run, and a search for other callers: the hash database is added to only after a successful run of the subtarget, with a hash computed after it, and always then.", func(c *Check) { checkFilesRun(c); checkAddCallers(c); c.errorDiscipline() })
	register("C07", "Dataflow into the hash: what is looked up is an injective function of the JSON encoding of the rule and of the file hashes; file hashing is decided per item; settings of targets are visible to the encoder; all nested references are resolved first.", func(c *Check) {
		checkFilesRun(c)
		checkFileHashes(c)
		checkSettingsVisible(c)
		checkResolution(c)
		c.errorDiscipline()
	})
	register("C08", "Typestate over every path of (*files).Run with a for-all obligation on the loop over the inputs, over findInFilesRegistry and over Files.", func(c *Check) {
		checkFilesRun(c)
		checkFindProducer(c)
		checkFilesRegisters(c)
		c.errorDiscipline()
	})
}

// errorDiscipline applies the rule of C18 to every function explored so far.
func (c *Check) errorDiscipline() {
	c.rule("in every function involved, errors are handled according to the rules of C18")
	names := map[string]bool{}
	for f := range c.funcs {
		names[f] = true
	}
	for _, fn := range c.p.srcFns {
		if fn.Synthetic != "" || fn.Blocks == nil || fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 || !names[fnName(fn)] {
			continue
		}
		checkErrorsIn(c, fn)
	}
}

const (
	nRun      = "(*fab.Controller).Run"
	nDescribe = "(*fab.Controller).Describe"
	nIndentf  = "(*fab.Controller).Indentf"
	nHas      = "invoke github.com/bobg/fab.HashDB.Has"
	nAdd      = "invoke github.com/bobg/fab.HashDB.Add"
	nHashes   = "fab.fileHashes"
	nFind     = "fab.findInFilesRegistry"
)

// pending error tracking for explorations that follow calls.
func pend(x *Explorer, st *State, ev *CallEvent) {
	if e := ev.errResult(x); e != nil && (ev.res.op == OpCall || ev.res.op == OpTuple) && !neverFails(ev.name) {
		st.ts["err:"+strconv.Itoa(int(e.id))] = e
	}
}

// emptyField tells whether the list in a field of p was found to be empty.
func emptyField(st *State, p *Term, name string) bool {
	for f, v := range st.facts {
		if !v || f.op != OpBin || f.s != "==" {
			continue
		}
		for i, a := range f.args {
			if a.isPure("len") && isFieldOf(a.args[0], p, name) && f.args[1-i].isInt(0) {
				return true
			}
		}
	}
	return false
}

// pendBack forgets errors of a finished iteration that are known to be nil.
func pendBack(x *Explorer, st *State, l *loopRec) {
	for _, k := range tsKeys(st, "err:") {
		if e := st.ts[k]; x.knownNil(st, e) {
			delete(st.ts, k)
		}
	}
}

// pendWiden passes on the errors recorded by pend to the loop variable that takes their value.
func pendWiden(st *State, from, to *Term) {
	for _, k := range tsKeys(st, "err:") {
		if e := st.ts[k]; from != to && from.contains(e) {
			delete(st.ts, k)
			st.ts["err:"+strconv.Itoa(int(to.id))] = to
		}
	}
}

// mustNil reports the errors recorded by pend that are not known to be nil.
func mustNil(x *Explorer, st *State) (bad []*Term) {
	for _, k := range tsKeys(st, "err:") {
		if e := st.ts[k]; !x.knownNil(st, e) {
			bad = append(bad, e)
		}
	}
	return
}

// checkFilesRun explores (*files).Run for C05 to C08.
func checkFilesRun(c *Check) {
	fn := c.need("", "files.Run")
	if fn == nil {
		return
	}
	ft := recvType(fn)
	is := func(ids ...string) bool { return oneOf(c.id, ids...) }
	rule := &Rule{stop: stopAt(nRun, nDescribe, nIndentf, nHashes, nFind), keepArgs: func(n string) bool { return n == nFind }}
	c.rule("path to success without (*Controller).Run of the subtarget => HashDB.Has(fresh hash) is true with a nil error, force and dry-run are off")
	c.rule("HashDB.Add => subtarget ran with a nil error, dry-run is off, the hash is computed from file hashes taken after that run")
	c.rule("subtarget ran, database present, not dry-run, success => HashDB.Add succeeded")
	c.rule("for all inputs i: findInFilesRegistry(i) is nil, is the target itself, or was run to success before files are hashed and before the subtarget runs")
	hashTerms := map[*Term]bool{}

	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		self, ctx, con := x.params[0], x.params[1], x.params[2]
		_ = con
		begin := func(what string) {
			if !is("C08") || st.ts["begun"] != nil {
				return
			}
			st.ts["begun"] = flag(x)
			if st.ts["allIn"] == nil && !x.knownTrue(st, x.tt.eq(x.tt.length(x.load(st, x.fieldAddr(self, ft, "In"), c.fieldType(ft, "In"))), x.tt.num(0))) {
				x.report(st, ev.ins.Pos(), "before:"+what, "%s before every input was looked up", what)
			}
			for _, k := range tsKeys(st, "pend:") {
				x.report(st, ev.ins.Pos(), "notrun:"+what, "%s although the producer of an input (%s) was not run", what, st.ts[k])
			}
			for _, k := range tsKeys(st, "pl:") {
				l := st.ts[k]
				if x.knownTrue(st, x.tt.eq(x.tt.length(l), x.tt.num(0))) || x.knownNil(st, l) {
					continue
				}
				e := st.ts["plrun:"+strings.TrimPrefix(k, "pl:")]
				if e == nil || !x.knownNil(st, e) {
					x.report(st, ev.ins.Pos(), "notrun:"+what, "%s although the producers of the inputs did not all succeed", what)
				}
			}
		}
		isIn := func(t *Term) bool { return isFieldOf(t, self, "In") }
		switch {
		case ev.is(nFind):
			r := ev.res
			st.ts["found:"+strconv.Itoa(int(ev.args[0].id))] = x.tt.mk(Term{op: OpTuple, args: []*Term{ev.args[0], r}})
			st.ts["pend:"+strconv.Itoa(int(r.id))] = r
			return
		case ev.is(nRun):
			pend(x, st, ev)
			c.count("Controller.Run call paths", 1)
			if ev.kind != frCall {
				x.report(st, ev.ins.Pos(), "async", "Controller.Run is not waited for")
			}
			tsClear(st, "fresh:")
			tsClear(st, "has")
			elems, spreads := listOf(ev.args[2])
			if ev.args[0] != x.params[2] && is("C05", "C08") {
				x.report(st, ev.ins.Pos(), "controller", "another controller is used")
			}
			if len(spreads) == 0 && len(elems) == 1 && isFieldOf(elems[0], self, "Target") {
				begin("the subtarget runs")
				st.ts["sub"] = ev.res
				return
			}
			for _, e := range elems {
				if isFieldOf(e, self, "Target") && is("C05", "C08") {
					x.report(st, ev.ins.Pos(), "mixed", "the subtarget runs together with other targets")
				}
				if is("C08") && st.ts["pend:"+strconv.Itoa(int(e.id))] != nil && !x.notSelf(st, e) {
					x.report(st, ev.ins.Pos(), "run:self", "a target may wait for itself as the producer of its own input")
				}
				delete(st.ts, "pend:"+strconv.Itoa(int(e.id)))
				st.ts["err1:"+strconv.Itoa(int(e.id))] = ev.res
			}
			for _, k := range tsKeys(st, "pl:") {
				l := st.ts[k]
				for _, s := range spreads {
					if s == l {
						st.ts["plrun:"+strings.TrimPrefix(k, "pl:")] = ev.res
					}
				}
			}
		case ev.is(nHashes):
			pend(x, st, ev)
			begin("files are hashed")
			switch {
			case isIn(ev.args[0]):
				st.ts["fresh:In"] = x.tt.extract(ev.res, 0)
			case isFieldOf(ev.args[0], self, "Out"):
				st.ts["fresh:Out"] = x.tt.extract(ev.res, 0)
			}
		case ev.is(nHas):
			pend(x, st, ev)
			c.count("HashDB.Has call paths", 1)
			begin("the hash database is consulted")
			h := ev.args[2]
			if why := hashFresh(x, st, h); why != "" {
				st.ts["hasbad"] = flag(x)
				if is("C05") {
					x.report(st, ev.ins.Pos(), "stalehash", "the hash looked up %s", why)
				}
			}
			if !ev.args[0].isPure("fab.GetHashDB") || !ctxFrom(ev.args[0].args[0], ctx) {
				if is("C05") {
					x.report(st, ev.ins.Pos(), "otherdb", "the database consulted is not the one in the context")
				}
			}
			st.ts["has"] = ev.res
			checkHashShape(c, x, st, ev.ins.Pos(), h, ft, hashTerms)
		case ev.is(nAdd):
			pend(x, st, ev)
			c.count("HashDB.Add call paths", 1)
			h := ev.args[2]
			checkHashShape(c, x, st, ev.ins.Pos(), h, ft, hashTerms)
			if is("C06") {
				sub := st.ts["sub"]
				if sub == nil || !x.knownNil(st, sub) {
					x.report(st, ev.ins.Pos(), "add:unsuccessful", "an entry is added although the subtarget did not run successfully before")
				}
				if !x.knownFalse(st, x.tt.pure("fab.GetDryRun", ctx)) {
					x.report(st, ev.ins.Pos(), "add:dry", "an entry may be added in dry-run mode")
				}
				if why := hashFresh(x, st, h); why != "" {
					x.report(st, ev.ins.Pos(), "add:stale", "the hash added %s", why)
				}
				if !ev.args[0].isPure("fab.GetHashDB") || !ctxFrom(ev.args[0].args[0], ctx) {
					x.report(st, ev.ins.Pos(), "add:otherdb", "the entry is added to a database that is not the one in the context")
				}
				if ev.kind != frCall {
					x.report(st, ev.ins.Pos(), "add:async", "the entry is not added synchronously")
				}
			}
			st.ts["add"] = ev.res
		case ev.is(nDescribe, nIndentf):
		default:
			pend(x, st, ev)
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		pendBack(x, st, l)
		if !is("C08") || l.coll == nil || !isFieldOf(l.coll, x.params[0], "In") {
			return
		}
		found := false
		for _, k := range tsKeys(st, "found:") {
			if t := st.ts[k]; x.isElemOf(st, l, t.args[0]) {
				found = true
				r := t.args[1]
				id := strconv.Itoa(int(r.id))
				if st.ts["pend:"+id] == nil {
					// it was run at once
					if e := st.ts["err1:"+id]; e != nil && !x.knownNil(st, e) {
						x.report(st, headPos(l), "loop:fail", "the loop over the inputs goes on although a producer failed")
					}
				} else if x.knownNil(st, r) || x.isSelf(st, r) {
					delete(st.ts, "pend:"+id)
				} else {
					kept := false
					for _, v := range news {
						if v.contains(r) {
							kept = true
						}
					}
					for a, v := range st.heap {
						if v.contains(r) && a.op == OpMapHas == false {
							kept = true
						}
					}
					if kept && !x.notSelf(st, r) {
						x.report(st, headPos(l), "loop:self", "a target may wait for itself as the producer of its own input")
					}
					if !kept {
						x.report(st, headPos(l), "loop:lost", "the producer of an input is neither run nor kept for later")
						delete(st.ts, "pend:"+id)
					}
				}
			}
			delete(st.ts, k)
		}
		if !found {
			x.report(st, headPos(l), "loop:skipped", "an input may be passed over without looking up its producer")
		}
		if !l.inOrder {
			x.report(st, headPos(l), "loop:order", "the loop over the inputs may miss some of them")
		}
	}
	rule.onWiden = func(x *Explorer, st *State, l *loopRec, from, to *Term) {
		pendWiden(st, from, to)
		if !is("C08") {
			return
		}
		for _, k := range tsKeys(st, "pend:") {
			if r := st.ts[k]; from.contains(r) {
				delete(st.ts, k)
				st.ts["pl:"+strconv.Itoa(int(to.id))] = to
			}
		}
		if st.ts["pl:"+strconv.Itoa(int(to.id))] != nil && !x.widened[to] {
			x.widened[to] = true
			x.later(func() {
				lost := len(x.comps[to]) == 0
				for _, r := range x.comps[to] {
					lost = lost || r.lost
				}
				if lost {
					x.report(st, headPos(l), "loop:overwritten", "producers found earlier are dropped from the list")
				}
			})
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll != nil && isFieldOf(l.coll, x.params[0], "In") && exhausted(l, from) && l.inOrder {
			st.ts["allIn"] = flag(x)
			for _, ph := range l.loop.mods {
				if t := st.top().env[ph]; t != nil && x.comps[t] != nil {
					st.ts["pl:"+strconv.Itoa(int(t.id))] = t
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if !x.succeeds(st, res) {
			return
		}
		c.count("paths to success", 1)
		ctx := x.params[1]
		sub := st.ts["sub"]
		if is("C05") {
			if sub != nil {
				if !x.knownNil(st, sub) {
					x.report(st, fn.Pos(), "sub:failed", "success is returned although the subtarget may have failed")
				}
			} else if has := st.ts["has"]; has == nil {
				x.report(st, fn.Pos(), "skip:unasked", "success is returned without running the subtarget and without an answer of the hash database")
			} else {
				if st.ts["hasbad"] != nil {
					x.report(st, fn.Pos(), "skip:stale", "success is returned without running the subtarget for a hash that is not current")
				}
				if !x.knownTrue(st, x.tt.extract(has, 0)) {
					x.report(st, fn.Pos(), "skip:absent", "success is returned without running the subtarget although the database does not have the hash")
				}
				if !x.knownNil(st, x.tt.extract(has, 1)) {
					x.report(st, fn.Pos(), "skip:dberr", "success is returned without running the subtarget although the database failed")
				}
				for _, g := range []string{"fab.GetForce", "fab.GetDryRun"} {
					if !x.knownFalse(st, x.tt.pure(g, ctx)) {
						x.report(st, fn.Pos(), "skip:"+g, "success is returned without running the subtarget although %s may be true", g)
					}
				}
			}
			for _, e := range mustNil(x, st) {
				x.report(st, fn.Pos(), "unchecked:"+e.String(), "success is returned although %s may be an error", e)
			}
		}
		if is("C06") && sub != nil {
			db := x.tt.pure("fab.GetHashDB", ctx)
			if !x.knownNil(st, db) && !x.knownTrue(st, x.tt.pure("fab.GetDryRun", ctx)) {
				add := st.ts["add"]
				if add == nil {
					x.report(st, fn.Pos(), "noadd", "success is returned after running the subtarget without adding to the hash database")
				} else if !x.knownNil(st, add) {
					x.report(st, fn.Pos(), "add:failed", "success is returned although adding to the hash database may have failed")
				}
			}
		}
	}
	x := c.explorer(rule)
	x.widened = map[*Term]bool{}
	c.exploreWith(x, fn, nil, nil)
	c.count("hash values examined", len(hashTerms))
	c.atLeast("HashDB.Has call paths", 1)
	c.atLeast("HashDB.Add call paths", 1)
	c.atLeast("Controller.Run call paths", 2)
	c.atLeast("paths to success", 2)
}

// notSelf tells whether r is known not to be the receiver.
func (x *Explorer) notSelf(st *State, r *Term) bool {
	self := x.params[0]
	for f, v := range st.facts {
		if !v && f.op == OpBin && f.s == "==" {
			for i := range f.args {
				if unbox(f.args[i]) == unbox(r) && unbox(f.args[1-i]) == self {
					return true
				}
			}
		}
	}
	return false
}

// isSelf tells whether r is known to be the receiver of the entry point.
func (x *Explorer) isSelf(st *State, r *Term) bool {
	self := x.params[0]
	if unbox(r) == self {
		return true
	}
	for f, v := range st.facts {
		if v && f.op == OpBin && f.s == "==" {
			for i := range f.args {
				if f.args[i] == r && unbox(f.args[1-i]) == self {
					return true
				}
			}
		}
	}
	return false
}

// ctxFrom tells whether ctx is derived from the given context without hiding settings.
func ctxFrom(ctx, base *Term) bool {
	for ctx != base {
		switch {
		case ctx.op == OpPure && (strings.HasPrefix(ctx.s, "fab.With") || ctx.s == "context.WithValue"):
			ctx = ctx.args[0]
		default:
			return false
		}
	}
	return true
}

func (c *Check) fieldType(t types.Type, name string) types.Type {
	i := fieldIndex(t, name)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if i < 0 {
		return types.Typ[types.String]
	}
	return structOf(t).Field(i).Type()
}

// hashFresh tells in what respect a hash is not up to date.
func hashFresh(x *Explorer, st *State, h *Term) string {
	for _, k := range []string{"In", "Out"} {
		f := st.ts["fresh:"+k]
		if f == nil || !h.contains(f) {
			return "does not contain hashes of the " + k + " files as they are after the last target was run"
		}
	}
	return ""
}

// checkHashShape decides for C07 whether a hash value covers the rule.
func checkHashShape(c *Check, x *Explorer, st *State, pos tokenPos, h *Term, ft types.Type, seen map[*Term]bool) {
	if c.id != "C07" || seen[h] {
		return
	}
	seen[h] = true
	c.rule("the hash is an injective or cryptographic function of a JSON encoding with distinct visible fields for the subtarget, its type, the input hashes and the output hashes")
	// peel injective functions
	t := h
	for {
		switch {
		case t.op == OpPure && oneOf(t.s, "crypto/sha256.Sum224", "crypto/sha256.Sum256", "crypto/sha512.Sum512", "encoding/hex.EncodeToString", "sum") && len(t.args) == 1:
			t = t.args[0]
			continue
		case t.op == OpConv:
			t = t.args[0]
			continue
		case t.op == OpSeq && len(t.args) == 2:
			t = t.args[1].args[0]
			continue
		}
		break
	}
	if !t.isPure("json") {
		x.report(st, pos, "hash:shape", "the hash %s is not a hash of a JSON encoding", h)
		return
	}
	s := unbox(t.args[0])
	if s.op != OpStruct || structOf(s.typ) == nil {
		x.report(st, pos, "hash:value", "the value encoded for the hash (%s) is not a struct made here", s)
		return
	}
	self := x.params[0]
	sty := structOf(s.typ)
	names := map[string]int{}
	have := map[string]string{}
	for i, v := range s.args {
		n, vis := jsonName(sty, i)
		if !vis {
			continue
		}
		if j, dup := names[n]; dup {
			x.report(st, pos, "hash:dup", "fields %s and %s have the same JSON name", sty.Field(j).Name(), sty.Field(i).Name())
		}
		names[n] = i
		switch {
		case isFieldOf(unbox(v), self, "Target"):
			have["target"] = n
			continue
		case v.any(func(u *Term) bool { return u.isPure("reflect.TypeOf") && isFieldOf(u.args[0], self, "Target") }) && v.any(func(u *Term) bool {
			return u.isPure("invoke reflect.Type.String") || u.isPure("fmt.Sprintf") || u.isPure("fmt.Sprint")
		}),
			v.any(func(u *Term) bool {
				f := ""
				if u.isPure("fmt.Sprintf") && len(u.args) > 0 {
					f, _ = u.args[0].strVal()
				}
				return strings.Contains(f, "%T") && u.any(func(w *Term) bool { return isFieldOf(w, self, "Target") })
			}):
			have["type"] = n
			continue
		}
		for _, k := range []string{"In", "Out"} {
			if f := st.ts["fresh:"+k]; f != nil && v == f {
				have[k] = n
			}
		}
	}
	for _, k := range []string{"target", "type", "In", "Out"} {
		if have[k] == "" {
			x.report(st, pos, "hash:lacks:"+k, "no visible field of the encoded value is the %s of the rule", map[string]string{"target": "subtarget", "type": "type of the subtarget", "In": "hashes of the input files", "Out": "hashes of the output files"}[k])
		}
	}
}

// jsonName is the name under which a field is encoded.
// Fields with the same name hide each other, unless only one of them is given it by a tag.
func jsonName(s *types.Struct, i int) (string, bool) {
	n, vis := jsonNameOf(s, i)
	for j := 0; vis && j < s.NumFields(); j++ {
		if m, ok := jsonNameOf(s, j); ok && j != i && m == n && (jsonTagged(s, j) || !jsonTagged(s, i)) {
			return "", false
		}
	}
	return n, vis
}

func jsonTagged(s *types.Struct, i int) bool {
	n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
	return n != ""
}

func jsonNameOf(s *types.Struct, i int) (string, bool) {
	f := s.Field(i)
	if !f.Exported() {
		return "", false
	}
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" {
		return "", false
	}
	n, _, _ := strings.Cut(tag, ",")
	if n == "" {
		n = f.Name()
	}
	return n, true
}

// checkAddCallers: only (*files).Run adds entries (C06).
func checkAddCallers(c *Check) {
	c.rule("no function that is not part of (*files).Run calls the Add method of a hash database")
	dbi := c.namedType("", "HashDB")
	if dbi == nil {
		return
	}
	iface := dbi.Underlying().(*types.Interface)
	n := 0
	for _, fn := range c.p.srcFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				hit := false
				if cc.IsInvoke() {
					hit = cc.Method.Name() == "Add" && types.Identical(cc.Value.Type().Underlying(), iface)
				} else if f := cc.StaticCallee(); f != nil && f.Name() == "Add" {
					if rt := recvType(f); rt != nil && types.Implements(rt, iface) {
						hit = true
					}
				}
				if !hit {
					continue
				}
				n++
				c.onlyUnder(fn, "files.Run", c.p.posStr(in.Pos()), "addcaller:"+fnName(fn), map[*ssa.Function]bool{})
			}
		}
	}
	c.count("call sites of HashDB.Add", n)
	c.atLeast("call sites of HashDB.Add", 1)
}

// onlyUnder reports fn unless it is the named function, or is only called (directly) from functions of which that holds.
func (c *Check) onlyUnder(fn *ssa.Function, root, pos, key string, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn == c.p.fn("", root) {
		return
	}
	callers := c.p.callersOf(fn)
	if fn.Object() != nil && fn.Object().Exported() && recvType(fn) == nil || len(callers) == 0 {
		c.violate(pos, key, nil, "%s, which is not part of %s, leads here", fnName(fn), root)
		return
	}
	for _, g := range callers {
		c.onlyUnder(g, root, pos, key, seen)
	}
}

func (p *Program) callersOf(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range p.srcFns {
		hit := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == ssa.Value(fn) {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, g)
		}
	}
	return out
}

// checkFindProducer: findInFilesRegistry finds the producer of a file or of an enclosing directory (C08).
func checkFindProducer(c *Check) {
	c.rule("findInFilesRegistry looks up the name itself, then each parent directory, until the lookup succeeds or there is no proper parent; its result is what was found")
	fn := c.need("", "findInFilesRegistry")
	if fn == nil {
		return
	}
	// cur is the name looked up last, next is its parent directory, found and known are the result of the lookup.
	rule := &Rule{carry: true, keepArgs: func(n string) bool { return n == fnName(fn) }}
	failed := func(x *Explorer, st *State) bool {
		return st.ts["failed"] != nil || st.ts["found"] != nil && (st.ts["known"] != nil && x.knownFalse(st, st.ts["known"]) || x.knownNil(st, st.ts["found"]))
	}
	look := func(x *Explorer, st *State, k *Term, ins ssa.Instruction) {
		next := st.ts["next"]
		switch {
		case next == nil:
			if k != x.params[0] {
				x.report(st, ins.Pos(), "find:first", "%s is looked up first", k)
			}
		case k == next || k.isPure("path.Dir") && st.ts["cur"] != nil && k.args[0] == st.ts["cur"]:
			if !failed(x, st) {
				x.report(st, ins.Pos(), "find:beyond", "a parent is examined although the search may have succeeded")
			}
		default:
			x.report(st, ins.Pos(), "find:step", "the search does not proceed to the parent directory")
		}
	}
	rule.onMapGet = func(x *Explorer, st *State, m, k *Term, ins ssa.Instruction) {
		if !isRegistryItems(m, "filesRegistry") {
			return
		}
		if st.ts["cur"] == k {
			return // looked up again
		}
		c.count("registry lookups", 1)
		look(x, st, k, ins)
		st.ts["cur"] = k
		st.ts["next"] = x.tt.pure("path/filepath.Dir", k)
		delete(st.ts, "failed")
		st.ts["found"], st.ts["known"] = x.lookup(st, m, k, mapElemType(ins))
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if failed(x, st) {
			st.ts["failed"] = flag(x)
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.recursive && ev.name == fnName(fn) { // the search goes on in a recursive call
			if st.ts["next"] == nil {
				x.report(st, ev.ins.Pos(), "find:nolookup", "the search goes on without a lookup of the current name")
				return
			}
			look(x, st, ev.args[0], ev.ins)
			st.ts["rest"] = ev.res
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("exits of findInFilesRegistry", 1)
		r := unbox(res[0])
		next := st.ts["next"]
		switch {
		case next == nil:
			x.report(st, fn.Pos(), "find:nolookup", "the result does not follow from a lookup of the current name")
		case st.ts["rest"] != nil:
			if r != st.ts["rest"] {
				x.report(st, fn.Pos(), "find:rest", "the result of the search among the parent directories is not returned")
			}
		case r.isNil() || r == st.ts["found"] && failed(x, st):
			if !failed(x, st) {
				x.report(st, fn.Pos(), "find:lost", "what was found may not be returned")
			}
			done := false
			for f, v := range st.facts {
				if !v || f.op != OpBin || f.s != "==" {
					continue
				}
				for i := range f.args {
					if f.args[i] == next || f.args[i].isPure("path.Dir") && f.args[i].args[0] == st.ts["cur"] {
						o := f.args[1-i]
						if o == st.ts["cur"] || o.isStr("") || o.isStr(".") || o.isStr("/") {
							done = true
						}
					}
				}
			}
			if !done {
				x.report(st, fn.Pos(), "find:early", "the search ends without a result before the root")
			}
		case r == st.ts["found"]:
			if !(st.ts["known"] != nil && x.knownTrue(st, st.ts["known"])) && !x.knownNonNil(st, r) {
				x.report(st, fn.Pos(), "find:other", "the result is not what was found under the current name")
			}
		default:
			x.report(st, fn.Pos(), "find:other", "the result is not what was found under the current name")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("registry lookups", 1)
	c.atLeast("exits of findInFilesRegistry", 2)
}

func mapElemType(ins ssa.Instruction) types.Type {
	return ins.(*ssa.Lookup).X.Type().Underlying().(*types.Map).Elem()
}

// isRegistryItems tells whether m is the map of the named package-level registry.
func isRegistryItems(m *Term, global string) bool {
	if m.op != OpLoad {
		return false
	}
	a := m.args[0]
	if a.op == OpGlobal { // the registry is a map itself
		return a.glob.Name() == global
	}
	if a.op != OpField {
		return false
	}
	for _, b := range []*Term{a.args[0]} {
		if b.op == OpLoad && b.args[0].op == OpGlobal && b.args[0].glob.Name() == global {
			return true
		}
		if b.op == OpGlobal && b.glob.Name() == global {
			return true
		}
	}
	return false
}

// checkFilesRegisters: Files remembers the target as the producer of all its outputs, and holds what it was given (C08).
func checkFilesRegisters(c *Check) {
	c.rule("Files: for all outputs o, the registry maps o to the new target, which holds the arguments of Files")
	fn := c.need("", "Files")
	if fn == nil {
		return
	}
	ftyp := c.namedType("", "files")
	if ftyp == nil {
		return
	}
	rule := &Rule{}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if !isRegistryItems(m, "filesRegistry") || v == nil {
			return
		}
		c.count("registry updates", 1)
		st.ts["set:"+strconv.Itoa(int(k.id))] = x.tt.mk(Term{op: OpTuple, args: []*Term{k, v}})
		st.ts["val"] = v
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == nil || l.coll != x.params[2] {
			return
		}
		ok := false
		for _, k := range tsKeys(st, "set:") {
			if t := st.ts[k]; x.isElemOf(st, l, t.args[0]) {
				ok = true
			}
		}
		tsClear(st, "set:")
		if !ok {
			st.ts["skip"] = flag(x)
			x.report(st, headPos(l), "register:skipped", "an output may not be registered")
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == x.params[2] && exhausted(l, from) && l.inOrder && st.ts["set:"] == nil {
			st.ts["all:"+l.name] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		r := unbox(res[0])
		pt := types.NewPointer(ftyp)
		if r.op != OpAlloc {
			x.report(st, fn.Pos(), "files:result", "the result is not a new target")
			return
		}
		for i, f := range []string{"Target", "In", "Out"} {
			if v := x.load(st, x.fieldAddr(r, pt, f), c.fieldType(pt, f)); x.canon(st, v) != x.params[i] {
				x.report(st, fn.Pos(), "files:field:"+f, "field %s of the new target is %s", f, v)
			}
		}
		if v := st.ts["val"]; v != nil && v != r && unbox(v) != r {
			x.report(st, fn.Pos(), "files:regval", "another target is registered as the producer")
		}
		if len(tsKeys(st, "all:")) == 0 {
			x.report(st, fn.Pos(), "files:notall", "not all outputs are registered")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("registry updates", 1)
}

// checkFileHashes decides for C07 what fileHashes computes.
func checkFileHashes(c *Check) {
	c.rule("fileHashes: for all items, the result has the item's name with a hash of its whole content if it is a file, with a constant if it does not exist, and the same for all entries of a directory; names are sorted")
	fn := c.need("", "fileHashes")
	if fn == nil {
		return
	}
	c.exploreHashes(fn)
	c.atLeast("file hash records", 2)
	c.atLeast("directory recursions", 1)
	c.atLeast("result paths", 1)
}

func statLike(n string) bool { return oneOf(n, "os.Stat", "os.Lstat") }

func (c *Check) exploreHashes(fn *ssa.Function) {
	rule := &Rule{keepArgs: func(n string) bool {
		return oneOf(n, "os.Stat", "os.Lstat", "os.Open", "os.ReadFile", "os.ReadDir", "(*os.File).ReadDir", "(*os.File).Stat") || strings.HasPrefix(n, "fab.")
	}}
	callNamed := func(t *Term, arg *Term, names ...string) bool {
		for _, n := range names {
			if t.op == OpCall && strings.HasPrefix(t.s, n+"@") && len(t.args) > 0 && t.args[0] == arg {
				return true
			}
		}
		return false
	}
	// contentOf tells whether t is the whole content of the named file.
	contentOf := func(t, name *Term) bool {
		if t.isPure("contents") {
			f := t.args[0]
			return f.op == OpExtract && f.i == 0 && callNamed(f.args[0], name, "os.Open")
		}
		return t.op == OpExtract && t.i == 0 && callNamed(t.args[0], name, "os.ReadFile")
	}
	var hashOf func(t, name *Term) bool
	hashOf = func(t, name *Term) bool {
		switch {
		case contentOf(t, name):
			return true
		case t.op == OpPure && oneOf(t.s, "crypto/sha256.Sum224", "crypto/sha256.Sum256", "crypto/sha512.Sum512", "encoding/hex.EncodeToString", "sum") && len(t.args) == 1,
			t.op == OpConv:
			return hashOf(t.args[0], name)
		case t.op == OpSeq && len(t.args) == 2:
			return hashOf(t.args[1].args[0], name)
		case t.op == OpPure && t.s == "fmt.Sprintf":
			if f, ok := t.args[0].strVal(); ok && oneOf(f, "%x", "%X", "%s", "%v") && t.args[1].op == OpSeq && len(t.args[1].args) == 2 {
				return hashOf(unbox(t.args[1].args[1].args[0]), name)
			}
		}
		return false
	}
	missing := func(x *Explorer, st *State, name *Term) bool {
		for f, v := range st.facts {
			if v && f.isPure("errors.Is") && f.args[1].isPure("ErrNotExist") {
				e := f.args[0]
				if e.op == OpExtract && callNamed(e.args[0], name, "os.Stat", "os.Lstat", "os.Open", "os.ReadFile") {
					return true
				}
			}
		}
		return false
	}
	isDir := func(x *Explorer, st *State, name *Term) bool {
		return st.ts["dir:"+strconv.Itoa(int(name.id))] != nil
	}
	// plain tells whether it is known, with links followed, that the name is not one of a directory.
	plain := func(st *State, name *Term) bool { return st.ts["plain:"+strconv.Itoa(int(name.id))] != nil }
	hmap := func(m *Term) bool {
		return m.op == OpMake && strings.HasPrefix(m.s, "map")
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if !hmap(m) || v == nil || !isStringish(v.typOr(types.Typ[types.String])) {
			return
		}
		if v.op == OpStruct || v.isConst() && v.val.Kind() != 4 && !isStrConst(v) {
			return // a set or flags
		}
		c.count("file hash records", 1)
		switch {
		case v.isConst():
			if !missing(x, st, k) {
				st.ts["badconst:"+tid(k)] = k // fine if it ends in failure
			}
			st.ts["did:"+strconv.Itoa(int(k.id))] = k
			return
		case hashOf(v, k):
			if !plain(st, k) {
				x.report(st, ins.Pos(), "record:dir", "%s is hashed as a file where it may be a symbolic link to a directory (what os.Stat says of it is not asked)", k)
			}
		default:
			x.report(st, ins.Pos(), "record:value", "what is recorded for %s is not a hash of its whole content (%s)", k, v)
		}
		st.ts["did:"+strconv.Itoa(int(k.id))] = k
		delete(st.ts, "badconst:"+tid(k))
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		for cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if cond.op == OpPure && (!val && strings.HasSuffix(cond.s, ".IsDir") || val && strings.HasSuffix(cond.s, ".IsRegular")) {
			cond.any(func(t *Term) bool {
				if t.op == OpExtract && t.i == 0 && t.args[0].op == OpCall && strings.HasPrefix(t.args[0].s, "os.Stat@") {
					st.ts["plain:"+strconv.Itoa(int(t.args[0].args[0].id))] = t.args[0].args[0]
				}
				return false
			})
		}
		if val && cond.op == OpPure && strings.HasSuffix(cond.s, ".IsDir") {
			cond.any(func(t *Term) bool {
				if t.op == OpExtract && t.i == 0 && t.args[0].op == OpCall && hasPrefixAny(t.args[0].s, "os.Stat@", "os.Lstat@") {
					st.ts["dir:"+strconv.Itoa(int(t.args[0].args[0].id))] = t.args[0].args[0]
				}
				return false
			})
		}
		if val && cond.op == OpLoad && cond.args[0].op == OpMapHas && hmap(cond.args[0].args[0]) {
			k := cond.args[0].args[1]
			st.ts["did:"+strconv.Itoa(int(k.id))] = k
		}
	}
	consts := func(x *Explorer, st *State) {
		for _, k := range tsKeys(st, "badconst:") {
			x.report(st, fn.Pos(), "record:const", "a constant is recorded for %s, which may exist", st.ts[k])
		}
		tsClear(st, "badconst:")
	}
	isItems := func(x *Explorer, t *Term) bool { return t != nil && t == x.params[0] }
	current := func(x *Explorer, st *State) *Term {
		var item *Term
		for _, f := range st.frames {
			for i := len(f.loops) - 1; i >= 0; i-- {
				if l := f.loops[i]; isItems(x, l.coll) {
					item = x.loopElem(st, l)
				}
			}
		}
		return item
	}
	// entriesOf tells whether t is the list of the entries of the current item.
	entriesOf := func(x *Explorer, st *State, t *Term) bool {
		item := current(x, st)
		return t != nil && item != nil && t.op == OpExtract && t.i == 0 && callNamed(t.args[0], item, "os.ReadDir")
	}
	// entryLoop is the loop over the entries of the current item whose current entry has the path t.
	entryLoop := func(x *Explorer, st *State, j *Term) *loopRec {
		if !j.isPure("path/filepath.Join") || j.args[0].op != OpSeq || len(j.args[0].args) != 3 {
			return nil
		}
		a, b := j.args[0].args[1].args[0], j.args[0].args[2].args[0]
		if a != current(x, st) || b.op != OpPure || !strings.HasSuffix(b.s, ".Name") {
			return nil
		}
		for _, f := range st.frames {
			for _, l := range f.loops {
				if entriesOf(x, st, l.coll) && x.isElemOf(st, l, b.args[0]) {
					return l
				}
			}
		}
		return nil
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if !ev.recursive {
			return
		}
		// A recursion on the entries of a directory. Which item is it for?
		c.count("directory recursions", 1)
		var list *Term
		for i, a := range ev.args {
			if _, ok := ev.sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
				list = a
			}
		}
		if list == nil {
			// a recursion for one entry
			for _, a := range ev.args {
				if l := entryLoop(x, st, a); l != nil {
					st.ts["erec:"+l.name] = flag(x)
					return
				}
			}
			x.report(st, ev.ins.Pos(), "recursion:args", "the recursion is not understood")
			return
		}
		// the item whose entries these are
		item := current(x, st)
		if item == nil {
			x.report(st, ev.ins.Pos(), "recursion:item", "the recursion is not made for an item of the list")
			return
		}
		if !isDir(x, st, item) {
			x.report(st, ev.ins.Pos(), "recursion:file", "the recursion is made for something that need not be a directory")
		}
		st.ts["did:"+strconv.Itoa(int(item.id))] = item
		var entries *Term
		for _, k := range tsKeys(st, "entries:") {
			entries = st.ts[k]
		}
		if entries == nil {
			x.report(st, ev.ins.Pos(), "recursion:entries", "the recursion is not about the entries of a directory")
			return
		}
		x.mapped(st, list, entries, func(body []*Term) bool {
			if len(body) != 1 || body[0].op != OpElem {
				return false
			}
			j := body[0].args[0]
			if !j.isPure("path/filepath.Join") || j.args[0].op != OpSeq || len(j.args[0].args) != 3 {
				return false
			}
			a, b := j.args[0].args[1].args[0], j.args[0].args[2].args[0]
			return a == item && b.op == OpPure && strings.HasSuffix(b.s, ".Name") && b.args[0] == x.elemMark()
		}, func(why string) {
			x.report(st, ev.ins.Pos(), "recursion:list", "the list of a directory's entries is incomplete: %s", why)
		})
	}
	inner := rule.onCall
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.is("os.ReadDir") {
			st.ts["entries:"+strconv.Itoa(int(ev.res.id))] = x.tt.extract(ev.res, 0)
		}
		sortEvent(x, st, ev)
		inner(x, st, ev)
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if entriesOf(x, st, l.coll) && len(tsKeys(st, "erec:")) > 0 || st.ts["eloop:"+l.name] != nil {
			st.ts["eloop:"+l.name] = flag(x)
			if st.ts["erec:"+l.name] == nil || !l.inOrder {
				x.report(st, headPos(l), "entry:skipped", "an entry of a directory may be passed over")
			}
			delete(st.ts, "erec:"+l.name)
		}
		if isItems(x, l.coll) {
			consts(x, st)
			tsClear(st, "eloop:")
			ok := false
			for _, k := range tsKeys(st, "did:") {
				if x.isElemOf(st, l, st.ts[k]) {
					ok = true
				}
			}
			tsClear(st, "did:")
			tsClear(st, "plain:")
			tsClear(st, "entries:")
			tsClear(st, "dir:")
			if !ok {
				x.report(st, headPos(l), "item:skipped", "an item may be passed over")
			}
			if !l.inOrder {
				x.report(st, headPos(l), "item:order", "the loop may miss items")
			}
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if isItems(x, l.coll) && exhausted(l, from) && l.inOrder {
			st.ts["all"] = flag(x)
		}
		if entriesOf(x, st, l.coll) && exhausted(l, from) && (st.ts["eloop:"+l.name] != nil || x.knownTrue(st, x.tt.eq(x.tt.length(l.coll), x.tt.num(0)))) {
			item := current(x, st)
			st.ts["did:"+strconv.Itoa(int(item.id))] = item
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if !x.succeeds(st, res) {
			return
		}
		c.count("result paths", 1)
		consts(x, st)
		if st.ts["all"] == nil && !x.knownTrue(st, x.tt.eq(x.tt.length(x.params[0]), x.tt.num(0))) {
			x.report(st, fn.Pos(), "items:incomplete", "success is returned before all items are examined")
		}
		// the result lists names and hashes
		r := x.canon(st, res[0])
		if r.widened() {
			x.later(func() {
				if len(x.comps[r]) == 0 {
					x.report(st, fn.Pos(), "result:list", "the result is not built from all the names")
				}
				for _, rec := range x.comps[r] {
					if rec.faulty() != "" || len(rec.bodies) == 0 {
						x.report(st, fn.Pos(), "result:list", "the result is not built from all the names")
						return
					}
					x.keysOf(st, rec.coll, hmap, func(why string) {
						x.report(st, fn.Pos(), "result:keys", "the result is not built from the names recorded: %s", why)
					})
					for _, b := range rec.bodies {
						e := x.elemMark()
						name, hash := false, false
						for _, p := range b {
							name = name || p.contains(e) && !p.any(func(t *Term) bool { return t.op == OpMapElem })
							hash = hash || p.any(func(t *Term) bool {
								return t.op == OpLoad && t.args[0].op == OpMapElem && hmap(t.args[0].args[0]) && t.args[0].args[1] == e
							})
						}
						if !name {
							x.report(st, fn.Pos(), "result:name", "the result lacks the names of the files")
						}
						if !hash {
							x.report(st, fn.Pos(), "result:hash", "the result lacks the hashes of the files")
						}
					}
				}
			})
			sorted := x.knownTrue(st, x.tt.pure("sorted", r))
			for _, rec := range x.comps[r] {
				sorted = sorted || isSorted(st, rec.coll)
			}
			if !sorted {
				x.report(st, fn.Pos(), "result:order", "the names are not sorted")
			}
			return
		}
		if e, s := listOf(r); len(e)+len(s) == 0 || r.op == OpMake && len(r.args) > 0 && r.args[0].isInt(0) {
			return // no names: the loop over them ended at once
		}
		x.report(st, fn.Pos(), "result:shape", "the result (%s) is not understood", r)
	}
	c.explore(fn, rule, nil, nil)
}

func isStrConst(t *Term) bool { _, ok := t.strVal(); return ok }

// targetTypes are the built-in target types: pointers to structs.
func (c *Check) targetTypes() []types.Type {
	var out []types.Type
	for _, t := range c.p.impls {
		if pt, ok := t.(*types.Pointer); ok && structOf(pt.Elem()) != nil {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return shortTypeQ(out[i]) < shortTypeQ(out[j]) })
	return out
}

func hasMethod(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	for _, n := range names {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}

// checkSettingsVisible: the settings of targets are visible to the JSON encoder (C07).
func checkSettingsVisible(c *Check) {
	c.rule("every field that the Run method of a target type reads is visible to the JSON encoder, unless it is a function, a writer or a reader explicitly excluded")
	c.rule("target types that can be nested have distinguishable JSON encodings")
	sigs := map[string]types.Type{}
	for _, t := range c.targetTypes() {
		if hasMethod(t, "MarshalJSON", "MarshalText") {
			continue
		}
		st := structOf(t.(*types.Pointer).Elem())
		n := named(t)
		run := c.p.method(t, "Run")
		if run == nil {
			c.undecided("run:"+shortType(t), "no Run method of %s", shortType(t))
			continue
		}
		c.count("target types", 1)
		used := c.p.fieldsReadUnder(run, n)
		var sig []string
		onlyFunc := st.NumFields() > 0
		for i := 0; i < st.NumFields(); i++ {
			if !isFuncOrStream(st.Field(i).Type()) {
				onlyFunc = false
			}
		}
		if onlyFunc {
			continue // documented not to be encodable
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			name, vis := jsonName(st, i)
			if vis && !strings.Contains(reflect.StructTag(st.Tag(i)).Get("json"), ",omitempty") {
				sig = append(sig, strings.ToLower(name))
			}
			if vis || !used[i] {
				continue
			}
			if isFuncOrStream(f.Type()) || isSync(f.Type()) {
				continue
			}
			c.violate(c.p.posStr(f.Pos()), "hidden:"+shortType(t)+"."+f.Name(), nil, "%s.%s influences what the target does but is not part of its encoding, and so not of the hash", shortType(t), f.Name())
		}
		sort.Strings(sig)
		if !isPkgRoot(n) {
			continue
		}
		k := strings.Join(sig, ",")
		if o, ok := sigs[k]; ok && st.NumFields() > 0 {
			c.fail("ambiguous:"+k, "nested targets of types %s and %s cannot be told apart in the encoding", shortType(o), shortType(t))
		}
		sigs[k] = t
	}
	c.atLeast("target types", 6)
}

func isPkgRoot(n *types.Named) bool {
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func isSync(t types.Type) bool {
	n := named(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

func isFuncOrStream(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Interface:
		ms := types.NewMethodSet(t)
		return u.NumMethods() > 0 && (ms.Lookup(nil, "Write") != nil || ms.Lookup(nil, "Read") != nil)
	}
	return false
}

// fieldsReadUnder lists the fields of n that are read by fn and what it calls within the module.
func (p *Program) fieldsReadUnder(fn *ssa.Function, n *types.Named) map[int]bool {
	out := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !isModPath(fnPkgPath(f)) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if named(in.X.Type()) == n {
						out[in.Field] = true
					}
				case *ssa.Field:
					if named(in.X.Type()) == n {
						out[in.Field] = true
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return out
}

// checkResolution: before the encoding, references in all kinds of targets that contain targets are resolved recursively (C07).
func checkResolution(c *Check) {
	c.rule("for every target type with fields that hold targets: before a hash is computed, each of these targets is visited recursively, and a reference by name is resolved and what it denotes visited")
	fn := c.need("", "files.Run")
	tgt := c.namedType("", "Target")
	if fn == nil || tgt == nil {
		return
	}
	ft := recvType(fn)
	for _, t := range c.targetTypes() {
		st := structOf(t.(*types.Pointer).Elem())
		var single, multi []int
		for i := 0; i < st.NumFields(); i++ {
			switch ftt := st.Field(i).Type(); {
			case types.Identical(ftt, tgt):
				single = append(single, i)
			default:
				if sl, ok := ftt.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), tgt) {
					multi = append(multi, i)
				}
			}
		}
		if len(single)+len(multi) == 0 {
			continue
		}
		c.count("composite target types", 1)
		tname := shortType(t)
		var inner *Term
		deferred := named(t).Obj().Name() == "deferredResolutionTarget"
		rule := &Rule{stop: stopAt(nRun, nDescribe, nIndentf, nHashes, nFind, "(*fab.Controller).RegistryTarget"), keepArgs: func(n string) bool { return n == "(*fab.Controller).RegistryTarget" }}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			if ev.recursive {
				if e := ev.errResult(x); e != nil {
					for _, a := range ev.args {
						st.ts["vis:"+strconv.Itoa(int(a.id))] = x.tt.mk(Term{op: OpTuple, args: []*Term{a, e}})
					}
				}
			}
			if !ev.is(nHas, nAdd) {
				return
			}
			c.count("hash uses per composite type", 1)
			visited := func(m func(*Term) bool) bool {
				for _, k := range tsKeys(st, "vis:") {
					t := st.ts[k]
					if m(t.args[0]) && x.knownNil(st, t.args[1]) {
						return true
					}
				}
				return false
			}
			if deferred {
				if !visited(func(t *Term) bool {
					return isFieldOf(t, inner, "Target") || t.op == OpExtract && t.i == 0 && strings.HasPrefix(t.args[0].s, "(*fab.Controller).RegistryTarget") && len(t.args[0].args) > 1 && isFieldOf(t.args[0].args[1], inner, "Name")
				}) {
					x.report(st, ev.ins.Pos(), "unresolved:"+tname, "a hash is computed although a %s may not have been resolved", tname)
				}
				return
			}
			for _, i := range single {
				if !visited(func(t *Term) bool { return isFieldOf(t, inner, structOf(named(inner.typ)).Field(i).Name()) }) {
					x.report(st, ev.ins.Pos(), "unvisited:"+tname+"."+strconv.Itoa(i), "a hash is computed although references inside %s may not have been resolved", tname)
				}
			}
			for _, i := range multi {
				n := structOf(named(inner.typ)).Field(i).Name()
				if d := st.ts["done:"+n]; (d == nil || d != flag(x) && !x.knownNil(st, d)) && !emptyField(st, inner, n) {
					x.report(st, ev.ins.Pos(), "unvisited:"+tname+"."+n, "a hash is computed although references inside %s may not have been resolved", tname)
				}
			}
		}
		coll := func(l *loopRec) string {
			for _, i := range multi {
				n := structOf(named(inner.typ)).Field(i).Name()
				if isFieldOf(l.coll, inner, n) {
					return n
				}
			}
			return ""
		}
		rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			if coll(l) == "" {
				return
			}
			ok := false
			prov := st.ts["prov"]
			if prov != nil && !x.knownNil(st, prov) {
				x.report(st, headPos(l), "element:"+tname, "an element of a %s may not be visited", tname)
			}
			delete(st.ts, "prov")
			for _, k := range tsKeys(st, "vis:") {
				t := st.ts[k]
				if !x.isElemOf(st, l, t.args[0]) {
					continue
				}
				if x.knownNil(st, t.args[1]) {
					ok = true
				}
				for _, v := range news {
					if !ok && v.contains(t.args[1]) {
						st.ts["prov"] = v // looked at before the next iteration
						ok = true
					}
				}
			}
			tsClear(st, "vis:")
			if !ok {
				x.report(st, headPos(l), "element:"+tname, "an element of a %s may not be visited", tname)
			}
		}
		rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			if n := coll(l); n != "" && exhausted(l, from) && l.inOrder {
				st.ts["done:"+n] = flag(x)
				if p := st.ts["prov"]; p != nil {
					st.ts["done:"+n] = p
				}
			}
		}
		rule.onWiden = func(x *Explorer, st *State, l *loopRec, from, to *Term) {
			if from == st.ts["prov"] && coll(l) != "" {
				st.ts["prov"] = to
			}
		}
		x := c.explorer(rule)
		self := x.param("self", ft)
		inner = x.param("inner", t)
		args := []*Term{self, x.param("ctx", fn.Params[1].Type()), x.param("con", fn.Params[2].Type())}
		x.run(fn, args, func(st *State) {
			st.heap[x.fieldAddr(self, ft, "Target")] = x.makeIface(inner, t)
			in := x.load(st, x.fieldAddr(self, ft, "In"), c.fieldType(ft, "In"))
			x.assume(st, x.tt.eq(x.tt.length(in), x.tt.num(0)), true)
			x.assume(st, x.tt.pure("fab.GetDryRun", args[1]), false)
			x.assume(st, x.tt.eq(x.tt.pure("fab.GetHashDB", args[1]), x.tt.null()), false)
		})
		c.account(x, fn)
	}
	c.atLeast("composite target types", 4)
	c.atLeast("hash uses per composite type", 8)
}
