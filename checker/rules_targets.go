package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "Typestate and for-all loop obligations over every path of the constructors and Run methods of the composite targets, and dataflow of failures into their results.", func(c *Check) {
		checkComposites(c)
		checkControllerRun(c)
		c.errorDiscipline()
	})
	register("C09", "Effect analysis: every path of the Run method of every target type of the module under the assumption that the context is in dry-run mode.", checkDryRun)
	register("C20", "Dataflow of the names passed to os.Remove back to the list and registry they come from, for-all loop obligations, and mutation analysis of the receiver.", func(c *Check) {
		checkClean(c)
		checkAutoclean(c)
		c.errorDiscipline()
	})
}

// paramField finds the field of the struct at p that holds the given parameter.
func (c *Check) paramField(x *Explorer, st *State, p *Term, param *Term) string {
	pt, ok := p.typ.(*types.Pointer)
	if !ok {
		return ""
	}
	s := structOf(pt.Elem())
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		v := x.canon(st, x.load(st, x.tt.field(p, i, pt), s.Field(i).Type()))
		if v == param || copied(v) == param {
			return s.Field(i).Name()
		}
	}
	return ""
}

// wholeField tells whether the list given to a call is the whole of field f of p.
func wholeField(t, p *Term, f string) bool {
	return isFieldOf(copied(t), p, f)
}

// composite describes a target type made by a constructor.
type composite struct {
	typ    types.Type // pointer to struct
	run    *ssa.Function
	fields map[int]string // by parameter of the constructor
}

// constructed explores a constructor.
func (c *Check) constructed(name string) *composite {
	fn := c.need("", name)
	if fn == nil {
		return nil
	}
	var cp *composite
	rule := &Rule{}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		r := unbox(res[0])
		if r.op != OpAlloc {
			x.report(st, fn.Pos(), "new:"+name, "%s does not return a new target", name)
			return
		}
		n := &composite{typ: r.typ, fields: map[int]string{}}
		n.run = c.p.method(r.typ, "Run")
		for i, p := range x.params {
			f := c.paramField(x, st, r, p)
			if f == "" {
				x.report(st, fn.Pos(), "new:"+name, "parameter %s of %s is not kept in the target", p, name)
				continue
			}
			n.fields[i] = f
		}
		if cp != nil && (!types.Identical(cp.typ, n.typ) || len(cp.fields) != len(n.fields)) {
			x.report(st, fn.Pos(), "new:"+name, "%s makes targets of different types", name)
		}
		cp = n
	}
	c.explore(fn, rule, nil, nil)
	if cp == nil || cp.run == nil || len(cp.fields) != len(fn.Params) {
		c.undecided("new:"+name, "the target made by %s is not understood", name)
		return nil
	}
	c.count("constructors", 1)
	return cp
}

// targetArgs checks the controller and context given to Controller.Run in a Run method, and returns the targets.
func (c *Check) targetArgs(x *Explorer, st *State, ev *CallEvent, wantArgs bool) (elems, spreads []*Term) {
	if ev.args[0] != x.params[2] {
		x.report(st, ev.ins.Pos(), "controller", "parts are run by another controller")
	}
	if !ctxFrom(ev.args[1], x.params[1]) {
		x.report(st, ev.ins.Pos(), "context", "parts are run in an unrelated context")
	}
	for t := ev.args[1]; t.op == OpPure && len(t.args) > 0; t = t.args[0] {
		if oneOf(t.s, "fab.WithDryRun", "fab.WithForce", "fab.WithHashDB", "fab.WithVerbose") || t.s == "fab.WithArgs" && !wantArgs {
			x.report(st, ev.ins.Pos(), "context", "parts are run with other settings (%s)", t.s)
		}
	}
	if ev.kind != frCall {
		x.report(st, ev.ins.Pos(), "async", "the parts are not waited for")
	}
	return listOf(ev.args[2])
}

func checkComposites(c *Check) {
	c.rule("Seq: one controller request per element of the list, in order, each after the previous one is known to have succeeded; success only after the last")
	c.rule("All: one controller request for the whole list; Deps: Seq of All of the dependencies and the target")
	c.rule("ArgTarget: one request for its target in a context with its arguments; F: its function is called with the context and controller; a named reference: one request for the registered target of that name")
	sq, al, at := c.constructed("Seq"), c.constructed("All"), c.constructed("ArgTarget")
	stop := stopAt(nRun, nDescribe, nIndentf)
	failure := func(x *Explorer, st *State, fn *ssa.Function, res []*Term) bool { // whether a failure is returned rightly
		r := last(res)
		if x.knownNonNil(st, r) {
			for _, k := range tsKeys(st, "err:") {
				if e := st.ts[k]; r.contains(e) && !x.knownNil(st, e) {
					return true
				}
			}
			if st.ts["unresolved"] != nil {
				return true
			}
			x.report(st, fn.Pos(), "failure:"+fnName(fn), "%s returns an error although no part failed", fnName(fn))
			return true
		}
		return false
	}
	if sq != nil {
		f := sq.fields[0]
		rule := &Rule{stop: stop}
		isLoop := func(x *Explorer, l *loopRec) bool { return l.coll != nil && isFieldOf(copied(l.coll), x.params[0], f) }
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			if !ev.is(nRun) {
				return
			}
			c.count("requests in Seq", 1)
			for _, e := range mustNil(x, st) {
				x.report(st, ev.ins.Pos(), "seq:continued", "the next part is run although the previous one may have failed (%s)", e)
			}
			pend(x, st, ev)
			elems, spreads := c.targetArgs(x, st, ev, false)
			var cur *loopRec
			for _, fr := range st.frames {
				for _, l := range fr.loops {
					if isLoop(x, l) {
						cur = l
					}
				}
			}
			if len(spreads) > 0 || len(elems) != 1 || cur == nil || !x.isElemOf(st, cur, elems[0]) {
				x.report(st, ev.ins.Pos(), "seq:what", "what is run is not one element of the list, in order")
				return
			}
			if st.ts["did"] != nil {
				x.report(st, ev.ins.Pos(), "seq:twice", "an element is requested twice")
			}
			st.ts["did"] = flag(x)
		}
		rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			if !isLoop(x, l) {
				return
			}
			if st.ts["did"] == nil {
				x.report(st, headPos(l), "seq:skipped", "an element may be skipped")
			}
			if !l.inOrder {
				x.report(st, headPos(l), "seq:order", "the elements are not taken in order")
			}
			delete(st.ts, "did")
			pendBack(x, st, l)
		}
		rule.onWiden = func(x *Explorer, st *State, l *loopRec, from, to *Term) { pendWiden(st, from, to) }
		rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			if isLoop(x, l) && exhausted(l, from) && l.inOrder {
				st.ts["all"] = flag(x)
			}
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			if failure(x, st, sq.run, res) || !x.succeeds(st, res) {
				return
			}
			for _, e := range mustNil(x, st) {
				x.report(st, sq.run.Pos(), "seq:lost", "success may be returned although a part failed (%s)", e)
			}
			list := x.load(st, x.fieldAddr(x.params[0], sq.typ, f), c.fieldType(sq.typ, f))
			if st.ts["all"] == nil && !x.knownTrue(st, x.tt.eq(x.tt.length(list), x.tt.num(0))) {
				x.report(st, sq.run.Pos(), "seq:notall", "success may be returned before all parts have run")
			}
		}
		c.explore(sq.run, rule, nil, nil)
		c.atLeast("requests in Seq", 1)
	}
	once := func(what string, cp *composite, wantArgs bool, good func(x *Explorer, st *State, ev *CallEvent, elems, spreads []*Term) bool, none func(x *Explorer, st *State) bool) {
		rule := &Rule{stop: stop}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			if !ev.is(nRun) {
				return
			}
			c.count("requests in "+what, 1)
			pend(x, st, ev)
			elems, spreads := c.targetArgs(x, st, ev, wantArgs)
			if !good(x, st, ev, elems, spreads) {
				x.report(st, ev.ins.Pos(), what+":what", "%s does not request what it should", what)
			}
			if st.ts["did"] != nil {
				x.report(st, ev.ins.Pos(), what+":twice", "%s makes more than one request", what)
			}
			st.ts["did"] = flag(x)
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			if failure(x, st, cp.run, res) || !x.succeeds(st, res) {
				return
			}
			for _, e := range mustNil(x, st) {
				x.report(st, cp.run.Pos(), what+":lost", "success may be returned although a part failed (%s)", e)
			}
			if st.ts["did"] == nil && !none(x, st) {
				x.report(st, cp.run.Pos(), what+":notrun", "success may be returned without running the parts")
			}
		}
		c.explore(cp.run, rule, nil, nil)
		c.atLeast("requests in "+what, 1)
	}
	if al != nil {
		f := al.fields[0]
		empty := func(x *Explorer, st *State) bool {
			list := x.load(st, x.fieldAddr(x.params[0], al.typ, f), c.fieldType(al.typ, f))
			return x.knownTrue(st, x.tt.eq(x.tt.length(list), x.tt.num(0)))
		}
		once("All", al, false, func(x *Explorer, st *State, ev *CallEvent, elems, spreads []*Term) bool {
			list := x.load(st, x.fieldAddr(x.params[0], al.typ, f), c.fieldType(al.typ, f))
			if len(elems)+len(spreads) == 0 {
				return empty(x, st)
			}
			good := true
			x.mapped(st, ev.args[2], list, func(body []*Term) bool {
				return len(body) == 1 && body[0].op == OpElem && body[0].args[0] == x.elemMark()
			}, func(why string) {
				if len(elems) == 0 && len(spreads) == 1 && wholeField(spreads[0], x.params[0], f) {
					return
				}
				x.report(st, ev.ins.Pos(), "All:list", "not all parts are requested: %s", why)
			})
			return good
		}, empty)
	}
	if at != nil {
		never := func(x *Explorer, st *State) bool { return false }
		once("ArgTarget", at, true, func(x *Explorer, st *State, ev *CallEvent, elems, spreads []*Term) bool {
			ctx := ev.args[1]
			if !ctx.isPure("fab.WithArgs") || len(ctx.args) < 2 || !wholeField(x.canon(st, ctx.args[1]), x.params[0], at.fields[1]) {
				x.report(st, ev.ins.Pos(), "ArgTarget:args", "the target does not get exactly the arguments given")
			}
			return len(spreads) == 0 && len(elems) == 1 && isFieldOf(elems[0], x.params[0], at.fields[0])
		}, never)
	}
	// Deps
	if sq != nil && al != nil {
		if fn := c.need("", "Deps"); fn != nil {
			rule := &Rule{}
			rule.onExit = func(x *Explorer, st *State, res []*Term) {
				r := unbox(res[0])
				bad := func() {
					x.report(st, fn.Pos(), "Deps:shape", "Deps does not make a sequence of all dependencies and then the target")
				}
				if r.op != OpAlloc || !types.Identical(r.typ, sq.typ) {
					bad()
					return
				}
				elems, spreads := listOf(x.canon(st, x.load(st, x.fieldAddr(r, sq.typ, sq.fields[0]), c.fieldType(sq.typ, sq.fields[0]))))
				if len(spreads) > 0 || len(elems) == 0 || elems[len(elems)-1] != x.params[0] {
					bad()
					return
				}
				if len(elems) == 1 {
					if !x.knownTrue(st, x.tt.eq(x.tt.length(x.params[1]), x.tt.num(0))) {
						bad()
					}
					return
				}
				a := unbox(elems[0])
				if len(elems) != 2 || a.op != OpAlloc || !types.Identical(a.typ, al.typ) {
					bad()
					return
				}
				v := x.canon(st, x.load(st, x.fieldAddr(a, al.typ, al.fields[0]), c.fieldType(al.typ, al.fields[0])))
				if v != x.params[1] && copied(v) != x.params[1] {
					bad()
				}
				c.count("Deps results", 1)
			}
			c.explore(fn, rule, nil, nil)
			c.atLeast("Deps results", 1)
		}
	}
	checkFTarget(c)
	checkReference(c, stop, failure)
}

// checkFTarget: F runs the function it was given.
func checkFTarget(c *Check) {
	f := c.constructed("F")
	if f == nil {
		return
	}
	rule := &Rule{stop: stopAt(nRun, nDescribe, nIndentf)}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name != "dynamic" {
			return
		}
		c.count("calls in F", 1)
		if !isFieldOf(ev.clo, x.params[0], f.fields[0]) || st.ts["did"] != nil {
			x.report(st, ev.ins.Pos(), "F:what", "F does not call its function once")
		}
		if len(ev.args) != 2 || !ctxFrom(ev.args[0], x.params[1]) || ev.args[1] != x.params[2] {
			x.report(st, ev.ins.Pos(), "F:args", "the function is not given the context and controller")
		}
		st.ts["did"] = ev.res
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		e := st.ts["did"]
		if e == nil {
			x.report(st, f.run.Pos(), "F:notrun", "F may return without calling its function")
			return
		}
		if r := last(res); !r.contains(e) && !(x.knownNil(st, e) && x.knownNil(st, r)) {
			x.report(st, f.run.Pos(), "F:result", "the function's error is not returned")
		}
	}
	c.explore(f.run, rule, nil, nil)
	c.atLeast("calls in F", 1)
}

const nRegTarget = "(*fab.Controller).RegistryTarget"

// checkReference: a reference by name runs the target registered under the name.
func checkReference(c *Check, stop func(x *Explorer, name string, fn *ssa.Function) bool, failure func(x *Explorer, st *State, fn *ssa.Function, res []*Term) bool) {
	dt := c.namedType("", "deferredResolutionTarget")
	if dt == nil {
		return
	}
	pt := types.NewPointer(dt)
	run := c.p.method(pt, "Run")
	cache := ""
	s := structOf(dt)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), c.namedType("", "Target")) {
			cache = s.Field(i).Name()
		}
	}
	rule := &Rule{keepArgs: func(n string) bool { return n == nRegTarget }}
	rule.stop = func(x *Explorer, name string, fn *ssa.Function) bool {
		return stop(x, name, fn) || name == nRegTarget
	}
	looked := func(x *Explorer, t *Term) bool {
		return t.op == OpExtract && t.i == 0 && t.args[0].op == OpCall && strings.HasPrefix(t.args[0].s, nRegTarget+"@") &&
			t.args[0].args[0] == x.params[2] && isFieldOf(t.args[0].args[1], x.params[0], "Name")
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if addr.op != OpField || addr.args[0] != x.params[0] {
			return
		}
		n := fieldName(addr.typ, addr.i)
		switch {
		case n == cache:
			if !looked(x, val) && !val.isNil() {
				x.report(st, ins.Pos(), "ref:cache", "a reference is resolved to something other than the registered target of its name (%s)", val)
			}
		case n == "Name":
			x.report(st, ins.Pos(), "ref:name", "the name of a reference is changed")
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.is(nRegTarget):
			st.ts["unresolved"] = flag(x)
		case ev.is(nRun):
			c.count("requests of references", 1)
			pend(x, st, ev)
			delete(st.ts, "unresolved")
			elems, spreads := c.targetArgs(x, st, ev, false)
			if len(spreads) > 0 || len(elems) != 1 || !(looked(x, elems[0]) || isFieldOf(elems[0], x.params[0], cache)) {
				x.report(st, ev.ins.Pos(), "ref:what", "a reference runs something other than the registered target of its name")
			} else if !x.knownNonNil(st, elems[0]) {
				x.report(st, ev.ins.Pos(), "ref:nil", "a reference runs a target that may not have been found")
			}
			if st.ts["did"] != nil {
				x.report(st, ev.ins.Pos(), "ref:twice", "a reference makes more than one request")
			}
			st.ts["did"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if failure(x, st, run, res) || !x.succeeds(st, res) {
			return
		}
		for _, e := range mustNil(x, st) {
			x.report(st, run.Pos(), "ref:lost", "success may be returned although the target failed (%s)", e)
		}
		if st.ts["did"] == nil {
			x.report(st, run.Pos(), "ref:notrun", "success may be returned without running the target")
		}
	}
	c.explore(run, rule, nil, nil)
	c.atLeast("requests of references", 1)
}

// --- C09 ---

// effectful names operations outside the module that change something outside the process.
func effectful(ev *CallEvent) string {
	n := ev.name
	switch {
	case hasPrefixAny(n, "os.Create", "os.WriteFile", "os.Remove", "os.Rename", "os.Mkdir", "os.Chmod", "os.Chown", "os.Chtimes", "os.Truncate", "os.Symlink", "os.Link", "os.StartProcess", "os.CopyFS", "os.Lchown",
		"io/ioutil.WriteFile", "io/ioutil.Temp", "(*os.File).Write", "(*os.File).Truncate", "(*os.File).Chmod", "(*os.Process)", "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "syscall.", "golang.org/x/sys"):
		if n == "(*os.File).Write" || n == "(*os.File).WriteString" {
			if g := ev.args[0]; g.op == OpLoad && g.args[0].op == OpGlobal {
				return ""
			}
		}
		return "changes the file system or the process"
	case n == "os.OpenFile":
		if fl, ok := ev.args[1].intVal(); !ok || fl&^0x80000 != 0 {
			return "may open a file for writing"
		}
	case hasPrefixAny(n, "(*os/exec.Cmd)."):
		if oneOf(strings.TrimPrefix(n, "(*os/exec.Cmd)."), "Run", "Start", "Output", "CombinedOutput", "StdinPipe", "StdoutPipe", "StderrPipe", "Wait") {
			return "starts a subprocess"
		}
	case hasPrefixAny(n, "(*database/sql.", "database/sql.", "net.", "net/"):
		return "uses a database or the network"
	case hasPrefixAny(n, "invoke github.com/bobg/fab.HashDB."):
		return "uses the hash database"
	case n == "dynamic":
		return "calls unknown code"
	}
	return ""
}

// harmless lists the packages that are not part of the standard library and whose functions have no effects outside the process.
func harmlessPkg(n string) bool {
	n = strings.TrimLeft(n, "(*")
	n = strings.TrimPrefix(n, "invoke ")
	return hasPrefixAny(n, "errors.", "generics/", "gopkg.in/yaml.v3", "github.com/bobg/errors", "github.com/gibson042/canonicaljson-go", "golang.org/x/exp/", "fab")
}

func isStdName(n string) bool {
	n = strings.TrimPrefix(n, "invoke ")
	n = strings.TrimLeft(n, "(*")
	first, _, _ := strings.Cut(n, "/")
	return !strings.Contains(first, ".") || strings.Index(first, ".") > 0 && !strings.Contains(n, "/")
}

func checkDryRun(c *Check) {
	c.rule("for every target type of the module and every path of its Run method in dry-run mode: no call of an operation that changes files, starts a process, or uses the hash database")
	c.rule("for every target type with fields that hold targets: every path to success in dry-run mode requests them from the controller in a context that is still in dry-run mode")
	tgt := c.namedType("", "Target")
	n := 0
	for _, t := range c.p.impls {
		run := c.p.method(t, "Run")
		if run == nil || run.Blocks == nil {
			continue
		}
		if userCode(c, t) {
			c.notes = append(c.notes, "the function run by "+shortType(t)+" is user code")
			continue
		}
		n++
		c.count("target types", 1)
		tname := shortType(t)
		var single, multi []string
		if s := structOf(deref(t)); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				switch ft := s.Field(i).Type(); {
				case types.Identical(ft, tgt):
					single = append(single, s.Field(i).Name())
				default:
					if sl, ok := ft.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), tgt) {
						multi = append(multi, s.Field(i).Name())
					}
				}
			}
		}
		rule := &Rule{stop: stopAt(nRun, nDescribe, nIndentf, nRegTarget, nFind), keepArgs: func(n string) bool { return n == nRegTarget }}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			c.count("calls examined in dry-run mode", 1)
			if ev.is(nRun) {
				ctx := ev.args[1]
				dry := false
				for {
					if ctx == x.params[1] {
						dry = true
						break
					}
					if ctx.isPure("fab.WithDryRun") {
						dry = ctx.args[1].isTrue() || x.knownTrue(st, ctx.args[1])
						break
					}
					if ctx.op != OpPure || len(ctx.args) == 0 || !ctxFrom(ctx, ctx.args[0]) {
						break
					}
					ctx = ctx.args[0]
				}
				if !dry {
					x.report(st, ev.ins.Pos(), "mode:"+tname, "%s runs targets without dry-run mode", tname)
				}
				elems, spreads := listOf(ev.args[2])
				for _, f := range single {
					for _, e := range elems {
						if isFieldOf(e, x.params[0], f) || e.op == OpExtract && strings.HasPrefix(e.args[0].s, nRegTarget) {
							st.ts["vis:"+f] = flag(x)
						}
					}
				}
				for _, f := range multi {
					for _, s := range spreads {
						if wholeField(s, x.params[0], f) || s.op == OpPhi || s.op == OpMake {
							st.ts["vis:"+f] = flag(x)
						}
					}
					for _, fr := range st.frames {
						for _, l := range fr.loops {
							if l.coll != nil && wholeField(l.coll, x.params[0], f) && len(elems) == 1 && x.isElemOf(st, l, elems[0]) {
								st.ts["it:"+f] = flag(x)
							}
						}
					}
				}
				st.ts["err:"+tid(ev.res)] = ev.res
				return
			}
			why := effectful(ev)
			if why == "" && ev.fn == nil && ev.recv != nil && hasPrefixAny(ev.name, "invoke github.com/bobg/fab.Target.Run") {
				why = "runs a target directly"
			}
			if why == "" && !isStdName(ev.name) && !harmlessPkg(ev.name) {
				why = "calls into another module"
			}
			if why != "" {
				x.report(st, ev.ins.Pos(), "effect:"+tname+":"+ev.name, "%s in dry-run mode: %s %s", tname, ev.name, why)
			}
		}
		rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			for _, f := range multi {
				if l.coll != nil && wholeField(l.coll, x.params[0], f) {
					if st.ts["it:"+f] == nil {
						st.ts["missed:"+f] = flag(x)
					}
					delete(st.ts, "it:"+f)
				}
			}
		}
		rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			for _, f := range multi {
				if l.coll != nil && wholeField(l.coll, x.params[0], f) && exhausted(l, from) && l.inOrder && st.ts["missed:"+f] == nil {
					st.ts["vis:"+f] = flag(x)
				}
			}
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			if x.knownNonNil(st, last(res)) || !x.succeeds(st, res) {
				return
			}
			for _, f := range append(append([]string(nil), single...), multi...) {
				if st.ts["vis:"+f] != nil {
					continue
				}
				v := x.load(st, x.fieldAddr(x.params[0], ptrOf(t), f), c.fieldType(t, f))
				if x.knownNil(st, v) || x.knownTrue(st, x.tt.eq(x.tt.length(v), x.tt.num(0))) {
					continue
				}
				x.report(st, run.Pos(), "novisit:"+tname+"."+f, "%s may succeed in dry-run mode without visiting its %s", tname, f)
			}
		}
		x := c.explorer(rule)
		c.exploreWith(x, run, nil, func(x *Explorer, st *State) {
			x.assume(st, x.tt.pure("fab.GetDryRun", x.params[1]), true)
		})
	}
	if n < 7 {
		c.undecided("few:targets", "only %d target types were found", n)
	}
	c.atLeast("calls examined in dry-run mode", 20)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func ptrOf(t types.Type) types.Type {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return t
	}
	return types.NewPointer(t)
}

// userCode tells whether a target type is nothing but a function given by the user.
func userCode(c *Check, t types.Type) bool {
	s := structOf(deref(t))
	if s == nil || s.NumFields() != 1 {
		return false
	}
	_, ok := s.Field(0).Type().Underlying().(*types.Signature)
	return ok
}

// --- C20 ---

const autocleanVar = "autocleanRegistry"

// isAutoclean tells whether m is the set of autoclean files.
func isAutoclean(m *Term) bool {
	return m.op == OpLoad && m.args[0].op == OpGlobal && m.args[0].glob.Name() == autocleanVar
}

// keysOf checks that list consists of the keys of a map.
func (x *Explorer) keysOf(st *State, list *Term, match func(m *Term) bool, bad func(why string)) {
	if list.isPure("keys") {
		if !match(list.args[0]) {
			bad("they are the keys of something else")
		}
		return
	}
	if !list.widened() {
		bad("they are not the keys of the registry: " + list.String())
		return
	}
	x.later(func() {
		recs := x.comps[list]
		if len(recs) == 0 {
			bad("they are not collected in a loop over the registry")
		}
		for _, r := range recs {
			if r.coll == nil || !r.isMap || !match(r.coll) {
				bad("they are not collected in a loop over the registry")
				return
			}
			if r.lost || r.skipped {
				bad("some are left out")
				return
			}
			for _, b := range r.bodies {
				if len(b) != 1 || b[0].op != OpElem || b[0].args[0] != x.elemMark() {
					bad("they are not the names in the registry")
					return
				}
			}
		}
	})
}

func checkClean(c *Check) {
	c.rule("every name passed to os.Remove is an element of a list made of the field Files and, only if the option is known to be set, the names in the autoclean registry")
	c.rule("success outside dry-run mode: for all elements of such lists, which together cover Files and (if the option is set) the registry, os.Remove was called and succeeded or found nothing")
	c.rule("Run does not store to, sort or append to anything reachable from the receiver")
	ct := c.namedType("", "Clean")
	if ct == nil {
		return
	}
	pt := types.NewPointer(ct)
	run := c.p.method(pt, "Run")
	if run == nil {
		c.undecided("anchor:Clean.Run", "Clean.Run is not found")
		return
	}
	stop := stopAt(nIndentf, nDescribe)
	isFiles := func(x *Explorer, t *Term) bool { return isFieldOf(copied(t), x.params[0], "Files") }
	optKnown := func(x *Explorer, st *State) (bool, bool) {
		return x.decide(st, x.load(st, x.fieldAddr(x.params[0], pt, "Autoclean"), types.Typ[types.Bool]))
	}
	// what a list consists of
	var source func(x *Explorer, st *State, pos tokenPos, list *Term) (files, auto bool)
	source = func(x *Explorer, st *State, pos tokenPos, list *Term) (files, auto bool) {
		e, s := listOf(x.canon(st, list))
		for range e {
			x.report(st, pos, "clean:other", "a file is removed that is neither in Files nor in the registry")
		}
		for _, l := range s {
			if isFiles(x, l) {
				files = true
				continue
			}
			if v, ok := optKnown(x, st); !ok || !v {
				x.report(st, pos, "clean:option", "files other than those in Files may be removed although Autoclean is not set")
			}
			auto = true
			if l.widened() {
				for _, r := range x.comps[l] {
					if r.init != nil && len(x.parts(st, r.init)) > 0 {
						f, _ := source(x, st, pos, r.init)
						files = files || f
					}
				}
			}
			x.keysOf(st, l, isAutoclean, func(why string) {
				x.report(st, pos, "clean:other", "files are removed that are neither in Files nor in the registry: %s", why)
			})
		}
		return
	}
	startsWithFiles := func(x *Explorer, st *State, t *Term) bool {
		for _, r := range x.comps[t] {
			if r.init == nil {
				continue
			}
			_, s := listOf(x.canon(st, r.init))
			for _, l := range s {
				if isFiles(x, l) {
					return true
				}
			}
		}
		return false
	}
	owned := func(x *Explorer, t *Term) bool {
		for {
			switch t.op {
			case OpSeq:
				t = t.args[0]
				continue
			case OpSub, OpArr:
				t = t.args[0]
				continue
			case OpLoad:
				return objRoot(t.args[0]) == x.params[0] || owned2(x, t.args[0])
			}
			return t == x.params[0]
		}
	}
	rule := &Rule{stop: stop}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		r := objRoot(addr)
		if r == x.params[0] || (r.op == OpLoad || r.op == OpSeq) && owned(x, r) {
			x.report(st, ins.Pos(), "clean:mutates", "running Clean changes the target")
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case hasPrefixAny(ev.name, "sort.", "slices.Sort", "slices.Reverse", "slices.Compact", "slices.Delete", "golang.org/x/exp/slices.", "generics/slices."):
			if len(ev.raw) > 0 && owned(x, unbox(ev.raw[0])) {
				x.report(st, ev.ins.Pos(), "clean:mutates", "running Clean changes the list of files of the target (%s)", ev.name)
			}
		case hasPrefixAny(ev.name, "os.Remove", "os.Rename", "os.Truncate", "os.WriteFile", "os.Create", "syscall."):
			c.count("removals", 1)
			if ev.name != "os.Remove" {
				x.report(st, ev.ins.Pos(), "clean:call", "Clean calls %s", ev.name)
				return
			}
			if ev.kind != frCall {
				x.report(st, ev.ins.Pos(), "clean:async", "the removal is not waited for")
			}
			for _, fr := range st.frames {
				for _, l := range fr.loops {
					if l.coll != nil && x.isElemOf(st, l, ev.args[0]) {
						source(x, st, ev.ins.Pos(), l.coll)
						st.ts["rm:"+l.name] = ev.res
						return
					}
				}
			}
			x.report(st, ev.ins.Pos(), "clean:other", "the file removed (%s) is not an element of the list", ev.args[0])
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == nil {
			return
		}
		e := st.ts["rm:"+l.name]
		delete(st.ts, "rm:"+l.name)
		if e == nil {
			st.ts["skip:"+l.name] = flag(x)
			return
		}
		if !x.knownNil(st, e) && !x.knownTrue(st, x.isNotExist(e)) {
			kept := false
			for ph, v := range news {
				kept = kept || v != old[ph] && v.contains(e)
			}
			x.report(st, headPos(l), "clean:continued", "Clean goes on although a file could not be removed (kept: %v)", kept)
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.isMap && l.class == 0 && exhausted(l, from) && isAutoclean(l.coll) {
			st.ts["done:auto"] = flag(x) // there is nothing in the registry
		}
		if l.coll == nil || !exhausted(l, from) || !l.inOrder || st.ts["skip:"+l.name] != nil {
			return
		}
		e, s := listOf(x.canon(st, l.coll))
		if len(e) > 0 {
			return
		}
		// a loop that removes nothing passes over nothing
		removes := false
		for b := range l.loop.body {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					removes = removes || callsRemove(ci.Common().StaticCallee(), 0)
				}
			}
		}
		if !removes {
			return
		}
		for _, t := range s {
			switch {
			case isFiles(x, t):
				st.ts["done:files"] = flag(x)
			case t.widened() && startsWithFiles(x, st, t):
				st.ts["done:files"] = flag(x)
				st.ts["done:auto"] = flag(x)
			default:
				st.ts["done:auto"] = flag(x)
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		r := last(res)
		if x.knownNonNil(st, r) {
			ok := r.any(func(t *Term) bool {
				return t.op == OpCall && strings.HasPrefix(t.s, "os.Remove@") && !x.knownTrue(st, x.isNotExist(t)) && !x.knownNil(st, t)
			})
			if !ok {
				x.report(st, run.Pos(), "clean:error", "an error may be returned although no file failed to be removed")
			}
			return
		}
		if !x.succeeds(st, res) {
			return
		}
		if x.knownTrue(st, x.tt.pure("fab.GetDryRun", x.params[1])) {
			return
		}
		c.count("successful exits of Clean", 1)
		for f, v := range st.facts {
			if v && f.op == OpBin && f.s == "==" {
				for i := range f.args {
					if l := f.args[1-i]; f.args[i].isInt(0) && l.isPure("len") && l.args[0].widened() && startsWithFiles(x, st, l.args[0]) {
						return // the whole list is empty
					}
				}
			}
		}
		files := x.load(st, x.fieldAddr(x.params[0], pt, "Files"), c.fieldType(pt, "Files"))
		if st.ts["done:files"] == nil && !x.knownTrue(st, x.tt.eq(x.tt.length(files), x.tt.num(0))) {
			x.report(st, run.Pos(), "clean:notall", "Clean may succeed without having removed all of Files")
		}
		if v, ok := optKnown(x, st); (!ok || v) && st.ts["done:auto"] == nil {
			empty := false
			for f, v := range st.facts {
				if v && f.op == OpBin && f.s == "==" {
					for i := range f.args {
						if l := f.args[1-i]; f.args[i].isInt(0) && l.isPure("len") && (isAutoclean(l.args[0]) || l.args[0].isPure("keys") && isAutoclean(l.args[0].args[0])) {
							empty = true
						}
					}
				}
			}
			if !empty {
				x.report(st, run.Pos(), "clean:notauto", "Clean may succeed without having removed the registered files although Autoclean is set")
			}
		}
	}
	c.explore(run, rule, nil, nil)
	c.atLeast("removals", 1)
	c.atLeast("successful exits of Clean", 1)
}

func owned2(x *Explorer, a *Term) bool {
	return a.any(func(t *Term) bool { return t == x.params[0] })
}

// callsRemove tells whether a function calls os.Remove, possibly through functions of the module.
func callsRemove(f *ssa.Function, depth int) bool {
	if f == nil || depth > 5 {
		return false
	}
	if fnName(f) == "os.Remove" {
		return true
	}
	if !isModPath(fnPkgPath(f)) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && callsRemove(ci.Common().StaticCallee(), depth+1) {
				return true
			}
		}
	}
	return false
}

// checkAutoclean: the outputs of a target made with Autoclean(true), and nothing else, are put in the registry.
func checkAutoclean(c *Check) {
	c.rule("Autoclean(true) applied to a target adds every element of its Out to the registry, Autoclean(false) adds nothing; nothing else writes the registry; Files applies every option after setting Out")
	fn := c.need("", "Autoclean")
	ftyp := c.namedType("", "files")
	files := c.need("", "Files")
	if fn == nil || ftyp == nil || files == nil {
		return
	}
	pt := types.NewPointer(ftyp)
	other := false
	x := c.explorer(&Rule{})
	x.rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if res[0].op != OpClosure && res[0].op != OpFunc || res[0].fn == nil {
			other = true
			return
		}
		// which option?
		for _, v := range []bool{false, true} {
			v := v
			if x.knownTrue(st, x.params[0]) && !v || x.knownFalse(st, x.params[0]) && v {
				continue
			}
			x2 := c.explorer(&Rule{})
			clo := res[0]
			body := clo.fn
			self := x2.param("f", pt)
			isLoop := func(l *loopRec) bool { return l.coll != nil && isFieldOf(copied(l.coll), self, "Out") }
			x2.rule.onMapSet = func(x *Explorer, st *State, m, k, val *Term, ins ssa.Instruction) {
				if !isAutoclean(m) {
					return
				}
				c.count("additions to the autoclean registry", 1)
				if val == nil {
					x.report(st, ins.Pos(), "auto:delete", "an entry of the autoclean registry is removed")
					return
				}
				if !v {
					x.report(st, ins.Pos(), "auto:off", "files are registered although the option is off")
				}
				ok := false
				for _, fr := range st.frames {
					for _, l := range fr.loops {
						if isLoop(l) && x.isElemOf(st, l, k) {
							ok = true
						}
					}
				}
				if !ok {
					x.report(st, ins.Pos(), "auto:what", "something other than an output (%s) is registered for autocleaning", k)
				}
				st.ts["it"] = flag(x)
			}
			x2.rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
				if isLoop(l) {
					if st.ts["it"] == nil {
						st.ts["missed"] = flag(x)
					}
					delete(st.ts, "it")
				}
			}
			x2.rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
				if isLoop(l) && exhausted(l, from) && l.inOrder {
					st.ts["all"] = flag(x)
				}
			}
			x2.rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
				if objRoot(addr) == self {
					x.report(st, ins.Pos(), "auto:mutates", "the option changes the target")
				}
			}
			x2.rule.onExit = func(x *Explorer, st *State, res []*Term) {
				c.count("exits of the option", 1)
				out := x.load(st, x.fieldAddr(self, pt, "Out"), c.fieldType(pt, "Out"))
				if v && (st.ts["all"] == nil || st.ts["missed"] != nil) && !x.knownTrue(st, x.tt.eq(x.tt.length(out), x.tt.num(0))) {
					x.report(st, fn.Pos(), "auto:notall", "an output of a target with Autoclean(true) may not be registered")
				}
			}
			// the binding of the option
			b := *clo
			b.args = append([]*Term(nil), clo.args...)
			for i, a := range b.args {
				if a == x.params[0] {
					b.args[i] = x2.tt.boolean(v)
				} else if a.op == OpAlloc {
					cell := x2.tt.mk(Term{op: OpAlloc, s: "binding", typ: a.typ})
					b.args[i] = cell
					if st.heap[a] != x.params[0] {
						c.undecided("auto:binding", "what the option depends on is not understood")
					}
				} else {
					c.undecided("auto:binding", "what the option depends on is not understood")
				}
			}
			x2.entry = body
			x2.visited = map[string]bool{}
			x2.params = []*Term{self}
			nc := x2.tt.mk(Term{op: clo.op, fn: body, args: b.args})
			st2 := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, ts: map[string]*Term{}, epoch: x2.tt.mk(Term{op: OpParam, s: "epoch0"})}
			for i, a := range clo.args {
				if a.op == OpAlloc {
					st2.heap[b.args[i]] = x2.tt.boolean(v)
				}
			}
			x2.push(st2, body, nc, x2.params, frCall, nil, nil)
			x2.runFrom(st2)
			c.account(x2, body)
		}
	}
	c.exploreWith(x, fn, nil, nil)
	if other {
		c.undecided("auto:func", "the option is not a function made here")
	}
	c.atLeast("additions to the autoclean registry", 1)
	c.atLeast("exits of the option", 2)
	// other writers
	n := 0
	for _, f := range c.p.srcFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && g.Name() == autocleanVar && !strings.HasPrefix(f.Name(), "init") {
						c.violate(c.p.instrPos(in), "auto:reset:"+fnName(f), nil, "%s replaces the autoclean registry", fnName(f))
					}
					continue
				case *ssa.MapUpdate:
					m = in.Map
				case ssa.CallInstruction:
					cc := in.Common()
					if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(cc.Args) > 0 && oneOf(g.Name(), "Add", "Del") {
						m = cc.Args[0]
					} else if bi, ok := cc.Value.(*ssa.Builtin); ok && oneOf(bi.Name(), "delete", "clear") {
						m = cc.Args[0]
					}
				}
				for {
					if ct, ok := m.(*ssa.ChangeType); ok {
						m = ct.X
						continue
					}
					break
				}
				u, ok := m.(*ssa.UnOp)
				if !ok {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok || g.Name() != autocleanVar {
					continue
				}
				n++
				c.onlyUnder(f, "Autoclean", c.p.instrPos(in), "auto:writer:"+fnName(f), map[*ssa.Function]bool{})
			}
		}
	}
	c.count("writers of the autoclean registry", n)
	c.atLeast("writers of the autoclean registry", 1)
	// Files applies the options
	rule := &Rule{}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name != "dynamic" {
			return
		}
		c.count("option calls in Files", 1)
		for _, fr := range st.frames {
			for _, l := range fr.loops {
				if l.coll == x.params[3] && x.isElemOf(st, l, ev.clo) {
					st.ts["it"] = flag(x)
				}
			}
		}
		r := ev.args[0]
		if r.op != OpAlloc || x.canon(st, x.load(st, x.fieldAddr(r, pt, "Out"), c.fieldType(pt, "Out"))) != x.params[2] {
			x.report(st, ev.ins.Pos(), "option:target", "an option is applied before the outputs are set")
		}
		st.ts["obj"] = r
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == x.params[3] {
			if st.ts["it"] == nil {
				st.ts["missed"] = flag(x)
			}
			delete(st.ts, "it")
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == x.params[3] && exhausted(l, from) && l.inOrder {
			st.ts["all"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if st.ts["all"] == nil || st.ts["missed"] != nil {
			if !x.knownTrue(st, x.tt.eq(x.tt.length(x.params[3]), x.tt.num(0))) {
				x.report(st, files.Pos(), "option:notall", "an option given to Files may not be applied")
			}
		}
		if o := st.ts["obj"]; o != nil && unbox(res[0]) != o {
			x.report(st, files.Pos(), "option:target", "the options are applied to another target")
		}
	}
	c.explore(files, rule, nil, nil)
	c.atLeast("option calls in Files", 1)
}
