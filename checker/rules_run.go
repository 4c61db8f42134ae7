package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Typestate over every path of Controller.Run: Target.Run is invoked only after the target's identity was claimed in the run table in the same critical section in which it was found absent; call-graph search for other invocations and for other writers of the run table.", func(c *Check) {
		checkControllerRun(c)
		checkRunCallers(c)
		checkTableWriters(c)
		checkCaptures(c, "Controller.Run")
	})
	register("C02", "For-all obligation on the loop over the requested targets in Controller.Run, and dataflow of every error into the result.", func(c *Check) {
		checkControllerRun(c)
		checkCaptures(c, "Controller.Run")
	})
	register("C03", "Typestate over every path of Controller.Run and of the methods of gate: wait returns only when the gate is open, the outcome is stored before the gate is opened, and the gate is opened on every path after a claim.", func(c *Check) {
		checkControllerRun(c)
		checkGate(c)
	})
}

const targetRun = "invoke github.com/bobg/fab.Target.Run"

// runTable describes the table in which a controller records what it has run.
type runTable struct {
	field   string // of Controller
	outcome types.Type
	gate    string // fields of outcome
	err     string
}

func (c *Check) runTable() *runTable {
	ct := c.namedType("", "Controller")
	gt := c.namedType("", "gate")
	if ct == nil || gt == nil {
		return nil
	}
	s := structOf(ct)
	for i := 0; i < s.NumFields(); i++ {
		m, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		pt, ok := m.Elem().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		os := structOf(pt.Elem())
		if os == nil {
			continue
		}
		rt := &runTable{field: s.Field(i).Name(), outcome: pt}
		for j := 0; j < os.NumFields(); j++ {
			f := os.Field(j)
			if p, ok := f.Type().(*types.Pointer); ok && types.Identical(p.Elem(), gt) {
				rt.gate = f.Name()
			}
			if isErrorType(f.Type()) {
				rt.err = f.Name()
			}
		}
		if rt.gate != "" && rt.err != "" {
			return rt
		}
	}
	c.undecided("runtable", "no field of Controller maps targets to outcomes with a gate and an error")
	return nil
}

// identifies tells whether k is the identity of target t.
func identifies(x *Explorer, st *State, k, t *Term) bool {
	if k == t {
		return true
	}
	for k.op == OpConv || k.isPure("unsafe.Pointer") {
		k = k.args[0]
	}
	vo := func(v *Term) bool { return v.isPure("reflect.ValueOf") && len(v.args) == 1 && v.args[0] == t }
	if k.op == OpPure && oneOf(k.s, "(reflect.Value).UnsafePointer", "(reflect.Value).Pointer") {
		return vo(k.args[0])
	}
	if k.op == OpStruct && len(k.args) > 0 {
		addr := false
		for _, f := range k.args {
			switch {
			case identifies(x, st, f, t):
				addr = true
			case f.isPure("reflect.TypeOf") && f.args[0] == t, f.isPure("(reflect.Value).Type") && vo(f.args[0]):
			default:
				return false
			}
		}
		return addr
	}
	return false
}

// exact tells whether the identity k of a target also depends on its type.
func exact(k *Term) bool {
	if k.op == OpStruct {
		for _, f := range k.args {
			if f.isPure("reflect.TypeOf") || f.isPure("(reflect.Value).Type") {
				return true
			}
		}
		return false
	}
	for k.op == OpConv || k.isPure("unsafe.Pointer") {
		k = k.args[0]
	}
	return !(k.op == OpPure && oneOf(k.s, "(reflect.Value).UnsafePointer", "(reflect.Value).Pointer"))
}

func tid(t *Term) string { return strconv.Itoa(int(t.id)) }

// checkControllerRun explores Controller.Run for C01, C02 and C03.
func checkControllerRun(c *Check) {
	is := func(ids ...string) bool { return oneOf(c.id, ids...) }
	fn := c.need("", "Controller.Run")
	rt := c.runTable()
	if fn == nil || rt == nil {
		return
	}
	con := types.NewPointer(c.namedType("", "Controller"))
	if is("C01") {
		c.rule("Target.Run(t) is invoked only with a claim: in one critical section of the controller's lock, the table is found to lack the identity of t and a new outcome is stored under it")
		c.rule("the identity of t is its type and address, t is known to be a pointer, and t stays reachable as long as the table")
		c.rule("a request for a target that is in the table takes the error of the outcome found there")
	}
	if is("C02") {
		c.rule("for all requested targets: the iteration ends with a goroutine started for the target or an error recorded; all errors flow into the result; every goroutine is waited for")
	}
	if is("C03") {
		c.rule("after a claim, the error of the run is stored in the outcome, then its gate is opened, on every path; another request waits for the gate and reads the error only then")
	}
	const (
		nWait = "(*fab.gate).wait"
		nSet  = "(*fab.gate).set"
		nNew  = "fab.newGate"
	)
	rule := &Rule{
		stop: stopAt(nWait, nSet, nNew, "(*fab.Controller).Describe", "(*fab.Controller).Indentf", "(*fab.deferredResolutionTarget).resolve"),
		keepArgs: func(n string) bool {
			return n == nNew || n == "(*fab.deferredResolutionTarget).resolve"
		},
	}
	isTable := func(x *Explorer, m *Term) bool { return isFieldOf(m, x.params[0], rt.field) }
	mu := func(x *Explorer, st *State) bool {
		for _, h := range st.held {
			if h.op == OpField && h.args[0] == x.params[0] {
				return true
			}
		}
		return false
	}
	errField := func(x *Explorer, a *Term) bool {
		return a.op == OpField && fieldName(a.typ, a.i) == rt.err && types.Identical(a.typ, rt.outcome)
	}
	isPtrKnown := func(st *State, t *Term) bool {
		for f, v := range st.facts {
			if v && f.op == OpBin && f.s == "==" {
				for i := range f.args {
					k := f.args[i]
					if k.isPure("(reflect.Value).Kind") && k.args[0].isPure("reflect.ValueOf") && k.args[0].args[0] == t && f.args[1-i].isInt(22) {
						return true
					}
				}
			}
		}
		return false
	}
	rule.onMapGet = func(x *Explorer, st *State, m, k *Term, ins ssa.Instruction) {
		if !isTable(x, m) {
			return
		}
		c.count("run table lookups", 1)
		st.ts["got:"+tid(k)] = x.tt.mk(Term{op: OpTuple, args: []*Term{m, k}})
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if !isTable(x, m) {
			return
		}
		c.count("run table updates", 1)
		if v == nil {
			if is("C01") {
				x.report(st, ins.Pos(), "table:delete", "an entry is removed from the run table")
			}
			return
		}
		got := st.ts["got:"+tid(k)]
		if is("C01") {
			if !mu(x, st) {
				x.report(st, ins.Pos(), "claim:unlocked", "the run table is written without holding the lock")
			}
			absent := false
			if got != nil {
				ol, has := x.lookup(st, m, k, rt.outcome)
				absent = x.knownFalse(st, has) || x.knownNil(st, ol)
				if !absent {
					// facts about what the lookup of this critical section found
					for f, val := range st.facts {
						if f.op == OpLoad && f.args[0].op == OpMapHas && f.args[0].args[0] == m && f.args[0].args[1] == k && !val {
							absent = true
						}
						if val && f.op == OpBin && f.s == "==" && (f.args[0].isNil() || f.args[1].isNil()) {
							e := f.args[0]
							if e.isNil() {
								e = f.args[1]
							}
							if e.op == OpLoad && e.args[0].op == OpMapElem && e.args[0].args[0] == m && e.args[0].args[1] == k {
								absent = true
							}
						}
					}
				}
			}
			if !absent {
				x.report(st, ins.Pos(), "claim:unchecked", "an entry of the run table is written that was not found to be absent in the same critical section")
			}
			if !exact(k) {
				x.report(st, ins.Pos(), "claim:ident", "different targets may share the key %s", k)
			}
		}
		g := x.load(st, x.fieldAddr(v, rt.outcome, rt.gate), c.fieldType(rt.outcome, rt.gate))
		if is("C03") {
			if v.op != OpAlloc || !isLocalObj(v) {
				x.report(st, ins.Pos(), "claim:outcome", "the outcome stored is not a new one")
			}
			if !(g.op == OpCall && strings.HasPrefix(g.s, nNew+"@") && len(g.args) == 1 && g.args[0].isFalse()) {
				x.report(st, ins.Pos(), "claim:gate", "the gate of the new outcome is not a new, closed gate")
			}
		}
		for _, o := range tsKeys(st, "claim:") {
			if st.ts[o].args[0] == k {
				x.report(st, ins.Pos(), "claim:twice", "a target is claimed twice")
			}
		}
		st.ts["claim:"+tid(v)] = x.tt.mk(Term{op: OpTuple, args: []*Term{k, v, g}})
		delete(st.ts, "got:"+tid(k))
	}
	// the claim whose gate is g
	claimOfGate := func(x *Explorer, st *State, g *Term) *Term {
		for _, k := range tsKeys(st, "claim:") {
			if t := st.ts[k]; t.args[2] == g || g.op == OpLoad && g.args[0].op == OpField && g.args[0].args[0] == t.args[1] {
				return t
			}
		}
		return nil
	}
	// a gate found in the table: the key it was found under
	foundKey := func(x *Explorer, g *Term) *Term {
		if g.op != OpLoad || g.args[0].op != OpField || fieldName(g.args[0].typ, g.args[0].i) != rt.gate {
			return nil
		}
		o := g.args[0].args[0]
		if o.op == OpLoad && o.args[0].op == OpMapElem && isTable(x, o.args[0].args[0]) {
			return o.args[0].args[1]
		}
		return nil
	}
	need := func(x *Explorer, st *State, e *Term) { st.ts["need:"+tid(e)] = e }
	afterDone := func(x *Explorer, st *State, ev tokenPos, what string) {
		if is("C02") && st.gor > 0 && st.ts["donein"] != nil {
			x.report(st, ev, "done:early", "%s after the goroutine has declared itself done", what)
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.is("(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"):
			tsClear(st, "got:")
		case ev.is(targetRun) || ev.fn != nil && ev.fn.Name() == "Run" && recvType(ev.fn) != nil && ev.fn != fn && types.Implements(recvType(ev.fn), c.p.targetIface()):
			c.count("Target.Run call paths", 1)
			t := ev.args[0]
			if unbox(t) != t {
				t = unbox(t)
			}
			var claim *Term
			for _, k := range tsKeys(st, "claim:") {
				if cl := st.ts[k]; identifies(x, st, cl.args[0], ev.args[0]) || identifies(x, st, cl.args[0], t) {
					claim = cl
				}
			}
			if claim == nil || st.ts["ran:"+tid(claim.args[1])] != nil {
				if is("C01") {
					x.report(st, ev.ins.Pos(), "run:unclaimed", "%s is run without having been claimed in the run table", ev.args[0])
				}
				return
			}
			v := claim.args[1]
			if is("C01") {
				if !isPtrKnown(st, ev.args[0]) && !isPtrKnown(st, t) {
					x.report(st, ev.ins.Pos(), "run:pointer", "the target need not be a pointer")
				}
				alive := claim.args[0].contains(ev.args[0]) && !claim.args[0].any(func(t *Term) bool { return t.isPure("reflect.ValueOf") })
				if s := structOf(rt.outcome.(*types.Pointer).Elem()); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						if f := x.load(st, x.tt.field(v, i, rt.outcome), s.Field(i).Type()); f == ev.args[0] || unbox(f) == t {
							alive = true
						}
					}
				}
				if !alive {
					x.report(st, ev.ins.Pos(), "run:keepalive", "the target may be collected and its address reused while it is a key of the run table")
				}
				if len(st.held) > 0 {
					x.report(st, ev.ins.Pos(), "run:locked", "a target is run while %s is held", st.held[0])
				}
			}
			if is("C02", "C04") {
				inLoop := false
				for _, f := range st.frames {
					for _, l := range f.loops {
						inLoop = inLoop || l.coll == x.params[2]
					}
				}
				if inLoop && st.gor == 0 {
					x.report(st, ev.ins.Pos(), "run:sequential", "targets are not run concurrently")
				}
			}
			if len(ev.args) > 2 && (!ctxFrom(ev.args[1], x.params[1]) || ev.args[2] != x.params[0]) {
				x.report(st, ev.ins.Pos(), "run:args", "the target is not given the context and controller of the request")
			}
			st.ts["ran:"+tid(v)] = ev.res
			need(x, st, ev.res)
		case ev.is(nWait):
			c.count("gate waits", 1)
			g := ev.args[0]
			if claimOfGate(x, st, g) != nil {
				x.report(st, ev.ins.Pos(), "wait:self", "a goroutine waits for the target that it has to run itself")
				return
			}
			k := foundKey(x, g)
			if k == nil {
				x.report(st, ev.ins.Pos(), "wait:what", "what is waited for (%s) is not an outcome in the run table", g)
				return
			}
			if is("C03") && len(st.held) > 0 {
				x.report(st, ev.ins.Pos(), "wait:locked", "another target is waited for while %s is held", st.held[0])
			}
			st.ts["waited:"+tid(g.args[0].args[0])] = x.tt.mk(Term{op: OpTuple, args: []*Term{g.args[0].args[0], k}})
		case ev.is(nSet):
			c.count("gate openings", 1)
			cl := claimOfGate(x, st, ev.args[0])
			if cl == nil || !ev.args[1].isTrue() {
				if is("C03") {
					x.report(st, ev.ins.Pos(), "set:what", "a gate is set that is not the one of the outcome being computed, or it is closed")
				}
				return
			}
			v := cl.args[1]
			r := st.ts["ran:"+tid(v)]
			if is("C03") {
				if r == nil {
					x.report(st, ev.ins.Pos(), "open:early", "the gate is opened although the target was not run")
				} else {
					e := x.load(st, x.fieldAddr(v, rt.outcome, rt.err), c.fieldType(rt.outcome, rt.err))
					if !(e.contains(r) || x.knownNil(st, r) && x.knownNil(st, e)) {
						x.report(st, ev.ins.Pos(), "open:nostore", "the gate is opened before the error of the run is stored in the outcome (it has %s)", e)
					}
				}
				afterDone(x, st, ev.ins.Pos(), "the gate is opened")
			}
			st.ts["opened:"+tid(v)] = flag(x)
		case ev.is("(*sync.WaitGroup).Add"):
			id := tid(ev.args[0])
			if ev.args[1].isInt(1) {
				st.ts["add:"+id] = ev.args[0]
			} else if ev.args[1] == x.tt.length(x.params[2]) && st.ts["started"] == nil {
				st.ts["bulk:"+id] = ev.args[0]
			} else if is("C02") {
				x.report(st, ev.ins.Pos(), "wg:add", "the number of goroutines waited for is not understood")
			}
		case ev.is("(*sync.WaitGroup).Done"):
			id := tid(ev.args[0])
			if st.gor > 0 {
				st.ts["donein"] = ev.args[0]
			} else if st.ts["add:"+id] != nil {
				delete(st.ts, "add:"+id)
			} else {
				st.ts["doneout:"+id] = flag(x)
			}
		case ev.is("(*sync.WaitGroup).Wait"):
			if st.gor == 0 {
				st.ts["joined:"+tid(ev.args[0])] = flag(x)
			}
		case ev.is("errors.Join"):
			if is("C02") && unjoined(st) {
				x.report(st, ev.ins.Pos(), "join:early", "the errors are collected before all goroutines are done")
			}
		case strings.HasSuffix(ev.name, ").resolve"):
			if e := ev.errResult(x); e != nil {
				need(x, st, e)
			}
		}
	}
	rule.onLoad = func(x *Explorer, st *State, a, val *Term, ins ssa.Instruction) {
		if !errField(x, a) {
			return
		}
		o := a.args[0]
		if st.ts["claim:"+tid(o)] != nil || isLocalObj(objRoot(o)) {
			return
		}
		if st.ts["waited:"+tid(o)] == nil {
			if is("C03") {
				x.report(st, ins.Pos(), "err:early", "the error of an outcome is read before its gate is known to be open")
			}
			return
		}
		st.ts["took:"+tid(o)] = val
		need(x, st, val)
	}
	rule.onStore = func(x *Explorer, st *State, a, val *Term, ins ssa.Instruction) {
		if errField(x, a) && st.ts["claim:"+tid(a.args[0])] == nil && is("C01", "C03") && !isLocalObj(objRoot(a)) {
			x.report(st, ins.Pos(), "err:foreign", "the error of an outcome is changed by someone who did not claim it")
		}
		if errField(x, a) && st.ts["opened:"+tid(a.args[0])] != nil && is("C01", "C03") {
			x.report(st, ins.Pos(), "err:late", "the error of an outcome is changed after its gate was opened")
		}
		if a.op == OpIndex {
			afterDone(x, st, ins.Pos(), "an error is stored")
		}
	}
	rule.onEnter = func(x *Explorer, st *State, f *ssa.Function, args []*Term) {
		if st.top().mode != frGo || st.gor != 1 {
			return
		}
		delete(st.ts, "donein")
		st.ts["started"] = flag(x)
		ok := false
		for _, k := range tsKeys(st, "add:") {
			st.ts["spawned:"+strings.TrimPrefix(k, "add:")] = st.ts[k]
			delete(st.ts, k)
			ok = true
			break
		}
		for _, k := range tsKeys(st, "bulk:") {
			st.ts["spawned:"+strings.TrimPrefix(k, "bulk:")] = st.ts[k]
			ok = true
		}
		if !ok && is("C02") {
			x.report(st, st.top().call.Pos(), "go:unwaited", "a goroutine is started that is not waited for")
		}
		st.ts["go"] = flag(x)
	}
	rule.onLeave = func(x *Explorer, st *State, f *ssa.Function, res []*Term) {
		if st.top().mode != frGo || st.gor != 1 {
			return
		}
		if is("C02") && st.ts["donein"] == nil {
			x.report(st, f.Pos(), "go:notdone", "a goroutine ends without declaring itself done")
		}
		delete(st.ts, "donein")
	}
	unfinished := func(x *Explorer, st *State, pos tokenPos) {
		for _, k := range tsKeys(st, "claim:") {
			v := st.ts[k].args[1]
			if st.ts["ran:"+tid(v)] == nil && is("C01", "C02") {
				x.report(st, pos, "claim:notrun", "a target is claimed but not run")
			}
			if st.ts["opened:"+tid(v)] == nil && is("C03") {
				x.report(st, pos, "claim:notopened", "a target is claimed but its gate is not opened")
			}
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll != x.params[2] {
			return
		}
		c.count("iterations over targets", 1)
		unfinished(x, st, headPos(l))
		if is("C02") && !l.inOrder {
			x.report(st, headPos(l), "loop:order", "some targets may be passed over")
		}
		elem := x.loopElem(st, l)
		// what this request is about
		about := false
		isElem := func(t *Term) bool {
			return t != nil && (x.isElemOf(st, l, t) || t.any(func(s *Term) bool { return s == elem }))
		}
		for _, k := range tsKeys(st, "claim:") {
			about = about || isElem(st.ts[k].args[0])
		}
		for _, k := range tsKeys(st, "waited:") {
			w := st.ts[k]
			about = about || isElem(w.args[1])
			if st.ts["took:"+tid(w.args[0])] == nil && is("C01", "C02") {
				x.report(st, headPos(l), "wait:noerr", "the error of a target that was waited for is not used")
			}
		}
		var sinks []*Term
		before := map[*Term]*Term{}
		for ph, v := range news {
			if v != old[ph] {
				sinks = append(sinks, v)
				before[v] = old[ph]
			}
		}
		for a, v := range st.heap {
			if l.heap0[a] != v {
				sinks = append(sinks, v)
				before[v] = l.heap0[a]
			}
		}
		// errors have to be kept
		kept := false
		for a, v := range st.heap {
			if a.op == OpIndex && a.args[0].op == OpMake && a.args[1] == l.idx && x.knownNonNil(st, v) {
				kept = true
			}
		}
		for _, v := range sinks {
			if v.op == OpSeq || v.op == OpJoin || v.op == OpWrap {
				kept = true
			}
		}
		for _, k := range tsKeys(st, "need:") {
			e := st.ts[k]
			delete(st.ts, k)
			if x.knownNil(st, e) {
				continue
			}
			ok := false
			for a, v := range st.heap {
				if v.contains(e) && a.op == OpIndex && a.args[0].op == OpMake {
					ok = true
					st.ts["sink:"+tid(a.args[0])] = a.args[0]
				}
			}
			if !ok {
				for _, v := range sinks {
					if v.contains(e) && (v.op == OpSeq || v.op == OpJoin || v.op == OpWrap || v == e) {
						ok = keeps(x, st, v, before[v])
						st.ts["flow:"+tid(e)] = e
					}
				}
			}
			took := false
			for _, k := range tsKeys(st, "took:") {
				took = took || st.ts[k] == e
			}
			if !ok && (is("C02") || is("C01") && took) {
				x.report(st, headPos(l), "error:lost", "the error %s is not kept", e)
			}
		}
		if !about && !kept && is("C02") {
			x.report(st, headPos(l), "target:skipped", "a target may be neither run nor waited for, without an error")
		}
		for _, k := range tsKeys(st, "bulk:") {
			id := strings.TrimPrefix(k, "bulk:")
			if is("C02") && (st.ts["go"] != nil) == (st.ts["doneout:"+id] != nil) {
				x.report(st, headPos(l), "wg:count", "the number of goroutines waited for differs from the number started")
			}
			delete(st.ts, "doneout:"+id)
		}
		for _, k := range tsKeys(st, "add:") {
			if is("C02") {
				x.report(st, headPos(l), "wg:count", "a goroutine is waited for that is not started")
			}
			delete(st.ts, k)
		}
		delete(st.ts, "go")
		for _, p := range []string{"claim:", "ran:", "opened:", "waited:", "took:", "got:"} {
			tsClear(st, p)
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == x.params[2] && exhausted(l, from) && l.inOrder {
			st.ts["all"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("exits of Controller.Run", 1)
		unfinished(x, st, fn.Pos())
		r := last(res)
		if !is("C02") {
			return
		}
		empty := x.knownTrue(st, x.tt.eq(x.tt.length(x.params[2]), x.tt.num(0)))
		if st.ts["all"] == nil && !empty {
			x.report(st, fn.Pos(), "targets:notall", "Run may return before all targets were started")
		}
		if unjoined(st) {
			x.report(st, fn.Pos(), "nowait", "Run may return before the goroutines it started are done")
		}
		if empty && !r.isNil() && !x.knownNil(st, r) && r.op != OpJoin {
			x.report(st, fn.Pos(), "empty:error", "an error may be returned although no target was requested")
		}
		for _, k := range tsKeys(st, "sink:") {
			if s := st.ts[k]; !r.contains(s) {
				x.report(st, fn.Pos(), "result:lacks", "the result does not include the errors collected")
			}
		}
		if len(tsKeys(st, "flow:")) > 0 {
			var phis []*Term
			r.any(func(t *Term) bool {
				if t.op == OpPhi || t.op == OpMem {
					phis = append(phis, t)
				}
				return false
			})
			var flows []*Term
			for _, k := range tsKeys(st, "flow:") {
				flows = append(flows, st.ts[k])
			}
			x.later(func() {
				for _, e := range flows {
					ok := false
					for _, p := range phis {
						if accumulates(x, p, e) {
							ok = true
						}
					}
					if !ok && !r.contains(e) {
						x.report(st, fn.Pos(), "result:lost", "the error %s does not reach the result", e)
					}
				}
			})
		}
		_ = con
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("Target.Run call paths", 1)
	c.atLeast("gate waits", 1)
	c.atLeast("gate openings", 1)
	c.atLeast("run table updates", 1)
	c.atLeast("run table lookups", 1)
	c.atLeast("iterations over targets", 2)
}

// accumulates tells whether the loop value p can have e in it.
func accumulates(x *Explorer, p, e *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == e {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		if t.op == OpPhi || t.op == OpMem {
			for _, v := range x.side[t] {
				if walk(v) {
					return true
				}
			}
		}
		return false
	}
	return walk(p)
}

// keeps tells whether everything in the error or list of errors old is also in v.
func keeps(x *Explorer, st *State, v, old *Term) bool {
	if old == nil || old.isNil() || v.contains(old) || x.knownNil(st, old) {
		return true
	}
	if old.op == OpSeq {
		for _, p := range old.args[1:] {
			if !v.contains(p) && !v.contains(p.args[0]) {
				return false
			}
		}
		return true
	}
	return false
}

// unjoined tells whether some goroutine was started and not waited for since.
func unjoined(st *State) bool {
	for _, k := range tsKeys(st, "spawned:") {
		if st.ts["joined:"+strings.TrimPrefix(k, "spawned:")] == nil {
			return true
		}
	}
	return false
}

// checkRunCallers: only Controller.Run invokes Run methods of targets (C01).
func checkRunCallers(c *Check) {
	c.rule("no function that is not part of Controller.Run invokes the Run method of a target")
	it := c.p.targetIface()
	n := 0
	for _, fn := range c.p.srcFns {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				hit := false
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						hit = cc.Method.Name() == "Run" && types.Implements(cc.Value.Type(), it)
					} else if f := cc.StaticCallee(); f != nil && f.Name() == "Run" {
						if r := recvType(f); r != nil && (types.Implements(r, it) || types.Implements(types.NewPointer(r), it)) {
							hit = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					// a method value
					if f, ok := mc.Fn.(*ssa.Function); ok && f.Synthetic != "" && strings.HasPrefix(f.Name(), "Run$bound") && len(mc.Bindings) == 1 && types.Implements(mc.Bindings[0].Type(), it) {
						hit = true
					}
				}
				if !hit {
					continue
				}
				n++
				c.onlyUnder(fn, "Controller.Run", c.p.posStr(in.Pos()), "runcaller:"+fnName(fn), map[*ssa.Function]bool{})
			}
		}
	}
	c.count("call sites of Target.Run", n)
	c.atLeast("call sites of Target.Run", 1)
}

// checkTableWriters: the run table is made once and written only by Controller.Run (C01).
func checkTableWriters(c *Check) {
	c.rule("the run table is assigned only in the construction of a controller, and its entries are written only by Controller.Run")
	rt := c.runTable()
	ct := c.namedType("", "Controller")
	if rt == nil || ct == nil {
		return
	}
	i := fieldIndex(ct, rt.field)
	isTableAddr := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fa.Field != i {
			return false
		}
		pt, ok := fa.X.Type().Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), ct)
	}
	isTable := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && isTableAddr(u.X)
	}
	for _, fn := range c.p.srcFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if isTableAddr(in.Addr) {
						c.count("assignments of the run table", 1)
						if _, ok := in.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !ok {
							c.violate(c.p.instrPos(in), "table:reset:"+fnName(fn), nil, "the run table of an existing controller is replaced by %s", fnName(fn))
						}
					}
				case *ssa.MapUpdate:
					if isTable(in.Map) {
						c.onlyUnder(fn, "Controller.Run", c.p.instrPos(in), "table:writer:"+fnName(fn), map[*ssa.Function]bool{})
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isTable(in.Call.Args[0]) {
						c.violate(c.p.instrPos(in), "table:delete:"+fnName(fn), nil, "%s removes entries from the run table", fnName(fn))
					}
				}
			}
		}
	}
	c.atLeast("assignments of the run table", 1)
}

// checkCaptures: variables shared between a goroutine and its creator are not written concurrently.
// With root, only the goroutines started under that function are examined.
func checkCaptures(c *Check, root string) {
	c.rule("a variable captured by a goroutine is not assigned by its creator, nor by another instance of the goroutine, before the creator has waited for it")
	var under func(f *ssa.Function) bool
	r := c.p.fn("", root)
	seen := map[*ssa.Function]bool{}
	reach := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !c.p.inModule(f) {
			return
		}
		seen[f] = true
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(r)
	under = func(f *ssa.Function) bool { return root == "" || reach[f] }
	for _, fn := range c.p.srcFns {
		if !under(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				c.count("goroutines examined for captured variables", 1)
				body := mc.Fn.(*ssa.Function)
				for i, bd := range mc.Bindings {
					al, ok := bd.(*ssa.Alloc)
					if !ok {
						continue
					}
					c.count("captured variables", 1)
					if st := storeAfter(g, al); st != nil {
						c.violate(c.p.instrPos(st), "capture:"+fnName(fn)+":"+al.Comment, nil, "variable %s of %s is assigned while a goroutine that uses it may be running", al.Comment, fnName(fn))
						continue
					}
					if writesFree(body, body.FreeVars[i]) && reaches(g.Block(), g.Block(), al.Block()) {
						c.violate(c.p.instrPos(g), "capture:"+fnName(fn)+":"+al.Comment, nil, "variable %s of %s is assigned by goroutines that may run at the same time", al.Comment, fnName(fn))
					}
				}
			}
		}
	}
}

// storeAfter finds an assignment of variable al that may happen after the go statement, without a wait in between, and for the same instance of al.
func storeAfter(g *ssa.Go, al *ssa.Alloc) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) ssa.Instruction
	scan = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, in := range b.Instrs[from:] {
			switch in := in.(type) {
			case *ssa.Alloc:
				if in == al {
					return nil
				}
			case *ssa.Store:
				if in.Addr == al {
					return in
				}
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && f.Name() == "Wait" {
					return nil
				}
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if st := scan(s, 0); st != nil {
				return st
			}
		}
		return nil
	}
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			return scan(g.Block(), i+1)
		}
	}
	return nil
}

// reaches tells whether control can get from b back to itself without passing block avoid.
func reaches(b, to, avoid *ssa.BasicBlock) bool {
	if b == avoid {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if s == avoid || seen[s] {
				continue
			}
			seen[s] = true
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// writesFree tells whether the closure (or one nested in it) assigns the captured variable without holding a lock.
func writesFree(f *ssa.Function, fv *ssa.FreeVar) bool {
	for _, b := range f.Blocks {
		locked := 0
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if cal := in.Call.StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sync" {
					switch cal.Name() {
					case "Lock":
						locked++
					case "Unlock":
						locked--
					}
				}
			case *ssa.Store:
				if in.Addr == fv && locked <= 0 {
					return true
				}
			case *ssa.MakeClosure:
				for i, bd := range in.Bindings {
					if bd == fv && writesFree(in.Fn.(*ssa.Function), in.Fn.(*ssa.Function).FreeVars[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkGate decides the gate methods for C03.
func checkGate(c *Check) {
	c.rule("wait returns only on paths on which the gate was found open under its lock, waiting on the condition in between; set stores its argument under the lock and wakes all waiters when it opens the gate; a new gate has the state given")
	gt := c.namedType("", "gate")
	wait, set, nw := c.need("", "gate.wait"), c.need("", "gate.set"), c.need("", "newGate")
	if gt == nil || wait == nil || set == nil || nw == nil {
		return
	}
	pt := types.NewPointer(gt)
	s := structOf(gt)
	open := ""
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			open = s.Field(i).Name()
		}
	}
	if open == "" {
		c.undecided("gate", "the type gate has no boolean field")
		return
	}
	openAddr := func(x *Explorer) *Term { return x.fieldAddr(x.params[0], pt, open) }
	locked := func(x *Explorer, st *State) bool {
		for _, h := range st.held {
			if h.any(func(t *Term) bool { return t == x.params[0] }) {
				return true
			}
		}
		return false
	}
	// wait
	rule := &Rule{}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		for cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if isLoadOf(cond, openAddr(x)) && locked(x, st) {
			if val {
				st.ts["open"] = flag(x)
			} else {
				st.ts["closed"] = flag(x)
			}
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.is("(*sync.Cond).Wait"):
			c.count("condition waits", 1)
			if st.ts["closed"] == nil {
				x.report(st, ev.ins.Pos(), "wait:open", "wait may block although the gate is open")
			}
			if !locked(x, st) {
				x.report(st, ev.ins.Pos(), "wait:unlocked", "wait waits on the condition without the lock")
			}
			delete(st.ts, "open")
			delete(st.ts, "closed")
		case ev.is("(*sync.Mutex).Lock", "invoke sync.Locker.Lock"):
			delete(st.ts, "closed")
		}
	}
	rule.onLoad = func(x *Explorer, st *State, a, val *Term, ins ssa.Instruction) {
		if a == openAddr(x) && !locked(x, st) {
			x.report(st, ins.Pos(), "wait:read", "the state of the gate is read without its lock")
		}
	}
	rule.onStore = func(x *Explorer, st *State, a, val *Term, ins ssa.Instruction) {
		if a == openAddr(x) {
			x.report(st, ins.Pos(), "wait:store", "wait changes the state of the gate")
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("exits of gate.wait", 1)
		if st.ts["open"] == nil {
			x.report(st, wait.Pos(), "wait:closed", "wait may return although the gate is closed")
		}
		if len(st.held) > 0 {
			x.report(st, wait.Pos(), "wait:held", "wait returns without releasing %s", st.held[0])
		}
	}
	c.explore(wait, rule, nil, nil)
	c.atLeast("exits of gate.wait", 1)
	// set
	srule := &Rule{}
	srule.onStore = func(x *Explorer, st *State, a, val *Term, ins ssa.Instruction) {
		if a != openAddr(x) {
			return
		}
		c.count("stores to the gate's state", 1)
		if !locked(x, st) {
			x.report(st, ins.Pos(), "set:unlocked", "the state of the gate is written without its lock")
		}
		st.ts["state"] = val
	}
	srule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		for cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if isLoadOf(cond, openAddr(x)) && val && locked(x, st) {
			st.ts["wasopen"] = flag(x)
		}
	}
	srule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.is("(*sync.Cond).Broadcast") {
			st.ts["broadcast"] = flag(x)
			c.count("broadcasts", 1)
			if st.ts["state"] == nil && !locked(x, st) {
				x.report(st, ev.ins.Pos(), "set:early", "the waiters are woken before the gate is open")
			}
		}
	}
	srule.onExit = func(x *Explorer, st *State, res []*Term) {
		arg := x.params[1]
		if x.knownFalse(st, arg) {
			if v := st.ts["state"]; v != nil && v != arg && !v.isFalse() {
				x.report(st, set.Pos(), "set:value", "set(false) opens the gate")
			}
			return
		}
		v := st.ts["state"]
		if st.ts["wasopen"] == nil {
			if v == nil || v != arg && !v.isTrue() {
				x.report(st, set.Pos(), "set:value", "set(true) does not open the gate")
			}
			if st.ts["broadcast"] == nil {
				// opening must wake the waiters, unless the gate stays closed
				x.report(st, set.Pos(), "set:nowake", "set may open the gate without waking all waiters")
			}
		} else if v != nil && v != arg && !v.isTrue() {
			x.report(st, set.Pos(), "set:value", "set(true) does not open the gate")
		}
		if len(st.held) > 0 {
			x.report(st, set.Pos(), "set:held", "set returns without releasing %s", st.held[0])
		}
	}
	c.explore(set, srule, nil, nil)
	c.atLeast("broadcasts", 1)
	c.atLeast("stores to the gate's state", 1)
	// newGate
	nrule := &Rule{}
	nrule.onExit = func(x *Explorer, st *State, res []*Term) {
		r := res[0]
		if r.op != OpAlloc {
			x.report(st, nw.Pos(), "new:alloc", "newGate does not return a new gate")
			return
		}
		if v := x.load(st, x.fieldAddr(r, pt, open), types.Typ[types.Bool]); v != x.params[0] {
			x.report(st, nw.Pos(), "new:state", "a new gate does not have the state given")
		}
	}
	c.explore(nw, nrule, nil, nil)
	// nothing closes a gate again
	n := 0
	for _, fn := range c.p.srcFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != set {
					continue
				}
				n++
				if k, ok := ci.Common().Args[1].(*ssa.Const); !ok || k.Value.String() != "true" {
					c.violate(c.p.instrPos(in), "gate:closed:"+fnName(fn), nil, "%s may close a gate again", fnName(fn))
				}
			}
		}
	}
	c.count("call sites of gate.set", n)
}
