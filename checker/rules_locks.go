package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "A static lockset analysis: every function that can be an entry point (exported, used as a value, implementing an interface, or without static callers) is explored over all paths, with the functions it calls inlined and the set of held locks tracked; accesses to every mutable location of shared types are collected with the locks held, and lock nesting, blocking calls and releases are checked, across entry points by transitive summaries.", checkLocks)
}

// access is one access to a shared location.
type access struct {
	locks map[string]bool // held locks, relative to the object accessed
	write bool
	fn    string
	pos   string
	trace []string
	what  string
}

// lockSummary is what an entry point may do with locks, directly.
type lockSummary struct {
	acquires map[string]bool
	blocks   map[string]string // what, where
	calls    map[*ssa.Function]bool
}

// roots are the functions that may be called from anywhere.
func (p *Program) rootFns() map[*ssa.Function]bool {
	static := map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, g := range p.srcFns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
					if f, ok := callee.(*ssa.Function); ok {
						static[f] = true
						if o := f.Origin(); o != nil {
							static[o] = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					_ = mc
					continue // function literals are explored where they are used, or as callbacks
				}
				for _, o := range in.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == *o {
							continue
						}
						taken[f] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range p.srcFns {
		if f.Blocks == nil || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") {
			continue
		}
		exported := false
		if o := f.Object(); o != nil {
			exported = o.Exported()
		}
		switch {
		case f.Parent() != nil:
			// a literal that is neither called nor started where it is made is called by whoever gets it
			if escapes(f) {
				out[f] = true
			}
		case exported, taken[f], !static[f]:
			out[f] = true
		case recvType(f) != nil && p.implementsSome(f):
			out[f] = true
		}
	}
	return out
}

// escapes tells whether a function literal is used other than by calling, deferring or starting it on the spot,
// or in unexported functions that it is passed to.
func escapes(f *ssa.Function) bool {
	called := func(v ssa.Value) bool { return calledOnly(v, map[ssa.Value]bool{}) }
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				return !called(mc)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for i, a := range ci.Common().Args {
					if a == ssa.Value(f) && !passedOn(ci, i, map[ssa.Value]bool{}) {
						return true
					}
				}
				continue
			}
			for _, o := range in.Operands(nil) {
				if *o == ssa.Value(f) {
					return true
				}
			}
		}
	}
	return false
}

// calledOnly tells whether all that happens to a function value is that it is called.
func calledOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			for i, a := range r.Common().Args {
				if a == v && !passedOn(r, i, seen) {
					return false
				}
			}
		case *ssa.Store:
			if al, ok := r.Addr.(*ssa.Alloc); !ok || r.Val != v || !cellCalledOnly(al, seen) {
				return false
			}
		case *ssa.MakeClosure:
			if !calledOnly(r, seen) {
				return false
			}
			for i, b := range r.Bindings {
				if b == v && !calledOnly(r.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// cellCalledOnly tells whether what a local variable holds is only called, also by function literals that are only called.
func cellCalledOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
		case *ssa.UnOp:
			if !calledOnly(r, seen) {
				return false
			}
		case *ssa.MakeClosure:
			if !calledOnly(r, seen) {
				return false
			}
			for i, b := range r.Bindings {
				if b == v && !cellCalledOnly(r.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// passedOn tells whether an argument goes to an unexported (or generic helper) function that only calls it.
func passedOn(ci ssa.CallInstruction, i int, seen map[ssa.Value]bool) bool {
	g := ci.Common().StaticCallee()
	if g != nil && callsWithIndexes(fnName(g)) {
		return true
	}
	if g == nil || g.Blocks == nil || i >= len(g.Params) {
		return false
	}
	if o := g.Object(); o != nil && o.Exported() && g.Origin() == nil {
		return false
	}
	return calledOnly(g.Params[i], seen)
}

// callsWithIndexes are the functions that call their last argument, before they return, with indexes of their first one.
func callsWithIndexes(n string) bool {
	return oneOf(n, "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted")
}

// implementsSome tells whether a method may be called through an interface with an unexported method of its name.
func (p *Program) implementsSome(f *ssa.Function) bool {
	for _, pk := range p.ssaPkgs {
		if !isModPath(pk.Pkg.Path()) {
			continue
		}
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == f.Name() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// sharedTypes are the struct types whose objects several goroutines can reach.
func (c *Check) sharedTypes() map[string]bool {
	out := map[string]bool{}
	seen := map[string]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		k := typeKey(t)
		if seen[k] {
			return
		}
		seen[k] = true
		if n := named(t); n != nil {
			if n.Obj().Pkg() == nil || !isModPath(n.Obj().Pkg().Path()) {
				if n.TypeArgs() != nil {
					walk(n.Underlying())
				}
				return
			}
			out[originString(n)] = true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	if t := c.namedType("", "Controller"); t != nil {
		walk(t)
	}
	for _, t := range c.targetTypes() {
		walk(t)
	}
	for _, pk := range c.p.ssaPkgs {
		if !isModPath(pk.Pkg.Path()) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				walk(g.Type())
			}
		}
	}
	return out
}

// gated tells whether a struct is an outcome published by a gate: its fields are ordered by the gate (C03), not by a lock.
func gated(t types.Type) bool {
	s := structOf(deref(t))
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if n := named(deref(s.Field(i).Type())); n != nil && n.Obj().Name() == "gate" {
			return true
		}
	}
	return false
}

func checkLocks(c *Check) {
	c.rule("lockset: for each field of a type reachable from Controller, a target type or a package variable that is written after construction, for the contents of each map in such a field, and for each package variable written outside init: some lock (of the same object, or global) is held at all accesses, and exclusively at writes; outcome fields published by a gate are left to C03")
	c.rule("at every exit of every entry point no lock is held; no lock is acquired while held, and none released without being held; the set of held locks is the same at the start of each loop iteration")
	c.rule("the nesting order of lock classes, closed over calls, has no cycle")
	c.rule("while a lock is held there is no call of a target, a database, a function value or a subprocess, no channel operation, and no wait (other than sync.Cond.Wait with its own lock), directly or through another entry point")
	roots := c.p.rootFns()
	shared := c.sharedTypes()
	accs := map[string][]access{}
	sums := map[*ssa.Function]*lockSummary{}
	type edge struct{ from, to, fn, pos string }
	edges := map[string]edge{}
	type heldCall struct {
		held []string
		fn   *ssa.Function
		in   string
		pos  string
	}
	var heldCalls []heldCall
	className := func(l *Term) string {
		n := lockName(l)
		if l.op == OpLoad { // a lock behind an interface, as in sync.Cond
			a := l.args[0]
			for a.op == OpField || a.op == OpLoad {
				if a.op == OpField && !strings.HasPrefix(a.s, "sync.") {
					return a.s
				}
				a = a.args[0]
			}
		}
		return n
	}
	// rel names a lock by the way it is reached from base, or from a package variable.
	rel := func(x *Explorer, st *State, l, base *Term) string {
		names := map[*Term]string{}
		if base != nil {
			names[base] = "$"
			if isLocalObj(objRoot(base)) {
				for i := 0; i < 3; i++ { // what the object's fields refer to
					for a, v := range st.heap {
						v = unbox(v)
						if a.op != OpField || names[v] != "" || v.op == OpConst {
							continue
						}
						if n := names[a.args[0]]; n != "" && (len(v.args) > 0 || isLocalObj(v)) {
							names[v] = n + fmt.Sprintf(".%d", a.i)
						}
					}
				}
			}
		}
		var name func(t *Term) string
		name = func(t *Term) string {
			if n := names[t]; n != "" {
				return n
			}
			switch t.op {
			case OpGlobal:
				return t.glob.String()
			case OpField:
				if n := name(t.args[0]); n != "" {
					return n + fmt.Sprintf(".%d", t.i)
				}
			case OpLoad:
				return name(t.args[0])
			}
			return ""
		}
		return name(l)
	}
	// classify gives the class of a shared address and the object it belongs to
	classify := func(st *State, a *Term) (class string, base *Term) {
		switch a.op {
		case OpGlobal:
			if a.glob.Pkg == nil || !isModPath(a.glob.Pkg.Pkg.Path()) {
				return "", nil
			}
			if c.p.constantMap(a.glob) {
				return "", nil
			}
			return a.glob.String(), nil
		case OpField:
			base := a.args[0]
			if r := objRoot(base); isLocalObj(r) && st.ts["pub:"+tid(r)] == nil {
				return "", nil
			}
			i := strings.LastIndex(a.s, ".")
			if i < 0 || !shared[a.s[:i]] || gated(a.typ) {
				return "", nil
			}
			return a.s, base
		}
		return "", nil
	}
	record := func(x *Explorer, st *State, a *Term, suffix string, write bool, ins ssa.Instruction, what string) {
		class, base := classify(st, a)
		if class == "" {
			return
		}
		ls := map[string]bool{}
		for _, l := range st.held {
			if st.ts["rlock:"+tid(l)] != nil && write {
				continue
			}
			if r := rel(x, st, l, base); r != "" {
				ls[r] = true
			}
		}
		accs[class+suffix] = append(accs[class+suffix], access{ls, write, fnName(st.top().fn), c.p.instrPos(ins), x.trace(st, 25), what})
	}
	// publish notes that an object made here can be reached by others from now on.
	publish := func(st *State, addr, val *Term) {
		if val == nil {
			return
		}
		if r := objRoot(addr); r.op == OpMake || r.op == OpAlloc {
			if st.ts["pub:"+tid(r)] == nil {
				return
			}
		}
		var mark func(v *Term)
		mark = func(v *Term) {
			r := objRoot(unbox(v))
			if !isLocalObj(r) || st.ts["pub:"+tid(r)] != nil {
				return
			}
			st.ts["pub:"+tid(r)] = r
			for a, w := range st.heap {
				if objRoot(a) == r {
					mark(w)
				}
			}
		}
		mark(val)
	}
	mapAddr := func(m *Term) *Term {
		if m.op == OpLoad {
			return m.args[0]
		}
		return nil
	}
	var fns []*ssa.Function
	for f := range roots {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	relevant := c.touchesShared(shared)
	for _, fn := range fns {
		fn := fn
		if !relevant[fn] {
			c.count("entry points that reach no lock and no shared state", 1)
			sums[fn] = &lockSummary{acquires: map[string]bool{}, blocks: blockingOps(c.p, fn), calls: map[*ssa.Function]bool{}}
			continue
		}
		sum := &lockSummary{acquires: map[string]bool{}, blocks: map[string]string{}, calls: map[*ssa.Function]bool{}}
		sums[fn] = sum
		rule := &Rule{stop: func(x *Explorer, name string, f *ssa.Function) bool {
			return f != fn && f.Parent() == nil && (roots[f] || !relevant[f] && c.p.inModule(f))
		}}
		block := func(x *Explorer, st *State, ins ssa.Instruction, what string, own *Term) {
			sum.blocks[what] = c.p.instrPos(ins)
			for _, l := range st.held {
				if l == own {
					continue
				}
				x.report(st, ins.Pos(), "held:"+className(l)+":"+what+":"+fnName(st.top().fn), "%s while %s is held", what, l)
			}
		}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			n := ev.name
			switch n {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "invoke sync.Locker.Lock":
				l := lockOf(ev.raw[0])
				if n == "(*sync.RWMutex).RLock" {
					st.ts["rlock:"+tid(l)] = l
				} else {
					delete(st.ts, "rlock:"+tid(l))
				}
				c.count("acquisitions", 1)
				cl := className(l)
				sum.acquires[cl] = true
				for _, h := range st.held {
					if h != l {
						edges[className(h)+" -> "+cl] = edge{className(h), cl, fnName(st.top().fn), c.p.instrPos(ev.ins)}
					}
				}
				return
			case "(*sync.Cond).Wait":
				own := x.load(st, x.tt.field(ev.raw[0], 1, x.condPtr()), nil2any(x))
				block(x, st, ev.ins, "waiting on a condition", lockOf(own))
				return
			case "(*sync.WaitGroup).Wait", "time.Sleep":
				block(x, st, ev.ins, "waiting", nil)
				return
			case "dynamic":
				block(x, st, ev.ins, "calling a function value", nil)
				return
			}
			switch {
			case strings.HasPrefix(n, "chan ") && n != "chan try":
				block(x, st, ev.ins, "a channel operation", nil)
			case strings.HasPrefix(n, "(*os/exec.Cmd).") && !hasPrefixAny(n, "(*os/exec.Cmd).Environ", "(*os/exec.Cmd).String"):
				block(x, st, ev.ins, "running a subprocess", nil)
			case strings.HasPrefix(n, "invoke "+modPath):
				block(x, st, ev.ins, "calling "+strings.TrimPrefix(n, "invoke "+modPath+"."), nil)
			}
			if ev.fn != nil && c.p.inModule(ev.fn) && !relevant[ev.fn] && sums[ev.fn] == nil {
				sums[ev.fn] = &lockSummary{acquires: map[string]bool{}, blocks: blockingOps(c.p, ev.fn), calls: map[*ssa.Function]bool{}}
			}
			if ev.fn != nil && (roots[ev.fn] || !relevant[ev.fn]) {
				sum.calls[ev.fn] = true
				if len(st.held) > 0 {
					var hs []string
					for _, l := range st.held {
						hs = append(hs, className(l))
					}
					heldCalls = append(heldCalls, heldCall{hs, ev.fn, fnName(st.top().fn), c.p.instrPos(ev.ins)})
				}
			}
			// maps handed to other functions are read by them
			for _, a := range ev.raw {
				if m := mapAddr(unbox(a)); m != nil && !(ev.fn != nil && c.p.inModule(ev.fn)) {
					if _, ok := derefElem(m).(*types.Map); ok {
						record(x, st, m, "[]", false, ev.ins, "reads")
					}
				}
			}
		}
		rule.onLoad = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
			record(x, st, addr, "", false, ins, "reads")
		}
		rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
			publish(st, addr, val)
			record(x, st, addr, "", true, ins, "writes")
		}
		rule.onMapGet = func(x *Explorer, st *State, m, k *Term, ins ssa.Instruction) {
			if a := mapAddr(m); a != nil {
				record(x, st, a, "[]", false, ins, "looks up an entry of")
			}
		}
		rule.onMapUse = func(x *Explorer, st *State, m *Term, ins ssa.Instruction) {
			if a := mapAddr(m); a != nil {
				record(x, st, a, "[]", false, ins, "goes through the entries of")
			}
		}
		rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
			publish(st, m, v)
			if a := mapAddr(m); a != nil {
				record(x, st, a, "[]", true, ins, "changes an entry of")
			}
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			for _, l := range st.held {
				x.report(st, fn.Pos(), "leak:"+className(l)+":"+fnName(fn), "%s returns while %s is held", fnName(fn), l)
			}
		}
		rule.onPanic = func(x *Explorer, st *State, ins ssa.Instruction) { x.counts["exits-ok"]++ }
		c.explore(fn, rule, nil, nil)
	}
	c.atLeast("entry points explored", 40)
	c.atLeast("acquisitions", 8)

	// locksets
	var classes []string
	for k := range accs {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	for _, k := range classes {
		written := false
		votes := map[string]int{}
		for _, a := range accs[k] {
			written = written || a.write
			for l := range a.locks {
				votes[l]++
			}
		}
		if !written {
			continue
		}
		c.count("guarded locations", 1)
		c.count("accesses checked", len(accs[k]))
		best, n := "", 0
		for l, v := range votes {
			if v > n || v == n && l < best {
				best, n = l, v
			}
		}
		if best == "" {
			a := accs[k][0]
			c.violate(a.pos, "unguarded:"+k, a.trace, "no lock protects %s (%s %s it)", k, a.fn, a.what)
			continue
		}
		c.notes = append(c.notes, k+" is protected by "+best)
		for _, a := range accs[k] {
			if !a.locks[best] {
				c.violate(a.pos, "unlocked:"+k+":"+a.fn, a.trace, "%s %s %s without holding %s", a.fn, a.what, k, best)
			}
		}
	}
	c.atLeast("guarded locations", 7)

	// transitive summaries
	closure := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || sums[f] == nil {
				return
			}
			seen[f] = true
			for g := range sums[f].calls {
				walk(g)
			}
		}
		walk(f)
		return seen
	}
	for _, h := range heldCalls {
		for g := range closure(h.fn) {
			for what, where := range sums[g].blocks {
				c.violate(h.pos, "held-call:"+h.held[0]+":"+fnName(h.fn)+":"+h.in, nil, "%s calls %s while %s is held, which leads to %s at %s", h.in, fnName(h.fn), strings.Join(h.held, ", "), what, where)
			}
			for l := range sums[g].acquires {
				for _, hl := range h.held {
					edges[hl+" -> "+l] = edge{hl, l, h.in, h.pos}
				}
			}
		}
	}
	c.count("nestings of locks", len(edges))
	next := map[string][]string{}
	var keys []string
	for k, e := range edges {
		next[e.from] = append(next[e.from], e.to)
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := edges[k]
		seen := map[string]bool{}
		var walk func(s string) bool
		walk = func(s string) bool {
			if s == e.from {
				return true
			}
			if seen[s] {
				return false
			}
			seen[s] = true
			for _, t := range next[s] {
				if walk(t) {
					return true
				}
			}
			return false
		}
		if walk(e.to) {
			c.violate(e.pos, "order:"+k, nil, "%s acquires %s while holding %s, and elsewhere they are nested the other way around (or it is the same lock)", e.fn, e.to, e.from)
		}
	}
	c.rule("no variable captured by a goroutine is written by others without synchronization")
	checkCaptures(c, "")
}

// derefElem is the type that an address points to.
func derefElem(a *Term) types.Type {
	switch a.op {
	case OpGlobal:
		return deref(a.glob.Type()).Underlying()
	case OpField:
		if s := structOf(deref(a.typ)); s != nil && int(a.i) < s.NumFields() {
			return s.Field(a.i).Type().Underlying()
		}
	}
	return nil
}

func nil2any(x *Explorer) types.Type { return types.NewInterfaceType(nil, nil) }

// reachable gives the functions of the module (and the generic ones of its helpers) that f may run, by static calls and literals.
func reachable(p *Program, f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || out[f] || f.Blocks == nil {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					switch v := (*o).(type) {
					case *ssa.Function:
						if p.inModule(v) || v.Origin() != nil {
							walk(v)
						}
					}
				}
			}
		}
	}
	walk(f)
	return out
}

// touchesShared finds the functions that may use a lock, or a location of a shared type or package that is changed after its construction.
func (c *Check) touchesShared(shared map[string]bool) map[*ssa.Function]bool {
	own := map[*ssa.Function]bool{}
	fieldOf := func(v *ssa.FieldAddr) string {
		t := deref(v.X.Type())
		if n := named(t); n != nil {
			return originString(n)
		}
		return ""
	}
	scan := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if shared[fieldOf(v)] && (c.p.mutable[fieldKey(v.X.Type(), v.Field)] || isMapOrSync(deref(v.Type()))) {
						own[f] = true
					}
				case ssa.CallInstruction:
					if g := v.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" {
						own[f] = true
					}
					if v.Common().IsInvoke() && v.Common().Method.Pkg() != nil && v.Common().Method.Pkg().Path() == "sync" {
						own[f] = true
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && isModPath(g.Pkg.Pkg.Path()) && (c.p.mutable[g.String()] || isMapOrSync(deref(g.Type())) && !c.p.constantMap(g)) {
						own[f] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	scanned := map[*ssa.Function]bool{}
	for _, f := range c.p.srcFns {
		for g := range reachable(c.p, f) {
			if !scanned[g] {
				scanned[g] = true
				scan(g)
			}
			if own[g] {
				out[f] = true
				break
			}
		}
	}
	return out
}

// blockingOps finds, without regard to paths, what a function may block on.
func blockingOps(p *Program, f *ssa.Function) map[string]string {
	out := map[string]string{}
	for g := range reachable(p, f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch v := in.(type) {
				case *ssa.Send:
					what = "a channel operation"
				case *ssa.Select:
					if v.Blocking {
						what = "a channel operation"
					}
				case *ssa.UnOp:
					if v.Op == token.ARROW {
						what = "a channel operation"
					}
				case ssa.CallInstruction:
					cc := v.Common()
					switch {
					case cc.IsInvoke():
						if cc.Method.Pkg() != nil && isModPath(cc.Method.Pkg().Path()) {
							what = "calling " + cc.Method.Name()
						}
					case cc.StaticCallee() == nil:
						if _, builtin := cc.Value.(*ssa.Builtin); !builtin {
							what = "calling a function value"
						}
					case cc.StaticCallee().Pkg != nil && cc.StaticCallee().Pkg.Pkg.Path() == "os/exec" && cc.StaticCallee().Signature.Recv() != nil:
						what = "running a subprocess"
					}
				}
				if what != "" {
					out[what] = p.instrPos(in)
				}
			}
		}
	}
	return out
}

// constantMap tells whether a package variable is a map that is only changed by initialization functions
// and only read elsewhere.
func (p *Program) constantMap(g *ssa.Global) bool {
	if r, ok := p.constMaps[g]; ok {
		return r
	}
	if p.constMaps == nil {
		p.constMaps = map[*ssa.Global]bool{}
	}
	_, r := deref(g.Type()).Underlying().(*types.Map)
	var buf [16]*ssa.Value
	if r {
		for _, f := range p.srcFns {
			if f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(buf[:0]) {
						if *o == ssa.Value(g) && !onlyReads(in) {
							r = false
						}
					}
				}
			}
		}
	}
	p.constMaps[g] = r
	return r
}

// onlyReads tells whether an instruction loads a map which is then only read.
func onlyReads(in ssa.Instruction) bool {
	l, ok := in.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return false
	}
	for _, r := range *l.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isMapOrSync(t types.Type) bool {
	if n := named(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return true
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
