package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Path-sensitive dataflow over every function of the module: on every path to a return, each error produced by a call is known to be nil, is part of the returned error, has been replaced by another non-nil error, or falls under a listed tolerance.", checkErrors)
}

// neverFails: calls whose error is documented to be nil.
func neverFails(n string) bool {
	return n == "invoke hash.Hash.Write" || hasPrefixAny(n, "(*bytes.Buffer).Write", "(*strings.Builder).Write")
}

// errIgnorable: calls whose error may be ignored.
func errIgnorable(x *Explorer, ev *CallEvent) bool {
	n := ev.name
	switch {
	case hasPrefixAny(n, "fmt.Print", "fmt.Fprint"):
		return true // best-effort output
	case hasPrefixAny(n, "errors.", "fmt.Errorf"):
		return true // these make errors, they do not fail
	case strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ").Close"):
		return true // closing of written files is a separate obligation
	case n == "os.RemoveAll":
		return true // cleaning up
	case neverFails(n) || n == "invoke error.Unwrap" || hasPrefixAny(n, "(*bytes.Buffer)", "(*strings.Builder)") || strings.HasPrefix(n, "(*flag.FlagSet)"):
		return true
	case n == "fab.targetAddr" || n == "fab.checkImplementsTarget":
		return true // predicates; their uses are decided by C31, C02 and C22
	case n == "dynamic" && ev.sig != nil && ev.sig.Results().Len() == 0:
		return true
	}
	return false
}

// notExistTolerated: operations after which "does not exist" need not be an error.
func notExistTolerated(n string) bool {
	return oneOf(n, "os.Stat", "os.Lstat", "os.Open", "os.Remove", "os.ReadFile", "os.ReadDir", "golang.org/x/tools/go/packages.Load",
		"(*fab.Controller).ReadYAMLFile", "fab.openFabYAML", "os.OpenFile")
}

// asTolerated: operations for which an error of a particular type selects another way to proceed.
func asTolerated(n, typ string) bool {
	if strings.HasSuffix(typ, "BadYAMLNodeKindError") {
		return n == "(*fab.Controller).YAMLStringList"
	}
	return false
}

type errTrack struct {
	names map[*Term]string // what produced the error
	files map[*Term]string
}

func checkErrors(c *Check) {
	c.rule("every error result of an opaque call is pending until it is known to be nil, is contained in the returned error, or the path returns a certainly non-nil error")
	c.rule("a pending error may be forgotten if errors.Is(err, fs.ErrNotExist) holds and the operation may find nothing; if the call is best-effort output, or the recursive removal of temporary files")
	c.rule("every file opened for writing is closed with its error checked before success is returned")
	c.rule("the errors of bufio.Scanner and sql.Rows are asked for after their loops")
	for _, fn := range c.p.srcFns {
		if fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		checkErrorsIn(c, fn)
	}
	c.atLeast("functions checked", 80)
	c.atLeast("fallible calls", 120)
}

// takesError tells whether f is a function of the module that is not exported and has a parameter for an error.
func takesError(f *ssa.Function) bool {
	if f == nil || !isModPath(fnPkgPath(f)) || token.IsExported(f.Name()) {
		return false
	}
	for _, p := range f.Params {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem() // it may look at the variable, and set it
		}
		if isErrorType(t) {
			return true
		}
	}
	return false
}

func writesFile(x *Explorer, ev *CallEvent) bool {
	switch ev.name {
	case "os.Create", "os.CreateTemp":
		return true
	case "os.OpenFile":
		if fl, ok := ev.args[1].intVal(); ok {
			return fl&3 != 0 // O_WRONLY or O_RDWR
		}
		return true
	}
	return false
}

func checkErrorsIn(c *Check, fn *ssa.Function) {
	name := fnName(fn)
	c.count("functions checked", 1)
	sites := map[ssa.Instruction]bool{}
	et := &errTrack{names: map[*Term]string{}, files: map[*Term]string{}}
	key := func(e *Term) string { return "E:" + strconv.Itoa(int(e.id)) }
	hasErr := fn.Signature.Results().Len() > 0 && isErrorType(fn.Signature.Results().At(fn.Signature.Results().Len()-1).Type())
	root := func(e *Term) *Term { return unwrapErr(e) }

	// resolved tells whether e needs no further attention in this state.
	resolved := func(x *Explorer, st *State, e *Term) bool {
		if x.knownNil(st, e) {
			return true
		}
		n := et.names[e]
		if notExistTolerated(n) && x.knownTrue(st, x.isNotExist(e)) {
			return true
		}
		for f, v := range st.facts {
			if !v {
				continue
			}
			if f.isPure("errors.As") && f.args[0] == root(e) {
				if t, ok := f.args[1].strVal(); ok && asTolerated(n, t) {
					return true
				}
			}
			// comparison with a sentinel of the module that is not itself a failure
			if f.isPure("errors.Is") && f.args[0] == root(e) && f.args[1].op == OpLoad && f.args[1].args[0].op == OpGlobal {
				g := f.args[1].args[0].glob
				if g.Pkg != nil && isModPath(g.Pkg.Pkg.Path()) && !token.IsExported(g.Name()) {
					return true
				}
			}
			if f.isPure("errors.Is") && f.args[0] == root(e) && f.args[1].op == OpLoad && f.args[1].args[0].op == OpGlobal && oneOf(f.args[1].args[0].glob.Name(), "EOF", "ErrNoRows") {
				return true
			}
			if f.op == OpBin && f.s == "==" && (f.args[0] == e || f.args[1] == e) {
				for _, o := range f.args {
					if o.op == OpLoad && o.args[0].op == OpGlobal && oneOf(o.args[0].glob.Name(), "EOF", "ErrNoRows") {
						return true
					}
				}
			}
		}
		if n == "os.UserCacheDir" && hasCalled(st, "called:os.UserHomeDir") {
			return true
		}
		if n == "(*encoding/json.Decoder).Decode" || n == "encoding/json.Unmarshal" {
			// an unreadable record means that there is none; C10 decides what follows from that
			if hasCalled(st, "called:runtime/debug.ReadBuildInfo") && x.knownNonNil(st, e) {
				return true
			}
		}
		return false
	}
	rule := &Rule{stop: func(x *Explorer, n string, f *ssa.Function) bool {
		// what a function is given an error for is part of its caller's handling of it
		return stopModule(x, n, f) && !takesError(f)
	}}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if len(st.frames) == 0 {
			return
		}
		if oneOf(ev.name, "os.UserHomeDir", "runtime/debug.ReadBuildInfo") {
			st.ts["called:"+ev.name] = flag(x)
		}
		switch {
		case ev.name == "os.Exit":
			if n, ok := ev.args[0].intVal(); ok && n == 0 {
				for _, k := range tsKeys(st, "E:") {
					if e := st.ts[k]; !resolved(x, st, e) {
						x.report(st, ev.ins.Pos(), "exit0:"+name+":"+et.names[e], "the program exits successfully although %s may have failed", et.names[e])
					}
				}
			}
		case strings.HasSuffix(ev.name, "Close") && len(ev.args) >= 1:
			f := unbox(ev.args[0])
			if ev.kind != frDefer && ev.ins != nil {
				if e := ev.errResult(x); e != nil {
					st.ts["WC:"+strconv.Itoa(int(f.id))+":"+strconv.Itoa(int(e.id))] = e
				}
			}
		case ev.name == "(*bufio.Scanner).Scan" || ev.name == "(*database/sql.Rows).Next":
			st.ts["SC:"+strconv.Itoa(int(ev.args[0].id))] = ev.args[0]
		case ev.name == "(*bufio.Scanner).Err" || ev.name == "(*database/sql.Rows).Err":
			delete(st.ts, "SC:"+strconv.Itoa(int(ev.args[0].id)))
		}
		if ev.name == "dynamic" && ev.clo != nil {
			// an error handed to a closure of the enclosing function, in whose analysis the closure is a part
			if r := objRoot(ev.clo); r.op == OpParam && strings.HasPrefix(r.s, "free.") || ev.clo.op == OpLoad && strings.HasPrefix(objRoot(ev.clo.args[0]).s, "free.") {
				for _, k := range tsKeys(st, "E:") {
					for _, a := range ev.args {
						if a.contains(st.ts[k]) {
							delete(st.ts, k)
							break
						}
					}
				}
			}
		}
		e := ev.errResult(x)
		if e == nil || errIgnorable(x, ev) {
			return
		}
		if ev.res.op != OpCall && ev.res.op != OpTuple {
			return // modelled: not a failure of its own
		}
		if e.op == OpNil || nonNil(e) && !e.any(func(t *Term) bool { return t.op == OpCall }) {
			return
		}
		sites[ev.ins] = true
		et.names[e] = ev.name
		if ev.kind == frDefer || ev.kind == frGo {
			x.report(st, ev.ins.Pos(), "ignored:"+name+":"+ev.name, "the error of %s cannot be seen in a %s statement", ev.name, map[int]string{frDefer: "defer", frGo: "go"}[ev.kind])
			return
		}
		if v, ok := ev.ins.(ssa.Value); ok {
			if v.Referrers() != nil && len(*v.Referrers()) == 0 {
				// `_ = os.Remove(...)` and the like
				if ev.name == "os.Remove" || ev.name == "(*database/sql.Tx).Rollback" {
					return // clean-up whose failure has no consequence for the result; C10 and C20 decide where it has
				}
			}
		}
		st.ts[key(e)] = e
		if writesFile(x, ev) {
			f := x.tt.extract(ev.res, 0)
			et.files[f] = ev.name
			st.ts["W:"+strconv.Itoa(int(f.id))] = f
			st.ts["WE:"+strconv.Itoa(int(f.id))] = e
		}
	}
	drop := func(x *Explorer, st *State, pos tokenPos, e *Term, how string) {
		x.report(st, pos, "dropped:"+name+":"+et.names[e], "the error of %s is dropped %s", et.names[e], how)
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		// storing an error into an element of a slice made here, or into a variable of an enclosing function, passes it on
		for _, k := range tsKeys(st, "E:") {
			e := st.ts[k]
			if !val.contains(e) {
				continue
			}
			r := objRoot(addr)
			if isErrorType(val.typOr(types.Typ[types.Invalid])) || addr.op == OpField {
				st.ts["S:"+k] = addr
			}
			if addr.op == OpIndex && r.op == OpMake {
				delete(st.ts, k)
				st.ts["V:"+strconv.Itoa(int(r.id))] = r
			}
			if r.op == OpParam && strings.HasPrefix(r.s, "free.") || r.op == OpLoad && objRoot(r.args[0]).op == OpParam && strings.HasPrefix(objRoot(r.args[0]).s, "free.") {
				delete(st.ts, k)
			}
		}
	}
	rule.onWiden = func(x *Explorer, st *State, l *loopRec, from, to *Term) {
		for _, k := range tsKeys(st, "E:") {
			e := st.ts[k]
			if from != to && from.contains(e) && to.op != OpTop {
				delete(st.ts, k)
				if x.assumeCheck(st, to) {
					st.ts[key(to)] = to
					et.names[to] = et.names[e]
				}
			}
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		for _, k := range tsKeys(st, "E:") {
			e := st.ts[k]
			in := false
			for _, s := range e.scopes {
				if strings.HasPrefix(s, l.name+":") {
					in = true
				}
			}
			if !in {
				continue
			}
			if resolved(x, st, e) {
				delete(st.ts, k)
				continue
			}
			kept := false
			for _, t := range news {
				if t.contains(e) {
					kept = true
				}
			}
			for a, v := range st.heap {
				if v.contains(e) && !(isLocalObj(objRoot(a)) && len(objRoot(a).scopes) > 0 && strings.HasPrefix(objRoot(a).scopes[0], l.name)) {
					kept = true
				}
			}
			if !kept {
				drop(x, st, headPos(l), e, "when the loop goes on")
				delete(st.ts, k)
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		var rerr *Term
		if hasErr {
			rerr = last(res)
		}
		pos := fn.Pos()
		certain := rerr != nil && x.knownNonNil(st, rerr)
		for _, k := range tsKeys(st, "E:") {
			e := st.ts[k]
			if certain || resolved(x, st, e) {
				continue
			}
			inRes := false
			for _, r := range res {
				if r.contains(e) {
					inRes = true
				}
				// what was stored in a field is returned from there
				if a := st.ts["S:"+k]; a != nil && r.any(func(t *Term) bool { return t.op == OpLoad && t.args[0] == a }) {
					inRes = true
				}
			}
			if inRes {
				continue
			}
			drop(x, st, pos, e, "by "+name)
		}
		for _, k := range tsKeys(st, "V:") {
			v := st.ts[k]
			if certain || rerr != nil && rerr.contains(v) {
				continue
			}
			x.report(st, pos, "dropped:"+name+":slice", "errors collected in %s are not part of the result of %s", v, name)
		}
		for _, k := range tsKeys(st, "SC:") {
			if certain {
				continue
			}
			x.report(st, pos, "scan:"+name, "the error of the scanner %s is not asked for", st.ts[k])
		}
		if certain {
			return
		}
		for _, k := range tsKeys(st, "W:") {
			f := st.ts[k]
			id := strings.TrimPrefix(k, "W:")
			if !x.knownNil(st, st.ts["WE:"+id]) {
				continue
			}
			ok := false
			for _, r := range res {
				if r.contains(f) {
					ok = true // the caller gets the file
				}
			}
			for _, ck := range tsKeys(st, "WC:"+id+":") {
				e := st.ts[ck]
				if x.knownNil(st, e) || rerr != nil && rerr.contains(e) {
					ok = true
				}
			}
			if !ok {
				x.report(st, pos, "unclosed:"+name+":"+et.files[f], "a file opened with %s for writing is not closed with its error checked before %s returns success", et.files[f], name)
			}
		}
	}
	x := c.explorer(rule)
	x.run(fn, nil, nil)
	c.count("abstract states", x.states)
	c.count("paths to an exit", x.exits)
	c.funcs[name] = true
	if x.problem != "" {
		c.undecided(name, "%s at %s", x.problem, c.p.posStr(x.problemPos))
	}
	c.count("fallible calls", len(sites))
}

func hasCalled(st *State, k string) bool { _, ok := st.ts[k]; return ok }

func headPos(l *loopRec) tokenPos {
	for _, in := range l.loop.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.loop.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// assumeCheck tells whether t can hold an error.
func (x *Explorer) assumeCheck(st *State, t *Term) bool {
	if ph, ok := t.ins.(*ssa.Phi); ok && t.op == OpPhi {
		_, isIface := ph.Type().Underlying().(*types.Interface)
		_, isSlice := ph.Type().Underlying().(*types.Slice)
		return isIface || isSlice
	}
	return t.op == OpMem
}
