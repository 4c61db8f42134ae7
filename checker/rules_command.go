package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Path-sensitive typestate and dataflow over Command.Run with everything it calls inlined: at the start of the process, each stream's destination is compared with what the fields known on that path ask for; on every way out, each file and closer opened is closed.", func(c *Check) { checkCommand(c) })
	register("C16", "Path-sensitive typestate and dataflow over Command.Run with everything it calls inlined: what process is started, how often, and what becomes of its error and captured output on every path.", func(c *Check) { checkCommand(c) })
}

// normCond strips negations from a branch condition.
func normCond(cond *Term, val bool) (*Term, bool) {
	for cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	return cond, val
}

// emptiness tells which string or slice a condition compares with the empty one, and whether it is empty if the condition has the given value.
func emptiness(cond *Term, val bool) (subj *Term, empty, ok bool) {
	cond, val = normCond(cond, val)
	if cond.op != OpBin || len(cond.args) != 2 {
		return nil, false, false
	}
	a, b := cond.args[0], cond.args[1]
	switch cond.s {
	case "==":
		if a.isStr("") || a.isInt(0) || a.isNil() {
			a, b = b, a
		}
		switch {
		case b.isStr("") || b.isNil():
			return a, val, true
		case b.isInt(0) && a.isPure("len"):
			return a.args[0], val, true
		}
	case "<":
		if a.isInt(0) && b.isPure("len") {
			return b.args[0], !val, true
		}
		if b.isInt(1) && a.isPure("len") {
			return a.args[0], val, true
		}
	}
	return nil, false, false
}

const nCopier = "(*fab.Controller).IndentingCopier"

// checkCommand is C15 and C16.
func checkCommand(c *Check) {
	is16 := c.id == "C16"
	if is16 {
		c.rule("on every path of Command.Run at most one process is started; on every path to success outside dry-run mode exactly one, and it is known to have succeeded")
		c.rule("the process is made by exec.CommandContext with the context given to Run; name and arguments are Cmd and Args where Cmd is known to be set, and otherwise $SHELL (or /bin/sh where that is known to be empty) with -c and Shell; Dir is the Dir field and Env is os.Environ() followed by the Env field; no other setting of the process is changed")
		c.rule("on every path where the process may have failed, the error returned contains its error in a way that errors.Is and errors.As can see, and, unless the buffer is known to be empty, the captured output")
	} else {
		c.rule("at the start of the process, the destination of each stream is: the file named by its File field, opened for truncation or, with the >> prefix, for appending, where that field is known to be set; else the result of its Fn field; else its Writer field; else an IndentingCopier onto fab's own stream in verbose mode and a capturing buffer otherwise")
		c.rule("where both streams have files, it is known whether these are the same, and if so there is a single open file")
		c.rule("standard input is the file named by StdinFile where that is set, else the Stdin field")
		c.rule("on every way out, every file opened and every result of StdoutFn or StderrFn that is an io.Closer has been closed, after the process ended, and on success the error of closing what was written is known to be nil")
		c.rule("Command.Run fails before starting the process only if an operation failed or the two streams disagree about how to open their common file")
	}
	fn := c.need("", "Command.Run")
	typ := c.namedType("", "Command")
	if fn == nil || typ == nil {
		return
	}
	if len(fn.Params) != 3 {
		c.fail("anchor", "Command.Run does not have the expected parameters")
		return
	}
	streams := []string{"Stdout", "Stderr"}
	// fieldOfC tells which field of the command a value is.
	fieldOfC := func(x *Explorer, t *Term) string {
		t = unbox(t)
		if t.op == OpLoad && t.args[0].op == OpField && t.args[0].args[0] == x.params[0] {
			return fieldName(t.args[0].typ, t.args[0].i)
		}
		return ""
	}
	// fileName tells which of the file fields t is the name from, and whether a prefix has been removed.
	var fileName func(x *Explorer, t *Term) (field string, stripped, ok bool)
	fileName = func(x *Explorer, t *Term) (string, bool, bool) {
		if f := fieldOfC(x, t); strings.HasSuffix(f, "File") {
			return f, false, true
		}
		switch {
		case t.isPure("strings.TrimLeft") && (t.args[1].isStr("> ") || t.args[1].isStr(">") || t.args[1].isStr(" >")):
			if f := fieldOfC(x, t.args[0]); f != "" {
				return f, true, true
			}
			return fileName(x, t.args[0])
		case t.isPure("strings.TrimPrefix") && t.args[1].isStr(">>"):
			if f := fieldOfC(x, t.args[0]); f != "" {
				return f, true, true
			}
		case t.op == OpExtract && t.i == 0 && t.args[0].isPure("strings.CutPrefix") && t.args[0].args[1].isStr(">>"):
			if f := fieldOfC(x, t.args[0].args[0]); f != "" {
				return f, true, true
			}
		case t.op == OpSub && len(t.args) >= 2 && t.args[1].isInt(2):
			if f := fieldOfC(x, t.args[0]); f != "" {
				return f, true, true
			}
		case t.isPure("strings.TrimSpace"), t.isPure("strings.TrimLeft") && t.args[1].isStr(" "):
			if f, s, ok := fileName(x, t.args[0]); ok && s {
				return f, s, ok
			}
		}
		return "", false, false
	}
	bl := func(x *Explorer, b bool) *Term { return x.tt.boolean(b) }

	rule := &Rule{stop: stopAt(nCopier, "(*fab.Controller).Indentf"), keepArgs: allArgs}
	// what a path knows about the fields
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		nc, nv := normCond(cond, val)
		if s, empty, ok := emptiness(cond, val); ok {
			if f := fieldOfC(x, s); f != "" {
				st.ts["empty:"+f] = bl(x, empty)
			} else if f, stripped, ok := fileName(x, s); ok && stripped {
				st.ts["emptyname:"+f] = bl(x, empty)
			}
			if cl := callTo(s, "os.Getenv", "os.LookupEnv"); cl != nil && cl.args[0].isStr("SHELL") {
				st.ts["empty:SHELL"] = bl(x, empty)
			}
			if s.op == OpCall && st.ts["fnres:"+tid(s)] != nil {
				st.ts["nilres:"+tid(s)] = bl(x, empty)
			}
			if b := lenOfBuffer(s); b != nil {
				st.ts["bufempty:"+tid(b)] = bl(x, empty)
			}
		}
		if nc.op == OpBin && len(nc.args) == 2 {
			// buf.Len() > 0
			a, b := nc.args[0], nc.args[1]
			switch {
			case nc.s == "==" && b.isInt(0) && callTo(a, "(*bytes.Buffer).Len") != nil:
				st.ts["bufempty:"+tid(unbox(callTo(a, "(*bytes.Buffer).Len").args[0]))] = bl(x, nv)
			case nc.s == "<" && a.isInt(0) && callTo(b, "(*bytes.Buffer).Len") != nil:
				st.ts["bufempty:"+tid(unbox(callTo(b, "(*bytes.Buffer).Len").args[0]))] = bl(x, !nv)
			}
			if nc.s == "==" {
				f1, _, ok1 := fileName(x, a)
				f2, _, ok2 := fileName(x, b)
				if ok1 && ok2 && f1 != f2 {
					st.ts["same"] = bl(x, nv)
				}
			}
		}
		pre := nc
		if nc.op == OpExtract && nc.i == 1 && nc.args[0].isPure("strings.CutPrefix") {
			pre = nc.args[0]
		}
		if (pre.isPure("strings.HasPrefix") || pre.isPure("strings.CutPrefix")) && pre.args[1].isStr(">>") {
			if f := fieldOfC(x, pre.args[0]); f != "" {
				st.ts["append:"+f] = bl(x, nv)
			}
		}
		if cl := callTo(nc, "os.LookupEnv"); cl != nil && nc.i == 1 && !nv {
			st.ts["empty:SHELL"] = bl(x, true)
		}
	}
	known := func(st *State, key string) (val, ok bool) {
		t := st.ts[key]
		if t == nil {
			return false, false
		}
		return t.isTrue(), true
	}
	// appends tells how the field's file is to be opened; asked of the facts, too, for conditions that were joined.
	appends := func(x *Explorer, st *State, f string) (bool, bool) {
		if v, ok := known(st, "append:"+f); ok {
			return v, ok
		}
		for t, v := range st.facts {
			if t.isPure("strings.HasPrefix") && fieldOfC(x, t.args[0]) == f && t.args[1].isStr(">>") {
				return v, true
			}
		}
		if v, ok := known(st, "empty:"+f); ok && v {
			return false, true
		}
		return false, false
	}

	checkFile := func(x *Explorer, st *State, ev *CallEvent, stream string, w *Term) {
		field := stream + "File"
		w = unbox(w)
		cl := callTo(w, "os.Create", "os.OpenFile")
		if cl == nil || w.op != OpExtract || w.i != 0 {
			x.report(st, ev.ins.Pos(), "file:"+stream, "%s is set but the process writes its %s to %s", field, strings.ToLower(stream), w)
			return
		}
		if !x.knownNil(st, x.tt.extract(cl, 1)) {
			x.report(st, ev.ins.Pos(), "file:open:"+stream, "the process is started although opening the file for %s may have failed", stream)
		}
		if st.ts["closed:"+tid(w)] != nil {
			x.report(st, ev.ins.Pos(), "file:closed:"+stream, "the file for %s is closed before the process is started", stream)
		}
		f, stripped, ok := fileName(x, cl.args[0])
		if !ok {
			x.report(st, ev.ins.Pos(), "file:name:"+stream, "the file for %s is opened under the name %s", stream, cl.args[0])
			return
		}
		if f != field {
			if same, ok := known(st, "same"); !ok || !same {
				x.report(st, ev.ins.Pos(), "file:other:"+stream, "%s goes to the file for %s, which need not be the same", stream, f)
				return
			}
		}
		app, ok := appends(x, st, f)
		if !ok {
			x.report(st, ev.ins.Pos(), "file:prefix:"+stream, "the file for %s is opened without asking whether to append", stream)
			return
		}
		if stripped != app {
			x.report(st, ev.ins.Pos(), "file:strip:"+stream, "the file for %s is opened under the name %s", stream, cl.args[0])
		}
		trunc, appnd, create := true, false, true
		if callTo(w, "os.OpenFile") != nil {
			fl, known := cl.args[1].intVal()
			if !known || fl&3 == 0 {
				x.report(st, ev.ins.Pos(), "file:flags:"+stream, "the file for %s is not opened for writing", stream)
				return
			}
			trunc, appnd, create = fl&0x200 != 0, fl&0x400 != 0, fl&0x40 != 0 && fl&0x80 == 0
		}
		if !create {
			x.report(st, ev.ins.Pos(), "file:create:"+stream, "the file for %s is not created if it is absent, or may not be there before", stream)
		}
		if app && (trunc || !appnd) || !app && (!trunc || appnd) {
			x.report(st, ev.ins.Pos(), "file:mode:"+stream, "the file for %s is opened with the wrong mode (append wanted: %v)", stream, app)
		}
		c.count("streams to files", 1)
	}

	checkStreams := func(x *Explorer, st *State, ev *CallEvent, cmd *Term) {
		ws := map[string]*Term{}
		for _, s := range streams {
			ws[s] = c.cmdField(x, st, cmd, s)
		}
		for _, s := range streams {
			w := ws[s]
			if w == nil {
				return
			}
			empty, ok := known(st, "empty:"+s+"File")
			if !ok {
				empty, ok = known(st, "emptyname:"+s+"File")
			} else if !empty {
				if e, ok := known(st, "emptyname:"+s+"File"); ok && e {
					continue // nothing but the prefix
				}
			}
			if !ok {
				x.report(st, ev.ins.Pos(), "unasked:"+s, "the process is started without asking for %sFile", s)
				continue
			}
			if !empty {
				checkFile(x, st, ev, s, w)
				continue
			}
			if a, ok := appends(x, st, s+"File"); ok && a {
				continue // nothing but the prefix
			}
			nilW, okW := known(st, "empty:"+s)
			nilF, okF := known(st, "empty:"+s+"Fn")
			w = unbox(w)
			if fieldOfC(x, w) == s {
				// a writer of the user's; not nil, or else the output is lost
				if !okW || nilW {
					x.report(st, ev.ins.Pos(), "nil:"+s, "the %s of the process may be discarded", s)
				}
				if okF && !nilF {
					continue // mutually exclusive
				}
				c.count("streams to writers", 1)
				continue
			}
			if okW && !nilW {
				if !(okF && !nilF) {
					x.report(st, ev.ins.Pos(), "writer:"+s, "%s is set but the process writes to %s", s, w)
				}
				continue
			}
			if !okW {
				x.report(st, ev.ins.Pos(), "unasked:writer:"+s, "the process is started without asking for %s", s)
				continue
			}
			if !okF {
				x.report(st, ev.ins.Pos(), "unasked:fn:"+s, "the process is started without asking for %sFn", s)
				continue
			}
			if !nilF {
				res := st.ts["fn:"+s+"Fn"]
				if res == nil {
					x.report(st, ev.ins.Pos(), "fn:uncalled:"+s, "%sFn is set but not called", s)
					continue
				}
				isNil, ok := known(st, "nilres:"+tid(res))
				if !ok {
					x.report(st, ev.ins.Pos(), "fn:nil:"+s, "the result of %sFn may be nil", s)
					continue
				}
				if !isNil {
					if w != res {
						x.report(st, ev.ins.Pos(), "fn:"+s, "%sFn gives a writer but the process writes to %s", s, w)
					}
					if st.ts["closed:"+tid(res)] != nil {
						x.report(st, ev.ins.Pos(), "fn:closed:"+s, "the writer from %sFn is closed before the process is started", s)
					}
					c.count("streams to functions", 1)
					continue
				}
			}
			// the default
			verbose := x.tt.pure("fab.GetVerbose", x.params[1])
			switch {
			case x.knownTrue(st, verbose):
				cl := callTo(w, nCopier)
				if cl == nil || cl.args[0] != x.params[2] || !isGlobal(unbox(cl.args[1]), "os", s) {
					x.report(st, ev.ins.Pos(), "verbose:"+s, "in verbose mode, %s goes to %s and not, indented, to fab's own", s, w)
				}
				c.count("streams indented", 1)
			case x.knownFalse(st, verbose):
				if !isBuffer(w) {
					x.report(st, ev.ins.Pos(), "capture:"+s, "%s goes to %s and is not captured", s, w)
				}
				c.count("streams captured", 1)
			default:
				x.report(st, ev.ins.Pos(), "unasked:verbose", "the process is started without asking whether to be verbose")
			}
		}
		// one file for both
		o, e := unbox(ws["Stdout"]), unbox(ws["Stderr"])
		if callTo(o, "os.Create", "os.OpenFile") != nil && callTo(e, "os.Create", "os.OpenFile") != nil {
			same, ok := known(st, "same")
			if !ok {
				x.report(st, ev.ins.Pos(), "same:unasked", "the process is started without asking whether both streams go to the same file")
			} else if same != (o == e) {
				x.report(st, ev.ins.Pos(), "same", "files are the same: %v, but the streams share an open file: %v", same, o == e)
			}
		}
		in := unbox(c.cmdField(x, st, cmd, "Stdin"))
		empty, ok := known(st, "empty:StdinFile")
		switch {
		case !ok:
			x.report(st, ev.ins.Pos(), "stdin:unasked", "the process is started without asking for StdinFile")
		case empty:
			if n, ok := known(st, "empty:Stdin"); fieldOfC(x, in) != "Stdin" && !(ok && n && in.isNil()) {
				x.report(st, ev.ins.Pos(), "stdin:reader", "the process does not read from Stdin but from %s", in)
			}
		default:
			p := openedPath(in)
			if p == nil || fieldOfC(x, p) != "StdinFile" {
				x.report(st, ev.ins.Pos(), "stdin:file", "StdinFile is set but the process reads from %s", in)
			} else if !x.knownNil(st, x.tt.extract(callTo(in, "os.Open", "os.OpenFile"), 1)) {
				x.report(st, ev.ins.Pos(), "stdin:open", "the process is started although opening StdinFile may have failed")
			}
			if cl := callTo(in, "os.OpenFile", "os.Create"); cl != nil {
				if len(cl.args) < 2 || !cl.args[1].isInt(0) {
					x.report(st, ev.ins.Pos(), "stdin:flags", "StdinFile is not opened just for reading")
				}
			}
			if st.ts["closed:"+tid(in)] != nil {
				x.report(st, ev.ins.Pos(), "stdin:closed", "StdinFile is closed before the process is started")
			}
			c.count("inputs from files", 1)
		}
	}

	checkProcess := func(x *Explorer, st *State, ev *CallEvent, cmd *Term) {
		ctx, words, ok := c.cmdWords(x, st, cmd)
		cl := callTo(unbox(cmd), "os/exec.CommandContext")
		if cl == nil {
			x.report(st, ev.ins.Pos(), "process:ctx", "the process is not made with exec.CommandContext")
			return
		}
		if ctx != x.params[1] {
			x.report(st, ev.ins.Pos(), "process:ctx", "the process runs under %s and not the context given to Run", ctx)
		}
		empty, asked := known(st, "empty:Cmd")
		switch {
		case !asked:
			x.report(st, ev.ins.Pos(), "process:unasked", "the process is started without asking for Cmd")
		case !empty:
			elems, spreads := listOf(cl.args[2])
			if fieldOfC(x, words[0]) != "Cmd" || len(elems) != 0 || len(spreads) != 1 || fieldOfC(x, copied(spreads[0])) != "Args" {
				x.report(st, ev.ins.Pos(), "process:cmd", "Cmd is set but %s is run with %s", words[0], cl.args[2])
			}
			c.count("direct commands", 1)
		default:
			if !ok || len(words) != 3 || !words[1].isStr("-c") || fieldOfC(x, words[2]) != "Shell" {
				x.report(st, ev.ins.Pos(), "process:shell", "Cmd is not set but the arguments are %s, and not -c with the Shell string", cl.args[2])
			}
			noShell, asked := known(st, "empty:SHELL")
			sh := callTo(words[0], "os.Getenv", "os.LookupEnv")
			switch {
			case !asked:
				x.report(st, ev.ins.Pos(), "process:noshell", "the process is started without asking for $SHELL")
			case noShell && !words[0].isStr("/bin/sh"), !noShell && (sh == nil || !sh.args[0].isStr("SHELL")):
				x.report(st, ev.ins.Pos(), "process:whichshell", "the shell run is %s (is $SHELL empty: %v)", words[0], noShell)
			}
			c.count("shell commands", 1)
		}
		if d := c.cmdField(x, st, cmd, "Dir"); fieldOfC(x, d) != "Dir" {
			x.report(st, ev.ins.Pos(), "process:dir", "the process runs in %s and not in Dir", d)
		}
		env := c.cmdField(x, st, cmd, "Env")
		elems, spreads := listOf(env)
		base := func(t *Term) bool {
			return callTo(t, "os.Environ") != nil || callTo(t, "(*os/exec.Cmd).Environ") != nil
		}
		ok = len(elems) == 0 && len(spreads) == 2 && base(spreads[0]) && fieldOfC(x, copied(spreads[1])) == "Env"
		if e, k := known(st, "empty:Env"); k && e {
			ok = ok || env.isNil() || len(elems) == 0 && len(spreads) == 1 && base(spreads[0])
		}
		if !ok {
			x.report(st, ev.ins.Pos(), "process:env", "the environment of the process is %s, and not fab's followed by Env", env)
		}
	}

	isStart := func(n string) bool {
		return oneOf(n, "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "os.StartProcess", "(*os/exec.Cmd).StdoutPipe", "(*os/exec.Cmd).StderrPipe", "(*os/exec.Cmd).StdinPipe")
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if !is16 || addr.op != OpField {
			return
		}
		if callTo(unbox(addr.args[0]), "os/exec.CommandContext", "os/exec.Command") != nil {
			if f := fieldName(addr.typ, addr.i); !oneOf(f, "Dir", "Env", "Stdin", "Stdout", "Stderr") {
				x.report(st, ins.Pos(), "setting:"+f, "the setting %s of the process is changed", f)
			}
		}
		if r := objRoot(addr); r == x.params[0] {
			x.report(st, ins.Pos(), "self:"+fieldName(addr.typ, addr.i), "running the command changes its definition")
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case isStart(ev.name):
			c.count("process starts", 1)
			if st.ts["started"] != nil && is16 {
				x.report(st, ev.ins.Pos(), "twice", "a second process is started")
			}
			st.ts["started"] = flag(x)
			if !ev.is("(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start") || ev.kind != frCall {
				x.report(st, ev.ins.Pos(), "start", "the process is started with %s, whose effect on the streams is not understood", ev.name)
				return
			}
			cmd := unbox(ev.args[0])
			if ev.is("(*os/exec.Cmd).Run") {
				st.ts["procerr"] = ev.errResult(x)
				st.ts["ended"] = flag(x)
			} else {
				st.ts["starterr"] = ev.errResult(x)
			}
			for _, s := range streams {
				if w := c.cmdField(x, st, cmd, s); w != nil && isBuffer(unbox(w)) {
					st.ts["cap:"+s] = unbox(w)
				}
			}
			if is16 {
				checkProcess(x, st, ev, cmd)
			} else {
				checkStreams(x, st, ev, cmd)
			}
		case ev.is("(*os/exec.Cmd).Wait"):
			st.ts["procerr"] = ev.errResult(x)
			st.ts["ended"] = flag(x)
		case ev.is("context.WithTimeout", "context.WithDeadline", "context.WithoutCancel"):
			if is16 {
				x.report(st, ev.ins.Pos(), "ctx:"+ev.name, "the process is not run under just the context given to Run")
			}
		case ev.is("dynamic"):
			f := fieldOfC(x, ev.clo)
			if !oneOf(f, "StdoutFn", "StderrFn") {
				if !is16 {
					x.report(st, ev.ins.Pos(), "dynamic", "unknown code is called: %s", ev.clo)
				}
				return
			}
			c.count("calls of output functions", 1)
			if !is16 {
				if ev.args[0] != x.params[1] || ev.args[1] != x.params[2] {
					x.report(st, ev.ins.Pos(), "fn:args", "%s is called with something other than Run's context and controller", f)
				}
				if st.ts["fn:"+f] != nil {
					x.report(st, ev.ins.Pos(), "fn:twice", "%s is called twice", f)
				}
			}
			st.ts["fn:"+f] = ev.res
			st.ts["fnres:"+tid(ev.res)] = ev.res
		case ev.is("os.Open", "os.OpenFile", "os.Create"):
			f := x.tt.extract(ev.res, 0)
			st.ts["opened:"+tid(f)] = f
			if writesFile(x, ev) {
				st.ts["written:"+tid(f)] = f
			}
		case strings.HasSuffix(ev.name, ".Close"):
			f := unbox(ev.args[0])
			if st.ts["closed:"+tid(f)] == nil {
				st.ts["closed:"+tid(f)] = ev.errResult(x)
				if e := st.ts["starterr"]; e != nil && !x.knownNonNil(st, e) && st.ts["ended"] == nil && !is16 {
					x.report(st, ev.ins.Pos(), "close:early", "%s is closed while the process is running", f)
				}
				if ev.kind == frDefer {
					st.ts["closeign:"+tid(f)] = flag(x)
				}
			}
		case effectful(ev) != "":
			if is16 {
				x.report(st, ev.ins.Pos(), "effect:"+ev.name, "%s is called, which %s", ev.name, effectful(ev))
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("exits", 1)
		rerr := last(res)
		pos := fn.Pos()
		dry := x.tt.pure("fab.GetDryRun", x.params[1])
		pe := st.ts["procerr"]
		if is16 {
			if pe != nil && !x.knownNil(st, pe) {
				c.count("exits after a failure", 1)
				if !seesError(rerr, pe) {
					x.report(st, pos, "failure", "the error of the process need not be part of the error returned (%s)", rerr)
				}
				for _, s := range streams {
					if b := st.ts["cap:"+s]; b != nil {
						if e, ok := known(st, "bufempty:"+tid(b)); ok && e {
							continue
						}
						if !rerr.any(func(t *Term) bool {
							cl := callTo(t, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String")
							return cl != nil && unbox(cl.args[0]) == b
						}) {
							x.report(st, pos, "captured", "the captured %s need not be part of the error returned (%s)", s, rerr)
						}
					}
				}
			}
			if se := st.ts["starterr"]; se != nil && !x.knownNil(st, se) && pe == nil && !seesError(rerr, se) {
				x.report(st, pos, "failure:start", "the error of starting the process need not be part of the error returned (%s)", rerr)
			}
			if x.knownNonNil(st, rerr) || !x.succeeds(st, res) {
				return
			}
			c.count("successful exits", 1)
			if x.knownTrue(st, dry) {
				return
			}
			if pe == nil {
				x.report(st, pos, "unrun", "Command.Run may return success without having run anything")
			} else if !x.knownNil(st, pe) {
				x.report(st, pos, "failed", "Command.Run may return success although the process may have failed")
			}
			return
		}
		// files and closers
		success := !x.knownNonNil(st, rerr)
		for _, k := range tsKeys(st, "opened:") {
			f := st.ts[k]
			cl := callTo(f, "os.Open", "os.OpenFile", "os.Create")
			if cl == nil || x.knownNonNil(st, x.tt.extract(cl, 1)) {
				continue
			}
			e := st.ts["closed:"+tid(f)]
			if e == nil {
				x.report(st, pos, "unclosed:"+tid(f), "%s may not be closed when Command.Run returns", f)
				continue
			}
			if st.ts["written:"+tid(f)] != nil && success && !x.knownNil(st, e) && !rerr.contains(e) {
				x.report(st, pos, "closefail:"+tid(f), "Command.Run may return success although closing %s failed", f)
			}
		}
		for _, k := range tsKeys(st, "fnres:") {
			w := st.ts[k]
			if n, ok := known(st, "nilres:"+tid(w)); ok && n {
				continue
			}
			closer, ok := false, false
			for t, v := range st.facts {
				if t.op == OpIsType && t.args[0] == w && strings.HasSuffix(shortType(t.typ), "Closer") {
					closer, ok = v, true
				}
			}
			e := st.ts["closed:"+tid(w)]
			switch {
			case ok && !closer:
			case e == nil:
				x.report(st, pos, "unclosedfn", "%s may be a closer that is not closed when Command.Run returns", w)
			case success && !x.knownNil(st, e) && !rerr.contains(e):
				x.report(st, pos, "closefailfn", "Command.Run may return success although closing %s failed", w)
			}
		}
		if st.ts["started"] == nil && !success {
			c.count("failures before the start", 1)
			if rerr.any(func(t *Term) bool { return t.op == OpCall && !nonNil(t) }) {
				return // an operation failed
			}
			same, ok := known(st, "same")
			a, ok1 := appends(x, st, "StdoutFile")
			b, ok2 := appends(x, st, "StderrFile")
			if !ok || !same || !ok1 || !ok2 || a == b {
				x.report(st, pos, "spurious", "Command.Run may fail although no operation failed and the streams do not disagree")
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("process starts", 1)
	if is16 {
		c.atLeast("direct commands", 1)
		c.atLeast("shell commands", 1)
		c.atLeast("exits after a failure", 1)
		c.atLeast("successful exits", 2)
		checkCommandErr(c)
	} else {
		c.atLeast("streams to files", 2)
		c.atLeast("streams to writers", 2)
		c.atLeast("streams to functions", 2)
		c.atLeast("streams indented", 2)
		c.atLeast("streams captured", 2)
		c.atLeast("inputs from files", 1)
	}
	c.errorDiscipline()
}

// isGlobal tells whether t is the value of a variable of another package.
func isGlobal(t *Term, pkg, name string) bool {
	if t.op != OpLoad || t.args[0].op != OpGlobal {
		return false
	}
	g := t.args[0].glob
	return g.Name() == name && g.Pkg != nil && g.Pkg.Pkg.Path() == pkg
}

// isBuffer tells whether w collects what is written to it in memory.
func isBuffer(w *Term) bool {
	if callTo(w, "bytes.NewBuffer", "bytes.NewBufferString") != nil {
		return true
	}
	return w.op == OpAlloc && w.typ != nil && strings.HasSuffix(typeKey(w.typ), "bytes.Buffer")
}

func lenOfBuffer(s *Term) *Term {
	if cl := callTo(s, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String"); cl != nil {
		return unbox(cl.args[0])
	}
	if cl := callTo(s, "(*bytes.Buffer).Len"); cl != nil {
		return unbox(cl.args[0])
	}
	return nil
}

// seesError tells whether errors.Is(t, e) holds through the ways of wrapping that are used here.
func seesError(t, e *Term) bool {
	if t == nil {
		return false
	}
	t = unbox(t)
	if t == e || unwrapErr(t) == unwrapErr(e) {
		return true
	}
	switch {
	case t.op == OpWrap:
		return seesError(t.args[0], e)
	case t.op == OpJoin:
		return t.contains(e)
	case t.op == OpNewErr:
		if !isFmtW(t) {
			return false
		}
		for _, a := range t.args {
			elems, _ := listOf(a)
			for _, el := range append(elems, a) {
				if el != t && el.op != OpSeq && seesError(el, e) {
					return true
				}
			}
		}
		return false
	case t.op == OpStruct:
		if i := fieldIndex(t.typ, "Err"); i >= 0 && i < len(t.args) && strings.HasSuffix(typeKey(t.typ), "CommandErr") {
			return seesError(t.args[i], e)
		}
	}
	return false
}

// checkCommandErr: the error that carries captured output gives access to the error of the process.
func checkCommandErr(c *Check) {
	c.rule("CommandErr.Unwrap returns the Err field, and CommandErr.Error contains the text of Err and the output")
	for _, m := range []string{"Unwrap", "Error"} {
		fn := c.need("", "CommandErr."+m)
		if fn == nil {
			continue
		}
		c.explore(fn, &Rule{keepArgs: allArgs, onExit: func(x *Explorer, st *State, res []*Term) {
			c.count("exits of CommandErr methods", 1)
			field := func(t *Term, name string) bool {
				return t.any(func(s *Term) bool {
					return s.op == OpFieldV && fieldName(ptrTo(s.typ), s.i) == name || s.op == OpLoad && s.args[0].op == OpField && fieldName(s.args[0].typ, s.args[0].i) == name
				})
			}
			if m == "Unwrap" {
				if !field(res[0], "Err") || res[0].op != OpFieldV && res[0].op != OpLoad {
					x.report(st, fn.Pos(), "unwrap", "CommandErr.Unwrap returns %s", res[0])
				}
			} else if !field(res[0], "Err") || !field(res[0], "Output") {
				x.report(st, fn.Pos(), "error", "CommandErr.Error returns %s, without the error or the output", res[0])
			}
		}}, nil, nil)
	}
}
