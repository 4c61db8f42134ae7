package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "golang.Binary, ts.Decls and proto.Proto are explored over all paths: the arguments of the Files target that each returns are traced to the parameters, and compared with the words of the command and with what the subtarget does with its fields.", checkCompileRules)
}

// rulesNew describes a call of fab.Files.
type filesCall struct {
	x    *Explorer
	st   *State
	c    *Check
	pos  tokenPos
	args []*Term
}

// compileRule explores a constructor and hands over every Files target that it returns.
func (c *Check) compileRule(sub, name string, np int, deps []string, prep func(r *Rule), check func(f *filesCall)) *ssa.Function {
	fn := c.need(sub, name)
	if fn == nil {
		return nil
	}
	if len(fn.Params) != np {
		c.undecided("params", "%s does not have %d parameters", fnName(fn), np)
		return nil
	}
	rule := &Rule{stop: stopAt(append(deps, "fab.Files", "fab.Autoclean")...), keepArgs: allArgs, forget: true}
	if prep != nil {
		prep(rule)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, last(res)) || !x.succeeds(st, res) {
			return
		}
		c.count("results of "+fnName(fn), 1)
		cl := callTo(unbox(res[0]), "fab.Files")
		if cl == nil || len(cl.args) != 4 {
			x.report(st, fn.Pos(), "result:"+name, "the result of %s is %s, not a Files target", fnName(fn), res[0])
			return
		}
		check(&filesCall{x, st, c, fn.Pos(), cl.args})
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("results of "+fnName(fn), 1)
	return fn
}

func (f *filesCall) bad(key, format string, args ...any) {
	f.x.report(f.st, f.pos, key, format, args...)
}

// command is the Command that is the subtarget, with its words.
func (f *filesCall) command(prog string) (p *Term, words []*Term, dir *Term) {
	c, x, st := f.c, f.x, f.st
	p = unbox(f.args[0])
	pt, ok := p.typ.(*types.Pointer)
	if p.op != OpAlloc || !ok || typeKey(pt.Elem()) != modPath+".Command" {
		f.bad("subtarget:"+prog, "the subtarget is %s, not a command", f.args[0])
		return nil, nil, nil
	}
	if v := c.loadField(x, st, p, pt, "Cmd"); !v.isStr(prog) {
		f.bad("program:"+prog, "the program is %s, want %s", v, prog)
	}
	for _, n := range []string{"Shell", "StdinFile", "StdoutFile", "StderrFile"} {
		if v := c.loadField(x, st, p, pt, n); !x.isZero(v) {
			f.bad("command:"+prog+":"+n, "the command has %s set to %s", n, v)
		}
	}
	dir = c.loadField(x, st, p, pt, "Dir")
	a := c.loadField(x, st, p, pt, "Args")
	switch a.op {
	case OpNil:
	case OpSeq:
		words = a.args[1:]
	default:
		words = []*Term{x.tt.spread(a)}
	}
	return p, words, dir
}

// outputs are the declared outputs.
func (f *filesCall) single(key string) *Term {
	es, ss := listOf(f.x.canon(f.st, f.args[2]))
	if len(es) != 1 || len(ss) != 0 {
		f.bad("outputs:"+key, "the declared outputs are %s", f.args[2])
		return nil
	}
	return es[0]
}

// goDeps checks that the inputs are the dependencies of the package in dir.
func (f *filesCall) goDeps(key string, dir *Term) {
	x := f.x
	in := copied(x.canon(f.st, f.args[1]))
	cl := in
	if in.op == OpExtract && in.i == 0 {
		cl = callTo(in, "fab/golang.Deps")
	} else {
		cl = nil
	}
	if cl == nil {
		f.bad("inputs:"+key, "the declared inputs are %s, not the dependencies of the package", in)
		return
	}
	if cl.args[0] != dir {
		f.bad("inputs:dir:"+key, "the declared inputs are the dependencies of %s", cl.args[0])
	}
	if !x.knownNil(f.st, x.tt.extract(cl, 1)) {
		f.bad("inputs:err:"+key, "dependencies are used although they may not have been found")
	}
}

func checkCompileRules(c *Check) {
	c.rule("golang.Binary returns a Files target with the dependencies of dir as inputs, outfile as its only output, registered for autocleaning; its command is go build in dir, with -o and the absolute path of that output, the flags as a whole, and the package in dir")
	c.rule("without outfile, the output is the last element of the absolute path of dir")
	c.rule("ts.Decls returns a Files target with the dependencies of dir as inputs, outfile as its only output and the options as given; its subtarget creates and writes only that file, from the package, type and prefix given, and reports a failure")
	c.rule("proto.Proto returns a Files target whose inputs have the dependencies of every input, found in the include directories, whose outputs and options are those given; its command is protoc with an option for every include directory in order, and the other options and inputs as wholes")
	c.rule("the Must variants return the target of the same call, or panic")

	// go.Binary
	binary := c.compileRule("golang", "Binary", 3, []string{"fab/golang.Deps"}, nil, func(f *filesCall) {
		x, st := f.x, f.st
		dir, outfile := x.params[0], x.params[1]
		f.goDeps("Binary", dir)
		out := f.single("Binary")
		if out == nil {
			return
		}
		switch {
		case out == outfile:
			if !x.knownFalse(st, x.tt.eq(outfile, x.tt.str(""))) {
				f.bad("outfile:empty", "the output file may be empty")
			}
		case x.knownTrue(st, x.tt.eq(outfile, x.tt.str(""))):
			base := out
			if a := x.absoluteOf(st, out); a != nil {
				base = a
			}
			if !base.isPure("path/filepath.Base") || x.absoluteOf(st, base.args[0]) != dir {
				f.bad("outfile:default", "the default for the output file is %s, which may not be the last element of the path of the directory", out)
			}
		case x.absoluteOf(st, out) == outfile && x.knownFalse(st, x.tt.eq(outfile, x.tt.str(""))):
		default:
			f.bad("outfile:other", "the declared output is %s", out)
		}
		es, _ := listOf(x.canon(st, f.args[3]))
		auto := false
		for _, e := range es {
			if cl := callTo(unbox(e), "fab.Autoclean"); cl != nil {
				auto = cl.args[0].isTrue()
			}
		}
		if !auto {
			f.bad("autoclean", "the output is not registered for autocleaning")
		}
		p, words, wd := f.command("go")
		if p == nil {
			return
		}
		c.count("commands", 1)
		str := func(i int) string {
			if i < len(words) && words[i].op == OpElem {
				s, _ := words[i].args[0].strVal()
				return s
			}
			return ""
		}
		if str(0) != "build" {
			f.bad("words:build", "the subcommand is %s", words)
			return
		}
		i := 1
		inDir := wd == dir
		if !inDir && !wd.isStr("") && !x.isZero(wd) {
			f.bad("words:wd", "the command runs in %s", wd)
		}
		outs, flags, pkg := 0, 0, 0
		for i < len(words) {
			w := words[i]
			if w.op == OpSpread {
				if w.args[0] != x.params[2] || pkg > 0 {
					f.bad("words:flags", "the words have %s where flags are expected", w.args[0])
				}
				flags++
				i++
				continue
			}
			next := x.tt.null()
			if i+1 < len(words) && words[i+1].op == OpElem {
				next = words[i+1].args[0]
			}
			e := w.args[0]
			switch s, _ := e.strVal(); {
			case s == "-C":
				if i != 1 || next != dir || inDir {
					f.bad("words:C", "the directory is %s", next)
				}
				inDir = true
				i++
			case s == "-o":
				outs++
				if x.absoluteOf(st, next) != out && next != x.absolute(st, out) && !(next == out && x.absoluteOf(st, out) != nil) {
					f.bad("words:o", "the file to write is given as %s, want the absolute path of the declared output (a path relative to dir is wrong where dir is a symlink)", next)
				}
				i++
			case s == ".":
				pkg++
				if i != len(words)-1 {
					f.bad("words:last", "there are arguments after the package")
				}
			default:
				f.bad("words:other", "the word %s is not expected", e)
			}
			i++
		}
		if !inDir {
			f.bad("words:dir", "the command is not told to work in dir")
		}
		if outs != 1 {
			f.bad("words:noout", "the command is not told, exactly once, where to write its output")
		}
		if pkg != 1 {
			f.bad("words:pkg", "the command is not told to build the package in dir")
		}
		if flags != 1 && !knownEmpty(x, st, func(t *Term) bool { return t == x.params[2] }) {
			f.bad("words:noflags", "the flags are not passed on exactly once")
		}
	})
	if binary != nil {
		c.atLeast("commands", 1)
	}
	c.must("golang", "MustBinary", "fab/golang.Binary")

	// ts.Decls
	var decls types.Type
	var fields map[string]string
	c.compileRule("ts", "Decls", 5, []string{"fab/golang.Deps"}, nil, func(f *filesCall) {
		x, st := f.x, f.st
		f.goDeps("Decls", x.params[0])
		if out := f.single("Decls"); out != nil && out != x.params[3] {
			f.bad("outfile:Decls", "the declared output is %s", out)
		}
		if copied(x.canon(st, f.args[3])) != x.params[4] {
			f.bad("opts:Decls", "the options are %s, not the ones given", f.args[3])
		}
		p := unbox(f.args[0])
		pt, ok := p.typ.(*types.Pointer)
		if p.op != OpAlloc || !ok || structOf(pt.Elem()) == nil {
			f.bad("subtarget:Decls", "the subtarget is %s, not a new one", f.args[0])
			return
		}
		decls = pt
		n := map[string]string{}
		for i, role := range []string{"dir", "type", "prefix", "outfile"} {
			if n[role] = c.paramField(x, st, p, x.params[i]); n[role] == "" {
				f.bad("field:"+role, "the subtarget does not have the %s given", role)
			}
		}
		if fields == nil {
			fields = n
		}
		for k, v := range n {
			if fields[k] != v {
				f.bad("field:"+k, "the %s is in different fields", k)
			}
		}
	})
	if decls != nil {
		c.checkDeclsRun(decls, fields)
	}
	c.must("ts", "MustDecls", "fab/ts.Decls")

	checkProtoRule(c)
	c.errorDiscipline()
}

// absolute is the absolute path of t, if it was computed.
func (x *Explorer) absolute(st *State, t *Term) *Term {
	e := x.tt.extract(x.tt.pure("path/filepath.Abs", t), 0)
	if x.absoluteOf(st, e) == t {
		return e
	}
	return nil
}

// must checks a Must function.
func (c *Check) must(sub, name, of string) {
	fn := c.need(sub, name)
	if fn == nil {
		return
	}
	rule := &Rule{stop: stopAt(of), keepArgs: allArgs}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("results of "+fnName(fn), 1)
		cl := callTo(res[0], of)
		if cl == nil || res[0].op != OpExtract || !x.knownNil(st, x.tt.extract(cl, 1)) {
			x.report(st, fn.Pos(), "must:"+name, "%s returns %s, not the result of a successful call of %s", name, res[0], of)
			return
		}
		for i, p := range x.params {
			if i >= len(cl.args) || copied(cl.args[i]) != p {
				x.report(st, fn.Pos(), "must:"+name, "%s does not pass on %s", name, p)
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("results of "+fnName(fn), 1)
}

// checkDeclsRun checks the subtarget of ts.Decls.
func (c *Check) checkDeclsRun(t types.Type, fields map[string]string) {
	fn := c.p.method(t, "Run")
	if fn == nil {
		c.undecided("run", "the subtarget of ts.Decls has no Run method")
		return
	}
	const nWrite = "github.com/bobg/tsdecls.Write"
	rule := &Rule{keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		self := x.params[0]
		switch {
		case ev.is("os.Create", "os.OpenFile", "os.WriteFile", "os.CreateTemp"):
			c.count("files created by ts.Decls", 1)
			if !ev.is("os.Create", "os.CreateTemp", "os.WriteFile") || !isFieldOf(ev.args[0], self, fields["outfile"]) {
				x.report(st, pos, "decls:file", "%s is written, which is not the output file", ev.args[0])
			}
			st.ts["f"] = ev.res
		case ev.is(nWrite):
			c.count("calls of tsdecls.Write", 1)
			f := st.ts["f"]
			if w := unbox(ev.args[0]); f == nil || w != x.tt.extract(f, 0) {
				// a buffer that is then written
				if w.op != OpAlloc {
					x.report(st, pos, "decls:writer", "the declarations are written to %s", w)
				}
				st.ts["buf"] = w
			}
			for i, role := range []string{"dir", "type", "prefix"} {
				if !isFieldOf(ev.args[1+i], self, fields[role]) {
					x.report(st, pos, "decls:"+role, "the %s is %s", role, ev.args[1+i])
				}
			}
			st.ts["written"] = orNil(x, ev.errResult(x))
		case ev.is("(*os.File).Close"):
			if f := st.ts["f"]; f != nil && ev.args[0] == x.tt.extract(f, 0) && st.ts["closed"] == nil {
				st.ts["closed"] = orNil(x, ev.errResult(x))
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[0]) || !x.succeeds(st, res) {
			return
		}
		if x.knownTrue(st, x.tt.pure("fab.GetDryRun", x.params[1])) {
			return
		}
		c.count("successful runs of ts.Decls", 1)
		if w := st.ts["written"]; w == nil || !x.knownNil(st, w) {
			x.report(st, fn.Pos(), "decls:unwritten", "success may be reported although the declarations were not written")
		}
		if f := st.ts["f"]; f == nil {
			x.report(st, fn.Pos(), "decls:nofile", "success may be reported although the output file was not created")
		}
		if st.ts["buf"] == nil && (st.ts["closed"] == nil || !x.knownNil(st, st.ts["closed"])) {
			x.report(st, fn.Pos(), "decls:close", "success may be reported although the output file was not closed without an error")
		}
	}
	c.explore(fn, rule, nil, nil)
	for _, n := range []string{"files created by ts.Decls", "calls of tsdecls.Write", "successful runs of ts.Decls"} {
		c.atLeast(n, 1)
	}
}

func checkProtoRule(c *Check) {
	const nDeps = "fab/proto.Deps"
	var ad adds
	isDeps := func(x *Explorer, st *State, t *Term) *Term {
		t = copied(t)
		cl := callTo(t, nDeps)
		if cl == nil || t.op != OpExtract || t.i != 0 || !x.knownNil(st, x.tt.extract(cl, 1)) || copied(cl.args[1]) != x.params[2] {
			return nil
		}
		return cl.args[0]
	}
	c.compileRule("proto", "Proto", 5, []string{nDeps}, func(r *Rule) {
		r.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
			if _, ok := ins.(*ssa.MapUpdate); !ok {
				x.report(st, ins.Pos(), "proto:removed", "a file may be removed from the inputs")
				return
			}
			ad.set(x, st, m, k)
		}
		r.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
			if !val || cond.op != OpBin || cond.s != "==" {
				return
			}
			for i, a := range cond.args {
				if a.isPure("len") && cond.args[1-i].isInt(0) && st.ts["done:"+tid(a.args[0])] != nil {
					st.ts["nothing"] = flag(x) // the complete set is empty
				}
			}
		}
		r.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			ad.back(x, st, l)
			if l.coll == nil || copied(l.coll) != x.params[0] {
				return
			}
			c.count("iterations over inputs", 1)
			// which sets, and which growing lists, got all the dependencies of this input?
			got := map[string]bool{}
			for _, k := range tsKeys(st, "whole:") {
				if inp := isDeps(x, st, st.ts[k]); inp != nil && x.isElemOf(st, l, inp) {
					got["set:"+strings.Split(k, ":")[1]] = true
				}
			}
			for ph, nv := range news {
				if _, ok := ph.Type().Underlying().(*types.Slice); !ok || nv.op != OpSeq || old[ph] == nil {
					continue
				}
				keeps, deps := copied(old[ph]).isNil(), false
				_, ss := listOf(nv)
				for _, s := range ss {
					keeps = keeps || s == copied(old[ph])
					if inp := isDeps(x, st, s); inp != nil && x.isElemOf(st, l, inp) {
						deps = true
					}
				}
				if keeps && deps {
					got["list:"+x.phiTerm(l, ph)] = true
				}
			}
			all := got
			if prev := st.ts["all:"+l.name]; prev != nil {
				s, _ := prev.strVal()
				old := map[string]bool{}
				for _, k := range strings.Fields(s) {
					old[k] = true
				}
				switch {
				case got["set:any"]: // there was nothing to add
					all = old
				case old["set:any"]:
				default:
					all = map[string]bool{}
					for k := range old {
						if got[k] {
							all[k] = true
						}
					}
				}
			}
			st.ts["all:"+l.name] = x.tt.str(strings.Join(sortedKeys(all), " "))
			for _, k := range tsKeys(st, "whole:") {
				if isDeps(x, st, st.ts[k]) != nil {
					delete(st.ts, k)
				}
			}
		}
		r.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			ad.exit(x, st, l, from)
			if l.coll == nil || copied(l.coll) != x.params[0] || !exhausted(l, from) || !l.inOrder {
				return
			}
			all := st.ts["all:"+l.name]
			delete(st.ts, "all:"+l.name)
			if all == nil {
				st.ts["done:any"] = flag(x)
				return
			}
			s, _ := all.strVal()
			for _, k := range strings.Fields(s) {
				st.ts["done:"+strings.TrimPrefix(k, "set:")] = flag(x)
				for ph, v := range l.phi0 {
					if "list:"+x.phiTerm(l, ph) == k {
						st.ts["donelist:"+tid(v)] = flag(x)
					}
				}
			}
		}
	}, func(f *filesCall) {
		x, st := f.x, f.st
		inputs, outputs, includes, opts, fopts := x.params[0], x.params[1], x.params[2], x.params[3], x.params[4]
		if copied(x.canon(st, f.args[2])) != outputs {
			f.bad("proto:outputs", "the declared outputs are %s, not the ones given", f.args[2])
		}
		if copied(x.canon(st, f.args[3])) != fopts {
			f.bad("proto:opts", "the options are %s, not the ones given", f.args[3])
		}
		in := copied(x.canon(st, f.args[1]))
		ok := st.ts["done:any"] != nil || knownEmpty(x, st, func(t *Term) bool { return copied(t) == inputs })
		if in.isPure("keys") {
			ok = ok || st.ts["done:"+tid(in.args[0])] != nil
		}
		ok = ok || st.ts["donelist:"+tid(in)] != nil
		ok = ok || in.isNil() && st.ts["nothing"] != nil
		_, ss := listOf(in)
		for _, s := range ss {
			ok = ok || st.ts["donelist:"+tid(s)] != nil
		}
		if !ok {
			f.bad("proto:inputs", "the declared inputs (%s) may not have the dependencies of every input", in)
		}
		p, words, wd := f.command("protoc")
		if p == nil {
			return
		}
		if !x.isZero(wd) {
			f.bad("proto:dir", "the command runs in %s", wd)
		}
		nopts, nin, ninc := 0, 0, 0
		body := func(b []*Term) bool {
			if len(b) != 1 || b[0].op != OpElem {
				return false
			}
			e := b[0].args[0]
			if e.op != OpConcat || len(e.args) != 2 || e.args[1] != x.elemMark() {
				return false
			}
			s, _ := e.args[0].strVal()
			return oneOf(s, "-I", "--proto_path=")
		}
		var rest []*Term
		for _, w := range words {
			switch {
			case w.op == OpSpread && w.args[0] == opts:
				nopts++
			case w.op == OpSpread && w.args[0] == inputs:
				nin++
			default:
				rest = append(rest, w)
			}
		}
		c.count("protoc commands", 1)
		noInc := func(t *Term) bool { return t == includes }
		if len(rest) > 0 || !knownEmpty(x, st, noInc) {
			list := x.tt.null()
			if len(rest) == 1 && rest[0].op == OpSpread {
				list = rest[0].args[0]
			} else if len(rest) > 0 {
				f.bad("proto:words", "the words of the command have %s", rest)
				return
			}
			ninc++
			// what was in the list before the loop is part of the words, too
			x.mappedAfter(st, list, includes, body, func(why string) {
				f.bad("proto:includes", "there is not an option for every include directory, in order: %s", why)
			}, func(es, ss []*Term) bool {
				if len(es) > 0 {
					return false
				}
				for _, s := range ss {
					switch s {
					case opts:
						nopts++
					case inputs:
						nin++
					default:
						return false
					}
				}
				return true
			})
		}
		x.later(func() {
			if nopts == 0 && !knownEmpty(x, st, func(t *Term) bool { return t == opts }) {
				f.bad("proto:noopts", "the options are not passed to the command")
			}
			if nin == 0 && !knownEmpty(x, st, func(t *Term) bool { return t == inputs }) {
				f.bad("proto:noinputs", "the inputs are not passed to the command")
			}
			if nin > 1 {
				f.bad("proto:twice", "the inputs are passed to the command more than once")
			}
		})
	})
	c.atLeast("iterations over inputs", 1)
	c.atLeast("protoc commands", 1)
}
