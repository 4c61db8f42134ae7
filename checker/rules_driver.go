package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "Path-sensitive typestate and dataflow over Main.getDriver with everything it calls inlined, up to CompilePackage: every way to return a driver is classified as reuse or recompilation, and the obligations of each are checked on all of its paths.", checkReuse)
	register("C11", "Path-sensitive typestate and dataflow over CompilePackage with everything it calls inlined: what is done to the destination, where every file is written, and which steps have succeeded before.", checkCompile)
}

const nCompilePackage = "fab.CompilePackage"

// allArgs makes the results of all calls terms over their arguments.
func allArgs(string) bool { return true }

// callTo gives the call that t is (a result of), if it is one of the named functions.
func callTo(t *Term, names ...string) *Term {
	if t == nil {
		return nil
	}
	if t.op == OpExtract {
		t = t.args[0]
	}
	if t.op != OpCall {
		return nil
	}
	for _, n := range names {
		if strings.HasPrefix(t.s, n+"@") {
			return t
		}
	}
	return nil
}

// openedPath is the path of the file that t was opened from.
func openedPath(t *Term) *Term {
	t = unbox(t)
	if cl := callTo(t, "os.Open", "os.OpenFile", "os.Create"); cl != nil && len(cl.args) > 0 && (t.op != OpExtract || t.i == 0) {
		return cl.args[0]
	}
	return nil
}

// contentsOf is the path of the file whose contents t is.
func contentsOf(t *Term) *Term {
	if t.op == OpExtract && t.i == 0 {
		if cl := callTo(t, "os.ReadFile", "io/ioutil.ReadFile"); cl != nil && len(cl.args) > 0 {
			return cl.args[0]
		}
		if cl := callTo(t, "io.ReadAll", "io/ioutil.ReadAll"); cl != nil && len(cl.args) > 0 {
			return openedPath(cl.args[0])
		}
	}
	if t.isPure("contents") {
		return openedPath(t.args[0])
	}
	return nil
}

// contentsIn finds the path of a file whose contents are part of t.
func contentsIn(t *Term, match func(path *Term) bool) *Term {
	var out *Term
	t.any(func(s *Term) bool {
		if p := contentsOf(s); p != nil && (match == nil || match(p)) {
			out = p
			return true
		}
		return false
	})
	return out
}

// fileWrite tells which file a call writes, with which contents (nil if not known here), and whether that replaces what was there.
func fileWrite(x *Explorer, st *State, ev *CallEvent) (path, data *Term, replaces, ok bool) {
	switch ev.name {
	case "os.WriteFile", "io/ioutil.WriteFile":
		return ev.args[0], ev.args[1], true, true
	case "os.Rename":
		return ev.args[1], nil, true, true
	case "os.Link", "os.Symlink":
		return ev.args[1], nil, false, true
	case "os.Truncate":
		return ev.args[0], nil, true, true
	case "os.Create":
		return ev.args[0], nil, true, true
	case "os.OpenFile":
		if writesFile(x, ev) {
			return ev.args[0], nil, truncates(ev.args[1]), true
		}
	case "io.WriteString", "(*os.File).Write", "(*os.File).WriteString", "io.Copy", "invoke io.Writer.Write", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		if p := openedPath(ev.args[0]); p != nil {
			d := ev.args[len(ev.args)-1]
			if ev.name == "io.Copy" {
				d = x.tt.pure("contents", unbox(d))
			}
			return p, d, truncatedFile(ev.args[0]), true
		}
	case "(*encoding/json.Encoder).Encode":
		if cl := callTo(ev.args[0], "encoding/json.NewEncoder"); cl != nil {
			if p := openedPath(cl.args[0]); p != nil {
				return p, x.tt.pure("json", x.deepVal(st, ev.args[1])), truncatedFile(cl.args[0]), true
			}
		}
	}
	return nil, nil, false, false
}

// partial tells whether t is a part of what a pointer points to.
func partial(t *Term) bool {
	return t.op == OpLoad && t.args[0].op == OpField || t.op == OpField
}

// unconv gives the value without conversions between strings, byte slices and interfaces.
func unconv(t *Term) *Term {
	for {
		u := unbox(t)
		if u.op == OpConv {
			u = u.args[0]
		}
		if u == t {
			return t
		}
		t = u
	}
}

// allParts tells whether ok holds of all parts of t.
func allParts(t *Term, ok func(t *Term) bool) bool {
	if t.op == OpStruct {
		for _, a := range t.args {
			if !allParts(a, ok) {
				return false
			}
		}
		return true
	}
	return ok(t)
}

func truncates(flags *Term) bool {
	fl, ok := flags.intVal()
	return ok && (fl&0x200 != 0 || fl&0x80 != 0) // O_TRUNC or O_EXCL
}

// truncatedFile tells whether the file was opened without its old contents.
func truncatedFile(f *Term) bool {
	f = unbox(f)
	if cl := callTo(f, "os.OpenFile"); cl != nil {
		return truncates(cl.args[1])
	}
	return callTo(f, "os.Create") != nil
}

// checkReuse is C10.
func checkReuse(c *Check) {
	c.rule("a driver is returned without compiling only where Force is false, os.Stat of that very file succeeded, the recorded build info was compared and found equal to that of the running process (unless version checks are off, which only tests ask for), and the recorded hash was compared and found equal to the new one")
	c.rule("the new hash depends on the contents of each of the package's GoFiles, gathered by a loop that visits every one of them, before compiling")
	c.rule("the hash on record is removed before compiling, with its failure checked, and written only after compiling succeeded, with the new hash; the build info is written likewise; the files written are those that are compared; the driver compiled is the one returned")
	fn := c.need("", "Main.getDriver")
	run := c.need("", "Main.Run")
	if fn == nil || run == nil {
		return
	}
	if len(fn.Params) != 3 {
		c.fail("anchor", "Main.getDriver does not have the expected parameters")
		return
	}

	// Main.Run does not skip the version check.
	c.explore(run, &Rule{stop: stopAt("(*fab.Main).getDriver", "(*fab.Main).driverless"), keepArgs: allArgs, onCall: func(x *Explorer, st *State, ev *CallEvent) {
		if ev.is("(*fab.Main).getDriver") {
			c.count("calls from Main.Run", 1)
			if !ev.args[2].isFalse() || ev.args[0] != x.params[0] {
				x.report(st, ev.ins.Pos(), "skip", "Main.Run may skip the check of the fab version")
			}
		}
	}}, nil, nil)
	c.atLeast("calls from Main.Run", 1)

	type fileOp struct {
		what string // write, remove
		path *Term
		good bool
		st   *State
		pos  tokenPos
	}
	var (
		hashPaths = map[*Term]bool{} // where hashes are compared with
		hashVals  = map[*Term]bool{}
		verPaths  = map[*Term]bool{}
		ops       []fileOp
	)
	rule := &Rule{stop: stopAt(nCompilePackage), keepArgs: allArgs}
	isGoFiles := func(t *Term) bool {
		if t == nil || t.op != OpLoad || t.args[0].op != OpField {
			return false
		}
		a := t.args[0]
		return fieldName(a.typ, a.i) == "GoFiles" && strings.Contains(a.s, "packages.Package")
	}
	buildInfo := func(t *Term) bool {
		return t.any(func(s *Term) bool {
			return callTo(s, "runtime/debug.ReadBuildInfo") != nil && s.op == OpExtract && s.i == 0
		})
	}
	// fullHash tells whether t is derived from a hash of all files
	fullHash := func(x *Explorer, st *State, t *Term) bool {
		if st.ts["nofiles"] != nil {
			return t.any(func(s *Term) bool {
				return strings.Contains(s.s, "sha") || s.isPure("sum") || s.op == OpMake
			})
		}
		return t.any(func(s *Term) bool {
			if s.op == OpMake && st.ts["filled:"+tid(s)] != nil {
				return true
			}
			return s.isPure("sum") && st.ts["sumof:"+tid(s)] != nil
		})
	}
	decoded := func(st *State, t *Term) *Term {
		var p *Term
		t.any(func(s *Term) bool {
			if r := objRoot(s); r != nil && st.ts["decoded:"+tid(r)] != nil {
				p = st.ts["decoded:"+tid(r)]
				return true
			}
			return false
		})
		return p
	}
	// Build infos are compared as they were read.
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if (addr.op == OpField || addr.op == OpIndex) && (buildInfo(addr) || st.heap[objRoot(addr)] != nil && buildInfo(st.heap[objRoot(addr)]) || st.ts["decoded:"+tid(objRoot(addr))] != nil) {
			st.ts["altered"] = flag(x)
		}
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		if !val {
			return
		}
		var a, b *Term
		switch {
		case cond.op == OpBin && cond.s == "==", cond.isPure("bytes.Equal"), callTo(cond, "reflect.DeepEqual", "bytes.Equal", "slices.Equal") != nil, cond.isPure("reflect.DeepEqual"):
			if len(cond.args) != 2 {
				return
			}
			a, b = unconv(cond.args[0]), unconv(cond.args[1])
		default:
			return
		}
		for i := 0; i < 2; i++ {
			if p := contentsOf(a); p != nil && fullHash(x, st, b) {
				hashPaths[p] = true
				hashVals[b] = true
				st.ts["hasheq"] = p
			}
			if buildInfo(a) && !buildInfo(b) && !partial(a) && !partial(b) && st.ts["altered"] == nil && allParts(a, buildInfo) {
				if p := decoded(st, b); p != nil && allParts(b, func(t *Term) bool { return decoded(st, t) != nil }) {
					verPaths[p] = true
					st.ts["vereq"] = p
				} else if p := contentsIn(b, nil); p != nil && a.any(func(s *Term) bool { return s.isPure("json") }) {
					verPaths[p] = true
					st.ts["vereq"] = p
				}
			}
			a, b = b, a
		}
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		for _, fr := range st.frames {
			for _, l := range fr.loops {
				if !isGoFiles(l.coll) {
					continue
				}
				isElem := func(t *Term) bool { return x.isElemOf(st, l, t) }
				key := unbox(k)
				if key.isPure("path/filepath.Base") || key.isPure("path.Base") {
					key = key.args[0]
				} else if cl := callTo(key, "path/filepath.Rel"); cl != nil && key.i == 0 {
					key = cl.args[1]
				}
				if isElem(key) && (contentsIn(v, isElem) != nil || contentsIn(x.deepVal(st, v), isElem) != nil) {
					st.ts["it:"+l.name] = m
				}
			}
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if !isGoFiles(l.coll) {
			return
		}
		if st.ts["it:"+l.name] == nil && st.ts["fed:"+l.name] == nil {
			st.ts["notall:"+l.name] = flag(x)
		}
		for _, k := range []string{"it:", "fed:"} {
			if m := st.ts[k+l.name]; m != nil {
				st.ts["all"+k+l.name] = m
				delete(st.ts, k+l.name)
			}
		}
		c.count("iterations over the package's files", 1)
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if !isGoFiles(l.coll) || !exhausted(l, from) || !l.inOrder {
			return
		}
		if l.class == 0 {
			st.ts["nofiles"] = flag(x)
			return
		}
		if st.ts["notall:"+l.name] != nil {
			return
		}
		if m := st.ts["allit:"+l.name]; m != nil {
			st.ts["filled:"+tid(m)] = m
			if st.ts["compiled"] != nil {
				x.report(st, headPos(l), "hash:late", "the source files are hashed after compiling, when they may have changed")
			}
		}
		if h := st.ts["allfed:"+l.name]; h != nil {
			st.ts["fed:"+tid(h)] = h
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch ev.name {
		case "os.Stat", "os.Lstat":
			st.ts["stat:"+tid(ev.args[0])] = ev.errResult(x)
		case "io.Copy", "invoke hash.Hash.Write", "invoke io.Writer.Write", "io.WriteString":
			if h := unbox(ev.args[0]); isHasher(h) {
				for _, fr := range st.frames {
					for _, l := range fr.loops {
						if isGoFiles(l.coll) && contentsIn(ev.args[1], func(t *Term) bool { return x.isElemOf(st, l, t) }) != nil || isGoFiles(l.coll) && ev.name == "io.Copy" && openedPath(ev.args[1]) != nil && x.isElemOf(st, l, openedPath(ev.args[1])) {
							inLoop := false
							for _, s := range h.scopes {
								inLoop = inLoop || strings.HasPrefix(s, l.name+":")
							}
							if !inLoop {
								st.ts["fed:"+l.name] = h
							}
						}
					}
				}
			}
		case "invoke hash.Hash.Sum":
			if h := unbox(ev.args[0]); st.ts["fed:"+tid(h)] != nil {
				ev.res.any(func(t *Term) bool {
					if t.isPure("sum") {
						st.ts["sumof:"+tid(t)] = t
					}
					return false
				})
			}
		case "(*encoding/json.Decoder).Decode":
			if cl := callTo(ev.args[0], "encoding/json.NewDecoder"); cl != nil {
				if p := openedPath(cl.args[0]); p != nil {
					st.ts["decoded:"+tid(objRoot(unbox(ev.raw[1])))] = p
				}
			}
		case "encoding/json.Unmarshal":
			if p := contentsIn(ev.args[0], nil); p != nil {
				st.ts["decoded:"+tid(objRoot(unbox(ev.raw[1])))] = p
			}
		case "runtime/debug.ReadBuildInfo":
			st.ts["bi"] = ev.res
		case "os.Remove", "os.RemoveAll":
			ops = append(ops, fileOp{"remove", ev.args[0], true, st, ev.ins.Pos()})
			st.ts["rm:"+tid(ev.args[0])] = x.tt.mk(Term{op: OpTuple, args: []*Term{ev.args[0], ev.errResult(x)}})
			delete(st.ts, "wrote:"+tid(ev.args[0]))
		case nCompilePackage:
			c.count("compilations", 1)
			if st.ts["compiled"] != nil {
				x.report(st, ev.ins.Pos(), "twice", "the driver is compiled twice")
			}
			st.ts["compiled"] = ev.errResult(x)
			st.ts["cpath"] = ev.args[2]
			if ev.args[0] != x.params[1] {
				x.report(st, ev.ins.Pos(), "ctx", "compiling does not use the caller's context")
			}
			// the package compiled is the one that is hashed
			pkg := ev.args[1]
			st.ts["cpkg"] = pkg
			for _, k := range tsKeys(st, "rm:") {
				t := st.ts[k]
				if x.knownNil(st, t.args[1]) || x.knownTrue(st, x.isNotExist(t.args[1])) {
					st.ts["gone:"+tid(t.args[0])] = t.args[0]
				}
			}
			cst := st.clone()
			pos := ev.ins.Pos()
			x.later(func() {
				for p := range hashPaths {
					if cst.ts["gone:"+tid(p)] == nil {
						x.report(cst, pos, "unremoved", "the driver is compiled while the hash on record for the old one may still be there")
					}
				}
			})
		default:
		}
		if p, data, replaces, ok := fileWrite(x, st, ev); ok {
			done := st.ts["compiled"] != nil && x.knownNil(st, st.ts["compiled"])
			cst := st.clone()
			pos := ev.ins.Pos()
			if data != nil || ev.is("os.Rename") {
				if data == nil { // renamed from a file written before
					data = st.ts["data:"+tid(ev.args[0])]
				}
				if data != nil {
					st.ts["data:"+tid(p)] = data
					hash := contentsIn(data, nil) == nil && fullHash(x, st, data)
					if hash && replaces {
						st.ts["wrotehash:"+tid(p)] = p
					}
					if buildInfo(data) && data.any(func(t *Term) bool { return t.isPure("json") }) && replaces {
						st.ts["wrotever:"+tid(p)] = p
					}
					x.later(func() {
						if hashPaths[p] && !hashVals[unconv(data)] {
							x.report(cst, pos, "wronghash", "something other than the hash of the package's files (%s) is recorded as its hash", data)
						}
					})
				}
			}
			x.later(func() {
				if hashPaths[p] && !done {
					x.report(cst, pos, "early", "the new hash is recorded before compiling has succeeded")
				}
				if verPaths[p] && !done {
					// harmless while there is no hash on record
					if cst.ts["compiled"] == nil {
						for h := range hashPaths {
							if t := cst.ts["rm:"+tid(h)]; t == nil {
								x.report(cst, pos, "earlyver", "the build info is recorded while there may be a hash on record for a driver built by another version")
							}
						}
					}
				}
			})
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if !x.succeeds(st, res) {
			return
		}
		driver := res[0]
		fnPos := fn.Pos()
		if st.ts["compiled"] == nil {
			c.count("paths that reuse", 1)
			force := true
			for f, v := range st.facts {
				if !v && isFieldOf(f, x.params[0], "Force") {
					force = false
				}
			}
			if force {
				x.report(st, fnPos, "reuse:force", "the driver may be reused although Force is set")
			}
			if e := st.ts["stat:"+tid(driver)]; e == nil || !x.knownNil(st, e) {
				x.report(st, fnPos, "reuse:present", "the driver is reused although %s may not exist", driver)
			}
			if st.ts["vereq"] == nil && !x.knownTrue(st, x.params[2]) {
				x.report(st, fnPos, "reuse:version", "the driver may be reused although the fab version does not match")
			}
			if st.ts["hasheq"] == nil {
				x.report(st, fnPos, "reuse:hash", "the driver may be reused although the hash does not match")
			}
			return
		}
		c.count("paths that compile", 1)
		if driver != st.ts["cpath"] {
			x.report(st, fnPos, "compiled:path", "the driver returned (%s) is not the one compiled (%s)", driver, st.ts["cpath"])
		}
		if !x.knownNil(st, st.ts["compiled"]) {
			x.report(st, fnPos, "compiled:failed", "a driver is returned although compiling may have failed")
		}
		bi := st.ts["bi"]
		noInfo := bi != nil && (x.knownFalse(st, x.tt.extract(bi, 1)) || x.knownNil(st, x.tt.extract(bi, 0)))
		skip := x.knownTrue(st, x.params[2])
		cst := st.clone()
		x.later(func() {
			for p := range hashPaths {
				if cst.ts["wrotehash:"+tid(p)] == nil {
					x.report(cst, fnPos, "unrecorded:hash", "a driver may be compiled without recording its hash")
				}
			}
			for p := range verPaths {
				if cst.ts["wrotever:"+tid(p)] == nil && !noInfo && !skip {
					x.report(cst, fnPos, "unrecorded:version", "a driver may be compiled without recording the build info")
				}
			}
		})
	}
	x := c.explore(fn, rule, nil, nil)
	if len(hashPaths) != 1 {
		c.fail("hashfile", "hashes are compared with the contents of %d files, not one", len(hashPaths))
	}
	if len(verPaths) != 1 {
		c.fail("versionfile", "build info is compared with the contents of %d files, not one", len(verPaths))
	}
	for p := range hashPaths {
		if verPaths[p] {
			c.fail("samefile", "hash and build info are in the same file")
		}
		// they are kept per package
		if !p.any(func(t *Term) bool {
			return t.op == OpLoad && t.args[0].op == OpField && fieldName(t.args[0].typ, t.args[0].i) == "PkgPath"
		}) {
			c.fail("perpackage", "the hash is not kept per package: %s", p)
		}
	}
	_ = x
	c.atLeast("paths that reuse", 1)
	c.atLeast("paths that compile", 2)
	c.atLeast("compilations", 1)
	c.atLeast("iterations over the package's files", 1)
	c.errorDiscipline()
}

// joined gives the elements that filepath.Join is applied to.
func joined(t *Term) []*Term {
	if !t.isPure("path/filepath.Join") && !t.isPure("path.Join") {
		return nil
	}
	if len(t.args) == 1 {
		elems, spreads := listOf(t.args[0])
		if len(spreads) > 0 {
			return nil
		}
		return elems
	}
	return t.args
}

// component tells whether t is a file name or a relative path that does not lead upward.
func component(t *Term) bool {
	if s, ok := t.strVal(); ok {
		for _, e := range strings.Split(s, "/") {
			if e == ".." {
				return false
			}
		}
		return s != ""
	}
	switch {
	case t.isPure("path/filepath.Base"), t.isPure("path.Base"),
		t.isPure("invoke io/fs.DirEntry.Name"), t.isPure("invoke os.DirEntry.Name"), t.isPure("invoke io/fs.FileInfo.Name"), t.isPure("invoke os.FileInfo.Name"):
		return true
	case t.op == OpFresh && strings.HasPrefix(t.s, "fspath0"):
		return true // a path in a file system of package fs
	case t.isPure("path/filepath.FromSlash"), t.isPure("path/filepath.Clean"), t.isPure("path.Clean"):
		return component(t.args[0])
	case t.op == OpConcat:
		for _, a := range t.args {
			if !component(a) {
				return false
			}
		}
		return true
	case t.op == OpLoad && t.args[0].op == OpField && fieldName(t.args[0].typ, t.args[0].i) == "Name" && strings.Contains(t.args[0].s, "packages.Package"):
		return true // the name in a package clause
	}
	if es := joined(t); len(es) > 0 {
		for _, e := range es {
			if !component(e) {
				return false
			}
		}
		return true
	}
	return false
}

// below tells whether path p is something inside of directory dir.
func below(p, dir *Term) bool {
	p = unconv(p)
	if p.isPure("path/filepath.Clean") || p.isPure("path/filepath.FromSlash") {
		return below(p.args[0], dir)
	}
	if es := joined(p); len(es) > 1 && (es[0] == dir || below(es[0], dir)) {
		for _, e := range es[1:] {
			if !component(e) {
				return false
			}
		}
		return true
	}
	if p.op == OpConcat {
		l := p.args[0]
		for _, r := range p.args[1:] {
			if !component(r) {
				return false
			}
		}
		s, ok := p.args[1].strVal()
		return below(l, dir) || l == dir && ok && strings.HasPrefix(s, "/")
	}
	return false
}

// cmdField is the value of a field of an exec.Cmd.
func (c *Check) cmdField(x *Explorer, st *State, cmd *Term, name string) *Term {
	t := c.extType("os/exec", "Cmd")
	if t == nil {
		return nil
	}
	a := x.fieldAddr(cmd, t, name)
	s := structOf(t)
	return x.canon(st, x.load(st, a, s.Field(fieldIndex(t, name)).Type()))
}

// cmdArgs gives the context and the words of a command.
func (c *Check) cmdWords(x *Explorer, st *State, cmd *Term) (ctx *Term, words []*Term, ok bool) {
	cl := callTo(unbox(cmd), "os/exec.CommandContext", "os/exec.Command")
	if cl == nil || len(cl.args) == 0 {
		return nil, nil, false
	}
	args := cl.args
	if callTo(cl, "os/exec.CommandContext") != nil {
		ctx, args = args[0], args[1:]
	}
	elems, spreads := listOf(args[1])
	return ctx, append([]*Term{args[0]}, elems...), len(spreads) == 0
}

// checkCompile is C11.
func checkCompile(c *Check) {
	c.rule("the only operation on the destination is one os.Rename of the result of go build, after which nothing but the removal of the temporary directory is done")
	c.rule("before that rename, every operation that can fail is known to have succeeded, every file written is closed with its error known to be nil, and go mod init, go mod tidy and go build have run in this order in the temporary directory under the caller's context, after the driver source was generated there")
	c.rule("every file created, written or removed, and the directory of every command, is inside the directory made by os.MkdirTemp")
	c.rule("on every exit after os.MkdirTemp succeeded, the directory has been removed with os.RemoveAll")
	fn := c.need("", "CompilePackage")
	cfn := c.need("", "Compile")
	if fn == nil || cfn == nil {
		return
	}
	if len(fn.Params) != 3 || len(cfn.Params) != 3 {
		c.fail("anchor", "Compile or CompilePackage does not have the expected parameters")
		return
	}
	c.explore(cfn, &Rule{stop: stopAt(nCompilePackage), keepArgs: allArgs, onCall: func(x *Explorer, st *State, ev *CallEvent) {
		if ev.is(nCompilePackage) {
			c.count("calls from Compile", 1)
			if ev.args[2] != x.params[2] || ev.args[0] != x.params[0] {
				x.report(st, ev.ins.Pos(), "compile:args", "Compile does not pass its context and destination on to CompilePackage")
			}
		} else if e := effectful(ev); e != "" {
			x.report(st, ev.ins.Pos(), "compile:effect:"+ev.name, "Compile itself calls %s, which %s", ev.name, e)
		}
	}}, nil, nil)
	c.atLeast("calls from Compile", 1)

	tokenOf := func(ev *CallEvent) tokenPos { return ev.ins.Pos() }
	rule := &Rule{keepArgs: allArgs, forget: true}
	rule.stop = func(x *Explorer, name string, f *ssa.Function) bool {
		return name == "fab.checkImplementsTarget" || docHelper(f)
	}
	tmp := func(st *State) *Term { return st.ts["tmp"] }
	// settle forgets the operations known to have succeeded and gives one that may have failed.
	settle := func(x *Explorer, st *State) *Term {
		var bad *Term
		for _, k := range tsKeys(st, "err:") {
			if x.knownNil(st, st.ts[k]) {
				delete(st.ts, k)
			} else {
				bad = st.ts[k]
			}
		}
		for _, k := range tsKeys(st, "open:") {
			f := st.ts[k]
			if e := st.ts["closed:"+tid(f)]; e != nil && x.knownNil(st, e) {
				delete(st.ts, k)
				delete(st.ts, "closed:"+tid(f))
			}
		}
		return bad
	}
	inside := func(x *Explorer, st *State, ev *CallEvent, p *Term) {
		c.count("file operations", 1)
		t := tmp(st)
		if t == nil || !below(p, t) {
			x.report(st, tokenOf(ev), "outside:"+ev.name, "%s works on %s, which need not be in the temporary directory", ev.name, p)
		}
	}
	closed := func(x *Explorer, st *State, ev *CallEvent) {
		settle(x, st)
		for _, k := range tsKeys(st, "open:") {
			x.report(st, tokenOf(ev), "open:"+ev.name, "%s is reached while a file written before (%s) has not been closed successfully", ev.name, st.ts[k])
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if bad := settle(x, st); bad != nil && tmp(st) != nil {
			for _, s := range bad.scopes {
				if strings.HasPrefix(s, l.name+":") {
					x.report(st, headPos(l), "loop", "a loop goes on although %s may have failed", bad)
					break
				}
			}
		}
		for _, k := range tsKeys(st, "open:") {
			for _, s := range st.ts[k].scopes {
				if strings.HasPrefix(s, l.name+":") {
					x.report(st, headPos(l), "loop:open", "a loop goes on with %s not closed successfully", st.ts[k])
					delete(st.ts, k)
					break
				}
			}
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if st.ts["renamed"] != nil && !ev.is("os.RemoveAll") {
			if e := effectful(ev); e != "" {
				x.report(st, tokenOf(ev), "after:"+ev.name, "%s, which %s, is called after the driver was put in place", ev.name, e)
			}
		}
		for i, a := range ev.args {
			if a.contains(x.params[2]) && !(ev.is("os.Rename") && i == 1) && !hasPrefixAny(ev.name, "errors.", "fmt.", "github.com/bobg/errors.") && st.ts["renamed"] == nil {
				if effectful(ev) != "" || hasPrefixAny(ev.name, "os/exec.") {
					x.report(st, tokenOf(ev), "dest:"+ev.name, "%s is applied to the destination before it is renamed into place", ev.name)
				}
			}
		}
		switch {
		case ev.is("os.MkdirTemp", "io/ioutil.TempDir"):
			c.count("temporary directories", 1)
			if tmp(st) != nil {
				x.report(st, tokenOf(ev), "twotemps", "a second temporary directory is created")
			}
			if ev.args[0].contains(x.params[2]) {
				x.report(st, tokenOf(ev), "temp:dest", "the temporary directory is created next to the destination")
			}
			st.ts["tmp"] = x.tt.extract(ev.res, 0)
			st.ts["tmperr"] = ev.errResult(x)
		case ev.is("os.RemoveAll"):
			if ev.args[0] == tmp(st) && ev.args[0] != nil {
				st.ts["removed"] = flag(x)
				return
			}
			inside(x, st, ev, ev.args[0])
		case ev.is("os.Rename"):
			if ev.args[1] == x.params[2] {
				c.count("renames to the destination", 1)
				bad := settle(x, st)
				if bad != nil {
					x.report(st, tokenOf(ev), "rename:failed", "the driver is put in place although %s may have failed", bad)
				}
				closed(x, st, ev)
				if st.ts["cmd:build"] == nil {
					x.report(st, tokenOf(ev), "rename:build", "the driver is put in place without having been built")
				} else if ev.args[0] != st.ts["built"] {
					x.report(st, tokenOf(ev), "rename:what", "what is put in place (%s) is not the result of the build (%s)", ev.args[0], st.ts["built"])
				}
				if st.ts["removed"] != nil {
					x.report(st, tokenOf(ev), "rename:removed", "the driver is put in place after the temporary directory was removed")
				}
				st.ts["renamed"] = ev.errResult(x)
				return
			}
			inside(x, st, ev, ev.args[0])
			inside(x, st, ev, ev.args[1])
		case ev.is("os.OpenFile", "os.Create"):
			if writesFile(x, ev) || effectful(ev) != "" {
				inside(x, st, ev, ev.args[0])
				f := x.tt.extract(ev.res, 0)
				st.ts["open:"+tid(f)] = f
				if st.ts["cmd:build"] != nil {
					x.report(st, tokenOf(ev), "late:"+ev.name, "a file is created after the driver was built")
				}
			}
		case strings.HasSuffix(ev.name, ".Close"):
			f := unbox(ev.args[0])
			if st.ts["open:"+tid(f)] != nil && st.ts["closed:"+tid(f)] == nil {
				if ev.kind == frDefer {
					if st.ts["renamed"] == nil {
						st.ts["unclosed:"+tid(f)] = f
					}
				} else {
					st.ts["closed:"+tid(f)] = ev.errResult(x)
				}
			}
			return
		case hasPrefixAny(ev.name, "(*os/exec.Cmd).") && effectful(ev) != "":
			ctx, words, ok := c.cmdWords(x, st, ev.args[0])
			if !ok || !ev.is("(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput") {
				x.report(st, tokenOf(ev), "cmd:unknown", "a command is started whose arguments or end are not understood")
				break
			}
			c.count("commands", 1)
			if ctx != x.params[0] {
				x.report(st, tokenOf(ev), "cmd:ctx", "a command is not run under the caller's context")
			}
			dir := c.cmdField(x, st, ev.args[0], "Dir")
			if dir == nil || dir != tmp(st) {
				x.report(st, tokenOf(ev), "cmd:dir", "a command is run in %s, which is not the temporary directory", dir)
			}
			if bad := settle(x, st); bad != nil {
				x.report(st, tokenOf(ev), "cmd:failed", "a command is run although %s may have failed", bad)
			}
			closed(x, st, ev)
			var ws []string
			for _, w := range words {
				s, _ := w.strVal()
				ws = append(ws, s)
			}
			is := func(want ...string) bool {
				for i, w := range want {
					if i >= len(ws) || ws[i] != w {
						return false
					}
				}
				return true
			}
			switch {
			case is("go", "mod", "init"):
				st.ts["cmd:init"] = flag(x)
				if len(words) > 3 {
					st.ts["module"] = words[len(words)-1]
				}
			case is("go", "mod", "tidy"):
				if st.ts["cmd:init"] == nil {
					x.report(st, tokenOf(ev), "cmd:order:tidy", "go mod tidy is run before go mod init")
				}
				st.ts["cmd:tidy"] = flag(x)
			case is("go", "build"):
				if st.ts["cmd:tidy"] == nil {
					x.report(st, tokenOf(ev), "cmd:order:build", "go build is run before go mod tidy")
				}
				if st.ts["generated"] == nil {
					x.report(st, tokenOf(ev), "cmd:order:generate", "go build is run before the driver source is generated")
				}
				st.ts["cmd:build"] = flag(x)
				name := st.ts["module"]
				for i, w := range words {
					if w.isStr("-o") && i+1 < len(words) {
						name = words[i+1]
					}
				}
				if name != nil {
					if tmp(st) != nil && below(name, tmp(st)) {
						st.ts["built"] = name
					} else if tmp(st) != nil {
						st.ts["built"] = x.pathJoin([]*Term{x.tt.seq(nil, []*Term{x.tt.elem(tmp(st)), x.tt.elem(name)})})
					}
				}
			}
		case ev.is("(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate"):
			st.ts["generated"] = flag(x)
		default:
			if p, _, _, ok := fileWrite(x, st, ev); ok {
				inside(x, st, ev, p)
			} else if hasPrefixAny(ev.name, "os.Mkdir", "os.Remove", "os.Chmod", "os.Chtimes", "os.Truncate") {
				inside(x, st, ev, ev.args[0])
			} else if ev.recursive {
				c.count("recursions", 1)
				// by induction, the recursion works below its arguments
				ok := false
				for _, fr := range st.frames {
					if fr.fn != ev.fn {
						continue
					}
					for i, p := range fr.fn.Params {
						if isStringish(p.Type()) && tmp(st) != nil && i < len(ev.args) {
							if o := fr.env[p]; o != nil && below(x.canon(st, o), tmp(st)) {
								ok = below(ev.args[i], tmp(st))
								if !ok {
									break
								}
							}
						}
					}
				}
				if !ok {
					x.report(st, tokenOf(ev), "recursion:"+ev.name, "the recursion need not stay in the temporary directory")
				}
			} else if e := effectful(ev); e != "" && !hasPrefixAny(ev.name, "(*os.File).Write") {
				x.report(st, tokenOf(ev), "effect:"+ev.name, "%s, which %s, is not accounted for", ev.name, e)
			}
		}
		if tmp(st) != nil && st.ts["renamed"] == nil {
			if e := ev.errResult(x); e != nil && e.op != OpNil && !hasPrefixAny(ev.name, "errors.", "fmt.", "github.com/bobg/errors.", "fab.checkImplementsTarget") && (ev.res.op == OpCall || ev.res.op == OpTuple) {
				c.count("fallible steps", 1)
				if ev.kind == frDefer {
					x.report(st, tokenOf(ev), "deferred:"+ev.name, "whether %s succeeds is only known after the driver was put in place", ev.name)
				} else {
					st.ts["err:"+tid(e)] = e
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("exits", 1)
		if e := st.ts["tmperr"]; e != nil && !x.knownNonNil(st, e) && st.ts["removed"] == nil {
			x.report(st, fn.Pos(), "unremoved", "CompilePackage may return without removing the temporary directory")
		}
		if !x.succeeds(st, res) {
			return
		}
		c.count("successful exits", 1)
		if st.ts["renamed"] == nil {
			x.report(st, fn.Pos(), "notinstalled", "CompilePackage may return success without having put a driver in place")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("temporary directories", 1)
	c.atLeast("renames to the destination", 1)
	c.atLeast("commands", 3)
	c.atLeast("file operations", 6)
	c.atLeast("successful exits", 1)
	c.errorDiscipline()
}
