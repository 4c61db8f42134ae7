package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "golang.Deps and the recursive function it uses are explored over all paths. Every loop over packages, over their file lists, errors and imports is a for-all obligation which every iteration has to discharge; the configuration given to packages.Load is traced to the parameters and its mode bits are compared with the fields that are used.", checkGoDeps)
	register("C29", "proto.Deps and the recursive function it uses are explored over all paths: every line of a file, and every include directory for every import, is a for-all obligation. The regular expression is taken from the source and applied to a table of import statements.", checkProtoDeps)
}

// recursiveFn is the first function, in the order of calls from fn, that can call itself.
func (c *Check) recursiveFn(fn *ssa.Function) *ssa.Function {
	callees := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && isModPath(fnPkgPath(g)) {
						out = append(out, g)
					}
				}
			}
		}
		return out
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		work := callees(from)
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			if f == to {
				return true
			}
			if !seen[f] {
				seen[f] = true
				work = append(work, callees(f)...)
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if reaches(f, f) {
			return f
		}
		work = append(work, callees(f)...)
	}
	return nil
}

// adds follows which lists are added to a set as a whole.
type adds struct{}

func (adds) set(x *Explorer, st *State, m, k *Term) {
	st.ts["put:"+tid(m)+":"+tid(k)] = k
}

func (adds) back(x *Explorer, st *State, l *loopRec) {
	if l.coll == nil {
		return
	}
	put := map[string]bool{}
	for _, key := range tsKeys(st, "put:") {
		if x.isElemOf(st, l, st.ts[key]) {
			put[strings.Split(key, ":")[1]] = true
		}
	}
	if old := st.ts["puts:"+l.name]; old != nil {
		s, _ := old.strVal()
		for _, m := range strings.Split(s, " ") {
			if !put[m] {
				s = strings.TrimSpace(strings.ReplaceAll(" "+s+" ", " "+m+" ", " "))
			}
		}
		st.ts["puts:"+l.name] = x.tt.str(s)
		return
	}
	st.ts["puts:"+l.name] = x.tt.str(strings.Join(sortedKeys(put), " "))
}

func sortedKeys(m map[string]bool) []string {
	r := keysOfBool(m)
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

func (adds) exit(x *Explorer, st *State, l *loopRec, from *ssa.BasicBlock) {
	puts := st.ts["puts:"+l.name]
	delete(st.ts, "puts:"+l.name)
	if l.coll == nil || !exhausted(l, from) || !l.inOrder {
		return
	}
	lists := []*Term{l.coll}
	if c := copied(l.coll); c.op == OpSeq {
		_, sp := listOf(c)
		lists = append(lists, sp...)
	}
	for _, t := range lists {
		if puts == nil {
			st.ts["whole:any:"+tid(t)] = t
			continue
		}
		s, _ := puts.strVal()
		for _, m := range strings.Fields(s) {
			st.ts["whole:"+m+":"+tid(t)] = t
		}
	}
}

// whole tells whether a list was added to a set as a whole.
func (adds) whole(st *State, m *Term, match func(list *Term) bool) bool {
	for _, p := range []string{"whole:" + tid(m) + ":", "whole:any:"} {
		for _, k := range tsKeys(st, p) {
			if match(st.ts[k]) {
				return true
			}
		}
	}
	return false
}

const tPackage = "golang.org/x/tools/go/packages.Package"

func pkgField(t *Term, name string) *Term { return fieldLoad(t, tPackage, name) }

// knownEmpty tells whether a list is known to have no elements.
func knownEmpty(x *Explorer, st *State, match func(t *Term) bool) bool {
	for f, v := range st.facts {
		if v && f.op == OpBin && f.s == "==" {
			for i, a := range f.args {
				o := f.args[1-i]
				if a.isPure("len") && o.isInt(0) && match(a.args[0]) || o.isNil() && match(a) {
					return true
				}
			}
		}
	}
	return false
}

// errorsOfElem tells whether the list has an entry for each of the errors of the package of an iteration.
func errorsOfElem(x *Explorer, list *Term) bool {
	if list.isPure("comp") {
		list = list.args[0]
	}
	return pkgField(list, "Errors") == x.elemMark()
}

func checkGoDeps(c *Check) {
	c.rule("packages are loaded from dir, with or without tests as asked, with the pattern . or, if recursive, ./..., with the mode bits that the fields used need")
	c.rule("on every successful path, every package loaded has been found to have no errors, and every one that has a module has been passed on with the path of that module")
	c.rule("every package passed on that is of that module adds its Go files, other files and embedded files, as wholes, and every package it imports is passed on in turn; nothing else is added")
	c.rule("the result is the sorted list of the elements of the set")
	fn := c.need("golang", "Deps")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	R := c.recursiveFn(fn)
	if R == nil {
		c.undecided("recursion", "no recursive function was found that follows imports")
		return
	}
	pi, si, mi := -1, -1, -1
	for i, p := range R.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if typeKey(t.Elem()) == tPackage {
				pi = i
			}
		case *types.Basic:
			if t.Kind() == types.String {
				si = i
			}
		case *types.Map:
			mi = i
		}
	}
	if pi < 0 || mi < 0 || si < 0 {
		c.undecided("recursion", "the parameters of %s are not a package, a module path and a set", fnName(R))
		return
	}
	var ad adds
	rname := fnName(R)

	// Deps
	rule := &Rule{stop: stopAt(rname), keepArgs: allArgs}
	const nLoad = "golang.org/x/tools/go/packages.Load"
	modes := map[string]bool{}
	isRoots := func(t *Term) bool {
		t = copied(t)
		return t.op == OpExtract && t.i == 0 && callTo(t, nLoad) != nil
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		switch ev.name {
		case nLoad:
			c.count("loads", 1)
			cfg := ev.args[0]
			ct := c.extType("golang.org/x/tools/go/packages", "Config")
			sct := structOf(ct)
			for i := 0; i < sct.NumFields(); i++ {
				f := sct.Field(i)
				v := x.load(st, x.tt.field(cfg, i, types.NewPointer(ct)), f.Type())
				switch f.Name() {
				case "Mode":
					n, ok := v.intVal()
					if !ok {
						x.report(st, pos, "mode", "the mode of loading is not a constant (%s)", v)
					}
					need := map[string]packages.LoadMode{"NeedFiles": packages.NeedFiles, "NeedEmbedFiles": packages.NeedEmbedFiles, "NeedDeps": packages.NeedDeps, "NeedImports": packages.NeedImports, "NeedModule": packages.NeedModule}
					for k, b := range need {
						if packages.LoadMode(n)&b == 0 {
							x.report(st, pos, "mode:"+k, "packages are loaded without %s", k)
						}
					}
					if packages.LoadMode(n)&(packages.NeedTypes|packages.NeedTypesInfo) == 0 {
						x.report(st, pos, "mode:types", "packages are loaded without NeedTypes, so that type errors are not found")
					}
					modes[v.String()] = true
				case "Dir":
					if v != x.params[0] {
						x.report(st, pos, "load:dir", "packages are loaded from %s", v)
					}
				case "Tests":
					if !x.sameBool(st, v, x.params[2]) {
						x.report(st, pos, "load:tests", "whether tests are loaded depends on %s", v)
					}
				case "Context", "Logf":
				default:
					if !v.isNil() && !x.isZero(v) {
						x.report(st, pos, "load:"+f.Name(), "packages are loaded with %s set to %s", f.Name(), v)
					}
				}
			}
			es, ss := listOf(x.canon(st, ev.args[1]))
			if len(es) != 1 || len(ss) != 0 {
				x.report(st, pos, "load:pattern", "packages are loaded by the patterns %s", ev.args[1])
				return
			}
			p, ok := es[0].strVal()
			rec, known := x.decide(st, x.params[1])
			if !ok || !known || rec && p != "./..." || !rec && p != "." {
				x.report(st, pos, "load:pattern", "packages are loaded by the pattern %s whether recursive or not, or the wrong way", es[0])
			}
		case rname:
			c.count("packages passed on", 1)
			pkg := ev.args[pi]
			if l := elemOfList(pkg); l == nil || !isRoots(l) {
				x.report(st, pos, "root:pkg", "%s is followed, which is not a package that was loaded", pkg)
				return
			}
			if mod := fieldLoad(ev.args[si], "golang.org/x/tools/go/packages.Module", "Path"); mod == nil || pkgField(mod, "Module") != pkg {
				x.report(st, pos, "root:mod", "a package is followed within the module %s", ev.args[si])
			}
			if old := st.ts["set"]; old != nil && old != ev.args[mi] || !isLocalObj(ev.args[mi]) {
				x.report(st, pos, "root:set", "files are added to several sets")
			}
			st.ts["set"] = ev.args[mi]
			st.ts["follow:"+tid(pkg)] = orNil(x, ev.errResult(x))
		}
		sortEvent(x, st, ev)
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		x.report(st, ins.Pos(), "set:other", "%s is added or removed", k)
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == nil || !isRoots(l.coll) {
			return
		}
		c.count("iterations over packages", 1)
		e := x.loopElem(st, l)
		ofElem := func(t *Term, f string) bool { p := pkgField(t, f); return p != nil && (p == e || x.isElemOf(st, l, p)) }
		clean := knownEmpty(x, st, func(t *Term) bool { return ofElem(t, "Errors") })
		some := false
		for ph, nv := range news {
			if !isErrorType(ph.Type()) {
				continue
			}
			k := x.phiTerm(l, ph)
			switch {
			case x.knownNonNil(st, nv):
				if !clean {
					some = true
				}
			case nv == old[ph]:
				if !clean {
					st.ts["nosink:"+k] = flag(x)
				}
			default:
				st.ts["nosink:"+k] = flag(x)
			}
		}
		if !clean {
			st.ts["dirty:"+l.name] = flag(x)
			if !some {
				st.ts["skipE:"+l.name] = flag(x)
			}
		}
		follow := false
		for _, k := range tsKeys(st, "follow:") {
			if k == "follow:"+tid(e) {
				follow = x.knownNil(st, st.ts[k])
			}
		}
		tsClear(st, "follow:")
		if !follow && !knownEmpty(x, st, func(t *Term) bool { return ofElem(t, "Module") }) {
			st.ts["skipA:"+l.name] = flag(x)
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == nil || !isRoots(l.coll) || !exhausted(l, from) || !l.inOrder {
			return
		}
		if st.ts["skipA:"+l.name] == nil {
			st.ts["allA"] = flag(x)
		}
		if st.ts["skipE:"+l.name] != nil {
			return
		}
		if st.ts["dirty:"+l.name] == nil {
			st.ts["allE"] = flag(x)
			return
		}
		for ph, v := range l.phi0 {
			if isErrorType(ph.Type()) && st.ts["nosink:"+x.phiTerm(l, ph)] == nil {
				st.ts["sink:"+x.phiTerm(l, ph)] = v
			}
		}
	}
	// A list in which errors are collected, found to be empty.
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		for f, v := range st.facts {
			if !v || f.op != OpBin || f.s != "==" {
				continue
			}
			for i, a := range f.args {
				o := f.args[1-i]
				switch {
				case a.isPure("len") && o.isInt(0), a.op == OpJoin && o.isNil() && len(a.args) == 1:
					if a.args[0].widened() {
						st.ts["empty:"+tid(a.args[0])] = a.args[0]
					}
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) || !x.succeeds(st, res) {
			return
		}
		c.count("results of Deps", 1)
		if st.ts["allA"] == nil {
			x.report(st, fn.Pos(), "root:left", "a package that was loaded and has a module may be left out")
		}
		ok := st.ts["allE"] != nil
		for _, k := range tsKeys(st, "sink:") {
			ok = ok || x.knownNil(st, st.ts[k])
		}
		if !ok {
			cst := st.clone()
			x.later(func() {
				for _, k := range tsKeys(cst, "empty:") {
					list := cst.ts[k]
					all := false
					for _, r := range x.comps[list] {
						if r.coll == nil || !isRoots(r.coll) {
							continue
						}
						inner, why := x.innerBodies(r)
						all = why == "" && r.faulty() == "" && len(inner) > 0
						for _, b := range append(inner, r.bodies...) {
							for _, p := range b {
								all = all && p.op == OpSpread && errorsOfElem(x, p.args[0])
							}
						}
						for _, alt := range r.alts {
							fits := false
							for _, a := range alt {
								fits = fits || errorsOfElem(x, a.args[0])
							}
							all = all && fits
						}
						if !all {
							break
						}
					}
					if all {
						return
					}
				}
				x.report(cst, fn.Pos(), "root:errors", "success may be reported although a package that was loaded has errors")
			})
		}
		list := copied(res[0])
		if list.isNil() {
			return
		}
		set := st.ts["set"]
		if list.isPure("keys") && (set == nil || list.args[0] == set) && isLocalObj(list.args[0]) {
			if !isSorted(st, res[0]) && !isSorted(st, list) {
				x.report(st, fn.Pos(), "sorted", "the result is not sorted")
			}
			return
		}
		x.report(st, fn.Pos(), "result", "the result is %s, not the elements of the set", list)
	}
	c.explore(fn, rule, nil, nil)
	for _, n := range []string{"loads", "packages passed on", "iterations over packages", "results of Deps"} {
		c.atLeast(n, 1)
	}

	// the recursive function
	rule = &Rule{keepArgs: allArgs, forget: true}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name != rname {
			return
		}
		c.count("imports followed", 1)
		pos := ev.ins.Pos()
		imp := ev.args[pi]
		ok := false
		if imp.op == OpLoad && imp.args[0].op == OpMapElem {
			ok = pkgField(imp.args[0].args[0], "Imports") == x.params[pi]
		} else if l := elemOfList(imp); l != nil {
			ok = true // checked by the loop it belongs to
		}
		if !ok {
			x.report(st, pos, "import:other", "%s is followed, which is not an import", imp)
		}
		if ev.args[si] != x.params[si] {
			x.report(st, pos, "import:mod", "an import is followed within %s", ev.args[si])
		}
		if ev.args[mi] != x.params[mi] {
			x.report(st, pos, "import:set", "the files of an import are added to another set")
		}
		st.ts["follow:"+tid(imp)] = imp
		st.ts["followerr:"+tid(imp)] = orNil(x, ev.errResult(x))
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if m != x.params[mi] {
			return
		}
		c.count("files added", 1)
		if _, ok := ins.(*ssa.MapUpdate); !ok {
			x.report(st, ins.Pos(), "set:removed", "a file may be removed from the set")
			return
		}
		l := elemOfList(k)
		ok := false
		for _, f := range []string{"GoFiles", "CompiledGoFiles", "OtherFiles", "EmbedFiles"} {
			ok = ok || l != nil && pkgField(l, f) == x.params[pi]
		}
		if cl := callTo(l, "path/filepath.Glob"); cl != nil {
			if p := elemOfList(cl.args[0]); p != nil && pkgField(p, "EmbedPatterns") == x.params[pi] {
				ok = true
			}
		}
		if l != nil && l.op == OpSeq {
			ok = true
			_, sp := listOf(l)
			for _, s := range sp {
				if pkgField(s, "GoFiles") == nil && pkgField(s, "OtherFiles") == nil && pkgField(s, "EmbedFiles") == nil && pkgField(s, "CompiledGoFiles") == nil {
					ok = false
				}
			}
		}
		if !ok {
			x.report(st, ins.Pos(), "set:other", "%s is added, which is not a file of the package", k)
		}
		ad.set(x, st, m, k)
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		ad.back(x, st, l)
		if l.coll != nil && pkgField(l.coll, "Imports") == x.params[pi] {
			c.count("iterations over imports", 1)
			ok := false
			for _, k := range tsKeys(st, "follow:") {
				if x.isElemOf(st, l, st.ts[k]) && x.knownNil(st, st.ts["followerr:"+strings.TrimPrefix(k, "follow:")]) {
					ok = true
				}
			}
			if !ok {
				x.report(st, headPos(l), "import:left", "an import may be left out")
			}
			tsClear(st, "follow:")
			tsClear(st, "followerr:")
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		ad.exit(x, st, l, from)
		if l.coll != nil && pkgField(l.coll, "Imports") == x.params[pi] && exhausted(l, from) {
			st.ts["imports"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if len(res) > 0 && isErrorType(R.Signature.Results().At(len(res)-1).Type()) {
			if x.knownNonNil(st, last(res)) || !x.succeeds(st, res) {
				return
			}
		}
		pkg, mod := x.params[pi], x.params[si]
		if knownEmpty(x, st, func(t *Term) bool { return pkgField(t, "Module") == pkg }) {
			return
		}
		for f, v := range st.facts {
			if !v && f.op == OpBin && f.s == "==" {
				for i, a := range f.args {
					if m := fieldLoad(a, "golang.org/x/tools/go/packages.Module", "Path"); m != nil && pkgField(m, "Module") == pkg && f.args[1-i] == mod {
						return
					}
				}
			}
		}
		c.count("packages added", 1)
		for _, f := range []string{"GoFiles", "OtherFiles", "EmbedFiles"} {
			if !ad.whole(st, x.params[mi], func(t *Term) bool { return pkgField(t, f) == pkg }) {
				x.report(st, R.Pos(), "files:"+f, "the %s of a package of the module may not all be added", f)
			}
		}
		if st.ts["imports"] == nil && !knownEmpty(x, st, func(t *Term) bool { return pkgField(t, "Imports") == pkg }) {
			x.report(st, R.Pos(), "imports", "the imports of a package of the module may not all be followed")
		}
	}
	c.explore(R, rule, nil, nil)
	for _, n := range []string{"imports followed", "files added", "packages added", "iterations over imports"} {
		c.atLeast(n, 1)
	}
	c.errorDiscipline()
}

// isZero tells whether v is the zero value of a basic type.
func (x *Explorer) isZero(v *Term) bool {
	if v.isNil() || v.isFalse() || v.isInt(0) || v.isStr("") {
		return true
	}
	return false
}

// regexpOf is the expression that a package-level variable holds.
func (c *Check) regexpOf(g *ssa.Global) (string, bool) {
	text, n := "", 0
	seen := map[*ssa.Store]bool{}
	for _, pkg := range c.p.prog.AllPackages() {
		if !isModPath(pkg.Pkg.Path()) {
			continue
		}
		for _, f := range append([]*ssa.Function{pkg.Func("init")}, c.p.srcFns...) {
			if f == nil || f.Pkg != pkg && f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					w, ok := in.(*ssa.Store)
					if !ok || w.Addr != ssa.Value(g) || f.Pkg != pkg || seen[w] {
						continue
					}
					seen[w] = true
					n++
					v := w.Val
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
					}
					if cl, ok := v.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && strings.HasPrefix(fnName(cl.Call.StaticCallee()), "regexp.MustCompile") && len(cl.Call.Args) == 1 {
						if k, ok := cl.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							text = constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	return text, n == 1 && text != ""
}

// importTable: lines of a .proto file, and what they import.
var importTable = [][2]string{
	{`import "a.proto";`, "a.proto"},
	{`import 'a.proto';`, "a.proto"},
	{`import "dir/sub/a_b-c.proto";`, "dir/sub/a_b-c.proto"},
	{`import 'dir/sub/a_b-c.proto' ;`, "dir/sub/a_b-c.proto"},
	{`import public "x/y.proto";`, "x/y.proto"},
	{`import public 'x/y.proto';`, "x/y.proto"},
	{`import weak "x/y.proto";`, "x/y.proto"},
	{`import weak 'x/y.proto';`, "x/y.proto"},
	{`  import "a.proto";`, "a.proto"},
	{"\timport \"a.proto\";", "a.proto"},
	{"\t  import\tpublic\t\"a.proto\";", "a.proto"},
	{"  import  weak  'a.proto';", "a.proto"},
	{`import   "a.proto";`, "a.proto"},
	{`import"a.proto";`, "a.proto"},
	{`import "a.proto"; // comment`, "a.proto"},
	{`import "a.proto"; // see "b.proto"`, "a.proto"},
	{`import "a b.proto";`, "a b.proto"},
	{"import \"a.proto\";\r", "a.proto"},
	{`import "google/protobuf/any.proto";`, "google/protobuf/any.proto"},
	{`import "x";`, "x"},
	{`import "v1.2/ü.proto";`, "v1.2/ü.proto"},
	{`// import "a.proto";`, ""},
	{`option go_package = "a.proto";`, ""},
	{`string import = 1 [default = "a.proto"];`, ""},
	{`  string s = 2;`, ""},
	{`package import_.x;`, ""},
	{``, ""},
}

func checkProtoDeps(c *Check) {
	c.rule("every line of the file and of every file imported is matched with a regular expression that finds the path in every form of import statement on a line (table); an import that matches is looked for in every include directory in order until it is found")
	c.rule("the search goes on to the next directory only if the file does not exist in this one; a file found is added to the set, if it is not in it yet, before it is read in turn with the same directories and the same set; a failure to read is returned")
	c.rule("the result is the sorted list of the elements of a set that contains the file given")
	fn := c.need("proto", "Deps")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	R := c.recursiveFn(fn)
	if R == nil {
		c.undecided("recursion", "no recursive function was found that follows imports")
		return
	}
	ri, ii, mi := -1, -1, -1
	for i, p := range R.Params {
		switch p.Type().Underlying().(type) {
		case *types.Interface, *types.Pointer:
			ri = i
		case *types.Slice:
			ii = i
		case *types.Map:
			mi = i
		}
	}
	if ri < 0 || ii < 0 || mi < 0 {
		c.undecided("recursion", "the parameters of %s are not a file, include directories and a set", fnName(R))
		return
	}
	rname := fnName(R)

	// Deps
	rule := &Rule{stop: stopAt(rname), keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name == rname {
			c.count("files read by Deps", 1)
			pos := ev.ins.Pos()
			if p := openedPath(ev.args[ri]); p != x.params[0] {
				x.report(st, pos, "first:file", "%s is read, not the file given", ev.args[ri])
			}
			if copied(ev.args[ii]) != x.params[1] {
				x.report(st, pos, "first:includes", "imports are looked for in %s", ev.args[ii])
			}
			st.ts["set"] = ev.args[mi]
			st.ts["err"] = orNil(x, ev.errResult(x))
		}
		sortEvent(x, st, ev)
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if _, ok := ins.(*ssa.MapUpdate); !ok || k != x.params[0] {
			x.report(st, ins.Pos(), "first:other", "%s is added or removed", k)
			return
		}
		st.ts["self:"+tid(m)] = k
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) || !x.succeeds(st, res) {
			return
		}
		c.count("results of Deps", 1)
		set := st.ts["set"]
		if set == nil || !x.knownNil(st, st.ts["err"]) {
			x.report(st, fn.Pos(), "unread", "success may be reported although the file was not read")
			return
		}
		if st.ts["self:"+tid(set)] == nil {
			x.report(st, fn.Pos(), "self", "the file itself may not be in the result")
		}
		list := copied(res[0])
		if list.isNil() {
			return
		}
		if !list.isPure("keys") || list.args[0] != set {
			x.report(st, fn.Pos(), "result", "the result is %s, not the elements of the set", list)
		} else if !isSorted(st, res[0]) && !isSorted(st, list) {
			x.report(st, fn.Pos(), "sorted", "the result is not sorted")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("files read by Deps", 1)
	c.atLeast("results of Deps", 1)

	// the recursive function
	res := map[string]int{}
	importOf := func(x *Explorer, t *Term) *Term {
		// the path in a line that matched
		if t.op == OpConv {
			t = t.args[0]
		}
		l := elemOfList(t)
		cl := callTo(l, "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch")
		if cl == nil || t.args[0].op != OpIndex {
			return nil
		}
		g, ok := t.args[0].args[1].intVal()
		if !ok {
			return nil
		}
		if cl.args[0].op == OpLoad && cl.args[0].args[0].op == OpGlobal {
			if text, ok := c.regexpOf(cl.args[0].args[0].glob); ok {
				res[text] = int(g)
				return cl
			}
		}
		return nil
	}
	found := func(x *Explorer, t *Term) (imp *Term) {
		es := joined(t)
		if len(es) != 2 {
			return nil
		}
		if l := elemOfList(es[0]); l == nil || copied(l) != x.params[ii] {
			return nil
		}
		return importOf(x, es[1])
	}
	lineOf := func(cl *Term) *Term {
		a := cl.args[1]
		if a.op == OpConv {
			a = a.args[0]
		}
		return callTo(a, "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes")
	}
	rule = &Rule{keepArgs: allArgs, forget: true}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		switch {
		case ev.name == rname:
			c.count("imports followed", 1)
			p := openedPath(ev.args[ri])
			imp := (*Term)(nil)
			if p != nil {
				imp = found(x, p)
			}
			if imp == nil || !x.knownNil(st, x.tt.extract(callTo(unbox(ev.args[ri]), "os.Open", "os.OpenFile"), 1)) {
				x.report(st, pos, "import:file", "%s is read, which is not a successfully opened file in an include directory", ev.args[ri])
				return
			}
			if copied(ev.args[ii]) != x.params[ii] {
				x.report(st, pos, "import:includes", "the imports of an imported file are looked for in %s", ev.args[ii])
			}
			if ev.args[mi] != x.params[mi] {
				x.report(st, pos, "import:set", "the imports of an imported file are added to another set")
			}
			if st.ts["new:"+tid(p)] == nil {
				x.report(st, pos, "import:cycle", "a file may be read again although it has been read already, without end")
			}
			st.ts["handled:"+tid(imp)] = orNil(x, ev.errResult(x))
		case ev.is("(*bufio.Scanner).Scan"):
			st.ts["scan"] = ev.res
			if cl := callTo(ev.args[0], "bufio.NewScanner"); cl == nil || unbox(cl.args[0]) != x.params[ri] && cl.args[0] != x.params[ri] {
				x.report(st, pos, "scan:file", "the lines of %s are read", ev.args[0])
			}
		case ev.is("(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes"):
			st.ts["text"] = ev.res
		case ev.is("(*bufio.Scanner).Err"):
			st.ts["scanerr"] = ev.res
		case ev.is("(*bufio.Scanner).Split"):
			x.report(st, pos, "scan:split", "the file is not read line by line")
		case ev.is("(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch"):
			c.count("lines matched", 1)
			if l := lineOf(ev.res); l == nil || l != st.ts["text"] {
				x.report(st, pos, "line", "%s is matched, which is not the line just read", ev.args[1])
			}
			st.ts["match"] = ev.res
		case ev.is("os.Open", "os.OpenFile", "os.Stat"):
			if found(x, ev.args[0]) == nil {
				x.report(st, pos, "open:other", "%s is opened, which is not an import in an include directory", ev.args[0])
				return
			}
			c.count("files opened", 1)
			st.ts["open:"+tid(ev.args[0])] = ev.res
		}
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if m != x.params[mi] {
			return
		}
		if _, ok := ins.(*ssa.MapUpdate); !ok {
			x.report(st, ins.Pos(), "set:removed", "a file may be removed from the set")
			return
		}
		c.count("files added", 1)
		r := st.ts["open:"+tid(k)]
		if found(x, k) == nil || r == nil || !x.knownNil(st, x.tt.extract(r, 1)) {
			x.report(st, ins.Pos(), "set:other", "%s is added, which is not known to be an existing file in an include directory", k)
			return
		}
		if has(x, st, m, k, false) {
			st.ts["new:"+tid(k)] = k
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll != nil && copied(l.coll) == x.params[ii] {
			c.count("iterations over include directories", 1)
			ok := false
			for _, k := range tsKeys(st, "open:") {
				r := st.ts[k]
				if es := joined(r.args[0]); len(es) == 2 && x.isElemOf(st, l, es[0]) && importOf(x, es[1]) != nil && x.knownTrue(st, x.isNotExist(x.tt.extract(r, 1))) {
					ok = true
				}
			}
			if !ok {
				x.report(st, headPos(l), "include:next", "the search may go on to the next include directory although the file may be in this one")
			}
			tsClear(st, "open:")
			return
		}
		if st.ts["scan"] == nil || !x.knownTrue(st, st.ts["scan"]) {
			return
		}
		if l.coll != nil {
			return
		}
		c.count("iterations over lines", 1)
		cl := st.ts["match"]
		if cl == nil {
			x.report(st, headPos(l), "line:skipped", "a line may be skipped")
			return
		}
		if !knownEmpty(x, st, func(t *Term) bool { return t == cl }) {
			ok := st.ts["handled:"+tid(cl)] != nil && x.knownNil(st, st.ts["handled:"+tid(cl)])
			for f, v := range st.facts {
				if v && f.op == OpLoad && f.args[0].op == OpMapHas && f.args[0].args[0] == x.params[mi] && found(x, f.args[0].args[1]) == cl {
					ok = true
				}
				// nothing can be imported without a name
				if v && f.op == OpBin && f.s == "==" && (f.args[0].isStr("") && importOf(x, f.args[1]) == cl || f.args[1].isStr("") && importOf(x, f.args[0]) == cl) {
					ok = true
				}
			}
			if !ok {
				x.report(st, headPos(l), "import:left", "an import may be left out")
			}
		}
		for _, p := range []string{"match", "text", "scan", "handled:", "open:", "new:"} {
			tsClear(st, p)
		}
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		cl := st.ts["match"]
		if cl == nil || st.ts["handled:"+tid(cl)] != nil {
			return
		}
		for f, v := range st.facts {
			if v && f.op == OpLoad && f.args[0].op == OpMapHas && f.args[0].args[0] == x.params[mi] && found(x, f.args[0].args[1]) == cl {
				st.ts["handled:"+tid(cl)] = x.tt.null()
			}
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll != nil && copied(l.coll) == x.params[ii] && exhausted(l, from) && l.inOrder && st.ts["match"] != nil {
			st.ts["handled:"+tid(st.ts["match"])] = x.tt.null()
		}
	}
	rule.onExit = func(x *Explorer, st *State, rs []*Term) {
		if x.knownNonNil(st, last(rs)) || !x.succeeds(st, rs) {
			return
		}
		c.count("files read to the end", 1)
		if s := st.ts["scan"]; s == nil || !x.knownFalse(st, s) {
			x.report(st, R.Pos(), "scan:end", "success may be reported although the file was not read to its end")
		}
		if e := st.ts["scanerr"]; e == nil || !x.knownNil(st, e) {
			x.report(st, R.Pos(), "scan:err", "a failure to read the file may not be reported")
		}
	}
	c.explore(R, rule, nil, nil)
	for _, n := range []string{"imports followed", "files added", "iterations over include directories", "iterations over lines", "files read to the end", "lines matched"} {
		c.atLeast(n, 1)
	}
	if len(res) != 1 {
		c.undecided("regexp", "the expression for import statements was not found")
	}
	for text, g := range res {
		re, err := regexp.Compile(text)
		if err != nil || g > re.NumSubexp() {
			c.fail("regexp", "the expression for import statements is invalid: %s", text)
			continue
		}
		for _, row := range importTable {
			c.count("import statements compared", 1)
			got := ""
			if m := re.FindStringSubmatch(row[0]); m != nil {
				got = m[g]
			}
			if got != row[1] {
				c.fail("regexp:"+strconv.Quote(row[0]), "the expression %s finds %q in the line %q, want %q", text, got, row[0], row[1])
			}
		}
	}
	c.errorDiscipline()
}

// has tells whether m is known to have, or not to have, the key k.
func has(x *Explorer, st *State, m, k *Term, want bool) bool {
	for f, v := range st.facts {
		if f.op == OpLoad && f.args[0].op == OpMapHas && f.args[0].args[0] == m && f.args[0].args[1] == k {
			return v == want
		}
	}
	return false
}
