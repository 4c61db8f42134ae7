package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elemOfList gives the list that t is an element of.
func elemOfList(t *Term) *Term {
	if t != nil && t.op == OpLoad && t.args[0].op == OpIndex {
		return t.args[0].args[0]
	}
	return nil
}

// fieldLoad tells whether t is a field, given by name, of something of the named type, and of what.
func fieldLoad(t *Term, typ, name string) *Term {
	if t == nil || t.op != OpLoad || t.args[0].op != OpField {
		return nil
	}
	a := t.args[0]
	if fieldName(a.typ, a.i) != name || typeKey(deref(a.typ)) != typ {
		return nil
	}
	return a.args[0]
}

// checkDriverProgram decides C22.
func checkDriverProgram(c *Check) {
	c.rule("an identifier becomes a target, under its own name, on exactly those paths on which it is known to be exported, to be a variable and to have a type that implements Target, and every identifier in the scope of the package is considered")
	c.rule("the documentation given for a target is, up to formatting, the comment of its declaration: for every variable group of the package and of its types, every name that is a target gets the comment of its own specification, if there is one, or of the group")
	c.rule("the template gets the name of the package and all targets; rendered for sample targets, it is a valid Go program which registers every target exactly once, under its name, with its documentation and the value of the variable, before listing or parsing arguments")
	c.rule("the source of the user's package is copied to the directory that the driver imports it from; go.mod replaces the fab module by the directory of the embedded sources; the generated file is in the directory of the module")
	c.rule("packages are loaded with the mode bits that the fields used by CompilePackage need")
	fn := c.need("", "CompilePackage")
	if fn == nil {
		return
	}
	d, c2, mains := c.drivers()
	if d == nil {
		return
	}
	for i, m := range mains {
		c2.checkRegistrations(m, sampleTargets[i])
		c2.checkDriverMain(m)
	}
	c.checkGeneration(fn, d, false)
	c.checkGeneration(fn, d, true)
	c.checkLoadModes(fn)
	c.atLeast("registrations", 3)
	c.atLeast("targets put in", 1)
	c.atLeast("documentation found", 1)
	c.atLeast("user files copied", 1)
	c.atLeast("templates executed", 1)
	c.atLeast("mode bits needed", 4)
	c.errorDiscipline()
}

// checkRegistrations explores the main function of a driver for sample targets.
func (c *Check) checkRegistrations(fn *ssa.Function, samples []sampleTarget) {
	rule := &Rule{stop: outside(fn), keepArgs: allArgs, model: flagModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		switch ev.name {
		case nRegister:
			name, ok := ev.args[1].strVal()
			if !ok || st.ts["reg:"+name] != nil {
				x.report(st, pos, "reg:name", "a target is registered twice, or under an unknown name (%s)", ev.args[1])
				return
			}
			st.ts["reg:"+name] = ev.errResult(x)
			st.ts["regcon"] = ev.args[0]
			c.count("registrations", 1)
			for _, s := range samples {
				if s.name != name {
					continue
				}
				if doc, ok := ev.args[2].strVal(); !ok || doc != s.doc {
					x.report(st, pos, "reg:doc", "the target %s is registered with the documentation %s", name, ev.args[2])
				}
				v := unbox(ev.args[3])
				if v.op != OpLoad || v.args[0].op != OpGlobal || v.args[0].glob.Name() != name || !strings.HasSuffix(v.args[0].glob.Pkg.Pkg.Path(), "/"+sampleSub) {
					x.report(st, pos, "reg:value", "what is registered as %s is %s, and not the variable of that name", name, v)
				}
				return
			}
			x.report(st, pos, "reg:extra", "%q is registered, which is not a target of the package", name)
		case nListTargets, nParseArgs:
			for _, s := range samples {
				err := st.ts["reg:"+s.name]
				if err == nil || !x.knownNil(st, err) {
					x.report(st, pos, "reg:missing", "%s is reached without the target %s having been registered successfully", ev.name, s.name)
				} else if st.ts["regcon"] != ev.args[0] {
					x.report(st, pos, "reg:con", "targets are registered in another controller than the one used")
				}
			}
			c.count("uses of the registered targets", 1)
		}
	}
	c.explore(fn, rule, nil, nil)
}

// checkGeneration explores CompilePackage.
// Files says whether to look at the files that are written, or else at the targets found.
func (c *Check) checkGeneration(fn *ssa.Function, d *driverSource, files bool) {
	valueType, typeType := c.extType("go/doc", "Value"), c.extType("go/doc", "Type")
	if valueType == nil || typeType == nil {
		return
	}
	filters := map[*ssa.Function]bool{}
	rule := &Rule{keepArgs: allArgs, forget: true}
	rule.stop = func(x *Explorer, name string, f *ssa.Function) bool {
		return oneOf(name, "fab.populateFabDir", "fab.checkImplementsTarget") || takesGroup(f) >= 0
	}
	// scopeNames tells whether t is the list of the names in the scope of the package.
	isScope := func(x *Explorer, t *Term) bool {
		t = unbox(t)
		return (callTo(t, "(*go/types.Package).Scope") != nil || t.isPure("(*go/types.Package).Scope")) && isFieldOf(t.args[0], x.params[1], "Types")
	}
	isNames := func(x *Explorer, t *Term) bool {
		return t != nil && (callTo(t, "(*go/types.Scope).Names") != nil || t.isPure("(*go/types.Scope).Names")) && isScope(x, t.args[0])
	}
	isLookup := func(x *Explorer, t, k *Term) bool {
		l := is(unbox(t), "(*go/types.Scope).Lookup")
		return l != nil && isScope(x, l.args[0]) && l.args[1] == k
	}
	// mentions tells whether t is about the object that k names.
	about := func(x *Explorer, t, k *Term) bool {
		return t.any(func(s *Term) bool { return isLookup(x, s, k) })
	}
	// implements tells whether the call t is about the type of the object that k names.
	implements := func(x *Explorer, t, k *Term) bool {
		return (is(t, "(*go/types.object).Type") != nil || is(t, "invoke go/types.Object.Type") != nil) && about(x, t.args[0], k)
	}
	type facts struct{ exported, variable, target bool }
	learn := func(x *Explorer, st *State, k *Term) (yes, no facts) {
		for f, v := range st.facts {
			set := func(pick func(f *facts) *bool, v bool) {
				if v {
					*pick(&yes) = true
				} else {
					*pick(&no) = true
				}
			}
			exported := func(f *facts) *bool { return &f.exported }
			variable := func(f *facts) *bool { return &f.variable }
			target := func(f *facts) *bool { return &f.target }
			switch {
			case (is(f, "go/ast.IsExported") != nil || is(f, "go/token.IsExported") != nil) && f.args[0] == k:
				set(exported, v)
			case (is(f, "invoke go/types.Object.Exported") != nil || is(f, "(*go/types.object).Exported") != nil) && about(x, f.args[0], k):
				set(exported, v)
			case f.op == OpIsType && isLookup(x, f.args[0], k):
				if shortType(f.typ) == "*types.Var" {
					set(variable, v)
				} else if v && !types.IsInterface(f.typ) {
					set(variable, false)
				}
			case f.op == OpBin && f.s == "==":
				for i, a := range f.args {
					if !f.args[1-i].isNil() {
						continue
					}
					if isLookup(x, a, k) && v {
						set(variable, false)
					}
					if cl := callTo(a, "fab.checkImplementsTarget"); cl != nil && implements(x, cl.args[0], k) {
						set(target, v)
					}
				}
			}
		}
		return
	}
	isDocs := func(t *Term) bool { return callTo(t, "go/doc.New", "go/doc.NewFromFiles") != nil }
	// isVars tells whether t is the variable groups of the package, or of one of its types.
	isVars := func(t *Term) (pkg, typ bool) {
		if p := fieldLoad(t, "go/doc.Package", "Vars"); p != nil {
			return isDocs(p), false
		}
		if p := fieldLoad(t, "go/doc.Type", "Vars"); p != nil {
			l := elemOfList(p)
			q := fieldLoad(l, "go/doc.Package", "Types")
			return false, q != nil && isDocs(q)
		}
		return false, false
	}
	// groups finds what a list of variable groups consists of.
	groups := func(x *Explorer, st *State, list *Term) (pkg, typ, other bool) {
		_, spreads := listOf(x.canon(st, list))
		if e, _ := listOf(x.canon(st, list)); len(e) > 0 {
			other = true
		}
		for _, l := range spreads {
			if p, t := isVars(l); p || t {
				pkg, typ = pkg || p, typ || t
				continue
			}
			recs := x.comps[l]
			if !l.widened() || len(recs) == 0 {
				other = true
			}
			for _, r := range recs {
				q := fieldLoad(r.coll, "go/doc.Package", "Types")
				if q == nil || !isDocs(q) || r.faulty() != "" || len(r.nested) > 0 {
					other = true
					continue
				}
				_, is := listOf(r.init)
				for _, i := range is {
					p, _ := isVars(i)
					pkg = pkg || p
				}
				typ = true
				for _, b := range r.bodies {
					if len(b) != 1 || b[0].op != OpSpread || fieldLoad(b[0].args[0], "go/doc.Type", "Vars") != x.elemMark() {
						typ = false
					}
				}
			}
		}
		return
	}
	// group gives the variable group that k is a name of.
	group := func(k *Term) *Term { return fieldLoad(elemOfList(k), tValue, "Names") }
	dc := &docChecker{c: c, group: group, done: map[*ssa.Function]bool{}}
	var targetsType string
	entry := func(t types.Type) bool {
		s := structOf(deref(t))
		if s == nil {
			return false
		}
		ok := fieldIndex(deref(t), d.name) >= 0 && fieldIndex(deref(t), d.doc) >= 0
		if ok {
			targetsType = typeKey(deref(t))
		}
		return ok
	}
	// documented records that the documentation of k was set.
	documented := func(x *Explorer, st *State, pos tokenPos, k, val *Term) {
		if _, ok := val.strVal(); ok && group(k) == nil {
			return
		}
		c.count("documentation found", 1)
		v := group(k)
		if v == nil {
			x.report(st, pos, "doc:name", "documentation is set for %s, which is not one of the names of a variable group", k)
			return
		}
		st.ts["doc:"+tid(k)] = k
		dc.text(x, st, pos, v, k, val)
	}
	tmp := func(st *State) *Term { return st.ts["tmp"] }
	in := func(x *Explorer, st *State, p *Term) []*Term {
		p = unconv(p)
		es := joined(p)
		if len(es) > 0 {
			if nested := joined(es[0]); nested != nil {
				es = append(append([]*Term(nil), nested...), es[1:]...)
			}
		}
		if len(es) < 2 || es[0] != tmp(st) || tmp(st) == nil {
			return nil
		}
		var out []*Term
		for _, e := range es[1:] {
			if s, ok := e.strVal(); ok {
				for _, w := range strings.Split(s, "/") {
					if w != "" && w != "." {
						out = append(out, x.tt.str(w))
					}
				}
				continue
			}
			out = append(out, e)
		}
		return out
	}
	isDir := func(x *Explorer, t *Term) bool {
		return is(t, "path/filepath.Dir") != nil && elemOfList(t.args[0]) != nil && isFieldOf(elemOfList(t.args[0]), x.params[1], "GoFiles")
	}
	dirEntry := func(x *Explorer, e *Term) bool {
		l := elemOfList(e)
		cl := callTo(l, "os.ReadDir")
		return cl != nil && l.op == OpExtract && isDir(x, cl.args[0])
	}
	nameOf := func(t *Term) *Term {
		if t.isPure("invoke io/fs.DirEntry.Name") || t.isPure("invoke os.DirEntry.Name") {
			return t.args[0]
		}
		return nil
	}
	// userFile tells which directory entry or which of the package's files a path is.
	userFile := func(x *Explorer, p *Term) *Term {
		if l := elemOfList(p); l != nil && isFieldOf(l, x.params[1], "GoFiles") {
			return p
		}
		if es := joined(p); len(es) == 2 && isDir(x, es[0]) && nameOf(es[1]) != nil && dirEntry(x, nameOf(es[1])) {
			return nameOf(es[1])
		}
		return nil
	}
	// copied1 records that a file was copied.
	copiedFile := func(x *Explorer, st *State, pos tokenPos, dst, src, err *Term) {
		f := userFile(x, src)
		if f == nil {
			return
		}
		c.count("user files copied", 1)
		es := in(x, st, dst)
		if len(es) != 3 || !es[0].isStr("pkg") || !isFieldOf(es[1], x.params[1], "Name") {
			x.report(st, pos, "copy:where", "a file of the package is copied to %s, which is not where the driver imports it from", dst)
			return
		}
		b := es[2]
		if n := nameOf(b); !(n != nil && n == f) && !(is(b, "path/filepath.Base") != nil && (b.args[0] == src || b.args[0] == f || nameOf(b.args[0]) == f)) {
			x.report(st, pos, "copy:name", "a file of the package is copied under another name (%s)", b)
		}
		st.ts["copied:"+tid(f)] = orNil(x, err)
	}
	entryMap := func(ins ssa.Instruction) bool {
		mu, ok := ins.(*ssa.MapUpdate)
		return ok && entry(mu.Map.Type().Underlying().(*types.Map).Elem())
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) { dc.branch(st, cond, val) }
	isBase := func(x *Explorer, k *Term) bool {
		l := elemOfList(k.args[0])
		return k.isPure("path/filepath.Base") && l != nil && isFieldOf(l, x.params[1], "GoFiles")
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if !files && !entryMap(ins) {
			// a set of the names of the files: true for all that are in it, if that is ever looked at
			b, known := false, false
			if v != nil {
				b, known = v.boolVal()
			}
			if len(k.args) == 1 && isBase(x, k) && v != nil && (b || !known) {
				st.ts["base:"+tid(m)] = flag(x)
				st.ts["basing:"+tid(m)] = flag(x)
			} else {
				st.ts["basebad:"+tid(m)] = flag(x)
			}
		}
		mu, ok := ins.(*ssa.MapUpdate)
		if !ok {
			if st.ts["targets:"+tid(m)] != nil {
				x.report(st, ins.Pos(), "target:removed", "a target may be taken out again")
			}
			return
		}
		et := mu.Map.Type().Underlying().(*types.Map).Elem()
		if files || !entry(et) {
			return
		}
		pos := ins.Pos()
		st.ts["targets:"+tid(m)] = m
		parts := x.entryParts(st, v, structOf(deref(et)), et)
		name, doc := parts[fieldIndex(deref(et), d.name)], parts[fieldIndex(deref(et), d.doc)]
		if name != k && group(k) == nil {
			x.report(st, pos, "target:name", "the target %s gets the name %s", k, name)
		}
		if group(k) != nil {
			// a changed copy is stored
			documented(x, st, pos, k, doc)
			return
		}
		c.count("targets put in", 1)
		if !isNames(x, elemOfList(k)) {
			x.report(st, pos, "target:key", "%s is made a target, which is not a name in the scope of the package", k)
			return
		}
		yes, _ := learn(x, st, k)
		for _, f := range []struct {
			ok        bool
			key, what string
		}{{yes.exported, "exported", "exported"}, {yes.variable, "variable", "a variable"}, {yes.target, "target", "of a type that implements Target"}} {
			if !f.ok {
				x.report(st, pos, "target:"+f.key, "an identifier becomes a target without being known to be %s", f.what)
			}
		}
		if s, ok := doc.strVal(); !ok {
			documented(x, st, pos, k, doc)
		} else if s != "" && s != `""` && s != "``" {
			x.report(st, pos, "doc:default", "targets without a comment get the documentation %s", s)
		}
		st.ts["put:"+tid(k)] = k
		if v.op == OpAlloc {
			st.ts["entry:"+tid(v)] = k
		}
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if files || addr.op != OpField || typeKey(deref(addr.typ)) != targetsType || targetsType == "" {
			return
		}
		f := fieldName(addr.typ, addr.i)
		p := addr.args[0]
		k := st.ts["entry:"+tid(p)]
		if p.op == OpLoad && p.args[0].op == OpMapElem {
			k = p.args[0].args[1]
		}
		switch {
		case k == nil && p.op == OpAlloc:
			// not put in yet
		case k != nil && f == d.doc:
			documented(x, st, ins.Pos(), k, val)
		default:
			x.report(st, ins.Pos(), "target:change", "a target is changed afterwards")
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == nil {
			return
		}
		e := x.loopElem(st, l)
		if e == nil {
			return
		}
		pos := headPos(l)
		fail := func(what string) { st.ts["skip:"+l.name+":"+what] = flag(x) }
		if !files && isFieldOf(l.coll, x.params[1], "GoFiles") {
			for _, k := range tsKeys(st, "base:") {
				if m := strings.TrimPrefix(k, "base:"); st.ts["basing:"+m] == nil {
					fail("base:" + m)
				}
			}
			if len(tsKeys(st, "basing:")) == 0 {
				fail("base")
			}
			tsClear(st, "basing:")
		}
		switch {
		case files != (isFieldOf(l.coll, x.params[1], "GoFiles") || dirEntry(x, e)):
		case !files && dc.back(x, st, l, e, fail):
		case isNames(x, l.coll):
			tsClear(st, "entry:")
			if st.ts["put:"+tid(e)] == nil {
				_, no := learn(x, st, e)
				if !no.exported && !no.variable && !no.target {
					x.report(st, pos, "target:left", "an identifier of the package may be left out although it may be an exported variable that implements Target")
				}
			}
			c.count("iterations over identifiers", 1)
		case fieldLoad(l.coll, tValue, "Names") != nil:
			if st.ts["doc:"+tid(e)] == nil {
				known := false
				for f, v := range st.facts {
					if !v && f.op == OpLoad && f.args[0].op == OpMapHas && f.args[0].args[1] == e && st.ts["targets:"+tid(f.args[0].args[0])] != nil {
						known = true
					}
					if v && f.op == OpBin && f.s == "==" {
						for i, a := range f.args {
							if f.args[1-i].isNil() && a.op == OpLoad && a.args[0].op == OpMapElem && a.args[0].args[1] == e && st.ts["targets:"+tid(a.args[0].args[0])] != nil {
								known = true
							}
						}
					}
				}
				for _, k := range tsKeys(st, "targets:") {
					m := st.ts[k]
					if x.knownTrue(st, x.tt.eq(x.tt.length(m), x.tt.num(0))) {
						known = true
					}
				}
				if len(tsKeys(st, "targets:")) == 0 {
					known = true // nothing was put in
				}
				if !known {
					fail("doc")
					x.report(st, pos, "doc:left", "the documentation of a target may be left out")
				}
			}
			delete(st.ts, "doc:"+tid(e))
			dc.clear(st)
		case fieldLoad(l.coll, "go/doc.Package", "Types") != nil:
			vars := x.load(st, x.fieldAddr(e, typeType, "Vars"), types.NewSlice(valueType))
			if st.ts["groups:"+tid(vars)] == nil {
				fail("typevars")
			}
		case isFieldOf(l.coll, x.params[1], "GoFiles"), dirEntry(x, e):
			if err := st.ts["copied:"+tid(e)]; err != nil && (err.isNil() || x.knownNil(st, err)) {
				c.count("iterations over user files", 1)
				break
			}
			skippable := false
			for f, v := range st.facts {
				switch {
				case v && (f.isPure("invoke io/fs.DirEntry.IsDir") || f.isPure("invoke os.DirEntry.IsDir")) && f.args[0] == e:
					skippable = true
				case f.isPure("strings.HasSuffix") && nameOf(f.args[0]) == e:
					suf, _ := f.args[1].strVal()
					skippable = skippable || v && suf == "_test.go" || !v && suf == ".go"
				case !v && f.op == OpBin && f.s == "==":
					for i, a := range f.args {
						if f.args[1-i].isStr(".go") && a.isPure("path/filepath.Ext") && nameOf(a.args[0]) == e {
							skippable = true
						}
					}
				}
			}
			if !skippable {
				fail("files")
			}
		default:
			if pkg, typ, _ := groups(x, st, l.coll); !pkg && !typ {
				break
			}
			if st.ts["names:"+tid(e)] == nil {
				names := x.load(st, x.fieldAddr(e, valueType, "Names"), types.NewSlice(types.Typ[types.String]))
				if !x.knownTrue(st, x.tt.eq(x.tt.length(names), x.tt.num(0))) {
					fail("names")
				}
			}
			delete(st.ts, "names:"+tid(e))
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == nil {
			return
		}
		skipped := len(tsKeys(st, "skip:"+l.name+":")) > 0
		tsClear(st, "skip:"+l.name+":")
		if !exhausted(l, from) || skipped {
			return
		}
		switch {
		case !files && isFieldOf(l.coll, x.params[1], "GoFiles"):
			if l.class == 0 {
				st.ts["nobases"] = flag(x)
			}
			for _, k := range tsKeys(st, "base:") {
				st.ts["bases:"+strings.TrimPrefix(k, "base:")] = flag(x)
			}
		case files != (isFieldOf(l.coll, x.params[1], "GoFiles") || callTo(l.coll, "os.ReadDir") != nil):
		case !files && dc.exhausted(x, st, l):
		case l.isMap && st.ts["targets:"+tid(l.coll)] != nil:
			st.ts["ranged:"+tid(l.coll)] = flag(x)
		case isNames(x, l.coll):
			st.ts["scope"] = flag(x)
		case fieldLoad(l.coll, tValue, "Names") != nil:
			st.ts["names:"+tid(fieldLoad(l.coll, tValue, "Names"))] = flag(x)
		case fieldLoad(l.coll, "go/doc.Package", "Types") != nil:
			st.ts["vars:typ"] = flag(x)
		case isFieldOf(l.coll, x.params[1], "GoFiles"):
			st.ts["copied"] = flag(x)
		case callTo(l.coll, "os.ReadDir") != nil && isDir(x, callTo(l.coll, "os.ReadDir").args[0]):
			st.ts["copied"] = flag(x)
		default:
			pkg, typ, other := groups(x, st, l.coll)
			if other && !pkg && !typ {
				return
			}
			st.ts["groups:"+tid(l.coll)] = flag(x)
			if pkg {
				st.ts["vars:pkg"] = flag(x)
			}
			if _, one := isVars(l.coll); typ && !one {
				st.ts["vars:typ"] = flag(x)
			}
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		if files && ev.is("go/doc.New", "go/doc.NewFromFiles") {
			return
		}
		if !files && ev.is("fab.checkImplementsTarget") {
			st.ts["impl"] = ev.errResult(x)
		}
		if !files && !ev.is("(*text/template.Template).Execute", "go/doc.New", "go/doc.NewFromFiles") {
			return
		}
		switch {
		case ev.is("os.MkdirTemp"):
			st.ts["tmp"] = x.tt.extract(ev.res, 0)
		case ev.is("fab.populateFabDir"):
			if ev.args[0] != tmp(st) {
				x.report(st, pos, "fab:where", "the sources of fab are put into %s", ev.args[0])
			}
			st.ts["fabdir"] = ev.errResult(x)
		case ev.is("go/doc.New", "go/doc.NewFromFiles"):
			p := ev.args[0]
			ok := p.op == OpLoad && p.args[0].op == OpMapElem && isFieldOf(p.args[0].args[1], x.params[1], "Name")
			if ok {
				cl := callTo(p.args[0].args[0], "go/parser.ParseDir")
				ok = cl != nil && isDir(x, cl.args[1])
				if ok {
					mode, known := cl.args[3].intVal()
					if !known || mode&4 == 0 || mode&2 != 0 {
						x.report(st, pos, "doc:mode", "the package is parsed without its comments")
					}
					if f := cl.args[2]; !f.isNil() && !filters[f.fn] {
						if f.fn == nil || len(f.fn.Blocks) == 0 {
							x.report(st, pos, "doc:filter", "which files are parsed is not known")
						} else {
							filters[f.fn] = true
							// bases tells whether a captured variable is the set of the names of all files of the package.
							c.parseFilter(f.fn, func(v *Term) bool {
								for i, fv := range f.fn.FreeVars {
									m := f.args[i]
									if v.op == OpLoad {
										m = x.load(st, m, deref(fv.Type()))
									}
									if fv := "free." + fv.Name(); v.op == OpParam && v.s == fv || v.op == OpLoad && v.args[0].op == OpParam && v.args[0].s == fv {
										return (st.ts["bases:"+tid(m)] != nil || st.ts["nobases"] != nil) && st.ts["basebad:"+tid(m)] == nil
									}
								}
								return false
							})
						}
					}
				}
			}
			if !ok {
				x.report(st, pos, "doc:package", "the documentation is not that of the package (%s)", p)
			}
		case ev.is("io.Copy"):
			if dst, src := openedPath(ev.args[0]), openedPath(ev.args[1]); dst != nil && src != nil {
				copiedFile(x, st, pos, dst, src, ev.errResult(x))
			}
		case ev.is("os.WriteFile") && tmp(st) != nil:
			if p := contentsOf(ev.args[1]); p != nil {
				copiedFile(x, st, pos, ev.args[0], p, ev.errResult(x))
			}
			if es := in(x, st, ev.args[0]); len(es) == 1 && es[0].isStr("go.mod") {
				cl := callTo(ev.args[1], "(*golang.org/x/mod/modfile.File).Format")
				if cl != nil && st.ts["formatted:"+tid(cl)] != nil {
					st.ts["replaced"] = ev.errResult(x)
				} else {
					x.report(st, pos, "mod:write", "go.mod is rewritten without the replacement of the fab module")
				}
			} else if b := st.ts["rendered"]; b != nil && ev.args[1].contains(b) {
				c.driverFile(x, st, pos, in(x, st, ev.args[0]))
				delete(st.ts, "rendered")
			}
		case ev.is("(*golang.org/x/mod/modfile.File).Format"):
			if e := st.ts["replace:"+tid(ev.args[0])]; e != nil && x.knownNil(st, e) {
				st.ts["formatted:"+tid(ev.res)] = flag(x)
			}
		case ev.is("(*golang.org/x/mod/modfile.File).AddReplace"):
			cl := callTo(ev.args[0], "golang.org/x/mod/modfile.Parse")
			if cl == nil {
				break
			}
			if p := contentsOf(cl.args[1]); p == nil || len(in(x, st, p)) != 1 || !in(x, st, p)[0].isStr("go.mod") {
				x.report(st, pos, "mod:which", "the go.mod changed is not that of the driver")
			}
			if !ev.args[1].isStr(modPath) || !ev.args[2].isStr("") || !ev.args[4].isStr("") || !ev.args[3].isStr("./fab") && !ev.args[3].isStr("fab/") && !isFabDir(in(x, st, ev.args[3])) {
				x.report(st, pos, "mod:replace", "go.mod does not replace %s by the directory of its sources", modPath)
			}
			st.ts["replace:"+tid(ev.args[0])] = ev.errResult(x)
		case ev.is("(*text/template.Template).Execute"):
			c.count("templates executed", 1)
			if p := openedPath(ev.args[1]); !files {
			} else if p != nil {
				c.driverFile(x, st, pos, in(x, st, p))
			} else {
				st.ts["rendered"] = unbox(ev.args[1])
			}
			if files {
				break
			}
			if st.ts["scope"] == nil {
				x.report(st, pos, "scope", "the driver is generated without all identifiers of the package having been considered")
			}
			if st.ts["vars:pkg"] == nil || st.ts["vars:typ"] == nil {
				x.report(st, pos, "doc:all", "the driver is generated without the documentation of all variables of the package and of its types having been looked at")
			}
			raw := ev.raw[2]
			t := raw.typ
			if raw.op != OpIface || t == nil || structOf(deref(t)) == nil {
				break
			}
			for i, p := range x.entryParts(st, unbox(raw), structOf(deref(t)), t) {
				if structOf(deref(t)).Field(i).Name() != d.targets {
					continue
				}
				c.allTargets(x, st, pos, p)
			}
			st.dead = true
		case ev.is("(*os/exec.Cmd).Run", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).Output"):
			_, words, ok := c.cmdWords(x, st, ev.args[0])
			if !ok {
				break
			}
			var ws []string
			for _, w := range words {
				s, _ := w.strVal()
				ws = append(ws, s)
			}
			line := strings.Join(ws, " ")
			if strings.HasPrefix(line, "go mod edit ") && strings.Contains(line, "replace="+modPath+"=./fab") {
				st.ts["replaced"] = ev.errResult(x)
			}
			if line == "go mod tidy" || strings.HasPrefix(line, "go build") {
				if e := st.ts["replaced"]; e == nil || !x.knownNil(st, e) {
					x.report(st, pos, "mod:unreplaced", "%s is run without fab's own module having been replaced", line)
				}
				if e := st.ts["fabdir"]; e == nil || !x.knownNil(st, e) {
					x.report(st, pos, "fab:missing", "%s is run without the sources of fab", line)
				}
				if st.ts["copied"] == nil {
					x.report(st, pos, "copy:missing", "%s is run without all files of the package having been copied", line)
				}
				if st.ts["rendered"] != nil {
					x.report(st, pos, "driver:unwritten", "%s is run without the generated source having been written to a file", line)
				}
				c.count("go commands", 1)
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	if files {
		c.atLeast("go commands", 2)
	}
}

// fieldOwner gives the value that a type assertion was made on.
func fieldOwner(t *Term) *Term {
	for t != nil && t.op == OpAssert {
		t = t.args[0]
	}
	return t
}

func isFabDir(es []*Term) bool { return len(es) == 1 && es[0].isStr("fab") }

// driverFile checks the name of the file with the generated source.
func (c *Check) driverFile(x *Explorer, st *State, pos tokenPos, es []*Term) {
	if len(es) == 1 {
		if s, ok := es[0].strVal(); ok && strings.HasSuffix(s, ".go") && !strings.HasSuffix(s, "_test.go") && !strings.HasPrefix(s, "_") && !strings.HasPrefix(s, ".") {
			return
		}
	}
	x.report(st, pos, "driver:file", "the generated source is not written to a Go file in the directory of the driver's module")
}

// allTargets checks that the list given to the template has all targets.
func (c *Check) allTargets(x *Explorer, st *State, pos tokenPos, list *Term) {
	isTargets := func(m *Term) bool { return st.ts["targets:"+tid(m)] != nil }
	none := len(tsKeys(st, "targets:")) == 0
	for _, k := range tsKeys(st, "targets:") {
		// nothing to list
		for f, v := range st.facts {
			if v && f.op == OpBin && f.s == "==" {
				for i, a := range f.args {
					if f.args[1-i].isInt(0) && a.isPure("len") && (a.args[0] == st.ts[k] || a.args[0].isPure("keys") && a.args[0].args[0] == st.ts[k]) {
						none = true
					}
				}
			}
		}
		if st.ts["ranged:"+tid(st.ts[k])] != nil {
			none = true
		}
	}
	bad := func(why string) {
		x.report(st, pos, "targets:all", "the driver is generated for other targets than those found: %s", why)
	}
	c.count("lists of targets", 1)
	list = x.canon(st, list)
	if cl := callTo(list, "golang.org/x/exp/maps.Values", "maps.Values"); cl != nil && list.op == OpCall {
		c.count("lists built", 1)
		if m := cl.args[0]; !isTargets(m) && !(none && m.op == OpMake) {
			bad("they are taken from another map")
		}
		return
	}
	if e, s := listOf(list); none && len(e)+len(s) == 0 {
		x.later(func() {
			if c.counts["lists built"] == 0 {
				bad("the list is always empty")
			}
		})
		return
	}
	if !list.widened() {
		bad("the list is " + list.String())
		return
	}
	c.count("lists built", 1)
	targets := map[*Term]bool{}
	for _, k := range tsKeys(st, "targets:") {
		targets[st.ts[k]] = true
	}
	x.later(func() {
		recs := x.comps[list]
		if len(recs) == 0 {
			bad("the list is not built in a loop over the targets")
		}
		for _, r := range recs {
			var m *Term
			switch {
			case r.coll == nil:
			case r.isMap:
				m = r.coll
			case r.coll.isPure("keys"):
				m = r.coll.args[0]
			}
			if m == nil || !targets[m] {
				bad("the list is not built in a loop over the targets")
				continue
			}
			if r.lost || r.skipped || len(r.nested) > 0 {
				bad("some are left out")
			}
			for _, b := range r.bodies {
				if len(b) != 1 || b[0].op != OpElem || !(b[0].args[0].op == OpLoad && b[0].args[0].args[0].op == OpMapElem && b[0].args[0].args[0].args[0] == m && b[0].args[0].args[0].args[1] == x.elemMark()) {
					bad("the list has other entries")
				}
			}
		}
	})
}

// parseFilter checks that a filter for files accepts just the files of the package.
func (c *Check) parseFilter(fn *ssa.Function, bases func(v *Term) bool) {
	isFiles := func(t *Term) bool { return fieldLoad(t, pkgType, "GoFiles") != nil }
	same := func(x *Explorer, st *State, val bool, e *Term) bool {
		for f, v := range st.facts {
			if v != val || f.op != OpBin || f.s != "==" {
				continue
			}
			for i, a := range f.args {
				n := f.args[1-i]
				if a.isPure("path/filepath.Base") && (e == nil || a.args[0] == e) && elemOfList(a.args[0]) != nil && isFiles(elemOfList(a.args[0])) && (n.isPure("invoke io/fs.FileInfo.Name") || n.isPure("invoke os.FileInfo.Name")) && n.args[0] == x.params[0] {
					return true
				}
			}
		}
		return false
	}
	rule := &Rule{keepArgs: allArgs}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if isFiles(l.coll) {
			if e := x.loopElem(st, l); !same(x, st, false, e) {
				st.ts["skip"] = flag(x)
			}
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if isFiles(l.coll) && exhausted(l, from) {
			st.ts["all"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		v, ok := x.decide(st, res[0])
		if r := res[0]; !ok && r.op == OpLoad && (r.args[0].op == OpMapElem || r.args[0].op == OpMapHas) {
			if n := r.args[0].args[1]; bases(r.args[0].args[0]) && (n.isPure("invoke io/fs.FileInfo.Name") || n.isPure("invoke os.FileInfo.Name")) && n.args[0] == x.params[0] {
				return
			}
		}
		switch {
		case !ok:
			x.report(st, fn.Pos(), "filter:undecided", "it is not understood which files are parsed (%s)", res[0])
		case v && !same(x, st, true, nil):
			x.report(st, fn.Pos(), "filter:extra", "a file may be parsed that is not known to be one of the package's")
		case !v && (st.ts["all"] == nil || st.ts["skip"] != nil):
			x.report(st, fn.Pos(), "filter:left", "a file may be left out that is one of the package's")
		}
	}
	c.explore(fn, rule, nil, nil)
}

const pkgType = "golang.org/x/tools/go/packages.Package"

// checkLoadModes checks the mode bits that packages are loaded with.
func (c *Check) checkLoadModes(fn *ssa.Function) {
	bit := func(name string) int64 {
		for _, pkg := range c.p.all {
			if pkg.PkgPath == "golang.org/x/tools/go/packages" {
				if k, ok := pkg.Types.Scope().Lookup(name).(*types.Const); ok {
					n, _ := constant.Int64Val(k.Val())
					return n
				}
			}
		}
		c.undecided("mode:"+name, "the mode %s is not known", name)
		return 0
	}
	bits := map[string]string{"Name": "NeedName", "PkgPath": "NeedName", "GoFiles": "NeedFiles", "OtherFiles": "NeedFiles", "CompiledGoFiles": "NeedCompiledGoFiles", "Types": "NeedTypes", "TypesInfo": "NeedTypesInfo", "Syntax": "NeedSyntax", "Imports": "NeedImports", "Module": "NeedModule", "EmbedFiles": "NeedEmbedFiles"}
	read := func(fn *ssa.Function, stop func(x *Explorer, name string, fn *ssa.Function) bool, need map[string]string, modes *int64, calls *int) {
		rule := &Rule{stop: stop, keepArgs: allArgs, forget: true}
		rule.onLoad = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
			if addr.op == OpField && typeKey(deref(addr.typ)) == pkgType {
				if b := bits[fieldName(addr.typ, addr.i)]; b != "" {
					need[b] = fieldName(addr.typ, addr.i)
				}
			}
		}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			if !ev.is("golang.org/x/tools/go/packages.Load") {
				return
			}
			*calls++
			ct := c.extType("golang.org/x/tools/go/packages", "Config")
			mode := c.loadField(x, st, ev.args[0], types.NewPointer(ct), "Mode")
			n, ok := mode.intVal()
			if !ok {
				x.report(st, ev.ins.Pos(), "mode:unknown", "the mode packages are loaded with is not a constant")
				return
			}
			*modes &= n
			c.count("loads of packages", 1)
		}
		c.explore(fn, rule, nil, nil)
	}
	need := map[string]string{}
	modes, calls := int64(-1), 0
	read(fn, func(x *Explorer, name string, f *ssa.Function) bool {
		return oneOf(name, "fab.populateFabDir", "fab.checkImplementsTarget") || docHelper(f)
	}, need, &modes, &calls)
	if sp := c.p.ssaPkgs[modPath]; sp != nil {
		if k, ok := sp.Pkg.Scope().Lookup("LoadMode").(*types.Const); ok {
			m, _ := constant.Int64Val(k.Val())
			for b, field := range need {
				if bit(b)&m == 0 {
					c.fail("mode:LoadMode:"+b, "LoadMode does not contain %s, but CompilePackage uses field %s", b, field)
				}
			}
		}
	}
	for _, n := range []string{"Compile", "Main.getDriver"} {
		f := c.need("", n)
		if f == nil {
			return
		}
		own := map[string]string{}
		for k, v := range need {
			own[k] = v
		}
		m, k := int64(-1), 0
		read(f, stopAt(nCompilePackage), own, &m, &k)
		if k == 0 {
			c.fail("mode:noload:"+n, "%s does not load a package", n)
			continue
		}
		for b, field := range own {
			c.count("mode bits needed", 1)
			if bit(b)&m == 0 {
				c.fail("mode:"+n+":"+b, "%s loads packages without %s, but field %s is used", n, b, field)
			}
		}
	}
}

const tValue = "go/doc.Value"

// takesGroup finds the parameter of a function of the module that turns a variable group into a string.
func takesGroup(fn *ssa.Function) int {
	if !isModPath(fnPkgPath(fn)) || fn.Signature.Results().Len() != 1 || fn.Parent() != nil {
		return -1
	}
	if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return -1
	}
	for i, p := range fn.Params {
		if typeKey(deref(p.Type())) == tValue {
			return i
		}
	}
	return -1
}

// is gives t if it is the result of the named function.
func is(t *Term, name string) *Term {
	if t == nil || t.isPure(name) {
		return t
	}
	if t.op == OpCall {
		return callTo(t, name)
	}
	return nil
}

// isSpecs gives the variable group that t is the list of specifications of.
func isSpecs(t *Term) *Term {
	return fieldLoad(fieldLoad(t, "go/ast.GenDecl", "Specs"), tValue, "Decl")
}

// comment takes away the formatting of a documentation string.
func comment(t *Term) *Term {
	for {
		u := unconv(t)
		switch {
		case is(u, "strconv.Quote") != nil, is(u, "strconv.QuoteToASCII") != nil, is(u, "strings.TrimSpace") != nil:
			u = u.args[0]
		case is(u, "strings.TrimRight") != nil, is(u, "strings.TrimSuffix") != nil, is(u, "strings.TrimLeft") != nil, is(u, "strings.Trim") != nil:
			if cut, ok := u.args[1].strVal(); ok && strings.Trim(cut, " \t\r\n") == "" {
				u = u.args[0]
			}
		case callTo(u, "(*go/doc/comment.Printer).Text", "(*go/doc/comment.Parser).Parse") != nil && u.op == OpCall && callTo(u.args[0], "(*go/doc.Package).Printer", "(*go/doc.Package).Parser") != nil,
			callTo(u, "(*go/doc.Package).Text") != nil:
			u = u.args[1]
		case u.isPure("fmt.Sprintf") && u.args[0].isStr("%q"):
			if e, s := listOf(u.args[1]); len(e) == 1 && len(s) == 0 {
				u = e[0]
			}
		}
		if u == t {
			return t
		}
		t = u
	}
}

// docChecker checks which comment is used for a variable.
type docChecker struct {
	c     *Check
	group func(k *Term) *Term // the group that a name belongs to
	done  map[*ssa.Function]bool
}

func (dc *docChecker) clear(st *State) {
	tsClear(st, "specs:")
	tsClear(st, "speccmp:")
	tsClear(st, "unnamed:")
	tsClear(st, "named:")
}

// namedBy calls f with the specification and the name, if cond says that one of the names in a specification is that name.
func namedBy(cond *Term, f func(spec, name *Term)) {
	if cond.op != OpBin || cond.s != "==" {
		return
	}
	for i, a := range cond.args {
		id := fieldLoad(a, "go/ast.Ident", "Name")
		if id == nil && is(a, "(*go/ast.Ident).String") != nil {
			id = a.args[0]
		}
		if s := fieldLoad(elemOfList(id), "go/ast.ValueSpec", "Names"); s != nil {
			f(s, cond.args[1-i])
		}
	}
}

// branch keeps in mind whose name was found, which the facts do not when the variables are gone.
func (dc *docChecker) branch(st *State, cond *Term, val bool) {
	for cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	if val {
		namedBy(cond, func(s, n *Term) { st.ts["named:"+tid(s)+":"+tid(n)] = cond })
	}
}

// back looks at one iteration of a loop.
func (dc *docChecker) back(x *Explorer, st *State, l *loopRec, e *Term, fail func(what string)) bool {
	group := dc.group
	switch {
	case isSpecs(l.coll) != nil:
		tsClear(st, "named:")
		spec := fieldOwner(e)
		ok := st.ts["unnamed:"+tid(spec)] != nil
		for f, v := range st.facts {
			if !v && f.op == OpIsType && f.args[0] == e && shortType(f.typ) == "*ast.ValueSpec" {
				ok = true
			}
			if v && f.op == OpBin && f.s == "==" {
				for i, a := range f.args {
					if f.args[1-i].isNil() && fieldLoad(a, "go/ast.ValueSpec", "Doc") != nil && fieldOwner(fieldLoad(a, "go/ast.ValueSpec", "Doc")) == spec {
						ok = true
					}
				}
			}
		}
		if !ok {
			fail("specs")
		}
		delete(st.ts, "unnamed:"+tid(spec))
	case fieldLoad(l.coll, "go/ast.ValueSpec", "Names") != nil:
		ok := false
		for f, v := range st.facts {
			if v || f.op != OpBin || f.s != "==" {
				continue
			}
			for i, a := range f.args {
				if k := f.args[1-i]; fieldLoad(a, "go/ast.Ident", "Name") == e && group(k) != nil {
					ok = true
					if old := st.ts["speccmp:"+tid(group(k))]; old != nil && old != k {
						ok = false
					}
					st.ts["speccmp:"+tid(group(k))] = k
				}
			}
		}
		if !ok {
			fail("idents")
		}
	default:
		return false
	}
	return true
}

// exhausted looks at the end of a loop.
func (dc *docChecker) exhausted(x *Explorer, st *State, l *loopRec) bool {
	switch {
	case isSpecs(l.coll) != nil:
		st.ts["specs:"+tid(isSpecs(l.coll))] = flag(x)
	case fieldLoad(l.coll, "go/ast.ValueSpec", "Names") != nil:
		st.ts["unnamed:"+tid(fieldOwner(fieldLoad(l.coll, "go/ast.ValueSpec", "Names")))] = flag(x)
	default:
		return false
	}
	return true
}

// text checks that val is the comment for variable k of group v.
func (dc *docChecker) text(x *Explorer, st *State, pos tokenPos, v, k, val *Term) {
	text := comment(val)
	if text.op == OpCall {
		if fn := calledFn(text); fn != nil && takesGroup(fn) >= 0 && text.args[takesGroup(fn)] == v {
			for i, a := range text.args {
				if a == k {
					dc.helper(fn, i)
					return
				}
			}
		}
	}
	switch {
	case fieldLoad(text, tValue, "Doc") == v:
		// only if no specification has its own comment
		if cmp := st.ts["speccmp:"+tid(v)]; st.ts["specs:"+tid(v)] == nil || cmp != nil && cmp != k {
			x.report(st, pos, "doc:spec", "the comment of a group is used without all specifications in the group having been looked at")
		}
	case is(text, "(*go/ast.CommentGroup).Text") != nil:
		spec := fieldLoad(text.args[0], "go/ast.ValueSpec", "Doc")
		named := spec != nil && st.ts["named:"+tid(spec)+":"+tid(k)] != nil
		for f, val := range st.facts {
			if val {
				namedBy(f, func(s, n *Term) { named = named || s == spec && n == k })
			}
		}
		if !named || spec == nil || !spec.any(func(t *Term) bool { return fieldLoad(t, tValue, "Decl") == v }) {
			x.report(st, pos, "doc:spec:which", "the comment used for a target is that of a specification which need not be for that target")
		}
	default:
		x.report(st, pos, "doc:text", "the documentation of a target, %s, is not the comment of its declaration", text)
	}
}

// helper checks a function that gives the comment for a variable of a group.
func (dc *docChecker) helper(fn *ssa.Function, name int) {
	if dc.done[fn] {
		return
	}
	dc.done[fn] = true
	gi := takesGroup(fn)
	rule := &Rule{keepArgs: allArgs, stop: func(x *Explorer, name string, f *ssa.Function) bool { return takesGroup(f) >= 0 }}
	var sub *docChecker
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) { sub.branch(st, cond, val) }
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if e := x.loopElem(st, l); e != nil && l.coll != nil {
			sub.back(x, st, l, e, func(what string) { st.ts["skip:"+l.name+":"+what] = flag(x) })
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		skipped := len(tsKeys(st, "skip:"+l.name+":")) > 0
		tsClear(st, "skip:"+l.name+":")
		if l.coll != nil && exhausted(l, from) && !skipped {
			sub.exhausted(x, st, l)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		sub.text(x, st, fn.Pos(), x.params[gi], x.params[name], res[0])
	}
	x := dc.c.explorer(rule)
	sub = &docChecker{c: dc.c, done: dc.done, group: func(k *Term) *Term {
		if k == x.params[name] {
			return x.params[gi]
		}
		return nil
	}}
	dc.c.exploreWith(x, fn, nil, nil)
}

// calledFn is the function whose result t is.
func calledFn(t *Term) *ssa.Function {
	if ci, ok := t.ins.(ssa.CallInstruction); ok {
		return ci.Common().StaticCallee()
	}
	return nil
}

// docHelper tells whether a function just turns a variable group into a string.
func docHelper(fn *ssa.Function) bool {
	if takesGroup(fn) < 0 {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var pure func(fn *ssa.Function) bool
	pure = func(fn *ssa.Function) bool {
		if seen[fn] {
			return true
		}
		seen[fn] = true
		if !isModPath(fnPkgPath(fn)) {
			return oneOf(fnPkgPath(fn), "go/doc", "go/doc/comment", "go/ast", "go/token", "strings", "strconv", "slices", "unicode", "unicode/utf8")
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.Alloc); !ok {
						return false
					}
				case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MakeClosure:
					return false
				case *ssa.Call:
					if _, ok := in.Call.Value.(*ssa.Builtin); ok {
						continue
					}
					if f := in.Call.StaticCallee(); f == nil || !pure(f) {
						return false
					}
				}
			}
		}
		return true
	}
	return pure(fn)
}
