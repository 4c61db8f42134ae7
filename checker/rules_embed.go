package main

import (
	"go/ast"
	"go/types"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "The go:embed directive of the file system that populateFabDir copies is evaluated on the current tree and compared with the files of all packages of the module that a driver can import, directly or not. The copying function and its recursion (or walk) are explored over all paths.", checkEmbeds)
}

// embedding is a variable with a go:embed directive.
type embedding struct {
	pkg      *packages.Package
	name     string
	patterns []string
}

// embeddings are the variables of a package with go:embed directives, outside tests.
func embeddings(pkg *packages.Package) []embedding {
	var out []embedding
	add := func(doc *ast.CommentGroup, names []*ast.Ident) {
		if doc == nil || len(names) != 1 {
			return
		}
		var ps []string
		for _, l := range doc.List {
			if rest, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
				ps = append(ps, splitPatterns(rest)...)
			}
		}
		if len(ps) > 0 {
			out = append(out, embedding{pkg, names[0].Name, ps})
		}
	}
	for _, f := range pkg.Syntax {
		if strings.HasSuffix(pkg.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok {
					continue
				}
				if v.Doc != nil {
					add(v.Doc, v.Names)
				} else if len(g.Specs) == 1 {
					add(g.Doc, v.Names)
				}
			}
		}
	}
	return out
}

// splitPatterns splits the arguments of a go:embed directive.
func splitPatterns(s string) []string {
	var out []string
	for {
		s = strings.TrimSpace(s)
		if s == "" {
			return out
		}
		if s[0] == '"' || s[0] == '`' {
			q, err := strconv.QuotedPrefix(s)
			if err != nil {
				return out
			}
			u, _ := strconv.Unquote(q)
			out = append(out, u)
			s = s[len(q):]
			continue
		}
		w, rest, _ := strings.Cut(s, " ")
		out = append(out, w)
		s = rest
	}
}

// embedded are the files that a pattern in a package denotes, relative to the directory of the package.
func embedded(dir, pattern string) []string {
	pattern, all := strings.CutPrefix(pattern, "all:")
	ms, _ := filepath.Glob(filepath.Join(globQuote(dir), filepath.FromSlash(pattern)))
	var out []string
	for _, m := range ms {
		info, err := os.Lstat(m)
		if err != nil {
			continue
		}
		if !info.IsDir() {
			if info.Mode().IsRegular() {
				r, _ := filepath.Rel(dir, m)
				out = append(out, filepath.ToSlash(r))
			}
			continue
		}
		_ = filepath.WalkDir(m, func(p string, e fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			n := e.Name()
			if p != m && !all && (n[0] == '.' || n[0] == '_') {
				if e.IsDir() {
					return fs.SkipDir
				}
				return nil
			}
			if e.IsDir() {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && p != m {
					return fs.SkipDir
				}
				return nil
			}
			if e.Type().IsRegular() {
				r, _ := filepath.Rel(dir, p)
				out = append(out, filepath.ToSlash(r))
			}
			return nil
		})
	}
	return out
}

func globQuote(s string) string {
	return strings.NewReplacer("*", `\*`, "?", `\?`, "[", `\[`, `\`, `\\`).Replace(s)
}

// buildsFrom tells whether a file in the directory of a package is part of its source on some platform.
func buildsFrom(name string) bool {
	if strings.HasSuffix(name, "_test.go") || name[0] == '_' || name[0] == '.' {
		return false
	}
	return oneOf(path.Ext(name), ".go", ".c", ".cc", ".cpp", ".cxx", ".h", ".hh", ".hpp", ".hxx", ".m", ".f", ".F", ".s", ".S", ".sx", ".swig", ".swigcxx", ".syso")
}

// neededFiles are the files that a copy of the module needs, with a reason for each.
func (c *Check) neededFiles() map[string]string {
	need := map[string]string{"go.mod": "the module file"}
	var todo []*packages.Package
	seen := map[string]bool{}
	add := func(p *packages.Package) {
		if !seen[p.PkgPath] {
			seen[p.PkgPath] = true
			todo = append(todo, p)
		}
	}
	var paths []string
	for pp := range c.p.pkgs {
		paths = append(paths, pp)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		p := c.p.pkgs[pp]
		if isModPath(pp) && p.Name != "main" && !strings.Contains(pp+"/", "/internal/") {
			add(p)
		}
	}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		c.count("packages", 1)
		for ip, q := range p.Imports {
			if isModPath(ip) {
				add(q)
			}
		}
		if len(p.GoFiles) == 0 {
			continue
		}
		dir := filepath.Dir(p.GoFiles[0])
		rel, err := filepath.Rel(c.p.repo, dir)
		if err != nil {
			c.undecided("dir", "%s is not in the tree", dir)
			continue
		}
		rel = filepath.ToSlash(rel)
		es, err := os.ReadDir(dir)
		if err != nil {
			c.undecided("dir", "%v", err)
		}
		for _, e := range es {
			if !e.IsDir() && buildsFrom(e.Name()) {
				need[path.Join(rel, e.Name())] = "a source file of package " + p.PkgPath
			}
		}
		for _, em := range embeddings(p) {
			for _, pat := range em.patterns {
				for _, f := range embedded(dir, pat) {
					if strings.HasSuffix(f, "_test.go") || path.Base(f) == "go.sum" {
						continue // cannot matter to a build of the driver
					}
					if p := path.Join(rel, f); need[p] == "" {
						need[p] = "embedded by " + em.name
					}
				}
			}
		}
	}
	return need
}

// copying is what the analysis of the copying function finds.
type copying struct {
	c    *Check
	glob *ssa.Global
}

func pathParts(t *Term) []*Term {
	if t.isPure("path/filepath.FromSlash") || t.isPure("path/filepath.ToSlash") || t.isPure("path.Clean") || t.isPure("path/filepath.Clean") {
		return pathParts(t.args[0])
	}
	if t.isPure("path/filepath.Join") || t.isPure("path.Join") {
		es, ss := listOf(t.args[0])
		if len(ss) > 0 {
			return []*Term{t}
		}
		var out []*Term
		for _, e := range es {
			out = append(out, pathParts(e)...)
		}
		return out
	}
	if s, ok := t.strVal(); ok {
		if s == "." || s == "" {
			return nil
		}
	}
	if t.op == OpConcat {
		var out []*Term
		for i, a := range t.args {
			if i%2 == 1 {
				if !a.isStr("/") {
					return []*Term{t}
				}
				continue
			}
			out = append(out, pathParts(a)...)
		}
		return out
	}
	return []*Term{t}
}

func samePath(t *Term, want ...*Term) bool {
	var w []*Term
	for _, p := range want {
		w = append(w, pathParts(p)...)
	}
	g := pathParts(t)
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] {
			return false
		}
	}
	return true
}

// isFS tells whether a term is the embedded file system.
func (cp *copying) isFS(t *Term) bool {
	g := unbox(t)
	if g.op == OpMem || g.op == OpLoad {
		g = g.args[0]
	}
	if g.op != OpGlobal {
		return false
	}
	if cp.glob == nil {
		cp.glob = g.glob
	}
	if cp.glob != g.glob {
		cp.c.fail("fs", "files of different file systems are copied")
	}
	return true
}

// fsCall tells whether a term is a call of a method of the embedded file system, or of the function of package fs, and returns the path.
func (cp *copying) fsCall(t *Term, method string) *Term {
	cl := callTo(t, "(embed.FS)."+method, "io/fs."+method)
	if cl == nil || len(cl.args) < 2 {
		return nil
	}
	if !cp.isFS(cl.args[0]) {
		return nil
	}
	return cl.args[1]
}

func isName(t *Term) *Term {
	if t.op == OpPure && strings.HasSuffix(t.s, ".Name") && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

// events follows the calls that matter.
func (cp *copying) events(x *Explorer, st *State, ev *CallEvent) {
	c := cp.c
	perm := func(t *Term, want int64, what string) {
		if n, ok := t.intVal(); !ok || n&want != want {
			x.report(st, ev.ins.Pos(), "perm:"+what, "%s are made with the permissions %s", what, t)
		}
	}
	switch {
	case ev.is("os.WriteFile"):
		c.count("files written", 1)
		perm(ev.args[2], 0400, "files")
		made := false
		for _, k := range tsKeys(st, "mk:") {
			d := st.ts[k].args[0]
			if x.knownNil(st, st.ts[k].args[1]) && len(pathParts(ev.args[0])) == len(pathParts(d))+1 && samePath(ev.args[0], d, pathParts(ev.args[0])[len(pathParts(d))]) {
				made = true
			}
		}
		if !made && st.ts["walk"] == nil {
			x.report(st, ev.ins.Pos(), "mkdir", "a file is written to %s without making its directory first", ev.args[0])
		}
		st.ts["wrote:"+tid(ev.res)] = x.tt.pure("wrote", ev.args[0], ev.args[1], orNil(x, ev.errResult(x)))
	case ev.is("os.MkdirAll", "os.Mkdir"):
		perm(ev.args[1], 0700, "directories")
		st.ts["mk:"+tid(ev.args[0])] = x.tt.pure("made", ev.args[0], orNil(x, ev.errResult(x)))
	case hasPrefixAny(ev.name, "os.Remove", "os.Rename", "os.Truncate", "os.Chmod", "(*os.File)", "os.Create", "os.OpenFile", "os.Symlink", "os.Link", "io.Copy"):
		x.report(st, ev.ins.Pos(), "undecided:effect", "undecided: %s is used in copying", ev.name)
	}
}

// isTest tells whether something is known to have the name of a test file.
func isTest(x *Explorer, st *State, named func(t *Term) bool) bool {
	for f, v := range st.facts {
		if v && f.isPure("strings.HasSuffix") && named(f.args[0]) {
			if s, ok := f.args[1].strVal(); ok && strings.HasSuffix(s, "_test.go") {
				return true
			}
		}
	}
	return false
}

func dirFact(x *Explorer, st *State, e *Term) (bool, bool) {
	for f, v := range st.facts {
		if f.op == OpPure && strings.HasSuffix(f.s, ".IsDir") && len(f.args) == 1 && (f.args[0] == e || f.args[0].contains(e)) {
			return v, true
		}
	}
	return false, false
}

// copied tells whether the file src was written as a whole to dest.
func (cp *copying) copiedTo(x *Explorer, st *State, dest, src func(t *Term) bool) string {
	why := "it may not be written"
	for _, k := range tsKeys(st, "wrote:") {
		w := st.ts[k]
		if !dest(w.args[0]) {
			continue
		}
		data := w.args[1]
		switch {
		case data.op != OpExtract || data.i != 0:
			why = "what is written is not its content"
		case cp.fsCall(data.args[0], "ReadFile") == nil || !src(cp.fsCall(data.args[0], "ReadFile")):
			why = "what is written is not its content"
		case !x.knownNil(st, x.tt.extract(data.args[0], 1)):
			why = "it may not have been read"
		case !x.knownNil(st, w.args[2]):
			why = "a failure to write it may be ignored"
		default:
			return ""
		}
	}
	return why
}

func checkEmbeds(c *Check) {
	c.rule("the patterns of the embedded file system match go.mod, every source file other than tests of every package of the module that a driver can import, directly or indirectly, and every file that one of these packages embeds")
	c.rule("populateFabDir copies that file system to the directory fab of the directory given: every entry of every directory is either copied to its place with the content read from the embedded file system, or copied recursively if it is a directory, or has a name that ends in _test.go; any failure is returned; directories are made before files are written in them")
	fn := c.need("", "populateFabDir")
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	cp := &copying{c: c}
	if R := c.recursiveFn(fn); R != nil {
		cp.recursion(fn, R)
	} else {
		cp.walk(fn)
	}
	c.atLeast("files written", 1)
	c.atLeast("entries handled", 1)
	if cp.glob == nil {
		c.fail("fs", "undecided: no embedded file system is copied")
		return
	}
	root := c.p.root()
	var patterns []string
	for _, e := range embeddings(root) {
		if e.name == cp.glob.Name() {
			patterns = e.patterns
		}
	}
	have := map[string]bool{}
	for _, p := range patterns {
		for _, f := range embedded(c.p.repo, p) {
			have[f] = true
		}
	}
	need := c.neededFiles()
	c.count("files embedded", len(have))
	c.count("files needed", len(need))
	c.atLeast("files needed", 20)
	c.atLeast("packages", 4)
	for _, f := range sortedStrKeys(need) {
		if !have[f] {
			c.fail("embed:"+f, "%s: %s is not embedded (%s)", c.p.posStr(cp.glob.Pos()), f, need[f])
		}
	}
}

func sortedStrKeys(m map[string]string) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedKeys(s)
}

func (cp *copying) recursion(fn, R *ssa.Function) {
	c := cp.c
	rname := fnName(R)
	di, si := -1, -1
	// which parameter is the destination and which the directory in the embedded file system
	probe := &Rule{keepArgs: allArgs, forget: true}
	probe.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.recursive {
			return
		}
		for i, p := range x.params {
			if t := cp.fsCall(ev.res, "ReadDir"); t != nil && samePath(t, p) {
				si = i
			}
			if ev.is("os.MkdirAll", "os.Mkdir", "os.WriteFile") && len(pathParts(ev.args[0])) > 0 && pathParts(ev.args[0])[0] == p {
				di = i
			}
		}
	}
	c.explore(R, probe, nil, nil)
	if di < 0 || si < 0 || di == si {
		c.undecided("params", "the destination and the source of %s were not found among its parameters", rname)
		return
	}
	isEntries := func(x *Explorer, t *Term) bool {
		if t == nil {
			return false
		}
		t = copied(t)
		if t.op != OpExtract || t.i != 0 {
			return false
		}
		p := cp.fsCall(t.args[0], "ReadDir")
		return p != nil && samePath(p, x.params[si])
	}
	// nameOf is the entry with the given path.
	entry := func(x *Explorer, t *Term, i int) *Term {
		ps := pathParts(t)
		base := pathParts(x.params[i])
		if len(ps) != len(base)+1 {
			return nil
		}
		n := ps[len(ps)-1]
		if !samePath(t, x.params[i], n) {
			return nil
		}
		return isName(n)
	}
	rule := &Rule{keepArgs: allArgs, forget: true}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.recursive && ev.name == rname {
			c.count("directory recursions", 1)
			st.ts["rec:"+tid(ev.res)] = x.tt.pure("rec", ev.args[di], ev.args[si], orNil(x, ev.errResult(x)))
			return
		}
		cp.events(x, st, ev)
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if !isEntries(x, l.coll) {
			return
		}
		c.count("entries handled", 1)
		defer tsClear(st, "rec:")
		defer tsClear(st, "wrote:")
		e := x.loopElem(st, l)
		of := func(i int) func(t *Term) bool {
			return func(t *Term) bool { n := entry(x, t, i); return n != nil && x.isElemOf(st, l, n) && n == e }
		}
		if !l.inOrder {
			x.report(st, headPos(l), "order", "not every entry may be handled")
		}
		isDir, known := dirFact(x, st, e)
		if isTest(x, st, func(t *Term) bool { n := isName(t); return n == e || of(si)(t) || of(di)(t) }) {
			return
		}
		for _, k := range tsKeys(st, "rec:") {
			r := st.ts[k]
			if of(di)(r.args[0]) && of(si)(r.args[1]) {
				if !known || !isDir {
					x.report(st, headPos(l), "dir:file", "the recursion is made for an entry that need not be a directory")
				}
				if !x.knownNil(st, r.args[2]) {
					x.report(st, headPos(l), "dir:err", "a failure to copy a subdirectory may be ignored")
				}
				return
			}
		}
		if known && isDir {
			x.report(st, headPos(l), "dir", "a subdirectory may not be copied to its place")
			return
		}
		if why := cp.copiedTo(x, st, of(di), of(si)); why != "" {
			x.report(st, headPos(l), "file", "an embedded file may not be copied to its place: %s", why)
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if isEntries(x, l.coll) && exhausted(l, from) {
			st.ts["all"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, last(res)) || !x.succeeds(st, res) {
			return
		}
		c.count("successful paths", 1)
		if st.ts["all"] == nil && !knownEmpty(x, st, func(t *Term) bool { return isEntries(x, t) }) {
			x.report(st, R.Pos(), "early", "success is reported before all entries of a directory were copied")
		}
	}
	c.explore(R, rule, nil, nil)
	c.atLeast("directory recursions", 1)
	c.atLeast("successful paths", 1)
	if R == fn {
		c.fail("root", "the embedded files are not copied to the directory fab")
		return
	}
	rule = &Rule{keepArgs: allArgs, stop: stopAt(rname)}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name != rname {
			cp.events(x, st, ev)
			return
		}
		if !samePath(ev.args[di], x.params[0], x.tt.str("fab")) {
			x.report(st, ev.ins.Pos(), "root:dest", "the embedded files are copied to %s", ev.args[di])
		}
		if !samePath(ev.args[si], x.tt.str(".")) || !ev.args[si].isStr(".") {
			x.report(st, ev.ins.Pos(), "root:src", "not all embedded files are copied, but those in %s", ev.args[si])
		}
		st.ts["copy"] = orNil(x, ev.errResult(x))
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, last(res)) {
			return
		}
		if e := st.ts["copy"]; e == nil || e != last(res) && !x.knownNil(st, e) {
			x.report(st, fn.Pos(), "root", "success may be reported although the embedded files were not copied")
		}
	}
	c.explore(fn, rule, nil, nil)
}

// walk checks a function that uses fs.WalkDir.
func (cp *copying) walk(fn *ssa.Function) {
	c := cp.c
	rule := &Rule{keepArgs: allArgs, forget: true}
	var cb *ssa.Function
	isParamType := func(t types.Type, name string) bool { return strings.HasSuffix(types.TypeString(t, nil), name) }
	rule.onEnter = func(x *Explorer, st *State, f *ssa.Function, args []*Term) {
		sig := f.Signature
		if sig.Params().Len() != 3 || sig.Results().Len() != 1 || !isParamType(sig.Params().At(1).Type(), "fs.DirEntry") {
			return
		}
		cb = f
		st.ts["walk"] = x.tt.pure("walk", args[len(args)-3:]...)
		tsClear(st, "wrote:")
		tsClear(st, "mk:")
	}
	rule.onLeave = func(x *Explorer, st *State, f *ssa.Function, res []*Term) {
		if f != cb || st.ts["walk"] == nil {
			return
		}
		w := st.ts["walk"].args
		p, e, err := w[0], w[1], w[2]
		delete(st.ts, "walk")
		if x.knownNonNil(st, res[0]) && !res[0].any(func(t *Term) bool { return strings.Contains(t.String(), "Skip") }) {
			return
		}
		if !x.knownNil(st, res[0]) {
			if !res[0].isNil() && (res[0].op == OpMem || res[0].op == OpLoad) {
				x.report(st, f.Pos(), "walk:skip", "a directory may be skipped")
				return
			}
			x.assume(st, x.tt.eq(res[0], x.tt.null()), true)
		}
		c.count("entries handled", 1)
		if !x.knownNil(st, err) && err != res[0] {
			x.report(st, f.Pos(), "walk:err", "a failure of the walk may be ignored")
			return
		}
		isDir, known := dirFact(x, st, e)
		if known && isDir {
			ok := false
			for _, k := range tsKeys(st, "mk:") {
				m := st.ts[k]
				if samePath(m.args[0], x.params[0], x.tt.str("fab"), p) && (x.knownNil(st, m.args[1]) || m.args[1] == res[0]) {
					ok = true
				}
			}
			if !ok {
				x.report(st, f.Pos(), "walk:mkdir", "a directory may not be made")
			}
			return
		}
		if isTest(x, st, func(t *Term) bool {
			return isName(t) == e || t == p || samePath(t, x.params[0], x.tt.str("fab"), p) || t.contains(p)
		}) {
			return
		}
		if why := cp.copiedTo(x, st, func(t *Term) bool { return samePath(t, x.params[0], x.tt.str("fab"), p) }, func(t *Term) bool { return samePath(t, p) }); why != "" {
			x.report(st, f.Pos(), "file", "an embedded file may not be copied to its place: %s", why)
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.is("io/fs.WalkDir") {
			if !cp.isFS(ev.args[0]) || !ev.args[1].isStr(".") {
				x.report(st, ev.ins.Pos(), "root:src", "not all embedded files are copied")
			}
			st.ts["copy"] = orNil(x, ev.errResult(x))
			return
		}
		cp.events(x, st, ev)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, last(res)) {
			return
		}
		if e := st.ts["copy"]; e == nil || e != last(res) && !x.knownNil(st, e) {
			x.report(st, fn.Pos(), "root", "success may be reported although the embedded files were not copied")
		}
	}
	c.explore(fn, rule, nil, nil)
}
