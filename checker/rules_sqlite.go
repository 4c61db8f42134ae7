package main

import (
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Open, Has, Add and the options of the SQLite database are explored over all paths; the SQL text that reaches the database on each path is parsed, its parameters are matched with the arguments passed, and its effect on the table is compared with what the operation promises. The schema is read from the embedded file.", checkSqlite)
}

// embedOf is the text of a variable with a go:embed directive for one file.
func embedOf(c *Check, g *ssa.Global) (string, bool) {
	pkg := c.p.pkgs[g.Pkg.Pkg.Path()]
	if pkg == nil {
		return "", false
	}
	for _, f := range pkg.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || pkg.TypesInfo.Defs[vs.Names[0]] != g.Object() {
					continue
				}
				for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, l := range cg.List {
						if pat, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
							file := filepath.Join(filepath.Dir(c.p.prog.Fset.Position(f.Pos()).Filename), strings.Trim(strings.TrimSpace(pat), "\"`"))
							b, err := os.ReadFile(file)
							return string(b), err == nil
						}
					}
				}
			}
		}
	}
	return "", false
}

const nSQLDriver = "github.com/mattn/go-sqlite3"

type sqliteCheck struct {
	c        *Check
	table    string
	key      string // column
	time     string
	create   *sqlStmt
	keep     int // fields
	update   int
	clk, db  int
	keyForms map[string]bool
	seen     map[ssa.Instruction]bool
}

func isSQLCall(n string) bool {
	if !strings.HasPrefix(n, "(*database/sql.") {
		return false
	}
	i := strings.LastIndex(n, ".")
	return oneOf(strings.TrimSuffix(n[i+1:], "Context"), "Exec", "Query", "QueryRow", "Prepare", "Begin", "BeginTx", "Conn")
}

func checkSqlite(c *Check) {
	c.rule("the schema creates, if absent, a table whose key column is unique and whose access time is a number; Open returns a database on the file it was given, with refreshing on, no eviction and a clock unless the options say otherwise")
	c.rule("on every successful path, Add stores the hash with the current time, or refreshes the time if it is present; it deletes only if the keep time is positive, and only entries with a time less than the current time minus the keep time")
	c.rule("on every successful path of Has, the answer is true exactly if the statement found the hash; the time of the hash is refreshed if that is enabled, and nothing is changed otherwise")
	s := &sqliteCheck{c: c, keyForms: map[string]bool{}, seen: map[ssa.Instruction]bool{}}
	open, has, add := c.need("sqlite", "Open"), c.need("sqlite", "DB.Has"), c.need("sqlite", "DB.Add")
	keep, upd, clk := c.need("sqlite", "Keep"), c.need("sqlite", "UpdateOnAccess"), c.need("sqlite", "WithClock")
	if open == nil || has == nil || add == nil || keep == nil || upd == nil || clk == nil {
		return
	}
	s.keep, s.update, s.clk = s.option(keep), s.option(upd), s.option(clk)
	if s.keep < 0 || s.update < 0 || s.clk < 0 {
		return
	}
	if s.keep == s.update || s.keep == s.clk {
		c.fail("options", "two options set the same field")
		return
	}
	s.open(open)
	if s.create == nil {
		return
	}
	s.addHash(add)
	s.hasHash(has)
	if len(s.keyForms) > 1 {
		c.fail("keyform", "the hash is represented in several ways: %v", keysOfBool(s.keyForms))
	}
	for _, fn := range c.p.srcFns {
		if fnPkgPath(fn) != modPath+"/sqlite" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || !isSQLCall(fnName(f)) {
					continue
				}
				c.count("SQL call sites", 1)
				if !s.seen[in] {
					c.violate(c.p.posStr(in.Pos()), "other", nil, "a statement is executed outside of Open, Has and Add")
				}
			}
		}
	}
	c.atLeast("SQL call sites", 4)
	c.errorDiscipline()
}

func keysOfBool(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}

// option finds the field that an option sets to its argument.
func (s *sqliteCheck) option(fn *ssa.Function) int {
	c := s.c
	field := -1
	var clo *Term
	ok := false
	c.explore(fn, &Rule{onExit: func(x *Explorer, st *State, res []*Term) {
		if len(res) == 1 && unbox(res[0]).op == OpClosure {
			clo = unbox(res[0])
			if len(clo.args) == 1 {
				a := clo.args[0]
				if a.op == OpAlloc {
					a = x.load(st, a, deref(a.typ))
				}
				ok = a == x.params[0]
			}
		}
	}}, nil, nil)
	if clo == nil || !ok || len(clo.fn.Params) != 1 {
		c.undecided("option:"+fn.Name(), "the option %s is not a function that captures its argument", fn.Name())
		return -1
	}
	c.explore(clo.fn, &Rule{onStore: func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if addr.op != OpField || addr.args[0] != x.params[0] {
			return
		}
		v := val
		if v.op == OpLoad {
			v = v.args[0]
		}
		if v.op != OpParam || !strings.HasPrefix(v.s, "free.") {
			x.report(st, ins.Pos(), "option:"+fn.Name(), "the option %s sets %s to %s", fn.Name(), addr, val)
		}
		if field >= 0 && field != addr.i {
			x.report(st, ins.Pos(), "option:"+fn.Name(), "the option %s sets several fields", fn.Name())
		}
		field = addr.i
		st.ts["set"] = flag(x)
	}, onExit: func(x *Explorer, st *State, res []*Term) {
		c.count("options", 1)
		if st.ts["set"] == nil {
			x.report(st, fn.Pos(), "option:"+fn.Name(), "the option %s may have no effect", fn.Name())
		}
	}}, nil, nil)
	if field < 0 {
		c.undecided("option:"+fn.Name(), "the option %s sets no field", fn.Name())
	}
	return field
}

// field is the value of a field of the receiver.
func (s *sqliteCheck) field(x *Explorer, st *State, obj *Term, i int) *Term {
	t := x.params[0].typ
	if obj != x.params[0] {
		t = obj.typ
	}
	if t == nil {
		t = x.entry.Params[0].Type()
	}
	return x.load(st, x.tt.field(obj, i, t), structOf(deref(t)).Field(i).Type())
}

func (s *sqliteCheck) open(fn *ssa.Function) {
	c := s.c
	rule := &Rule{keepArgs: allArgs}
	var schemas []*Term
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.name == "database/sql.Open":
			c.count("databases opened", 1)
			if !ev.args[0].isStr("sqlite3") || !ev.args[1].contains(x.params[0]) {
				x.report(st, ev.ins.Pos(), "open", "sql.Open is applied to %s, %s", ev.args[0], ev.args[1])
			}
			st.ts["opened"] = ev.res
		case ev.name == "(*database/sql.DB).Close":
			st.ts["closed"] = flag(x)
		case isSQLCall(ev.name):
			s.seen[ev.ins] = true
			o := st.ts["opened"]
			if o == nil || ev.args[0] != x.tt.extract(o, 0) {
				x.report(st, ev.ins.Pos(), "open:other", "a statement is executed on %s", ev.args[0])
				return
			}
			i := 1
			if strings.HasSuffix(ev.name, "Context") {
				i = 2
			}
			q := ev.args[i]
			schemas = append(schemas, q)
			text, ok := q.strVal()
			if !ok && q.op == OpLoad && q.args[0].op == OpGlobal {
				text, ok = embedOf(c, q.args[0].glob)
				for _, f := range c.p.srcFns {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if w, isStore := in.(*ssa.Store); isStore && w.Addr == ssa.Value(q.args[0].glob) {
								ok = false
							}
						}
					}
				}
			}
			stmts, err := parseSQL(text)
			if !ok || err != nil {
				x.report(st, ev.ins.Pos(), "schema:text", "the statements executed by Open are not known: %s (%v)", q, err)
				return
			}
			for _, sq := range stmts {
				c.count("schema statements", 1)
				switch sq.kind {
				case "create", "index":
					if !sq.ifAbsent {
						x.report(st, ev.ins.Pos(), "schema:exists", "the %s on %s is created without IF NOT EXISTS, so that the file cannot be opened again", sq.kind, sq.table)
					}
					if sq.kind == "create" {
						s.create = sq
						st.ts["created"] = ev.errResult(x)
					}
				case "other":
					if sq.table != "pragma" {
						x.report(st, ev.ins.Pos(), "schema:other", "Open executes %s", sq.table)
					}
				default:
					x.report(st, ev.ins.Pos(), "schema:"+sq.kind, "Open executes a statement (%s) that may change the entries", sq.kind)
				}
			}
			if e := ev.errResult(x); e != nil {
				st.ts["exec:"+tid(e)] = e
			}
		}
	}
	rule.model = func(x *Explorer, st *State, ev *CallEvent) (*Term, bool) {
		if ev.name == "dynamic" && len(ev.raw) == 1 {
			// an option
			c.count("options applied", 1)
			obj := ev.raw[0]
			if st.ts["obj"] == nil {
				s.defaults(x, st, ev.ins.Pos(), obj, false)
			}
			st.ts["obj"] = obj
			delete(st.ts, "clk")
		}
		return nil, false
	}
	rule.onLoad = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if o := st.ts["obj"]; o != nil && addr.op == OpField && addr.args[0] == o && addr.i == s.clk {
			st.ts["clk"] = val
		}
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		o := st.ts["obj"]
		if o == nil || addr.op != OpField || addr.args[0] != o {
			return
		}
		// after the options
		if addr.i == s.clk {
			unset := st.ts["clk"] != nil && x.knownNil(st, st.ts["clk"])
			for f, v := range st.facts {
				if v && f.op == OpBin && f.s == "==" && f.args[1].isNil() && f.args[0].op == OpLoad && f.args[0].args[0] == addr {
					unset = true
				}
			}
			if !unset {
				x.report(st, ins.Pos(), "open:override", "the clock set by an option is replaced")
			}
			return
		}
		x.report(st, ins.Pos(), "open:override", "a field is set after the options have been applied")
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll == x.params[1] && exhausted(l, from) {
			st.ts["optsdone"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) || !x.succeeds(st, res) {
			return
		}
		c.count("successful exits of Open", 1)
		if st.ts["closed"] != nil {
			x.report(st, fn.Pos(), "open:closed", "the database returned has been closed")
		}
		o := st.ts["opened"]
		obj := unbox(res[0])
		if o == nil || obj.op != OpAlloc {
			x.report(st, fn.Pos(), "open:result", "the result is %s", res[0])
			return
		}
		if !x.knownNil(st, x.tt.extract(o, 1)) {
			x.report(st, fn.Pos(), "open:err", "a database is returned although opening it may have failed")
		}
		if e := st.ts["created"]; e == nil || !x.knownNil(st, e) {
			x.report(st, fn.Pos(), "open:schema", "a database is returned although its table may not exist")
		}
		found := false
		for i := 0; i < structOf(deref(obj.typ)).NumFields(); i++ {
			if oneOf(types.TypeString(structOf(deref(obj.typ)).Field(i).Type(), nil), "*database/sql.DB") {
				v := s.field(x, st, obj, i)
				found = true
				s.db = i
				if st.ts["obj"] == nil && v != x.tt.extract(o, 0) {
					x.report(st, fn.Pos(), "open:db", "the result refers to %s", v)
				}
			}
		}
		if !found {
			c.undecided("open:db", "the result has no field for the database")
		}
		if st.ts["obj"] == nil {
			s.defaults(x, st, fn.Pos(), obj, true)
			if !x.knownTrue(st, x.tt.eq(x.tt.length(x.params[1]), x.tt.num(0))) {
				x.report(st, fn.Pos(), "open:options", "the options are ignored")
			}
		} else {
			if st.ts["obj"] != obj {
				x.report(st, fn.Pos(), "open:options", "the options are applied to another object")
			}
			if st.ts["optsdone"] == nil {
				x.report(st, fn.Pos(), "open:options", "options are left out")
			}
			v := s.field(x, st, obj, s.clk)
			if !x.knownNonNil(st, v) && callTo(v, "github.com/benbjohnson/clock.New") == nil && callTo(unbox(v), "github.com/benbjohnson/clock.New") == nil {
				x.report(st, fn.Pos(), "open:clock", "there may be no clock")
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("successful exits of Open", 2)
	c.atLeast("databases opened", 1)
	if s.create == nil {
		c.fail("schema", "Open creates no table")
		return
	}
	if len(s.create.keyCols) != 1 || len(s.create.cols) != 2 {
		c.fail("schema:key", "the table does not have a unique column and one for the time: %v", s.create.cols)
		s.create = nil
		return
	}
	s.table, s.key = s.create.table, s.create.keyCols[0]
	for _, col := range s.create.cols {
		if col != s.key {
			s.time = col
		}
	}
	if t := s.create.types[s.time]; !strings.Contains(t, "int") && !strings.Contains(t, "num") {
		c.fail("schema:time", "the time of an entry is stored in a column of type %q, in which numbers are not compared as numbers", t)
	}
	if t := s.create.types[s.key]; t != "" && t != "blob" {
		c.fail("schema:keytype", "hashes are stored in a column of type %q", t)
	}
	// the driver
	if pkg := c.p.pkgs[modPath+"/sqlite"]; pkg != nil {
		ok := false
		for path := range pkg.Imports {
			ok = ok || path == nSQLDriver
		}
		if !ok {
			c.fail("driver", "the package does not import the SQLite driver")
		}
	}
}

// defaults checks a new database before any options.
func (s *sqliteCheck) defaults(x *Explorer, st *State, pos tokenPos, obj *Term, final bool) {
	if !s.field(x, st, obj, s.update).isTrue() {
		x.report(st, pos, "open:refresh", "refreshing is not on by default")
	}
	if !s.field(x, st, obj, s.keep).isInt(0) {
		x.report(st, pos, "open:keep", "there is eviction by default")
	}
	if v := s.field(x, st, obj, s.clk); final && callTo(unbox(v), "github.com/benbjohnson/clock.New") == nil {
		x.report(st, pos, "open:clock", "the clock of a new database is %s", v)
	}
}

// --- statements ---

type sqlExec struct {
	stmt *sqlStmt
	args []*Term
}

func (e *sqlExec) param(x *sqlExpr) *Term {
	if x.op == "param" && x.n >= 1 && x.n <= len(e.args) {
		return unbox(e.args[x.n-1])
	}
	return nil
}

// statement parses what a call executes.
func (s *sqliteCheck) statement(x *Explorer, st *State, ev *CallEvent) *sqlExec {
	s.seen[ev.ins] = true
	c := s.c
	c.count("statements", 1)
	if ev.args[0] != s.field(x, st, x.params[0], s.db) {
		x.report(st, ev.ins.Pos(), "stmt:db", "a statement is executed on %s", ev.args[0])
		return nil
	}
	i := 1
	if strings.HasSuffix(ev.name, "Context") {
		i = 2
		if !ctxFrom(ev.args[1], x.params[1]) {
			x.report(st, ev.ins.Pos(), "stmt:ctx", "a statement is executed with another context")
		}
	}
	if len(ev.args) != i+2 {
		x.report(st, ev.ins.Pos(), "stmt:form", "the call of %s is not understood", ev.name)
		return nil
	}
	text, ok := ev.args[i].strVal()
	stmts, err := parseSQL(text)
	if !ok || err != nil || len(stmts) != 1 {
		x.report(st, ev.ins.Pos(), "stmt:text", "the statement executed is not understood: %s (%v)", ev.args[i], err)
		return nil
	}
	args, spreads := listOf(ev.args[i+1])
	e := &sqlExec{stmts[0], args}
	if len(spreads) > 0 || len(args) != e.stmt.params {
		x.report(st, ev.ins.Pos(), "stmt:params", "the statement %q has %d parameters and is executed with %d", text, e.stmt.params, len(args))
		return nil
	}
	for _, cl := range e.columns() {
		if cl != s.key && cl != s.time {
			x.report(st, ev.ins.Pos(), "stmt:column", "the table has no column %s", cl)
			return nil
		}
	}
	if e.stmt.table != s.table && !(e.stmt.kind == "select" && e.stmt.table == "" && len(e.stmt.vals) == 1 && e.stmt.vals[0].op == "exists" && e.stmt.vals[0].sub.table == s.table) {
		x.report(st, ev.ins.Pos(), "stmt:table", "there is no table %s", e.stmt.table)
		return nil
	}
	return e
}

func (e *sqlExec) columns() []string {
	var r []string
	var ex func(*sqlExpr)
	var do func(*sqlStmt)
	ex = func(x *sqlExpr) {
		if x.op == "col" || x.op == "excluded" {
			r = append(r, x.name)
		}
		for _, a := range x.args {
			ex(a)
		}
		if x.sub != nil {
			do(x.sub)
		}
	}
	do = func(s *sqlStmt) {
		r = append(r, s.cols...)
		r = append(r, s.keyCols...)
		for _, v := range s.vals {
			ex(v)
		}
		for _, v := range s.sets {
			r = append(r, v.col)
			ex(v.val)
		}
		for _, w := range s.where {
			ex(w.l)
			ex(w.r)
		}
	}
	do(e.stmt)
	return r
}

// isKey tells whether t stands for the hash.
func (s *sqliteCheck) isKey(x *Explorer, t *Term) bool {
	h := x.params[2]
	if t == nil {
		return false
	}
	switch {
	case t == h:
	case callTo(t, "encoding/hex.EncodeToString") != nil && callTo(t, "encoding/hex.EncodeToString").args[0] == h:
		s.keyForms["hex"] = true
		return true
	case t.isPure("encoding/hex.EncodeToString") && t.args[0] == h:
		s.keyForms["hex"] = true
		return true
	case t.op == OpConv && t.args[0] == h:
		s.keyForms["string"] = true
		return true
	default:
		return false
	}
	s.keyForms["blob"] = true
	return true
}

// now tells whether t is the current time by the clock of the database.
func (s *sqliteCheck) now(x *Explorer, st *State, t *Term) bool {
	for t != nil && (t.isPure("(time.Time).UTC") || t.isPure("(time.Time).Local")) {
		t = t.args[0]
	}
	cl := callTo(t, "invoke github.com/benbjohnson/clock.Clock.Now")
	return cl != nil && len(cl.args) == 1 && cl.args[0] == s.field(x, st, x.params[0], s.clk)
}

func (s *sqliteCheck) nowSecs(x *Explorer, st *State, t *Term) bool {
	return t != nil && t.isPure("(time.Time).Unix") && s.now(x, st, t.args[0])
}

// cutoff tells whether t is the current time minus the keep time.
func (s *sqliteCheck) cutoff(x *Explorer, st *State, t *Term) bool {
	if t == nil || !t.isPure("(time.Time).Unix") || !t.args[0].isPure("(time.Time).Add") || !s.now(x, st, t.args[0].args[0]) {
		return false
	}
	d := t.args[0].args[1]
	k := s.field(x, st, x.params[0], s.keep)
	return d.op == OpNeg && d.s == "-" && d.args[0] == k || d.op == OpBin && d.s == "-" && d.args[0].isInt(0) && d.args[1] == k || d.op == OpBin && d.s == "*" && (d.args[0] == k && d.args[1].isInt(-1) || d.args[1] == k && d.args[0].isInt(-1))
}

// onlyKey tells whether a statement is about the entry of the hash alone, without further conditions.
func (s *sqliteCheck) onlyKey(x *Explorer, e *sqlExec, where []sqlCond) bool {
	if len(where) != 1 || where[0].op != "=" {
		return false
	}
	l, r := where[0].l, where[0].r
	if r.op == "col" {
		l, r = r, l
	}
	return l.op == "col" && l.name == s.key && s.isKey(x, e.param(r))
}

// setsTime tells whether the assignments are just that of the current time.
func (s *sqliteCheck) setsTime(x *Explorer, st *State, e *sqlExec, sets []sqlSet) bool {
	if len(sets) != 1 || sets[0].col != s.time {
		return false
	}
	v := sets[0].val
	if v.op == "excluded" && v.name == s.time {
		return true // checked with the values
	}
	return s.nowSecs(x, st, e.param(v))
}

func (s *sqliteCheck) addHash(fn *ssa.Function) {
	c := s.c
	rule := &Rule{keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if !isSQLCall(ev.name) {
			return
		}
		e := s.statement(x, st, ev)
		if e == nil {
			return
		}
		pos := ev.ins.Pos()
		done := func(what string) { st.ts[what+":"+tid(ev.errResult(x))] = ev.errResult(x) }
		switch e.stmt.kind {
		case "insert":
			c.count("insertions", 1)
			cols := e.stmt.cols
			if len(cols) == 0 {
				cols = s.create.cols
			}
			if len(cols) != 2 || len(e.stmt.vals) != 2 {
				x.report(st, pos, "add:cols", "the entry does not have the hash and the time")
				return
			}
			for i, col := range cols {
				v := e.param(e.stmt.vals[i])
				if col == s.key && !s.isKey(x, v) {
					x.report(st, pos, "add:key", "what is stored as the hash is %v", v)
				}
				if col == s.time && !s.nowSecs(x, st, v) {
					x.report(st, pos, "add:time", "what is stored as the time is %v, and not the current time in seconds", v)
				}
			}
			done("present")
			switch e.stmt.conflict {
			case "replace":
				done("fresh")
			case "ignore":
			case "update":
				if len(e.stmt.keyCols) > 1 || len(e.stmt.keyCols) == 1 && e.stmt.keyCols[0] != s.key {
					x.report(st, pos, "add:conflict", "the conflict clause is about %v", e.stmt.keyCols)
				}
				if !s.setsTime(x, st, e, e.stmt.sets) {
					x.report(st, pos, "add:refresh", "the time of a present hash is not set to the current time")
				} else if len(e.stmt.where) == 0 || s.onlyKey(x, e, e.stmt.where) {
					done("fresh")
				}
			default:
				x.report(st, pos, "add:again", "adding a hash that is present fails")
			}
		case "update":
			if !s.setsTime(x, st, e, e.stmt.sets) || e.stmt.sets[0].val.op == "excluded" || !s.onlyKey(x, e, e.stmt.where) {
				x.report(st, pos, "add:update", "other entries, or other columns than the time, are changed")
				return
			}
			done("fresh")
		case "delete":
			c.count("evictions", 1)
			if k := s.field(x, st, x.params[0], s.keep); !x.knownTrue(st, x.tt.lt(x.tt.num(0), k)) {
				x.report(st, pos, "evict:keep", "entries are removed although no keep time may have been set")
			}
			ok := false
			for _, w := range e.stmt.where {
				l, r, op := w.l, w.r, w.op
				if r.op == "col" {
					l, r = r, l
					op = map[string]string{"<": ">", ">": "<"}[op]
				}
				if l.op == "col" && l.name == s.time && op == "<" && s.cutoff(x, st, e.param(r)) {
					ok = true
				}
			}
			if !ok {
				x.report(st, pos, "evict:old", "entries may be removed that are not older than the keep time")
			}
		case "select":
		default:
			x.report(st, pos, "add:other", "Add executes %s", e.stmt.kind)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[0]) {
			return
		}
		st = st.clone()
		if !x.assumeNil(st, res[0]) {
			return
		}
		c.count("successful exits of Add", 1)
		has := func(what string) bool {
			for _, k := range tsKeys(st, what+":") {
				if x.knownNil(st, st.ts[k]) {
					return true
				}
			}
			return false
		}
		if !has("present") {
			x.report(st, fn.Pos(), "add:absent", "success is reported although the hash may not have been stored")
		}
		if !has("fresh") {
			x.report(st, fn.Pos(), "add:stale", "success is reported although the time of a present hash may not have been refreshed")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("insertions", 1)
	c.atLeast("successful exits of Add", 2)
}

func (s *sqliteCheck) hasHash(fn *ssa.Function) {
	c := s.c
	rule := &Rule{keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		switch {
		case isSQLCall(ev.name):
			e := s.statement(x, st, ev)
			if e == nil {
				return
			}
			switch e.stmt.kind {
			case "update":
				c.count("refreshing statements", 1)
				if !s.setsTime(x, st, e, e.stmt.sets) || e.stmt.sets[0].val.op == "excluded" {
					x.report(st, pos, "has:set", "something other than the time is changed, or to something other than the current time in seconds")
				}
				if !s.onlyKey(x, e, e.stmt.where) {
					x.report(st, pos, "has:where", "entries of other hashes may be counted or changed")
				}
				if !x.knownTrue(st, s.field(x, st, x.params[0], s.update)) {
					x.report(st, pos, "has:unwanted", "the time is refreshed although that may be turned off")
				}
				st.ts["update:"+tid(ev.res)] = ev.res
			case "select":
				c.count("queries", 1)
				q := e.stmt
				if len(q.vals) == 1 && q.vals[0].op == "exists" {
					q = q.vals[0].sub
				}
				if !s.onlyKey(x, e, q.where) {
					x.report(st, pos, "has:where", "entries of other hashes may be counted")
				}
				if len(e.stmt.vals) == 1 && (e.stmt.vals[0].op == "count" || e.stmt.vals[0].op == "exists") {
					st.ts["count:"+tid(ev.res)] = ev.res
				} else {
					st.ts["row:"+tid(ev.res)] = ev.res
				}
			default:
				x.report(st, pos, "has:other", "Has executes %s", e.stmt.kind)
			}
		case ev.name == "invoke database/sql.Result.RowsAffected":
			for _, k := range tsKeys(st, "update:") {
				if ev.args[0] == x.tt.extract(st.ts[k], 0) {
					st.ts["measure:"+tid(ev.res)] = x.tt.extract(ev.res, 0)
					st.ts["merr:"+tid(ev.res)] = ev.errResult(x)
				}
			}
		case ev.name == "(*database/sql.Row).Scan":
			for _, k := range tsKeys(st, "count:") {
				if ev.args[0] == st.ts[k] {
					if e, sp := listOf(ev.args[1]); len(sp) == 0 && len(e) == 1 && unbox(e[0]).op == OpAlloc {
						p := unbox(e[0])
						st.ts["measure:"+tid(ev.res)] = x.load(st, p, deref(p.typ))
						st.ts["merr:"+tid(ev.res)] = ev.res
					}
				}
			}
			for _, k := range tsKeys(st, "row:") {
				if ev.args[0] == st.ts[k] {
					st.ts["rowerr:"+tid(ev.res)] = ev.res
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) {
			return
		}
		st = st.clone()
		if !x.assumeNil(st, res[1]) {
			return
		}
		c.count("successful exits of Has", 1)
		if !x.knownFalse(st, s.field(x, st, x.params[0], s.update)) {
			ok := false
			for _, k := range tsKeys(st, "update:") {
				ok = ok || x.knownNil(st, x.tt.extract(st.ts[k], 1))
			}
			if !ok {
				x.report(st, fn.Pos(), "has:stale", "an answer is given although the time may not have been refreshed")
			}
		}
		for _, want := range []bool{true, false} {
			if v, ok := x.decide(st, res[0]); ok && v != want {
				continue
			}
			t := st.clone()
			if res[0].op != OpConst {
				x.assume(t, res[0], want)
				if t.dead {
					continue
				}
			}
			if !s.found(x, t, want) {
				x.report(st, fn.Pos(), "has:answer", "the answer (%s) may be %v although the hash is %s", res[0], want, map[bool]string{true: "absent", false: "present"}[want])
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("queries", 1)
	c.atLeast("refreshing statements", 1)
	c.atLeast("successful exits of Has", 2)
}

// found tells whether it is known in the state that the hash is present (or absent).
func (s *sqliteCheck) found(x *Explorer, st *State, want bool) bool {
	tt := x.tt
	for _, k := range tsKeys(st, "measure:") {
		m := st.ts[k]
		if e := st.ts["merr:"+strings.TrimPrefix(k, "measure:")]; !x.knownNil(st, e) {
			continue
		}
		if v, ok := x.decide(st, m); ok && v == want {
			return true // a boolean
		}
		if v, ok := x.decide(st, tt.lt(tt.num(0), m)); ok && v == want {
			return true
		}
		if v, ok := x.decide(st, tt.eq(m, tt.num(0))); ok && v != want {
			return true
		}
		if v, ok := x.decide(st, tt.eq(m, tt.num(1))); ok && v == want {
			return true
		}
		if v, ok := x.decide(st, tt.lt(m, tt.num(1))); ok && v != want {
			return true
		}
	}
	for _, k := range tsKeys(st, "rowerr:") {
		e := st.ts[k]
		if want && x.knownNil(st, e) {
			return true
		}
		for f, v := range st.facts {
			if v && !want && f.isPure("errors.Is") && f.args[0] == e && f.args[1].op == OpLoad && f.args[1].args[0].op == OpGlobal && f.args[1].args[0].glob.Name() == "ErrNoRows" {
				return true
			}
			if v && !want && f.op == OpBin && f.s == "==" && f.contains(e) {
				for _, o := range f.args {
					if o.op == OpLoad && o.args[0].op == OpGlobal && o.args[0].glob.Name() == "ErrNoRows" {
						return true
					}
				}
			}
		}
	}
	return false
}
