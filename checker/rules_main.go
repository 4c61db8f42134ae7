package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Main.Run, the fab command and the main function of the generated driver (rendered from the template in the source, type-checked as part of the module, not run) are explored over all paths; the words of the driver's command line are interpreted with the flags that the driver is found to define, and what finally reaches the controller, the context and the hash database is compared, as terms, with the settings of Main.", checkMain)
	register("C22", "CompilePackage is explored over all paths and all packages to find which identifiers become targets with which names and documentation; the main function of the driver rendered from the template for sets of sample targets is type-checked and explored over all paths.", checkDriverProgram)
}

// optNames are the options of fab: the flag, the setting of Main, and the type.
var optNames = []struct {
	flag, field string
	isBool      bool
}{
	{"fab", "Fabdir", false}, {"top", "Topdir", false}, {"v", "Verbose", true}, {"list", "List", true}, {"f", "Force", true}, {"n", "DryRun", true},
}

const (
	nNewController = "fab.NewController"
	nReadYAMLFile  = "(*fab.Controller).ReadYAMLFile"
	nListTargets   = "(*fab.Controller).ListTargets"
	nParseArgs     = "(*fab.Controller).ParseArgs"
	nRegister      = "(*fab.Controller).RegisterTarget"
	nOpenHashDB    = "fab.OpenHashDB"
	nGetDriver     = "(*fab.Main).getDriver"
	nMainRun       = "(*fab.Main).Run"
)

// flagModel models package flag: after Parse, the variables have unknown values named after their flags.
func flagModel(x *Explorer, st *State, ev *CallEvent) (*Term, bool) {
	name, args, sig := ev.name, ev.raw, ev.sig
	if n, ok := strings.CutPrefix(name, "(*flag.FlagSet)."); ok {
		name, args = "flag."+n, args[1:]
	}
	kinds := map[string]string{"flag.StringVar": "string", "flag.BoolVar": "bool", "flag.String": "string", "flag.Bool": "bool"}
	if k := kinds[name]; k != "" {
		var addr *Term
		var typ types.Type = types.Typ[types.String]
		if k == "bool" {
			typ = types.Typ[types.Bool]
		}
		if strings.HasSuffix(name, "Var") {
			addr, args = unbox(args[0]), args[1:]
		} else {
			addr = x.leaf(st, OpAlloc, "flag", ev.ins)
		}
		f, ok := args[0].strVal()
		if !ok || st.ts["flag:"+f] != nil || st.ts["parsed"] != nil {
			x.report(st, ev.ins.Pos(), "flag:define", "a flag is defined twice, under an unknown name, or too late (%s)", args[0])
			return nil, false
		}
		st.ts["flag:"+f] = addr
		st.ts["flagkind:"+f] = x.tt.str(k)
		st.ts["flagdefault:"+f] = args[1]
		x.store(st, addr, typ, args[1], ev.ins)
		if strings.HasSuffix(name, "Var") {
			return x.tt.null(), true
		}
		return addr, true
	}
	switch name {
	case "flag.Parse":
		st.ts["parsed"] = flag(x)
		for _, k := range tsKeys(st, "flag:") {
			f := strings.TrimPrefix(k, "flag:")
			var typ types.Type = types.Typ[types.String]
			if st.ts["flagkind:"+f].isStr("bool") {
				typ = types.Typ[types.Bool]
			}
			x.store(st, st.ts[k], typ, x.param("flag -"+f, typ), ev.ins)
		}
		return x.leaf(st, OpCall, "flag.Parse", ev.ins), true
	case "flag.Args", "flag.NArg", "flag.Arg":
		if st.ts["parsed"] == nil {
			x.report(st, ev.ins.Pos(), "flag:early", "the arguments are used before the flags are parsed")
			return nil, false
		}
		l := x.param("flag args", types.NewSlice(types.Typ[types.String]))
		switch name {
		case "flag.NArg":
			return x.tt.length(l), true
		case "flag.Args":
			return l, true
		}
		return x.load(st, x.indexAddr(st, l, args[0]), types.Typ[types.String]), true
	}
	_ = sig
	return nil, false
}

// optValue tells which value a setting has on this path; opt is the symbolic value.
func (x *Explorer) sameBool(st *State, v, opt *Term) bool {
	if v == opt {
		return true
	}
	if b, ok := v.boolVal(); ok {
		return b && x.knownTrue(st, opt) || !b && x.knownFalse(st, opt)
	}
	return x.knownTrue(st, x.tt.eq(v, opt))
}

// execution checks one way to get from the options to the execution of targets.
type execution struct {
	c    *Check
	name string
	// is tells whether a term is the value of an option, given by its name in Main, or of the arguments ("Args").
	is func(x *Explorer, st *State, t *Term, opt string) bool
	// on tells what is known about a boolean option.
	on func(x *Explorer, st *State, opt string) (val, known bool)
	// noArgs tells whether there are certainly no arguments, in which case a listing is shown instead.
	noArgs func(x *Explorer, st *State) bool
	base   func(x *Explorer, ctx *Term) bool
}

func (e *execution) okErr(x *Explorer, st *State, key string) bool {
	err := st.ts[key]
	return err != nil && (x.knownNil(st, err) || key == "x:read" && x.knownTrue(st, x.isNotExist(err)))
}

func (e *execution) bad(x *Explorer, st *State, pos tokenPos, key, format string, args ...any) {
	x.report(st, pos, e.name+":"+key, e.name+": "+format, args...)
}

// call follows the calls that matter.
func (e *execution) call(x *Explorer, st *State, ev *CallEvent) {
	pos := ev.ins.Pos()
	con := func() {
		if st.ts["x:con"] == nil || ev.args[0] != st.ts["x:con"] {
			e.bad(x, st, pos, "controller", "%s is called for another controller than the one for the top directory", ev.name)
		}
	}
	read := func(what string) {
		if !e.okErr(x, st, "x:read") {
			e.bad(x, st, pos, "unread", "%s without having read the top directory's YAML file (or found that there is none)", what)
		}
	}
	switch ev.name {
	case nNewController:
		if st.ts["x:con"] != nil {
			e.bad(x, st, pos, "controllers", "more than one controller is made")
		}
		st.ts["x:con"] = ev.res
		e.c.count(e.name+": controllers", 1)
		if !e.is(x, st, ev.args[0], "Topdir") {
			e.bad(x, st, pos, "topdir", "the controller is made for %s and not for the top directory", ev.args[0])
		}
	case nReadYAMLFile:
		con()
		if !ev.args[1].isStr("") {
			e.bad(x, st, pos, "yaml", "the YAML file read is that of %s and not of the top directory", ev.args[1])
		}
		st.ts["x:read"] = ev.errResult(x)
	case nOpenHashDB:
		if !e.is(x, st, ev.args[0], "Fabdir") {
			e.bad(x, st, pos, "db", "the hash database is opened in %s and not in the fab directory", ev.args[0])
		}
		st.ts["x:db"] = x.tt.extract(ev.res, 0)
		st.ts["x:dberr"] = ev.errResult(x)
	case nListTargets:
		con()
		read("targets are listed")
		if !isGlobal(unbox(ev.args[1]), "os", "Stdout") {
			e.bad(x, st, pos, "list:out", "targets are listed on %s and not on the standard output", ev.args[1])
		}
		l, known := e.on(x, st, "List")
		if !(known && l) && !(e.noArgs != nil && e.noArgs(x, st)) {
			e.bad(x, st, pos, "list:unasked", "targets may be listed without having been asked for")
		}
		st.ts["x:listed"] = flag(x)
		e.c.count(e.name+": listings", 1)
	case nParseArgs:
		con()
		if !e.is(x, st, ev.args[1], "Args") {
			e.bad(x, st, pos, "args", "the arguments parsed are %s and not those given", ev.args[1])
		}
		read("arguments are parsed")
		st.ts["x:targets"] = x.tt.extract(ev.res, 0)
		st.ts["x:parse"] = ev.errResult(x)
	case nRun:
		con()
		e.c.count(e.name+": runs", 1)
		if st.ts["x:ran"] != nil {
			e.bad(x, st, pos, "twice", "targets are run more than once")
		}
		st.ts["x:ran"] = ev.errResult(x)
		if l, known := e.on(x, st, "List"); !known || l {
			e.bad(x, st, pos, "run:list", "targets may be run although just a listing is wanted")
		}
		if st.ts["x:listed"] != nil {
			e.bad(x, st, pos, "run:listed", "targets are run after having been listed")
		}
		el, sp := listOf(x.canon(st, ev.args[2]))
		if st.ts["x:targets"] == nil || len(el) > 0 || len(sp) != 1 || sp[0] != st.ts["x:targets"] || !e.okErr(x, st, "x:parse") {
			e.bad(x, st, pos, "run:targets", "what is run is not the result of parsing the arguments successfully")
		}
		with := map[string]*Term{}
		ctx := ev.args[1]
		for ctx.op == OpPure && len(ctx.args) == 2 && (strings.HasPrefix(ctx.s, "fab.With") || ctx.s == "context.WithValue") || ctx.op == OpExtract {
			if ctx.op == OpExtract {
				break
			}
			if n := strings.TrimPrefix(ctx.s, "fab.With"); with[n] == nil {
				with[n] = ctx.args[1]
			}
			ctx = ctx.args[0]
		}
		if !e.base(x, ctx) {
			e.bad(x, st, pos, "run:ctx", "targets are not run in a context derived from the one given (%s)", ctx)
		}
		for _, o := range []string{"Verbose", "Force", "DryRun"} {
			v := with[o]
			if v == nil {
				v = x.tt.boolean(false)
			}
			ok := e.is(x, st, v, o)
			if b, isConst := v.boolVal(); isConst && !ok {
				val, known := e.on(x, st, o)
				ok = known && val == b
			}
			if !ok {
				e.bad(x, st, pos, "run:"+o, "targets are run with %s set to %s and not as asked", o, v)
			}
		}
		if db := unbox(orNil(x, with["HashDB"])); st.ts["x:db"] == nil || db != st.ts["x:db"] || !e.okErr(x, st, "x:dberr") {
			e.bad(x, st, pos, "run:db", "targets are run without the hash database having been opened successfully and put into the context")
		}
		if with["Args"] != nil {
			e.bad(x, st, pos, "run:args", "targets are run with arguments put into the context beforehand")
		}
	case "(*fab/sqlite.DB).Close", "invoke io.Closer.Close", "(*database/sql.DB).Close":
		if st.ts["x:db"] != nil && ev.args[0].contains(st.ts["x:db"]) {
			if st.ts["x:ran"] == nil && !ev.isDeferred() {
				delete(st.ts, "x:dberr")
				delete(st.ts, "x:db")
			}
		}
	}
}

func orNil(x *Explorer, t *Term) *Term {
	if t == nil {
		return x.tt.null()
	}
	return t
}

func (ev *CallEvent) isDeferred() bool { return ev.kind == frDefer }

// done checks a successful end.
func (e *execution) done(x *Explorer, st *State, pos tokenPos) {
	e.c.count(e.name+": successful ends", 1)
	if st.ts["x:listed"] == nil && st.ts["x:ran"] == nil {
		e.bad(x, st, pos, "nothing", "success is reported although targets have been neither listed nor run")
	}
	for k, what := range map[string]string{"x:read": "reading the YAML file", "x:dberr": "opening the hash database", "x:parse": "parsing the arguments", "x:ran": "running the targets"} {
		if st.ts[k] != nil && !e.okErr(x, st, k) {
			e.bad(x, st, pos, "failed:"+k, "success may be reported although %s has failed", what)
		}
	}
}

// checkMain decides C24.
func checkMain(c *Check) {
	c.rule("Main.Run makes its directories absolute before it uses them, asks getDriver once, and falls back on driverless operation exactly if getDriver's error is errNoDriver")
	c.rule("the driver is started with the caller's context, in the top directory, with fab's own standard streams, and with words which, interpreted with the flags the driver defines, give every setting of Main, and exactly Main.Args as arguments; the error of the driver is returned")
	c.rule("driverless and in the driver, one controller is made for the top directory, its YAML file is read (absence is tolerated), the targets are listed on the standard output if a listing is asked for, and otherwise the result of parsing exactly the arguments is run in a context with Verbose, Force, DryRun and the hash database of the fab directory")
	c.rule("the driver and the fab command end with a nonzero status exactly on paths with an error")
	c.rule("the fab command passes its flags -fab, -v, -list, -f, -n and its arguments to the fields of Main")
	c.checkRun()
	d, c2, mains := c.drivers()
	if d == nil {
		return
	}
	for _, fn := range mains {
		c2.checkDriverMain(fn)
	}
	c.checkCommandMain()
	c.checkHashDBPath()
	c.atLeast("driver: runs", 1)
	c.atLeast("driver: listings", 1)
	c.atLeast("driverless: runs", 1)
	c.atLeast("driverless: listings", 1)
	c.atLeast("driver processes", 16)
	c.atLeast("runs of Main", 1)
	c.errorDiscipline()
}

// checkRun explores Main.Run.
func (c *Check) checkRun() {
	fn := c.need("", "Main.Run")
	if fn == nil {
		return
	}
	sentinels := c.noDriverErrors()
	e := &execution{c: c, name: "driverless"}
	e.is = func(x *Explorer, st *State, t *Term, opt string) bool {
		if isFieldOf(t, x.params[0], opt) {
			return true
		}
		if opt == "Topdir" || opt == "Fabdir" {
			if cl := callTo(t, "path/filepath.Abs"); cl != nil && t.op == OpExtract && t.i == 0 {
				return isFieldOf(cl.args[0], x.params[0], opt) || opt == "Topdir" && callTo(cl.args[0], "fab.TopDir") != nil
			}
			return opt == "Topdir" && callTo(t, "fab.TopDir") != nil && t.op == OpExtract && t.i == 0
		}
		return false
	}
	e.on = func(x *Explorer, st *State, opt string) (bool, bool) {
		t := c.loadField(x, st, x.params[0], fn.Params[0].Type(), opt)
		if x.knownTrue(st, t) {
			return true, true
		}
		return false, x.knownFalse(st, t)
	}
	e.base = func(x *Explorer, ctx *Term) bool { return ctx == x.params[1] }
	rule := &Rule{stop: stopAt(nGetDriver, "fab.TopDir", nNewController, nReadYAMLFile, nListTargets, nParseArgs, nRun, nOpenHashDB), keepArgs: allArgs}
	absolute := func(x *Explorer, st *State, t *Term, opt string) bool {
		if cl := callTo(t, "path/filepath.Abs"); cl != nil && t.op == OpExtract && t.i == 0 {
			return x.knownNil(st, x.tt.extract(cl, 1))
		}
		return isFieldOf(t, x.params[0], opt) && st.ts["abs:"+opt] != nil && x.knownNil(st, st.ts["abs:"+opt])
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if addr.op != OpField || addr.args[0] != x.params[0] {
			return
		}
		f := fieldName(addr.typ, addr.i)
		delete(st.ts, "abs:"+f)
		if !e.is(x, st, val, f) {
			x.report(st, ins.Pos(), "main:set:"+f, "Main.Run changes its setting %s to %s", f, val)
		}
		if cl := callTo(val, "path/filepath.Abs"); cl != nil {
			st.ts["abs:"+f] = x.tt.extract(cl, 1)
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		pos := ev.ins.Pos()
		m := x.params[0]
		switch ev.name {
		case "fab.TopDir":
			if t := c.loadField(x, st, m, fn.Params[0].Type(), "Topdir"); !x.knownTrue(st, x.tt.eq(t, x.tt.str(""))) && !ev.args[0].isStr(".") {
				x.report(st, pos, "main:topdir", "the top directory is looked for although it may be given, or not from the current directory")
			}
			st.ts["looked"] = flag(x)
			if !ev.args[0].isStr(".") {
				x.report(st, pos, "main:topdir:from", "the top directory is looked for from %s and not from the current directory", ev.args[0])
			}
		case nGetDriver:
			if st.ts["x:driver"] != nil {
				x.report(st, pos, "main:twice", "getDriver is called more than once")
			}
			if ev.args[0] != m || ev.args[1] != x.params[1] {
				x.report(st, pos, "main:getdriver", "getDriver is not called with the caller's context and settings")
			}
			st.ts["x:driver"] = x.tt.extract(ev.res, 0)
			st.ts["x:drivererr"] = ev.errResult(x)
			for _, o := range []string{"Topdir", "Fabdir"} {
				if st.ts["abs:"+o] == nil || !x.knownNil(st, st.ts["abs:"+o]) {
					x.report(st, pos, "main:relative:"+o, "%s is used without having been made absolute, and the driver runs in another directory", o)
				}
			}
		case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os/exec.Cmd).StdoutPipe", "(*os/exec.Cmd).StderrPipe", "os.StartProcess", "syscall.Exec":
			if !ev.is("(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start") {
				x.report(st, pos, "driver:how", "the driver's output is not left to the driver (%s)", ev.name)
				return
			}
			c.checkDriverCommand(e, x, st, ev, absolute)
			if ev.is("(*os/exec.Cmd).Run") {
				st.ts["x:procerr"] = ev.errResult(x)
			} else {
				st.ts["x:started"] = flag(x)
			}
		case "(*os/exec.Cmd).Wait":
			st.ts["x:procerr"] = ev.errResult(x)
		case nNewController, nReadYAMLFile, nListTargets, nParseArgs, nRun, nOpenHashDB:
			de := st.ts["x:drivererr"]
			val, known := false, false
			if de != nil {
				val, known = x.noDriver(st, de, sentinels)
			}
			if !known || !val {
				x.report(st, pos, "main:fallback", "targets are handled without a driver although getDriver did not find that there is none")
			}
		}
		e.call(x, st, ev)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if !x.succeeds(st, res) {
			return
		}
		if st.ts["x:driverran"] != nil {
			if st.ts["x:procerr"] == nil || !x.knownNil(st, st.ts["x:procerr"]) {
				x.report(st, fn.Pos(), "driver:failed", "success may be returned although the driver has failed")
			}
			if st.ts["x:con"] != nil {
				x.report(st, fn.Pos(), "driver:both", "targets are handled by the driver and without it")
			}
			c.count("driver successes", 1)
			return
		}
		e.done(x, st, fn.Pos())
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("driver successes", 1)
}

// noDriver tells whether an error is known to be the one that says that there is no driver.
func (x *Explorer) noDriver(st *State, err *Term, sentinels map[*ssa.Global]bool) (val, known bool) {
	is := func(t *Term) bool {
		t = unbox(t)
		return t.op == OpLoad && t.args[0].op == OpGlobal && sentinels[t.args[0].glob]
	}
	if x.knownNil(st, err) {
		return false, true
	}
	for f, v := range st.facts {
		if f.isPure("errors.Is") && unwrapErr(f.args[0]) == unwrapErr(err) && is(f.args[1]) {
			return v, true
		}
		if f.op == OpBin && f.s == "==" && v {
			for i := range f.args {
				if unwrapErr(f.args[i]) == unwrapErr(err) && is(f.args[1-i]) {
					return true, true
				}
			}
		}
	}
	return false, false
}

// noDriverErrors finds the errors by which getDriver says that there is no driver, and checks when it does so.
func (c *Check) noDriverErrors() map[*ssa.Global]bool {
	fn := c.need("", "Main.getDriver")
	if fn == nil {
		return nil
	}
	out := map[*ssa.Global]bool{}
	rule := &Rule{stop: stopAt(nCompilePackage), keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch ev.name {
		case "os.Stat", "os.Lstat":
			if j := joined(ev.args[0]); len(j) == 2 && isFieldOf(j[0], x.params[0], "Topdir") && j[1].isStr("_fab") {
				st.ts["absent"] = ev.errResult(x)
			}
		case "golang.org/x/tools/go/packages.Load":
			st.ts["pkgs"] = x.tt.extract(ev.res, 0)
			st.ts["loaderr"] = ev.errResult(x)
		case nCompilePackage, "os.MkdirAll", "os.WriteFile":
			st.ts["went on"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		e := unwrapErr(last(res))
		absent := st.ts["absent"] != nil && x.knownTrue(st, x.isNotExist(st.ts["absent"]))
		if e.op == OpLoad && e.args[0].op == OpGlobal && isModPath(e.args[0].glob.Pkg.Pkg.Path()) {
			c.count("ways to have no driver", 1)
			out[e.args[0].glob] = true
			none := st.ts["pkgs"] != nil && x.knownTrue(st, x.tt.lenEq0(x.tt.length(st.ts["pkgs"])))
			gone := st.ts["loaderr"] != nil && x.knownTrue(st, x.isNotExist(st.ts["loaderr"]))
			if !absent && !none && !gone {
				x.report(st, fn.Pos(), "nodriver:when", "getDriver reports that there is no driver although there is a _fab directory with a package, or that is not known")
			}
			return
		}
		if absent && st.ts["absent"] != nil {
			x.report(st, fn.Pos(), "nodriver:absent", "without a _fab directory, getDriver does not report that there is no driver")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("ways to have no driver", 1)
	return out
}

// loadField is the current value of a field of *p.
func (c *Check) loadField(x *Explorer, st *State, p *Term, t types.Type, name string) *Term {
	a := x.fieldAddr(p, t, name)
	if a == nil {
		c.undecided("field:"+name, "there is no field %s", name)
		return x.tt.null()
	}
	s := structOf(deref(t))
	return x.canon(st, x.load(st, a, s.Field(fieldIndex(deref(t), name)).Type()))
}

// checkDriverCommand checks how Main.Run starts the driver.
func (c *Check) checkDriverCommand(e *execution, x *Explorer, st *State, ev *CallEvent, absolute func(x *Explorer, st *State, t *Term, opt string) bool) {
	pos := ev.ins.Pos()
	cmd := unbox(ev.args[0])
	c.count("driver processes", 1)
	if st.ts["x:driverran"] != nil {
		x.report(st, pos, "driver:twice", "the driver is started more than once")
	}
	st.ts["x:driverran"] = flag(x)
	cl := callTo(cmd, "os/exec.CommandContext")
	if cl == nil || cl.args[0] != x.params[1] {
		x.report(st, pos, "driver:ctx", "the driver is not started under the caller's context")
		return
	}
	if st.ts["x:driver"] == nil || cl.args[1] != st.ts["x:driver"] || !x.knownNil(st, st.ts["x:drivererr"]) {
		x.report(st, pos, "driver:program", "the program started is not the result of a successful getDriver")
	}
	if d := c.cmdField(x, st, cmd, "Dir"); !e.is(x, st, d, "Topdir") {
		x.report(st, pos, "driver:dir", "the driver does not run in the top directory but in %s", d)
	}
	for _, s := range []string{"Stdin", "Stdout", "Stderr"} {
		if w := c.cmdField(x, st, cmd, s); w == nil || !isGlobal(unbox(w), "os", s) {
			x.report(st, pos, "driver:"+s, "the driver's %s is not fab's", s)
		}
	}
	if env := c.cmdField(x, st, cmd, "Env"); env != nil && !env.isNil() {
		if el, sp := listOf(env); len(sp) != 1 || len(el) > 0 || callTo(sp[0], "os.Environ") == nil {
			if !(env.op == OpLoad) {
				x.report(st, pos, "driver:env", "the driver's environment is not fab's")
			}
		}
	}
	// The words, as package flag reads them.
	type word struct {
		t      *Term
		spread bool
	}
	var words []word
	list := x.canon(st, cl.args[2])
	switch list.op {
	case OpSeq:
		for _, p := range list.args[1:] {
			words = append(words, word{p.args[0], p.op != OpElem})
		}
	case OpNil:
	default:
		words = append(words, word{list, true})
	}
	set := map[string]*Term{}
	i := 0
	for i < len(words) {
		w := words[i]
		if w.spread {
			x.report(st, pos, "driver:words", "words (%s) that may begin with a dash are given to the driver where it looks for flags", w.t)
			return
		}
		s, ok := w.t.strVal()
		if !ok {
			// "-name=" + value
			if w.t.op == OpConcat {
				if p, isConst := w.t.args[0].strVal(); isConst && strings.HasPrefix(p, "-") && strings.HasSuffix(p, "=") && len(w.t.args) == 2 {
					set[strings.TrimLeft(strings.TrimSuffix(p, "="), "-")] = w.t.args[1]
					i++
					continue
				}
			}
			x.report(st, pos, "driver:words", "a word (%s) that may begin with a dash is given to the driver where it looks for flags", w.t)
			return
		}
		if s == "--" {
			i++
			break
		}
		if len(s) < 2 || s[0] != '-' {
			break // the first argument
		}
		name, val, has := strings.Cut(strings.TrimPrefix(s[1:], "-"), "=")
		i++
		isBool := false
		for _, o := range optNames {
			if o.flag == name {
				isBool = o.isBool
			}
		}
		switch {
		case isBool && !has:
			set[name] = x.tt.boolean(true)
		case isBool:
			set[name] = x.tt.boolean(val == "true" || val == "1" || val == "t")
		case has:
			set[name] = x.tt.str(val)
		default:
			if i >= len(words) || words[i].spread {
				x.report(st, pos, "driver:words", "the flag -%s has no value", name)
				return
			}
			set[name] = words[i].t
			i++
		}
	}
	for _, o := range optNames {
		v := set[o.flag]
		delete(set, o.flag)
		if !o.isBool {
			if v == nil || !e.is(x, st, v, o.field) {
				x.report(st, pos, "driver:flag:"+o.flag, "the driver is not given the setting %s by its flag -%s", o.field, o.flag)
			} else if !absolute(x, st, v, o.field) {
				x.report(st, pos, "driver:relative:"+o.flag, "the directory given by -%s may be relative, and the driver runs in another directory", o.flag)
			}
			continue
		}
		if v == nil {
			v = x.tt.boolean(false)
		}
		val, known := e.on(x, st, o.field)
		if b, ok := v.boolVal(); !ok || !known || b != val {
			x.report(st, pos, "driver:flag:"+o.flag, "the driver's flag -%s does not say what the setting %s says", o.flag, o.field)
		}
		c.count("flags compared", 1)
	}
	for name := range set {
		x.report(st, pos, "driver:unknown:"+name, "the driver is given another flag, -%s", name)
	}
	rest := words[i:]
	if len(rest) == 1 && rest[0].spread && e.is(x, st, copied(rest[0].t), "Args") {
		return
	}
	if len(rest) == 0 {
		if a := c.loadField(x, st, x.params[0], x.entry.Params[0].Type(), "Args"); x.knownTrue(st, x.tt.lenEq0(x.tt.length(a))) {
			return
		}
	}
	x.report(st, pos, "driver:args", "the driver's arguments are not exactly Main.Args")
}

// checkFlags checks the flags a program defines.
func (c *Check) checkFlags(who string, x *Explorer, st *State, pos tokenPos, top bool) {
	for _, o := range optNames {
		if o.flag == "top" && !top {
			continue
		}
		k := "string"
		if o.isBool {
			k = "bool"
		}
		if st.ts["flag:"+o.flag] == nil || !st.ts["flagkind:"+o.flag].isStr(k) {
			x.report(st, pos, who+":flag:"+o.flag, "%s has no flag -%s of type %s", who, o.flag, k)
			continue
		}
		if d := st.ts["flagdefault:"+o.flag]; o.isBool && !d.isFalse() {
			x.report(st, pos, who+":default:"+o.flag, "-%s is on by default", o.flag)
		}
	}
}

func flagValue(x *Explorer, opt string) *Term {
	for _, o := range optNames {
		if o.field == opt {
			var typ types.Type = types.Typ[types.String]
			if o.isBool {
				typ = types.Typ[types.Bool]
			}
			return x.param("flag -"+o.flag, typ)
		}
	}
	return x.param("flag args", types.NewSlice(types.Typ[types.String]))
}

// checkDriverMain explores the main function of a driver.
func (c *Check) checkDriverMain(fn *ssa.Function) {
	e := &execution{c: c, name: "driver"}
	e.is = func(x *Explorer, st *State, t *Term, opt string) bool { return t == flagValue(x, opt) }
	e.on = func(x *Explorer, st *State, opt string) (bool, bool) {
		t := flagValue(x, opt)
		if x.knownTrue(st, t) {
			return true, true
		}
		return false, x.knownFalse(st, t)
	}
	e.noArgs = func(x *Explorer, st *State) bool {
		return x.knownTrue(st, x.tt.lenEq0(x.tt.length(flagValue(x, "Args"))))
	}
	e.base = func(x *Explorer, ctx *Term) bool { return ctx.isPure("context.Background") }
	rule := &Rule{stop: outside(fn), keepArgs: allArgs, model: flagModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if err := ev.errResult(x); err != nil && !hasPrefixAny(ev.name, "fmt.") && !strings.HasSuffix(ev.name, ".Close") && !ev.is("os.UserCacheDir") {
			st.ts["e:"+tid(err)] = err
		}
		switch ev.name {
		case "flag.Parse":
		case "os.Exit":
			ended(c, e, x, st, ev.ins.Pos(), ev.args[0])
			return
		case nNewController:
			c.checkFlags("driver", x, st, ev.ins.Pos(), true)
		}
		e.call(x, st, ev)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		ended(c, e, x, st, fn.Pos(), x.tt.num(0))
	}
	c.explore(fn, rule, nil, nil)
}

// outside treats everything but the program's own functions as opaque.
func outside(main *ssa.Function) func(x *Explorer, name string, fn *ssa.Function) bool {
	return func(x *Explorer, name string, fn *ssa.Function) bool { return fnPkgPath(fn) != fnPkgPath(main) }
}

// ended checks the end of a program with a status.
func ended(c *Check, e *execution, x *Explorer, st *State, pos tokenPos, status *Term) {
	n, ok := status.intVal()
	if !ok {
		x.report(st, pos, e.name+":status", "the exit status is not known")
		return
	}
	if n == 0 {
		if e.name == "driver" {
			e.done(x, st, pos)
		}
		for _, k := range tsKeys(st, "e:") {
			if err := st.ts[k]; !x.knownNil(st, err) && !x.knownTrue(st, x.isNotExist(err)) {
				x.report(st, pos, e.name+":exit0", "the program may end successfully although an operation (%s) has failed", err)
			}
		}
		return
	}
	failed := false
	for _, k := range tsKeys(st, "e:") {
		failed = failed || x.knownNonNil(st, st.ts[k])
	}
	c.count("failing ends", 1)
	if !failed {
		x.report(st, pos, e.name+":exit1", "the program ends with a failure status although nothing has failed")
	}
}

// checkCommandMain explores the fab command.
func (c *Check) checkCommandMain() {
	fn := c.need("cmd/fab", "main")
	if fn == nil {
		return
	}
	mt := c.namedType("", "Main")
	e := &execution{c: c, name: "fab"}
	rule := &Rule{stop: outside(fn), keepArgs: allArgs, model: flagModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if err := ev.errResult(x); err != nil && !hasPrefixAny(ev.name, "fmt.") && !ev.is("os.UserCacheDir") {
			st.ts["e:"+tid(err)] = err
		}
		switch ev.name {
		case "os.Exit":
			ended(c, e, x, st, ev.ins.Pos(), ev.args[0])
		case nMainRun:
			c.count("runs of Main", 1)
			st.ts["ran"] = flag(x)
			c.checkFlags("fab", x, st, ev.ins.Pos(), false)
			for _, o := range append([]string{"Args"}, "Fabdir", "Verbose", "List", "Force", "DryRun", "Topdir") {
				v := c.loadField(x, st, unbox(ev.raw[0]), types.NewPointer(mt), o)
				if o == "Topdir" && (v.isStr("") || st.ts["flag:top"] != nil && v == flagValue(x, o)) {
					continue
				}
				if copied(v) != flagValue(x, o) {
					x.report(st, ev.ins.Pos(), "fab:set:"+o, "the setting %s is %s and not what the command line says", o, v)
				}
				c.count("settings compared", 1)
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if st.ts["ran"] == nil {
			x.report(st, fn.Pos(), "fab:norun", "the command ends without having run Main")
		}
		ended(c, e, x, st, fn.Pos(), x.tt.num(0))
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("settings compared", 6)
}

// checkHashDBPath checks that the hash database is in the directory given.
func (c *Check) checkHashDBPath() {
	fn := c.need("", "OpenHashDB")
	if fn == nil {
		return
	}
	rule := &Rule{stop: stopAt("fab/sqlite.Open"), keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if !ev.is("fab/sqlite.Open") {
			return
		}
		c.count("databases opened", 1)
		p := ev.args[0]
		if j := joined(p); len(j) != 2 || j[0] != x.params[0] || j[1].op != OpConst {
			x.report(st, ev.ins.Pos(), "db:path", "the hash database is %s, and not a file of the directory given", p)
		}
		st.ts["db"] = x.tt.extract(ev.res, 0)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.succeeds(st, res) && (st.ts["db"] == nil || res[0] != st.ts["db"]) {
			x.report(st, fn.Pos(), "db:result", "the result is not the database opened")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("databases opened", 1)
}
