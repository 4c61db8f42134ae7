package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Every entry point of the module is explored over all paths with the functions it calls inlined. At each instruction that can panic, the facts of the path must exclude that: bounds are decided in the domain of differences of integers with remainders, nil and dynamic types by the facts about tests and about which results go with which errors.", checkPanics)
}

// optionalField tells whether a field of a type of another package may be nil.
func optionalField(t types.Type, i int) bool {
	s := structOf(deref(t))
	n := named(deref(t))
	if s == nil || n == nil || n.Obj().Pkg() == nil || i >= s.NumFields() {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + s.Field(i).Name() {
	case "golang.org/x/tools/go/packages.Package.Module", "golang.org/x/tools/go/packages.Module.Replace", "golang.org/x/tools/go/packages.Module.Error", "golang.org/x/tools/go/packages.Module.Time",
		"golang.org/x/tools/go/packages.Package.TypesInfo", "golang.org/x/tools/go/packages.Package.Fset",
		"gopkg.in/yaml.v3.Node.Alias", "os/exec.Cmd.Process", "os/exec.Cmd.ProcessState", "os/exec.Cmd.SysProcAttr",
		"runtime/debug.Module.Replace",
		"go/ast.File.Doc", "go/ast.GenDecl.Doc", "go/ast.FuncDecl.Doc", "go/ast.FuncDecl.Recv", "go/ast.FuncDecl.Body", "go/ast.ValueSpec.Doc", "go/ast.ValueSpec.Comment", "go/ast.ValueSpec.Type", "go/ast.TypeSpec.Doc", "go/ast.Field.Tag", "go/ast.Ident.Obj", "go/doc.Func.Decl":
		return true
	}
	return false
}

// optionalResult: functions of other packages that may return nil.
func optionalResult(n string) bool {
	return oneOf(n, "(*go/types.Scope).Lookup", "(*go/types.MethodSet).Lookup", "invoke go/types.Object.Pkg", "(*go/types.object).Pkg", "invoke go/types.Object.Parent", "(*go/types.Signature).Recv", "(*go/types.Scope).Parent", "(*go/types.Scope).Innermost",
		"(*go/types.Named).TypeParams", "errors.Unwrap", "invoke context.Context.Value", "invoke error.Unwrap", "(*flag.FlagSet).Lookup", "flag.Lookup", "go/types.NewMethodSet.Lookup", "(*go/doc.Package).Filter", "fab.GetHashDB")
}

// nilSafe: methods that may be called with a nil receiver.
func nilSafe(n string) bool {
	return oneOf(n, "(*go/ast.CommentGroup).Text", "(*go/types.Tuple).Len", "(*go/types.TypeParamList).Len", "(*go/types.TypeList).Len", "(*go/token.File).Name")
}

type panicRun struct {
	c       *Check
	roots   map[*ssa.Function]bool
	done    map[ssa.Instruction]bool // sites seen
	nils    map[string]string        // fields, parameters (of unexported functions) and results of the module that may be nil, and why
	flows   map[string][]string      // where they go
	unset   map[ssa.Instruction]map[int]bool
	handed  map[ssa.Instruction]bool // objects found to be returned, with their fields set
	pending []func()
}

func skipFn(f *ssa.Function) bool {
	return f.Blocks == nil || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0
}

func checkPanics(c *Check) {
	c.rule("no index is below 0, or not below the length of the list, array or string; the bounds of no slice expression are out of order or beyond the end; no string is repeated a negative number of times; no index given to an accessor with a limit is at or above the limit")
	c.rule("no pointer, interface, function or map (to assign to) is used that is the result of an operation that failed or found nothing, an optional field or result that was not tested, a map entry that need not exist, or comes from such a value by a field, parameter or result of a function of the module")
	c.rule("no type is asserted unconditionally, unless it is known; no interface values are compared or used as keys of maps, unless one of them is known to be comparable; methods of reflect.Type and reflect.Value are called only for kinds that have them")
	c.rule("panic is called only in functions called Must… (or by what they hand an error to), which no other function of the module calls; regular expressions are compiled without an error check only if constant and valid, templates only during initialisation")
	pr := &panicRun{c: c, roots: map[*ssa.Function]bool{}, done: map[ssa.Instruction]bool{}, nils: map[string]string{}, flows: map[string][]string{}, unset: map[ssa.Instruction]map[int]bool{}, handed: map[ssa.Instruction]bool{}}
	for f := range c.p.rootFns() {
		pr.roots[f] = true
	}
	for {
		cyc := c.p.cyclic(pr.roots)
		if len(cyc) == 0 {
			break
		}
		pr.roots[c.p.calledTwice(cyc)] = true
	}
	pr.fields()
	pr.comparisons()
	entered := map[*ssa.Function]bool{}
	var list []*ssa.Function
	for _, f := range c.p.srcFns {
		if !skipFn(f) && (pr.roots[f] || strings.HasPrefix(f.Name(), "init#")) {
			list = append(list, f)
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	for _, f := range list {
		pr.explore(f, entered)
	}
	for _, f := range c.p.srcFns {
		if skipFn(f) || entered[f] || strings.HasPrefix(f.Name(), "init") && f.Parent() == nil || !c.p.referenced(f) {
			continue
		}
		pr.explore(f, entered)
	}
	for al, is := range pr.unset {
		for i := range is {
			if !pr.handed[al] {
				pr.nils["field?"+fieldID(al.(*ssa.Alloc).Type(), i)] = "it is not set at " + c.p.posStr(al.Pos())
			}
		}
	}
	pr.spread()
	for _, f := range pr.pending {
		f()
	}
	c.atLeast("entry points explored", 100)
	c.atLeast("index expressions", 50)
	c.atLeast("map updates", 3)
	c.atLeast("uses of pointers, functions, interfaces and maps from elsewhere", 100)
	c.atLeast("calls of methods that only some kinds have", 3)
	c.atLeast("values that are maps", 10)
	c.atLeast("comparisons of interfaces", 50)
}

// calledTwice gives the first function with several calls: one with just one is best explored with what its caller knows.
func (p *Program) calledTwice(fns []*ssa.Function) *ssa.Function {
	calls := map[*ssa.Function]int{}
	for _, f := range p.srcFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						calls[g]++
					}
				}
			}
		}
	}
	for _, f := range fns {
		if calls[f] > 1 {
			return f
		}
	}
	return fns[0]
}

// cyclic gives the functions of the module that may call themselves, by static calls, without the help of those left out.
func (p *Program) cyclic(without map[*ssa.Function]bool) []*ssa.Function {
	callees := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && p.inModule(g) && !without[g] {
						out = append(out, g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					out = append(out, mc.Fn.(*ssa.Function))
				}
			}
		}
		return out
	}
	var out []*ssa.Function
	for _, f := range p.srcFns {
		if without[f] {
			continue
		}
		seen := map[*ssa.Function]bool{}
		work := callees(f)
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			if g == f {
				out = append(out, f)
				break
			}
			if !seen[g] {
				seen[g] = true
				work = append(work, callees(g)...)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func fieldID(t types.Type, i int) string {
	return originString(named(deref(t))) + "." + fieldName(t, i)
}

// nilable tells whether values of a type can be nil.
func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// fields finds the objects of unexported types, or with unexported fields, that are made without setting a field.
func (pr *panicRun) fields() {
	p := pr.c.p
	for _, f := range p.srcFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n := named(deref(al.Type()))
				s := structOf(deref(al.Type()))
				if n == nil || s == nil || n.Obj().Pkg() == nil || !isModPath(n.Obj().Pkg().Path()) {
					continue
				}
				set := map[int]bool{}
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr:
						for _, r2 := range *r.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(r) && st.Block() == al.Block() {
								set[r.Field] = true
							}
						}
					case *ssa.Store:
						if r.Addr == ssa.Value(al) {
							for i := 0; i < s.NumFields(); i++ {
								set[i] = true // a copy
							}
						}
					}
				}
				for i := 0; i < s.NumFields(); i++ {
					if !set[i] && nilable(s.Field(i).Type()) {
						if pr.unset[al] == nil {
							pr.unset[al] = map[int]bool{}
						}
						pr.unset[al][i] = true
					}
				}
			}
		}
	}
}

func (pr *panicRun) explore(fn *ssa.Function, entered map[*ssa.Function]bool) {
	c := pr.c
	c.count("entry points explored", 1)
	rule := &Rule{forget: true, zones: true}
	entered[fn] = true
	own := map[*ssa.Function]bool{}
	rule.stop = func(x *Explorer, n string, f *ssa.Function) bool {
		return f != fn && pr.roots[f]
	}
	rule.onEnter = func(x *Explorer, st *State, f *ssa.Function, args []*Term) { entered[f] = true }
	bad := func(x *Explorer, st *State, ins ssa.Instruction, kind, what string) {
		x.report(st, ins.Pos(), kind+":"+fnName(ins.Parent())+":"+what, "%s", what)
	}
	bound := func(x *Explorer, st *State, ins ssa.Instruction, kind string, a, b *Term, d int64, what string) {
		if newZone(x, st.facts, false).proves(a, b, d) {
			return
		}
		facts := map[*Term]bool{}
		for f, v := range st.facts {
			facts[f] = v
		}
		snap := st.clone()
		x.later(func() {
			if !newZone(x, facts, true).proves(a, b, d) {
				bad(x, snap, ins, kind, what)
			}
		})
	}
	rule.onUse = func(x *Explorer, st *State, ins ssa.Instruction, v *Term, what string) {
		if !c.p.inModule(ins.Parent()) {
			return
		}
		tt := x.tt
		switch what {
		case "index":
			var idx *Term
			var typ types.Type
			switch in := ins.(type) {
			case *ssa.IndexAddr:
				idx, typ = x.val(st, in.Index), in.X.Type()
			case *ssa.Index:
				idx, typ = x.val(st, in.Index), in.X.Type()
			case *ssa.Lookup:
				idx, typ = x.val(st, in.Index), in.X.Type()
			}
			var n *Term
			if a, ok := deref(typ).Underlying().(*types.Array); ok {
				n = tt.num(a.Len())
			} else {
				n = tt.length(v)
			}
			pr.site(ins, "index expressions")
			bound(x, st, ins, "index", tt.num(0), idx, 0, fmt.Sprintf("an index (%s) may be negative", idx))
			bound(x, st, ins, "index", idx, n, -1, fmt.Sprintf("an index (%s) may be beyond the end of %s", idx, v))
		case "slice":
			in := ins.(*ssa.Slice)
			var n *Term
			if a, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
				n = tt.num(a.Len())
			} else {
				n = tt.length(v)
			}
			lo, hi := tt.num(0), n
			if in.Low != nil {
				lo = x.val(st, in.Low)
			}
			if in.High != nil {
				hi = x.val(st, in.High)
			}
			if in.Low == nil && in.High == nil {
				return
			}
			pr.site(ins, "slice expressions")
			bound(x, st, ins, "slice", tt.num(0), lo, 0, fmt.Sprintf("the start of a slice (%s) may be negative", lo))
			bound(x, st, ins, "slice", lo, hi, 0, fmt.Sprintf("the start of a slice (%s) may be beyond its end (%s)", lo, hi))
			bound(x, st, ins, "slice", hi, n, 0, fmt.Sprintf("the end of a slice (%s) may be beyond the end of %s", hi, v))
		case "assert":
			if in := ins.(*ssa.TypeAssert); types.AssignableTo(in.X.Type(), in.AssertedType) {
				// as in the value of a method of an interface
				pr.nilUse(x, st, ins, v, "not tested")
				return
			}
			pr.site(ins, "unconditional type assertions")
			bad(x, st, ins, "assert", fmt.Sprintf("%s may have another dynamic type", v))
		case "mapset":
			pr.site(ins, "map updates")
			pr.nilUse(x, st, ins, v, "assigned to as a map")
		case "compare":
			in := ins.(*ssa.BinOp)
			s := unsafeKey(in.X.Type())
			if s == "" {
				return
			}
			pr.site(ins, "comparisons of interfaces")
			if !x.comparable(st, v, in.X) && !x.comparable(st, x.val(st, in.Y), in.Y) {
				bad(x, st, ins, "compare", fmt.Sprintf("values of type %s are compared, and their dynamic type may not be comparable", s))
			}
		case "deref", "field", "store":
			pr.nilUse(x, st, ins, v, "dereferenced")
		}
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if addr.op != OpField || !c.p.inModule(ins.Parent()) {
			return
		}
		n, s := named(deref(addr.typ)), structOf(deref(addr.typ))
		if n == nil || n.Obj().Pkg() == nil || !isModPath(n.Obj().Pkg().Path()) || !nilable(s.Field(addr.i).Type()) {
			return
		}
		if nonNil(val) || x.knownNonNil(st, val) {
			return
		}
		if why := pr.mayBeNil(x, st, val); why != "" {
			pr.reach("field?"+fieldID(addr.typ, addr.i), why, "it is set at "+c.p.instrPos(ins)+" to what may be nil: ")
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		sig := fn.Signature
		for _, r := range res {
			o := unbox(r)
			if o.op != OpAlloc {
				continue
			}
			pr.handed[o.ins] = true
			for i := range pr.unset[o.ins] {
				s := structOf(deref(o.typ))
				v := x.load(st, x.tt.field(o, i, o.typ), s.Field(i).Type())
				if !nonNil(v) && !x.knownNonNil(st, v) {
					pr.nils["field?"+fieldID(o.typ, i)] = "it may not be set at " + c.p.instrPos(o.ins)
				}
			}
		}
		for i, r := range res {
			t := sig.Results().At(i).Type()
			if !nilable(t) || isErrorType(t) {
				continue
			}
			if l := last(res); isErrorType(sig.Results().At(len(res)-1).Type()) && x.knownNonNil(st, l) {
				continue
			}
			if nonNil(r) || x.knownNonNil(st, r) {
				continue
			}
			if why := pr.mayBeNil(x, st, r); why != "" {
				pr.reach(fmt.Sprintf("result?%s#%d", fnName(fn), i), why, "it may be returned by "+fnName(fn)+": ")
			}
		}
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		for cond.op == OpNot {
			cond = cond.args[0]
		}
		if cond.op == OpBin && cond.s == "==" && cond.args[0].op == OpBin && cond.args[0].s == "%" {
			st.ts["keep:"+tid(cond)] = cond
		}
	}
	rule.onPanic = func(x *Explorer, st *State, ins ssa.Instruction) {
		if !c.p.inModule(ins.Parent()) {
			return
		}
		pr.site(ins, "explicit panics")
		if strings.HasPrefix(fn.Name(), "Must") && (ins.Parent() == fn || takesError(ins.Parent())) {
			return
		}
		bad(x, st, ins, "panic", "this may panic")
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.ins == nil || !c.p.inModule(ev.ins.Parent()) {
			return
		}
		pr.partial(x, st, ev, bound, bad)
		if ev.fn != nil && pr.roots[ev.fn] && !token.IsExported(ev.fn.Name()) {
			for i, p := range ev.fn.Params {
				if i >= len(ev.raw) || !nilable(p.Type()) || nonNil(ev.raw[i]) || x.knownNonNil(st, ev.raw[i]) {
					continue
				}
				if why := pr.mayBeNil(x, st, ev.raw[i]); why != "" {
					pr.reach(fmt.Sprintf("param?%s#%d", fnName(ev.fn), i), why, "it is given at "+c.p.instrPos(ev.ins)+": ")
				}
			}
		}
		switch {
		case strings.HasPrefix(ev.name, "invoke "):
			pr.nilUse(x, st, ev.ins, ev.raw[0], "called as an interface")
		case ev.name == "dynamic":
			pr.nilUse(x, st, ev.ins, ev.clo, "called as a function")
		case ev.fn != nil && !c.p.inModule(ev.fn) && ev.fn.Signature.Recv() != nil && len(ev.raw) > 0 && !nilSafe(ev.name):
			if _, ok := ev.fn.Signature.Recv().Type().(*types.Pointer); ok {
				pr.nilUse(x, st, ev.ins, ev.raw[0], "the receiver of "+ev.fn.Name())
			}
		}
	}
	for {
		x := c.explorer(rule)
		x.maxStates = 50000
		x.run(fn, nil, nil)
		var g *ssa.Function
		if x.overflow {
			g = pr.split(fn, x)
		}
		if g == nil {
			c.account(x, fn)
			break
		}
		// too much at once: this function is explored by itself, without what its caller knows
		pr.roots[g] = true
		own[g] = true
	}
	var list []*ssa.Function
	for g := range own {
		list = append(list, g)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	for _, g := range list {
		pr.explore(g, entered)
	}
}

// split gives a function called by fn to explore by itself: the one with the most branches.
func (pr *panicRun) split(fn *ssa.Function, x *Explorer) *ssa.Function {
	var best *ssa.Function
	size := 0
	for g := range x.inlined {
		if g == fn || pr.roots[g] || !pr.c.p.inModule(g) || g.Synthetic != "" {
			continue
		}
		n := 0
		for _, b := range g.Blocks {
			if len(b.Succs) > 1 {
				n++
			}
		}
		if n > size || n == size && best != nil && g.Pos() < best.Pos() {
			best, size = g, n
		}
	}
	return best
}

// partialMethods: methods of package reflect that only some kinds have.
var partialMethods = map[string][]string{
	"invoke reflect.Type.In":         {"Func"},
	"invoke reflect.Type.Out":        {"Func"},
	"invoke reflect.Type.NumIn":      {"Func"},
	"invoke reflect.Type.NumOut":     {"Func"},
	"invoke reflect.Type.IsVariadic": {"Func"},
	"invoke reflect.Type.Key":        {"Map"},
	"invoke reflect.Type.Len":        {"Array"},
	"invoke reflect.Type.Elem":       {"Array", "Chan", "Map", "Pointer", "Slice"},
	"invoke reflect.Type.ChanDir":    {"Chan"},
	"invoke reflect.Type.Field":      {"Struct"},
	"invoke reflect.Type.NumField":   {"Struct"},
	"(reflect.Value).Pointer":        {"Chan", "Func", "Map", "Pointer", "Slice", "String", "UnsafePointer"},
	"(reflect.Value).UnsafePointer":  {"Chan", "Func", "Map", "Pointer", "Slice", "String", "UnsafePointer"},
	"(reflect.Value).Elem":           {"Interface", "Pointer"},
	"(reflect.Value).IsNil":          {"Chan", "Func", "Interface", "Map", "Pointer", "Slice", "UnsafePointer"},
	"(reflect.Value).NumField":       {"Struct"},
	"(reflect.Value).Field":          {"Struct"},
	"(reflect.Value).Len":            {"Array", "Chan", "Map", "Slice", "String"},
	"(reflect.Value).Type":           nil, // any but Invalid
}

// indexMethods: methods that take an index below what another method returns.
var indexMethods = map[string]string{
	"(*go/types.Tuple).At":         "(*go/types.Tuple).Len",
	"(*go/types.MethodSet).At":     "(*go/types.MethodSet).Len",
	"(*go/types.Struct).Field":     "(*go/types.Struct).NumFields",
	"(*go/types.Struct).Tag":       "(*go/types.Struct).NumFields",
	"(*go/types.Interface).Method": "(*go/types.Interface).NumMethods",
	"(*go/types.Named).Method":     "(*go/types.Named).NumMethods",
	"invoke reflect.Type.In":       "invoke reflect.Type.NumIn",
	"invoke reflect.Type.Out":      "invoke reflect.Type.NumOut",
	"invoke reflect.Type.Field":    "invoke reflect.Type.NumField",
	"invoke reflect.Type.Method":   "invoke reflect.Type.NumMethod",
}

// partial checks the preconditions of functions of other packages.
func (pr *panicRun) partial(x *Explorer, st *State, ev *CallEvent, bound func(x *Explorer, st *State, ins ssa.Instruction, kind string, a, b *Term, d int64, what string), bad func(x *Explorer, st *State, ins ssa.Instruction, kind, what string)) {
	c := pr.c
	tt := x.tt
	if kinds, ok := partialMethods[ev.name]; ok {
		recv := ev.raw[0]
		kn := "invoke reflect.Type.Kind"
		if strings.HasPrefix(ev.name, "(reflect.Value)") {
			kn = "(reflect.Value).Kind"
		}
		pr.site(ev.ins, "calls of methods that only some kinds have")
		ok := false
		k := tt.pure(kn, recv)
		if kinds == nil {
			inv, _ := c.extConst("reflect", "Invalid")
			v, known := x.decide(st, tt.eq(k, tt.num(inv)))
			ok = known && !v
			if v := recv; !v.isPure("reflect.ValueOf") || nonNil(v.args[0]) || x.knownNonNil(st, v.args[0]) {
				ok = true
			}
		}
		for f, v := range st.facts {
			if f.op == OpBin && f.s == "==" && f.args[0] == k {
				if n, isInt := f.args[1].intVal(); isInt && v {
					for _, kind := range kinds {
						if m, _ := c.extConst("reflect", kind); m == n {
							ok = true
						}
					}
				}
			}
		}
		if !ok {
			bad(x, st, ev.ins, "kind", fmt.Sprintf("%s is called although its receiver may be of another kind", ev.name[strings.LastIndex(ev.name, ".")+1:]))
		}
	}
	if lim, ok := indexMethods[ev.name]; ok && len(ev.raw) > 1 {
		pr.site(ev.ins, "calls of methods with an index")
		i := ev.raw[1]
		what := ev.name[strings.LastIndex(ev.name, ".")+1:]
		bound(x, st, ev.ins, "accessor", tt.num(0), i, 0, fmt.Sprintf("the index given to %s may be negative", what))
		bound(x, st, ev.ins, "accessor", i, tt.pure(lim, ev.raw[0]), -1, fmt.Sprintf("the index given to %s may be too large", what))
	}
	switch ev.name {
	case "regexp.MustCompile":
		pr.site(ev.ins, "calls of Must functions of other packages")
		if s, ok := ev.raw[0].strVal(); !ok {
			bad(x, st, ev.ins, "must", "the regular expression is not constant")
		} else if _, err := regexp.Compile(s); err != nil {
			bad(x, st, ev.ins, "must", "the regular expression is not valid: "+err.Error())
		}
	case "text/template.Must":
		pr.site(ev.ins, "calls of Must functions of other packages")
		if !strings.HasPrefix(ev.ins.Parent().Name(), "init") {
			bad(x, st, ev.ins, "must", "template.Must panics if there is an error")
		}
	case "strings.Repeat", "bytes.Repeat":
		pr.site(ev.ins, "repetitions")
		// the nesting depth is never negative: C30
		if !natural(ev.raw[1]) {
			bound(x, st, ev.ins, "repeat", tt.num(0), ev.raw[1], 0, "a string may be repeated a negative number of times")
		}
	}
	if ev.fn != nil && strings.HasPrefix(ev.fn.Name(), "Must") && c.p.inModule(ev.fn) && !strings.HasPrefix(ev.ins.Parent().Name(), "Must") {
		bad(x, st, ev.ins, "must", ev.fn.Name()+" panics if there is an error")
	}
}

// natural tells whether an integer is a sum of counters and lengths.
func natural(t *Term) bool {
	if n, ok := t.intVal(); ok {
		return n >= 0
	}
	switch t.op {
	case OpConv:
		return natural(t.args[0])
	case OpBin:
		return (t.s == "+" || t.s == "*") && natural(t.args[0]) && natural(t.args[1])
	case OpLoad:
		a := t.args[0]
		return a.op == OpField && !isExportedField(a) && isModPath(fieldPkg(a))
	case OpCall:
		return strings.Contains(t.s, "sync/atomic")
	}
	return t.isPure("len")
}

func isExportedField(t *Term) bool { return token.IsExported(fieldName(t.typ, t.i)) }

func fieldPkg(t *Term) string {
	if n := named(deref(t.typ)); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// unsafeKey gives the type of a part of values of type t that may not be comparable, though t is.
func unsafeKey(t types.Type) string {
	switch types.TypeString(t, nil) {
	case "reflect.Type", "go/types.Type", "go/types.Object":
		return ""
	}
	if _, ok := t.(*types.TypeParam); ok {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return types.TypeString(t, nil)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := unsafeKey(u.Field(i).Type()); s != "" {
				return s
			}
		}
	case *types.Array:
		return unsafeKey(u.Elem())
	}
	return ""
}

// comparable tells whether the dynamic type of v is known, and its values can be compared.
func (x *Explorer) comparable(st *State, v *Term, s ssa.Value) bool {
	switch s := s.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return types.Comparable(s.X.Type()) && unsafeKey(s.X.Type()) == ""
	case *ssa.UnOp:
		if _, ok := s.X.(*ssa.Global); ok && isErrorType(s.Type()) {
			return true
		}
	}
	if x.knownNil(st, v) || v.op == OpAlloc {
		return true
	}
	for f, val := range st.facts {
		if f.op == OpIsType && val && f.args[0] == v && !types.IsInterface(f.typ) && types.Comparable(f.typ) && unsafeKey(f.typ) == "" {
			return true
		}
	}
	return false
}

// comparisons checks that no values of types that may not be comparable are used as keys of maps.
func (pr *panicRun) comparisons() {
	c := pr.c
	for _, f := range c.p.srcFns {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				in, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				t := in.Type()
				var key types.Type
				if m, ok := t.Underlying().(*types.Map); ok {
					key = m.Key()
				}
				if key == nil {
					continue
				}
				c.count("values that are maps", 1)
				if s := unsafeKey(key); s != "" {
					c.fail("key:"+fnName(f), "%s: values of type %s are keys of a map, which panics if their dynamic type is not comparable", c.p.instrPos(in.(ssa.Instruction)), s)
				}
			}
		}
	}
}

func (pr *panicRun) site(ins ssa.Instruction, what string) {
	if !pr.done[ins] {
		pr.done[ins] = true
		pr.c.count(what, 1)
	}
}

// nilUse checks that a value is not nil where that would be fatal.
func (pr *panicRun) nilUse(x *Explorer, st *State, ins ssa.Instruction, v *Term, how string) {
	if v == nil || nonNil(v) || x.knownNonNil(st, v) {
		return
	}
	pr.site(ins, "uses of pointers, functions, interfaces and maps from elsewhere")
	why := pr.mayBeNil(x, st, v)
	if why == "" {
		return
	}
	rep := func(st *State, why string) {
		x.report(st, ins.Pos(), "nil:"+fnName(ins.Parent())+":"+why, "%s may be nil (%s) and is %s", v, why, how)
	}
	if !strings.Contains(why, "?") {
		rep(st, why)
		return
	}
	// this depends on what is found elsewhere
	snap := st.clone()
	x.later(func() {
		pr.pending = append(pr.pending, func() {
			if w := pr.nils[why]; w != "" {
				rep(snap, w)
			}
		})
	})
}

// reach notes that a field, parameter or result may be nil for the given reason.
func (pr *panicRun) reach(to, why, how string) {
	if strings.Contains(why, "?") {
		pr.flows[why] = append(pr.flows[why], to)
	} else if pr.nils[to] == "" {
		pr.nils[to] = how + why
	}
}

// spread follows the flows.
func (pr *panicRun) spread() {
	for changed := true; changed; {
		changed = false
		for from, l := range pr.flows {
			for _, to := range l {
				if pr.nils[from] != "" && pr.nils[to] == "" {
					pr.nils[to] = pr.nils[from]
					changed = true
				}
			}
		}
	}
}

// mayBeNil gives a reason why a value may be nil. A reason with a question mark depends on something else.
func (pr *panicRun) mayBeNil(x *Explorer, st *State, v *Term) string {
	v = unconv(v)
	if x.knownNil(st, v) {
		return "it is nil here"
	}
	result := func(call *Term, i int) string {
		if ci, ok := call.ins.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && pr.c.p.inModule(g) {
				return fmt.Sprintf("result?%s#%d", fnName(g), i)
			}
		}
		return ""
	}
	switch v.op {
	case OpParam:
		for i, p := range x.params {
			if p == v && !token.IsExported(x.entry.Name()) {
				return fmt.Sprintf("param?%s#%d", fnName(x.entry), i)
			}
		}
	case OpExtract:
		call := v.args[0]
		ci, ok := call.ins.(ssa.CallInstruction)
		if !ok {
			return ""
		}
		sig := ci.Common().Signature()
		last := sig.Results().Len() - 1
		other := x.tt.extract(call, last)
		lt := sig.Results().At(last).Type()
		switch {
		case v.i == last:
		case isErrorType(lt):
			if !x.knownNil(st, other) {
				return "the operation that gives it may have failed"
			}
		case isBool(lt):
			if !x.knownTrue(st, other) {
				return "there may be none"
			}
		}
		return result(call, v.i)
	case OpCall, OpPure:
		if v.isPure("(*go/types.Scope).Lookup") && len(v.args) == 2 && v.args[1].op == OpLoad && v.args[1].args[0].op == OpIndex {
			if l := v.args[1].args[0].args[0]; l.isPure("(*go/types.Scope).Names") && l.args[0] == v.args[0] {
				return "" // a name in the scope
			}
		}
		if optionalResult(v.s) {
			return "a result of " + v.s
		}
		if v.op == OpCall {
			return result(v, 0)
		}
	case OpLoad:
		a := v.args[0]
		switch a.op {
		case OpMapElem:
			has := x.tt.mk(Term{op: OpLoad, args: append([]*Term{x.tt.mk(Term{op: OpMapHas, args: a.args})}, v.args[1:]...)})
			if x.knownTrue(st, has) {
				return ""
			}
			if k := a.args[1]; k.op == OpFresh && strings.HasPrefix(k.s, "key@") {
				return ""
			}
			return "the map may have no such entry"
		case OpField:
			if optionalField(a.typ, a.i) {
				return "the optional field " + fieldName(a.typ, a.i)
			}
			if n := named(deref(a.typ)); n != nil && n.Obj().Pkg() != nil && isModPath(n.Obj().Pkg().Path()) {
				if f := structOf(deref(a.typ)).Field(a.i); f.Exported() && n.Obj().Exported() {
					return "field " + f.Name() + ", which need not be set"
				}
				return "field?" + fieldID(a.typ, a.i)
			}
		}
	}
	return ""
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}
