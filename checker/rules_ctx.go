package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Every With function is explored on an arbitrary context and value; on each resulting context (and path) every Get function is explored, and its result is compared, as a term, with the stored value (for the matching getter) or with what the same getter gives on the original context (for the others).", checkContext)
}

var ctxOptions = []string{"DryRun", "Force", "Verbose", "HashDB", "Args"}

// checkContext decides C23.
func checkContext(c *Check) {
	c.rule("for each option O and every path: GetO(WithO(ctx, v)) = v, and GetP(WithO(ctx, v)) = GetP(ctx) for the others")
	c.rule("GetO(context.Background()) is false or nil")
	c.rule("the With functions only derive a context with context.WithValue, under a key of a type of this module; they and the getters neither store anything nor call anything else")
	get := map[string]*ssa.Function{}
	with := map[string]*ssa.Function{}
	for _, o := range ctxOptions {
		get[o], with[o] = c.need("", "Get"+o), c.need("", "With"+o)
		if get[o] == nil || with[o] == nil {
			return
		}
		if len(get[o].Params) != 1 || len(with[o].Params) != 2 {
			c.undecided("anchor:"+o, "GetX(ctx) and WithX(ctx, value) are expected for %s", o)
			return
		}
	}
	rule := &Rule{realCtx: true}
	x := c.explorer(rule)
	shared := func(addr *Term) bool { return !isLocalObj(objRoot(addr)) }
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if shared(addr) {
			x.report(st, ins.Pos(), "ctx:store", "a context function stores to shared memory (%s)", addr)
		}
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if !isLocalObj(objRoot(m)) {
			x.report(st, ins.Pos(), "ctx:store", "a context function stores to a shared map (%s)", m)
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.name == "context.WithValue":
			k := ev.args[1]
			var kt types.Type
			if k.op == OpIface {
				kt = k.typ
			} else if k.op == OpLoad && k.args[0].op == OpGlobal {
				kt = deref(k.args[0].typ)
			}
			if kt != nil {
				if n := named(kt); n != nil && n.Obj().Pkg() != nil && isModPath(n.Obj().Pkg().Path()) {
					return
				}
				if _, ok := kt.Underlying().(*types.Pointer); ok {
					return
				}
			}
			x.report(st, ev.ins.Pos(), "ctx:key", "a context value is stored under a key (%s) that other packages can use, too", k)
		case strings.HasPrefix(ev.name, "invoke context.Context.Value"), strings.HasPrefix(ev.name, "context."), isPureName(ev.name):
		default:
			if effectful(ev) != "" {
				x.report(st, ev.ins.Pos(), "ctx:call", "a context function calls %s", ev.name)
			}
		}
	}
	type outcome struct {
		st  *State
		res *Term
	}
	run := func(st *State, fn *ssa.Function, args ...*Term) (out []outcome) {
		x.visited = map[string]bool{}
		x.entry = fn
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			n := st.clone()
			n.frames = nil
			out = append(out, outcome{n, res[0]})
		}
		n := st.clone()
		n.frames = nil
		x.exits = 0
		x.push(n, fn, nil, args, frCall, nil, nil)
		x.runFrom(n)
		c.account(x, fn)
		return
	}
	empty := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, ts: map[string]*Term{}, epoch: x.tt.mk(Term{op: OpParam, s: "epoch0"})}
	base := x.param("ctx", with["DryRun"].Params[0].Type())
	x.params = []*Term{base}
	same := func(st *State, a, b *Term) bool {
		return a == b || x.canon(st, a) == x.canon(st, b) || x.knownTrue(st, x.tt.eq(a, b)) || x.knownNil(st, a) && x.knownNil(st, b)
	}
	for _, o := range ctxOptions {
		v := x.param("value", with[o].Params[1].Type())
		for _, w := range run(empty, with[o], base, v) {
			if r := w.res; r != base && !r.contains(base) {
				x.report(w.st, with[o].Pos(), "ctx:derive:"+o, "With%s does not return a context derived from the given one", o)
			}
			for _, p := range ctxOptions {
				for _, g := range run(w.st, get[p], w.res) {
					c.count("pairs of With and Get paths", 1)
					if o == p {
						is := x.tt.mk(Term{op: OpIsType, typ: with[o].Params[1].Type(), args: []*Term{v}})
						if same(g.st, g.res, v) || types.IsInterface(v.typ) && g.res.isNil() && x.knownFalse(g.st, is) {
							continue
						}
						x.report(g.st, get[p].Pos(), "ctx:own:"+o, "Get%s does not return what With%s stored (it returns %s)", p, o, g.res)
						continue
					}
					for _, b := range run(g.st, get[p], base) {
						if !same(b.st, g.res, b.res) {
							x.report(b.st, get[p].Pos(), "ctx:other:"+o+":"+p, "With%s changes the result of Get%s", o, p)
						}
					}
				}
			}
		}
	}
	for _, p := range ctxOptions {
		z := x.zero(get[p].Signature.Results().At(0).Type())
		for _, g := range run(empty, get[p], x.tt.pure("context.Background")) {
			c.count("default paths", 1)
			if !same(g.st, g.res, z) {
				x.report(g.st, get[p].Pos(), "ctx:default:"+p, "Get%s gives %s without With%s", p, g.res, p)
			}
		}
	}
	c.atLeast("pairs of With and Get paths", len(ctxOptions)*len(ctxOptions))
	c.atLeast("default paths", len(ctxOptions))
}
