package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// debugRun prints the events of every path of a function: fabcheck debug PKG FUNC [stop,...]
func debugRun(p *Program, args []string) {
	c := newCheck(p, "debug")
	fn := p.fn(args[0], args[1])
	if fn == nil {
		fmt.Println("not found")
		return
	}
	stops := map[string]bool{}
	if len(args) > 2 {
		for _, s := range strings.Split(args[2], ",") {
			stops[s] = true
		}
	}
	rule := &Rule{
		keepArgs: allArgs,
		forget:   true,
		stop:     func(x *Explorer, name string, fn *ssa.Function) bool { return stops[name] },
		onCall: func(x *Explorer, st *State, ev *CallEvent) {
			var ss []string
			for _, a := range ev.args {
				ss = append(ss, a.String())
			}
			if n := os.Getenv("FABDUMP"); n != "" && ev.is(n) {
				fmt.Println("=== state")
				for f, v := range st.facts {
					fmt.Println("  FACT", v, f)
				}
				for f, v := range st.heap {
					fmt.Println("  HEAP", f, "=", v)
				}
			}
			st.note(ev.ins.Pos(), "CALL %s(%s) = %s", ev.name, strings.Join(ss, "; "), ev.res)
		},
		onStore: func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
			if !isLocalObj(objRoot(addr)) {
				st.note(ins.Pos(), "STORE %s = %s", addr, val)
			}
		},
		onMapSet: func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
			st.note(ins.Pos(), "MAPSET %s[%s] = %s", m, k, v)
		},
		onLoopExit: func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			st.note(0, "LOOP EXIT %s class %d exhausted=%v", l.name, l.class, from == l.loop.header)
		},
		onBackEdge: func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			st.note(0, "BACK EDGE %s class %d", l.name, l.class)
		},
		onExit: func(x *Explorer, st *State, res []*Term) {
			fmt.Println("--- path")
			for _, l := range x.trace(st, 500) {
				fmt.Println("   ", l)
			}
			for _, r := range res {
				fmt.Println("  RESULT", r)
			}
		},
	}
	x := c.explore(fn, rule, nil, nil)
	fmt.Fprintln(os.Stderr, "states", x.states, "exits", x.exits, "steps", x.steps, x.problem)
	for k, v := range c.viol {
		fmt.Println("VIOL", k, v.msg)
	}
}
