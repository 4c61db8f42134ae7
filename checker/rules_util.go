package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func oneOf(s string, list ...string) bool {
	for _, l := range list {
		if s == l {
			return true
		}
	}
	return false
}

func (ev *CallEvent) is(names ...string) bool { return oneOf(ev.name, names...) }

// stopAt makes the exploration treat the named functions as opaque.
func stopAt(names ...string) func(x *Explorer, name string, fn *ssa.Function) bool {
	return func(x *Explorer, name string, fn *ssa.Function) bool { return oneOf(name, names...) }
}

// stopModule treats all named functions of the module as opaque.
func stopModule(x *Explorer, name string, fn *ssa.Function) bool {
	return fn.Parent() == nil && isModPath(fnPkgPath(fn))
}

// last is the last of the results, or nil.
func last(res []*Term) *Term {
	if len(res) == 0 {
		return nil
	}
	return res[len(res)-1]
}

// assumeNil restricts the state to the case that e is nil; false if that is impossible.
func (x *Explorer) assumeNil(st *State, e *Term) bool {
	if e == nil || e.isNil() {
		return true
	}
	if x.knownNonNil(st, e) {
		return false
	}
	switch e.op {
	case OpWrap:
		return x.assumeNil(st, e.args[0])
	case OpJoin:
		if s := e.args[0]; s.op == OpSeq {
			for _, p := range s.args[1:] {
				if p.op == OpElem && !x.assumeNil(st, p.args[0]) {
					return false
				}
			}
		}
	}
	c := x.tt.eq(e, x.tt.null())
	if v, ok := c.boolVal(); ok {
		return v
	}
	x.assume(st, c, true)
	return true
}

// succeeds restricts the state to the case that the function returns no error; false if it certainly returns one.
func (x *Explorer) succeeds(st *State, res []*Term) bool {
	e := last(res)
	return x.assumeNil(st, e)
}

// parts of a list value: elements, and lists that are spread into it.
func listOf(t *Term) (elems, spreads []*Term) {
	switch t.op {
	case OpSeq:
		for _, p := range t.args[1:] {
			if p.op == OpElem {
				elems = append(elems, p.args[0])
			} else {
				spreads = append(spreads, p.args[0])
			}
		}
	case OpNil:
	default:
		spreads = append(spreads, t)
	}
	return
}

// fieldIndex finds a field by name.
func fieldIndex(t types.Type, name string) int {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldAddr is the address of a field of the struct that p points to.
func (x *Explorer) fieldAddr(p *Term, t types.Type, name string) *Term {
	i := fieldIndex(t, name)
	if i < 0 {
		return nil
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	return x.tt.field(p, i, t)
}

// isLoadOf tells whether t is the contents of address a, at whatever time.
func isLoadOf(t, a *Term) bool {
	return t != nil && a != nil && t.op == OpLoad && t.args[0] == a
}

// isFieldOf tells whether t is the value of the named field of *p.
func isFieldOf(t *Term, p *Term, name string) bool {
	if t == nil || t.op != OpLoad {
		return false
	}
	a := t.args[0]
	return a.op == OpField && a.args[0] == p && fieldName(a.typ, a.i) == name
}

// exhausted tells whether leaving loop l by the edge from->to means that the loop condition became false.
func exhausted(l *loopRec, from *ssa.BasicBlock) bool { return from == l.loop.header }

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// recvType is the type of the receiver of a method.
func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// later registers an obligation to be checked when the exploration is complete.
func (x *Explorer) later(f func()) { x.after = append(x.after, f) }

func tsKeys(st *State, prefix string) []string {
	var ks []string
	for k := range st.ts {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	return ks
}

func tsClear(st *State, prefix string) {
	for k := range st.ts {
		if strings.HasPrefix(k, prefix) {
			delete(st.ts, k)
		}
	}
}

func flag(x *Explorer) *Term { return x.tt.boolean(true) }
