package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sortedBy is the list that a call sorts in ascending order of its elements, or nil.
// A comparison of something else, such as a part of them, leaves the order of some elements open.
func sortedBy(ev *CallEvent) *Term {
	if len(ev.raw) == 0 {
		return nil
	}
	l := unbox(ev.raw[0])
	switch ev.name {
	case "sort.Strings", "slices.Sort", "golang.org/x/exp/slices.Sort":
	case "sort.Sort", "sort.Stable":
		if !strings.HasSuffix(typeKeyOf(ev, 0), "sort.StringSlice") {
			return nil
		}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
		if !ascending(funcOf(callArg(ev, 1)), strings.HasPrefix(ev.name, "sort.")) {
			return nil
		}
	default:
		return nil
	}
	for l.op == OpConv {
		l = l.args[0]
	}
	return l
}

// reorders tells whether a call changes the order of a list.
func reorders(ev *CallEvent) bool {
	return hasPrefixAny(ev.name, "sort.Strings", "sort.Slice", "sort.Sort", "sort.Stable", "slices.Sort", "slices.Reverse", "golang.org/x/exp/slices.Sort")
}

func callArg(ev *CallEvent, i int) ssa.Value {
	if c, ok := ev.ins.(ssa.CallInstruction); ok && i < len(c.Common().Args) {
		return c.Common().Args[i]
	}
	return nil
}

// typeKeyOf is the name of the static type of an argument before it was boxed.
func typeKeyOf(ev *CallEvent, i int) string {
	v := callArg(ev, i)
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if v == nil {
		return ""
	}
	return v.Type().String()
}

func funcOf(v ssa.Value) *ssa.Function {
	for {
		switch w := v.(type) {
		case *ssa.Function:
			return w
		case *ssa.MakeClosure:
			v = w.Fn
		case *ssa.ChangeType:
			v = w.X
		default:
			return nil
		}
	}
}

// ascending tells whether fn compares elements (by their indexes, or themselves) in their natural order.
func ascending(fn *ssa.Function, byIndex bool) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil && oneOf(o.String(), "cmp.Compare", "cmp.Less") || fn.String() == "strings.Compare" {
		return true
	}
	if len(fn.Blocks) != 1 || len(fn.Params) != 2 {
		return false
	}
	var idx func(v ssa.Value) int
	idx = func(v ssa.Value) int {
		switch v := v.(type) {
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL && byIndex {
				return idx(a.Index)
			}
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == v {
					return i
				}
			}
		}
		return -1
	}
	isElem := func(v ssa.Value) bool {
		_, ok := v.(*ssa.UnOp)
		return ok == byIndex
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	in := func(a, b ssa.Value) bool { return isElem(a) && isElem(b) && idx(a) == 0 && idx(b) == 1 }
	switch r := ret.Results[0].(type) {
	case *ssa.BinOp:
		switch r.Op {
		case token.LSS, token.LEQ:
			return in(r.X, r.Y)
		case token.GTR, token.GEQ:
			return in(r.Y, r.X)
		}
	case *ssa.Call:
		if f := funcOf(r.Call.Value); f != nil && len(r.Call.Args) == 2 && ascending(f, false) {
			return in(r.Call.Args[0], r.Call.Args[1])
		}
	}
	return false
}
