package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// inputKey is a parameter or a captured variable of a function.
type inputKey struct {
	fn   *ssa.Function
	i    int
	free bool
}

// writesTo tells whether a function may write to memory that it reaches from its parameter i,
// itself or in the functions it hands it to.
func (p *Program) writesTo(fn *ssa.Function, i int) bool {
	k := inputKey{fn: fn, i: i}
	if w, ok := p.writes[k]; ok {
		return w
	}
	if p.writes == nil {
		p.writes = map[inputKey]bool{}
	}
	seen := map[inputKey]bool{k: true}
	work := []inputKey{k}
	r := false
	for len(work) > 0 && !r {
		n := work[0]
		work = work[1:]
		w, next := p.directWrites(n)
		r = r || w
		for _, m := range next {
			if !seen[m] {
				seen[m] = true
				work = append(work, m)
			}
		}
	}
	p.writes[k] = r
	return r
}

// refersToMemory tells whether values of a type can lead to memory that others see.
func refersToMemory(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if refersToMemory(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if refersToMemory(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// directWrites tells whether a function writes to what it reaches from an input, and where else that goes.
func (p *Program) directWrites(k inputKey) (writes bool, next []inputKey) {
	var in ssa.Value
	switch {
	case k.free && k.i < len(k.fn.FreeVars):
		in = k.fn.FreeVars[k.i]
	case !k.free && k.i < len(k.fn.Params):
		in = k.fn.Params[k.i]
	default:
		return true, nil
	}
	reach := map[ssa.Value]bool{}   // values that lead to the memory
	holders := map[ssa.Value]bool{} // addresses of local variables with such values
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !reach[v] && refersToMemory(v.Type()) {
			reach[v] = true
			work = append(work, v)
		}
	}
	hold := func(v ssa.Value) {
		if !holders[v] {
			holders[v] = true
			work = append(work, v)
		}
	}
	add(in)
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if holders[v] && !reach[v] {
				switch r := r.(type) {
				case *ssa.UnOp:
					add(r)
				case *ssa.FieldAddr:
					hold(r)
				case *ssa.IndexAddr:
					hold(r)
				case *ssa.Slice:
					add(r)
				case *ssa.MakeClosure:
					for i, b := range r.Bindings {
						if b == v {
							next = append(next, inputKey{fn: r.Fn.(*ssa.Function), i: i, free: true})
						}
					}
				}
				continue
			}
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					writes = true
				} else if a := localRoot(r.Addr); a != nil {
					hold(a)
				}
			case *ssa.MapUpdate:
				if r.Map == v {
					writes = true
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						next = append(next, inputKey{fn: r.Fn.(*ssa.Function), i: i, free: true})
					}
				}
			case ssa.CallInstruction:
				cc := r.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy", "delete", "clear":
						writes = writes || cc.Args[0] == v
					case "append":
						add(r.(*ssa.Call))
					}
					continue
				}
				args := cc.Args
				if cc.IsInvoke() {
					if !isNonWriter("invoke " + typeKey(cc.Value.Type()) + "." + cc.Method.Name()) {
						for _, a := range args {
							writes = writes || a == v
						}
					}
				} else {
					g := cc.StaticCallee()
					for i, a := range args {
						if a != v {
							continue
						}
						switch {
						case g == nil:
							writes = true
						case g.Blocks != nil && (p.inModule(g) || p.inModule(r.Parent()) && g.Origin() != nil):
							next = append(next, inputKey{fn: g, i: i})
						case callsWithIndexes(fnName(g)), oneOf(fnName(g), "sort.Strings", "sort.Sort", "sort.Stable", "slices.Sort", "slices.Reverse", "slices.SortFunc"), !isNonWriter(fnName(g)):
							writes = true
						}
					}
				}
				if c, ok := r.(*ssa.Call); ok {
					add(c)
				}
			case ssa.Value:
				add(r)
			}
		}
	}
	return writes, next
}

// localRoot is the local variable that an address belongs to.
func localRoot(a ssa.Value) ssa.Value {
	for {
		switch v := a.(type) {
		case *ssa.Alloc:
			return v
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		default:
			return nil
		}
	}
}
