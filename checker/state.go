package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathNode is a linked list of decisions and events, for diagnostics only.
type pathNode struct {
	prev *pathNode
	pos  tokenPos
	note string
}

type deferRec struct {
	ins  *ssa.Defer
	ci   callee
	args []*Term
	key  string
}

// loopRec describes one active loop of a frame.
type loopRec struct {
	loop   *loopInfo
	name   string // unique name of the loop in its calling context
	class  int    // number of the concrete iteration, or -1 for the generic one
	entry  map[*ssa.Phi]*Term
	phi0   map[*ssa.Phi]*Term // values at the start of this iteration
	heap0  map[*Term]*Term    // memory at loop entry or at the start of the generic iteration
	heapE  map[*Term]*Term    // memory at loop entry
	wide   map[*Term]bool     // widened memory cells
	wphi   map[*ssa.Phi]bool
	notNN  map[string]bool // widened values that may be nil
	heldIn string

	// If the loop steps over a collection: the collection, the index or key of this iteration,
	// and whether every index so far was visited in order, from 0.
	coll, idx *Term
	inOrder   bool
	isMap     bool
}

const (
	frCall = iota
	frDefer
	frGo
	frCallback
)

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	block  *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []deferRec
	loops  []*loopRec
	mode   int
	call   ssa.Instruction                         // the instruction of the caller that made this activation
	held   []*Term                                 // locks held by the spawner, for frGo
	retKey ssa.Value                               // where the result goes
	resume func(x *Explorer, st *State)            // for frCallback: what to do afterwards
	ended  func(x *Explorer, st *State, err *Term) // for the callback of a walk: what to do if it fails
}

// State is an abstract state of the execution.
type State struct {
	frames []*Frame
	heap   map[*Term]*Term
	facts  map[*Term]bool
	held   []*Term
	epoch  *Term
	ts     map[string]*Term
	path   *pathNode
	gor    int // nesting depth of goroutine bodies
	dead   bool
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{epoch: st.epoch, path: st.path, gor: st.gor}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]deferRec(nil), f.defers...)
		nf.loops = make([]*loopRec, len(f.loops))
		for j, l := range f.loops {
			nl := *l
			nf.loops[j] = &nl // maps inside are replaced, never modified, once set
		}
		n.frames[i] = &nf
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.held = append([]*Term(nil), st.held...)
	n.ts = make(map[string]*Term, len(st.ts))
	for k, v := range st.ts {
		n.ts[k] = v
	}
	return n
}

func (st *State) note(pos tokenPos, format string, args ...any) {
	st.path = &pathNode{prev: st.path, pos: pos, note: fmt.Sprintf(format, args...)}
}

func (st *State) holds(lock *Term) bool {
	for _, h := range st.held {
		if h == lock {
			return true
		}
	}
	return false
}

// scope is the list of loop iterations the top frame is in.
func (st *State) scope() string {
	var ss []string
	for _, f := range st.frames {
		for _, l := range f.loops {
			c := "g"
			if l.class >= 0 {
				c = strconv.Itoa(l.class)
			}
			ss = append(ss, l.name+":"+c)
		}
	}
	return strings.Join(ss, ",")
}

// objRoot finds the object that an address belongs to.
func objRoot(a *Term) *Term {
	for {
		switch a.op {
		case OpField, OpMapElem, OpMapHas, OpMapVer, OpHavoc:
			a = a.args[0]
		case OpIndex:
			a = a.args[0]
		case OpArr, OpSub:
			a = a.args[0]
		default:
			return a
		}
	}
}

func isLocalObj(t *Term) bool { return t.op == OpAlloc || t.op == OpMake }

type blockIdx struct {
	b *ssa.BasicBlock
	i int
}

// --- static information on functions ---

type loopInfo struct {
	id     int
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	mods   []*ssa.Phi
}

type fnInfo struct {
	fn     *ssa.Function
	id     int
	valID  map[ssa.Value]int
	liveIn []map[ssa.Value]bool // after the phis
	liveO  []map[ssa.Value]bool
	loops  map[*ssa.BasicBlock]*loopInfo
	after  map[blockIdx]map[ssa.Value]bool
}

func (x *Explorer) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, id: len(x.fnInfos), valID: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, after: map[blockIdx]map[ssa.Value]bool{}}
	x.fnInfos[fn] = fi
	n := 0
	addv := func(v ssa.Value) { fi.valID[v] = n; n++ }
	for _, p := range fn.Params {
		addv(p)
	}
	for _, p := range fn.FreeVars {
		addv(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				addv(v)
			}
		}
	}
	tracked := func(v ssa.Value) bool { _, ok := fi.valID[v]; return ok }
	nb := len(fn.Blocks)
	fi.liveIn = make([]map[ssa.Value]bool, nb)
	fi.liveO = make([]map[ssa.Value]bool, nb)
	before := make([]map[ssa.Value]bool, nb) // live before the phis (without phi operands)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
		fi.liveO[i] = map[ssa.Value]bool{}
		before[i] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range before[s.Index] {
					out[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(ph.Edges[pi]) {
						out[ph.Edges[pi]] = true
					}
				}
			}
			// also operands of phis for multiple edges from the same block are covered by the last index only; edges are rarely doubled
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			j := len(b.Instrs) - 1
			for ; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && tracked(*o) {
						live[*o] = true
					}
				}
			}
			bef := map[ssa.Value]bool{}
			for v := range live {
				bef[v] = true
			}
			for ; j >= 0; j-- {
				if v, ok := b.Instrs[j].(ssa.Value); ok {
					delete(bef, v)
				}
			}
			if len(out) != len(fi.liveO[i]) || len(live) != len(fi.liveIn[i]) || len(bef) != len(before[i]) {
				changed = true
			}
			fi.liveO[i], fi.liveIn[i], before[i] = out, live, bef
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := fi.loops[s]
			if l == nil {
				l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				x.nLoops++
				l.id = x.nLoops
				fi.loops[s] = l
				for _, in := range s.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						l.mods = append(l.mods, ph)
					}
				}
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				q := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[q] {
					continue
				}
				l.body[q] = true
				stack = append(stack, q.Preds...)
			}
		}
	}
	return fi
}

// liveAfter is the set of values needed after the given instruction.
func (fi *fnInfo) liveAfter(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	k := blockIdx{b, i}
	if m, ok := fi.after[k]; ok {
		return m
	}
	live := map[ssa.Value]bool{}
	for v := range fi.liveO[b.Index] {
		live[v] = true
	}
	var ops []*ssa.Value
	for j := len(b.Instrs) - 1; j >= i; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				if _, ok := fi.valID[*o]; ok {
					live[*o] = true
				}
			}
		}
	}
	fi.after[k] = live
	return live
}

// gc drops what cannot be observed any more.
func (x *Explorer) gc(st *State) {
	reached := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reached[t] {
			return
		}
		reached[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for fi, f := range st.frames {
		inf := x.info(f.fn)
		var live map[ssa.Value]bool
		if fi == len(st.frames)-1 && f.idx == firstNonPhi(f.block) {
			live = inf.liveIn[f.block.Index]
		} else {
			live = inf.liveAfter(f.block, f.idx)
		}
		for v, t := range f.env {
			if !live[v] {
				delete(f.env, v)
				continue
			}
			mark(t)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mark(a)
			}
			mark(d.ci.clo)
			mark(d.ci.recv)
		}
		for _, t := range f.held {
			mark(t)
		}
		// what the lists of this loop consisted of is needed to tell what an iteration adds
		for _, l := range f.loops {
			for _, m := range []map[*ssa.Phi]*Term{l.entry, l.phi0} {
				for ph, t := range m {
					if _, ok := ph.Type().Underlying().(*types.Slice); ok {
						mark(t)
					}
				}
			}
		}
		// named results are read after the deferred functions have run
		if f.fn.Recover != nil {
			for _, in := range f.fn.Recover.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != nil {
						mark(f.env[*o])
					}
				}
			}
		}
	}
	for _, t := range st.held {
		mark(t)
	}
	mark(st.epoch)
	for _, t := range st.ts {
		mark(t)
	}
	kept := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for a, v := range st.heap {
			if kept[a] {
				continue
			}
			r := objRoot(a)
			if isLocalObj(r) && !reached[r] {
				continue
			}
			if !isLocalObj(r) && r.op != OpGlobal && r.op != OpParam && len(r.leaves) > 0 {
				ok := true
				for _, l := range r.leaves {
					if !reached[l] {
						ok = false
					}
				}
				if !ok {
					continue
				}
			}
			kept[a] = true
			changed = true
			mark(v)
			mark(a)
		}
	}
	for a := range st.heap {
		if !kept[a] {
			delete(st.heap, a)
		}
	}
	for f := range st.facts {
		for _, l := range f.leaves {
			if !reached[l] {
				delete(st.facts, f)
				break
			}
		}
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Explorer) stateKey(st *State) string {
	var b strings.Builder
	w := func(n int) {
		b.WriteString(strconv.Itoa(n))
		b.WriteByte(' ')
	}
	for _, f := range st.frames {
		inf := x.info(f.fn)
		b.WriteByte('F')
		w(inf.id)
		b.WriteString(f.ctx)
		b.WriteByte(' ')
		w(f.block.Index)
		w(f.idx)
		w(f.mode)
		vs := make([]int, 0, len(f.env))
		m := make(map[int]*Term, len(f.env))
		for v, t := range f.env {
			id := inf.valID[v]
			vs = append(vs, id)
			m[id] = t
		}
		sort.Ints(vs)
		for _, id := range vs {
			w(id)
			w(int(m[id].id))
		}
		for _, d := range f.defers {
			b.WriteByte('D')
			b.WriteString(d.key)
		}
		for _, l := range f.loops {
			b.WriteByte('L')
			b.WriteString(l.name)
			w(l.class)
			ids := make([]int, 0, len(l.wide))
			for a := range l.wide {
				ids = append(ids, int(a.id))
			}
			sort.Ints(ids)
			for _, id := range ids {
				w(id)
			}
		}
	}
	b.WriteByte('H')
	writeMap := func(m map[*Term]*Term) {
		ids := make([]int, 0, len(m))
		byID := make(map[int]*Term, len(m))
		for a, v := range m {
			ids = append(ids, int(a.id))
			byID[int(a.id)] = v
		}
		sort.Ints(ids)
		for _, id := range ids {
			w(id)
			w(int(byID[id].id))
		}
	}
	writeMap(st.heap)
	b.WriteByte('K')
	ids := make([]int, 0, len(st.facts))
	for t, v := range st.facts {
		id := int(t.id) * 2
		if v {
			id++
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		w(id)
	}
	b.WriteByte('M')
	for _, h := range st.held {
		w(int(h.id))
	}
	if st.epoch != nil {
		w(int(st.epoch.id))
	}
	b.WriteByte('T')
	keys := make([]string, 0, len(st.ts))
	for k := range st.ts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b.WriteString(k)
		b.WriteByte('=')
		w(int(st.ts[k].id))
	}
	w(st.gor)
	return b.String()
}
