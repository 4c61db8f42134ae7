package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee is a resolved call target.
type callee struct {
	name string        // canonical name
	fn   *ssa.Function // nil if unknown
	clo  *Term         // closure providing the free variables of fn
	recv *Term         // receiver of an interface method call that could not be resolved
	bi   *ssa.Builtin
	sig  *types.Signature
}

// CallEvent is a call that is not followed into its callee.
type CallEvent struct {
	callee
	args      []*Term // receiver first; slices given literally are expanded
	raw       []*Term
	res       *Term
	ins       ssa.Instruction
	kind      int // frCall, frDefer, frGo
	recursive bool
}

func (ev *CallEvent) arg(i int) *Term {
	if i < len(ev.args) {
		return ev.args[i]
	}
	return nil
}

// errResult is the last result of the call if that is an error.
func (ev *CallEvent) errResult(x *Explorer) *Term { return x.errOf(ev.res, ev.sig) }

func (x *Explorer) errOf(res *Term, sig *types.Signature) *Term {
	if sig == nil || res == nil {
		return nil
	}
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	if n == 1 {
		return res
	}
	return x.tt.extract(res, n-1)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Rule is a set of hooks into the exploration.
type Rule struct {
	stop       func(x *Explorer, name string, fn *ssa.Function) bool
	model      func(x *Explorer, st *State, ev *CallEvent) (*Term, bool)
	onCall     func(x *Explorer, st *State, ev *CallEvent)
	onEnter    func(x *Explorer, st *State, fn *ssa.Function, args []*Term)
	onLeave    func(x *Explorer, st *State, fn *ssa.Function, res []*Term)
	onExit     func(x *Explorer, st *State, res []*Term)
	onStore    func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction)
	onLoad     func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction)
	onMapSet   func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction)
	onMapGet   func(x *Explorer, st *State, m, k *Term, ins ssa.Instruction)
	onMapUse   func(x *Explorer, st *State, m *Term, ins ssa.Instruction) // range, len
	onBackEdge func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term)
	onWiden    func(x *Explorer, st *State, l *loopRec, from, to *Term)
	onLoopExit func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock)
	onBranch   func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If)
	onPanic    func(x *Explorer, st *State, ins ssa.Instruction)
	onUse      func(x *Explorer, st *State, ins ssa.Instruction, v *Term, what string)
	realCtx    bool // do not treat the context accessors of package fab as primitives
	epochs     bool
	zones      bool                   // record what bounds loop variables
	carry      bool                   // what is known about a value (facts and ts) is known about the loop variable that takes it; ts entries about finished iterations are dropped
	forget     bool                   // forget what is known about the elements of a list after a loop over all of them
	keepArgs   func(name string) bool // calls whose results are terms over their arguments
}

// Explorer computes the abstract states of a function and everything it calls.
type Explorer struct {
	p       *Program
	tt      *termTable
	rule    *Rule
	fnInfos map[*ssa.Function]*fnInfo
	nLoops  int
	insID   map[ssa.Instruction]int
	ctxIDs  map[string]int
	visited map[string]bool
	work    []*State
	fresh   int

	states, steps, exits int
	inlined              map[*ssa.Function]bool
	maxStates            int
	overflow             bool // given up for having more states than that
	problem              string
	problemPos           tokenPos
	side                 map[*Term][]*Term // values widened into a loop value
	report               func(st *State, pos tokenPos, key, format string, args ...any)
	entry                *ssa.Function
	params               []*Term
	counts               map[string]int
	after                []func()
	comps                map[*Term][]*compRec
	backs                map[string][]backRec
	rowsOf               map[string][]rowRec // see zone.rows
	keyTerms             map[string][]*Term  // the keys of iterations over maps, by loop
	widened              map[*Term]bool
}

func newExplorer(p *Program, rule *Rule) *Explorer {
	return &Explorer{p: p, tt: newTermTable(), rule: rule, fnInfos: map[*ssa.Function]*fnInfo{}, insID: map[ssa.Instruction]int{},
		ctxIDs: map[string]int{}, inlined: map[*ssa.Function]bool{}, maxStates: 200000, side: map[*Term][]*Term{}, counts: map[string]int{}, comps: map[*Term][]*compRec{}, backs: map[string][]backRec{}, rowsOf: map[string][]rowRec{}, keyTerms: map[string][]*Term{}}
}

func (x *Explorer) id(in ssa.Instruction) int {
	if n, ok := x.insID[in]; ok {
		return n
	}
	n := len(x.insID) + 1
	x.insID[in] = n
	return n
}

func (x *Explorer) giveUp(pos tokenPos, format string, args ...any) {
	if x.problem == "" {
		x.problem = fmt.Sprintf(format, args...)
		x.problemPos = pos
	}
	x.work = nil
}

// param makes a symbolic parameter.
func (x *Explorer) param(name string, t types.Type) *Term {
	pt := x.tt.mk(Term{op: OpParam, s: name, typ: t})
	return pt
}

// run explores fn from an arbitrary state. If args is nil, the parameters are arbitrary.
func (x *Explorer) run(fn *ssa.Function, args []*Term, init func(st *State)) {
	x.entry = fn
	x.visited = map[string]bool{}
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, x.param(p.Name(), p.Type()))
		}
	}
	x.params = args
	st := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, ts: map[string]*Term{}, epoch: x.tt.mk(Term{op: OpParam, s: "epoch0"})}
	if init != nil {
		init(st)
	}
	x.push(st, fn, nil, args, frCall, nil, nil)
	x.runFrom(st)
}

// runFrom explores everything that can happen from a state.
func (x *Explorer) runFrom(st *State) {
	x.work = append(x.work, st)
	for len(x.work) > 0 && x.problem == "" {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runState(st)
		if x.states > x.maxStates {
			x.overflow = true
			x.giveUp(x.entry.Pos(), "more than %d abstract states", x.maxStates)
		}
	}
	for _, f := range x.after {
		f()
	}
	x.after = nil
}

func (x *Explorer) push(st *State, fn *ssa.Function, clo *Term, args []*Term, mode int, call ssa.Instruction, ret ssa.Value) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], mode: mode, call: call, retKey: ret}
	if len(st.frames) > 0 {
		top := st.top()
		k := top.ctx + "/" + strconv.Itoa(x.id(call)) + loopTag(top)
		id, ok := x.ctxIDs[k]
		if !ok {
			id = len(x.ctxIDs) + 1
			x.ctxIDs[k] = id
		}
		f.ctx = "c" + strconv.Itoa(id)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	if clo != nil && clo.op == OpClosure {
		for i, fv := range fn.FreeVars {
			f.env[fv] = clo.args[i]
		}
	} else {
		for _, fv := range fn.FreeVars {
			f.env[fv] = x.param("free."+fv.Name(), fv.Type())
		}
	}
	if mode == frGo {
		f.held = st.held
		st.held = nil
		st.gor++
	}
	st.frames = append(st.frames, f)
	x.inlined[fn] = true
	if x.rule.onEnter != nil {
		x.rule.onEnter(x, st, fn, args)
	}
	return f
}

func loopTag(f *Frame) string {
	s := ""
	for _, l := range f.loops {
		c := "g"
		if l.class >= 0 {
			c = strconv.Itoa(l.class)
		}
		s += "." + strconv.Itoa(l.loop.id) + ":" + c
	}
	return s
}

// site names the current execution of an instruction.
func (x *Explorer) site(st *State, in ssa.Instruction) string {
	f := st.top()
	return f.ctx + "#" + strconv.Itoa(x.id(in)) + loopTag(f)
}

func (x *Explorer) leaf(st *State, op Op, name string, in ssa.Instruction, args ...*Term) *Term {
	return x.tt.mk(Term{op: op, s: name + "@" + x.site(st, in), ins: in, args: args, own: st.scope()})
}

func (x *Explorer) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.zero(v.Type())
		}
		return x.tt.constant(normConst(v.Value, v.Type()))
	case *ssa.Global:
		return x.tt.mk(Term{op: OpGlobal, glob: v, typ: v.Type()})
	case *ssa.Function:
		return x.tt.mk(Term{op: OpFunc, fn: v})
	case *ssa.Builtin:
		return x.tt.mk(Term{op: OpBuiltin, s: v.Name()})
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return x.param(p.Name(), p.Type())
	}
	// A value that was not computed on this path; cannot happen in well-formed SSA.
	return x.tt.mk(Term{op: OpTop, s: "undef:" + v.Name()})
}

func normConst(v constant.Value, t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return constant.ToInt(v)
	}
	return v
}

func (x *Explorer) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.tt.boolean(false)
		case u.Info()&types.IsString != 0:
			return x.tt.str("")
		case u.Info()&types.IsInteger != 0:
			return x.tt.num(0)
		case u.Info()&types.IsNumeric != 0:
			return x.tt.constant(constant.MakeFloat64(0))
		}
		return x.tt.null()
	case *types.Struct:
		if u.NumFields() > 0 {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = x.zero(u.Field(i).Type())
			}
			return x.tt.mk(Term{op: OpStruct, typ: t, args: args})
		}
		return x.tt.mk(Term{op: OpStruct, typ: t})
	case *types.Array:
		return x.tt.mk(Term{op: OpZero, typ: t})
	case *types.Tuple:
		var args []*Term
		for i := 0; i < u.Len(); i++ {
			args = append(args, x.zero(u.At(i).Type()))
		}
		return x.tt.mk(Term{op: OpTuple, args: args})
	}
	return x.tt.null()
}

// --- memory ---

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (st *State) cellsUnder(addr *Term) bool {
	for a := range st.heap {
		for b := a; ; {
			if b == addr {
				return true
			}
			switch b.op {
			case OpField, OpIndex:
				b = b.args[0]
				continue
			}
			break
		}
	}
	return false
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (x *Explorer) load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	root := objRoot(addr)
	if s := structOf(typ); s != nil {
		if s.NumFields() == 0 {
			return x.zero(typ)
		}
		if isLocalObj(root) || st.cellsUnder(addr) {
			args := make([]*Term, s.NumFields())
			same := true
			for i := range args {
				fa := x.tt.field(addr, i, ptrTo(typ))
				args[i] = x.load(st, fa, s.Field(i).Type())
				if args[i].op != OpLoad || args[i].args[0] != fa {
					same = false
				}
			}
			if same {
				vs := args[0].args[1:]
				for _, a := range args {
					if len(a.args) != 1+len(vs) || (len(vs) > 0 && a.args[1] != vs[0]) {
						same = false
					}
				}
				if same {
					return x.tt.mk(Term{op: OpLoad, args: append([]*Term{addr}, vs...)})
				}
			}
			return x.tt.mk(Term{op: OpStruct, typ: typ, args: args})
		}
	}
	// element of a list built by append
	if addr.op == OpIndex {
		if v := x.seqElem(st, addr.args[0], addr.args[1]); v != nil {
			return v
		}
		if s := copied(addr.args[0]); s != addr.args[0] && st.havocOf(x, root) == nil {
			return x.load(st, x.indexAddr(st, s, addr.args[1]), typ)
		}
	}
	if isLocalObj(root) {
		if h := st.havocOf(x, root); h != nil {
			return x.tt.mk(Term{op: OpLoad, args: []*Term{addr, h}})
		}
		if root.op == OpMake && strings.HasPrefix(root.s, "map") {
			return x.tt.mk(Term{op: OpLoad, args: []*Term{addr}})
		}
		return x.zero(typ)
	}
	if v := x.version(st, addr); v != nil {
		return x.tt.mk(Term{op: OpLoad, args: []*Term{addr, v}})
	}
	return x.tt.mk(Term{op: OpLoad, args: []*Term{addr}})
}

func (st *State) havocOf(x *Explorer, root *Term) *Term {
	return st.heap[x.tt.mk(Term{op: OpHavoc, args: []*Term{root}})]
}

func (x *Explorer) setHavoc(st *State, root, ver *Term) {
	for a := range st.heap {
		if a != root && objRoot(a) == root {
			delete(st.heap, a)
		}
	}
	delete(st.heap, root)
	st.heap[x.tt.mk(Term{op: OpHavoc, args: []*Term{root}})] = ver
}

// version is what the contents of a shared location depend on, apart from its address.
func (x *Explorer) version(st *State, addr *Term) *Term {
	mut := false
	for a := addr; ; a = a.args[0] {
		switch a.op {
		case OpField:
			if x.p.mutable[a.s] {
				mut = true
			}
			continue
		case OpIndex, OpArr, OpSub:
			continue
		case OpMapElem, OpMapHas:
			mut = true
			continue
		case OpGlobal:
			if x.p.mutable[a.glob.String()] {
				mut = true
			}
		case OpAlloc, OpMake:
			mut = true
		case OpCall:
			if privateResult(a) {
				return nil
			}
		}
		break
	}
	if !mut {
		return nil
	}
	return st.epoch
}

// privateResult tells whether t is a new object made by a call, of a type that only code it is passed to changes.
func privateResult(t *Term) bool {
	return t.op == OpCall && (strings.HasPrefix(t.s, "os/exec.CommandContext@") || strings.HasPrefix(t.s, "os/exec.Command@"))
}

// sameAliasClass tells whether two addresses may be the same location, given that they are different terms.
func mayAlias(a, b *Term) bool {
	if a.op != b.op {
		return false
	}
	switch a.op {
	case OpField:
		if a.s != b.s || a.i != b.i {
			return false
		}
		return baseMayAlias(a.args[0], b.args[0])
	case OpIndex:
		if a.args[0] == b.args[0] {
			return !(a.args[1].op == OpConst && b.args[1].op == OpConst) && !distinctIndex(a.args[1], b.args[1])
		}
		return false
	case OpMapElem, OpMapHas:
		if a.args[0] == b.args[0] {
			return !(a.args[1].op == OpConst && b.args[1].op == OpConst)
		}
		return false
	}
	return false
}

// distinctIndex recognizes i and i+c.
func distinctIndex(a, b *Term) bool {
	base := func(t *Term) (*Term, int64) {
		if t.op == OpBin && t.s == "+" {
			if n, ok := t.args[1].intVal(); ok {
				return t.args[0], n
			}
		}
		return t, 0
	}
	x, n := base(a)
	y, m := base(b)
	return x == y && n != m
}

func baseMayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if isLocalObj(objRoot(a)) || isLocalObj(objRoot(b)) {
		return false
	}
	if a.op == OpGlobal || b.op == OpGlobal || a.op == OpField || b.op == OpField {
		return a.op == b.op && mayAlias(a, b)
	}
	return true
}

func (x *Explorer) store(st *State, addr *Term, typ types.Type, v *Term, in ssa.Instruction) {
	if s := structOf(typ); s != nil && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, x.tt.field(addr, i, ptrTo(typ)), s.Field(i).Type(), x.fieldOf(v, i, typ), in)
		}
		return
	}
	if _, isArr := typ.Underlying().(*types.Array); isArr {
		for a := range st.heap {
			if a.op == OpIndex && a.args[0] == addr {
				delete(st.heap, a)
			}
		}
		if v.op == OpZero {
			return
		}
	}
	for a := range st.heap {
		if a != addr && mayAlias(a, addr) {
			delete(st.heap, a)
		}
	}
	if addr.op == OpIndex && addr.args[1].op != OpConst {
		if r := objRoot(addr); isLocalObj(r) {
			h := x.tt.mk(Term{op: OpHavoc, args: []*Term{r}})
			if _, ok := st.heap[h]; !ok {
				st.heap[h] = x.leaf(st, OpTop, "elems", in)
			}
		}
	}
	st.heap[addr] = v
}

// fieldOf is field i of a struct value.
func (x *Explorer) fieldOf(v *Term, i int, typ types.Type) *Term {
	switch v.op {
	case OpStruct:
		if i < len(v.args) {
			return v.args[i]
		}
	case OpLoad:
		fa := x.tt.field(v.args[0], i, ptrTo(typ))
		return x.tt.mk(Term{op: OpLoad, args: append([]*Term{fa}, v.args[1:]...)})
	}
	return x.tt.mk(Term{op: OpFieldV, i: i, typ: typ, args: []*Term{v}})
}

// --- slices ---

// parts describes the elements of a slice value, as far as known.
func (x *Explorer) parts(st *State, s *Term) []*Term {
	switch s.op {
	case OpNil:
		return nil
	case OpSeq:
		return s.args[1:]
	case OpArr:
		lo, ok1 := s.args[1].intVal()
		hi, ok2 := s.args[2].intVal()
		if v, ok := st.heap[s.args[0]]; ok && ok1 && ok2 && lo == 0 && v.op != OpZero {
			if pt, ok := s.args[0].typ.(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == hi {
					return []*Term{x.tt.spread(v)}
				}
			}
			break
		}
		if ok1 && ok2 && hi-lo <= 64 && s.typ != nil && st.havocOf(x, objRoot(s)) == nil {
			var ps []*Term
			for i := lo; i < hi; i++ {
				ps = append(ps, x.tt.elem(x.load(st, x.tt.mk(Term{op: OpIndex, args: []*Term{s.args[0], x.tt.num(i)}}), s.typ)))
			}
			return ps
		}
	case OpMake:
		if len(s.args) > 0 && s.typ != nil {
			if h := st.havocOf(x, s); h != nil {
				if h.isPure("copyof") {
					return x.parts(st, h.args[0])
				}
			} else if n, ok := s.args[0].intVal(); ok && n <= 64 {
				var ps []*Term
				for i := int64(0); i < n; i++ {
					ps = append(ps, x.tt.elem(x.load(st, x.tt.mk(Term{op: OpIndex, args: []*Term{s, x.tt.num(i)}}), s.typ)))
				}
				return ps
			}
		}
	case OpConv:
		if s.args[0].op == OpConst {
			break
		}
	}
	return []*Term{x.tt.spread(s)}
}

// canon gives a slice value by its elements rather than by its storage.
func (x *Explorer) canon(st *State, s *Term) *Term {
	switch s.op {
	case OpArr, OpMake:
		if s.op == OpMake && (len(s.args) == 0 || strings.HasPrefix(s.s, "map") || strings.HasPrefix(s.s, "chan")) {
			return s
		}
		ps := x.parts(st, s)
		if len(ps) == 1 && ps[0].op == OpSpread {
			return ps[0].args[0]
		}
		return x.tt.seq(nil, ps)
	case OpSeq:
		if len(s.args) == 2 && s.args[1].op == OpSpread {
			return s.args[1].args[0]
		}
		if s.args[0].op != OpNil {
			return x.tt.seq(nil, s.args[1:])
		}
	}
	return s
}

func (x *Explorer) seqElem(st *State, s, idx *Term) *Term {
	n, ok := idx.intVal()
	if !ok {
		return nil
	}
	if s.op == OpSeq {
		for i, p := range s.args[1:] {
			if p.op != OpElem {
				return nil
			}
			if int64(i) == n {
				return p.args[0]
			}
		}
	}
	return nil
}

// copied is the list that s is a copy of, or s.
func copied(s *Term) *Term {
	for s.op == OpSeq && len(s.args) == 2 && s.args[1].op == OpSpread {
		s = s.args[1].args[0]
	}
	return s
}

func (x *Explorer) appendTo(st *State, s, more *Term, isStr bool) *Term {
	var ps []*Term
	if isStr {
		ps = []*Term{x.tt.spread(more)}
	} else {
		ps = x.parts(st, more)
	}
	base := x.parts(st, s)
	share := s
	if s.op == OpSeq {
		share = s.args[0]
	}
	if len(base) == 0 && s.op != OpMake && s.op != OpSub && (s.op != OpSeq || s.args[0].op == OpNil) {
		share = nil
	}
	if len(ps) == 0 {
		return s
	}
	return x.tt.seq(share, append(append([]*Term(nil), base...), ps...))
}

func (x *Explorer) indexAddr(st *State, s, i *Term) *Term {
	switch s.op {
	case OpArr:
		return x.tt.mk(Term{op: OpIndex, args: []*Term{s.args[0], x.tt.bin(token.ADD, i, s.args[1], nil)}})
	case OpSub:
		return x.indexAddr(st, s.args[0], x.tt.bin(token.ADD, i, s.args[1], nil))
	}
	return x.tt.mk(Term{op: OpIndex, args: []*Term{s, i}})
}

func (x *Explorer) slice(st *State, s *Term, typ types.Type, lo, hi, max *Term) *Term {
	tt := x.tt
	if lo == nil {
		lo = tt.num(0)
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = tt.num(arr.Len())
		}
		return tt.mk(Term{op: OpArr, typ: arr.Elem(), args: []*Term{s, lo, hi}})
	}
	if isStringish(typ) {
		if hi == nil {
			if lo.isInt(0) {
				return s
			}
			hi = tt.length(s)
		}
		if v, ok := s.strVal(); ok {
			a, ok1 := lo.intVal()
			b, ok2 := hi.intVal()
			if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(v)) {
				return tt.str(v[a:b])
			}
		}
		return tt.pure("substr", s, lo, hi)
	}
	n := tt.length(s)
	if hi == nil {
		hi = n
	}
	if lo.isInt(0) && hi == n {
		if max != nil {
			return tt.seq(nil, x.parts(st, s))
		}
		return s
	}
	if s.op == OpNil {
		return s
	}
	if s.op == OpArr {
		return tt.mk(Term{op: OpArr, typ: s.typ, args: []*Term{s.args[0], tt.bin(token.ADD, lo, s.args[1], nil), tt.bin(token.ADD, hi, s.args[1], nil)}})
	}
	if s.op == OpSeq {
		a, ok1 := lo.intVal()
		b, ok2 := hi.intVal()
		if !ok2 && hi == n {
			b, ok2 = int64(len(s.args)-1), true
			for _, p := range s.args[1:] {
				if p.op != OpElem {
					ok2 = ok2 && p == s.args[len(s.args)-1] || ok2
				}
			}
		}
		if ok1 && ok2 && b <= int64(len(s.args)-1) && a <= b {
			all := true
			for _, p := range s.args[1 : 1+a] {
				all = all && p.op == OpElem
			}
			if hi != n {
				for _, p := range s.args[1 : 1+b] {
					all = all && p.op == OpElem
				}
			}
			if all {
				return tt.seq(s, append([]*Term(nil), s.args[1+a:1+b]...))
			}
		}
	}
	if s.op == OpSub {
		if end := s.args[2]; end != nil && hi == n {
			return tt.mk(Term{op: OpSub, args: []*Term{s.args[0], tt.bin(token.ADD, s.args[1], lo, nil), end}})
		}
		return tt.mk(Term{op: OpSub, args: []*Term{s.args[0], tt.bin(token.ADD, lo, s.args[1], nil), tt.bin(token.ADD, hi, s.args[1], nil)}})
	}
	if lo.isInt(0) && hi.isInt(0) {
		return tt.seq(s, nil) // no elements, but the room of s
	}
	return tt.mk(Term{op: OpSub, args: []*Term{s, lo, hi}})
}

// --- branching ---

// decide evaluates a condition under the known facts.
func (x *Explorer) decide(st *State, c *Term) (bool, bool) {
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	if c.op == OpNot {
		v, ok := x.decide(st, c.args[0])
		return !v, ok
	}
	if v, ok := st.facts[c]; ok {
		return v, true
	}
	tt := x.tt
	switch c.op {
	case OpBin:
		a, b := c.args[0], c.args[1]
		if c.s == "==" {
			if u, ok := st.facts[a]; ok {
				if v, ok := st.facts[b]; ok {
					return u == v, true
				}
			}
			if b.op == OpConst {
				// equal to something known
				for f, v := range st.facts {
					if v && f.op == OpBin && f.s == "==" && (f.args[0] == a || f.args[1] == a) {
						u := f.args[0]
						if u == a {
							u = f.args[1]
						}
						if v, ok := st.facts[tt.eq(u, b)]; ok && u.op != OpConst {
							return v, true
						}
					}
				}
			}
			if b.op == OpNil {
				// non-nil if it has a dynamic type, is a certain error, or is not empty
				for f, v := range st.facts {
					if v && f.op == OpIsType && f.args[0] == a {
						return false, true
					}
					if v && f.isPure("errors.Is") && f.args[0] == a {
						return false, true
					}
					if v && f.isPure("errors.As") && f.args[0] == a {
						return false, true
					}
					if v && f.op == OpBin && f.s == "==" && (f.args[0] == a && nonNil(f.args[1]) || f.args[1] == a && nonNil(f.args[0])) {
						return false, true
					}
				}
				if v, ok := st.facts[tt.eq(tt.length(a), tt.num(0))]; ok && !v {
					return false, true
				}
				// a joined error is nil iff all its parts are
				if a.op == OpJoin && a.args[0].op == OpSeq {
					all := true
					for _, p := range a.args[0].args[1:] {
						if p.op != OpElem {
							all = false
							continue
						}
						v, ok := x.decide(st, tt.eq(p.args[0], tt.null()))
						if ok && !v {
							return false, true
						}
						if !ok {
							all = false
						}
					}
					if all {
						return true, true
					}
				}
				if a.op == OpBin || a.op == OpConcat {
					return false, true
				}
			}
			if b.op == OpConst {
				for f, v := range st.facts {
					if f.op != OpBin || f.s != "==" || f.args[0] != a {
						continue
					}
					if v && f.args[1].op == OpConst && f.args[1] != b {
						return false, true
					}
				}
				if s, ok := b.strVal(); ok && s == "" {
					if a.op == OpConcat {
						for _, p := range a.args {
							if v, ok := x.decide(st, tt.eq(p, b)); ok && !v {
								return false, true
							}
						}
					}
					for f, v := range st.facts {
						if v && (f.isPure("strings.HasPrefix") || f.isPure("strings.HasSuffix") || f.isPure("strings.Contains")) && f.args[0] == a {
							if s, ok := f.args[1].strVal(); ok && s != "" {
								return false, true
							}
						}
					}
					if v, ok := st.facts[tt.eq(tt.pure("len", a), tt.num(0))]; ok {
						return v, true
					}
				}
				if n, ok := b.intVal(); ok {
					lo, hi, loOK, hiOK := x.interval(st, a)
					if loOK && n < lo || hiOK && n > hi {
						return false, true
					}
					if loOK && hiOK && lo == hi {
						return n == lo, true
					}
					if n == 0 && a.isPure("len") {
						if v, ok := st.facts[tt.eq(a.args[0], tt.str(""))]; ok {
							return v, true
						}
						if v, ok := st.facts[tt.eq(a.args[0], tt.null())]; ok && v {
							return true, true
						}
					}
				}
			}
			// both sides equal to something known
			if b.op != OpNil && b.op != OpConst {
				if v, ok := st.facts[tt.mk(Term{op: OpBin, s: "<", args: []*Term{a, b}})]; ok && v {
					return false, true
				}
				if v, ok := st.facts[tt.mk(Term{op: OpBin, s: "<", args: []*Term{b, a}})]; ok && v {
					return false, true
				}
			}
		}
		if c.s == "<" {
			if v, ok := st.facts[tt.mk(Term{op: OpBin, s: "<", args: []*Term{b, a}})]; ok && v {
				return false, true
			}
			if v, ok := st.facts[tt.eq(a, b)]; ok && v {
				return false, true
			}
			alo, ahi, alok, ahok := x.interval(st, a)
			blo, bhi, blok, bhok := x.interval(st, b)
			if ahok && blok && ahi < blo {
				return true, true
			}
			if alok && bhok && alo >= bhi {
				return false, true
			}
		}
	case OpIsType:
		if v, ok := st.facts[tt.eq(c.args[0], tt.null())]; ok && v {
			return false, true
		}
		for f, v := range st.facts {
			if f.op == OpIsType && f.args[0] == c.args[0] && v {
				fi, ci := types.IsInterface(f.typ), types.IsInterface(c.typ)
				switch {
				case !fi && !ci:
					if !types.Identical(f.typ, c.typ) {
						return false, true
					}
				case !fi && ci:
					return types.Implements(f.typ, c.typ.Underlying().(*types.Interface)), true
				}
			}
		}
	case OpPure:
		if c.s == "errors.Is" {
			if v, ok := x.decide(st, tt.eq(c.args[0], tt.null())); ok && v {
				return false, true
			}
		}
		if c.s == "strings.HasPrefix" || c.s == "strings.HasSuffix" {
			if v, ok := st.facts[tt.eq(c.args[0], tt.str(""))]; ok && v {
				if s, ok := c.args[1].strVal(); ok && s != "" {
					return false, true
				}
			}
			for f, v := range st.facts {
				if !v {
					continue
				}
				if f.op == OpBin && f.s == "==" && f.args[0] == c.args[0] {
					if s, ok := f.args[1].strVal(); ok {
						if p, ok := c.args[1].strVal(); ok {
							if c.s == "strings.HasPrefix" {
								return strings.HasPrefix(s, p), true
							}
							return strings.HasSuffix(s, p), true
						}
					}
				}
			}
		}
	}
	return false, false
}

// interval bounds an integer term using constants and the known facts.
func (x *Explorer) interval(st *State, t *Term) (lo, hi int64, loOK, hiOK bool) {
	if n, ok := t.intVal(); ok {
		return n, n, true, true
	}
	if t.op == OpBin && t.s == "+" {
		if n, ok := t.args[1].intVal(); ok {
			lo, hi, loOK, hiOK = x.interval(st, t.args[0])
			return lo + n, hi + n, loOK, hiOK
		}
	}
	if t.isPure("len") || t.isPure("cap") {
		lo, loOK = 0, true
		if s := t.args[0]; s.op == OpSeq {
			for _, p := range s.args[1:] {
				if p.op == OpElem {
					lo++
				} else if l2, _, ok, _ := x.interval(st, x.tt.length(p.args[0])); ok {
					lo += l2
				}
			}
		}
	}
	for f, v := range st.facts {
		if f.op != OpBin || (f.args[0] != t && f.args[1] != t) {
			continue
		}
		switch f.s {
		case "==":
			if n, ok := f.args[1].intVal(); ok && f.args[0] == t {
				if v {
					return n, n, true, true
				}
			}
		case "<":
			if n, ok := f.args[1].intVal(); ok && f.args[0] == t {
				if v { // t < n
					if !hiOK || n-1 < hi {
						hi, hiOK = n-1, true
					}
				} else if !loOK || n > lo {
					lo, loOK = n, true
				}
			}
			if n, ok := f.args[0].intVal(); ok && f.args[1] == t {
				if v { // n < t
					if !loOK || n+1 > lo {
						lo, loOK = n+1, true
					}
				} else if !hiOK || n < hi {
					hi, hiOK = n, true
				}
			}
		}
	}
	for again := true; again && loOK; { // exclusions at the bound
		again = false
		if v, ok := st.facts[x.tt.eq(t, x.tt.num(lo))]; ok && !v {
			lo++
			again = true
		}
	}
	for again := true; again && hiOK && (!loOK || lo <= hi); {
		again = false
		if v, ok := st.facts[x.tt.eq(t, x.tt.num(hi))]; ok && !v {
			hi--
			again = true
		}
	}
	return
}

// assume adds a fact.
func (x *Explorer) assume(st *State, c *Term, v bool) {
	if c.op == OpNot {
		x.assume(st, c.args[0], !v)
		return
	}
	if c.op == OpConst {
		return
	}
	st.facts[c] = v
	if v && c.op == OpBin && c.s == "==" {
		// a list is empty only if everything spread into it is
		for i := range c.args {
			if l := c.args[1-i]; c.args[i].isInt(0) && l.isPure("len") && l.args[0].op == OpSeq {
				for _, p := range l.args[0].args[1:] {
					if p.op == OpSpread {
						x.assume(st, x.tt.eq(x.tt.length(p.args[0]), x.tt.num(0)), true)
					}
				}
			}
		}
	}
}

// consistent tells whether the fact c=v contradicts what is known.
func (x *Explorer) isNil(st *State, t *Term) (val, known bool) {
	return x.decide(st, x.tt.eq(t, x.tt.null()))
}

// knownNil and knownNonNil are conveniences.
func (x *Explorer) knownNil(st *State, t *Term) bool {
	v, ok := x.isNil(st, t)
	return ok && v
}
func (x *Explorer) knownNonNil(st *State, t *Term) bool {
	v, ok := x.isNil(st, t)
	return ok && !v
}

func (x *Explorer) knownTrue(st *State, t *Term) bool {
	v, ok := x.decide(st, t)
	return ok && v
}
func (x *Explorer) knownFalse(st *State, t *Term) bool {
	v, ok := x.decide(st, t)
	return ok && !v
}

// --- loops ---

// forgetElems drops what is known about the elements of a list, which is always sound.
func (x *Explorer) forgetElems(st *State, coll *Term) {
	for f := range st.facts {
		if f.any(func(t *Term) bool { return t.op == OpIndex && t.args[0] == coll && !t.args[1].isConst() }) {
			delete(st.facts, f)
		}
	}
}

// enterBlock moves the top frame to block b, arriving from block from. It returns false if the state was seen before.
func (x *Explorer) enterBlock(st *State, from, b *ssa.BasicBlock) bool {
	f := st.top()
	inf := x.info(f.fn)
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// leave loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.loop.body[b] {
			break
		}
		if x.rule.onLoopExit != nil {
			x.rule.onLoopExit(x, st, l, from, b)
		}
		if x.rule.forget && l.coll != nil && exhausted(l, from) {
			x.forgetElems(st, l.coll)
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	news := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		news[ph] = x.val(st, ph.Edges[pi])
	}
	l := inf.loops[b]
	var coll, idx *Term
	if l != nil {
		coll, idx = x.stepsOver(st, l, b, news)
	}
	var cur *loopRec
	if n := len(f.loops); l != nil && n > 0 && f.loops[n-1].loop == l {
		cur = f.loops[n-1]
	}
	switch {
	case l != nil && cur == nil:
		rec := &loopRec{loop: l, name: f.ctx + "l" + strconv.Itoa(l.id) + loopTag(f)}
		rec.entry = news
		rec.phi0 = news
		rec.heap0 = copyHeap(st.heap)
		rec.heapE = rec.heap0
		rec.heldIn = heldKey(st)
		f.loops = append(f.loops, rec)
		rec.coll, rec.idx = coll, idx
		rec.inOrder = idx != nil && idx.isInt(0)
		if nx := rangeNext(b); nx != nil && !nx.IsString {
			rec.isMap = true
			rec.inOrder = true
			rec.coll = x.rangeColl(st, nx)
		}
	case l != nil:
		if h := heldKey(st); h != cur.heldIn {
			x.report(st, b.Instrs[len(b.Instrs)-1].Pos(), "lock:loop", "the set of held locks changes from one loop iteration to the next (%s, then %s)", cur.heldIn, h)
			return false
		}
		if x.rule.onBackEdge != nil {
			x.rule.onBackEdge(x, st, cur, cur.phi0, news)
			if st.dead {
				return false
			}
		}
		x.backStores(st, cur)
		nr := *cur
		f.loops[len(f.loops)-1] = &nr
		cur = &nr
		if !cur.isMap && (cur.idx == nil || idx != x.tt.bin(token.ADD, cur.idx, x.tt.num(1), nil)) {
			cur.inOrder = false
		}
		if cur.class >= 0 && cur.class < 24 && x.headerFolds(st, f, b, news) {
			cur.class++
			cur.phi0 = news
		} else {
			x.widen(st, f, cur, news)
			news = cur.phi0
		}
		if !cur.isMap {
			c2, i2 := x.stepsOver(st, l, b, news)
			if c2 != cur.coll {
				cur.inOrder = false
			}
			cur.idx = i2
		}
	}
	for ph, t := range news {
		f.env[ph] = t
	}
	f.block = b
	f.idx = firstNonPhi(b)
	if len(b.Preds) > 1 {
		return x.fresh1(st)
	}
	return true
}

func heldKey(st *State) string {
	s := ""
	for _, h := range st.held {
		s += h.String() + " "
	}
	return s
}

func copyHeap(h map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

// fresh1 collects garbage and tells whether the state is new.
func (x *Explorer) fresh1(st *State) bool {
	x.gc(st)
	k := x.stateKey(st)
	if x.visited[k] {
		return false
	}
	x.visited[k] = true
	x.states++
	return true
}

// stepsOver finds the collection that a loop steps over by index, and the index, given the values of the loop variables.
func (x *Explorer) stepsOver(st *State, l *loopInfo, b *ssa.BasicBlock, news map[*ssa.Phi]*Term) (coll, idx *Term) {
	env := map[ssa.Value]*Term{}
	for ph, t := range news {
		env[ph] = t
	}
	get := func(v ssa.Value) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == b {
			return nil
		}
		if _, ok := v.(ssa.Instruction); ok {
			if _, ok := st.top().env[v]; !ok {
				return nil
			}
		}
		return x.val(st, v)
	}
	lenArg := func(v ssa.Value) *Term {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return get(c.Call.Args[0])
		}
		return nil
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			if a := get(in.X); a != nil {
				env[in] = x.tt.field(a, in.Field, in.X.Type())
			}
		case *ssa.UnOp:
			if a := get(in.X); a != nil && in.Op == token.MUL {
				env[in] = x.load(st, a, in.Type())
			}
		case *ssa.BinOp:
			a, c := get(in.X), get(in.Y)
			if a != nil && c != nil {
				env[in] = x.tt.bin(in.Op, a, c, in.X.Type())
			}
			var ix *Term
			var ln ssa.Value
			switch in.Op {
			case token.LSS, token.NEQ:
				ix, ln = a, in.Y
			case token.GTR:
				ix, ln = c, in.X
			default:
				continue
			}
			if ix == nil {
				continue
			}
			if c, ok := ln.(*ssa.Call); ok && ix.isInt(0) && len(c.Call.Args) == 1 {
				if ph, ok := c.Call.Args[0].(*ssa.Phi); ok && news[ph] != nil && consumed(ph, l) {
					if s := news[ph]; s.op == OpSub && s.args[2] == x.tt.length(s.args[0]) {
						return copied(s.args[0]), s.args[1]
					}
					return copied(news[ph]), ix
				}
			}
			if s := lenArg(ln); s != nil {
				// A list made with the length of another one, whose elements are not read here, stands for that one.
				if t := x.tt.length(s); s.op == OpMake && t.isPure("len") && !x.readsElems(l, ln) {
					return copied(t.args[0]), ix
				}
				return copied(s), ix
			}
			if t := get(ln); t != nil && t.isPure("len") {
				return copied(t.args[0]), ix
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if a := get(in.Call.Args[0]); a != nil {
					env[in] = x.tt.length(a)
				}
			}
		}
	}
	return nil, nil
}

// readsElems tells whether elements of the list that ln is the length of are read in the loop.
func (x *Explorer) readsElems(l *loopInfo, ln ssa.Value) bool {
	list := ln.(*ssa.Call).Call.Args[0]
	for _, r := range *list.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || !l.body[ia.Block()] {
			continue
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
				return true
			}
		}
	}
	return false
}

func rangeNext(b *ssa.BasicBlock) *ssa.Next {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

func (x *Explorer) rangeColl(st *State, n *ssa.Next) *Term {
	if r, ok := st.top().env[n.Iter]; ok && len(r.args) > 0 {
		return r.args[0]
	}
	return nil
}

// loopElem is the element (of a map: the value) that the current iteration of the top frame's loop l is about.
func (x *Explorer) loopElem(st *State, l *loopRec) *Term {
	if l.coll == nil {
		return nil
	}
	if l.isMap {
		return nil
	}
	if l.idx == nil {
		return nil
	}
	a := x.indexAddr(st, l.coll, l.idx)
	if v := x.seqElem(st, l.coll, l.idx); v != nil {
		return v
	}
	if v, ok := st.heap[a]; ok {
		return v
	}
	return x.tt.mk(Term{op: OpLoad, args: []*Term{a}})
}

// isElemOf tells whether t is an element, at the index of the current iteration of l, of the collection of l.
func (x *Explorer) isElemOf(st *State, l *loopRec, t *Term) bool {
	if l.coll == nil {
		return false
	}
	if l.isMap {
		if t.op == OpFresh && strings.HasPrefix(t.s, "key@") && t.args[0] == l.coll {
			return true
		}
		return t.op == OpLoad && t.args[0].op == OpMapElem && t.args[0].args[0] == l.coll && strings.HasPrefix(t.args[0].args[1].s, "key@")
	}
	e := x.loopElem(st, l)
	if e == nil {
		return false
	}
	if e == t {
		return true
	}
	return t.op == OpLoad && e.op == OpLoad && t.args[0] == e.args[0]
}

// headerFolds tells whether the loop condition is decided by constants for the given loop variables.
func (x *Explorer) headerFolds(st *State, f *Frame, b *ssa.BasicBlock, news map[*ssa.Phi]*Term) bool {
	env := map[ssa.Value]*Term{}
	for ph, t := range news {
		env[ph] = t
	}
	get := func(v ssa.Value) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == b {
			return nil
		}
		return x.val(st, v)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp:
			a, c := get(in.X), get(in.Y)
			if a != nil && c != nil {
				env[in] = x.tt.bin(in.Op, a, c, in.X.Type())
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if a := get(in.Call.Args[0]); a != nil {
					env[in] = x.tt.length(a)
				}
			}
		case *ssa.If:
			c := get(in.Cond)
			if c == nil {
				return false
			}
			_, ok := c.boolVal()
			return ok
		}
	}
	return false
}

// consumed tells whether every iteration of the loop takes a fixed number of elements off the front of a list.
func consumed(ph *ssa.Phi, l *loopInfo) bool {
	ok := false
	for i, p := range ph.Block().Preds {
		if !l.body[p] {
			continue
		}
		s, isSlice := ph.Edges[i].(*ssa.Slice)
		if !isSlice || s.X != ssa.Value(ph) || s.Low == nil || s.High != nil || s.Max != nil {
			return false
		}
		k, isConst := s.Low.(*ssa.Const)
		if !isConst || k.Value == nil || constant.Sign(k.Value) <= 0 {
			return false
		}
		ok = true
	}
	if _, isSlice := ph.Type().Underlying().(*types.Slice); !isSlice {
		return false
	}
	return ok
}

// widen prepares the state for an arbitrary further iteration of the loop.
func (x *Explorer) widen(st *State, f *Frame, r *loopRec, news map[*ssa.Phi]*Term) {
	tt := x.tt
	first := r.class >= 0
	base := r.heap0
	wide := map[*Term]bool{}
	wphi := map[*ssa.Phi]bool{}
	notNN := map[string]bool{}
	for k := range r.wide {
		wide[k] = true
	}
	for k := range r.wphi {
		wphi[k] = true
	}
	for k := range r.notNN {
		notNN[k] = true
	}
	scopeG := r.name + ":g"
	inScope := func(t *Term) bool {
		for _, s := range t.scopes {
			if s == scopeG {
				return true
			}
		}
		return false
	}
	inLoop := func(t *Term) bool {
		for _, s := range t.scopes {
			if strings.HasPrefix(s, r.name+":") {
				return true
			}
		}
		return false
	}
	r.class = -1
	own := st.scope() // includes this loop's generic iteration
	// loop variables
	for ph, nv := range news {
		ov := r.entry[ph]
		if !wphi[ph] && ov != nv {
			wphi[ph] = true
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && !wphi[ph] && len(x.emptyParts(st, r)) > 0 {
			wphi[ph] = true // see compWiden
		}
		k := "p" + ph.Name()
		// after the first iteration, the value before the loop no longer counts
		if !first && !nonNil(r.phi0[ph]) || !(nonNil(nv) || x.knownNonNil(st, nv)) {
			notNN[k] = true
		}
	}
	// memory
	changed := func(a, v0, v1 *Term) {
		if inLoop(a) && inScope(a) || isLocalObj(objRoot(a)) && inLoop(objRoot(a)) {
			return
		}
		if inLoop(a) {
			return
		}
		wide[a] = true
		k := "m" + strconv.Itoa(int(a.id))
		if !first && (v0 == nil || !nonNil(v0)) || v1 == nil || !(nonNil(v1) || x.knownNonNil(st, v1)) {
			notNN[k] = true
		}
	}
	for a, v1 := range st.heap {
		if v0 := base[a]; v0 != v1 {
			changed(a, v0, v1)
		}
	}
	for a, v0 := range base {
		if _, ok := st.heap[a]; !ok && !inScope(a) {
			changed(a, v0, nil)
		}
	}
	// build the new memory
	nh := map[*Term]*Term{}
	for a, v := range base {
		if !wide[a] {
			nh[a] = v
		}
	}
	if first {
		// objects made in the concrete iterations
		for a, v := range st.heap {
			if !wide[a] && inLoop(a) && !inScope(a) && isLocalObj(objRoot(a)) {
				nh[a] = v
			}
		}
	}
	// elements and map entries written at loop-dependent places
	weak := map[*Term]*Term{}
	for a, v := range st.heap {
		if (a.op == OpIndex || a.op == OpMapElem || a.op == OpMapHas) && inLoop(a.args[1]) && !inLoop(objRoot(a)) {
			weak[objRoot(a)] = v
		}
	}
	// lists that an iteration may leave as they are, because what it adds is known to be empty
	for a, v0 := range base {
		if !wide[a] && isSliceCell(a) && st.heap[a] == v0 {
			if len(x.emptyParts(st, r)) > 0 {
				wide[a] = true
				if !(nonNil(v0) || x.knownNonNil(st, v0)) {
					notNN["m"+strconv.Itoa(int(a.id))] = true
				}
			}
		}
	}
	for a := range wide {
		nn := !notNN["m"+strconv.Itoa(int(a.id))]
		m := tt.mk(Term{op: OpMem, s: r.name, args: []*Term{a}, nn: nn, own: own})
		v0, ok := base[a]
		if !ok && isLocalObj(objRoot(a)) && a.op != OpHavoc && a.op != OpMapVer {
			v0 = x.zeroOfAddr(a)
		}
		x.addSide(m, v0)
		if v1, ok := st.heap[a]; ok {
			x.addSide(m, v1)
			if isSliceCell(a) {
				t := cellType(a)
				x.compWiden(st, r, t, x.loadIn(st, r.heapE, a, t), x.loadIn(st, base, a, t), v1, m)
			}
			if x.rule.onWiden != nil && v1 != m {
				x.rule.onWiden(x, st, r, v1, m)
			}
		}
		if _, ok := st.heap[a]; !ok && (a.op == OpMapElem || a.op == OpMapHas) {
			continue
		}
		nh[a] = m
	}
	for o := range weak {
		if !isLocalObj(o) {
			continue
		}
		h := tt.mk(Term{op: OpHavoc, args: []*Term{o}})
		nh[h] = tt.mk(Term{op: OpMem, s: r.name, args: []*Term{h}, own: own})
	}
	phis := map[*ssa.Phi]*Term{}
	if x.rule.zones {
		x.addRow(st, r, news)
	}
	for ph, nv := range news {
		if !wphi[ph] {
			phis[ph] = r.entry[ph]
			continue
		}
		if r.entry[ph] != nil && consumed(ph, r.loop) {
			j := tt.mk(Term{op: OpPhi, s: "phi@" + r.name + "#" + strconv.Itoa(x.id(ph)), ins: ph, nn: true, own: own})
			phis[ph] = x.slice(st, r.entry[ph], ph.Type(), j, nil, nil)
			continue
		}
		nn := !notNN["p"+ph.Name()]
		t := tt.mk(Term{op: OpPhi, s: "phi@" + r.name + "#" + strconv.Itoa(x.id(ph)), ins: ph, nn: nn, own: own})
		x.addSide(t, r.entry[ph])
		x.addSide(t, nv)
		x.compWiden(st, r, ph.Type(), r.entry[ph], r.phi0[ph], nv, t)
		if x.rule.onWiden != nil && nv != t {
			x.rule.onWiden(x, st, r, nv, t)
		}
		phis[ph] = t
	}
	for a := range nh {
		if inScope(a) && !isLocalObj(objRoot(a)) {
			_ = a
		}
	}
	carry := x.carried(st, r, news, phis, nh)
	st.heap = nh
	for c := range st.facts {
		if inScope(c) {
			delete(st.facts, c)
		}
	}
	carry(inScope)
	for ph, t := range phis {
		if lo, ok := growsFrom(ph, r); ok && t.op == OpPhi {
			st.facts[tt.mk(Term{op: OpBin, s: "<", args: []*Term{t, tt.num(lo)}})] = false
		}
	}
	for ph, t := range phis {
		if t.op == OpSub && wphi[ph] && consumed(ph, r.loop) {
			j := tt.mk(Term{op: OpPhi, s: "phi@" + r.name + "#" + strconv.Itoa(x.id(ph)), ins: ph, nn: true, own: own})
			st.facts[tt.mk(Term{op: OpBin, s: "<", args: []*Term{j, tt.num(0)}})] = false
		}
	}
	r.wide, r.wphi, r.notNN = wide, wphi, notNN
	r.phi0 = phis
	r.heap0 = copyHeap(nh)
	// heap0 for the generic iteration keeps the value at loop entry for cells not widened, so later changes show up
	f.loops[len(f.loops)-1] = r
}

// loadIn is the value that a variable has in the given memory.
func (x *Explorer) loadIn(st *State, heap map[*Term]*Term, a *Term, t types.Type) *Term {
	if v, ok := heap[a]; ok {
		return v
	}
	h := st.clone()
	h.heap = copyHeap(heap)
	return x.load(h, a, t)
}

// cellType is the type of the variable with the given address, if it is a local one.
func cellType(a *Term) types.Type {
	if a.op != OpAlloc {
		return nil
	}
	al, ok := a.ins.(*ssa.Alloc)
	if !ok {
		return nil
	}
	return al.Type().Underlying().(*types.Pointer).Elem()
}

// carried prepares for telling, about the loop variables that stand for a value from now on, what is known about that value.
func (x *Explorer) carried(st *State, r *loopRec, news, phis map[*ssa.Phi]*Term, nh map[*Term]*Term) func(inScope func(t *Term) bool) {
	if !x.rule.carry {
		return func(func(t *Term) bool) {}
	}
	tt := x.tt
	in, out := map[*Term]*Term{}, map[*Term]*Term{}
	add := func(from, to *Term) {
		if from == nil || from == to || from.op == OpConst || in[from] != nil {
			return
		}
		mark := tt.mk(Term{op: OpParam, s: "$carried" + strconv.Itoa(len(in))})
		in[from], out[mark] = mark, to
	}
	flags := map[*Term]bool{}
	for _, ins := range r.loop.header.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if t := phis[ph]; t.op == OpPhi {
			add(news[ph], t)
			if b, ok := news[ph].boolVal(); ok {
				flags[t] = b
			}
		}
	}
	var cells []*Term
	for a := range nh {
		if nh[a].op == OpMem && st.heap[a] != nil && nh[a] != st.heap[a] {
			cells = append(cells, a)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, a := range cells {
		add(st.heap[a], nh[a])
	}
	facts := map[*Term]bool{}
	for f, v := range st.facts {
		if t := x.subst(f, in); t != f {
			facts[t] = v
		}
	}
	ts := map[string]*Term{}
	for k, t := range st.ts {
		ts[k] = x.subst(t, in)
	}
	return func(inScope func(t *Term) bool) {
		for f, v := range facts {
			if !inScope(f) {
				if t := x.subst(f, out); t.op != OpConst {
					st.facts[t] = v
				}
			}
		}
		for f, v := range flags {
			st.facts[f] = v
		}
		for k, t := range ts {
			if inScope(t) {
				delete(st.ts, k)
			} else {
				st.ts[k] = x.subst(t, out)
			}
		}
	}
}

// growsFrom is a lower bound, after the first iteration, of a loop counter that only grows.
func growsFrom(ph *ssa.Phi, r *loopRec) (int64, bool) {
	e := r.entry[ph]
	if e == nil {
		return 0, false
	}
	start, ok := e.intVal()
	if !ok {
		return 0, false
	}
	step := int64(-1)
	for i, v := range ph.Edges {
		if !r.loop.body[ph.Block().Preds[i]] {
			continue
		}
		n := int64(0)
		if v != ssa.Value(ph) {
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
				return 0, false
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				return 0, false
			}
			n, ok = constant.Int64Val(k.Value)
			if !ok || n < 0 {
				return 0, false
			}
		}
		if step < 0 || n < step {
			step = n
		}
	}
	if step < 0 {
		return 0, false
	}
	return start + step, true
}

func (x *Explorer) zeroOfAddr(a *Term) *Term { return nil }

func (x *Explorer) addSide(t, v *Term) {
	if v == nil || v == t {
		return
	}
	for _, o := range x.side[t] {
		if o == v {
			return
		}
	}
	x.side[t] = append(x.side[t], v)
}

// origins lists the values that a loop value can stand for, transitively.
func (x *Explorer) origins(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpPhi || t.op == OpMem {
			for _, v := range x.side[t] {
				walk(v)
			}
			return
		}
		out = append(out, t)
	}
	walk(t)
	return out
}

// --- execution ---

func (x *Explorer) runState(st *State) {
	for {
		if st.dead || x.problem != "" {
			return
		}
		x.steps++
		if x.steps > 8000000 {
			x.giveUp(st.top().fn.Pos(), "analysis of %s does not finish", x.entry)
			return
		}
		f := st.top()
		in := f.block.Instrs[f.idx]
		if !x.exec(st, f, in) {
			return
		}
	}
}

func (x *Explorer) bind(st *State, f *Frame, v ssa.Value, t *Term) { f.env[v] = t }

// exec executes one instruction; false means that this state is finished or was queued.
func (x *Explorer) exec(st *State, f *Frame, in ssa.Instruction) bool {
	tt := x.tt
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := x.leaf(st, OpAlloc, "var", in)
		a.typ = in.Type()
		delete(st.ts, "pub:"+tid(a))
		for c := range st.heap {
			if objRoot(c) == a {
				delete(st.heap, c)
			}
		}
		f.env[in] = a
	case *ssa.BinOp:
		if x.rule.onUse != nil && (in.Op == token.EQL || in.Op == token.NEQ) {
			x.rule.onUse(x, st, in, x.val(st, in.X), "compare")
		}
		f.env[in] = x.binop(st, in)
	case *ssa.UnOp:
		v := x.val(st, in.X)
		switch in.Op {
		case token.MUL:
			if x.rule.onUse != nil {
				x.rule.onUse(x, st, in, v, "deref")
			}
			r := x.load(st, v, in.Type())
			if x.rule.onLoad != nil {
				x.rule.onLoad(x, st, v, r, in)
			}
			f.env[in] = r
		case token.NOT:
			f.env[in] = tt.not(v)
		case token.ARROW:
			r := x.leaf(st, OpFresh, "recv", in)
			x.blockEvent(st, in, "recv", []*Term{v})
			f.env[in] = r
		default:
			if n, ok := v.intVal(); ok && in.Op == token.SUB {
				f.env[in] = tt.num(-n)
			} else {
				f.env[in] = tt.mk(Term{op: OpNeg, s: in.Op.String(), args: []*Term{v}})
			}
		}
	case *ssa.ChangeType:
		f.env[in] = x.val(st, in.X)
	case *ssa.ChangeInterface:
		f.env[in] = x.val(st, in.X)
	case *ssa.Convert:
		f.env[in] = x.convert(x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.env[in] = x.convert(x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		f.env[in] = tt.mk(Term{op: OpConv, typ: in.Type(), args: []*Term{x.val(st, in.X)}})
	case *ssa.MakeInterface:
		f.env[in] = x.makeIface(x.val(st, in.X), in.X.Type())
	case *ssa.MakeClosure:
		var args []*Term
		for _, b := range in.Bindings {
			args = append(args, x.val(st, b))
		}
		f.env[in] = tt.mk(Term{op: OpClosure, fn: in.Fn.(*ssa.Function), args: args})
	case *ssa.MakeMap:
		m := x.leaf(st, OpMake, "map", in)
		for c := range st.heap {
			if objRoot(c) == m {
				delete(st.heap, c)
			}
		}
		f.env[in] = m
	case *ssa.MakeChan:
		f.env[in] = x.leaf(st, OpMake, "chan", in)
	case *ssa.MakeSlice:
		m := x.leaf(st, OpMake, "slice", in, x.val(st, in.Len))
		m.typ = in.Type().Underlying().(*types.Slice).Elem()
		for c := range st.heap {
			if objRoot(c) == m {
				delete(st.heap, c)
			}
		}
		f.env[in] = m
	case *ssa.Slice:
		var lo, hi, max *Term
		if in.Low != nil {
			lo = x.val(st, in.Low)
		}
		if in.High != nil {
			hi = x.val(st, in.High)
		}
		if in.Max != nil {
			max = x.val(st, in.Max)
		}
		s := x.val(st, in.X)
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, s, "slice")
		}
		f.env[in] = x.slice(st, s, in.X.Type(), lo, hi, max)
	case *ssa.FieldAddr:
		b := x.val(st, in.X)
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, b, "field")
		}
		f.env[in] = tt.field(b, in.Field, in.X.Type())
	case *ssa.Field:
		f.env[in] = x.fieldOf(x.val(st, in.X), in.Field, in.X.Type())
	case *ssa.IndexAddr:
		s, i := x.val(st, in.X), x.val(st, in.Index)
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, s, "index")
		}
		f.env[in] = x.indexAddr(st, s, i)
	case *ssa.Index:
		s, i := x.val(st, in.X), x.val(st, in.Index)
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, s, "index")
		}
		if isStringish(in.X.Type()) {
			f.env[in] = tt.byteAt(s, i)
			break
		}
		f.env[in] = tt.pure("index", s, i)
	case *ssa.Lookup:
		m, k := x.val(st, in.X), x.val(st, in.Index)
		if isStringish(in.X.Type()) {
			if x.rule.onUse != nil {
				x.rule.onUse(x, st, in, m, "index")
			}
			f.env[in] = tt.byteAt(m, k)
			break
		}
		if x.rule.onMapGet != nil {
			x.rule.onMapGet(x, st, m, k, in)
		}
		el := in.X.Type().Underlying().(*types.Map).Elem()
		v, has := x.lookup(st, m, k, el)
		if in.CommaOk {
			f.env[in] = tt.mk(Term{op: OpTuple, args: []*Term{v, has}})
		} else {
			f.env[in] = v
		}
	case *ssa.MapUpdate:
		m, k, v := x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value)
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, m, "mapset")
		}
		if x.rule.onMapSet != nil {
			x.rule.onMapSet(x, st, m, k, v, in)
		}
		x.mapSet(st, m, k, v, in)
	case *ssa.Range:
		f.env[in] = tt.mk(Term{op: OpPure, s: "range", args: []*Term{x.val(st, in.X)}})
	case *ssa.Next:
		f.env[in] = x.next(st, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.Extract:
		f.env[in] = tt.extract(x.val(st, in.Tuple), in.Index)
	case *ssa.Store:
		a, v := x.val(st, in.Addr), x.val(st, in.Val)
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, a, "store")
		}
		x.store(st, a, in.Val.Type(), v, in)
		if x.rule.onStore != nil {
			x.rule.onStore(x, st, a, v, in)
		}
	case *ssa.Send:
		x.blockEvent(st, in, "send", []*Term{x.val(st, in.Chan), x.val(st, in.X)})
	case *ssa.Select:
		if in.Blocking {
			x.blockEvent(st, in, "select", nil)
		} else {
			x.blockEvent(st, in, "try", nil)
		}
		f.env[in] = x.leaf(st, OpFresh, "select", in)
	case *ssa.Defer:
		ci, args := x.resolve(st, &in.Call)
		d := deferRec{ins: in, ci: ci, args: args}
		d.key = x.site(st, in)
		for _, a := range args {
			d.key += "," + strconv.Itoa(int(a.id))
		}
		if ci.clo != nil {
			d.key += ";" + strconv.Itoa(int(ci.clo.id))
		}
		dup := false
		for _, o := range f.defers {
			if o.key == d.key {
				dup = true
			}
		}
		if !dup {
			f.defers = append(f.defers, d)
		}
	case *ssa.Go:
		ci, args := x.resolve(st, &in.Call)
		f.idx++
		return x.call(st, f, ci, args, in, nil, frGo)
	case *ssa.Call:
		ci, args := x.resolve(st, &in.Call)
		f.idx++
		return x.call(st, f, ci, args, in, in, frCall)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return x.call(st, f, d.ci, d.args, d.ins, nil, frDefer)
		}
	case *ssa.Jump:
		from := f.block
		if !x.enterBlock(st, from, from.Succs[0]) {
			return false
		}
		return true
	case *ssa.If:
		return x.branch(st, f, in)
	case *ssa.Return:
		var res []*Term
		for _, r := range in.Results {
			res = append(res, x.val(st, r))
		}
		return x.ret(st, f, res)
	case *ssa.Panic:
		if x.rule.onPanic != nil {
			x.rule.onPanic(x, st, in)
		}
		return false
	default:
		x.giveUp(in.Pos(), "unhandled instruction %T", in)
		return false
	}
	f.idx++
	return true
}

func (x *Explorer) binop(st *State, in *ssa.BinOp) *Term {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	t := x.tt.bin(in.Op, a, b, in.X.Type())
	if r := x.matchLen(in.Op, a, b); r != nil {
		return r
	}
	return t
}

// matchLen decides or simplifies comparisons of the length of what a regular expression matched with a constant:
// that length is 0, or one more than the number of groups.
func (x *Explorer) matchLen(op token.Token, a, b *Term) *Term {
	tt := x.tt
	on := func(l *Term, cmp func(n *Term) *Term) *Term {
		if !l.isPure("len") {
			return nil
		}
		n, ok := x.groups(l.args[0])
		if !ok {
			return nil
		}
		v0, ok0 := cmp(tt.num(0)).boolVal()
		v1, ok1 := cmp(tt.num(n + 1)).boolVal()
		if !ok0 || !ok1 {
			return nil
		}
		if v0 == v1 {
			return tt.boolean(v0)
		}
		if v0 {
			return tt.lenEq0(l)
		}
		return tt.not(tt.lenEq0(l))
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isInt(b) {
			return on(a, func(n *Term) *Term { return tt.bin(op, n, b, nil) })
		}
		if isInt(a) {
			return on(b, func(n *Term) *Term { return tt.bin(op, a, n, nil) })
		}
	}
	return nil
}

// groups is the number of groups of the regular expression that t is a match of, if it is one.
func (x *Explorer) groups(t *Term) (int64, bool) {
	call, ok := t.ins.(*ssa.Call)
	if !ok || t.op != OpCall || !hasPrefixAny(t.s, "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindSubmatch") {
		return 0, false
	}
	l, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return 0, false
	}
	g, ok := l.X.(*ssa.Global)
	if !ok {
		return 0, false
	}
	c := &Check{p: x.p}
	s, ok := c.regexpOf(g)
	if !ok {
		return 0, false
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return 0, false
	}
	return int64(re.NumSubexp()), true
}

func (x *Explorer) convert(v *Term, from, to types.Type) *Term {
	if v.op == OpConst {
		tb, ok := to.Underlying().(*types.Basic)
		if ok && tb.Info()&types.IsNumeric != 0 && (v.val.Kind() == constant.Int || v.val.Kind() == constant.Float) {
			return v
		}
		if ok && tb.Info()&types.IsString != 0 && v.val.Kind() == constant.String {
			return v
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	// []byte(string) and string([]byte) are inverse
	if v.op == OpConv && isStringish(to) && isByteSlice(from) && isStringish(v.args[0].typOr(to)) && isByteSlice(v.typ) {
		return v.args[0]
	}
	if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
		if tb, ok := to.Underlying().(*types.Basic); ok && tb.Info()&types.IsInteger != 0 {
			if sizeOf(tb) >= sizeOf(fb) && sizeOf(fb) > 0 {
				return v
			}
		}
	}
	return x.tt.mk(Term{op: OpConv, typ: to, args: []*Term{v}})
}

func (t *Term) typOr(d types.Type) types.Type {
	if t.typ != nil && t.op == OpConv {
		return t.typ
	}
	return d
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 8
	}
	return 0
}

func (x *Explorer) makeIface(v *Term, t types.Type) *Term {
	if v.op == OpAssert && types.Identical(v.typ, t) {
		return v.args[0]
	}
	return x.tt.mk(Term{op: OpIface, typ: t, args: []*Term{v}})
}

func (x *Explorer) lookup(st *State, m, k *Term, el types.Type) (v, has *Term) {
	tt := x.tt
	if m.op == OpNil {
		return x.zero(el), tt.boolean(false)
	}
	ca := tt.mk(Term{op: OpMapElem, args: []*Term{m, k}})
	ch := tt.mk(Term{op: OpMapHas, args: []*Term{m, k}})
	if h, ok := st.heap[ch]; ok {
		has = h
		v = x.load(st, ca, el)
		if h.isFalse() {
			v = x.zero(el)
		}
		return
	}
	if isLocalObj(m) && st.havocOf(x, m) == nil && st.heap[tt.mk(Term{op: OpMapVer, args: []*Term{m}})] == nil {
		// all updates are known
		distinct := true
		for a := range st.heap {
			if a.op == OpMapHas && a.args[0] == m && !(a.args[1].op == OpConst && k.op == OpConst) {
				distinct = false
			}
		}
		if distinct {
			return x.zero(el), tt.boolean(false)
		}
	}
	ver := x.mapVer(st, m)
	has = tt.mk(Term{op: OpLoad, args: []*Term{ch, ver}})
	if s := structOf(el); s != nil && s.NumFields() > 0 && st.cellsUnder(ca) {
		v = x.load(st, ca, el)
	} else if c, ok := st.heap[ca]; ok {
		v = c
	} else {
		v = tt.mk(Term{op: OpLoad, args: []*Term{ca, ver}})
	}
	return
}

// emptyMap tells whether m is known to have no entries.
func (x *Explorer) emptyMap(st *State, m *Term) bool {
	if m.op == OpNil {
		return true
	}
	if !isLocalObj(m) || st.havocOf(x, m) != nil || st.heap[x.tt.mk(Term{op: OpMapVer, args: []*Term{m}})] != nil {
		return false
	}
	for a := range st.heap {
		if a.op == OpMapHas && a.args[0] == m {
			return false
		}
	}
	return true
}

// mapVer is what the contents of a map depend on.
func (x *Explorer) mapVer(st *State, m *Term) *Term {
	if v := st.heap[x.tt.mk(Term{op: OpMapVer, args: []*Term{m}})]; v != nil {
		return v
	}
	if h := st.havocOf(x, m); h != nil {
		return h
	}
	return st.epoch
}

func (x *Explorer) mapSet(st *State, m, k, v *Term, in ssa.Instruction) {
	tt := x.tt
	ca := tt.mk(Term{op: OpMapElem, args: []*Term{m, k}})
	ch := tt.mk(Term{op: OpMapHas, args: []*Term{m, k}})
	for a := range st.heap {
		if (mayAlias(a, ca) || mayAlias(a, ch)) && a != ca && a != ch {
			delete(st.heap, a)
		}
	}
	if k.op != OpConst || !isLocalObj(m) {
		mv := tt.mk(Term{op: OpMapVer, args: []*Term{m}})
		st.heap[mv] = x.leaf(st, OpTop, "mapver", in)
	}
	mt, _ := in.(*ssa.MapUpdate)
	if mt != nil {
		x.store(st, ca, mt.Value.Type(), v, in)
	}
	st.heap[ch] = tt.boolean(true)
}

func (x *Explorer) next(st *State, in *ssa.Next) *Term {
	tt := x.tt
	r := x.val(st, in.Iter)
	s := r.args[0]
	if x.rule.onMapUse != nil && !in.IsString {
		x.rule.onMapUse(x, st, s, in)
	}
	ok := x.leaf(st, OpFresh, "next", in, s)
	if s.isNil() || !in.IsString && x.emptyMap(st, s) {
		return tt.mk(Term{op: OpTuple, args: []*Term{tt.boolean(false), tt.null(), tt.null()}})
	}
	k := x.leaf(st, OpFresh, "key", in, s)
	if ls := st.top().loops; len(ls) > 0 {
		n := ls[len(ls)-1].name
		x.keyTerms[n] = append(x.keyTerms[n], k)
	}
	var v *Term
	if in.IsString {
		v = x.leaf(st, OpFresh, "rune", in, s)
	} else {
		tup := in.Type().(*types.Tuple)
		if vt := tup.At(2).Type(); vt != nil && !types.Identical(vt, types.Typ[types.Invalid]) {
			v, _ = x.lookup(st, s, k, vt)
		} else {
			v = tt.null()
		}
	}
	return tt.mk(Term{op: OpTuple, args: []*Term{ok, k, v}})
}

func (x *Explorer) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	tt := x.tt
	v := x.val(st, in.X)
	iface := types.IsInterface(in.AssertedType)
	var is, val *Term
	if v.op == OpIface {
		var ok bool
		if iface {
			ok = types.Implements(v.typ, in.AssertedType.Underlying().(*types.Interface))
			val = v
		} else {
			ok = types.Identical(v.typ, in.AssertedType)
			val = v.args[0]
		}
		is = tt.boolean(ok)
	} else if v.isNil() {
		is = tt.boolean(false)
	} else if iface && x.staticIface(v, in.AssertedType) {
		is = tt.boolean(true)
		val = v
	} else {
		is = tt.mk(Term{op: OpIsType, typ: in.AssertedType, args: []*Term{v}})
		if iface {
			val = v
		} else {
			val = tt.mk(Term{op: OpAssert, typ: in.AssertedType, args: []*Term{v}})
		}
	}
	fin := func(s *State, ok bool) {
		fr := s.top()
		r := val
		if !ok {
			r = x.zero(in.AssertedType)
		}
		if in.CommaOk {
			fr.env[in] = tt.mk(Term{op: OpTuple, args: []*Term{r, tt.boolean(ok)}})
		} else {
			fr.env[in] = r
		}
		fr.idx++
	}
	if b, known := x.decide(st, is); known {
		if !b && !in.CommaOk {
			if x.rule.onPanic != nil {
				x.rule.onPanic(x, st, in)
			}
			return false
		}
		fin(st, b)
		return true
	}
	if !in.CommaOk {
		if x.rule.onUse != nil {
			x.rule.onUse(x, st, in, v, "assert")
		}
		x.assume(st, is, true)
		fin(st, true)
		return true
	}
	n := st.clone()
	x.assume(n, is, false)
	n.note(in.Pos(), "%s is not a %s", v, shortType(in.AssertedType))
	fin(n, false)
	x.work = append(x.work, n)
	x.assume(st, is, true)
	st.note(in.Pos(), "%s is a %s", v, shortType(in.AssertedType))
	fin(st, true)
	return true
}

func (x *Explorer) staticIface(v *Term, t types.Type) bool { return false }

// observe tells the rule which way a branch went.
func (x *Explorer) observe(st *State, cond *Term, val bool, in *ssa.If) {
	if x.rule.onBranch == nil {
		return
	}
	for cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	x.rule.onBranch(x, st, cond, val, in)
}

func (x *Explorer) branch(st *State, f *Frame, in *ssa.If) bool {
	c := x.val(st, in.Cond)
	from := f.block
	if v, ok := x.decide(st, c); ok {
		s := 1
		if v {
			s = 0
		}
		x.observe(st, c, v, in)
		return x.enterBlock(st, from, from.Succs[s])
	}
	n := st.clone()
	x.assume(n, c, false)
	n.note(in.Cond.Pos(), "not %s", c)
	x.assume(st, c, true)
	st.note(in.Cond.Pos(), "%s", c)
	x.observe(n, c, false, in)
	x.observe(st, c, true, in)
	if x.enterBlock(n, from, from.Succs[1]) {
		x.work = append(x.work, n)
	}
	return x.enterBlock(st, from, from.Succs[0])
}

// ret returns from the top frame.
func (x *Explorer) ret(st *State, f *Frame, res []*Term) bool {
	if x.rule.onLeave != nil {
		x.rule.onLeave(x, st, f.fn, res)
		if st.dead {
			return false
		}
	}
	if len(st.frames) == 1 {
		x.exits++
		if x.rule.onExit != nil {
			x.rule.onExit(x, st, res)
		}
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	switch f.mode {
	case frGo:
		st.held = f.held
		st.gor--
	case frCall:
		if f.retKey != nil {
			switch len(res) {
			case 0:
			case 1:
				c.env[f.retKey] = res[0]
			default:
				c.env[f.retKey] = x.tt.mk(Term{op: OpTuple, args: res})
			}
		}
	case frCallback:
		if f.ended != nil && len(res) == 1 && !isSkip(res[0]) {
			yes, ok := x.isNil(st, res[0])
			if !ok {
				n := st.clone()
				x.assume(n, x.tt.eq(res[0], x.tt.null()), false)
				f.ended(x, n, res[0])
				x.work = append(x.work, n)
				x.assume(st, x.tt.eq(res[0], x.tt.null()), true)
			} else if !yes {
				f.ended(x, st, res[0])
				break
			}
		}
		if f.resume != nil {
			f.resume(x, st)
		}
	}
	return x.fresh1(st)
}

// isSkip tells whether an error is fs.SkipDir or fs.SkipAll.
func isSkip(t *Term) bool {
	return (t.op == OpLoad || t.op == OpMem) && t.args[0].op == OpGlobal && hasPrefixAny(t.args[0].glob.Name(), "Skip")
}

// resolve finds out what a call calls.
func (x *Explorer) resolve(st *State, c *ssa.CallCommon) (callee, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := x.val(st, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(st, a))
		}
		if recv.op == OpIface {
			if fn := x.p.prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return callee{name: fnName(fn), fn: fn, sig: c.Signature()}, append([]*Term{recv.args[0]}, args...)
			}
		}
		// the dynamic type may be known from a type switch
		for f, v := range st.facts {
			if v && f.op == OpIsType && f.args[0] == recv && !types.IsInterface(f.typ) {
				if fn := x.p.prog.LookupMethod(f.typ, c.Method.Pkg(), c.Method.Name()); fn != nil {
					rv := x.tt.mk(Term{op: OpAssert, typ: f.typ, args: []*Term{recv}})
					return callee{name: fnName(fn), fn: fn, sig: c.Signature()}, append([]*Term{rv}, args...)
				}
			}
		}
		it := shortTypeQ(c.Value.Type())
		return callee{name: "invoke " + it + "." + c.Method.Name(), recv: recv, sig: c.Signature()}, append([]*Term{recv}, args...)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return callee{name: "builtin " + v.Name(), bi: v, sig: c.Signature()}, args
	case *ssa.Function:
		return callee{name: fnName(v), fn: v, sig: c.Signature()}, args
	}
	t := x.val(st, c.Value)
	switch t.op {
	case OpFunc:
		return callee{name: fnName(t.fn), fn: t.fn, sig: c.Signature()}, args
	case OpClosure:
		return callee{name: fnName(t.fn), fn: t.fn, clo: t, sig: c.Signature()}, args
	}
	return callee{name: "dynamic", clo: t, sig: c.Signature()}, args
}

func shortTypeQ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// fnName is the name of a function, with the module's root package abbreviated to "fab".
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/bobg/fab", "fab")
	s = strings.ReplaceAll(s, "github.com/bobg/errors", "errors")
	s = strings.ReplaceAll(s, "github.com/bobg/go-generics/v2", "generics")
	return s
}

func (x *Explorer) onStack(st *State, fn *ssa.Function) bool {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n > 0
}

func (x *Explorer) inlinable(st *State, ci callee) bool {
	fn := ci.fn
	if fn == nil || fn.Blocks == nil {
		return false
	}
	pp := fnPkgPath(fn)
	if !isModPath(pp) && !strings.HasPrefix(pp, "github.com/bobg/go-generics") {
		// wrappers of methods of other packages are followed
		if fn.Synthetic == "" || fn.Pkg != nil {
			return false
		}
	}
	return true
}

func (x *Explorer) call(st *State, f *Frame, ci callee, args []*Term, in ssa.Instruction, ret ssa.Value, kind int) bool {
	if ci.bi != nil {
		t := x.builtin(st, f, ci, args, in)
		if st.dead {
			return false
		}
		if ret != nil {
			f.env[ret] = t
		}
		return true
	}
	ev := &CallEvent{callee: ci, raw: args, ins: in, kind: kind}
	ev.args = make([]*Term, len(args))
	for i, a := range args {
		ev.args[i] = x.canon(st, a)
	}
	ev.recursive = ci.fn != nil && x.onStack(st, ci.fn)
	stop := ev.recursive || (x.rule.stop != nil && ci.fn != nil && x.rule.stop(x, ci.name, ci.fn))
	if ci.fn != nil && fnPkgPath(ci.fn) == modPath && strings.HasPrefix(ci.name, "fab.") && !x.rule.realCtx {
		if t, ok := x.ctxModel(ci.name, args); ok {
			ev.res = t
			if ret != nil {
				f.env[ret] = t
			}
			return true
		}
	}
	if !stop && x.inlinable(st, ci) {
		if len(st.frames) > 40 {
			x.giveUp(in.Pos(), "call depth")
			return false
		}
		x.push(st, ci.fn, ci.clo, args, kind, in, ret)
		return true
	}
	// functions passed to unknown code may be called by it
	if !stop || ci.fn == nil || !x.inModuleFn(ci.fn) {
		var fns []*Term
		for _, a := range args {
			b := unbox(a)
			if (b.op == OpClosure || b.op == OpFunc) && b.fn.Blocks != nil && isModPath(fnPkgPath(b.fn)) && !x.onStack(st, b.fn) {
				fns = append(fns, b)
			}
		}
		indexed := callsWithIndexes(ci.name) && len(args) > 0
		if indexed && x.knownEmpty(st, unbox(args[0])) {
			fns = nil
		}
		if len(fns) > 0 && !isNonCaller(ci.name) {
			n := st.clone()
			cb := fns[0]
			var cargs []*Term
			for i, p := range cb.fn.Params {
				what := "cbarg"
				if i == 0 && ci.name == "io/fs.WalkDir" {
					what = "fspath"
				}
				cargs = append(cargs, x.leaf(n, OpFresh, what+strconv.Itoa(i)+p.Name(), in))
			}
			if indexed {
				for _, l := range []*Term{unbox(args[0]), unbox(ev.args[0])} {
					for _, i := range cargs {
						x.assume(n, x.tt.lt(i, x.tt.num(0)), false)
						x.assume(n, x.tt.lt(i, x.tt.length(l)), true)
					}
				}
			}
			fr := x.push(n, cb.fn, cb, cargs, frCallback, in, nil)
			evc := *ev
			fr.resume = func(x *Explorer, s *State) { x.opaque(s, s.top(), &evc, ret) }
			if oneOf(ci.name, "io/fs.WalkDir", "path/filepath.WalkDir", "path/filepath.Walk") {
				// the walk ends with the first error
				fr.ended = func(x *Explorer, s *State, err *Term) {
					evd := evc
					evd.res = err
					if ret != nil {
						s.top().env[ret] = err
					}
					if x.rule.onCall != nil {
						x.rule.onCall(x, s, &evd)
					}
				}
			}
			x.work = append(x.work, n)
		}
	}
	x.opaque(st, f, ev, ret)
	return !st.dead
}

func (x *Explorer) inModuleFn(fn *ssa.Function) bool { return isModPath(fnPkgPath(fn)) }

func (x *Explorer) blockEvent(st *State, in ssa.Instruction, name string, args []*Term) {
	if x.rule.onCall != nil {
		x.rule.onCall(x, st, &CallEvent{callee: callee{name: "chan " + name}, args: args, raw: args, ins: in})
	}
	x.newEpoch(st, in)
}

func (x *Explorer) newEpoch(st *State, in ssa.Instruction) {
	st.epoch = x.leaf(st, OpFresh, "epoch", in)
}

// forgetShared drops what is known about shared memory.
func (x *Explorer) forgetShared(st *State) {
	for a := range st.heap {
		r := objRoot(a)
		if isLocalObj(r) {
			continue
		}
		if x.version(st, a) != nil || a.op == OpMapVer {
			delete(st.heap, a)
		}
	}
}

func (x *Explorer) opaque(st *State, f *Frame, ev *CallEvent, ret ssa.Value) {
	var res *Term
	ok, own := false, false
	if x.rule.model != nil {
		res, ok = x.rule.model(x, st, ev)
	}
	if !ok {
		res, ok = x.stdModel(st, ev)
	}
	if st.dead {
		return
	}
	if !ok {
		var keep []*Term
		if x.rule.keepArgs != nil && x.rule.keepArgs(ev.name) {
			keep = ev.args
		}
		res = x.tt.mk(Term{op: OpCall, s: ev.name + "@" + x.site(st, ev.ins), ins: ev.ins, own: st.scope(), nn: neverNil(ev.name), args: keep})
		if ev.fn != nil && ev.fn.Blocks != nil && x.inModuleFn(ev.fn) {
			own = true
		} else if !isNonWriter(ev.name) {
			raw := append([]*Term{}, ev.raw...)
			for _, a := range ev.args {
				if a.op == OpSeq || a.op == OpArr {
					elems, _ := listOf(a)
					raw = append(raw, elems...)
				}
			}
			for _, a := range raw {
				x.written(st, ev, a)
			}
		}
		if !isQuiet(ev.name) {
			x.newEpoch(st, ev.ins)
			x.forgetShared(st)
		}
	}
	ev.res = res
	if ret != nil {
		f.env[ret] = res
	}
	if x.rule.onCall != nil {
		x.rule.onCall(x, st, ev)
	}
	if own && !st.dead {
		for i, a := range ev.raw {
			if i >= len(ev.fn.Params) || x.p.writesTo(ev.fn, i) {
				x.written(st, ev, a)
				if l := ev.args[i]; l.op == OpSeq || l.op == OpArr {
					elems, _ := listOf(l)
					for _, e := range elems {
						x.written(st, ev, e)
					}
				}
			}
		}
	}
}

// written forgets what is known about an object made here that a call was given and may write to.
func (x *Explorer) written(st *State, ev *CallEvent, a *Term) {
	b := unbox(a)
	r := objRoot(b)
	if (r.op == OpAlloc && (b.op == OpAlloc || b.op == OpField) || privateResult(r)) && !(ev.name == "dynamic" && x.sealed(r)) {
		x.setHavoc(st, r, x.leaf(st, OpTop, "written", ev.ins))
	}
	if b.op == OpMake && strings.HasPrefix(b.s, "map") {
		x.setHavoc(st, b, x.leaf(st, OpTop, "written", ev.ins))
	}
}

// sealed tells whether r is a struct that code outside the module cannot change and whose fields are never changed after its construction.
func (x *Explorer) sealed(r *Term) bool {
	pt, ok := r.typ.(*types.Pointer)
	if !ok {
		return false
	}
	n := named(pt.Elem())
	if n == nil || n.Obj().Pkg() == nil || !isModPath(n.Obj().Pkg().Path()) || n.Obj().Exported() {
		return false
	}
	s := structOf(n)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if x.p.mutable[fieldKeyCached(pt, i)] {
			return false
		}
	}
	return true
}

// copyInto copies src into a part of a slice made here.
func (x *Explorer) copyInto(st *State, d, src *Term, in ssa.Instruction) {
	tt := x.tt
	m := d.args[0]
	k, ok := d.args[1].intVal()
	n := tt.length(m)
	if ok && k >= 0 && k <= 16 && (d.args[2] == nil || d.args[2] == n) && st.havocOf(x, m) == nil && n == tt.bin(token.ADD, tt.length(src), d.args[1], nil) {
		var ps []*Term
		for i := int64(0); i < k; i++ {
			v, ok := st.heap[tt.mk(Term{op: OpIndex, args: []*Term{m, tt.num(i)}})]
			if !ok {
				ps = nil
				break
			}
			ps = append(ps, tt.elem(v))
		}
		if len(ps) == int(k) {
			x.setHavoc(st, m, tt.pure("copyof", tt.seq(nil, append(ps, x.parts(st, src)...))))
			return
		}
	}
	x.setHavoc(st, m, x.leaf(st, OpTop, "copied", in))
}

func (x *Explorer) builtin(st *State, f *Frame, ci callee, args []*Term, in ssa.Instruction) *Term {
	tt := x.tt
	switch ci.bi.Name() {
	case "len":
		s := args[0]
		if c, ok := in.(*ssa.Call); ok && x.rule.onMapUse != nil {
			if _, ok := c.Call.Args[0].Type().Underlying().(*types.Map); ok {
				x.rule.onMapUse(x, st, s, in)
			}
		}
		if s.op == OpMake && strings.HasPrefix(s.s, "map") {
			return tt.pure("len", s, x.mapVer(st, s))
		}
		return tt.length(s)
	case "cap":
		return tt.pure("cap", args[0])
	case "append":
		call := in.(*ssa.Call)
		return x.appendTo(st, args[0], args[1], isStringish(call.Call.Args[1].Type()))
	case "copy":
		d := args[0]
		if d.op == OpMake {
			if tt.length(d) == tt.length(args[1]) {
				x.setHavoc(st, d, tt.pure("copyof", x.canon(st, args[1])))
			} else {
				x.setHavoc(st, d, x.leaf(st, OpTop, "copied", in))
			}
		} else if d.op == OpSub && d.args[0].op == OpMake {
			x.copyInto(st, d, args[1], in)
		}
		return x.leaf(st, OpFresh, "copy", in)
	case "delete":
		m, k := args[0], args[1]
		if x.rule.onMapSet != nil {
			x.rule.onMapSet(x, st, m, k, nil, in)
		}
		x.mapSet(st, m, k, tt.null(), in)
		st.heap[tt.mk(Term{op: OpMapHas, args: []*Term{m, k}})] = tt.boolean(false)
		return tt.null()
	case "min", "max", "real", "imag", "complex":
		return tt.pure(ci.bi.Name(), args...)
	case "panic":
		st.dead = true
		if x.rule.onPanic != nil {
			x.rule.onPanic(x, st, in)
		}
		return tt.null()
	case "recover":
		return tt.null()
	case "print", "println", "close", "clear":
		if ci.bi.Name() == "clear" && x.rule.onMapSet != nil {
			x.rule.onMapSet(x, st, args[0], x.leaf(st, OpTop, "any", in), nil, in)
		}
		if x.rule.onCall != nil {
			x.rule.onCall(x, st, &CallEvent{callee: ci, args: args, raw: args, ins: in})
		}
		return tt.null()
	case "ssa:wrapnilchk":
		return args[0]
	}
	return x.leaf(st, OpFresh, ci.bi.Name(), in)
}

// trace renders the path that led to a state.
func (x *Explorer) trace(st *State, max int) []string {
	var out []string
	for n := st.path; n != nil && len(out) < max; n = n.prev {
		out = append(out, x.p.posStr(n.pos)+": "+n.note)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
