package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "The loop of the Write method of the writer made by IndentingCopier is turned into a transition table: for every path through one iteration, the conditions on the byte and on the fields, the bytes written and the new values of the fields. The table is compared with the specification for every byte value in every state reachable from the one that the constructor makes. The nesting depth is followed through Controller.Run.", checkIndent)
}

type itCond struct {
	t   *Term
	val bool
	ins *ssa.If
}

// itTrans is a path through one iteration, or from the loop to the end of the call.
type itTrans struct {
	first  bool // the first iteration
	conds  []itCond
	outs   []*Term // pure terms with the name of the function and its arguments
	head   []*Term // values of the fields, in order, at the start of the iteration
	hphi   map[*ssa.Phi]*Term
	fields map[string]*Term
	phis   map[*ssa.Phi]*Term
	elem   func(t *Term) bool
	pos    token.Pos
}

type itEnv struct {
	entry, now map[string]int64
	phi        map[*ssa.Phi]int64
	b          int64
}

type indenter struct {
	c      *Check
	self   *Term
	typ    types.Type
	strs   map[string][]string // tokens in each string field
	fields []string            // fields with state
	phiOf  map[*Term]*ssa.Phi
	why    string // why something was not understood
}

func (d *indenter) giveUp(format string, args ...any) (int64, bool) {
	if d.why == "" {
		d.why = fmt.Sprintf(format, args...)
	}
	return 0, false
}

// fieldOfSelf is the name of a field of the receiver, given its address.
func (d *indenter) fieldOfSelf(a *Term) string {
	if a.op == OpField && a.args[0] == d.self {
		return fieldName(a.typ, a.i)
	}
	return ""
}

func constInt(t *Term) (int64, bool) {
	if t.isTrue() {
		return 1, true
	}
	if t.isFalse() || t.isNil() || t.op == OpZero {
		return 0, true
	}
	if t.op == OpConst && t.val != nil && t.val.Kind() == constant.Int {
		return t.intVal()
	}
	return 0, false
}

func bit(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (d *indenter) eval(t *Term, tr *itTrans, e *itEnv) (int64, bool) {
	if n, ok := constInt(t); ok {
		return n, true
	}
	if tr.elem != nil && tr.elem(t) {
		return e.b, true
	}
	switch t.op {
	case OpLoad:
		if f := d.fieldOfSelf(t.args[0]); f != "" {
			if v, ok := e.entry[f]; ok {
				return v, true
			}
		}
	case OpMem:
		if f := d.fieldOfSelf(t.args[0]); f != "" {
			if v, ok := e.now[f]; ok {
				return v, true
			}
		}
	case OpPhi:
		if ph := d.phiOf[t]; ph != nil {
			if v, ok := e.phi[ph]; ok {
				return v, true
			}
		}
	case OpNot:
		v, ok := d.eval(t.args[0], tr, e)
		return 1 - v, ok
	case OpConv:
		v, ok := d.eval(t.args[0], tr, e)
		if b, isB := t.typ.Underlying().(*types.Basic); ok && isB {
			switch b.Kind() {
			case types.Uint8:
				return int64(uint8(v)), true
			case types.Int8:
				return int64(int8(v)), true
			case types.Int, types.Int32, types.Int64, types.Uint, types.Uint32, types.Uint64, types.Int16, types.Uint16:
				return v, true
			}
		}
	case OpBin:
		a, ok1 := d.eval(t.args[0], tr, e)
		b, ok2 := d.eval(t.args[1], tr, e)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.s {
		case "==":
			return bit(a == b), true
		case "!=":
			return bit(a != b), true
		case "<":
			return bit(a < b), true
		case "<=":
			return bit(a <= b), true
		case ">":
			return bit(a > b), true
		case ">=":
			return bit(a >= b), true
		case "&", "&&":
			return a & b, true
		case "|", "||":
			return a | b, true
		case "^":
			return a ^ b, true
		}
	}
	return d.giveUp("the value of %s", t)
}

// words are the tokens in what is written.
func (d *indenter) words(o *Term, tr *itTrans, e *itEnv) ([]string, bool) {
	num := func(n int64) string { return strconv.FormatInt(n, 10) }
	var text func(t *Term) ([]string, bool)
	text = func(t *Term) ([]string, bool) {
		if s, ok := t.strVal(); ok {
			var out []string
			for i := 0; i < len(s); i++ {
				out = append(out, num(int64(s[i])))
			}
			return out, true
		}
		switch t.op {
		case OpNil:
			return nil, true
		case OpConv:
			if b, ok := t.args[0].typ, true; ok && b == nil {
				return text(t.args[0])
			}
			return text(t.args[0])
		case OpConcat:
			var out []string
			for _, a := range t.args {
				w, ok := text(a)
				if !ok {
					return nil, false
				}
				out = append(out, w...)
			}
			return out, true
		case OpLoad, OpMem:
			if f := d.fieldOfSelf(t.args[0]); f != "" && t.op == OpLoad {
				if w, ok := d.strs[f]; ok {
					return w, true
				}
			}
		case OpSeq:
			es, ss := listOf(t)
			if len(ss) == 0 {
				var out []string
				for _, e1 := range es {
					n, ok := d.eval(e1, tr, e)
					if !ok {
						return nil, false
					}
					out = append(out, num(n))
				}
				return out, true
			}
			if len(es) == 0 && len(ss) == 1 {
				return text(ss[0])
			}
		}
		d.giveUp("the text %s", t)
		return nil, false
	}
	a := o.args
	switch {
	case strings.HasSuffix(o.s, ".WriteByte"):
		n, ok := d.eval(a[0], tr, e)
		return []string{num(n)}, ok
	case strings.HasSuffix(o.s, ".WriteRune"):
		n, ok := d.eval(a[0], tr, e)
		var out []string
		for _, b := range []byte(string(rune(n))) {
			out = append(out, num(int64(b)))
		}
		return out, ok
	}
	return text(a[0])
}

// holds tells whether a path can be taken.
func (d *indenter) holds(tr *itTrans, e *itEnv) (bool, bool) {
	// A path belongs to a context in which some fields have not changed yet.
	for i, f := range d.fields {
		if i < len(tr.head) {
			if v, ok := d.eval(tr.head[i], tr, e); !ok {
				return false, false
			} else if v != e.now[f] {
				return false, true
			}
		}
	}
	for ph, t := range tr.hphi {
		if want, ok := e.phi[ph]; ok {
			if v, ok := d.eval(t, tr, e); !ok {
				return false, false
			} else if v != want {
				return false, true
			}
		}
	}
	for _, c := range tr.conds {
		v, ok := d.eval(c.t, tr, e)
		if !ok {
			return false, false
		}
		if (v != 0) != c.val {
			return false, true
		}
	}
	return true, true
}

// step is the state after a path.
func (d *indenter) step(tr *itTrans, e *itEnv) (*itEnv, bool) {
	n := &itEnv{entry: e.entry, now: map[string]int64{}, phi: map[*ssa.Phi]int64{}}
	for _, f := range d.fields {
		v, ok := d.eval(tr.fields[f], tr, e)
		if !ok {
			return nil, false
		}
		n.now[f] = v
	}
	for ph, t := range tr.phis {
		v, ok := d.eval(t, tr, e)
		if !ok {
			return nil, false
		}
		n.phi[ph] = v
	}
	return n, true
}

func (e *itEnv) key() string {
	return fmt.Sprint(e.entry, e.now) + phiKey(e.phi)
}

func phiKey(m map[*ssa.Phi]int64) string {
	ks := map[string]bool{}
	for ph, v := range m {
		ks[ph.Name()+"="+strconv.FormatInt(v, 10)] = true
	}
	return strings.Join(sortedKeys(ks), ",")
}

// lineSpec is the specification: what is written for a byte, and the state afterwards.
func lineSpec(bol, cr bool, b int64, indent []string, blank bool) (out []string, nbol, ncr bool) {
	nl := func() {
		if bol && blank {
			out = append(out, indent...)
		}
		out = append(out, "10")
		bol, cr = true, false
	}
	switch b {
	case '\n':
		nl()
	case '\r':
		if cr {
			nl()
		}
		cr = true
	default:
		if cr {
			nl()
		}
		if bol {
			out = append(out, indent...)
		}
		out = append(out, strconv.FormatInt(b, 10))
		bol = false
	}
	return out, bol, cr
}

func isOutput(ev *CallEvent) bool {
	return ev.is("(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteRune", "invoke io.Writer.Write", "io.WriteString", "invoke io.StringWriter.WriteString", "invoke io.ByteWriter.WriteByte")
}

func checkIndent(c *Check) {
	c.rule("for every byte value and every state reachable from the initial one, every path through an iteration writes what the specification says: a newline for LF, for a CR followed by anything else, and for CR LF; the indentation before the first byte of a line; every other byte as it is")
	c.rule("every byte is handled, in order; success is only returned after all of them, with their number, and, if a buffer is used, after it was flushed without an error; on failure, the number of bytes completely handled is returned")
	c.rule("the indentation is made of two spaces for each level of nesting and of the prefix; the data goes to the writer given")
	c.rule("the nesting depth of a controller is one more during each call of Run, and no other function changes it")
	fn := c.need("", "Controller.IndentingCopier")
	if fn == nil {
		return
	}
	d := &indenter{c: c, strs: map[string][]string{}, phiOf: map[*Term]*ssa.Phi{}}
	init := map[string]int64{}
	dest := map[string]string{} // fields that lead to the writer: whether they have a buffer
	depthField := ""
	rule := &Rule{keepArgs: allArgs, model: atomicCounters}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		p := unbox(res[0])
		pt, ok := p.typ.(*types.Pointer)
		if p.op != OpAlloc || !ok || structOf(pt.Elem()) == nil {
			x.report(st, fn.Pos(), "new", "the writer is %s, not a new one", res[0])
			return
		}
		c.count("writers made", 1)
		if d.typ != nil && !types.Identical(d.typ, pt) {
			x.report(st, fn.Pos(), "new", "writers of different types are made")
		}
		again := d.typ != nil
		d.typ = pt
		s := structOf(pt.Elem())
		var flatten func(t *Term) []string
		flatten = func(t *Term) []string {
			if k, ok := t.strVal(); ok {
				var out []string
				for i := 0; i < len(k); i++ {
					out = append(out, strconv.Itoa(int(k[i])))
				}
				return out
			}
			switch {
			case t.op == OpConcat:
				var out []string
				for _, a := range t.args {
					out = append(out, flatten(a)...)
				}
				return out
			case t == x.params[2]:
				return []string{"prefix"}
			case t.isPure("strings.Repeat") || callTo(t, "strings.Repeat") != nil:
				if n := unconv(t.args[1]); t.args[0].isStr("  ") && n.op == OpLoad && n.args[0].op == OpField && n.args[0].args[0] == x.params[0] {
					depthField = fieldName(n.args[0].typ, n.args[0].i)
					return []string{"depth"}
				}
			}
			return []string{"(" + t.String() + ")"}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := x.canon(st, x.load(st, x.tt.field(p, i, pt), f.Type()))
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				w := flatten(v)
				if again && strings.Join(w, " ") != strings.Join(d.strs[f.Name()], " ") {
					x.report(st, fn.Pos(), "new:"+f.Name(), "the texts used differ")
				}
				d.strs[f.Name()] = w
				continue
			} else if ok {
				n, ok := constInt(v)
				if !ok {
					x.report(st, fn.Pos(), "new:"+f.Name(), "undecided: the initial value of %s is %s", f.Name(), v)
				}
				if again && init[f.Name()] != n {
					x.report(st, fn.Pos(), "new:"+f.Name(), "the initial values of %s differ", f.Name())
				}
				init[f.Name()] = n
				continue
			}
			v = unbox(v)
			if cl := callTo(v, "bufio.NewWriter", "bufio.NewWriterSize"); cl != nil && unbox(cl.args[0]) == unbox(x.params[1]) {
				dest[f.Name()] = "buffer"
			} else if v == unbox(x.params[1]) {
				dest[f.Name()] = "direct"
			} else if isBytes(f.Type()) && v.op == OpConv {
				d.strs[f.Name()] = flatten(v.args[0])
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("writers made", 1)
	if d.typ == nil {
		return
	}
	w := c.p.method(d.typ, "Write")
	if w == nil || len(w.Params) != 2 {
		c.undecided("write", "the writer has no Write method of its own")
		return
	}
	if len(dest) == 0 {
		c.fail("dest", "the writer does not lead to the one given")
		return
	}
	d.fields = keysOfInt(init)

	var trans, exits []*itTrans
	seen := map[string]bool{}
	var counters map[*ssa.Phi]bool // phis that count the iterations
	counters = map[*ssa.Phi]bool{}
	notCounter := map[*ssa.Phi]bool{}
	type countUse struct {
		ph  *ssa.Phi
		bad func()
	}
	var uses []countUse
	brs := map[string]*ssa.If{}
	rule = &Rule{keepArgs: allArgs}
	logOf := func(st *State, key string) []*Term {
		if t := st.ts[key]; t != nil {
			return t.args
		}
		return nil
	}
	log := func(x *Explorer, st *State, key string, t *Term) {
		st.ts[key] = x.tt.pure("log", append(append([]*Term{}, logOf(st, key)...), t)...)
	}
	isByteLoop := func(x *Explorer, l *loopRec) bool { return l.coll != nil && copied(l.coll) == x.params[1] }
	conds := func(x *Explorer, st *State, header *ssa.BasicBlock) []itCond {
		var out []itCond
		for _, t := range logOf(st, "conds") {
			in := brs[t.s]
			if header != nil && in.Block() == header {
				continue
			}
			cond := t.args[0]
			if isErrTest(cond) || isLenTest(cond, x.params[1]) {
				continue
			}
			out = append(out, itCond{cond, t.args[1].isTrue(), in})
		}
		return out
	}
	fieldsNow := func(x *Explorer, st *State) map[string]*Term {
		m := map[string]*Term{}
		s := structOf(d.typ.Underlying().(*types.Pointer).Elem())
		for _, f := range d.fields {
			i := fieldIndex(d.typ, f)
			m[f] = x.load(st, x.tt.field(x.params[0], i, d.typ), s.Field(i).Type())
		}
		return m
	}
	heads := func(x *Explorer, st *State, l *loopRec) []*Term {
		var out []*Term
		h := &State{heap: copyHeap(l.heap0), facts: map[*Term]bool{}, ts: map[string]*Term{}, epoch: x.tt.mk(Term{op: OpParam, s: "epoch0"})}
		s := structOf(d.typ.Underlying().(*types.Pointer).Elem())
		for _, f := range d.fields {
			i := fieldIndex(d.typ, f)
			a := x.tt.field(x.params[0], i, d.typ)
			out = append(out, x.load(h, a, s.Field(i).Type()))
		}
		return out
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		d.self = x.params[0]
		k := "if" + strconv.Itoa(x.id(ins))
		brs[k] = ins
		log(x, st, "conds", x.tt.pure(k, cond, x.tt.boolean(val)))
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		d.self = x.params[0]
		pos := ev.ins.Pos()
		destOf := func(t *Term) string {
			t = unbox(t)
			if t.op == OpLoad {
				return dest[d.fieldOfSelf(t.args[0])]
			}
			return ""
		}
		switch {
		case ev.is("(*bufio.Writer).Flush"):
			if destOf(ev.args[0]) != "buffer" {
				x.report(st, pos, "flush", "%s is flushed", ev.args[0])
				return
			}
			st.ts["flush"] = orNil(x, ev.errResult(x))
		case isOutput(ev):
			k := destOf(ev.args[0])
			if k == "" {
				x.report(st, pos, "out:dest", "something is written to %s, not to the writer given", ev.args[0])
				return
			}
			c.count("writes", 1)
			log(x, st, "outs", x.tt.pure(ev.name, ev.args[1:]...))
			if k == "buffer" {
				st.ts["dirty"] = flag(x)
				delete(st.ts, "flush")
			}
		default:
			for _, a := range ev.args {
				if destOf(a) != "" {
					x.report(st, pos, "out:call", "undecided: the writer is used by %s", ev.name)
				}
			}
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if !isByteLoop(x, l) {
			if len(logOf(st, "outs")) > 0 {
				x.report(st, headPos(l), "loop", "undecided: output is written in another loop than the one over the bytes given")
			}
			tsClear(st, "conds")
			tsClear(st, "outs")
			return
		}
		c.count("paths through an iteration", 1)
		if !l.inOrder {
			x.report(st, headPos(l), "order", "the bytes are not handled one by one in order")
		}
		if st.ts["done"] != nil {
			x.report(st, headPos(l), "loop", "undecided: there are several loops over the bytes")
		}
		idx := l.idx
		tr := &itTrans{first: l.class == 0, conds: conds(x, st, l.loop.header), outs: logOf(st, "outs"), fields: fieldsNow(x, st), phis: map[*ssa.Phi]*Term{}, hphi: map[*ssa.Phi]*Term{}, pos: headPos(l)}
		if !tr.first {
			tr.head = heads(x, st, l)
		}
		tr.elem = func(t *Term) bool {
			return t.op == OpLoad && t.args[0].op == OpIndex && copied(t.args[0].args[0]) == x.params[1] && t.args[0].args[1] == idx
		}
		if l.class > 0 {
			x.report(st, headPos(l), "loop", "undecided: the loop was unrolled")
		}
		for ph, v := range news {
			if v == x.tt.bin(token.ADD, old[ph], x.tt.num(1), ph.Type()) || old[ph] != nil && v.op == OpConst && old[ph].op == OpConst && isNext(v, old[ph]) {
				if i := l.entry[ph]; i != nil && (i.isInt(0) || i.isInt(-1)) {
					if !notCounter[ph] {
						counters[ph] = true
					}
					continue
				}
			}
			notCounter[ph] = true
			delete(counters, ph)
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
				tr.phis[ph] = v
				if !tr.first {
					tr.hphi[ph] = old[ph]
				}
			}
			if o := old[ph]; o != nil && o.op == OpPhi {
				d.phiOf[o] = ph
			}
		}
		key := fmt.Sprint(tr.first)
		for _, c := range tr.conds {
			key += "|" + tid(c.t) + fmt.Sprint(c.val)
		}
		for _, o := range tr.outs {
			key += ">" + tid(o)
		}
		for _, f := range d.fields {
			key += "," + tid(tr.fields[f])
		}
		for _, h := range tr.head {
			key += "^" + tid(h)
		}
		for ph, v := range tr.phis {
			if v != nil {
				_ = ph
			}
		}
		key += fmt.Sprint(len(tr.phis))
		for _, in := range l.loop.header.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && tr.phis[ph] != nil {
				key += ";" + tid(tr.phis[ph])
			}
		}
		if !seen[key] {
			seen[key] = true
			trans = append(trans, tr)
		}
		tsClear(st, "conds")
		tsClear(st, "outs")
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if !isByteLoop(x, l) {
			return
		}
		st.ts["in"] = orNil(x, l.idx)
		if !exhausted(l, from) {
			return
		}
		st.ts["done"] = flag(x)
		if l.class == 0 {
			st.ts["none"] = flag(x)
		} else {
			st.ts["head"] = x.tt.pure("log", heads(x, st, l)...)
		}
		k := "loop:" + l.name
		st.ts[k] = flag(x)
		brs[k] = nil
		// what was decided before, and in the header, is known
		var keep []*Term
		for _, t := range logOf(st, "conds") {
			if brs[t.s] == nil || brs[t.s].Block() != l.loop.header {
				keep = append(keep, t)
			}
		}
		st.ts["conds"] = x.tt.pure("log", keep...)
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		d.self = x.params[0]
		pos := w.Pos()
		buf := x.params[1]
		empty := knownEmpty(x, st, func(t *Term) bool { return copied(t) == buf })
		isCount := func(t *Term, bad func()) {
			if t.op == OpPhi {
				if ph, ok := t.ins.(*ssa.Phi); ok {
					uses = append(uses, countUse{ph, bad})
					return
				}
			}
			bad()
		}
		done := st.ts["done"] != nil
		if x.knownNonNil(st, res[1]) {
			c.count("failures", 1)
			bad := func() {
				x.report(st, pos, "count:err", "the number of bytes reported on failure (%s) is not that of the bytes handled", res[0])
			}
			switch {
			case done || empty:
				if res[0] != x.tt.length(buf) && !(res[0].isInt(0) && (empty || st.ts["none"] != nil)) {
					isCount(res[0], bad)
				}
			case st.ts["in"] == nil:
				if !res[0].isInt(0) {
					bad()
				}
			case res[0] == st.ts["in"]:
			default:
				isCount(res[0], bad)
			}
			return
		}
		c.count("successes", 1)
		if !done && !empty {
			x.report(st, pos, "early", "success may be reported before all bytes were handled")
			return
		}
		if res[0] != x.tt.length(buf) && !(res[0].isInt(0) && (empty || st.ts["none"] != nil)) {
			isCount(res[0], func() {
				x.report(st, pos, "count", "the number of bytes reported (%s) is not that of the bytes given", res[0])
			})
		}
		if st.ts["dirty"] != nil {
			fl := st.ts["flush"]
			if fl == nil {
				x.report(st, pos, "unflushed", "data may stay in the buffer after the call")
			} else if fl != res[1] && !x.knownNil(st, fl) {
				x.report(st, pos, "flush:err", "an error of flushing the buffer may be lost")
			}
		}
		tr := &itTrans{first: st.ts["none"] != nil || !done, conds: conds(x, st, nil), outs: logOf(st, "outs"), fields: fieldsNow(x, st), head: logOf(st, "head"), pos: pos}
		if len(tr.outs) > 0 {
			x.report(st, pos, "trailer", "something is written at the end of a call (%s), wherever the data is split", tr.outs)
		}
		exits = append(exits, tr)
	}
	c.explore(w, rule, nil, nil)
	for _, n := range []string{"paths through an iteration", "writes", "successes", "failures"} {
		c.atLeast(n, 1)
	}
	for _, u := range uses {
		if !counters[u.ph] {
			u.bad()
		}
	}

	// compare with the specification
	indent := []string{"depth", "prefix"}
	var verdicts []map[string]string
	for _, blank := range []bool{false, true} {
		verdicts = append(verdicts, d.compare(trans, exits, init, indent, blank))
	}
	if len(verdicts[0]) > 0 && len(verdicts[1]) > 0 {
		for k, v := range verdicts[0] {
			c.fail(k, "%s", v)
		}
	}

	c.checkDepth(depthField)
}

func isNext(v, old *Term) bool {
	a, ok1 := v.intVal()
	b, ok2 := old.intVal()
	return ok1 && ok2 && a == b+1
}

func keysOfInt(m map[string]int64) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedKeys(s)
}

// isErrTest: a comparison of the error of a call with nil.
func isErrTest(t *Term) bool {
	if t.op == OpNot {
		t = t.args[0]
	}
	if t.op != OpBin || t.s != "==" && t.s != "!=" {
		return false
	}
	for i, a := range t.args {
		if o := t.args[1-i]; o.isNil() && (a.op == OpCall || a.op == OpExtract || a.op == OpWrap) {
			return true
		}
	}
	return false
}

// isLenTest: a comparison of the length of the data with a constant.
func isLenTest(t, buf *Term) bool {
	if t.op == OpNot {
		t = t.args[0]
	}
	if t.op != OpBin {
		return false
	}
	for i, a := range t.args {
		if o := t.args[1-i]; a.isPure("len") && copied(a.args[0]) == buf && o.isInt(0) {
			return true
		}
	}
	return false
}

// compare follows all pairs of a state of the code and a state of the specification.
func (d *indenter) compare(trans, exits []*itTrans, init map[string]int64, indent []string, blank bool) map[string]string {
	bad := map[string]string{}
	type node struct {
		env     *itEnv
		loop    bool
		bol, cr bool
	}
	seen := map[string]bool{}
	var work []node
	add := func(n node) {
		k := n.env.key() + fmt.Sprint(n.loop, n.bol, n.cr)
		if !seen[k] {
			seen[k] = true
			work = append(work, n)
		}
	}
	add(node{&itEnv{entry: init, now: init, phi: map[*ssa.Phi]int64{}}, false, true, false})
	pairs := 0
	where := func(n node, b int64) string {
		s := "in the middle of a line"
		if n.bol {
			s = "at the beginning of a line"
		}
		if n.cr {
			s += ", after a CR"
		}
		return fmt.Sprintf("%s, the byte %s", s, strconv.QuoteRune(rune(b)))
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if len(seen) > 3000 {
			bad["undecided:states"] = "undecided: the writer has too many states"
			break
		}
		for b := int64(0); b < 256; b++ {
			e := *n.env
			e.b = b
			want, nbol, ncr := lineSpec(n.bol, n.cr, b, indent, blank)
			found := false
			for _, tr := range trans {
				if tr.first == n.loop {
					continue
				}
				h, ok := d.holds(tr, &e)
				if !ok {
					bad["undecided:iteration"] = "undecided: a condition in the loop over the bytes is not understood: " + d.why
					return bad
				}
				if !h {
					continue
				}
				found = true
				pairs++
				var got []string
				for _, o := range tr.outs {
					w, ok := d.words(o, tr, &e)
					if !ok {
						bad["undecided:output"] = "undecided: what is written is not understood: " + d.why
						return bad
					}
					got = append(got, w...)
				}
				if strings.Join(got, " ") != strings.Join(want, " ") {
					cl := "other"
					if b == '\n' || b == '\r' {
						cl = strconv.Itoa(int(b))
					}
					k := fmt.Sprintf("output:%v:%v:%s", n.bol, n.cr, cl)
					if bad[k] == "" {
						bad[k] = fmt.Sprintf("%s: %s leads to the output [%s], want [%s]", d.c.p.posStr(tr.pos), where(n, b), tokensText(got), tokensText(want))
					}
					continue
				}
				ne, ok := d.step(tr, &e)
				if !ok {
					bad["undecided:state"] = "undecided: the state after a byte is not understood: " + d.why
					return bad
				}
				add(node{ne, true, nbol, ncr})
			}
			if !found {
				bad["undecided:nopath"] = "undecided: no path was found for " + where(n, b)
				return bad
			}
		}
		some := false
		for _, tr := range exits {
			if tr.first == n.loop {
				continue
			}
			e := *n.env
			h, ok := d.holds(tr, &e)
			if !ok {
				bad["undecided:exit"] = "undecided: a condition at the end of Write is not understood: " + d.why
				return bad
			}
			if !h {
				continue
			}
			some = true
			ne, ok := d.step(tr, &e)
			if !ok {
				bad["undecided:state"] = "undecided: the state after a call is not understood: " + d.why
				return bad
			}
			add(node{&itEnv{entry: ne.now, now: ne.now, phi: map[*ssa.Phi]int64{}}, false, n.bol, n.cr})
		}
		if n.loop && !some {
			bad["undecided:noexit"] = "undecided: no successful end of Write was found"
			return bad
		}
	}
	d.c.count("transitions compared", pairs)
	d.c.count("pairs of states", len(seen))
	return bad
}

func tokensText(ws []string) string {
	var out []string
	for _, w := range ws {
		if n, err := strconv.Atoi(w); err == nil {
			out = append(out, strconv.QuoteRune(rune(n)))
		} else {
			out = append(out, w)
		}
	}
	return strings.Join(out, " ")
}

// checkDepth follows the nesting depth.
func (c *Check) checkDepth(field string) {
	if field == "" {
		c.fail("depth", "the indentation does not have two spaces for each level of nesting, or the prefix")
		return
	}
	run := c.need("", "Controller.Run")
	ct := c.namedType("", "Controller")
	if run == nil || ct == nil {
		return
	}
	writers := map[*ssa.Function]bool{}
	for _, f := range c.p.srcFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					addr = in.Addr
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil && atomicOp(fnName(g)) != "" && atomicOp(fnName(g)) != "Load" {
						addr = in.Common().Args[0]
					}
				}
				fa, ok := addr.(*ssa.FieldAddr)
				if !ok || typeKey(deref(fa.X.Type())) != typeKey(ct) || fieldName(fa.X.Type(), fa.Field) != field {
					continue
				}
				writers[f] = true
			}
		}
	}
	reached := map[*ssa.Function]bool{}
	rule := &Rule{keepArgs: allArgs, forget: true, model: atomicCounters}
	isDepth := func(x *Explorer, a *Term) bool {
		return a.op == OpField && a.args[0] == x.params[0] && fieldName(a.typ, a.i) == field
	}
	rule.onEnter = func(x *Explorer, st *State, fn *ssa.Function, args []*Term) { reached[fn] = true }
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		// During a call of Run, the depth is at least one.
		if cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if st.ts["depth"] == nil || cond.op != OpBin {
			return
		}
		at := func(t *Term) bool {
			for t.op == OpConv {
				t = t.args[0]
			}
			return (t.op == OpLoad || t.op == OpMem) && isDepth(x, t.args[0])
		}
		a, b := cond.args[0], cond.args[1]
		switch {
		case cond.s == "<" && a.isInt(0) && at(b) && !val, cond.s == "<=" && at(a) && b.isInt(0) && val, cond.s == "<" && at(a) && b.isInt(1) && val,
			cond.s == "==" && (at(a) && b.isInt(0) || at(b) && a.isInt(0)) && val, cond.s == "<=" && a.isInt(1) && at(b) && !val:
			st.dead = true
		}
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if !isDepth(x, addr) {
			return
		}
		reached[ins.Parent()] = true
		c.count("changes of the depth", 1)
		switch {
		case isStep(val, addr, token.ADD):
			if st.ts["depth"] != nil {
				x.report(st, ins.Pos(), "depth:twice", "the nesting depth is increased twice")
			}
			st.ts["depth"] = flag(x)
		case val.isInt(0) && st.ts["was"] != nil && negative(st, addr):
			// It cannot be less than the number of calls in progress.
		case isStep(val, addr, token.SUB):
			if st.ts["depth"] == nil {
				x.report(st, ins.Pos(), "depth:minus", "the nesting depth is decreased although it was not increased")
			}
			delete(st.ts, "depth")
			st.ts["was"] = flag(x)
		default:
			x.report(st, ins.Pos(), "depth:set", "the nesting depth is set to %s", val)
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name == targetRun {
			c.count("targets run", 1)
			if st.ts["depth"] == nil {
				x.report(st, ev.ins.Pos(), "depth:run", "a target is run without increasing the nesting depth")
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if st.ts["depth"] != nil {
			x.report(st, run.Pos(), "depth:left", "the nesting depth stays increased at the end of Run")
		}
	}
	c.explore(run, rule, nil, nil)
	c.atLeast("changes of the depth", 2)
	c.atLeast("targets run", 1)
	for f := range writers {
		ok := reached[f] || !token.IsExported(f.Name()) && !c.p.referenced(f)
		if !ok && f.Object() != nil && f.Name() == "NewController" {
			ok = true
		}
		if !ok {
			c.fail("depth:writer:"+fnName(f), "%s: %s changes the nesting depth, too", c.p.posStr(f.Pos()), fnName(f))
		}
	}
}

// atomicOp is the operation that a function of package sync/atomic does on an integer.
func atomicOp(name string) string {
	if m, ok := strings.CutPrefix(name, "(*sync/atomic."); ok {
		t, op, _ := strings.Cut(m, ").")
		if oneOf(t, "Int32", "Int64", "Uint32", "Uint64") {
			return op
		}
	}
	if m, ok := strings.CutPrefix(name, "sync/atomic."); ok {
		for _, op := range []string{"Load", "Add", "Store", "Swap", "CompareAndSwap"} {
			if oneOf(m, op+"Int32", op+"Int64", op+"Uint32", op+"Uint64") {
				return op
			}
		}
	}
	return ""
}

// atomicCounters treats the operations of package sync/atomic on integers as reads and writes of them.
func atomicCounters(x *Explorer, st *State, ev *CallEvent) (*Term, bool) {
	op := atomicOp(ev.name)
	if op == "" || len(ev.raw) == 0 {
		return nil, false
	}
	addr := ev.raw[0]
	typ := types.Typ[types.Int64]
	// others may change it at any time
	delete(st.heap, addr)
	old := x.load(st, addr, typ)
	set := func(v *Term) {
		if x.rule.onStore != nil {
			x.rule.onStore(x, st, addr, v, ev.ins)
		}
		for f := range st.facts {
			if f.contains(old) {
				delete(st.facts, f)
			}
		}
	}
	switch op {
	case "Load":
		return old, true
	case "Add":
		v := x.tt.bin(token.ADD, old, ev.raw[1], typ)
		set(v)
		return v, true
	case "Store":
		set(ev.raw[1])
		return x.tt.null(), true
	case "Swap":
		set(ev.raw[1])
		return old, true
	}
	return nil, false
}

// isStep: val is what is at addr, plus or minus one.
func isStep(val, addr *Term, op token.Token) bool {
	for val.op == OpConv {
		val = val.args[0]
	}
	if val.op != OpBin || len(val.args) != 2 {
		return false
	}
	at := func(t *Term) bool {
		for t.op == OpConv {
			t = t.args[0]
		}
		return (t.op == OpLoad || t.op == OpMem) && t.args[0] == addr || t.op != OpConst
	}
	n, ok := val.args[1].intVal()
	if !ok || !at(val.args[0]) {
		return false
	}
	switch val.s {
	case "+":
		return op == token.ADD && n == 1 || op == token.SUB && n == -1
	case "-":
		return op == token.SUB && n == 1 || op == token.ADD && n == -1
	}
	return false
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// negative tells whether what is at addr is known to be negative.
func negative(st *State, addr *Term) bool {
	for f, v := range st.facts {
		if v && f.op == OpBin && f.s == "<" && f.args[1].isInt(0) && (isStep(f.args[0], addr, token.SUB) || isLoadOf(f.args[0], addr)) {
			return true
		}
	}
	return false
}

// referenced tells whether a function is used anywhere outside tests.
func (p *Program) referenced(fn *ssa.Function) bool {
	var buf [16]*ssa.Value
	for _, f := range p.srcFns {
		if f == fn {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(buf[:0]) {
					if *o == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}
