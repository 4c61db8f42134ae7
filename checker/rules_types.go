package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "checkImplementsTarget and the comparison functions under it are explored over all paths. For every way to accept, the equalities, the comparisons of parts and the loops over parts that were done are collected and compared with a table of what each type constructor requires; every way to reject must rest on one of these being false.", checkTypeMatch)
}

// matcher follows the comparison of a type of package types with a type of package reflect.
type matcher struct {
	c     *Check
	names map[*Term]string // the parameters
}

// canon is a name for what a term gets from the two types: a path of accessors.
func (m *matcher) canon(t *Term) string {
	t = unconv(t)
	if n := m.names[t]; n != "" {
		return n
	}
	if t.op == OpConst {
		return "=" + t.val.ExactString()
	}
	switch t.op {
	case OpNil:
		return "=nil"
	case OpAssert:
		return m.canon(t.args[0])
	case OpFieldV:
		return m.canon(t.args[0]) + "." + fieldName(t.typ, t.i)
	case OpExtract:
		return m.canon(t.args[0]) + "#" + strconv.Itoa(t.i)
	case OpField:
		if fieldName(t.typ, t.i) == "object" {
			return m.canon(t.args[0])
		}
	case OpPure:
		var name string
		switch {
		case t.s == "go/types.NewMethodSet":
			return m.canon(t.args[0]) + ".MethodSet"
		case hasPrefixAny(t.s, "(*go/types.", "invoke go/types.", "invoke reflect.Type."):
			name = t.s[strings.LastIndex(t.s, ".")+1:]
		default:
			return "?" + tid(t)
		}
		r := m.canon(t.args[0])
		if name == "Obj" && strings.Contains(t.s, "Selection") {
			return r
		}
		r += "." + name
		for _, a := range t.args[1:] {
			if a.isNil() {
				continue
			}
			if b, ok := a.typOr(types.Typ[types.String]).Underlying().(*types.Basic); ok && (name == "MethodByName" || b.Info()&types.IsInteger == 0 && name == "Lookup") {
				r += "[" + m.canon(a) + "]"
			} else {
				b, off := splitSum(a)
				if b == nil {
					r += fmt.Sprintf("<%d>", off)
				} else {
					r += fmt.Sprintf("<t%s%+d>", tid(b), off)
				}
			}
		}
		return r
	}
	return "?" + tid(t)
}

// splitSum splits a term into something and a constant.
func splitSum(t *Term) (*Term, int64) {
	t = unconv(t)
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.op == OpBin && (t.s == "+" || t.s == "-") {
		a, ao := splitSum(t.args[0])
		b, bo := splitSum(t.args[1])
		switch {
		case t.s == "+" && a == nil:
			return b, ao + bo
		case t.s == "+" && b == nil:
			return a, ao + bo
		case t.s == "-" && b == nil:
			return a, ao - bo
		case t.s == "-" && a == b:
			return nil, ao - bo
		}
	}
	return t, 0
}

// equality is a name for an equation: a==b+d.
func (m *matcher) equality(a, b *Term) string {
	ab, ao := splitSum(a)
	bb, bo := splitSum(b)
	if ab == nil || bb == nil {
		ab, ao, bb, bo = unconv(a), 0, unconv(b), 0
	}
	x, y := m.canon(ab), m.canon(bb)
	d := bo - ao
	if x > y && !strings.HasPrefix(y, "=") || strings.HasPrefix(x, "=") {
		x, y, d = y, x, -d
	}
	if d != 0 {
		return fmt.Sprintf("%s==%s%+d", x, y, d)
	}
	return x + "==" + y
}

// branch notes what is known from a branch.
func (m *matcher) branch(x *Explorer, st *State, cond *Term, val bool) {
	for cond.op == OpNot {
		cond, val = cond.args[0], !val
	}
	set := func(k string) { st.ts[k] = flag(x) }
	pre := "no:"
	if val {
		pre = "yes:"
	}
	switch {
	case cond.op == OpBin && cond.s == "==":
		set(pre + m.equality(cond.args[0], cond.args[1]))
		m.table(x, st, cond, val)
	case cond.op == OpBin && cond.s == "<":
		if i, off := splitSum(cond.args[0]); off == 0 {
			k := "0"
			if i != nil {
				k = "t" + tid(i)
				st.ts["keep:"+k] = i
			}
			if !val {
				st.ts["bound:"+k] = x.tt.str(m.canon(cond.args[1]))
			}
		}
	case cond.op == OpLoad && cond.args[0].op == OpMapHas:
		if k := cond.args[0].args[1]; val && m.isPair(k) {
			set("seen")
		}
	default:
		set(pre + m.canon(cond))
	}
}

// isPair: a struct of the two types compared, and nothing else.
func (m *matcher) isPair(k *Term) bool {
	if k.op != OpStruct || len(k.args) != 2 {
		return false
	}
	a, b := m.names[unbox(k.args[0])], m.names[unbox(k.args[1])]
	return a == "T" && b == "R" || a == "R" && b == "T"
}

// table handles kinds looked up in a map that is never changed.
func (m *matcher) table(x *Explorer, st *State, cond *Term, val bool) {
	for i, a := range cond.args {
		a = unconv(a)
		if a.op != OpLoad || a.args[0].op != OpMapElem || m.canon(a.args[0].args[1]) != "T.Kind" || m.canon(cond.args[1-i]) != "R.Kind" {
			continue
		}
		g := a.args[0].args[0]
		if (g.op == OpMem || g.op == OpLoad) && g.args[0].op == OpGlobal {
			if val {
				st.ts["table"] = g.args[0]
			} else {
				st.ts["notable"] = g.args[0]
			}
		}
	}
}

// constMap gives the entries of a global map with constant keys and values that is only set by its initializer.
func (c *Check) constMap(g *ssa.Global) map[int64]int64 {
	var mk ssa.Value
	for _, f := range c.p.srcFns {
		if f.Name() == "init" && f.Pkg == g.Pkg && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return nil
				}
			}
		}
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	out := map[int64]int64{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				mk = s.Val
			}
		}
	}
	if mk == nil {
		return nil
	}
	for _, r := range *mk.Referrers() {
		u, ok := r.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		k, ok1 := u.Key.(*ssa.Const)
		v, ok2 := u.Value.(*ssa.Const)
		if !ok1 || !ok2 || k.Value == nil || v.Value == nil || k.Value.Kind() != constant.Int || v.Value.Kind() != constant.Int {
			return nil
		}
		out[k.Int64()] = v.Int64()
	}
	return out
}

var idxRE = regexp.MustCompile(`<(t[^<>+-]*)?([+-]?[0-9]+)>`)

// counted handles the loops over parts.
func (m *matcher) backEdge(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
	var ph *ssa.Phi
	for p, nv := range news {
		o := old[p]
		if o == nil || l.entry[p] == nil || !l.entry[p].isInt(0) {
			continue
		}
		ob, oo := splitSum(o)
		nb, no := splitSum(nv)
		if ob == nb && no == oo+1 {
			ph = p
		}
	}
	if ph == nil {
		st.ts["each:"+l.name] = x.tt.str("") // not a loop over parts, one by one
		return
	}
	obs := map[string]bool{}
	ob, oo := splitSum(old[ph])
	rel := func(s string) string {
		return idxRE.ReplaceAllStringFunc(s, func(g string) string {
			sm := idxRE.FindStringSubmatch(g)
			n, _ := strconv.ParseInt(sm[2], 10, 64)
			if ob == nil && sm[1] == "" || ob != nil && sm[1] == "t"+tid(ob) {
				return fmt.Sprintf("<%d>", n-oo)
			}
			return "<?>"
		})
	}
	for _, k := range tsKeys(st, "yes:") {
		obs[rel(strings.TrimPrefix(k, "yes:"))] = true
	}
	for _, k := range tsKeys(st, "rec:") {
		if x.knownNil(st, st.ts[k]) {
			obs[rel(k)] = true
		}
	}
	for k := range obs {
		if !strings.Contains(k, "<") {
			delete(obs, k)
		}
	}
	key := "each:" + l.name
	list := strings.Join(sortedKeys(obs), "\n")
	if p := st.ts[key]; p != nil {
		s, _ := p.strVal()
		var both []string
		for _, o := range strings.Split(s, "\n") {
			if obs[o] {
				both = append(both, o)
			}
		}
		list = strings.Join(both, "\n")
	}
	st.ts[key] = x.tt.str(list)
	for _, k := range append(tsKeys(st, "yes:"), append(tsKeys(st, "rec:"), tsKeys(st, "no:")...)...) {
		if strings.Contains(k, "<") {
			delete(st.ts, k)
		}
	}
	tsClear(st, "keep:t")
	tsClear(st, "bound:")
}

func (m *matcher) loopExit(x *Explorer, st *State, l *loopRec, from *ssa.BasicBlock) {
	each := st.ts["each:"+l.name]
	delete(st.ts, "each:"+l.name)
	if !exhausted(l, from) {
		return
	}
	for _, v := range l.phi0 {
		if v == nil {
			continue
		}
		b, _ := splitSum(v)
		k := "bound:0"
		if b != nil {
			k = "bound:t" + tid(b)
		}
		n := st.ts[k]
		if n == nil {
			continue
		}
		s, _ := n.strVal()
		if each == nil {
			st.ts["zero:"+s] = flag(x)
			continue
		}
		list, _ := each.strVal()
		for _, o := range strings.Split(list, "\n") {
			st.ts["all:"+s+":"+o] = flag(x)
		}
	}
	tsClear(st, "keep:t")
	tsClear(st, "bound:")
}

// accepted tells whether an exit accepts, rejects, or hands on the result of a comparison of parts.
func (m *matcher) accepted(x *Explorer, st *State, e *Term) (accept, reject bool) {
	if x.knownNil(st, e) {
		return true, false
	}
	if x.knownNonNil(st, e) {
		return false, true
	}
	for _, k := range tsKeys(st, "rec:") {
		if st.ts[k] == e || unwrapErr(e) == st.ts[k] {
			return x.assumeNil(st, e), true // either
		}
	}
	return x.assumeNil(st, e), true
}

// because tells whether a rejection rests on the comparison of parts.
func (m *matcher) because(x *Explorer, st *State, e *Term) bool {
	for _, k := range tsKeys(st, "rec:") {
		if err := st.ts[k]; x.knownNonNil(st, err) || unwrapErr(e) == err {
			return true
		}
	}
	return false
}

func (m *matcher) has(st *State, k string) bool {
	if st.ts[k] != nil {
		return true
	}
	// an equation of truth values
	pre, eq, _ := strings.Cut(k, ":")
	if a, b, ok := strings.Cut(eq, "=="); ok && oneOf(pre, "yes", "no") {
		ay, an, by, bn := st.ts["yes:"+a], st.ts["no:"+a], st.ts["yes:"+b], st.ts["no:"+b]
		if pre == "yes" {
			return ay != nil && by != nil || an != nil && bn != nil
		}
		return ay != nil && bn != nil || an != nil && by != nil
	}
	return false
}

func (m *matcher) all(st *State, n, ob string) bool {
	return st.ts["zero:"+n] != nil || st.ts["all:"+n+":"+ob] != nil
}

// typeFacts gives what is known about the dynamic type of T.
func typeFacts(st *State, t *Term) (is string, not map[string]bool) {
	not = map[string]bool{}
	for f, v := range st.facts {
		if f.op != OpIsType || f.args[0] != t {
			continue
		}
		n := strings.TrimPrefix(types.TypeString(f.typ, nil), "*go/types.")
		if v {
			is = n
		} else {
			not[n] = true
		}
	}
	return is, not
}

// reflectKind is the number of a kind of package reflect.
func (c *Check) extConst(pkg, name string) (int64, bool) {
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				n, ok := constant.Int64Val(k.Val())
				return n, ok
			}
		}
	}
	return 0, false
}

func checkTypeMatch(c *Check) {
	c.rule("checkImplementsTarget accepts a type only after every method of the Target interface was found in its method set as a function whose signature was compared with that method, receiver included, without a difference, the comparison having a set of assumptions of its own")
	c.rule("signatures match if both are functions, variadic or not, have the same number of parameters (plus the receiver, if there is one) and results, and all parameter types and result types match in pairs")
	c.rule("named types match if they have the same name in the same package, and no other types; unnamed types match if they have the same kind and no name, and the same length, direction, fields (name, tag and type), methods (name and signature), key and element types")
	c.rule("a pair of types is assumed to match only while it is being compared; no rejection has another reason than one of these differences, or a kind of type that no method of a target has")
	top := c.need("", "checkImplementsTarget")
	if top == nil || len(top.Params) != 1 {
		return
	}
	// the comparison functions
	var S, T *ssa.Function
	find := func(f *ssa.Function) (tp, rp, bp int) {
		tp, rp, bp = -1, -1, -1
		for i, p := range f.Params {
			switch types.TypeString(p.Type(), nil) {
			case "*go/types.Signature":
				tp = i
			case "go/types.Type":
				tp = i
			case "reflect.Type":
				rp = i
			case "bool":
				bp = i
			}
		}
		return
	}
	isSig := func(f *ssa.Function) bool {
		tp, rp, _ := find(f)
		return tp >= 0 && rp >= 0 && strings.HasSuffix(f.Params[tp].Type().String(), "Signature")
	}
	isTyp := func(f *ssa.Function) bool {
		tp, rp, _ := find(f)
		return tp >= 0 && rp >= 0 && !isSig(f)
	}
	var reach func(f *ssa.Function, want func(f *ssa.Function) bool, seen map[*ssa.Function]bool) *ssa.Function
	reach = func(f *ssa.Function, want func(f *ssa.Function) bool, seen map[*ssa.Function]bool) *ssa.Function {
		var next []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && isModPath(fnPkgPath(g)) && !seen[g] {
						seen[g] = true
						if want(g) {
							return g
						}
						next = append(next, g)
					}
				}
			}
		}
		for _, g := range next {
			if r := reach(g, want, seen); r != nil {
				return r
			}
		}
		return nil
	}
	S = reach(top, isSig, map[*ssa.Function]bool{})
	if S != nil {
		T = reach(S, isTyp, map[*ssa.Function]bool{})
	}
	if S == nil || T == nil {
		c.undecided("functions", "the functions that compare signatures and types were not found")
		return
	}
	sT, sR, sB := find(S)
	tT, tR, _ := find(T)
	sName, tName := fnName(S), fnName(T)
	recs := func(m *matcher, rule *Rule) {
		rule.keepArgs = func(n string) bool { return false }
		rule.stop = stopAt(sName, tName)
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			switch ev.name {
			case sName:
				mode := ""
				if sB >= 0 {
					switch {
					case ev.args[sB].isTrue():
						mode = "|recv"
					case ev.args[sB].isFalse():
						mode = "|norecv"
					default:
						mode = "|?"
					}
				}
				st.ts["rec:"+m.canon(ev.args[sT])+"|"+m.canon(ev.args[sR])+mode] = orNil(x, ev.errResult(x))
				c.count("comparisons of parts", 1)
			case tName:
				st.ts["rec:"+m.canon(ev.args[tT])+"|"+m.canon(ev.args[tR])] = orNil(x, ev.errResult(x))
				c.count("comparisons of parts", 1)
			}
		}
		rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) { m.branch(x, st, cond, val) }
		rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			m.backEdge(x, st, l, old, news)
		}
		rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) { m.loopExit(x, st, l, from) }
	}
	notFunc := func(st *State, not *Term) bool {
		for f, v := range st.facts {
			if f.op == OpIsType && !v && f.args[0] != not && oneOf(types.TypeString(f.typ, nil), "*go/types.Func", "*go/types.Signature") {
				return true
			}
		}
		return false
	}

	// signatures
	kFunc, _ := c.extConst("reflect", "Func")
	sKind := true // the signature comparison checks the kind
	rule := &Rule{}
	m := &matcher{c: c, names: map[*Term]string{}}
	recs(m, rule)
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		e := last(res)
		accept, reject := m.accepted(x, st, e)
		want := []string{"R.IsVariadic==S.Variadic", "R.NumOut==S.Results.Len"}
		off := int64(0)
		recv, known := false, true
		if sB >= 0 {
			switch {
			case m.has(st, "no:B"), m.has(st, "yes:S.Recv==="+"nil"):
			case m.has(st, "yes:B") && m.has(st, "no:S.Recv===nil"):
				recv, off = true, 1
			default:
				known = false
			}
		}
		arity := "R.NumIn==S.Params.Len"
		if off != 0 {
			arity = fmt.Sprintf("R.NumIn==S.Params.Len%+d", off)
		}
		_ = recv
		if accept {
			c.count("ways to accept a signature", 1)
			for _, w := range append(want, arity) {
				if !m.has(st, "yes:"+w) {
					if w == arity && !known {
						x.report(st, S.Pos(), "sig:recv", "signatures are accepted without knowing whether there is a receiver")
					} else {
						x.report(st, S.Pos(), "sig:"+w, "signatures are accepted although %s may not hold", w)
					}
				}
			}
			if !m.has(st, fmt.Sprintf("yes:R.Kind===%d", kFunc)) {
				sKind = false
			}
			if ob := fmt.Sprintf("rec:S.Params.At<0>.Type|R.In<%d>", off); !m.all(st, "S.Params.Len", ob) {
				x.report(st, S.Pos(), "sig:params", "signatures are accepted although not all types of parameters were compared")
			}
			if !m.all(st, "S.Results.Len", "rec:S.Results.At<0>.Type|R.Out<0>") {
				x.report(st, S.Pos(), "sig:results", "signatures are accepted although not all types of results were compared")
			}
		}
		if reject && !m.because(x, st, e) {
			c.count("ways to reject a signature", 1)
			ok := m.has(st, fmt.Sprintf("no:R.Kind===%d", kFunc)) || known && m.has(st, "no:"+arity)
			for _, w := range want {
				ok = ok || m.has(st, "no:"+w)
			}
			if !ok {
				x.report(st, S.Pos(), "sig:reject", "signatures are rejected although nothing was found to differ")
			}
		}
	}
	c.explore(S, rule, nil, func(x *Explorer, st *State) {
		m.names[x.params[sT]] = "S"
		m.names[x.params[sR]] = "R"
		if sB >= 0 {
			m.names[x.params[sB]] = "B"
		}
		for i, p := range x.params {
			st.ts["keep:"+strconv.Itoa(i)] = p
		}
	})

	// types
	mt := &matcher{c: c, names: map[*Term]string{}}
	rule = &Rule{}
	recs(mt, rule)
	kind := map[string]int64{}
	for k, n := range map[string]string{"Array": "Array", "Chan": "Chan", "Interface": "Interface", "Map": "Map", "Pointer": "Ptr", "Signature": "Func", "Slice": "Slice", "Struct": "Struct"} {
		kind[k], _ = c.extConst("reflect", n)
	}
	basics := map[int64]int64{}
	basicName := map[int64]string{}
	for _, n := range []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Uintptr", "Float32", "Float64", "Complex64", "Complex128", "String", "UnsafePointer"} {
		a, ok1 := c.extConst("go/types", n)
		b, ok2 := c.extConst("reflect", n)
		if !ok1 || !ok2 {
			c.undecided("kinds", "the kind %s is not known", n)
		}
		basics[a] = b
		basicName[a] = n
	}
	dirs := map[int64]int64{int64(types.SendRecv): int64(reflect.BothDir), int64(types.SendOnly): int64(reflect.SendDir), int64(types.RecvOnly): int64(reflect.RecvDir)}
	okBasic, okDir, okKind := map[int64]bool{}, map[int64]bool{}, map[string]bool{}
	numbers := func(st *State, pre string) []int64 {
		var out []int64
		for _, k := range tsKeys(st, pre) {
			if n, err := strconv.ParseInt(strings.TrimPrefix(k, pre), 10, 64); err == nil {
				out = append(out, n)
			}
		}
		return out
	}
	// pairOf checks two enumerations that correspond to each other.
	pairOf := func(st *State, a, b string, table map[int64]int64) (av int64, same, differ bool) {
		as, bs, nbs := numbers(st, "yes:"+a+"==="), numbers(st, "yes:"+b+"==="), numbers(st, "no:"+b+"===")
		if len(as) != 1 {
			// none of those with a counterpart
			no := map[int64]bool{}
			for _, n := range numbers(st, "no:"+a+"===") {
				no[n] = true
			}
			var left []int64
			for k := range table {
				if !no[k] {
					left = append(left, k)
				}
			}
			if len(left) == 0 {
				return 0, false, true
			}
			if len(left) > 1 || a != "T.Dir" {
				return 0, false, false
			}
			as = left // the only other direction
		}
		want, ok := table[as[0]]
		if !ok {
			return as[0], false, true
		}
		for _, n := range bs {
			if n == want {
				return as[0], true, false
			}
			differ = true
		}
		for _, n := range nbs {
			if n == want {
				differ = true
			}
		}
		return as[0], false, differ
	}
	rule.onMapSet = func(x *Explorer, st *State, mm, k, v *Term, ins ssa.Instruction) {
		if k.op == OpStruct && !mt.isPair(k) {
			x.report(st, ins.Pos(), "seen:other", "something else than the types being compared is assumed to match (%s)", k)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		e := last(res)
		accept, reject := mt.accepted(x, st, e)
		t := x.params[tT]
		is, not := typeFacts(st, t)
		y := func(k string) bool { return mt.has(st, "yes:"+k) }
		n := func(k string) bool { return mt.has(st, "no:"+k) }
		bad := func(what string) {
			x.report(st, T.Pos(), "accept:"+is+":"+what, "types are accepted as the same %s although %s", is, what)
		}
		if mt.has(st, "seen") {
			if !accept || reject {
				x.report(st, T.Pos(), "seen:reject", "types being compared already are not taken to match")
			}
			return
		}
		rec := func(a, b string) bool {
			for _, k := range tsKeys(st, "rec:") {
				if (k == "rec:"+a+"|"+b || strings.HasPrefix(k, "rec:"+a+"|"+b+"|")) && (x.knownNil(st, st.ts[k]) || st.ts[k] == e) {
					return true
				}
			}
			return false
		}
		unnamed := y(`R.Name===""`)
		if is == "Chan" {
			// there are no other directions
			if ds := numbers(st, "no:T.Dir==="); len(ds) == len(dirs) {
				return
			}
		}
		if accept {
			c.count("ways to accept a type", 1)
			if is == "" {
				x.report(st, T.Pos(), "accept:any", "types are accepted whatever they are")
				return
			}
			if is != "Basic" && is != "Named" {
				if !unnamed {
					bad("only one of them may have a name")
				}
				k, ok := kind[is]
				if !ok {
					bad("this kind of type is not supported")
				} else if !y(fmt.Sprintf("R.Kind===%d", k)) && !(is == "Signature" && sKind) {
					bad("the other may be of another kind")
				}
			}
			okKind[is] = true
			need := func(ok bool, what string) {
				if !ok {
					bad(what)
				}
			}
			switch is {
			case "Array":
				need(y("R.Len==T.Len"), "their lengths may differ")
				need(rec("T.Elem", "R.Elem"), "the types of their elements may differ")
			case "Slice", "Pointer":
				need(rec("T.Elem", "R.Elem"), "the types of their elements may differ")
			case "Chan":
				d, same, _ := pairOf(st, "T.Dir", "R.ChanDir", dirs)
				need(same, "their directions may differ")
				okDir[d] = okDir[d] || same
				need(rec("T.Elem", "R.Elem"), "the types of their elements may differ")
			case "Map":
				need(rec("T.Key", "R.Key"), "the types of their keys may differ")
				need(rec("T.Elem", "R.Elem"), "the types of their elements may differ")
			case "Signature":
				need(rec("T", "R"), "their signatures were not compared")
			case "Named":
				need(y("R.Name==T.Obj.Name"), "their names may differ")
				need(y("R.PkgPath==T.Obj.Pkg.Path") || y("T.Obj.Pkg===nil") && y(`R.PkgPath===""`), "they may be in different packages")
			case "Basic":
				need(y(`R.PkgPath===""`) || y(`R.PkgPath==="unsafe"`), "only one of them may be defined in a package")
				if g := st.ts["table"]; g != nil {
					tab := c.constMap(g.glob)
					for a, b := range tab {
						if w, ok := basics[a]; !ok || w != b {
							c.fail("basic:table", "%s: the kind %s corresponds to another kind in the table", c.p.posStr(g.glob.Pos()), basicName[a])
						}
						okBasic[a] = true
					}
					need(tab != nil, "the table of kinds may change")
					break
				}
				a, same, _ := pairOf(st, "T.Kind", "R.Kind", basics)
				need(same, "their kinds may differ")
				okBasic[a] = okBasic[a] || same
			case "Interface":
				mode := "|norecv"
				if sB < 0 {
					mode = ""
				}
				a := mt.all(st, "T.MethodSet.Len", "rec:T.MethodSet.At<0>.Type|R.MethodByName[T.MethodSet.At<0>.Name]#0.Type"+mode) &&
					(st.ts["zero:T.MethodSet.Len"] != nil || mt.all(st, "T.MethodSet.Len", "R.MethodByName[T.MethodSet.At<0>.Name]#1"))
				b := mt.all(st, "T.NumMethods", "rec:T.Method<0>.Type|R.MethodByName[T.Method<0>.Name]#0.Type"+mode) &&
					(st.ts["zero:T.NumMethods"] != nil || mt.all(st, "T.NumMethods", "R.MethodByName[T.Method<0>.Name]#1"))
				need(a || b, "not all of their methods were compared")
				need(a && y("R.NumMethod==T.MethodSet.Len") || b && y("R.NumMethod==T.NumMethods"), "their numbers of methods may differ")
			case "Struct":
				need(y("R.NumField==T.NumFields"), "their numbers of fields may differ")
				need(mt.all(st, "T.NumFields", "rec:T.Field<0>.Type|R.Field<0>.Type"), "the types of their fields may differ")
				need(mt.all(st, "T.NumFields", "R.Field<0>.Name==T.Field<0>.Name"), "the names of their fields may differ")
				need(mt.all(st, "T.NumFields", "R.Field<0>.Tag==T.Tag<0>"), "the tags of their fields may differ")
			}
		}
		if !reject || mt.because(x, st, e) {
			return
		}
		c.count("ways to reject a type", 1)
		ok := false
		switch is {
		case "":
			ok = true
			for _, k := range []string{"Array", "Basic", "Chan", "Interface", "Map", "Named", "Pointer", "Signature", "Slice", "Struct"} {
				if !not[k] && !(k != "Named" && k != "Basic" && n(`R.Name===""`)) {
					ok = false
				}
			}
			if n(`R.Name===""`) && not["Named"] && not["Basic"] {
				ok = true
			}
		case "Named":
			ok = n("R.Name==T.Obj.Name") || n("R.PkgPath==T.Obj.Pkg.Path") || y("T.Obj.Pkg===nil") && n(`R.PkgPath===""`)
		case "Basic":
			_, _, differ := pairOf(st, "T.Kind", "R.Kind", basics)
			ok = differ || n(`R.PkgPath===""`) && n(`R.PkgPath==="unsafe"`) || st.ts["notable"] != nil
			for f, v := range st.facts {
				if f.op == OpLoad && f.args[0].op == OpMapHas && !v && mt.canon(f.args[0].args[1]) == "T.Kind" {
					ok = true
				}
			}
		default:
			k, known := kind[is]
			ok = !known || n(fmt.Sprintf("R.Kind===%d", k)) || n(`R.Name===""`)
			for _, f := range tsKeys(st, "no:") {
				f = idxRE.ReplaceAllString(strings.TrimPrefix(f, "no:"), "<>")
				switch is {
				case "Array":
					ok = ok || f == "R.Len==T.Len"
				case "Interface":
					ok = ok || oneOf(f, "R.NumMethod==T.MethodSet.Len", "R.NumMethod==T.NumMethods") || strings.HasPrefix(f, "R.MethodByName[") && strings.HasSuffix(f, "#1")
				case "Struct":
					ok = ok || oneOf(f, "R.NumField==T.NumFields", "R.Field<>.Name==T.Field<>.Name", "R.Field<>.Tag==T.Tag<>")
				}
			}
			if is == "Chan" {
				_, _, differ := pairOf(st, "T.Dir", "R.ChanDir", dirs)
				ok = ok || differ
			}
			ok = ok || notFunc(st, t)
		}
		if !ok {
			x.report(st, T.Pos(), "reject:"+is, "types (%s) are rejected although nothing was found to differ", is)
		}
	}
	c.explore(T, rule, nil, func(x *Explorer, st *State) {
		mt.names[x.params[tT]] = "T"
		mt.names[x.params[tR]] = "R"
		for i, p := range x.params {
			st.ts["keep:"+strconv.Itoa(i)] = p
		}
	})
	for _, n := range []string{"ways to accept a type", "ways to reject a type", "ways to accept a signature", "ways to reject a signature", "comparisons of parts"} {
		c.atLeast(n, 1)
	}
	for a := range basics {
		if !okBasic[a] {
			c.fail("never:"+basicName[a], "%s: types of kind %s never match", c.p.posStr(T.Pos()), basicName[a])
		}
	}
	for d := range dirs {
		if !okDir[d] {
			c.fail("never:dir:"+strconv.Itoa(int(d)), "%s: channels of direction %d never match", c.p.posStr(T.Pos()), d)
		}
	}
	for _, k := range []string{"Array", "Basic", "Chan", "Interface", "Map", "Named", "Pointer", "Signature", "Slice", "Struct"} {
		if !okKind[k] {
			c.fail("never:"+k, "%s: types of kind %s never match", c.p.posStr(T.Pos()), k)
		}
	}
	c.checkTargetMethods(top, S, sT, sR, sB, recs)
}

// checkTargetMethods checks the part that looks at the methods of the interface.
func (c *Check) checkTargetMethods(top, S *ssa.Function, sT, sR, sB int, recs func(m *matcher, rule *Rule)) {
	m := &matcher{c: c, names: map[*Term]string{}}
	rule := &Rule{}
	recs(m, rule)
	inner := rule.onCall
	var table *ssa.Global
	isTable := func(t *Term) bool {
		if t == nil || t.op != OpMem && t.op != OpLoad || t.args[0].op != OpGlobal {
			return false
		}
		mp, ok := deref(t.args[0].glob.Type()).Underlying().(*types.Map)
		if !ok || types.TypeString(mp.Elem(), nil) != "reflect.Method" {
			return false
		}
		table = t.args[0].glob
		return true
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		inner(x, st, ev)
		if ev.name != fnName(S) {
			return
		}
		pos := ev.ins.Pos()
		for i, a := range ev.args {
			if i == sT || i == sR || i == sB {
				continue
			}
			o := objRoot(unbox(a))
			if !isLocalObj(o) {
				x.report(st, pos, "seen:shared", "the set of assumptions is not made for this comparison (%s)", a)
			}
			for h, v := range st.heap {
				if objRoot(h) == o && v.any(func(t *Term) bool { return t.op == OpGlobal }) {
					x.report(st, pos, "seen:shared", "the set of assumptions is not made for this comparison (%s)", v)
				}
			}
		}
		if sB >= 0 && !ev.args[sB].isTrue() {
			x.report(st, pos, "top:recv", "the receiver is not taken into account")
		}
		// which method?
		var key *Term
		ev.args[sR].any(func(t *Term) bool {
			if t.op == OpMapElem && isTable(t.args[0]) {
				key = t.args[1]
			}
			return false
		})
		r := ev.args[sR]
		isType := r.isPure("(reflect.Value).Type") || r.op == OpLoad && r.args[0].op == OpField && fieldName(r.args[0].typ, r.args[0].i) == "Type"
		if key == nil || !isType {
			x.report(st, pos, "top:method", "the signature is compared with %s, not with the type of a method of a target", r)
			return
		}
		m.names[key] = "K"
		got := m.canon(ev.args[sT])
		if got != "T.MethodSet.Lookup[K].Type" {
			x.report(st, pos, "top:lookup", "the signature compared is not that of the method of the same name (%s)", got)
		}
		if old := st.ts["cmp:"+tid(key)]; old == nil || !x.knownNil(st, old) {
			st.ts["cmp:"+tid(key)] = orNil(x, ev.errResult(x))
			st.ts["key:"+tid(key)] = key
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll == nil || !isTable(l.coll) {
			return
		}
		c.count("iterations over methods", 1)
		ok := false
		for _, k := range tsKeys(st, "key:") {
			ok = ok || x.isElemOf(st, l, st.ts[k]) && x.knownNil(st, st.ts["cmp:"+strings.TrimPrefix(k, "key:")])
		}
		if !ok {
			x.report(st, headPos(l), "top:skipped", "a method of a target may not be required")
		}
		tsClear(st, "cmp:")
		tsClear(st, "key:")
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		if l.coll != nil && isTable(l.coll) && exhausted(l, from) {
			st.ts["alldone"] = flag(x)
		}
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		for cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if cond.op == OpBin && cond.s == "==" && val {
			for i, a := range cond.args {
				if cond.args[1-i].isNil() && a.isPure("(*go/types.MethodSet).Lookup") && m.canon(a.args[0]) == "T.MethodSet" {
					st.ts["absent"] = flag(x)
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		e := last(res)
		if x.knownNonNil(st, e) {
			c.count("ways to reject a candidate", 1)
			ok := st.ts["absent"] != nil || m.because(x, st, e)
			for f, v := range st.facts {
				ok = ok || f.op == OpIsType && !v && oneOf(types.TypeString(f.typ, nil), "*go/types.Func", "*go/types.Signature")
			}
			if !ok {
				x.report(st, top.Pos(), "top:reject", "a type is rejected although it may have all methods of a target")
			}
			return
		}
		c.count("ways to accept a candidate", 1)
		if st.ts["alldone"] == nil {
			x.report(st, top.Pos(), "top:early", "a type may be accepted before all methods of a target were found")
		}
	}
	c.explore(top, rule, nil, func(x *Explorer, st *State) {
		m.names[x.params[0]] = "T"
		st.ts["keep:0"] = x.params[0]
	})
	c.atLeast("ways to accept a candidate", 1)
	c.atLeast("ways to reject a candidate", 1)
	c.atLeast("iterations over methods", 1)
	if table == nil {
		return
	}

	// how the table is made
	var inits []*ssa.Function
	for _, f := range c.p.srcFns {
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok {
					if l, ok := u.Map.(*ssa.UnOp); ok && l.Op == token.MUL && l.X == table {
						uses = true
					}
				}
				if s, ok := in.(*ssa.Store); ok && s.Addr == table && f.Name() != "init" {
					c.fail("table:set", "%s: the table of methods is replaced", c.p.posStr(s.Pos()))
				}
			}
		}
		if uses {
			inits = append(inits, f)
		}
	}
	if len(inits) != 1 || !strings.HasPrefix(inits[0].Name(), "init#") {
		c.fail("table:where", "undecided: the table of methods is not filled by one initialization function")
		return
	}
	f := inits[0]
	mi := &matcher{c: c, names: map[*Term]string{}}
	rule = &Rule{}
	var dyn types.Type
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.is("reflect.TypeOf") && ev.raw[0].op == OpIface {
			if dyn != nil && !types.Identical(dyn, ev.raw[0].typ) {
				c.fail("table:type", "undecided: the table of methods is made from several types")
			}
			dyn = ev.raw[0].typ
			mi.names[ev.res] = "M"
		}
	}
	rule.onMapSet = func(x *Explorer, st *State, mm, k, v *Term, ins ssa.Instruction) {
		if !isTable(mm) {
			return
		}
		c.count("entries of the table", 1)
		kc := mi.canon(k)
		name, isName := strings.CutSuffix(kc, ".Name")
		if !isName || v == nil || !strings.HasPrefix(name, "M.Method<") {
			x.report(st, ins.Pos(), "table:entry", "undecided: an entry of the table of methods is %s", kc)
			return
		}
		v = unbox(v)
		if mi.canon(v) != name && !(v.op == OpStruct && v.any(func(t *Term) bool { return mi.canon(t) == name })) {
			x.report(st, ins.Pos(), "table:value", "an entry of the table of methods is not the method of that name")
		}
		st.ts["yes:set:"+name] = flag(x)
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) { mi.branch(x, st, cond, val) }
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		mi.backEdge(x, st, l, old, news)
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) { mi.loopExit(x, st, l, from) }
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if !mi.all(st, "M.NumMethod", "set:M.Method<0>") {
			x.report(st, f.Pos(), "table:all", "not all methods of a target may be in the table")
		}
	}
	c.explore(f, rule, nil, nil)
	c.atLeast("entries of the table", 1)
	iface := c.p.targetIface()
	if dyn == nil || iface == nil {
		c.fail("table:type", "undecided: the type that the table of methods is made from is not known")
		return
	}
	ms := types.NewMethodSet(dyn)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			n++
			if im, _, _ := types.LookupFieldOrMethod(iface, false, o.Pkg(), o.Name()); im == nil {
				c.fail("table:extra", "%s: the table of methods has %s, which is not a method of a target", c.p.posStr(o.Pos()), o.Name())
			}
		}
	}
	if !types.Implements(dyn, iface) || n < iface.NumMethods() {
		c.fail("table:missing", "%s: the table of methods lacks a method of a target", c.p.posStr(f.Pos()))
	}
}
