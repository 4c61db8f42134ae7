package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

// Op is the kind of an abstract value.
type Op uint8

const (
	OpNil     Op = iota
	OpConst      // val
	OpZero       // zero value of an array or opaque type
	OpParam      // parameter or free variable of the entry function
	OpGlobal     // address of a package variable
	OpFunc       // function value
	OpAlloc      // address of a variable or composite literal, made here
	OpMake       // map, slice or channel made here
	OpCall       // result of an opaque call
	OpFresh      // other opaque value produced at a program point
	OpPhi        // value of a variable after one or more iterations of a loop
	OpMem        // value of a memory location after one or more iterations of a loop
	OpTop        // value of unknown origin (havoc)
	OpField      // address of a field: args[0] is the struct address
	OpIndex      // address of an element: args[0] array address or slice, args[1] index
	OpMapElem    // cell of a map element: args[0] map, args[1] key
	OpMapHas     // presence of a map element
	OpMapVer     // version of a map's contents
	OpHavoc      // cell recording that an object's contents are unknown
	OpLoad       // contents of a memory location, args[0] address, args[1] version if any
	OpStruct     // struct value
	OpFieldV     // field of an opaque struct value
	OpIface      // interface value holding args[0] with dynamic type typ
	OpAssert     // args[0] asserted to type typ
	OpIsType     // whether args[0] has dynamic type (or implements) typ
	OpClosure    // function fnv with bindings args
	OpBin        // binary operation, tok in s
	OpNot        // logical negation
	OpNeg        // other unary operation
	OpConcat     // string concatenation
	OpConv       // conversion to typ
	OpExtract    // component i of a tuple
	OpPure       // application of a deterministic function named s
	OpArr        // slice of an array object: args addr, lo, hi
	OpSub        // subslice: args slice, lo, hi
	OpSeq        // slice value built by append: args[0] base whose storage it may share, then parts
	OpElem       // part of a Seq: a single element
	OpSpread     // part of a Seq: all elements of a slice
	OpWrap       // error wrapping args[0], nil iff args[0] is nil
	OpJoin       // errors.Join of a slice
	OpNewErr     // new non-nil error; args are the operands
	OpTuple      // several values
	OpBuiltin    // builtin function value
)

var opNames = [...]string{"nil", "const", "zero", "param", "global", "func", "alloc", "make", "call", "fresh", "phi", "mem", "top", "field", "index", "mapelem", "maphas", "mapver", "havoc", "load", "struct", "fieldv", "iface", "assert", "istype", "closure", "bin", "not", "neg", "concat", "conv", "extract", "pure", "arr", "sub", "seq", "elem", "spread", "wrap", "join", "newerr", "tuple", "builtin"}

// Term is a hash-consed abstract value. Two equal terms denote the same value
// (within one iteration of the enclosing loops).
type Term struct {
	id   int32
	op   Op
	i    int
	s    string
	typ  types.Type
	args []*Term
	val  constant.Value
	fn   *ssa.Function
	glob *ssa.Global
	ins  ssa.Instruction // program point, for OpAlloc, OpMake, OpCall, OpFresh, OpPhi
	nn   bool            // known non-nil (OpPhi, OpMem, OpCall)
	// leaves are the terms that only exist because the abstract execution passed a program point.
	leaves []*Term
	scopes []string // generic loop iterations this term belongs to
	own    string   // scope of the term's own creation (comma separated)
}

type termTable struct {
	m    map[string]*Term
	list []*Term
}

func newTermTable() *termTable { return &termTable{m: map[string]*Term{}} }

func isLeafOp(op Op) bool {
	switch op {
	case OpAlloc, OpMake, OpCall, OpFresh, OpPhi, OpMem, OpTop, OpNewErr:
		return true
	}
	return false
}

func (tt *termTable) mk(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(strconv.Itoa(t.i))
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	if t.typ != nil {
		b.WriteString(typeKey(t.typ))
	}
	b.WriteByte('|')
	if t.val != nil {
		b.WriteString(t.val.ExactString())
		b.WriteByte(byte('0' + int(t.val.Kind())))
	}
	if t.fn != nil {
		fmt.Fprintf(&b, "%p", t.fn)
	}
	if t.glob != nil {
		fmt.Fprintf(&b, "%p", t.glob)
	}
	if t.nn {
		b.WriteByte('!')
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(int(a.id)))
	}
	k := b.String()
	if x, ok := tt.m[k]; ok {
		return x
	}
	n := new(Term)
	*n = t
	n.id = int32(len(tt.list) + 1)
	seen := map[*Term]bool{}
	if isLeafOp(t.op) {
		n.leaves = append(n.leaves, n)
		seen[n] = true
	}
	sc := map[string]bool{}
	if t.own != "" {
		for _, s := range strings.Split(t.own, ",") {
			sc[s] = true
		}
	}
	for _, a := range t.args {
		for _, l := range a.leaves {
			if !seen[l] {
				seen[l] = true
				n.leaves = append(n.leaves, l)
			}
		}
		for _, s := range a.scopes {
			sc[s] = true
		}
	}
	for s := range sc {
		n.scopes = append(n.scopes, s)
	}
	sort.Strings(n.scopes)
	tt.m[k] = n
	tt.list = append(tt.list, n)
	return n
}

var typeKeyCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeyCache[t] = s
	return s
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 7 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	list := func(ts []*Term) string {
		var ss []string
		for _, x := range ts {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case OpNil:
		return "nil"
	case OpConst:
		return t.val.ExactString()
	case OpZero:
		return "zero(" + typeKey(t.typ) + ")"
	case OpParam:
		return t.s
	case OpGlobal:
		return "&" + t.glob.Name()
	case OpFunc:
		return t.fn.Name()
	case OpAlloc, OpMake:
		n := t.s
		if al, ok := t.ins.(*ssa.Alloc); ok && al.Comment != "" {
			n = al.Comment
		}
		return fmt.Sprintf("new(%s)#%d", n, t.id)
	case OpCall:
		return fmt.Sprintf("%s(…)#%d", t.s[:strings.IndexByte(t.s+"@", '@')], t.id)
	case OpFresh:
		return fmt.Sprintf("%s#%d", t.s[:strings.IndexByte(t.s+"@", '@')], t.id)
	case OpPhi, OpMem:
		return fmt.Sprintf("%s#%d", opNames[t.op], t.id)
	case OpTop:
		return fmt.Sprintf("unknown#%d", t.id)
	case OpField:
		return fmt.Sprintf("&%s.%s", a(0), fieldName(t.typ, t.i))
	case OpIndex:
		return fmt.Sprintf("&%s[%s]", a(0), a(1))
	case OpLoad:
		return "*" + a(0)
	case OpFieldV:
		return fmt.Sprintf("%s.%s", a(0), fieldName(t.typ, t.i))
	case OpStruct:
		return "{" + list(t.args) + "}"
	case OpIface:
		return a(0)
	case OpAssert:
		return fmt.Sprintf("%s.(%s)", a(0), shortType(t.typ))
	case OpIsType:
		return fmt.Sprintf("%s is %s", a(0), shortType(t.typ))
	case OpClosure:
		return t.fn.Name() + "{…}"
	case OpBin:
		return fmt.Sprintf("(%s %s %s)", a(0), t.s, a(1))
	case OpNot:
		return "!" + a(0)
	case OpConcat:
		var ss []string
		for _, x := range t.args {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, "+")
	case OpConv:
		return fmt.Sprintf("%s(%s)", shortType(t.typ), a(0))
	case OpExtract:
		return fmt.Sprintf("%s.%d", a(0), t.i)
	case OpPure:
		return fmt.Sprintf("%s(%s)", t.s, list(t.args))
	case OpArr:
		return a(0) + "[:]"
	case OpSeq:
		return "[" + list(t.args[1:]) + "]"
	case OpElem:
		return a(0)
	case OpSpread:
		return a(0) + "..."
	case OpWrap:
		return "wrap(" + a(0) + ")"
	case OpNewErr:
		return fmt.Sprintf("error#%d", t.id)
	}
	return fmt.Sprintf("%s%s(%s)", opNames[t.op], t.s, list(t.args))
}

func fieldName(t types.Type, i int) string {
	if t == nil {
		return strconv.Itoa(i)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return strconv.Itoa(i)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// --- constructors with simplification ---

func (tt *termTable) null() *Term { return tt.mk(Term{op: OpNil}) }
func (tt *termTable) constant(v constant.Value) *Term {
	return tt.mk(Term{op: OpConst, val: v})
}
func (tt *termTable) boolean(b bool) *Term { return tt.constant(constant.MakeBool(b)) }
func (tt *termTable) str(s string) *Term   { return tt.constant(constant.MakeString(s)) }
func (tt *termTable) num(n int64) *Term    { return tt.constant(constant.MakeInt64(n)) }

func (t *Term) isNil() bool { return t != nil && t.op == OpNil }
func (t *Term) isConst() bool {
	return t != nil && t.op == OpConst
}
func (t *Term) boolVal() (v, ok bool) {
	if t != nil && t.op == OpConst && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t != nil && t.op == OpConst && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t != nil && t.op == OpConst && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}
func (t *Term) isStr(s string) bool { v, ok := t.strVal(); return ok && v == s }
func (t *Term) isInt(n int64) bool  { v, ok := t.intVal(); return ok && v == n }
func (t *Term) isTrue() bool        { v, ok := t.boolVal(); return ok && v }
func (t *Term) isFalse() bool       { v, ok := t.boolVal(); return ok && !v }

// isPure tells whether t is the application of the named function.
func (t *Term) isPure(name string) bool { return t != nil && t.op == OpPure && t.s == name }

func (tt *termTable) pure(name string, args ...*Term) *Term {
	return tt.mk(Term{op: OpPure, s: name, args: args})
}

func (tt *termTable) field(addr *Term, i int, ptrTyp types.Type) *Term {
	return tt.mk(Term{op: OpField, i: i, s: fieldKeyCached(ptrTyp, i), args: []*Term{addr}, typ: nil}).withTyp(ptrTyp)
}

func (t *Term) withTyp(typ types.Type) *Term {
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

type fkKey struct {
	t types.Type
	i int
}

var fkCache = map[fkKey]string{}

func fieldKeyCached(t types.Type, i int) string {
	k := fkKey{t, i}
	if s, ok := fkCache[k]; ok {
		return s
	}
	s := fieldKey(t, i)
	fkCache[k] = s
	return s
}

func (tt *termTable) not(t *Term) *Term {
	if v, ok := t.boolVal(); ok {
		return tt.boolean(!v)
	}
	if t.op == OpNot {
		return t.args[0]
	}
	return tt.mk(Term{op: OpNot, args: []*Term{t}})
}

// nonNil tells whether t is certainly not nil.
func nonNil(t *Term) bool {
	switch t.op {
	case OpAlloc, OpMake, OpGlobal, OpFunc, OpClosure, OpIface, OpField, OpNewErr, OpIndex, OpBuiltin:
		return true
	case OpPhi, OpMem, OpCall:
		return t.nn
	case OpWrap:
		return nonNil(t.args[0])
	case OpJoin:
		if t.args[0].op == OpSeq {
			for _, p := range t.args[0].args[1:] {
				if p.op == OpElem && nonNil(p.args[0]) {
					return true
				}
			}
		}
	case OpArr:
		return true
	case OpSeq:
		for _, p := range t.args[1:] {
			if p.op == OpElem {
				return true
			}
		}
	case OpExtract:
		return t.nn
	case OpLoad:
		return t.args[0].op == OpGlobal && nonNilGlobal(t.args[0].glob)
	case OpPure:
		return neverNil(t.s)
	}
	return false
}

var nonNilGlobals = map[*ssa.Global]bool{}

// nonNilGlobal: variables that are never nil once initialized.
func nonNilGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !isModPath(g.Pkg.Pkg.Path()) {
		return true
	}
	return nonNilGlobals[g]
}

func (tt *termTable) eq(a, b *Term) *Term {
	if a == b {
		return tt.boolean(true)
	}
	if a.op == OpNil || (a.op == OpConst && b.op != OpNil) {
		a, b = b, a
	}
	// now b is the nil or constant if any
	if a.isPure("len") && b.isInt(0) && a.args[0].splits() {
		return tt.boolean(false)
	}
	if a.op == OpConst && b.op == OpConst {
		if a.val.Kind() == b.val.Kind() {
			return tt.boolean(constant.Compare(a.val, token.EQL, b.val))
		}
		return tt.boolean(false)
	}
	if b.op == OpNil {
		switch a.op {
		case OpWrap:
			return tt.eq(a.args[0], b)
		case OpConv, OpSub:
			if a.op == OpConv {
				return tt.eq(a.args[0], b)
			}
		case OpSeq:
			if len(a.args) == 2 && a.args[1].op == OpSpread {
				// append(nil, s...) is nil iff s is empty
				return tt.eq(tt.length(a.args[1].args[0]), tt.num(0))
			}
		case OpJoin:
			if s := a.args[0]; s.op == OpSeq {
				// nil iff all parts are
				var rest []*Term
				for _, p := range s.args[1:] {
					if p.op == OpElem && p.args[0].op == OpNil {
						continue
					}
					rest = append(rest, p)
				}
				if len(rest) == 0 {
					return tt.boolean(true)
				}
				if len(rest) == 1 && rest[0].op == OpElem {
					return tt.eq(rest[0].args[0], b)
				}
			} else if s.op == OpNil {
				return tt.boolean(true)
			}
		}
		if nonNil(a) {
			return tt.boolean(false)
		}
		return tt.mk(Term{op: OpBin, s: "==", args: []*Term{a, b}})
	}
	if b.op == OpConst && b.val.Kind() == constant.Bool {
		if constant.BoolVal(b.val) {
			return a
		}
		return tt.not(a)
	}
	if s, ok := b.strVal(); ok {
		if s == "" && (a.isPure("path/filepath.Dir") || a.isPure("path/filepath.Base") || a.isPure("path/filepath.Clean")) {
			return tt.boolean(false)
		}
		if s == "" && a.op == OpConcat {
			for _, x := range a.args {
				if c, ok := x.strVal(); ok && c != "" {
					return tt.boolean(false)
				}
			}
		}
	}
	if n, ok := b.intVal(); ok && a.isPure("byteat") && n > 0 && n < 128 {
		// the first or last byte of a string, which is not empty
		s := a.args[0]
		if a.args[1].isInt(0) {
			return tt.pure("strings.HasPrefix", s, tt.str(string(rune(n))))
		}
		if a.args[1] == tt.bin(token.SUB, tt.length(s), tt.num(1), nil) {
			return tt.pure("strings.HasSuffix", s, tt.str(string(rune(n))))
		}
	}
	if b.isInt(1) && a.op == OpBin && a.s == "%" && a.args[1].isInt(2) && a.args[0].isPure("len") {
		return tt.not(tt.eq(a, tt.num(0)))
	}
	// distinct objects made here
	if isObj(a) && isObj(b) {
		return tt.boolean(false)
	}
	if a.op == OpIface && b.op == OpIface && a.typ != nil && b.typ != nil {
		if !types.Identical(a.typ, b.typ) {
			return tt.boolean(false)
		}
		return tt.eq(a.args[0], b.args[0])
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(Term{op: OpBin, s: "==", args: []*Term{a, b}})
}

func isObj(t *Term) bool { return t.op == OpAlloc || t.op == OpMake || t.op == OpGlobal }

func (tt *termTable) length(s *Term) *Term {
	switch s.op {
	case OpNil:
		return tt.num(0)
	case OpConst:
		if v, ok := s.strVal(); ok {
			return tt.num(int64(len(v)))
		}
	case OpArr:
		lo, ok1 := s.args[1].intVal()
		hi, ok2 := s.args[2].intVal()
		if ok1 && ok2 {
			return tt.num(hi - lo)
		}
	case OpSub:
		lo, ok1 := s.args[1].intVal()
		if s.args[2] != nil {
			if hi, ok2 := s.args[2].intVal(); ok1 && ok2 {
				return tt.num(hi - lo)
			}
		}
	case OpMake:
		if len(s.args) > 0 && s.s != "map" {
			return s.args[0]
		}
	case OpSeq:
		n := int64(0)
		for _, p := range s.args[1:] {
			if p.op != OpElem {
				if len(s.args) == 2 {
					return tt.length(p.args[0])
				}
				return tt.pure("len", s)
			}
			n++
		}
		return tt.num(n)
	case OpConv:
		if isStringish(s.typ) || isByteSlice(s.typ) {
			return tt.length(s.args[0])
		}
	}
	return tt.pure("len", s)
}

func isStringish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (tt *termTable) lt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.boolean(constant.Compare(a.val, token.LSS, b.val))
	}
	if a == b {
		return tt.boolean(false)
	}
	// lengths are never negative
	if a.isInt(0) && b.isPure("len") {
		return tt.not(tt.lenEq0(b))
	}
	if a.isPure("len") && b.isInt(1) {
		return tt.lenEq0(a)
	}
	if a.isPure("len") && b.isInt(0) {
		return tt.boolean(false)
	}
	if a.op == OpConst && b.isPure("len") {
		if n, ok := a.intVal(); ok && n < 0 {
			return tt.boolean(true)
		}
	}
	return tt.mk(Term{op: OpBin, s: "<", args: []*Term{a, b}})
}

// lenEq0 normalizes len(x) == 0.
// splits tells whether t is the list of the parts of a string, of which there is at least one.
func (t *Term) splits() bool {
	if t.op != OpPure || !hasPrefixAny(t.s, "strings.Split") || len(t.args) < 2 {
		return false
	}
	if len(t.args) > 2 {
		if n, ok := t.args[2].intVal(); !ok || n == 0 {
			return false
		}
	}
	sep, ok := t.args[1].strVal()
	return ok && sep != ""
}

func (tt *termTable) lenEq0(l *Term) *Term { return tt.eq(l, tt.num(0)) }

func (tt *termTable) concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.op == OpConcat {
			for _, x := range t.args {
				parts = append(parts, x)
			}
			return
		}
		parts = append(parts, t)
	}
	add(a)
	add(b)
	var out []*Term
	for _, p := range parts {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if s0, ok := out[n-1].strVal(); ok {
					out[n-1] = tt.str(s0 + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return tt.str("")
	case 1:
		return out[0]
	}
	return tt.mk(Term{op: OpConcat, args: out})
}

func (tt *termTable) bin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return tt.eqNorm(a, b)
	case token.NEQ:
		return tt.not(tt.eqNorm(a, b))
	case token.LSS:
		return tt.lt(a, b)
	case token.GTR:
		return tt.lt(b, a)
	case token.LEQ:
		return tt.not(tt.lt(b, a))
	case token.GEQ:
		return tt.not(tt.lt(a, b))
	}
	if typ != nil && op == token.ADD && isStringish(typ) {
		return tt.concat(a, b)
	}
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := b.intVal(); ok && n >= 0 && n < 64 {
				return tt.constant(constant.Shift(a.val, op, uint(n)))
			}
		case token.QUO, token.REM:
			if constant.Sign(b.val) != 0 && a.val.Kind() == constant.Int {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return tt.constant(constant.BinaryOp(a.val, o, b.val))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.val.Kind() == constant.Int {
				return tt.constant(constant.BinaryOp(a.val, op, b.val))
			}
		}
	}
	if op == token.AND && a.isPure("len") && b.isInt(1) {
		return tt.bin(token.REM, a, tt.num(2), typ)
	}
	if n, ok := b.intVal(); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return a
	}
	if op == token.SUB {
		if n, ok := b.intVal(); ok {
			return tt.bin(token.ADD, a, tt.num(-n), typ)
		}
	}
	if op == token.ADD {
		if a.op == OpConst && b.op != OpConst {
			a, b = b, a
		}
		if b.isInt(0) {
			return a
		}
		// (x + c1) + c2
		if a.op == OpBin && a.s == "+" && a.args[1].op == OpConst && b.op == OpConst {
			return tt.bin(token.ADD, a.args[0], tt.bin(token.ADD, a.args[1], b, nil), typ)
		}
	}
	return tt.mk(Term{op: OpBin, s: op.String(), args: []*Term{a, b}})
}

// eqNorm is eq with length and emptiness normalized.
func (tt *termTable) eqNorm(a, b *Term) *Term {
	if a.op == OpConst && b.op != OpConst {
		a, b = b, a
	}
	return tt.eq(a, b)
}

// byteAt is a byte of a string.
func (tt *termTable) byteAt(s, i *Term) *Term {
	if v, ok := s.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(v)) {
			return tt.num(int64(v[n]))
		}
	}
	return tt.pure("byteat", s, i)
}

func (tt *termTable) seq(share *Term, parts []*Term) *Term {
	if share == nil {
		share = tt.null()
	}
	return tt.mk(Term{op: OpSeq, args: append([]*Term{share}, parts...)})
}
func (tt *termTable) elem(t *Term) *Term { return tt.mk(Term{op: OpElem, args: []*Term{t}}) }
func (tt *termTable) spread(t *Term) *Term {
	return tt.mk(Term{op: OpSpread, args: []*Term{t}})
}

func (tt *termTable) extract(t *Term, i int) *Term {
	if t.op == OpTuple {
		return t.args[i]
	}
	return tt.mk(Term{op: OpExtract, i: i, args: []*Term{t}})
}

// contains tells whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

// any tells whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(f) {
			return true
		}
	}
	return false
}

// unwrapErr strips error wrapping.
func unwrapErr(t *Term) *Term {
	for t.op == OpWrap {
		t = t.args[0]
	}
	return t
}

// unbox strips the interface wrapping.
func unbox(t *Term) *Term {
	for t != nil && t.op == OpIface {
		t = t.args[0]
	}
	return t
}
