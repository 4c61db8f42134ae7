package main

import (
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctxModel treats the context accessors of package fab, whose own behaviour is the subject of property C23, as primitives.
func (x *Explorer) ctxModel(name string, args []*Term) (*Term, bool) {
	switch name {
	case "fab.WithDryRun", "fab.WithForce", "fab.WithVerbose", "fab.WithHashDB", "fab.WithArgs":
		return x.tt.pure(name, args...), true
	case "fab.GetDryRun", "fab.GetForce", "fab.GetVerbose", "fab.GetHashDB", "fab.GetArgs":
		c := args[0]
		with := "fab.With" + strings.TrimPrefix(name, "fab.Get")
		for c.op == OpPure && strings.HasPrefix(c.s, "fab.With") {
			if c.s == with {
				return c.args[1], true
			}
			c = c.args[0]
		}
		return x.tt.pure(name, c), true
	}
	return nil, false
}

// pureFns are deterministic functions of their arguments without side effects.
var pureFns = map[string]bool{
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.IsAbs": true,
	"path/filepath.Clean": true, "path/filepath.Rel": true, "path/filepath.Ext": true, "path/filepath.Split": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true,
	"path.Join": true, "path.Dir": true, "path.Base": true, "path.Clean": true, "path.IsAbs": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.TrimLeft": true, "strings.TrimRight": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Trim": true, "strings.TrimSpace": true, "strings.Repeat": true, "strings.Join": true,
	"strings.Index": true, "strings.IndexByte": true, "strings.Split": true, "strings.SplitN": true, "strings.Fields": true, "strings.Replace": true, "strings.ReplaceAll": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.LastIndex": true, "strings.IndexAny": true, "strings.IndexRune": true, "strings.ContainsRune": true, "strings.ContainsAny": true,
	"strings.EqualFold": true, "strings.Cut": true, "strings.CutPrefix": true, "strings.CutSuffix": true, "strings.Count": true, "strings.TrimFunc": true, "strings.TrimLeftFunc": true, "strings.Compare": true,
	"strconv.Quote": true, "strconv.Itoa": true, "strconv.Atoi": true, "strconv.FormatInt": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"reflect.ValueOf": true, "reflect.TypeOf": true, "(reflect.Value).Kind": true, "(reflect.Value).UnsafePointer": true, "(reflect.Value).Pointer": true, "(reflect.Value).Type": true,
	"(reflect.Value).IsNil": true, "(reflect.Value).IsValid": true, "reflect.DeepEqual": true,
	"encoding/hex.EncodeToString": true, "crypto/sha256.Sum224": true, "crypto/sha256.Sum256": true, "encoding/hex.Dump": true,
	"go/ast.IsExported": true, "go/token.IsExported": true,
	"(time.Time).Add": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true, "(time.Time).UnixMilli": true, "(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Duration).Seconds": true,
	"unsafe.Pointer": true, "bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.TrimSpace": true,
	"invoke reflect.Type.Kind": true, "invoke reflect.Type.Name": true, "invoke reflect.Type.Elem": true, "invoke reflect.Type.String": true, "invoke reflect.Type.Key": true, "invoke reflect.Type.Len": true,
	"invoke reflect.Type.NumIn": true, "invoke reflect.Type.NumOut": true, "invoke reflect.Type.In": true, "invoke reflect.Type.Out": true, "invoke reflect.Type.IsVariadic": true, "invoke reflect.Type.NumMethod": true,
	"invoke reflect.Type.Method": true, "invoke reflect.Type.NumField": true, "invoke reflect.Type.Field": true, "invoke reflect.Type.ChanDir": true, "invoke reflect.Type.MethodByName": true, "invoke reflect.Type.PkgPath": true,
	"invoke io/fs.FileInfo.IsDir": true, "invoke io/fs.FileInfo.Name": true, "invoke io/fs.DirEntry.IsDir": true, "invoke io/fs.DirEntry.Name": true, "invoke os.DirEntry.Name": true, "invoke os.DirEntry.IsDir": true,
	"invoke os.FileInfo.IsDir": true, "invoke io/fs.FileInfo.Mode": true, "invoke os.FileInfo.Mode": true, "invoke os.FileInfo.Name": true, "(os.FileMode).IsRegular": true, "(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).IsRegular": true, "(os.FileMode).IsDir": true, "invoke error.Error": true, "invoke io/fs.DirEntry.Type": true,
}

func isPureName(n string) bool {
	if pureFns[n] {
		return true
	}
	if strings.HasPrefix(n, "(*go/types.") || strings.HasPrefix(n, "invoke go/types.") || strings.HasPrefix(n, "go/types.") || strings.HasPrefix(n, "(go/types.") {
		return true
	}
	return false
}

// isNonCaller: functions that do not call the functions passed to them before the caller is done with them.
func isNonCaller(n string) bool {
	switch n {
	case "fab.Controller.Run":
		return true
	}
	return strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "context.")
}

// isNonWriter: functions that do not write to the memory their arguments point to.
func isNonWriter(n string) bool {
	if strings.HasPrefix(n, "fmt.Sscan") || strings.HasPrefix(n, "fmt.Fscan") || strings.HasPrefix(n, "fmt.Scan") {
		return false
	}
	for _, p := range []string{"fmt.", "sort.", "errors.", "strings.", "(*os/exec.Cmd)", "os/exec.", "(*sync.", "(*text/template.", "text/template.", "os.", "(*os.", "golang.org/x/tools/go/packages.Load",
		"(*encoding/json.Encoder)", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "encoding/json.Marshal", "github.com/gibson042/canonicaljson-go.Marshal", "bufio.New", "io.Copy", "gopkg.in/yaml.v3.NewDecoder",
		"go/parser.", "go/doc.", "generics", "(*github.com/bobg/go-generics", "(*bufio.", "fab.", "(*fab.", "(fab.", "context.", "io.", "log.", "bytes.New", "io/ioutil.", "encoding/hex.New"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasPrefix(n, "invoke fab.") || strings.HasPrefix(n, "invoke github.com/bobg/fab.") {
		return true
	}
	return false
}

// isQuiet: functions that cannot change shared state of the module.
func isQuiet(n string) bool {
	if n == "dynamic" || strings.HasPrefix(n, "invoke github.com/bobg/fab") || strings.HasPrefix(n, "fab") || strings.HasPrefix(n, "(*fab") || strings.HasPrefix(n, "(fab") {
		return false
	}
	return true
}

// neverNil: functions whose result is never nil.
func neverNil(n string) bool {
	switch n {
	case "os/exec.CommandContext", "os/exec.Command", "bufio.NewWriter", "bufio.NewReader", "crypto/sha256.New224", "crypto/sha256.New", "sync.NewCond", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "gopkg.in/yaml.v3.NewDecoder",
		"go/token.NewFileSet", "text/template.New", "go/doc.New", "context.Background", "os.DirFS", "(*text/template.Template).Funcs", "text/template.Must", "regexp.MustCompile", "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "errors.New",
		"reflect.TypeOf", "go/types.NewMethodSet", "github.com/benbjohnson/clock.New", "bufio.NewScanner", "flag.Args", "os.Environ", "(*database/sql.DB).QueryRowContext", "(*database/sql.DB).QueryRow", "strings.NewReplacer", "io.MultiWriter", "io.TeeReader", "io.LimitReader", "context.WithValue":
		return true
	}
	return false
}

// stdModel gives meaning to functions outside the module.
func (x *Explorer) stdModel(st *State, ev *CallEvent) (*Term, bool) {
	tt := x.tt
	a := ev.args
	switch ev.name {
	case "errors.Wrap", "errors.Wrapf", "errors.WithStack":
		return x.wrap(a[0], a[1:]...), true
	case "errors.New", "fmt.Errorf", "errors.Errorf":
		if ev.name == "fmt.Errorf" && len(a) == 2 {
			if f, ok := a[0].strVal(); ok && strings.Contains(f, "%w") {
				return x.newErr(st, ev, a[1:]...), true
			}
		}
		return x.newErr(st, ev, a...), true
	case "errors.Join":
		return tt.mk(Term{op: OpJoin, args: []*Term{x.flattenJoin(a[0])}}).simplJoin(tt), true
	case "errors.Is":
		return x.errorsIs(a[0], a[1]), true
	case "os.IsNotExist":
		// It does not unwrap; what the functions of os return is never wrapped.
		e := a[0]
		if e.isNil() {
			return tt.boolean(false), true
		}
		cl := e
		if cl.op == OpExtract {
			cl = cl.args[0]
		}
		if cl.op == OpCall && (strings.HasPrefix(cl.s, "os.") || strings.HasPrefix(cl.s, "(*os.")) {
			return x.isNotExist(e), true
		}
		return nil, false
	case "errors.As":
		e := unwrapErr(a[0])
		if p := unbox(ev.raw[1]); isLocalObj(objRoot(p)) {
			x.setHavoc(st, objRoot(p), x.leaf(st, OpTop, "as", ev.ins))
		}
		tn := ""
		if b := ev.raw[1]; b.op == OpIface {
			tn = typeKey(b.typ)
		}
		if e.isNil() {
			return tt.boolean(false), true
		}
		return tt.pure("errors.As", e, tt.str(tn)), true
	case "errors.Unwrap":
		return tt.pure("errors.Unwrap", a[0]), true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "invoke sync.Locker.Lock":
		return x.lock(st, ev, a[0])
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "invoke sync.Locker.Unlock":
		return x.unlock(st, ev, a[0])
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		x.giveUp(ev.ins.Pos(), "TryLock is not understood")
		return nil, false
	case "(*sync.Cond).Wait":
		x.newEpoch(st, ev.ins)
		x.forgetShared(st)
		return tt.null(), true
	case "(*sync.WaitGroup).Wait", "time.Sleep":
		x.newEpoch(st, ev.ins)
		x.forgetShared(st)
		return tt.null(), true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		return tt.null(), true
	case "sync.NewCond":
		c := x.leaf(st, OpAlloc, "cond", ev.ins)
		a := x.tt.field(c, 1, x.condPtr())
		st.heap[a] = ev.args[0]
		return c, true
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		return tt.mk(Term{op: OpTuple, args: []*Term{a[0], x.leaf(st, OpCall, ev.name, ev.ins)}}), true
	case "os.Exit", "log.Fatal", "log.Fatalf", "runtime.Goexit":
		if x.rule.onCall != nil {
			x.rule.onCall(x, st, ev)
		}
		st.dead = true
		return tt.null(), true
	case "context.WithValue", "context.Background", "context.TODO", "context.WithoutCancel":
		return tt.pure(ev.name, a...), true
	case "invoke context.Context.Value":
		c := a[0]
		for c.isPure("context.WithValue") {
			e := tt.eq(c.args[1], a[1])
			if v, ok := e.boolVal(); ok {
				if v {
					return c.args[2], true
				}
				c = c.args[0]
				continue
			}
			break
		}
		if c.isPure("context.Background") || c.isPure("context.TODO") {
			return tt.null(), true
		}
		return tt.pure("ctx.Value", c, a[1]), true
	case "encoding/json.Marshal", "github.com/gibson042/canonicaljson-go.Marshal", "encoding/json.MarshalIndent":
		return tt.mk(Term{op: OpTuple, args: []*Term{tt.pure("json", x.deepVal(st, a[0])), x.leaf(st, OpCall, ev.name, ev.ins)}}), true
	case "invoke hash.Hash.Write", "io.Copy", "io.WriteString", "invoke io.Writer.Write", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "(*encoding/json.Encoder).Encode":
		h := unbox(a[0])
		if ev.name == "(*encoding/json.Encoder).Encode" {
			if h = st.heap[tt.pure("encoder", h)]; h == nil {
				return nil, false
			}
			x.addHash(st, h, tt.pure("json", x.deepVal(st, a[1])))
			return x.leaf(st, OpCall, ev.name, ev.ins), true
		}
		if !isHasher(h) {
			return nil, false
		}
		switch {
		case strings.HasPrefix(ev.name, "fmt."):
			x.addHash(st, h, tt.pure("fmt.Sprintf", a[1:]...))
		case ev.name == "io.Copy":
			x.addHash(st, h, tt.pure("contents", unbox(a[1])))
		default:
			x.addHash(st, h, a[1])
		}
		return tt.mk(Term{op: OpTuple, args: []*Term{x.leaf(st, OpFresh, "n", ev.ins), x.leaf(st, OpCall, ev.name, ev.ins)}}), true
	case "encoding/json.NewEncoder":
		if h := unbox(a[0]); isHasher(h) {
			e := x.leaf(st, OpCall, ev.name, ev.ins)
			st.heap[tt.pure("encoder", e)] = h
			return e, true
		}
	case "invoke hash.Hash.Sum":
		if h := unbox(a[0]); isHasher(h) {
			v := st.heap[tt.pure("hashed", h)]
			if v == nil {
				v = tt.null()
			}
			sum := tt.pure("sum", v)
			if a[1].isNil() || a[1].op == OpSeq && len(a[1].args) == 1 {
				return sum, true
			}
			return tt.seq(nil, append(append([]*Term(nil), x.parts(st, a[1])...), tt.spread(sum))), true
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		return tt.mk(Term{op: OpTuple, args: []*Term{tt.pure("contents", unbox(a[0])), x.leaf(st, OpCall, ev.name, ev.ins)}}), true
	case "golang.org/x/exp/maps.Keys", "maps.Keys":
		if a[0].isNil() {
			return tt.null(), true
		}
		if x.emptyMap(st, a[0]) {
			return tt.null(), true
		}
		return tt.pure("keys", a[0], x.mapVer(st, a[0])), true
	case "sort.Strings", "golang.org/x/exp/slices.Sort", "slices.Sort": // see also sortedBy
		st.heap[tt.pure("sorted", ev.raw[0])] = tt.boolean(true)
		return tt.null(), true
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "slices.SortFunc", "golang.org/x/exp/slices.SortFunc":
		if l := sortedBy(ev); l != nil {
			st.heap[tt.pure("sorted", l)] = tt.boolean(true)
		}
	case "generics/slices.Clone", "slices.Clone":
		return tt.seq(nil, x.parts(st, ev.raw[0])), true
	case "path/filepath.Join":
		return x.pathJoin(a), true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if s, ok := a[0].strVal(); ok {
			if p, ok := a[1].strVal(); ok {
				switch ev.name {
				case "strings.HasPrefix":
					return tt.boolean(strings.HasPrefix(s, p)), true
				case "strings.HasSuffix":
					return tt.boolean(strings.HasSuffix(s, p)), true
				}
				return tt.boolean(strings.Contains(s, p)), true
			}
		}
		if ev.name == "strings.HasPrefix" && a[0].op == OpConcat {
			if s, ok := a[0].args[0].strVal(); ok {
				if p, ok := a[1].strVal(); ok && len(s) >= len(p) {
					return tt.boolean(strings.HasPrefix(s, p)), true
				}
			}
		}
	}
	if isPureName(ev.name) {
		t := tt.pure(ev.name, a...)
		if neverNil(ev.name) || strings.HasPrefix(ev.name, "reflect.TypeOf") {
			_ = t
		}
		return t, true
	}
	return nil, false
}

// isHasher tells whether h is a hash.Hash made here.
func isHasher(h *Term) bool {
	return h.op == OpCall && hasPrefixAny(h.s, "crypto/sha256.New", "crypto/sha512.New", "crypto/sha1.New", "crypto/md5.New")
}

// addHash records that v was written to the hasher h.
func (x *Explorer) addHash(st *State, h, v *Term) {
	c := x.tt.pure("hashed", h)
	var ps []*Term
	if old := st.heap[c]; old != nil {
		ps = x.parts(st, old)
	}
	st.heap[c] = x.tt.seq(nil, append(append([]*Term(nil), ps...), x.tt.elem(v)))
}

// deepVal replaces pointers to structs made here by the contents of the structs.
func (x *Explorer) deepVal(st *State, v *Term) *Term {
	b := unbox(v)
	if b.op == OpAlloc {
		if pt, ok := b.typ.(*types.Pointer); ok && structOf(pt.Elem()) != nil {
			return x.deepVal(st, x.load(st, b, pt.Elem()))
		}
	}
	if b.op == OpStruct {
		args := make([]*Term, len(b.args))
		for i, a := range b.args {
			args[i] = x.canon(st, a)
		}
		return x.tt.mk(Term{op: OpStruct, typ: b.typ, args: args})
	}
	return x.canon(st, v)
}

func (x *Explorer) pathJoin(a []*Term) *Term {
	tt := x.tt
	if len(a) == 1 && (a[0].op == OpSeq || a[0].op == OpNil) {
		all := true
		var ss []string
		var ps []*Term
		if a[0].op == OpSeq {
			ps = a[0].args[1:]
		}
		for _, p := range ps {
			if p.op != OpElem {
				all = false
				continue
			}
			s, ok := p.args[0].strVal()
			if !ok {
				all = false
			}
			ss = append(ss, s)
		}
		if all {
			return tt.str(filepath.Join(ss...))
		}
	}
	return tt.pure("path/filepath.Join", a...)
}

func (x *Explorer) condPtr() types.Type {
	for _, pkg := range x.p.all {
		if pkg.PkgPath == "sync" {
			return types.NewPointer(pkg.Types.Scope().Lookup("Cond").Type())
		}
	}
	return nil
}

func (x *Explorer) wrap(e *Term, more ...*Term) *Term {
	if e.isNil() {
		return e
	}
	// The messages do not matter, so that wrapping twice is wrapping.
	if e.op == OpWrap {
		return e
	}
	return x.tt.mk(Term{op: OpWrap, args: []*Term{e}})
}

func (x *Explorer) newErr(st *State, ev *CallEvent, a ...*Term) *Term {
	return x.tt.mk(Term{op: OpNewErr, s: "err@" + x.site(st, ev.ins), ins: ev.ins, args: a, own: st.scope()})
}

// flattenJoin normalizes nested joins and wrappings of nothing.
func (x *Explorer) flattenJoin(s *Term) *Term {
	if s.op != OpSeq {
		return s
	}
	var ps []*Term
	for _, p := range s.args[1:] {
		if p.op == OpElem {
			e := p.args[0]
			if e.isNil() {
				continue
			}
			if e.op == OpJoin && e.args[0].op == OpSeq {
				ps = append(ps, e.args[0].args[1:]...)
				continue
			}
		}
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		return x.tt.null()
	}
	return x.tt.seq(nil, ps)
}

func (t *Term) simplJoin(tt *termTable) *Term {
	if t.op == OpJoin && t.args[0].isNil() {
		return tt.null()
	}
	return t
}

func (x *Explorer) errorsIs(e, target *Term) *Term {
	tt := x.tt
	e = unwrapErr(e)
	if e.isNil() {
		return tt.boolean(false)
	}
	target = x.canonErrGlobal(target)
	if e == target {
		return tt.boolean(true)
	}
	switch e.op {
	case OpNewErr:
		wraps := false
		for _, a := range e.args {
			if a.any(func(t *Term) bool {
				return t.op == OpCall || t.op == OpParam || t.op == OpLoad || t.op == OpPhi || t.op == OpMem
			}) {
				wraps = true
			}
		}
		if !wraps || !isFmtW(e) {
			return tt.boolean(false)
		}
	case OpLoad:
		if e.args[0].op == OpGlobal && target.op == OpLoad && target.args[0].op == OpGlobal {
			return tt.boolean(false)
		}
	case OpIface:
		if e.args[0].op == OpStruct {
			any := false
			for _, a := range e.args[0].args {
				if !a.isConst() {
					any = true
				}
			}
			if n := named(e.typ); n != nil && n.Obj().Pkg() != nil && isModPath(n.Obj().Pkg().Path()) {
				if obj, _, _ := types.LookupFieldOrMethod(e.typ, true, n.Obj().Pkg(), "Unwrap"); obj == nil || !any {
					return tt.boolean(false)
				}
			}
		}
	}
	return tt.pure("errors.Is", e, target)
}

func isFmtW(e *Term) bool {
	c, ok := e.ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	args := c.Common().Args
	if len(args) == 0 {
		return false
	}
	if k, ok := args[0].(*ssa.Const); ok && k.Value != nil {
		return strings.Contains(k.Value.ExactString(), "%w")
	}
	return true
}

// canonErrGlobal identifies aliases of standard error values.
func (x *Explorer) canonErrGlobal(t *Term) *Term {
	if t.op == OpLoad && t.args[0].op == OpGlobal {
		g := t.args[0].glob
		if g.Pkg != nil {
			n := g.Pkg.Pkg.Path() + "." + g.Name()
			switch n {
			case "os.ErrNotExist", "io/fs.ErrNotExist", "internal/oserror.ErrNotExist":
				return x.tt.pure("ErrNotExist")
			case "os.ErrExist", "io/fs.ErrExist":
				return x.tt.pure("ErrExist")
			}
		}
	}
	return t
}

// isNotExist is the condition that e says that a file does not exist.
func (x *Explorer) isNotExist(e *Term) *Term {
	return x.tt.pure("errors.Is", unwrapErr(e), x.tt.pure("ErrNotExist"))
}

func lockOf(t *Term) *Term { return unbox(t) }

func (x *Explorer) lock(st *State, ev *CallEvent, l *Term) (*Term, bool) {
	l = lockOf(l)
	if st.holds(l) {
		x.report(st, ev.ins.Pos(), "lock:twice:"+lockName(l), "%s is locked while it is already held", l)
	}
	st.held = append(st.held, l)
	x.newEpoch(st, ev.ins)
	x.forgetShared(st)
	return x.tt.null(), true
}

func (x *Explorer) unlock(st *State, ev *CallEvent, l *Term) (*Term, bool) {
	l = lockOf(l)
	for i := len(st.held) - 1; i >= 0; i-- {
		if st.held[i] == l {
			st.held = append(append([]*Term(nil), st.held[:i]...), st.held[i+1:]...)
			return x.tt.null(), true
		}
	}
	x.report(st, ev.ins.Pos(), "unlock:"+lockName(l), "%s is unlocked without being held", l)
	return x.tt.null(), true
}

// lockName names a lock by its declaration rather than by its instance.
func lockName(l *Term) string {
	switch l.op {
	case OpGlobal:
		return l.glob.Name()
	case OpField:
		return l.s
	}
	return l.String()
}
