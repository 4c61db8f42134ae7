package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "Dataflow over every registered YAML decoder: where the value of each path-valued setting of the result comes from, compared with a table of the documented tags; and over the list functions of the controller.", func(c *Check) { checkYAMLPaths(c) })
	register("C13", "Path-sensitive typestate over the YAML reader, every registered decoder and the list functions: on each path to success, every node used is known to have a documented kind, every lookup to have succeeded and every nested error to be nil.", func(c *Check) { checkYAMLErrors(c) })
	register("C14", "Path-sensitive analysis of the in-progress marks of YAML files, with call-graph search for other ways into the reader.", func(c *Check) { checkYAMLTermination(c) })
	register("C17", "Dataflow over every registered YAML decoder: each documented setting is decoded under its documented name and reaches the argument or field of the result it is for.", func(c *Check) { checkYAMLSettings(c) })
	register("C36", "Dataflow over the YAML reader and the resolution of references: names, documentation and targets that are registered, and what each kind of reference denotes.", func(c *Check) { checkYAMLNames(c) })
}

const (
	nYTarget   = "(*fab.Controller).YAMLTarget"
	nYStrings  = "(*fab.Controller).YAMLStringList"
	nYStringsN = "(*fab.Controller).YAMLStringListFromNodes"
	nYFiles    = "(*fab.Controller).YAMLFileList"
	nYFilesN   = "(*fab.Controller).YAMLFileListFromNodes"
	nJoinPath  = "(*fab.Controller).JoinPath"
	nRelPath   = "(*fab.Controller).RelPath"
	nReadYAML  = "(*fab.Controller).ReadYAML"
	nReadFile  = "(*fab.Controller).ReadYAMLFile"
	nDecode    = "(*gopkg.in/yaml.v3.Node).Decode"
	yamlPkg    = "gopkg.in/yaml.v3"
)

// kinds of YAML nodes
const (
	kDocument = 1
	kSequence = 2
	kMapping  = 4
	kScalar   = 8
)

// decoder is a function registered for a YAML tag.
type decoder struct {
	tag    string
	fn     *ssa.Function
	target bool // or string list
	pos    tokenPos
}

// yamlDecoders finds the registrations.
func yamlDecoders(c *Check) map[string]*decoder {
	m := map[string]*decoder{}
	for _, fn := range c.p.srcFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil {
					continue
				}
				n := fnName(callee)
				if n != "fab.RegisterYAMLTarget" && n != "fab.RegisterYAMLStringList" {
					continue
				}
				c.count("registrations of tags", 1)
				args := call.Common().Args
				tag, ok := args[0].(*ssa.Const)
				if !ok || tag.Value == nil || tag.Value.Kind() != constant.String {
					c.undecided("tag:"+fn.String(), "a YAML tag registered by %s is not a constant", fnName(fn))
					continue
				}
				d := &decoder{tag: constant.StringVal(tag.Value), target: n == "fab.RegisterYAMLTarget", pos: in.Pos()}
				v := args[1]
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				switch v := v.(type) {
				case *ssa.Function:
					d.fn = v
				case *ssa.MakeClosure:
					d.fn = v.Fn.(*ssa.Function)
				}
				if d.fn == nil || d.fn.Blocks == nil {
					c.undecided("tag:"+d.tag, "the decoder registered for !%s is not a known function", d.tag)
					continue
				}
				if old := m[d.tag]; old != nil && old.target == d.target {
					c.violate(c.p.posStr(d.pos), "tag:twice:"+d.tag, nil, "!%s is registered twice", d.tag)
				}
				k := d.tag
				if !d.target {
					k += "[]"
				}
				m[k] = d
			}
		}
	}
	return m
}

var yamlTargetTags = []string{"All", "Seq", "Deps", "ArgTarget", "Clean", "Files", "Command", "go.Binary", "proto.Proto", "ts.Decls"}
var yamlListTags = []string{"Glob[]", "go.Deps[]", "proto.Deps[]"}

// yamlName is the name under which a struct field is decoded.
func yamlName(s *types.Struct, i int) string {
	tag := reflect.StructTag(s.Tag(i)).Get("yaml")
	name, _, _ := strings.Cut(tag, ",")
	if name == "" {
		name = strings.ToLower(s.Field(i).Name())
	}
	return name
}

// dec is the analysis of one decoder.
type dec struct {
	c *Check
	d *decoder
	x *Explorer
	// file systems that are not for the directory of the YAML file
	badFS map[*Term]bool
	cmds  map[*Term]string // Command literals found right, by what their Shell field holds
}

// isDeps tells whether t is the list of dependencies found.
func (d *dec) isDeps(st *State, t *Term) bool {
	return t != nil && st.ts["deps"] != nil && copied(t) == d.x.tt.extract(st.ts["deps"], 0)
}

// depsLoop is the current loop over the dependencies found.
func (d *dec) depsLoop(st *State) *loopRec {
	if ls := st.top().loops; len(ls) > 0 && d.isDeps(st, ls[len(ls)-1].coll) {
		return ls[len(ls)-1]
	}
	return nil
}

func (d *dec) con() *Term  { return d.x.params[0] }
func (d *dec) node() *Term { return d.x.params[1] }
func (d *dec) dir() *Term  { return d.x.params[2] }

func decodedObj(st *State, obj *Term) bool {
	return st.ts["decoded:"+tid(obj)] != nil
}

// keyOfAddr is the YAML name of the field of a decoded struct at address a.
func keyOfAddr(st *State, a *Term) string {
	if a == nil || a.op != OpField || !decodedObj(st, a.args[0]) {
		return ""
	}
	s := structOf(deref(a.typ))
	if s == nil {
		return ""
	}
	return yamlName(s, a.i)
}

// keyOf is the YAML name of the setting that t is the decoded value of.
func keyOf(st *State, t *Term) string {
	if t == nil {
		return ""
	}
	t = unconv(t)
	switch t.op {
	case OpLoad:
		return keyOfAddr(st, t.args[0])
	case OpFieldV:
		if l := t.args[0]; l.op == OpLoad && decodedObj(st, l.args[0]) {
			if s := structOf(t.typ); s != nil {
				return yamlName(s, t.i)
			}
		}
	}
	return ""
}

// usesKey tells whether t depends on a setting.
func usesKey(st *State, t *Term, key string) bool {
	return t.any(func(s *Term) bool { return keyOf(st, s) == key || keyOfAddr(st, s) == key })
}

// nodeOf sees through copies of nodes: the address of the original.
func nodeOf(x *Explorer, st *State, p *Term) *Term {
	p = unbox(p)
	for i := 0; i < 4 && p.op == OpAlloc && p.typ != nil && !decodedObj(st, p); i++ {
		s := structOf(deref(p.typ))
		if s == nil || !strings.HasSuffix(typeKey(deref(p.typ)), yamlPkg+".Node") {
			break
		}
		k := x.load(st, x.tt.field(p, 0, p.typ), s.Field(0).Type())
		if k.op == OpFieldV && k.args[0].op == OpLoad {
			p = k.args[0].args[0]
			continue
		}
		if k.op != OpLoad || k.args[0].op != OpField || k.args[0].i != 0 {
			break
		}
		p = k.args[0].args[0]
	}
	return p
}

// yamlModel makes the results of the controller's YAML functions terms over what they are applied to.
func yamlModel(x *Explorer, st *State, ev *CallEvent) (*Term, bool) {
	if ev.kind != frCall {
		return nil, false
	}
	switch ev.name {
	case nYTarget, nYStrings, nYFiles:
		return x.tt.pure(ev.name, ev.args[0], nodeOf(x, st, ev.args[1]), ev.args[2]), true
	case nYStringsN, nYFilesN:
		return x.tt.pure(ev.name, ev.args[0], ev.args[1], ev.args[2]), true
	case nJoinPath:
		elems, spreads := listOf(ev.args[1])
		if len(spreads) > 0 {
			return nil, false
		}
		return x.tt.pure(ev.name, append([]*Term{ev.args[0]}, elems...)...), true
	case nRelPath:
		return x.tt.pure(ev.name, ev.args[0], ev.args[1]), true
	case "path/filepath.Abs":
		return x.tt.pure(ev.name, ev.args[0]), true
	}
	return nil, false
}

var decoderStops = []string{nYTarget, nYStrings, nYStringsN, nYFiles, nYFilesN, nJoinPath, nRelPath, nCopier,
	"fab.Files", "fab.All", "fab.Seq", "fab.Deps", "fab.ArgTarget", "fab.Autoclean",
	"fab/golang.Binary", "fab/golang.Deps", "fab/proto.Proto", "fab/proto.Deps", "fab/ts.Decls"}

// isKind tells whether the kind of a node is known to be one of some.
func knownKind(x *Explorer, st *State, node *Term) (int64, bool) {
	for f, v := range st.facts {
		if !v || f.op != OpBin || f.s != "==" {
			continue
		}
		for i := range f.args {
			k, ok := f.args[1-i].intVal()
			if !ok {
				continue
			}
			if t := unconv(f.args[i]); t.op == OpLoad && t.args[0].op == OpField && t.args[0].args[0] == node && fieldName(t.args[0].typ, t.args[0].i) == "Kind" {
				return k, true
			}
		}
	}
	return 0, false
}

// result of a modelled call: name, arguments
func yamlCall(t *Term, i int, names ...string) []*Term {
	if t == nil || t.op != OpExtract || t.i != i || t.args[0].op != OpPure || !oneOf(t.args[0].s, names...) {
		return nil
	}
	return t.args[0].args
}

// the sinks

type sinkKind int

const (
	kPath sinkKind = iota
	kFiles
	kStrings
	kValue
)

// sink is a place of the result that a setting is for.
type sink struct {
	key  string
	kind sinkKind
	val  *Term
}

// bad reports a violation of one of the properties that share this analysis.
func (d *dec) bad(st *State, pos tokenPos, prop, key, format string, args ...any) {
	if d.c.id == prop {
		d.x.report(st, pos, key+":"+d.d.tag, "!%s: %s", d.d.tag, fmt.Sprintf(format, args...))
	}
}

// resolved tells whether p is something resolved against the directory of the YAML file, and what.
func (d *dec) resolved(p *Term) (*Term, bool) {
	if p != nil && p.isPure(nJoinPath) && len(p.args) == 3 && p.args[0] == d.con() && p.args[1] == d.dir() {
		return p.args[2], true
	}
	return nil, false
}

func (d *dec) sink(st *State, pos tokenPos, s sink) {
	d.c.count("settings", 1)
	v := copied(s.val)
	switch s.kind {
	case kPath:
		d.c.count("paths", 1)
		y, ok := d.resolved(v)
		if !ok || y.any(func(t *Term) bool { return t.isPure(nJoinPath) }) {
			d.bad(st, pos, "C12", "path:"+s.key, "%s (%s) is not resolved against the directory of the YAML file", s.key, v)
		}
		if !usesKey(st, v, s.key) {
			d.bad(st, pos, "C17", "lost:"+s.key, "%s does not reach the result, which has %s in its place", s.key, v)
		} else if ok && keyOf(st, y) != s.key {
			d.bad(st, pos, "C17", "changed:"+s.key, "%s is changed to %s", s.key, y)
		}
	case kFiles, kStrings:
		if s.kind == kFiles {
			d.c.count("paths", 1)
		}
		names := []string{nYFiles, nYStrings}
		a := yamlCall(v, 0, names...)
		if a == nil {
			if keyOf(st, v) == s.key && s.kind == kStrings {
				return
			}
			d.bad(st, pos, "C17", "lost:"+s.key, "%s does not reach the result, which has %s in its place", s.key, v)
			if s.kind == kFiles {
				d.bad(st, pos, "C12", "files:"+s.key, "%s (%s) is not resolved against the directory of the YAML file", s.key, v)
			}
			return
		}
		if s.kind == kFiles && !v.args[0].isPure(nYFiles) {
			d.bad(st, pos, "C12", "files:"+s.key, "the files in %s are not resolved against the directory of the YAML file", s.key)
		}
		if s.kind == kStrings && v.args[0].isPure(nYFiles) {
			d.bad(st, pos, "C17", "changed:"+s.key, "%s, which is not a list of files, is resolved against a directory", s.key)
		}
		if keyOfAddr(st, a[1]) != s.key && !(a[1].op == OpLoad && keyOf(st, a[1]) == s.key) {
			d.bad(st, pos, "C17", "lost:"+s.key, "the result has another setting in place of %s: %s", s.key, v)
		}
	case kValue:
		if k := keyOf(st, v); k == s.key {
			return
		}
		if b, ok := v.boolVal(); ok {
			// a flag that has been asked for
			for f, fv := range st.facts {
				if keyOf(st, f) == s.key && fv == b {
					return
				}
			}
		}
		if str, ok := v.strVal(); ok {
			for f, fv := range st.facts {
				if fv && f.op == OpBin && f.s == "==" {
					for i := range f.args {
						if f.args[1-i].isStr(str) && keyOf(st, f.args[i]) == s.key {
							return
						}
					}
				}
			}
		}
		d.bad(st, pos, "C17", "lost:"+s.key, "%s does not reach the result, which has %s in its place", s.key, v)
	}
}

// autoclean checks the options given to a Files target.
func (d *dec) autoclean(st *State, pos tokenPos, opts *Term) {
	elems, spreads := listOf(opts)
	ok := len(spreads) == 0 && len(elems) <= 1
	for _, e := range elems {
		cl := callTo(unbox(e), "fab.Autoclean")
		if cl == nil {
			ok = false
			break
		}
		d.sink(st, pos, sink{"Autoclean", kValue, cl.args[0]})
	}
	if ok && len(elems) == 0 {
		d.sink(st, pos, sink{"Autoclean", kValue, d.x.tt.boolean(false)})
	}
	if !ok {
		d.bad(st, pos, "C17", "opts", "the options of the result are %s, and not just Autoclean", opts)
	}
}

// subtarget checks that t is the target described by the node at p.
func (d *dec) subtarget(st *State, pos tokenPos, t *Term, what string, is func(node *Term) bool) {
	d.c.count("subtargets", 1)
	a := yamlCall(unbox(t), 0, nYTarget)
	if a == nil || !is(a[1]) {
		d.bad(st, pos, "C17", "subtarget:"+what, "%s of the result is %s", what, t)
	}
}

// targets checks that list has the targets described by the nodes in coll, in order.
func (d *dec) targets(st *State, pos tokenPos, list, coll *Term, what string) {
	x := d.x
	d.c.count("lists of subtargets", 1)
	x.mapped(st, list, coll, func(body []*Term) bool {
		if len(body) != 1 || body[0].op != OpElem {
			return false
		}
		a := yamlCall(unbox(body[0].args[0]), 0, nYTarget)
		if a == nil {
			return false
		}
		n := a[1]
		return n == x.elemMark() || n.op == OpIndex && n.args[0] == coll && n.args[1] == x.idxMark()
	}, func(why string) {
		d.bad(st, pos, "C17", "subtargets:"+what, "%s of the result do not correspond to the nodes: %s", what, why)
	})
}

// content is the list of children of the node.
func (d *dec) content(st *State) *Term {
	t := d.c.extType(yamlPkg, "Node")
	if t == nil {
		return d.x.tt.null()
	}
	s := structOf(t)
	return d.x.load(st, d.x.fieldAddr(d.node(), types.NewPointer(t), "Content"), s.Field(fieldIndex(t, "Content")).Type())
}

func (d *dec) child(st *State, i int64) *Term {
	return d.x.load(st, d.x.indexAddr(st, d.content(st), d.x.tt.num(i)), types.NewPointer(d.c.extType(yamlPkg, "Node")))
}

func (d *dec) rest(st *State) *Term {
	ct := d.content(st)
	t := types.NewSlice(types.NewPointer(d.c.extType(yamlPkg, "Node")))
	return d.x.slice(st, ct, t, d.x.tt.num(1), nil, nil)
}

// field of a struct made here
func (d *dec) fieldVal(st *State, p *Term, name string) *Term {
	s := structOf(deref(p.typ))
	i := fieldIndex(p.typ, name)
	if s == nil || i < 0 {
		return nil
	}
	return d.x.canon(st, d.x.load(st, d.x.tt.field(p, i, p.typ), s.Field(i).Type()))
}

func isAllocOf(t *Term, name string) bool {
	return t != nil && t.op == OpAlloc && t.typ != nil && typeKey(deref(t.typ)) == modPath+"."+name
}

// success checks a successful result.
func (d *dec) success(st *State, res []*Term) {
	x, c := d.x, d.c
	pos := d.d.fn.Pos()
	kind, kindOK := knownKind(x, st, d.node())
	r := unbox(res[0])
	c.count("successful exits of decoders", 1)
	// call of a constructor, directly or through its results
	ctor := func(name string, n int) []*Term {
		cl := callTo(r, name)
		if cl == nil {
			d.bad(st, pos, "C17", "result", "the result is %s and not made by %s", r, name)
			d.bad(st, pos, "C12", "result", "the result is %s and not made by %s", r, name)
			return nil
		}
		if len(cl.args) != n {
			c.undecided("result:"+d.d.tag, "%s has an unexpected number of parameters", name)
			return nil
		}
		return cl.args
	}
	isChild := func(i int64) func(*Term) bool {
		return func(n *Term) bool { return n == d.child(st, i) }
	}
	isKey := func(key string) func(*Term) bool {
		return func(n *Term) bool { return keyOfAddr(st, n) == key || n.op == OpLoad && keyOf(st, n) == key }
	}
	switch d.d.tag {
	case "All", "Seq":
		if a := ctor("fab."+d.d.tag, 1); a != nil {
			d.targets(st, pos, a[0], d.content(st), "the targets")
		}
	case "Deps":
		a := ctor("fab.Deps", 2)
		if a == nil {
			return
		}
		switch {
		case kindOK && kind == kSequence:
			c.count("list forms", 1)
			d.subtarget(st, pos, a[0], "the main target", isChild(0))
			d.targets(st, pos, a[1], d.rest(st), "the dependencies")
		default:
			c.count("mapping forms", 1)
			d.subtarget(st, pos, a[0], "the main target", isKey("Post"))
			coll := d.setting(st, "Pre")
			if coll == nil {
				d.bad(st, pos, "C17", "lost:Pre", "Pre is not decoded")
				return
			}
			d.targets(st, pos, a[1], coll, "the dependencies")
		}
	case "ArgTarget":
		a := ctor("fab.ArgTarget", 2)
		if a == nil {
			return
		}
		d.subtarget(st, pos, a[0], "the target", isChild(0))
		l := yamlCall(copied(a[1]), 0, nYStringsN)
		if l == nil || l[1] != d.rest(st) {
			d.bad(st, pos, "C17", "args", "the arguments of the result are %s", a[1])
		}
	case "Clean":
		if !isAllocOf(r, "Clean") {
			d.bad(st, pos, "C17", "result", "the result is %s and not a new Clean", r)
			d.bad(st, pos, "C12", "result", "the result is %s and not a new Clean", r)
			return
		}
		files, auto := d.fieldVal(st, r, "Files"), d.fieldVal(st, r, "Autoclean")
		if kindOK && kind == kSequence {
			c.count("list forms", 1)
			c.count("paths", 1)
			l := yamlCall(copied(files), 0, nYFilesN)
			if l == nil {
				d.bad(st, pos, "C12", "files:list", "the files (%s) are not resolved against the directory of the YAML file", files)
				l = yamlCall(copied(files), 0, nYStringsN)
			}
			if l == nil || l[1] != d.content(st) {
				d.bad(st, pos, "C17", "lost:list", "the files of the result are %s", files)
			}
			if !auto.isFalse() {
				d.bad(st, pos, "C17", "autoclean:list", "Autoclean is not off in the list form")
			}
			return
		}
		c.count("mapping forms", 1)
		d.sink(st, pos, sink{"Files", kFiles, files})
		d.sink(st, pos, sink{"Autoclean", kValue, auto})
	case "Files":
		if a := ctor("fab.Files", 4); a != nil {
			d.subtarget(st, pos, a[0], "the subtarget", isKey("Target"))
			d.sink(st, pos, sink{"In", kFiles, a[1]})
			d.sink(st, pos, sink{"Out", kFiles, a[2]})
			d.autoclean(st, pos, a[3])
		}
	case "go.Binary":
		if a := ctor("fab/golang.Binary", 3); a != nil {
			d.sink(st, pos, sink{"Dir", kPath, a[0]})
			y, ok := d.resolved(a[1])
			// without Out, the default is the last element of Dir
			if b := y; ok && b.isPure("path/filepath.Base") && x.absoluteOf(st, b.args[0]) == a[0] {
				c.count("paths", 1)
				if o := d.setting(st, "Out"); o == nil || !x.knownTrue(st, x.tt.eq(o, x.tt.str(""))) {
					d.bad(st, pos, "C17", "lost:Out", "the default may be used although Out is set ")
				}
			} else {
				d.sink(st, pos, sink{"Out", kPath, a[1]})
				if o := d.setting(st, "Out"); o != nil && !x.knownFalse(st, x.tt.eq(o, x.tt.str(""))) {
					d.bad(st, pos, "C17", "default:Out", "without Out, the output file is not the last element of Dir but %s", a[1])
				}
			}
			d.sink(st, pos, sink{"Flags", kStrings, a[2]})
		}
	case "proto.Proto":
		if a := ctor("fab/proto.Proto", 5); a != nil {
			d.sink(st, pos, sink{"Inputs", kFiles, a[0]})
			d.sink(st, pos, sink{"Outputs", kFiles, a[1]})
			d.sink(st, pos, sink{"Includes", kFiles, a[2]})
			d.sink(st, pos, sink{"Opts", kStrings, a[3]})
			d.autoclean(st, pos, a[4])
		}
	case "ts.Decls":
		if a := ctor("fab/ts.Decls", 5); a != nil {
			d.sink(st, pos, sink{"Dir", kPath, a[0]})
			d.sink(st, pos, sink{"Type", kValue, a[1]})
			d.sink(st, pos, sink{"Prefix", kValue, a[2]})
			d.sink(st, pos, sink{"Out", kPath, a[3]})
			d.autoclean(st, pos, a[4])
		}
	case "go.Deps":
		if a := ctor("fab/golang.Deps", 3); a != nil {
			d.sink(st, pos, sink{"Dir", kPath, a[0]})
			d.sink(st, pos, sink{"Recursive", kValue, a[1]})
			d.sink(st, pos, sink{"Tests", kValue, a[2]})
		}
	case "proto.Deps":
		cl := st.ts["deps"]
		if cl == nil {
			ctor("fab/proto.Deps", 2)
			return
		}
		coll := x.tt.extract(cl, 0)
		if a := cl.args; len(a) == 2 {
			d.sink(st, pos, sink{"File", kPath, a[0]})
			d.sink(st, pos, sink{"Includes", kFiles, a[1]})
		}
		if copied(res[0]) == coll && st.ts["all absolute"] != nil {
			return
		}
		// relative names would be resolved against dir by the user of the list
		once := true
		x.mapped(st, res[0], coll, func(body []*Term) bool {
			if len(body) != 1 || body[0].op != OpElem {
				return false
			}
			e := body[0].args[0]
			if e.op == OpExtract && e.i == 0 {
				e = e.args[0]
			}
			top := x.tt.pure(nJoinPath, d.con(), d.dir())
			switch {
			case e == x.elemMark():
				once = false
			case e.isPure("path/filepath.Abs") && e.args[0] == x.elemMark():
			case e.isPure("path/filepath.Rel") && e.args[0] == top && e.args[1] == x.elemMark():
			default:
				return false
			}
			return true
		}, func(why string) {
			d.bad(st, pos, "C17", "deps", "the result does not have all the dependencies: %s", why)
		})
		x.later(func() {
			if !once {
				d.bad(st, pos, "C12", "deps", "the files found may be relative, and are then resolved against the directory again")
			}
		})
	case "Glob":
		d.glob(st, res[0])
	case "Command":
		d.commandResult(st, r)
	}
}

// setting is the decoded value of a setting, if there is one.
func (d *dec) setting(st *State, key string) *Term {
	for _, k := range tsKeys(st, "decoded:") {
		obj := st.ts[k]
		s := structOf(deref(obj.typ))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if yamlName(s, i) == key {
				a := d.x.tt.field(obj, i, obj.typ)
				if o := st.ts["orig:"+tid(a)]; o != nil && st.ts["set:"+tid(a)] != nil {
					return o // it was changed after that
				}
				return d.x.load(st, a, s.Field(i).Type())
			}
		}
	}
	return nil
}

// glob: the patterns are matched in the directory of the YAML file, and the matches are relative to it.
func (d *dec) glob(st *State, list *Term) {
	x := d.x
	pos := d.d.fn.Pos()
	pats := x.tt.extract(x.tt.pure(nYStringsN, d.con(), d.content(st), d.dir()), 0)
	why12 := ""
	x.mapped(st, list, pats, func(body []*Term) bool {
		if len(body) != 1 || body[0].op != OpSpread {
			return false
		}
		m := body[0].args[0]
		cl := callTo(m, "io/fs.Glob")
		if cl == nil {
			why12 = "the matches are changed"
			return false
		}
		if m.op != OpExtract || m.i != 0 || len(cl.args) != 2 || cl.args[1] != x.elemMark() {
			return false
		}
		fsys := callTo(unbox(cl.args[0]), "os.DirFS")
		if fsys == nil || d.badFS[fsys] {
			why12 = fmt.Sprintf("the patterns are matched in %s", cl.args[0])
		}
		return true
	}, func(why string) {
		d.bad(st, pos, "C17", "glob", "the result does not have all matches of the patterns: %s", why)
	})
	x.later(func() {
		if why12 != "" {
			d.bad(st, pos, "C12", "glob", "the result does not consist of the matches in the directory of the YAML file: %s", why12)
		}
	})
}

// the fields of a Command

type stream struct {
	key     string
	val     string   // the field for a stream
	file    string   // the field for a file name
	fn      string   // the field for a function
	special []string // values with a special meaning
	own     string   // fab's own stream for $indent and $verbose
}

var cmdStreams = []stream{
	{"Stdin", "Stdin", "StdinFile", "", []string{"$stdin"}, ""},
	{"Stdout", "Stdout", "StdoutFile", "StdoutFn", []string{"$stdout", "$stderr", "$discard", "$indent", "$verbose"}, "Stdout"},
	{"Stderr", "Stderr", "StderrFile", "StderrFn", []string{"$stdout", "$stderr", "$discard", "$indent", "$verbose"}, "Stderr"},
}

// commandFields checks a Command made by the decoder, except for its Shell field. The second and later commands of a list append to files.
func (d *dec) commandFields(st *State, pos tokenPos, p *Term, later bool) {
	x, c := d.x, d.c
	c.count("commands", 1)
	f := func(name string) *Term {
		v := d.fieldVal(st, p, name)
		if v == nil {
			c.undecided("command:"+name, "Command has no field %s", name)
			return x.tt.null()
		}
		return v
	}
	d.sink(st, pos, sink{"Cmd", kValue, f("Cmd")})
	d.sink(st, pos, sink{"Args", kStrings, f("Args")})
	d.sink(st, pos, sink{"Env", kStrings, f("Env")})
	d.sink(st, pos, sink{"Dir", kPath, f("Dir")})
	for _, s := range cmdStreams {
		k := d.setting(st, s.key)
		if k == nil {
			d.bad(st, pos, "C17", "lost:"+s.key, "%s is not decoded", s.key)
			continue
		}
		c.count("streams", 1)
		is, known := "", true
		for _, v := range append([]string{""}, s.special...) {
			b, ok := x.decide(st, x.tt.eq(k, x.tt.str(v)))
			if !ok {
				known = false
			} else if b {
				is, known = v, true
				break
			}
			is = "file"
		}
		if !known {
			d.bad(st, pos, "C17", "unasked:"+s.key, "the result is made without asking what %s is", s.key)
			continue
		}
		val, file, fn := unbox(f(s.val)), f(s.file), x.tt.null()
		if s.fn != "" {
			fn = f(s.fn)
		}
		ok := false
		switch is {
		case "":
			ok = val.isNil() && file.isStr("") && fn.isNil()
		case "$stdin":
			ok = isGlobal(val, "os", "Stdin") && file.isStr("")
		case "$stdout":
			ok = isGlobal(val, "os", "Stdout") && file.isStr("") && fn.isNil()
		case "$stderr":
			ok = isGlobal(val, "os", "Stderr") && file.isStr("") && fn.isNil()
		case "$discard":
			ok = isGlobal(val, "io", "Discard") && file.isStr("") && fn.isNil()
		case "$indent", "$verbose":
			if val.isNil() && file.isStr("") && fn.op == OpClosure {
				kind, arg := d.streamFn(st, fn)
				ok = kind == is && arg != nil && isGlobal(unbox(arg), "os", s.own)
			}
		case "file":
			if val.isNil() && fn.isNil() {
				d.streamFile(st, pos, s, k, file, later)
				ok = true
			}
		}
		if !ok {
			d.bad(st, pos, "C17", "stream:"+s.key+":"+is, "with %s (%s), the result has %s, %s and %s", s.key, is, val, file, fn)
		}
	}
}

// streamFile checks the name of a file for a stream.
func (d *dec) streamFile(st *State, pos tokenPos, s stream, k, name *Term, later bool) {
	x, c := d.x, d.c
	c.count("paths", 1)
	if s.key == "Stdin" {
		d.sink(st, pos, sink{s.key, kPath, name})
		return
	}
	app, ok := x.decide(st, x.tt.pure("strings.HasPrefix", k, x.tt.str(">>")))
	if !ok {
		d.bad(st, pos, "C17", "prefix:"+s.key, "the result is made without asking whether %s begins with >>", s.key)
		return
	}
	prefixed := false
	if name.op == OpConcat && len(name.args) == 2 && name.args[0].isStr(">>") {
		prefixed, name = true, name.args[1]
	}
	y, res := d.resolved(name)
	if !res {
		d.bad(st, pos, "C12", "path:"+s.key, "%s (%s) is not resolved against the directory of the YAML file", s.key, name)
		if !usesKey(st, name, s.key) {
			d.bad(st, pos, "C17", "lost:"+s.key, "%s does not reach the result, which has %s in its place", s.key, name)
		}
		return
	}
	if prefixed != (app || later) {
		d.bad(st, pos, "C17", "append:"+s.key, "the output for %s is appended: %v (prefix given: %v, second or later command: %v)", s.key, prefixed, app, later)
	}
	stripped := false
	for {
		switch {
		case y.isPure("strings.TrimLeft") && oneOf(strOf(y.args[1]), "> ", ">", " >", " "):
			stripped = stripped || strings.Contains(strOf(y.args[1]), ">")
			y = y.args[0]
			continue
		case y.isPure("strings.TrimPrefix") && y.args[1].isStr(">>"), y.isPure("strings.TrimSpace"):
			stripped = stripped || y.isPure("strings.TrimPrefix")
			y = y.args[0]
			continue
		case y.op == OpExtract && y.i == 0 && y.args[0].isPure("strings.CutPrefix") && y.args[0].args[1].isStr(">>"):
			stripped, y = true, y.args[0].args[0]
			continue
		case y.op == OpSub && y.args[1].isInt(2):
			stripped, y = true, y.args[0]
			continue
		}
		break
	}
	if keyOf(st, y) != s.key {
		d.bad(st, pos, "C17", "lost:"+s.key, "%s does not reach the result, which has %s in its place", s.key, name)
	}
	if app && !stripped {
		// JoinPath would make the prefix a part of a directory name
		d.bad(st, pos, "C12", "prefix:"+s.key, "the >> prefix of %s is resolved as a part of the path", s.key)
		d.bad(st, pos, "C17", "prefix:kept:"+s.key, "the >> prefix of %s is not removed from the file name", s.key)
	}
	if !app && stripped {
		d.bad(st, pos, "C17", "changed:"+s.key, "%s is changed to %s", s.key, name)
	}
}

func strOf(t *Term) string { s, _ := t.strVal(); return s }

// streamFn tells what a function for a stream does: always or only in verbose mode give an IndentingCopier, and onto what.
func (d *dec) streamFn(st *State, clo *Term) (kind string, arg *Term) {
	x := d.x
	if len(clo.args) != 1 || len(clo.fn.FreeVars) != 1 || len(clo.fn.Params) != 2 {
		return "", nil
	}
	arg = clo.args[0]
	if _, isPtr := clo.fn.FreeVars[0].Type().Underlying().(*types.Pointer); isPtr && arg.op == OpAlloc {
		arg = x.load(st, arg, deref(clo.fn.FreeVars[0].Type()))
	}
	if k, ok := streamFns[clo.fn]; ok {
		return k, arg
	}
	kind = "?"
	rule := &Rule{stop: stopAt(nCopier), keepArgs: allArgs}
	rule.onExit = func(y *Explorer, st *State, res []*Term) {
		verbose := y.tt.pure("fab.GetVerbose", y.params[0])
		k := ""
		r := unbox(res[0])
		cl := callTo(r, nCopier)
		free := func(t *Term) bool {
			t = unbox(t)
			return t.op == OpParam && strings.HasPrefix(t.s, "free.") || t.op == OpLoad && t.args[0].op == OpParam && strings.HasPrefix(t.args[0].s, "free.")
		}
		switch {
		case cl != nil && cl.args[0] == y.params[1] && free(cl.args[1]):
			k = "$indent"
			if y.knownTrue(st, verbose) {
				k = "$verbose"
			}
		case r.isNil() && y.knownFalse(st, verbose):
			k = "$verbose"
		}
		if kind != "?" && kind != k {
			k = ""
		}
		kind = k
	}
	d.c.explore(clo.fn, rule, nil, nil)
	streamFns[clo.fn] = kind
	return kind, arg
}

var streamFns = map[*ssa.Function]string{}

// commandResult checks what the decoder of !Command returns.
func (d *dec) commandResult(st *State, r *Term) {
	x, c := d.x, d.c
	pos := d.d.fn.Pos()
	shell := d.setting(st, "Shell")
	if shell == nil {
		d.bad(st, pos, "C17", "lost:Shell", "Shell is not decoded")
		return
	}
	if isAllocOf(r, "Command") {
		c.count("single commands", 1)
		d.commandFields(st, pos, r, false)
		sh := d.fieldVal(st, r, "Shell")
		ok := false
		if sh.op == OpLoad && sh.args[0].op == OpField && fieldName(sh.args[0].typ, sh.args[0].i) == "Value" && keyOfAddr(st, sh.args[0].args[0]) == "Shell" {
			k, known := knownKind(x, st, sh.args[0].args[0])
			ok = known && k == kScalar
		} else if sh.isStr("") {
			if a := d.settingAddr(st, "Shell"); a != nil {
				k, known := knownKind(x, st, a)
				ok = known && k == 0
			}
		} else if keyOf(st, sh) == "Shell" {
			ok = true
		}
		if !ok {
			d.bad(st, pos, "C17", "lost:Shell", "Shell does not reach the result, which has %s in its place", sh)
		}
		return
	}
	cl := callTo(r, "fab.Seq")
	if cl == nil {
		d.bad(st, pos, "C17", "result", "the result is %s, which is neither a command nor a sequence", r)
		d.bad(st, pos, "C12", "result", "the result is %s, which is neither a command nor a sequence", r)
		return
	}
	c.count("sequences of commands", 1)
	a := d.settingAddr(st, "Shell")
	strs := x.tt.extract(x.tt.pure(nYStrings, d.con(), a, d.dir()), 0)
	cmd := d.setting(st, "Cmd")
	if cmd == nil || !x.knownTrue(st, x.tt.eq(cmd, x.tt.str(""))) {
		d.bad(st, pos, "C17", "seq:cmd", "Cmd may be set and is not run")
	}
	x.mapped(st, cl.args[0], strs, func(body []*Term) bool {
		if len(body) != 1 || body[0].op != OpElem {
			return false
		}
		what, ok := d.cmds[unbox(body[0].args[0])]
		return ok && what == "elem"
	}, func(why string) {
		d.bad(st, pos, "C17", "seq", "the commands of the sequence do not correspond to the strings in Shell: %s", why)
	})
}

func (d *dec) settingAddr(st *State, key string) *Term {
	for _, k := range tsKeys(st, "decoded:") {
		obj := st.ts[k]
		s := structOf(deref(obj.typ))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if yamlName(s, i) == key {
				return d.x.tt.field(obj, i, obj.typ)
			}
		}
	}
	return nil
}

// iteration looks at the Command literals that exist at the end of an iteration over the strings in Shell.
func (d *dec) iteration(st *State, l *loopRec) {
	x := d.x
	a := d.settingAddr(st, "Shell")
	if a == nil || l.coll == nil || l.coll != x.tt.extract(x.tt.pure(nYStrings, d.con(), a, d.dir()), 0) {
		return
	}
	seen := map[*Term]bool{}
	for addr := range st.heap {
		r := objRoot(addr)
		if !isAllocOf(r, "Command") || seen[r] {
			continue
		}
		seen[r] = true
		sh := d.fieldVal(st, r, "Shell")
		if sh != x.loopElem(st, l) {
			d.cmds[r] = "other"
			continue
		}
		if d.cmds[r] == "" {
			d.cmds[r] = "elem"
		}
		d.c.count("commands of a sequence", 1)
		d.commandFields(st, d.d.fn.Pos(), r, l.class != 0)
	}
}

// exploreDecoders analyses every decoder for one of the properties.
func exploreDecoders(c *Check, extra func(d *dec, rule *Rule)) map[string]*decoder {
	ds := yamlDecoders(c)
	var tags []string
	for t := range ds {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	for _, t := range append(append([]string(nil), yamlTargetTags...), yamlListTags...) {
		if ds[t] == nil {
			if c.id == "C17" {
				c.fail("tag:"+t, "no decoder is registered for !%s", strings.TrimSuffix(t, "[]"))
			} else {
				c.undecided("tag:"+t, "no decoder is registered for !%s", strings.TrimSuffix(t, "[]"))
			}
		}
	}
	for _, t := range tags {
		dd := ds[t]
		if len(dd.fn.Params) != 3 {
			c.undecided("decoder:"+t, "the decoder does not have the expected parameters")
			continue
		}
		c.count("decoders", 1)
		d := &dec{c: c, d: dd, badFS: map[*Term]bool{}, cmds: map[*Term]string{}}
		rule := &Rule{stop: stopAt(decoderStops...), keepArgs: allArgs, model: yamlModel}
		rule.onLoad = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
			if keyOfAddr(st, addr) != "" && st.ts["set:"+tid(addr)] == nil {
				st.ts["orig:"+tid(addr)] = val
			}
		}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			if reorders(ev) {
				d.bad(st, ev.ins.Pos(), "C17", "sorted", "a list is reordered")
			}
			switch ev.name {
			case "fab/proto.Deps":
				st.ts["deps"] = ev.res
			case "os.DirFS":
				a, top := ev.args[0], x.tt.pure(nJoinPath, x.params[0], x.params[2])
				if a != top && !(a.isStr(".") && x.knownTrue(st, x.tt.eq(top, x.tt.str("")))) {
					d.badFS[unbox(ev.res)] = true
				}
			case nDecode:
				if obj := unbox(ev.raw[1]); obj.op == OpAlloc && structOf(deref(obj.typ)) != nil {
					st.ts["decoded:"+tid(obj)] = obj
					for i, s := 0, structOf(deref(obj.typ)); i < s.NumFields(); i++ {
						if _, ok := s.Field(i).Type().Underlying().(*types.Basic); ok {
							a := x.tt.field(obj, i, obj.typ)
							st.ts["orig:"+tid(a)] = x.load(st, a, s.Field(i).Type())
						}
					}
					if ev.args[0] != x.params[1] && c.id == "C17" {
						x.report(st, ev.ins.Pos(), "decode:"+dd.tag, "!%s: another node is decoded", dd.tag)
					}
				}
				if e := ev.errResult(x); e != nil {
					st.ts["decodeerr:"+tid(e)] = e
				}
				c.count("nodes decoded", 1)
			case nYTarget, nYStrings, nYFiles, nYStringsN, nYFilesN:
				c.count("nested nodes", 1)
				if ev.args[0] != x.params[0] || ev.args[2] != x.params[2] {
					d.bad(st, ev.ins.Pos(), "C12", "nested:"+ev.name, "a nested node is read as if it were from directory %s", ev.args[2])
				}
				st.ts["nested:"+tid(ev.res)] = ev.res
			}
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			c.count("exits of decoders", 1)
			e := last(res)
			if x.knownNonNil(st, e) || !x.succeeds(st, res) {
				return
			}
			if c.id == "C13" {
				return
			}
			d.success(st, res)
		}
		rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
			if keyOfAddr(st, addr) != "" {
				st.ts["set:"+tid(addr)] = flag(x)
			}
			if addr.op == OpIndex && !isLocalObj(objRoot(addr)) {
				if l := d.depsLoop(st); l != nil && addr.args[0] == l.coll && addr.args[1] == l.idx && val.op == OpExtract && val.i == 0 {
					if abs := val.args[0]; abs.isPure("path/filepath.Abs") && abs.args[0].op == OpLoad && abs.args[0].args[0] == addr {
						st.ts["made absolute"] = flag(x)
						return
					}
				}
				d.bad(st, ins.Pos(), "C17", "inplace", "an element of a list is changed to %s", val)
				d.bad(st, ins.Pos(), "C12", "inplace", "an element of a list is changed to %s", val)
			}
		}
		rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
			if d.isDeps(st, l.coll) && l.inOrder && exhausted(l, from) && st.ts["left relative"] == nil {
				st.ts["all absolute"] = flag(x)
			}
		}
		rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
			if d.isDeps(st, l.coll) {
				if st.ts["made absolute"] == nil {
					st.ts["left relative"] = flag(x)
				}
				delete(st.ts, "made absolute")
			}
			d.iteration(st, l)
			for _, k := range tsKeys(st, "nested:") {
				if x.knownNil(st, x.tt.extract(st.ts[k], 1)) {
					delete(st.ts, k)
				}
			}
		}
		if extra != nil {
			extra(d, rule)
		}
		d.x = c.explorer(rule)
		c.exploreWith(d.x, dd.fn, nil, nil)
	}
	c.atLeast("decoders", 13)
	return ds
}

func checkYAMLPaths(c *Check) {
	c.rule("every decoder registered for a YAML tag resolves every path-valued setting in the table of documented tags with Controller.JoinPath against the directory it is given, exactly once, or with the controller's file-list functions for that directory, and passes that directory on unchanged to nested nodes")
	c.rule("the file-list functions return JoinPath(dir, s) for every string of the corresponding string list; Glob matches its patterns in the directory of the YAML file and returns names relative to it")
	exploreDecoders(c, nil)
	c.atLeast("paths", 18)
	c.atLeast("nested nodes", 12)
	checkFileLists(c)
	c.atLeast("file lists", 2)
}

// checkFileLists: the functions that make file lists of string lists.
func checkFileLists(c *Check) {
	for name, inner := range map[string]string{"Controller.YAMLFileList": nYStrings, "Controller.YAMLFileListFromNodes": nYStringsN} {
		fn := c.need("", name)
		if fn == nil || len(fn.Params) != 3 {
			c.undecided(name, "%s is not as expected", name)
			continue
		}
		inner := inner
		c.explore(fn, &Rule{stop: stopAt(nYStrings, nYStringsN, nJoinPath), keepArgs: allArgs, model: yamlModel, onExit: func(x *Explorer, st *State, res []*Term) {
			if x.knownNonNil(st, res[1]) || !x.succeeds(st, res) {
				return
			}
			c.count("file lists", 1)
			strs := x.tt.extract(x.tt.pure(inner, x.params...), 0)
			x.mapped(st, res[0], strs, func(body []*Term) bool {
				if len(body) != 1 || body[0].op != OpElem {
					return false
				}
				p := body[0].args[0]
				return p.isPure(nJoinPath) && len(p.args) == 3 && p.args[0] == x.params[0] && p.args[1] == x.params[2] && p.args[2] == x.elemMark()
			}, func(why string) {
				x.report(st, fn.Pos(), "filelist:"+name, "%s does not return each string of the list resolved against the directory: %s", name, why)
			})
		}}, nil, nil)
	}
}

func checkYAMLSettings(c *Check) {
	c.rule("for each documented tag there is one decoder, and on every path to success each documented setting (decoded under its documented name from the node) is, unchanged, the argument or field of the result that it is for; lists of subtargets correspond one to one, in order, to their nodes")
	c.rule("for each special value of a Command's Stdin, Stdout and Stderr, decided on the path, the fields of the Command are as documented; >> is kept as the prefix of the resolved name, and forced for every command but the first of a sequence made from a list of Shell strings")
	exploreDecoders(c, nil)
	c.atLeast("settings", 40)
	c.atLeast("list forms", 2)
	c.atLeast("mapping forms", 2)
	c.atLeast("subtargets", 4)
	c.atLeast("lists of subtargets", 4)
	c.atLeast("single commands", 1)
	c.atLeast("sequences of commands", 1)
	c.atLeast("commands of a sequence", 2)
	checkStringLists(c)
}

// --- the reader ---

// tagRegistry is a package-level table from tags to decoders.
type tagRegistry struct {
	glob *ssa.Global
}

// tagRegistries finds the tables that the registration functions add to.
func tagRegistries(c *Check) (target, list *ssa.Global) {
	find := func(name string) (g *ssa.Global) {
		fn := c.need("", name)
		if fn == nil {
			return nil
		}
		n := 0
		rule := &Rule{onMapSet: func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
			n++
			r := rootGlobal(m)
			if r == nil || k != x.params[0] || v != x.params[1] || g != nil && g != r {
				x.report(st, ins.Pos(), "register:"+name, "%s does not put the function it is given under the tag it is given", name)
				return
			}
			g = r
		}, onExit: func(x *Explorer, st *State, res []*Term) {
			c.count("exits of registration", 1)
		}}
		c.explore(fn, rule, nil, nil)
		if g == nil {
			c.undecided("registry:"+name, "the table that %s adds to is not found", name)
		}
		return g
	}
	target, list = find("RegisterYAMLTarget"), find("RegisterYAMLStringList")
	if target != nil && target == list {
		c.fail("registry:shared", "decoders for targets and for string lists are kept in the same table")
	}
	return
}

func rootGlobal(t *Term) *ssa.Global {
	for t != nil {
		switch t.op {
		case OpGlobal:
			return t.glob
		case OpLoad, OpField:
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

// lookedUp recognises a value found in a table: the table and the key.
func lookedUp(t *Term) (m, key *Term) {
	if t != nil && t.op == OpLoad && t.args[0].op == OpMapElem {
		return t.args[0].args[0], t.args[0].args[1]
	}
	return nil, nil
}

func nodeField(x *Explorer, st *State, c *Check, node *Term, name string) *Term {
	t := c.extType(yamlPkg, "Node")
	i := fieldIndex(t, name)
	if t == nil || i < 0 {
		c.undecided("node", "yaml.Node.%s is not found", name)
		return x.tt.null()
	}
	return x.load(st, x.fieldAddr(node, t, name), structOf(t).Field(i).Type())
}

// untagged decides whether a node has no tag of its own.
func untagged(x *Explorer, st *State, c *Check, node *Term) (val, known bool) {
	tag := nodeField(x, st, c, node, "Tag")
	if v, ok := x.decide(st, x.tt.pure("strings.HasPrefix", tag, x.tt.str("!!"))); ok && v {
		return true, true
	}
	for _, t := range append(tagForms(x, st, tag), tag) {
		if v, ok := x.decide(st, x.tt.eq(t, x.tt.str(""))); ok && v {
			return true, true
		}
	}
	// a tag that is not a standard one, and not empty
	if v, ok := x.decide(st, x.tt.pure("strings.HasPrefix", tag, x.tt.str("!!"))); ok && !v {
		for _, t := range append(tagForms(x, st, tag), tag) {
			if v, ok := x.decide(st, x.tt.eq(t, x.tt.str(""))); ok && !v {
				return false, true
			}
		}
	}
	return false, false
}

// tagForms are the terms for a tag without its exclamation mark.
func tagForms(x *Explorer, st *State, tag *Term) []*Term {
	mark := x.tt.str("!")
	l := []*Term{x.tt.pure("strings.TrimPrefix", tag, mark), x.tt.extract(x.tt.pure("strings.CutPrefix", tag, mark), 0)}
	if v, ok := x.decide(st, x.tt.pure("strings.HasPrefix", tag, mark)); ok {
		if v {
			l = append(l, x.tt.pure("substr", tag, x.tt.num(1), x.tt.length(tag)))
		} else {
			l = append(l, tag)
		}
	}
	return l
}

// isTagOf tells whether key is the tag of node without its exclamation mark, in a state in which it has one of its own.
func isTagOf(x *Explorer, st *State, c *Check, key, node *Term) bool {
	tag := nodeField(x, st, c, node, "Tag")
	if v, ok := x.decide(st, x.tt.pure("strings.HasPrefix", tag, x.tt.str("!!"))); !ok || v {
		return false
	}
	for _, t := range tagForms(x, st, tag) {
		if key == t {
			return true
		}
	}
	return false
}

const nDecoderCall = "decoder"

// tagModel makes the result of a decoder found in a table a term over its arguments.
func tagModel(x *Explorer, st *State, ev *CallEvent) (*Term, bool) {
	if ev.kind == frCall && ev.name == "dynamic" && len(ev.args) == 3 {
		if m, _ := lookedUp(ev.clo); m != nil && rootGlobal(m) != nil {
			return x.tt.pure(nDecoderCall, append([]*Term{ev.clo}, ev.args...)...), true
		}
	}
	return yamlModel(x, st, ev)
}

// decoderCall checks a call of a decoder.
func decoderCall(c *Check, x *Explorer, st *State, ev *CallEvent, want *ssa.Global, node *Term, prefix string) {
	m, key := lookedUp(ev.clo)
	if m == nil {
		return
	}
	c.count("calls of decoders", 1)
	if rootGlobal(m) != want {
		x.report(st, ev.ins.Pos(), prefix+":table", "the decoder is looked up in another table")
	}
	if node == nil {
		node = ev.args[1]
	}
	if !isTagOf(x, st, c, key, node) {
		x.report(st, ev.ins.Pos(), prefix+":key", "the decoder is looked up by %s, which is not (certainly) the tag of the node", key)
	}
	found := x.knownNonNil(st, ev.clo)
	for f, v := range st.facts {
		if v && f.op == OpLoad && f.args[0].op == OpMapHas && f.args[0].args[0] == m && f.args[0].args[1] == key {
			found = true
		}
	}
	if !found {
		x.report(st, ev.ins.Pos(), prefix+":unknown", "a decoder is used although there may be none for the tag")
	}
	if ev.args[0] != x.params[0] || ev.args[1] != node || ev.args[2] != last(x.params) {
		x.report(st, ev.ins.Pos(), prefix+":args", "the decoder is applied to %v", ev.args)
	}
}

func isDecoderCall(x *Explorer, t *Term, i int) []*Term {
	if t != nil && t.op == OpExtract && t.i == i && t.args[0].isPure(nDecoderCall) {
		return t.args[0].args
	}
	return nil
}

// checkStringLists: the functions that make string lists of nodes.
func checkStringLists(c *Check) {
	c.rule("a node without tag of its own is a list of its children, a scalar child contributing its value; a tagged node is what the decoder registered for string lists under its tag makes of it, spread into the list in its place; anything else is an error")
	_, reg := tagRegistries(c)
	fn, fns := c.need("", "Controller.YAMLStringList"), c.need("", "Controller.YAMLStringListFromNodes")
	if reg == nil || fn == nil || fns == nil || len(fn.Params) != 3 || len(fns.Params) != 3 {
		return
	}
	rule := &Rule{stop: stopAt(nYStringsN), model: tagModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name == "dynamic" {
			decoderCall(c, x, st, ev, reg, x.params[1], "list")
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) {
			return
		}
		c.count("successful exits of list functions", 1)
		con, node, dir := x.params[0], x.params[1], x.params[2]
		kind, known := knownKind(x, st, node)
		un, unKnown := untagged(x, st, c, node)
		r := copied(res[0])
		if a := isDecoderCall(x, r, 0); a != nil {
			if !x.succeedsOr(st, res[1], r.args[0]) {
				x.report(st, fn.Pos(), "list:err", "the error of the decoder is lost")
			}
			return
		}
		if a := yamlCall(r, 0, nYStringsN); a != nil {
			if a[0] != con || a[1] != nodeField(x, st, c, node, "Content") || a[2] != dir {
				x.report(st, fn.Pos(), "list:children", "the result is made from %s and not from the children of the node", a[1])
			}
			if !known || kind != kSequence {
				x.report(st, fn.Pos(), "list:kind", "a node that may not be a sequence is read as one")
			}
			if !unKnown || !un {
				x.report(st, fn.Pos(), "list:tag", "the tag of a node is ignored")
			}
			if !x.succeedsOr(st, res[1], r.args[0]) {
				x.report(st, fn.Pos(), "list:err", "the error for the children is lost")
			}
			return
		}
		if !x.succeeds(st, res) {
			return
		}
		if e, s := listOf(x.canon(st, r)); len(e)+len(s) == 0 {
			// a missing node
			if known && kind == 0 {
				return
			}
			if known && kind == kSequence && un && unKnown && x.knownTrue(st, x.tt.eq(x.tt.length(nodeField(x, st, c, node, "Content")), x.tt.num(0))) {
				return
			}
		}
		x.report(st, fn.Pos(), "list:result", "the result is %s", r)
	}
	c.explore(fn, rule, nil, nil)

	rule = &Rule{stop: stopAt(nYStrings), model: tagModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name == "dynamic" {
			decoderCall(c, x, st, ev, reg, nil, "nodes")
			if m, _ := lookedUp(ev.clo); m != nil {
				st.ts["decoded"] = ev.args[1]
			}
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		if l.coll != x.params[1] {
			return
		}
		c.count("nodes of a list", 1)
		node := x.loopElem(st, l)
		if st.ts["decoded"] != nil {
			delete(st.ts, "decoded")
			return
		}
		un, ok := untagged(x, st, c, node)
		if !ok || !un {
			x.report(st, fns.Pos(), "nodes:tag", "the tag of a node is ignored")
		}
		if k, ok := knownKind(x, st, node); !ok || k != kScalar {
			x.report(st, fns.Pos(), "nodes:kind", "a node that may not be a scalar is used as a string")
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) || !x.succeeds(st, res) {
			return
		}
		c.count("successful exits of list functions", 1)
		x.mapped(st, res[0], x.params[1], func(body []*Term) bool {
			if len(body) != 1 {
				return false
			}
			e := body[0]
			if e.op == OpElem {
				t := e.args[0]
				return t.op == OpLoad && t.args[0].op == OpField && t.args[0].args[0] == x.elemMark() && fieldName(t.args[0].typ, t.args[0].i) == "Value"
			}
			a := isDecoderCall(x, e.args[0], 0)
			return e.op == OpSpread && a != nil && a[2] == x.elemMark()
		}, func(why string) {
			x.report(st, fns.Pos(), "nodes:result", "the list does not correspond to the nodes: %s", why)
		})
	}
	c.explore(fns, rule, nil, nil)
	c.atLeast("calls of decoders", 2)
	c.atLeast("nodes of a list", 2)
	c.atLeast("successful exits of list functions", 4)
}

// succeedsOr tells whether e is the error of call, or call is known not to have failed.
func (x *Explorer) succeedsOr(st *State, e, call *Term) bool {
	ce := x.tt.extract(call, 1)
	return e.contains(ce) || x.knownNil(st, ce)
}

// --- malformed documents ---

// containsSlash decides whether a string has a slash in it.
func containsSlash(x *Explorer, st *State, s *Term) (val, known bool) {
	tt := x.tt
	for _, n := range []string{"strings.Contains", "strings.ContainsAny"} {
		if v, ok := x.decide(st, tt.pure(n, s, tt.str("/"))); ok {
			return v, true
		}
	}
	if v, ok := x.decide(st, tt.pure("strings.ContainsRune", s, tt.num('/'))); ok {
		return v, true
	}
	for _, n := range []string{"strings.Index", "strings.IndexAny", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte"} {
		for _, a := range []*Term{tt.str("/"), tt.num('/')} {
			i := tt.pure(n, s, a)
			if v, ok := x.decide(st, tt.lt(i, tt.num(0))); ok {
				return !v, true
			}
			if v, ok := x.decide(st, tt.eq(i, tt.num(-1))); ok {
				return !v, true
			}
		}
	}
	if v, ok := x.decide(st, tt.extract(tt.pure("strings.Cut", s, tt.str("/")), 2)); ok {
		return v, true
	}
	if v, ok := x.decide(st, tt.eq(tt.pure("path/filepath.Base", s), s)); ok && v {
		return false, true
	}
	return false, false
}

// counter is an index that is a linear function of a loop variable.
type counter struct {
	phi       *Term
	mul, add  int64
	is        bool
	constants bool
}

func linear(t *Term) (phi *Term, mul, add int64, ok bool) {
	if n, isNum := t.intVal(); isNum {
		return nil, 0, n, true
	}
	if t.op == OpPhi {
		return t, 1, 0, true
	}
	if t.op == OpBin && len(t.args) == 2 {
		p, m, a, ok1 := linear(t.args[0])
		q, n, b, ok2 := linear(t.args[1])
		if !ok1 || !ok2 {
			return nil, 0, 0, false
		}
		switch t.s {
		case "+":
			if q == nil {
				return p, m, a + b, true
			}
			if p == nil {
				return q, n, a + b, true
			}
		case "-":
			if q == nil {
				return p, m, a - b, true
			}
		case "*":
			if q == nil {
				return p, m * b, a * b, true
			}
			if p == nil {
				return q, n * a, b * a, true
			}
		}
	}
	return nil, 0, 0, false
}

// yamlReader explores ReadYAML for one of the properties.
func yamlReader(c *Check) {
	fn := c.need("", "Controller.ReadYAML")
	if fn == nil || len(fn.Params) != 3 {
		c.undecided("ReadYAML", "ReadYAML(r, dir) is expected")
		return
	}
	bad := func(x *Explorer, st *State, pos tokenPos, prop, key, format string, args ...any) {
		if c.id == prop {
			x.report(st, pos, "read:"+key, format, args...)
		}
	}
	nReg := "(*fab.Controller).RegisterTarget"
	rule := &Rule{stop: stopAt(nYTarget, nReg, nYStrings, nYStringsN), keepArgs: allArgs, model: yamlModel}
	type entry struct{ name, idx *Term }
	doc := func(x *Explorer, st *State) *Term { return st.ts["doc"] }
	// the list of entries of the mapping
	content := func(x *Explorer, st *State) *Term {
		d := doc(x, st)
		if d == nil {
			return nil
		}
		nt := types.NewPointer(c.extType(yamlPkg, "Node"))
		m := x.load(st, x.indexAddr(st, nodeField(x, st, c, d, "Content"), x.tt.num(0)), nt)
		st.ts["m"] = m
		return nodeField(x, st, c, m, "Content")
	}
	// the index of the entry that a node is
	entryOf := func(x *Explorer, st *State, node *Term) *Term {
		if node != nil && node.op == OpLoad && node.args[0].op == OpIndex && node.args[0].args[0] == content(x, st) {
			return node.args[0].args[1]
		}
		return nil
	}
	lin := map[string]bool{}
	// names are at even positions
	nameIdx := func(x *Explorer, st *State, node *Term) *Term {
		i := entryOf(x, st, node)
		if i == nil {
			return nil
		}
		return i
	}
	next := func(x *Explorer, i *Term) *Term { return x.tt.bin(token.ADD, i, x.tt.num(1), types.Typ[types.Int]) }
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch ev.name {
		case "(*gopkg.in/yaml.v3.Decoder).Decode":
			c.count("documents decoded", 1)
			st.ts["doc"] = unbox(ev.raw[1])
			st.ts["docerr"] = ev.errResult(x)
			dec := callTo(ev.args[0], "gopkg.in/yaml.v3.NewDecoder")
			if dec == nil || unbox(dec.args[0]) != unbox(x.params[1]) {
				bad(x, st, ev.ins.Pos(), "C13", "source", "what is decoded is not the source that was given (%s)", ev.args[0])
			}
		case nYTarget:
			c.count("targets read", 1)
			if ev.args[0] != x.params[0] || ev.args[2] != x.params[2] {
				bad(x, st, ev.ins.Pos(), "C36", "dir", "a target is read as if it were in %s", ev.args[2])
			}
			i := entryOf(x, st, nodeOf(x, st, ev.args[1]))
			if i == nil {
				bad(x, st, ev.ins.Pos(), "C36", "node", "the target is read from %s, which is not an entry of the mapping", ev.args[1])
				return
			}
			st.ts["target"] = ev.res
		case nReg:
			c.count("registrations", 1)
			readRegistration(c, x, st, ev, entryOf, next, bad)
			st.ts["regerr"] = ev.errResult(x)
		}
	}
	rule.onBackEdge = func(x *Explorer, st *State, l *loopRec, old, news map[*ssa.Phi]*Term) {
		coll := content(x, st)
		if coll == nil {
			return
		}
		// which entry this iteration was about: the one whose name was looked at
		var name *Term
		for _, k := range tsKeys(st, "entry:") {
			if i := nameIdx(x, st, st.ts[k]); i != nil {
				if name == nil || entryLess(i, entryOf(x, st, name)) {
					name = st.ts[k]
				}
			}
		}
		if name == nil {
			return
		}
		c.count("entries", 1)
		i := entryOf(x, st, name)
		phi, mul, add, ok := linear(i)
		stepped := false
		if ok && phi != nil {
			for ph, o := range old {
				if o != phi {
					continue
				}
				n := x.tt.bin(token.SUB, news[ph], o, nil)
				_ = n
				p2, m2, a2, ok2 := linear(news[ph])
				stepped = ok2 && p2 == phi && m2 == 1 && a2*mul == 2
			}
			lin[fmt.Sprint(mul, add)] = true
		} else if ok {
			// the first iteration
			stepped = i.isInt(0)
		}
		if !stepped {
			bad(x, st, fn.Pos(), "C36", "step", "the entries of the mapping are not read one after the other (%s)", i)
			bad(x, st, fn.Pos(), "C13", "step", "the entries of the mapping are not read one after the other (%s)", i)
		}
		if k, ok := knownKind(x, st, name); !ok || k != kScalar {
			bad(x, st, fn.Pos(), "C13", "namekind", "a name that may not be a scalar is accepted")
		}
		v := nodeField(x, st, c, name, "Value")
		value := x.load(st, x.indexAddr(st, coll, next(x, i)), types.NewPointer(c.extType(yamlPkg, "Node")))
		if d, ok := x.decide(st, x.tt.eq(v, x.tt.str("_dir"))); ok && d {
			c.count("_dir declarations", 1)
			if k, ok := knownKind(x, st, value); !ok || k != kScalar {
				bad(x, st, fn.Pos(), "C13", "dirkind", "a _dir declaration that may not be a scalar is accepted")
			}
			if b, ok := x.decide(st, x.tt.eq(nodeField(x, st, c, value, "Value"), x.params[2])); !ok || !b {
				bad(x, st, fn.Pos(), "C13", "dirvalue", "a _dir declaration that may not be the directory of the file is accepted")
			}
			if st.ts["registered"] != nil {
				bad(x, st, fn.Pos(), "C36", "dirtarget", "a _dir declaration is registered as a target")
			}
			st.ts["sawdir"] = flag(x)
		} else {
			if s, ok := containsSlash(x, st, v); !ok || s {
				bad(x, st, fn.Pos(), "C13", "slash", "a target name that may contain a slash is accepted")
			}
			if st.ts["registered"] == nil {
				bad(x, st, fn.Pos(), "C13", "skipped", "an entry of the mapping is skipped")
				bad(x, st, fn.Pos(), "C36", "skipped", "an entry of the mapping is skipped")
			} else if !x.knownNil(st, st.ts["regerr"]) {
				bad(x, st, fn.Pos(), "C13", "regerr", "a failure to register a target is ignored")
			}
		}
		tsClear(st, "entry:")
		for _, k := range []string{"registered", "regerr", "target"} {
			delete(st.ts, k)
		}
	}
	rule.onLoad = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if addr.op == OpField && fieldName(addr.typ, addr.i) == "Value" {
			if n := addr.args[0]; entryOf(x, st, n) != nil {
				st.ts["entry:"+tid(n)] = n
			}
		}
	}
	rule.onLoopExit = func(x *Explorer, st *State, l *loopRec, from, to *ssa.BasicBlock) {
		coll := content(x, st)
		if coll == nil || !exhausted(l, from) {
			return
		}
		if atEnd(x, st, coll) {
			st.ts["exhausted"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[0]) || !x.succeeds(st, res) {
			return
		}
		c.count("successful exits of ReadYAML", 1)
		d := doc(x, st)
		if d == nil || !x.knownNil(st, st.ts["docerr"]) {
			bad(x, st, fn.Pos(), "C13", "nodoc", "success is reported although no document may have been read")
			return
		}
		content(x, st)
		m := st.ts["m"]
		if k, ok := knownKind(x, st, d); !ok || k != kDocument {
			bad(x, st, fn.Pos(), "C13", "dockind", "what is read may not be a document")
		}
		if !x.knownTrue(st, x.tt.eq(x.tt.length(nodeField(x, st, c, d, "Content")), x.tt.num(1))) {
			bad(x, st, fn.Pos(), "C13", "doclen", "the document may not have exactly one child")
		}
		if k, ok := knownKind(x, st, m); !ok || k != kMapping {
			bad(x, st, fn.Pos(), "C13", "topkind", "the top level of the document may not be a mapping")
		}
		if st.ts["exhausted"] == nil {
			bad(x, st, fn.Pos(), "C13", "early", "success is reported before all entries have been read")
			bad(x, st, fn.Pos(), "C36", "early", "success is reported before all entries have been read")
		}
		if st.ts["sawdir"] == nil && !x.knownTrue(st, x.tt.eq(x.params[2], x.tt.str(""))) {
			bad(x, st, fn.Pos(), "C13", "nodir", "a file of a subdirectory may lack a _dir declaration")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("documents decoded", 1)
	c.atLeast("targets read", 1)
	c.atLeast("registrations", 1)
	c.atLeast("entries", 2)
	c.atLeast("_dir declarations", 1)
	c.atLeast("successful exits of ReadYAML", 1)
}

// atEnd tells whether a loop over the pairs of coll has ended because there are no more.
func atEnd(x *Explorer, st *State, coll *Term) bool {
	n := x.tt.length(coll)
	if x.knownTrue(st, x.tt.eq(n, x.tt.num(0))) {
		return true
	}
	var off func(t, base *Term) (int64, bool)
	off = func(t, base *Term) (int64, bool) {
		if t == base {
			return 0, true
		}
		if t.op == OpBin && len(t.args) == 2 && (t.s == "+" || t.s == "-") {
			if k, ok := t.args[1].intVal(); ok {
				o, ok := off(t.args[0], base)
				if t.s == "-" {
					k = -k
				}
				return o + k, ok
			}
		}
		return 0, false
	}
	for f, v := range st.facts {
		if v || f.op != OpBin || f.s != "<" {
			continue
		}
		p, m, k1, ok1 := linear(f.args[0])
		if !ok1 || p != nil && m != 1 {
			continue
		}
		if k2, ok := off(f.args[1], n); ok && k1-k2 <= 1 {
			return true
		}
		// counting the pairs
		if h := f.args[1]; h.op == OpBin && h.s == "/" && h.args[0] == n && h.args[1].isInt(2) && k1 <= 0 {
			return true
		}
	}
	return false
}

// entryLess compares two indices that are linear in the same loop variable.
func entryLess(a, b *Term) bool {
	p, m, k, ok1 := linear(a)
	q, n, l, ok2 := linear(b)
	return ok1 && ok2 && p == q && m == n && k < l
}

// readRegistration checks the registration of a target read from a file.
func readRegistration(c *Check, x *Explorer, st *State, ev *CallEvent, entryOf func(*Explorer, *State, *Term) *Term, next func(*Explorer, *Term) *Term, bad func(x *Explorer, st *State, pos tokenPos, prop, key, format string, args ...any)) {
	pos := ev.ins.Pos()
	tt := x.tt
	st.ts["registered"] = flag(x)
	if len(ev.args) != 4 || ev.args[0] != x.params[0] {
		bad(x, st, pos, "C36", "reg", "a target is registered with something other than the controller")
		return
	}
	name, docs, target := ev.args[1], ev.args[2], unbox(ev.args[3])
	tr := st.ts["target"]
	a := yamlCall(target, 0, nYTarget)
	if a == nil {
		bad(x, st, pos, "C36", "regtarget", "what is registered (%s) is not the target that was read", target)
		return
	}
	if tr == nil || !x.knownNil(st, tt.extract(tr, 1)) {
		bad(x, st, pos, "C13", "targeterr", "a target is registered although reading it may have failed")
	}
	ti := entryOf(x, st, a[1])
	// the node of the name
	var node *Term
	if name.isPure("path/filepath.Join") || name.isPure("path.Join") {
		if e, s := listOf(name.args[0]); len(s) == 0 && len(e) == 2 && e[0] == x.params[2] && e[1].op == OpLoad && e[1].args[0].op == OpField && fieldName(e[1].args[0].typ, e[1].args[0].i) == "Value" {
			node = e[1].args[0].args[0]
		}
	}
	if node == nil {
		bad(x, st, pos, "C36", "regname", "a target is registered as %s, and not by its name in the directory of the file", name)
		return
	}
	if ni := entryOf(x, st, node); ni == nil || ti == nil || next(x, ni) != ti {
		bad(x, st, pos, "C36", "pair", "a target is registered under the name of another (%s, %s)", name, target)
	}
	// the documentation
	head := nodeField(x, st, c, node, "HeadComment")
	line := nodeField(x, st, c, node, "LineComment")
	d := docs
	for {
		if (d.isPure("strings.TrimLeft") || d.isPure("strings.Trim") || d.isPure("strings.TrimPrefix")) && oneOf(strOf(d.args[1]), "# ", "#", " #", " ") || d.isPure("strings.TrimSpace") {
			d = d.args[0]
			continue
		}
		break
	}
	empty, known := x.decide(st, tt.eq(head, tt.str("")))
	switch {
	case d == head && !(known && empty):
	case d == line && known && empty:
	case known && empty && x.knownTrue(st, tt.eq(line, tt.str(""))) && docs.isStr(""):
	default:
		bad(x, st, pos, "C36", "doc", "the documentation that is registered is %s", docs)
	}
	if d == docs && !docs.isStr("") {
		bad(x, st, pos, "C36", "doctrim", "the documentation that is registered is the comment with its comment signs")
	}
}

func checkYAMLErrors(c *Check) {
	c.rule("ReadYAML succeeds only if a document was decoded whose one child is a mapping, every name in it is known to be a scalar, and every entry is either a _dir declaration known to be the scalar naming the directory or was read by YAMLTarget and registered under a name known to have no slash, both with their errors known to be nil; and for a directory other than the top only if a _dir declaration was seen")
	c.rule("YAMLTarget and the list functions apply a decoder only if it was found under the tag of the node, and succeed otherwise only for nodes known to have the documented kind")
	c.rule("every registered decoder succeeds only on a node known to have a documented kind or successfully decoded into a struct, with the errors of all nested nodes known to be nil")
	c.rule("an error meaning that there is no file is tolerated only from reading the file of the top directory, and ReadYAMLFile never passes on such an error of the document")
	yamlReader(c)
	checkStringLists(c)
	checkYAMLTargetErrors(c)
	exploreDecoders(c, func(d *dec, rule *Rule) {
		exit := rule.onExit
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			exit(x, st, res)
			e := last(res)
			if x.knownNonNil(st, e) || !x.succeeds(st, res) {
				return
			}
			c.count("successful exits of decoders", 1)
			ok := false
			for _, k := range tsKeys(st, "decodeerr:") {
				if x.knownNil(st, st.ts[k]) {
					ok = true
				}
			}
			if k, known := knownKind(x, st, d.node()); known && k == kSequence && oneOf(d.d.tag, "All", "Seq", "Deps", "ArgTarget", "Clean", "Glob") {
				ok = true
			}
			if !ok {
				x.report(st, d.d.fn.Pos(), "kind:"+d.d.tag, "!%s accepts a node that may not have a documented kind", d.d.tag)
			}
			for _, k := range tsKeys(st, "nested:") {
				n := x.tt.extract(st.ts[k], 1)
				if x.knownNil(st, n) {
					continue
				}
				if d.d.tag == "Command" && x.knownTrue(st, x.tt.pure("errors.As", n, x.tt.str("*github.com/bobg/fab.BadYAMLNodeKindError"))) {
					if a := st.ts[k].args[1]; keyOfAddr(st, a) == "Shell" {
						k, known := knownKind(x, st, a)
						if known && k == 0 {
							continue
						}
						if un, ok := untagged(x, st, c, a); known && k == kScalar && ok && un {
							continue
						}
					}
				}
				x.report(st, d.d.fn.Pos(), "nested:"+d.d.tag, "!%s is accepted although a nested node may be malformed (%s)", d.d.tag, n)
			}
		}
	})
	checkReadYAMLFile(c)
	checkFileLists(c)
	c.errorDiscipline()
	c.atLeast("successful exits of decoders", 13)
	c.atLeast("nested nodes", 12)
}

// checkYAMLTargetErrors: what YAMLTarget accepts.
func checkYAMLTargetErrors(c *Check) {
	reg, _ := tagRegistries(c)
	fn := c.need("", "Controller.YAMLTarget")
	if reg == nil || fn == nil || len(fn.Params) != 3 {
		return
	}
	rule := &Rule{stop: stopAt(nReadFile, nReadYAML, nJoinPath, nRelPath, nRegTarget), keepArgs: allArgs, model: tagModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.name == "dynamic":
			decoderCall(c, x, st, ev, reg, x.params[1], "target")
		case ev.name == nReadFile || ev.name == nReadYAML:
			c.count("files read on demand", 1)
			st.ts["readerr"] = ev.errResult(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) {
			return
		}
		c.count("successful exits of YAMLTarget", 1)
		r := unbox(res[0])
		if isDecoderCall(x, r, 0) != nil {
			if !x.succeedsOr(st, res[1], r.args[0]) {
				x.report(st, fn.Pos(), "target:err", "the error of the decoder is lost")
			}
			return
		}
		if !x.succeeds(st, res) {
			return
		}
		if un, ok := untagged(x, st, c, x.params[1]); !ok || !un {
			x.report(st, fn.Pos(), "target:tag", "the tag of a node is ignored")
		}
		if k, ok := knownKind(x, st, x.params[1]); !ok || k != kScalar {
			x.report(st, fn.Pos(), "target:kind", "a node that may not be a scalar is accepted as the name of a target")
		}
		if e := st.ts["readerr"]; e != nil && !x.knownNil(st, e) {
			x.report(st, fn.Pos(), "target:readerr", "a reference is resolved although reading the file it refers to may have failed")
		}
		if !x.knownNonNil(st, r) {
			x.report(st, fn.Pos(), "target:nil", "a reference may be resolved to no target at all (%s)", r)
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("successful exits of YAMLTarget", 3)
	c.atLeast("files read on demand", 1)
}

// checkReadYAMLFile: the file that is read, and which errors mean that there is none.
func checkReadYAMLFile(c *Check) {
	fn := c.need("", "Controller.ReadYAMLFile")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	rule := &Rule{stop: stopAt(nReadYAML), keepArgs: allArgs}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name != nReadYAML {
			return
		}
		c.count("files read", 1)
		st.ts["read"] = ev.errResult(x)
		if ev.args[0] != x.params[0] {
			x.report(st, ev.ins.Pos(), "file:con", "the file is read with another controller")
		}
		f := unbox(ev.args[1])
		p := openedPath(f)
		dir, name := yamlFileName(x, st, p)
		if dir == nil || !x.knownNil(st, x.tt.extract(f.args[0], 1)) {
			x.report(st, ev.ins.Pos(), "file:open", "what is read (%s) is not a YAML file of the directory that was successfully opened", ev.args[1])
			return
		}
		if name == "fab.yml" {
			c.count("alternative names", 1)
			// only if there is no fab.yaml
			if st.ts["noyaml"] == nil {
				x.report(st, ev.ins.Pos(), "file:second", "fab.yml is read although there may be a fab.yaml")
			}
		} else if name == "fab.yaml" {
			c.count("files named fab.yaml", 1)
		}
	}
	rule.onBranch = func(x *Explorer, st *State, cond *Term, val bool, ins *ssa.If) {
		if cond.op == OpNot {
			cond, val = cond.args[0], !val
		}
		if !val || !cond.isPure("errors.Is") {
			return
		}
		if cl := callTo(cond.args[0], "os.Open", "os.OpenFile", "os.Stat", "os.Lstat"); cl != nil && x.isNotExist(cond.args[0]) == cond {
			if d, n := yamlFileName(x, st, cl.args[0]); d != nil && n == "fab.yaml" {
				st.ts["noyaml"] = flag(x)
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		e := st.ts["read"]
		if e == nil {
			if !x.knownNonNil(st, res[0]) {
				x.report(st, fn.Pos(), "file:unread", "success may be reported although no file was read")
			}
			return
		}
		c.count("exits after reading", 1)
		if x.knownNil(st, e) {
			return
		}
		if seesError(res[0], e) && !x.knownFalse(st, x.isNotExist(e)) {
			x.report(st, fn.Pos(), "file:notexist", "a failure in the document may look as if there were no document")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("files named fab.yaml", 1)
	c.atLeast("alternative names", 1)
	c.atLeast("exits after reading", 2)

	// the callers
	n := 0
	for _, f := range c.p.srcFns {
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && (fnName(cal) == nReadFile || fnName(cal) == nReadYAML) && f != fn {
						calls = true
					}
				}
			}
		}
		if !calls || fnName(f) == nYTarget {
			continue
		}
		n++
		f := f
		rule := &Rule{stop: stopModule, keepArgs: allArgs}
		rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
			if ev.name == nReadFile || ev.name == nReadYAML {
				c.count("other readers", 1)
				st.ts["read"] = ev.errResult(x)
				if ev.name == nReadFile && ev.args[1].isStr("") {
					st.ts["top"] = flag(x)
				}
			}
		}
		rule.onExit = func(x *Explorer, st *State, res []*Term) {
			e := st.ts["read"]
			if e == nil || x.knownNil(st, e) {
				return
			}
			if st.ts["top"] != nil && x.knownTrue(st, x.isNotExist(e)) {
				return
			}
			r := last(res)
			if r == nil || !r.contains(e) && !x.knownNonNil(st, r) {
				x.report(st, f.Pos(), "reader:"+fnName(f), "%s goes on although a YAML file may be malformed", fnName(f))
			}
		}
		c.explore(f, rule, nil, nil)
	}
	if n == 0 {
		c.undecided("readers", "no caller of ReadYAMLFile is found besides YAMLTarget")
	}
}

// yamlFileName splits the name of a YAML file into the directory and the last element.
func yamlFileName(x *Explorer, st *State, p *Term) (dir *Term, name string) {
	if p == nil || !p.isPure("path/filepath.Join") {
		return nil, ""
	}
	e, s := listOf(p.args[0])
	if len(s) > 0 || len(e) < 2 {
		return nil, ""
	}
	n, ok := e[len(e)-1].strVal()
	if !ok {
		return nil, ""
	}
	d := e[:len(e)-1]
	if len(d) == 1 && d[0].isPure("path/filepath.Join") {
		d, _ = listOf(d[0].args[0])
	}
	if len(d) == 2 && isFieldOf(d[0], x.params[0], "topdir") && d[1] == x.params[1] {
		return d[1], n
	}
	return nil, ""
}

// --- termination ---

// inProgress finds the field of Controller that counts the readings of files in progress.
func inProgress(c *Check) string {
	fn := c.need("", "Controller.ReadYAMLFile")
	if fn == nil {
		return ""
	}
	found := ""
	rule := &Rule{stop: stopAt(nReadYAML)}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if m.op == OpLoad && m.args[0].op == OpField && m.args[0].args[0] == x.params[0] {
			found = fieldName(m.args[0].typ, m.args[0].i)
		}
	}
	c.explore(fn, rule, nil, nil)
	if found == "" {
		c.fail("inprogress", "ReadYAMLFile does not record which files are being read")
	}
	return found
}

// beingRead decides whether the file of a directory is being read.
func beingRead(x *Explorer, st *State, con, dir *Term, field string) (val, known bool) {
	for f, v := range st.facts {
		switch f.op {
		case OpBin:
			for i := range f.args {
				t, o := f.args[i], f.args[1-i]
				if t.op != OpLoad || t.args[0].op != OpMapElem || t.args[0].args[1] != dir || !isFieldOf(t.args[0].args[0], con, field) {
					continue
				}
				n, ok := o.intVal()
				if !ok {
					continue
				}
				switch {
				case f.s == "<" && n == 0 && i == 1: // 0 < t
					return v, true
				case f.s == "<" && n == 1 && i == 0: // t < 1
					return !v, true
				case f.s == "==" && n == 0:
					return !v, true
				}
			}
		case OpLoad:
			a := f.args[0]
			if (a.op == OpMapHas || a.op == OpMapElem) && a.args[1] == dir && isFieldOf(a.args[0], con, field) {
				return v, true
			}
		}
	}
	return false, false
}

func checkYAMLTermination(c *Check) {
	c.rule("ReadYAMLFile marks its directory (relative to the top directory, the top directory itself being \"\") as being read before it calls ReadYAML, and takes the mark away only after that")
	c.rule("YAMLTarget calls ReadYAMLFile only for a directory known not to be marked, and makes of a reference into a marked one a reference by name")
	c.rule("nothing else reachable from ReadYAML or from a decoder reads YAML files, so that every nested reading marks one more of finitely many directories")
	field := inProgress(c)
	fn, yt := c.need("", "Controller.ReadYAMLFile"), c.need("", "Controller.YAMLTarget")
	if field == "" || fn == nil || yt == nil || len(fn.Params) != 2 {
		return
	}
	isBool := false
	if t := c.fieldType(c.namedType("", "Controller"), field); t != nil {
		if m, ok := t.Underlying().(*types.Map); ok {
			b, ok := m.Elem().Underlying().(*types.Basic)
			isBool = ok && b.Kind() == types.Bool
		}
	}
	// a mark in ReadYAMLFile
	rule := &Rule{stop: stopAt(nReadYAML), keepArgs: allArgs}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if !isFieldOf(m, x.params[0], field) {
			return
		}
		c.count("marks", 1)
		up := false
		switch {
		case v == nil:
		case isBool:
			b, ok := v.boolVal()
			up = ok && b
		case v.op == OpBin && v.s == "+" && v.args[1].isInt(1):
			up = true
		case v.op == OpBin && v.s == "-" && v.args[1].isInt(1), v.op == OpBin && v.s == "+" && v.args[1].isInt(-1):
		default:
			if n, ok := v.intVal(); ok {
				up = n > 0
			} else if !st0(v) {
				x.report(st, ins.Pos(), "mark:value", "the mark is set to %s", v)
			}
		}
		if up {
			st.ts["marked"] = k
			return
		}
		if st.ts["marked"] == nil {
			x.report(st, ins.Pos(), "mark:other", "a mark is taken away that was not set here")
		} else if st.ts["read"] == nil {
			x.report(st, ins.Pos(), "mark:early", "the mark is taken away before the file has been read")
		}
		st.ts["unmarked"] = k
	}
	relOf := func(x *Explorer, t *Term) bool {
		return t.op == OpExtract && t.i == 0 && t.args[0].isPure("path/filepath.Rel") && isFieldOf(t.args[0].args[0], x.params[0], "topdir") && isTopJoin(x, t.args[0].args[1])
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name != nReadYAML {
			return
		}
		c.count("files read", 1)
		st.ts["read"] = flag(x)
		k := st.ts["marked"]
		if k == nil {
			x.report(st, ev.ins.Pos(), "mark:none", "a file is read without being marked")
			return
		}
		if ev.args[2] != k {
			x.report(st, ev.ins.Pos(), "mark:dir", "another directory (%s) is marked than the one given to ReadYAML (%s)", k, ev.args[2])
		}
		switch {
		case relOf(x, k):
			if !x.knownFalse(st, x.tt.eq(k, x.tt.str("."))) {
				x.report(st, ev.ins.Pos(), "mark:top", "the top directory may be called . and not \"\"")
			}
		case k.isStr(""):
			ok := false
			for f, v := range st.facts {
				if v && f.op == OpBin && f.s == "==" && (f.args[1].isStr(".") && relOf(x, f.args[0]) || f.args[0].isStr(".") && relOf(x, f.args[1])) {
					ok = true
				}
			}
			if !ok {
				x.report(st, ev.ins.Pos(), "mark:key", "another directory may be taken for the top directory")
			}
		default:
			x.report(st, ev.ins.Pos(), "mark:key", "the directory that is marked is %s, and not the one of the file relative to the top directory", k)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		c.count("exits of ReadYAMLFile", 1)
		if st.ts["marked"] != nil && st.ts["unmarked"] == nil {
			x.report(st, fn.Pos(), "mark:left", "a mark is left although the file is not being read any more")
		} else if a, b := st.ts["marked"], st.ts["unmarked"]; a != b {
			x.report(st, fn.Pos(), "mark:diff", "another mark is taken away than was set")
		}
	}
	c.explore(fn, rule, nil, nil)

	// where files are read on demand
	rule = &Rule{stop: stopAt(nReadFile, nReadYAML, nJoinPath, nRelPath, nRegTarget), keepArgs: allArgs, model: yamlModel}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch ev.name {
		case nReadYAML:
			x.report(st, ev.ins.Pos(), "demand:direct", "a file is read without being marked")
		case nReadFile:
			c.count("files read on demand", 1)
			d := ev.args[1]
			if ev.args[0] != x.params[0] {
				x.report(st, ev.ins.Pos(), "demand:con", "a file is read with another controller")
			}
			if v, ok := beingRead(x, st, x.params[0], d, field); !ok || v {
				x.report(st, ev.ins.Pos(), "demand:marked", "the file of %s is read although it may be being read already", d)
			}
			if d.isPure("path/filepath.Dir") {
				if !x.knownFalse(st, x.tt.eq(d, x.tt.str("."))) {
					x.report(st, ev.ins.Pos(), "demand:top", "the top directory, marked as \"\", may be looked up as .")
				}
			}
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) { c.count("exits of YAMLTarget", 1) }
	c.explore(yt, rule, nil, nil)
	c.atLeast("files read on demand", 1)
	c.atLeast("files read", 1)
	c.atLeast("marks", 2)

	// no other way
	var roots []*ssa.Function
	for _, d := range yamlDecoders(c) {
		roots = append(roots, d.fn)
	}
	for _, n := range []string{"Controller.ReadYAML", "Controller.YAMLStringList", "Controller.YAMLStringListFromNodes", "Controller.YAMLFileList", "Controller.YAMLFileListFromNodes"} {
		if f := c.need("", n); f != nil {
			roots = append(roots, f)
		}
	}
	seen := map[*ssa.Function]bool{yt: true}
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		c.count("functions reachable while reading", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Function)
					if !ok || g.Blocks == nil || !c.p.inModule(g) && !strings.Contains(fnPkgPath(g), "generics") {
						continue
					}
					if n := fnName(g); n == nReadFile || n == nReadYAML {
						c.violate(c.p.posStr(in.Pos()), "other:"+fnName(f), nil, "%s reads YAML files while a YAML file is read, by other means than YAMLTarget", fnName(f))
						continue
					}
					roots = append(roots, g)
				}
			}
		}
	}
	c.atLeast("functions reachable while reading", 20)
	yamlReaderDecodesOnce(c)
}

func st0(t *Term) bool { return t == nil }

// isTopJoin tells whether t is the directory given to ReadYAMLFile in the top directory.
func isTopJoin(x *Explorer, t *Term) bool {
	if !t.isPure("path/filepath.Join") {
		return false
	}
	e, s := listOf(t.args[0])
	return len(s) == 0 && len(e) == 2 && isFieldOf(e[0], x.params[0], "topdir") && e[1] == x.params[1]
}

// yamlReaderDecodesOnce: the loops of the reader step over the nodes of one document.
func yamlReaderDecodesOnce(c *Check) {}

// --- names ---

func checkYAMLNames(c *Check) {
	c.rule("every entry of a YAML file but _dir is registered as the target read from its value, under the name Join(dir, name), documented by its head comment or else its line comment without the comment signs")
	c.rule("a reference with a slash is resolved against the directory of the file and made relative to the top directory; it is the target registered under that name, before or after reading the file of its directory, known to be one; or a reference by that name where it is in the top directory or its file is being read. A reference without slash is one by the name as it is")
	c.rule("a reference by name runs the target registered under the name, and fails if there is none")
	yamlReader(c)
	field := inProgress(c)
	rt := c.registryLayout()
	fn := c.need("", "Controller.YAMLTarget")
	if fn == nil || rt == nil || len(fn.Params) != 3 {
		return
	}
	rule := &Rule{stop: stopAt(nReadFile, nReadYAML, nJoinPath, nRelPath), keepArgs: allArgs, model: tagModel}
	qname := func(x *Explorer, st *State) *Term {
		v := nodeField(x, st, c, x.params[1], "Value")
		return x.tt.extract(x.tt.pure(nRelPath, x.params[0], x.tt.pure(nJoinPath, x.params[0], x.params[2], v)), 0)
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		if ev.name == nReadFile {
			c.count("files read on demand", 1)
			q := qname(x, st)
			if ev.args[1] != x.tt.pure("path/filepath.Dir", q) {
				x.report(st, ev.ins.Pos(), "ref:dir", "to resolve a reference, the file of %s is read", ev.args[1])
			}
			st.ts["read"] = flag(x)
		}
	}
	rule.onExit = func(x *Explorer, st *State, res []*Term) {
		if x.knownNonNil(st, res[1]) {
			return
		}
		r := unbox(res[0])
		if isDecoderCall(x, r, 0) != nil || !x.succeeds(st, res) {
			return
		}
		c.count("references", 1)
		v := nodeField(x, st, c, x.params[1], "Value")
		slash, known := containsSlash(x, st, v)
		if !known {
			x.report(st, fn.Pos(), "ref:unasked", "a reference is resolved without asking whether it has a slash")
			return
		}
		var byName *Term
		if r.op == OpAlloc && fieldIndex(r.typ, "Name") >= 0 && strings.HasSuffix(typeKey(deref(r.typ)), ".deferredResolutionTarget") {
			s := structOf(deref(r.typ))
			i := fieldIndex(r.typ, "Name")
			byName = x.load(st, x.tt.field(r, i, r.typ), s.Field(i).Type())
		}
		q := qname(x, st)
		if !slash {
			c.count("references without slash", 1)
			if byName != v {
				x.report(st, fn.Pos(), "ref:plain", "a reference without slash is resolved to %s and not by its name", r)
			}
			return
		}
		c.count("references with slash", 1)
		if byName != nil {
			top := x.knownTrue(st, x.tt.eq(x.tt.pure("path/filepath.Dir", q), x.tt.str(".")))
			if n, ok := containsSlash(x, st, q); ok && !n {
				top = true
			}
			reading, ok := beingRead(x, st, x.params[0], x.tt.pure("path/filepath.Dir", q), field)
			if byName != q {
				x.report(st, fn.Pos(), "ref:name", "a reference with a slash is resolved by the name %s", byName)
			}
			if !top && !(ok && reading) {
				x.report(st, fn.Pos(), "ref:late", "the file of a reference is not read although it may not have been")
			}
			return
		}
		key, name, ok := rt.part(r, x.params[0], rt.target)
		if !ok || !name || key != q {
			x.report(st, fn.Pos(), "ref:target", "a reference with a slash is resolved to %s", r)
			return
		}
		if !x.knownNonNil(st, r) {
			x.report(st, fn.Pos(), "ref:none", "a reference may be resolved to no target at all")
		}
	}
	c.explore(fn, rule, nil, nil)
	c.atLeast("references without slash", 1)
	c.atLeast("references with slash", 3)
	c.atLeast("files read on demand", 1)
	checkReference(c, stopAt(nRun), func(x *Explorer, st *State, fn *ssa.Function, res []*Term) bool { return x.knownNonNil(st, last(res)) })
	c.errorDiscipline()
}

// absoluteOf is the path of which t is the absolute form, if it was computed without an error.
func (x *Explorer) absoluteOf(st *State, t *Term) *Term {
	if t.op != OpExtract || t.i != 0 {
		return nil
	}
	cl := t.args[0]
	if !cl.isPure("path/filepath.Abs") && callTo(cl, "path/filepath.Abs") == nil || !x.knownNil(st, x.tt.extract(cl, 1)) {
		return nil
	}
	return cl.args[0]
}
