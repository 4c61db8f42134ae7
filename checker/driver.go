package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"
)

// driverSource is what CompilePackage knows about the driver it writes.
type driverSource struct {
	text    string   // the template
	nameFor []string // fields of the data with the name of the package
	targets string   // field of the data with the targets
	name    string   // field of a target with its name
	doc     string   // field of a target with its documentation
	quoted  bool     // whether the documentation is a Go string literal
	modName string   // argument of go mod init
}

// driverSource learns from CompilePackage which template it uses and what it puts there.
func (c *Check) driverSource() *driverSource {
	fn := c.need("", "CompilePackage")
	if fn == nil || len(fn.Params) != 3 {
		return nil
	}
	d := &driverSource{}
	bad := func(format string, args ...any) {
		if c.viol["undecided:template"] == nil {
			c.undecided("template", format, args...)
		}
	}
	type assign struct {
		field string
		val   *Term
	}
	var (
		assigns  []assign
		elem     *types.Struct
		elemName string
		names    = map[string]bool{}
		executed int
	)
	setFields := func(x *Explorer, st *State, v *Term, t types.Type, key *Term) {
		s := structOf(deref(t))
		if s == nil {
			return
		}
		for i, p := range x.entryParts(st, v, s, t) {
			if p == key {
				names[typeKey(deref(t))+"."+s.Field(i).Name()] = true
			}
			assigns = append(assigns, assign{typeKey(deref(t)) + "." + s.Field(i).Name(), p})
		}
	}
	rule := &Rule{keepArgs: allArgs, forget: true}
	rule.stop = func(x *Explorer, name string, f *ssa.Function) bool {
		return oneOf(name, "fab.populateFabDir", "fab.checkImplementsTarget") || docHelper(f)
	}
	rule.onMapSet = func(x *Explorer, st *State, m, k, v *Term, ins ssa.Instruction) {
		if mu, ok := ins.(*ssa.MapUpdate); ok && v != nil {
			setFields(x, st, v, mu.Map.Type().Underlying().(*types.Map).Elem(), k)
		}
	}
	rule.onStore = func(x *Explorer, st *State, addr, val *Term, ins ssa.Instruction) {
		if s, ok := ins.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				t := deref(fa.X.Type())
				assigns = append(assigns, assign{typeKey(t) + "." + structOf(t).Field(fa.Field).Name(), val})
			}
		}
	}
	rule.onCall = func(x *Explorer, st *State, ev *CallEvent) {
		switch {
		case ev.is("(*text/template.Template).Delims", "(*text/template.Template).Funcs"):
			bad("the template is used with %s", ev.name)
		case ev.is("(*text/template.Template).Parse"):
			s := ev.args[1]
			text, ok := s.strVal()
			if !ok && s.op == OpLoad && s.args[0].op == OpGlobal {
				text, ok = embedOf(c, s.args[0].glob)
			}
			if !ok || d.text != "" && d.text != text {
				bad("the text of the template is not known")
			}
			d.text = text
		case ev.is("os/exec.CommandContext", "os/exec.Command"):
			var ws []string
			for _, a := range ev.args {
				if a.op == OpSeq {
					el, _ := listOf(a)
					for _, e := range el {
						s, _ := e.strVal()
						ws = append(ws, s)
					}
				}
			}
			if len(ws) == 3 && ws[0] == "mod" && ws[1] == "init" {
				if d.modName != "" && d.modName != ws[2] {
					bad("go mod init is given different names")
				}
				d.modName = ws[2]
			}
		case ev.is("(*text/template.Template).Execute"):
			executed++
			raw := ev.raw[2]
			if raw.op != OpIface || raw.typ == nil {
				bad("the data of the template has an unknown type")
				return
			}
			t := raw.typ
			s := structOf(deref(t))
			if s == nil {
				bad("the data of the template is not a structure")
				return
			}
			d.nameFor = nil
			for i, p := range x.entryParts(st, unbox(raw), s, t) {
				f := s.Field(i)
				switch ft := f.Type().Underlying().(type) {
				case *types.Slice:
					et := structOf(deref(ft.Elem()))
					if et == nil || d.targets != "" && d.targets != f.Name() {
						bad("field %s of the data of the template is not understood", f.Name())
						return
					}
					d.targets, elem, elemName = f.Name(), et, typeKey(deref(ft.Elem()))
				case *types.Basic:
					if !isFieldOf(p, x.params[1], "Name") {
						bad("field %s of the data of the template is not understood (%s)", f.Name(), p)
						return
					}
					d.nameFor = append(d.nameFor, f.Name())
				default:
					bad("field %s of the data of the template is not understood", f.Name())
					return
				}
			}
		}
	}
	c.explore(fn, rule, nil, nil)
	if c.viol["undecided:template"] != nil {
		return nil
	}
	if executed == 0 || d.text == "" || elem == nil || d.modName == "" {
		bad("CompilePackage does not render a template with a list of targets, or does not run go mod init")
		return nil
	}
	for i := 0; i < elem.NumFields(); i++ {
		f := elem.Field(i)
		if names[elemName+"."+f.Name()] {
			d.name = f.Name()
		} else if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && d.doc == "" {
			d.doc = f.Name()
		} else {
			bad("field %s of the targets given to the template is not understood", f.Name())
			return nil
		}
	}
	if d.name == "" || d.doc == "" {
		bad("the targets given to the template do not have a name and a documentation string")
		return nil
	}
	q, r := 0, 0
	for _, a := range assigns {
		if a.field != elemName+"."+d.doc {
			continue
		}
		c.count("values of documentation strings", 1)
		if s, ok := a.val.strVal(); ok {
			if _, err := strconv.Unquote(s); err == nil {
				q++
			} else if s == "" {
				// the zero value
				if _, isConst := a.val.strVal(); isConst {
					r++
				}
			} else {
				r++
			}
		} else if a.val.isPure("strconv.Quote") || a.val.isPure("strconv.QuoteToASCII") || a.val.isPure("fmt.Sprintf") && a.val.args[0].isStr("%q") {
			q++
		} else {
			r++
		}
	}
	if q > 0 && r > 0 {
		c.fail("doc:quoting", "some documentation strings given to the template of the driver are Go string literals and some are not")
		return nil
	}
	d.quoted = q > 0
	c.count("templates", 1)
	return d
}

// sampleTarget is a target in a driver made for analysis.
type sampleTarget struct{ name, doc string }

const (
	sampleDir = "zzfabdriver"
	sampleSub = "samplerules"
)

var sampleTargets = [][]sampleTarget{
	{},
	{{"Zfirst", "A doc with \"quotes\", `backquotes`, \\ backslashes, {{ .Braces }}, %d, \x00 and\nseveral\nlines."}},
	{{"Zsecond", ""}, {"Zthird", "Third <&> doc."}, {"Fab", "not the package"}},
}

// render gives the source of the driver for some targets.
func (d *driverSource) render(targets []sampleTarget) (string, error) {
	t, err := template.New("").Option("missingkey=error").Parse(d.text)
	if err != nil {
		return "", err
	}
	var list []map[string]any
	for _, s := range targets {
		doc := s.doc
		if d.quoted {
			doc = strconv.Quote(doc)
		}
		list = append(list, map[string]any{d.name: s.name, d.doc: doc})
	}
	data := map[string]any{d.targets: list}
	for _, f := range d.nameFor {
		data[f] = sampleSub
	}
	var b bytes.Buffer
	err = t.Execute(&b, data)
	return b.String(), err
}

// drivers loads the drivers for the sample targets as packages of the module.
// The result is a check on that program, with one main function for each set of sample targets.
func (c *Check) drivers() (*driverSource, *Check, []*ssa.Function) {
	d := c.driverSource()
	if d == nil {
		return nil, nil, nil
	}
	overlay := map[string][]byte{}
	var extra []string
	for _, ts := range sampleTargets {
		src, err := d.render(ts)
		if err != nil {
			c.fail("driver:template", "the template of the driver cannot be rendered for %d targets: %v", len(ts), err)
			return nil, nil, nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "driver.go", src, parser.ImportsOnly)
		if err != nil {
			c.fail("driver:syntax", "the driver for %d targets is not a valid Go file: %v", len(ts), err)
			return nil, nil, nil
		}
		var user *ast.ImportSpec
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == d.modName || strings.HasPrefix(p, d.modName+"/") {
				user = im
			}
		}
		if user == nil {
			c.fail("driver:import", "the driver for %d targets does not import the package of the user", len(ts))
			return nil, nil, nil
		}
		if p, _ := strconv.Unquote(user.Path.Value); p != d.modName+"/pkg/"+sampleSub {
			c.fail("driver:import", "the driver for %d targets imports %s, and not the directory the user's package is copied to", len(ts), p)
			return nil, nil, nil
		}
		sub := fmt.Sprintf("%s/n%d", sampleDir, len(ts))
		at := fset.Position(user.Path.Pos()).Offset
		src = src[:at] + strconv.Quote(modPath+"/"+sub+"/"+sampleSub) + src[at+len(user.Path.Value):]
		overlay[filepath.Join(c.p.repo, sub, "driver.go")] = []byte(src)
		u := "package " + sampleSub + "\n"
		if len(ts) > 0 {
			u += "\nimport \"" + modPath + "\"\n"
		}
		for _, t := range ts {
			u += fmt.Sprintf("\nvar %s fab.Target = fab.Seq()\n", t.name)
		}
		overlay[filepath.Join(c.p.repo, sub, sampleSub, "u.go")] = []byte(u)
		extra = append(extra, "./"+sub, "./"+sub+"/"+sampleSub)
	}
	p, err := load(overlay, extra...)
	if err != nil {
		c.fail("driver:types", "the driver is not a valid Go program: %v", err)
		return nil, nil, nil
	}
	c2 := *c
	c2.p = p
	var mains []*ssa.Function
	for _, ts := range sampleTargets {
		fn := c2.need(fmt.Sprintf("%s/n%d", sampleDir, len(ts)), "main")
		if fn == nil {
			return nil, nil, nil
		}
		mains = append(mains, fn)
	}
	c.count("rendered drivers", len(mains))
	return d, &c2, mains
}
