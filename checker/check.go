package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct that breaks a rule.
type Violation struct {
	key   string
	msg   string
	pos   string
	trace []string
	count int
}

// Check decides one property.
type Check struct {
	p      *Program
	id     string
	viol   map[string]*Violation
	counts map[string]int
	funcs  map[string]bool
	rules  []string
	notes  []string
	ids    []string // ids this check is a part of
}

func newCheck(p *Program, id string) *Check {
	return &Check{p: p, id: id, viol: map[string]*Violation{}, counts: map[string]int{}, funcs: map[string]bool{}}
}

func (c *Check) violate(pos, key string, trace []string, format string, args ...any) {
	if v, ok := c.viol[key]; ok {
		v.count++
		if len(trace) < len(v.trace) {
			v.trace, v.pos = trace, pos
			v.msg = fmt.Sprintf(format, args...)
		}
		return
	}
	c.viol[key] = &Violation{key: key, msg: fmt.Sprintf(format, args...), pos: pos, trace: trace, count: 1}
}

func (c *Check) fail(key, format string, args ...any) { c.violate("-", key, nil, format, args...) }

// undecided reports that the analysis could not establish the property.
func (c *Check) undecided(what, format string, args ...any) {
	c.violate("-", "undecided:"+what, nil, "undecided: "+format, args...)
}

func (c *Check) count(what string, n int) { c.counts[what] += n }

// atLeast guards against a rule that matches nothing.
func (c *Check) atLeast(what string, n int) {
	if c.counts[what] < n {
		c.undecided("few:"+what, "only %d instances of %q were found, want at least %d", c.counts[what], what, n)
	}
}

func (c *Check) rule(format string, args ...any) {
	c.rules = append(c.rules, fmt.Sprintf(format, args...))
}

// explorer makes an explorer reporting to this check.
func (c *Check) explorer(rule *Rule) *Explorer {
	x := newExplorer(c.p, rule)
	x.report = func(st *State, pos tokenPos, key, format string, args ...any) {
		in := ""
		if x.entry != nil {
			in = fnName(x.entry)
		}
		var tr []string
		if st != nil {
			tr = x.trace(st, 40)
		}
		c.violate(c.p.posStr(pos), key, tr, "%s (analysing %s)", fmt.Sprintf(format, args...), in)
	}
	return x
}

// explore runs an exploration of a function of the module and accounts for it.
func (c *Check) explore(fn *ssa.Function, rule *Rule, args []*Term, init func(x *Explorer, st *State)) *Explorer {
	x := c.explorer(rule)
	return c.exploreWith(x, fn, args, init)
}

func (c *Check) exploreWith(x *Explorer, fn *ssa.Function, args []*Term, init func(x *Explorer, st *State)) *Explorer {
	var in func(st *State)
	if init != nil {
		in = func(st *State) { init(x, st) }
	}
	x.run(fn, args, in)
	c.account(x, fn)
	return x
}

func (c *Check) account(x *Explorer, fn *ssa.Function) {
	c.count("entry points explored", 1)
	c.count("abstract states", x.states)
	c.count("paths to an exit", x.exits)
	for f := range x.inlined {
		c.funcs[fnName(f)] = true
	}
	if x.problem != "" {
		c.undecided(fnName(fn), "%s at %s", x.problem, c.p.posStr(x.problemPos))
	} else if x.exits == 0 && x.counts["exits-ok"] == 0 {
		c.undecided("exit:"+fnName(fn), "no exit of %s was reached", fnName(fn))
	}
}

// need finds a function that a rule is anchored in.
func (c *Check) need(sub, name string) *ssa.Function {
	f := c.p.fn(sub, name)
	if f == nil || f.Blocks == nil {
		c.undecided("anchor:"+sub+"."+name, "%s is not found in package %q", name, sub)
		return nil
	}
	return f
}

func (c *Check) namedType(sub, name string) types.Type {
	path := modPath
	if sub != "" {
		path += "/" + sub
	}
	sp := c.p.ssaPkgs[path]
	if sp != nil {
		if tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	c.undecided("anchor:"+sub+"."+name, "type %s is not found in package %q", name, sub)
	return nil
}

// --- output ---

// extType finds a type of another module.
func (c *Check) extType(pkgPath, name string) types.Type {
	for _, pkg := range c.p.all {
		if pkg.PkgPath == pkgPath && pkg.Types != nil {
			if o := pkg.Types.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	c.undecided("anchor:"+name, "type %s is not found in package %q", name, pkgPath)
	return nil
}

func verifDir() string {
	if d := os.Getenv("FABCHECK_OUT"); d != "" {
		return d
	}
	if exe, err := os.Executable(); err == nil {
		d := filepath.Dir(filepath.Dir(exe)) // <verif>/bin/fabcheck
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
	}
	return "/verif"
}

func (c *Check) knownFindings() map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property="+c.id+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		out[key] = what
	}
	return out
}

func (c *Check) finish(level, explanation string, start time.Time) int {
	out := verifDir()
	evdir := filepath.Join(out, "evidence")
	os.MkdirAll(evdir, 0755)
	known := c.knownFindings()
	var keys []string
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var text strings.Builder
	n := 0
	for _, k := range keys {
		v := c.viol[k]
		if what, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, what)
			continue
		}
		n++
		fmt.Fprintf(&text, "[%s] %s: %s (%d path(s))\n", v.key, v.pos, v.msg, v.count)
		for _, t := range v.trace {
			fmt.Fprintf(&text, "    %s\n", t)
		}
	}
	replay := filepath.Join(evdir, c.id+".violation.txt")
	if n > 0 {
		os.WriteFile(replay, []byte("property "+c.id+"\n"+text.String()), 0644)
		fmt.Print(text.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	} else {
		os.Remove(replay)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{"explanation": explanation, "rules": c.rules, "functions_analysed": fns, "exhaustive": false}
	for k, v := range c.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": n,
		"assumptions": assumptions,
	}
	data, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(evdir, c.id+".json"), append(data, '\n'), 0644)
	if n > 0 {
		return 1
	}
	fmt.Printf("OK property=%s\n", c.id)
	return 0
}

var assumptions = []string{
	"The Go standard library, yaml.v3, go-sqlite3, x/tools and bobg/errors behave as documented; their functions are modelled, not analysed.",
	"No code outside this module changes unexported state, and no unsafe or reflective writes reach it.",
	"Goroutine bodies are analysed as if executed at the point of the go statement; data races are the subject of C19 and of the captured-variable rule.",
}
