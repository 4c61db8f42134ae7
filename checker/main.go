package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type checkDef struct {
	fn          func(c *Check)
	explanation string
}

var checks = map[string]checkDef{}

func register(id, explanation string, fn func(c *Check)) { checks[id] = checkDef{fn, explanation} }

func runCheck(p *Program, id string, start time.Time) (code int) {
	d, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	c := newCheck(p, id)
	defer func() {
		if r := recover(); r != nil {
			c.undecided("panic", "the analysis failed: %v\n%s", r, debug.Stack())
			code = c.finish("other", d.explanation, start)
		}
	}()
	d.fn(c)
	return c.finish("other", d.explanation, start)
}

func main() {
	start := time.Now()
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: fabcheck PROPERTY... | all | list")
		os.Exit(2)
	}
	ids := os.Args[1:]
	if ids[0] == "list" || ids[0] == "all" {
		var all []string
		for id := range checks {
			all = append(all, id)
		}
		sort.Strings(all)
		if ids[0] == "list" {
			for _, id := range all {
				fmt.Println(id)
			}
			return
		}
		ids = all
	}
	p, err := load(nil)
	if err != nil {
		for _, id := range ids {
			c := newCheck(nil, id)
			c.undecided("load", "%v", err)
			c.finish("other", "The program could not be loaded.", start)
		}
		os.Exit(1)
	}
	if ids[0] == "debug" {
		debugRun(p, ids[1:])
		return
	}
	code := 0
	for _, id := range ids {
		t := start
		if len(ids) > 1 {
			t = time.Now()
		}
		if r := runCheck(p, id, t); r > code {
			code = r
		}
		if len(ids) > 1 {
			fmt.Fprintf(os.Stderr, "%s %.2fs\n", id, time.Since(t).Seconds())
		}
	}
	os.Exit(code)
}
