package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// A parser for the part of SQL that a key-value table needs.

type sqlExpr struct {
	op   string // "param", "col", "excluded", "num", "count", "exists", "+", "-", "max", "min"
	name string // column
	n    int    // parameter (from 1), number
	args []*sqlExpr
	sub  *sqlStmt
}

type sqlCond struct {
	l, r *sqlExpr
	op   string
}

type sqlSet struct {
	col string
	val *sqlExpr
}

type sqlStmt struct {
	kind     string // insert, update, delete, select, create, index, other
	table    string
	cols     []string   // insert
	vals     []*sqlExpr // insert, select
	sets     []sqlSet   // update, on conflict do update
	where    []sqlCond
	conflict string // "", "replace", "ignore", "update"
	ifAbsent bool
	keyCols  []string
	types    map[string]string
	notNull  map[string]bool
	params   int
}

type sqlParser struct {
	toks  []string
	names map[string]int
	max   int
	err   error
}

func sqlTokens(s string) ([]string, error) {
	var ts []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == '-' && strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case unicode.IsSpace(rune(ch)):
			i++
		case ch == '"' || ch == '`' || ch == '[':
			end := ch
			if ch == '[' {
				end = ']'
			}
			j := strings.IndexByte(s[i+1:], end)
			if j < 0 {
				return nil, fmt.Errorf("unterminated name")
			}
			ts = append(ts, strings.ToLower(s[i+1:i+1+j]))
			i += j + 2
		case ch == '_' || unicode.IsLetter(rune(ch)) || unicode.IsDigit(rune(ch)) || strings.IndexByte("$?:@", ch) >= 0:
			j := i + 1
			for j < len(s) && (s[j] == '_' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			ts = append(ts, strings.ToLower(s[i:j]))
			i = j
		case strings.IndexByte("<>=!", ch) >= 0:
			j := i + 1
			for j < len(s) && strings.IndexByte("<>=", s[j]) >= 0 {
				j++
			}
			ts = append(ts, s[i:j])
			i = j
		case strings.IndexByte("(),;*.+-", ch) >= 0:
			ts = append(ts, string(ch))
			i++
		default:
			return nil, fmt.Errorf("character %q", ch)
		}
	}
	return ts, nil
}

// parseSQL parses a list of statements.
func parseSQL(s string) ([]*sqlStmt, error) {
	ts, err := sqlTokens(s)
	if err != nil {
		return nil, err
	}
	var res []*sqlStmt
	for len(ts) > 0 {
		if ts[0] == ";" {
			ts = ts[1:]
			continue
		}
		p := &sqlParser{toks: ts, names: map[string]int{}}
		st := p.stmt()
		if p.err != nil {
			return nil, p.err
		}
		if len(p.toks) > 0 && p.toks[0] != ";" {
			return nil, fmt.Errorf("%q is not understood", p.toks[0])
		}
		st.params = p.max
		res = append(res, st)
		ts = p.toks
	}
	return res, nil
}

func (p *sqlParser) peek() string {
	if len(p.toks) == 0 {
		return ""
	}
	return p.toks[0]
}

func (p *sqlParser) next() string {
	t := p.peek()
	if t == "" {
		p.fail("the statement is incomplete")
		return ""
	}
	p.toks = p.toks[1:]
	return t
}

func (p *sqlParser) fail(f string, a ...any) {
	if p.err == nil {
		p.err = fmt.Errorf(f, a...)
	}
	p.toks = nil
}

// accept consumes the words if they come next.
func (p *sqlParser) accept(words ...string) bool {
	if len(p.toks) < len(words) {
		return false
	}
	for i, w := range words {
		if p.toks[i] != w {
			return false
		}
	}
	p.toks = p.toks[len(words):]
	return true
}

func (p *sqlParser) expect(words ...string) {
	for _, w := range words {
		if !p.accept(w) {
			p.fail("%q instead of %q", p.peek(), w)
		}
	}
}

func (p *sqlParser) ident() string {
	t := p.next()
	if t != "" && t[0] != '_' && !unicode.IsLetter(rune(t[0])) {
		p.fail("%q is not a name", t)
	}
	return t
}

func (p *sqlParser) identList() []string {
	var l []string
	p.expect("(")
	for p.err == nil {
		l = append(l, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return l
}

func (p *sqlParser) stmt() *sqlStmt {
	st := &sqlStmt{}
	switch w := p.next(); w {
	case "create":
		st.kind = "create"
		if p.accept("unique") {
			st.kind = "index"
		}
		if p.accept("index") {
			st.kind = "index"
		} else {
			p.expect("table")
		}
		st.ifAbsent = p.accept("if", "not", "exists")
		name := p.ident()
		if st.kind == "index" {
			p.expect("on")
			st.table = p.ident()
			st.keyCols = p.identList()
			return st
		}
		st.table = name
		p.columns(st)
	case "insert", "replace":
		st.kind = "insert"
		if w == "replace" {
			st.conflict = "replace"
		} else if p.accept("or") {
			st.conflict = p.next()
			if st.conflict != "replace" && st.conflict != "ignore" {
				st.conflict = ""
			}
		}
		p.expect("into")
		st.table = p.ident()
		if p.peek() == "(" {
			st.cols = p.identList()
		}
		p.expect("values", "(")
		for p.err == nil {
			st.vals = append(st.vals, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		if p.accept("on", "conflict") {
			if p.peek() == "(" {
				st.keyCols = p.identList()
			}
			p.expect("do")
			if p.accept("nothing") {
				st.conflict = "ignore"
			} else {
				st.conflict = "update"
				p.expect("update", "set")
				p.setList(st)
				p.whereClause(st)
			}
		}
	case "update":
		st.kind = "update"
		st.table = p.ident()
		p.expect("set")
		p.setList(st)
		p.whereClause(st)
	case "delete":
		st.kind = "delete"
		p.expect("from")
		st.table = p.ident()
		p.whereClause(st)
	case "select":
		p.selectRest(st)
	default:
		st.kind = "other"
		st.table = w
		for p.peek() != "" && p.peek() != ";" {
			p.next()
		}
	}
	return st
}

func (p *sqlParser) selectRest(st *sqlStmt) {
	st.kind = "select"
	for p.err == nil {
		st.vals = append(st.vals, p.expr())
		if !p.accept(",") {
			break
		}
	}
	if p.accept("from") {
		st.table = p.ident()
		p.whereClause(st)
	}
	if p.accept("limit") {
		if p.next() == "0" {
			p.fail("LIMIT 0")
		}
	}
}

func (p *sqlParser) columns(st *sqlStmt) {
	st.types, st.notNull = map[string]string{}, map[string]bool{}
	p.expect("(")
	for p.err == nil {
		if p.accept("primary", "key") || p.accept("unique") {
			if l := p.identList(); len(l) == 1 {
				st.keyCols = append(st.keyCols, l[0])
			}
		} else {
			col := p.ident()
			st.cols = append(st.cols, col)
			typ := ""
			for p.err == nil && p.peek() != "," && p.peek() != ")" {
				switch {
				case p.accept("not", "null"):
					st.notNull[col] = true
				case p.accept("primary", "key"), p.accept("unique"):
					st.keyCols = append(st.keyCols, col)
				case p.accept("default"):
					p.next()
					delete(st.notNull, col)
				default:
					typ += p.next() + " "
				}
			}
			st.types[col] = strings.TrimSpace(typ)
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	for p.accept("without", "rowid") || p.accept("strict") || p.accept(",") {
	}
}

func (p *sqlParser) setList(st *sqlStmt) {
	for p.err == nil {
		col := p.ident()
		p.expect("=")
		st.sets = append(st.sets, sqlSet{col, p.expr()})
		if !p.accept(",") {
			return
		}
	}
}

func (p *sqlParser) whereClause(st *sqlStmt) {
	if !p.accept("where") {
		return
	}
	for p.err == nil {
		l := p.expr()
		op := p.next()
		if op == "==" || op == "is" {
			op = "="
		}
		st.where = append(st.where, sqlCond{l, p.expr(), op})
		if !p.accept("and") {
			return
		}
	}
}

func (p *sqlParser) expr() *sqlExpr {
	e := p.primary()
	for p.err == nil && (p.peek() == "+" || p.peek() == "-") {
		op := p.next()
		e = &sqlExpr{op: op, args: []*sqlExpr{e, p.primary()}}
	}
	return e
}

func (p *sqlParser) primary() *sqlExpr {
	t := p.next()
	if t == "" {
		return &sqlExpr{op: "?"}
	}
	switch {
	case t == "?":
		p.max++
		return &sqlExpr{op: "param", n: p.max}
	case t[0] == '?':
		n, _ := strconv.Atoi(t[1:])
		if n > p.max {
			p.max = n
		}
		return &sqlExpr{op: "param", n: n}
	case t[0] == '$' || t[0] == ':' || t[0] == '@':
		// named parameters are numbered in the order of their first appearance
		if p.names[t] == 0 {
			p.max++
			p.names[t] = p.max
		}
		return &sqlExpr{op: "param", n: p.names[t]}
	case unicode.IsDigit(rune(t[0])):
		n, err := strconv.Atoi(t)
		if err != nil {
			p.fail("number %s", t)
		}
		return &sqlExpr{op: "num", n: n}
	case t == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t == "count" && p.accept("("):
		if !p.accept("*") {
			p.expr()
		}
		p.expect(")")
		return &sqlExpr{op: "count"}
	case t == "exists" && p.accept("(", "select"):
		sub := &sqlStmt{}
		p.selectRest(sub)
		p.expect(")")
		return &sqlExpr{op: "exists", sub: sub}
	case t == "excluded" && p.accept("."):
		return &sqlExpr{op: "excluded", name: p.ident()}
	case t[0] == '_' || unicode.IsLetter(rune(t[0])):
		if p.accept(".") {
			t = p.ident()
		}
		if p.peek() == "(" {
			p.fail("the function %s", t)
		}
		return &sqlExpr{op: "col", name: t}
	}
	p.fail("%q", t)
	return &sqlExpr{op: "?"}
}
