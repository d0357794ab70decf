package main

// A small Lua interpreter, sufficient for Redis scripts (EVAL/EVALSHA) sent to the fake Redis server.

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type lval any // nil, bool, float64, string, *ltable, *lfunc

type ltable struct {
	arr  []lval // 1-based contiguous part
	hash map[any]lval
	keys []any
}

type lfunc struct {
	name   string
	native func(args []lval) ([]lval, error)
	params []string
	vararg bool
	body   []lstmt
	env    *lenv
}

func (t *ltable) get(k lval) lval {
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 && i <= len(t.arr) {
			return t.arr[i-1]
		}
	}
	if t.hash == nil {
		return nil
	}
	return t.hash[k]
}

func (t *ltable) set(k, v lval) {
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 && i <= len(t.arr) {
			t.arr[i-1] = v
			if i == len(t.arr) && v == nil {
				n := len(t.arr)
				for n > 0 && t.arr[n-1] == nil {
					n--
				}
				t.arr = t.arr[:n]
			}
			return
		}
		if float64(i) == f && i == len(t.arr)+1 && v != nil {
			t.arr = append(t.arr, v)
			for {
				nk := float64(len(t.arr) + 1)
				nv, ok := t.hash[nk]
				if !ok {
					break
				}
				t.arr = append(t.arr, nv)
				t.del(nk)
			}
			return
		}
	}
	if v == nil {
		t.del(k)
		return
	}
	if t.hash == nil {
		t.hash = map[any]lval{}
	}
	if _, ok := t.hash[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.hash[k] = v
}

func (t *ltable) del(k any) {
	if _, ok := t.hash[k]; !ok {
		return
	}
	delete(t.hash, k)
	for i, x := range t.keys {
		if x == k {
			t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
			break
		}
	}
}

func (t *ltable) next(k lval) (lval, lval) {
	start := 0
	if k == nil {
		start = 0
	} else if f, ok := k.(float64); ok && int(f) >= 1 && int(f) <= len(t.arr) && float64(int(f)) == f {
		start = int(f)
	} else {
		start = len(t.arr)
		for i, x := range t.keys {
			if x == k {
				if i+1 < len(t.keys) {
					return t.keys[i+1], t.hash[t.keys[i+1]]
				}
				return nil, nil
			}
		}
		return nil, nil
	}
	for i := start; i < len(t.arr); i++ {
		if t.arr[i] != nil {
			return float64(i + 1), t.arr[i]
		}
	}
	if len(t.keys) > 0 {
		return t.keys[0], t.hash[t.keys[0]]
	}
	return nil, nil
}

// ---- lexer

type ltok struct {
	k string // "name","num","str","op","kw","eof"
	s string
	n float64
}

var lkw = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func llex(src string) ([]ltok, error) {
	var out []ltok
	i := 0
	isA := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '#' && i == 0 && strings.HasPrefix(src, "#!"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "--[["):
			j := strings.Index(src[i:], "]]")
			if j < 0 {
				return nil, errors.New("unfinished comment")
			}
			i += j + 2
		case strings.HasPrefix(src[i:], "--"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "[["):
			j := strings.Index(src[i:], "]]")
			if j < 0 {
				return nil, errors.New("unfinished string")
			}
			out = append(out, ltok{k: "str", s: src[i+2 : i+j]})
			i += j + 2
		case isA(c):
			j := i
			for j < len(src) && (isA(src[j]) || isD(src[j])) {
				j++
			}
			w := src[i:j]
			if lkw[w] {
				out = append(out, ltok{k: "kw", s: w})
			} else {
				out = append(out, ltok{k: "name", s: w})
			}
			i = j
		case isD(c) || c == '.' && i+1 < len(src) && isD(src[i+1]):
			j := i
			if strings.HasPrefix(src[i:], "0x") || strings.HasPrefix(src[i:], "0X") {
				j += 2
				for j < len(src) && (isD(src[j]) || isA(src[j])) {
					j++
				}
				n, err := strconv.ParseInt(src[i+2:j], 16, 64)
				if err != nil {
					return nil, err
				}
				out = append(out, ltok{k: "num", n: float64(n)})
				i = j
				continue
			}
			for j < len(src) && (isD(src[j]) || src[j] == '.' || src[j] == 'e' || src[j] == 'E' || (src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				if src[j] == '.' && j+1 < len(src) && src[j+1] == '.' {
					break
				}
				j++
			}
			n, err := strconv.ParseFloat(src[i:j], 64)
			if err != nil {
				return nil, err
			}
			out = append(out, ltok{k: "num", n: n})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			if j >= len(src) {
				return nil, errors.New("unfinished string")
			}
			out = append(out, ltok{k: "str", s: b.String()})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, fmt.Errorf("unexpected character %q", c)
			}
			out = append(out, ltok{k: "op", s: op})
			i += len(op)
		}
	}
	return append(out, ltok{k: "eof"}), nil
}

// ---- AST as closures

type lenv struct {
	vars   map[string]*lval
	parent *lenv
	vararg []lval
}

func (e *lenv) find(n string) *lval {
	for x := e; x != nil; x = x.parent {
		if v, ok := x.vars[n]; ok {
			return v
		}
	}
	return nil
}
func (e *lenv) declare(n string, v lval) {
	if e.vars == nil {
		e.vars = map[string]*lval{}
	}
	nv := v
	e.vars[n] = &nv
}

type lctl int

const (
	lNone lctl = iota
	lBreak
	lReturn
)

type lstmt func(e *lenv) (lctl, []lval, error)
type lexpr func(e *lenv) ([]lval, error)

type lparser struct {
	t      []ltok
	p      int
	global *lenv
	steps  int
}

func (p *lparser) peek() ltok { return p.t[p.p] }
func (p *lparser) is(s string) bool {
	t := p.t[p.p]
	return (t.k == "op" || t.k == "kw") && t.s == s
}
func (p *lparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}

type lperr struct{ error }

func (p *lparser) expect(s string) {
	if !p.accept(s) {
		panic(lperr{fmt.Errorf("expected %q near token %d (%v)", s, p.p, p.peek())})
	}
}
func (p *lparser) name() string {
	t := p.peek()
	if t.k != "name" {
		panic(lperr{fmt.Errorf("expected name, got %v", t)})
	}
	p.p++
	return t.s
}

func one(vs []lval) lval {
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}
func truthy(v lval) bool {
	if v == nil {
		return false
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return true
}

func (p *lparser) block(ends ...string) []lstmt {
	var out []lstmt
	for {
		if p.peek().k == "eof" {
			if len(ends) == 0 {
				return out
			}
			panic(lperr{errors.New("unexpected end of script")})
		}
		for _, e := range ends {
			if p.is(e) {
				return out
			}
		}
		if p.accept(";") {
			continue
		}
		out = append(out, p.statement())
	}
}

func runBlock(b []lstmt, e *lenv) (lctl, []lval, error) {
	for _, s := range b {
		c, v, err := s(e)
		if err != nil || c != lNone {
			return c, v, err
		}
	}
	return lNone, nil, nil
}

func (p *lparser) statement() lstmt {
	switch {
	case p.accept("local"):
		if p.accept("function") {
			n := p.name()
			f := p.funcBody()
			return func(e *lenv) (lctl, []lval, error) {
				e.declare(n, nil)
				v, err := f(e)
				*e.find(n) = one(v)
				return lNone, nil, err
			}
		}
		names := []string{p.name()}
		for p.accept(",") {
			names = append(names, p.name())
		}
		var ex []lexpr
		if p.accept("=") {
			ex = p.exprList()
		}
		return func(e *lenv) (lctl, []lval, error) {
			vs, err := evalList(ex, e)
			if err != nil {
				return lNone, nil, err
			}
			for i, n := range names {
				if i < len(vs) {
					e.declare(n, vs[i])
				} else {
					e.declare(n, nil)
				}
			}
			return lNone, nil, nil
		}
	case p.accept("function"):
		n := p.name()
		f := p.funcBody()
		return func(e *lenv) (lctl, []lval, error) {
			v, err := f(e)
			if err != nil {
				return lNone, nil, err
			}
			p.assign(e, n, one(v))
			return lNone, nil, nil
		}
	case p.accept("if"):
		type br struct {
			c lexpr
			b []lstmt
		}
		var brs []br
		c := p.expr()
		p.expect("then")
		brs = append(brs, br{c, p.block("elseif", "else", "end")})
		for p.accept("elseif") {
			c := p.expr()
			p.expect("then")
			brs = append(brs, br{c, p.block("elseif", "else", "end")})
		}
		var els []lstmt
		if p.accept("else") {
			els = p.block("end")
		}
		p.expect("end")
		return func(e *lenv) (lctl, []lval, error) {
			for _, b := range brs {
				v, err := b.c(e)
				if err != nil {
					return lNone, nil, err
				}
				if truthy(one(v)) {
					return runBlock(b.b, &lenv{parent: e})
				}
			}
			return runBlock(els, &lenv{parent: e})
		}
	case p.accept("while"):
		c := p.expr()
		p.expect("do")
		b := p.block("end")
		p.expect("end")
		return func(e *lenv) (lctl, []lval, error) {
			for {
				if err := p.tick(); err != nil {
					return lNone, nil, err
				}
				v, err := c(e)
				if err != nil || !truthy(one(v)) {
					return lNone, nil, err
				}
				ct, rv, err := runBlock(b, &lenv{parent: e})
				if err != nil || ct == lReturn {
					return ct, rv, err
				}
				if ct == lBreak {
					return lNone, nil, nil
				}
			}
		}
	case p.accept("repeat"):
		b := p.block("until")
		p.expect("until")
		c := p.expr()
		return func(e *lenv) (lctl, []lval, error) {
			for {
				if err := p.tick(); err != nil {
					return lNone, nil, err
				}
				in := &lenv{parent: e}
				ct, rv, err := runBlock(b, in)
				if err != nil || ct == lReturn {
					return ct, rv, err
				}
				if ct == lBreak {
					return lNone, nil, nil
				}
				v, err := c(in)
				if err != nil || truthy(one(v)) {
					return lNone, nil, err
				}
			}
		}
	case p.accept("do"):
		b := p.block("end")
		p.expect("end")
		return func(e *lenv) (lctl, []lval, error) { return runBlock(b, &lenv{parent: e}) }
	case p.accept("break"):
		return func(e *lenv) (lctl, []lval, error) { return lBreak, nil, nil }
	case p.accept("return"):
		var ex []lexpr
		if !p.is("end") && !p.is("else") && !p.is("elseif") && !p.is("until") && !p.is(";") && p.peek().k != "eof" {
			ex = p.exprList()
		}
		p.accept(";")
		return func(e *lenv) (lctl, []lval, error) {
			vs, err := evalList(ex, e)
			return lReturn, vs, err
		}
	case p.accept("for"):
		n := p.name()
		if p.accept("=") {
			a := p.expr()
			p.expect(",")
			b := p.expr()
			var st lexpr
			if p.accept(",") {
				st = p.expr()
			}
			p.expect("do")
			body := p.block("end")
			p.expect("end")
			return func(e *lenv) (lctl, []lval, error) {
				av, err := a(e)
				if err != nil {
					return lNone, nil, err
				}
				bv, err := b(e)
				if err != nil {
					return lNone, nil, err
				}
				x, err := toNum(one(av))
				if err != nil {
					return lNone, nil, err
				}
				y, err := toNum(one(bv))
				if err != nil {
					return lNone, nil, err
				}
				s := 1.0
				if st != nil {
					sv, err := st(e)
					if err != nil {
						return lNone, nil, err
					}
					if s, err = toNum(one(sv)); err != nil {
						return lNone, nil, err
					}
				}
				for ; s > 0 && x <= y || s < 0 && x >= y; x += s {
					if err := p.tick(); err != nil {
						return lNone, nil, err
					}
					in := &lenv{parent: e}
					in.declare(n, x)
					ct, rv, err := runBlock(body, in)
					if err != nil || ct == lReturn {
						return ct, rv, err
					}
					if ct == lBreak {
						break
					}
				}
				return lNone, nil, nil
			}
		}
		names := []string{n}
		for p.accept(",") {
			names = append(names, p.name())
		}
		p.expect("in")
		ex := p.exprList()
		p.expect("do")
		body := p.block("end")
		p.expect("end")
		return func(e *lenv) (lctl, []lval, error) {
			vs, err := evalList(ex, e)
			if err != nil {
				return lNone, nil, err
			}
			for len(vs) < 3 {
				vs = append(vs, nil)
			}
			f, s, c := vs[0], vs[1], vs[2]
			for {
				if err := p.tick(); err != nil {
					return lNone, nil, err
				}
				rs, err := p.call(f, []lval{s, c})
				if err != nil {
					return lNone, nil, err
				}
				c = one(rs)
				if c == nil {
					return lNone, nil, nil
				}
				in := &lenv{parent: e}
				for i, nm := range names {
					if i < len(rs) {
						in.declare(nm, rs[i])
					} else {
						in.declare(nm, nil)
					}
				}
				ct, rv, err := runBlock(body, in)
				if err != nil || ct == lReturn {
					return ct, rv, err
				}
				if ct == lBreak {
					return lNone, nil, nil
				}
			}
		}
	}
	// assignment or call
	lv, isCall, setter := p.suffixed()
	if p.is("=") || p.is(",") {
		setters := []func(*lenv, lval) error{setter}
		for p.accept(",") {
			_, _, s := p.suffixed()
			setters = append(setters, s)
		}
		p.expect("=")
		ex := p.exprList()
		for _, s := range setters {
			if s == nil {
				panic(lperr{errors.New("cannot assign")})
			}
		}
		return func(e *lenv) (lctl, []lval, error) {
			vs, err := evalList(ex, e)
			if err != nil {
				return lNone, nil, err
			}
			for i, s := range setters {
				var v lval
				if i < len(vs) {
					v = vs[i]
				}
				if err := s(e, v); err != nil {
					return lNone, nil, err
				}
			}
			return lNone, nil, nil
		}
	}
	if !isCall {
		panic(lperr{errors.New("syntax error: expression statement")})
	}
	return func(e *lenv) (lctl, []lval, error) {
		_, err := lv(e)
		return lNone, nil, err
	}
}

func (p *lparser) tick() error {
	p.steps++
	if p.steps > 5_000_000 {
		return errors.New("script ran too long")
	}
	return nil
}

func (p *lparser) assign(e *lenv, n string, v lval) {
	if x := e.find(n); x != nil {
		*x = v
		return
	}
	p.global.declare(n, v)
}

func evalList(ex []lexpr, e *lenv) ([]lval, error) {
	var out []lval
	for i, x := range ex {
		v, err := x(e)
		if err != nil {
			return nil, err
		}
		if i == len(ex)-1 {
			out = append(out, v...)
		} else {
			out = append(out, one(v))
		}
	}
	return out, nil
}

func (p *lparser) exprList() []lexpr {
	out := []lexpr{p.expr()}
	for p.accept(",") {
		out = append(out, p.expr())
	}
	return out
}

func (p *lparser) funcBody() lexpr {
	p.expect("(")
	var params []string
	vararg := false
	for !p.is(")") {
		if p.accept("...") {
			vararg = true
			break
		}
		params = append(params, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	body := p.block("end")
	p.expect("end")
	return func(e *lenv) ([]lval, error) {
		return []lval{&lfunc{params: params, vararg: vararg, body: body, env: e}}, nil
	}
}

func (p *lparser) call(f lval, args []lval) ([]lval, error) {
	fn, ok := f.(*lfunc)
	if !ok {
		return nil, fmt.Errorf("attempt to call a %s value", ltype(f))
	}
	if err := p.tick(); err != nil {
		return nil, err
	}
	if fn.native != nil {
		return fn.native(args)
	}
	in := &lenv{parent: fn.env}
	for i, n := range fn.params {
		if i < len(args) {
			in.declare(n, args[i])
		} else {
			in.declare(n, nil)
		}
	}
	if fn.vararg && len(args) > len(fn.params) {
		in.vararg = args[len(fn.params):]
	}
	_, v, err := runBlock(fn.body, in)
	return v, err
}

// suffixed parses a prefix expression; returns evaluator, whether it is a call, and a setter if assignable.
func (p *lparser) suffixed() (lexpr, bool, func(*lenv, lval) error) {
	var cur lexpr
	isCall := false
	var setter func(*lenv, lval) error
	if p.accept("(") {
		in := p.expr()
		p.expect(")")
		cur = func(e *lenv) ([]lval, error) {
			v, err := in(e)
			return []lval{one(v)}, err
		}
	} else {
		n := p.name()
		cur = func(e *lenv) ([]lval, error) {
			if v := e.find(n); v != nil {
				return []lval{*v}, nil
			}
			return nil, fmt.Errorf("Script attempted to access nonexistent global variable '%s'", n)
		}
		setter = func(e *lenv, v lval) error { p.assign(e, n, v); return nil }
	}
	for {
		switch {
		case p.is(".") || p.is("["):
			var key lexpr
			if p.accept(".") {
				k := p.name()
				key = func(*lenv) ([]lval, error) { return []lval{k}, nil }
			} else {
				p.expect("[")
				key = p.expr()
				p.expect("]")
			}
			base := cur
			cur = func(e *lenv) ([]lval, error) {
				b, err := base(e)
				if err != nil {
					return nil, err
				}
				k, err := key(e)
				if err != nil {
					return nil, err
				}
				t, ok := one(b).(*ltable)
				if !ok {
					return nil, fmt.Errorf("attempt to index a %s value", ltype(one(b)))
				}
				return []lval{t.get(one(k))}, nil
			}
			setter = func(e *lenv, v lval) error {
				b, err := base(e)
				if err != nil {
					return err
				}
				k, err := key(e)
				if err != nil {
					return err
				}
				t, ok := one(b).(*ltable)
				if !ok {
					return fmt.Errorf("attempt to index a %s value", ltype(one(b)))
				}
				t.set(one(k), v)
				return nil
			}
			isCall = false
		case p.is("(") || p.is("{") || p.peek().k == "str":
			var args []lexpr
			if p.accept("(") {
				if !p.is(")") {
					args = p.exprList()
				}
				p.expect(")")
			} else {
				args = []lexpr{p.simple()}
			}
			base := cur
			cur = func(e *lenv) ([]lval, error) {
				f, err := base(e)
				if err != nil {
					return nil, err
				}
				a, err := evalList(args, e)
				if err != nil {
					return nil, err
				}
				return p.call(one(f), a)
			}
			isCall, setter = true, nil
		default:
			return cur, isCall, setter
		}
	}
}

func (p *lparser) simple() lexpr {
	t := p.peek()
	switch {
	case t.k == "num":
		p.p++
		return func(*lenv) ([]lval, error) { return []lval{t.n}, nil }
	case t.k == "str":
		p.p++
		return func(*lenv) ([]lval, error) { return []lval{t.s}, nil }
	case p.accept("nil"):
		return func(*lenv) ([]lval, error) { return []lval{nil}, nil }
	case p.accept("true"):
		return func(*lenv) ([]lval, error) { return []lval{true}, nil }
	case p.accept("false"):
		return func(*lenv) ([]lval, error) { return []lval{false}, nil }
	case p.accept("..."):
		return func(e *lenv) ([]lval, error) {
			for x := e; x != nil; x = x.parent {
				if x.vararg != nil {
					return x.vararg, nil
				}
			}
			return nil, nil
		}
	case p.accept("function"):
		return p.funcBody()
	case p.accept("{"):
		type fld struct{ k, v lexpr }
		var fs []fld
		for !p.is("}") {
			if p.accept("[") {
				k := p.expr()
				p.expect("]")
				p.expect("=")
				fs = append(fs, fld{k, p.expr()})
			} else if p.peek().k == "name" && p.t[p.p+1].k == "op" && p.t[p.p+1].s == "=" {
				n := p.name()
				p.expect("=")
				fs = append(fs, fld{func(*lenv) ([]lval, error) { return []lval{n}, nil }, p.expr()})
			} else {
				fs = append(fs, fld{nil, p.expr()})
			}
			if !p.accept(",") && !p.accept(";") {
				break
			}
		}
		p.expect("}")
		return func(e *lenv) ([]lval, error) {
			t := &ltable{}
			n := 0
			for i, f := range fs {
				v, err := f.v(e)
				if err != nil {
					return nil, err
				}
				if f.k != nil {
					k, err := f.k(e)
					if err != nil {
						return nil, err
					}
					t.set(one(k), one(v))
				} else if i == len(fs)-1 {
					for _, x := range v {
						n++
						t.set(float64(n), x)
					}
				} else {
					n++
					t.set(float64(n), one(v))
				}
			}
			return []lval{t}, nil
		}
	}
	e, _, _ := p.suffixed()
	return e
}

var lprec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3}, "..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (p *lparser) expr() lexpr { return p.binary(0) }
func (p *lparser) binary(limit int) lexpr {
	var left lexpr
	switch {
	case p.accept("not"):
		o := p.binary(8)
		left = func(e *lenv) ([]lval, error) {
			v, err := o(e)
			return []lval{!truthy(one(v))}, err
		}
	case p.accept("-"):
		o := p.binary(8)
		left = func(e *lenv) ([]lval, error) {
			v, err := o(e)
			if err != nil {
				return nil, err
			}
			n, err := toNum(one(v))
			return []lval{-n}, err
		}
	case p.accept("#"):
		o := p.binary(8)
		left = func(e *lenv) ([]lval, error) {
			v, err := o(e)
			if err != nil {
				return nil, err
			}
			switch x := one(v).(type) {
			case string:
				return []lval{float64(len(x))}, nil
			case *ltable:
				return []lval{float64(len(x.arr))}, nil
			}
			return nil, fmt.Errorf("attempt to get length of a %s value", ltype(one(v)))
		}
	default:
		left = p.simple()
	}
	for {
		t := p.peek()
		pr, ok := lprec[t.s]
		if !ok || t.k != "op" && t.k != "kw" || pr[0] <= limit {
			return left
		}
		p.p++
		op := t.s
		l := left
		r := p.binary(pr[1])
		left = func(e *lenv) ([]lval, error) {
			a, err := l(e)
			if err != nil {
				return nil, err
			}
			x := one(a)
			if op == "and" && !truthy(x) || op == "or" && truthy(x) {
				return []lval{x}, nil
			}
			b, err := r(e)
			if err != nil {
				return nil, err
			}
			y := one(b)
			switch op {
			case "and", "or":
				return []lval{y}, nil
			case "==":
				return []lval{leq(x, y)}, nil
			case "~=":
				return []lval{!leq(x, y)}, nil
			case "..":
				xs, ok1 := lstr(x)
				ys, ok2 := lstr(y)
				if !ok1 || !ok2 {
					return nil, errors.New("attempt to concatenate a " + ltype(x) + " and a " + ltype(y) + " value")
				}
				return []lval{xs + ys}, nil
			case "<", ">", "<=", ">=":
				if xs, ok := x.(string); ok {
					if ys, ok := y.(string); ok {
						switch op {
						case "<":
							return []lval{xs < ys}, nil
						case ">":
							return []lval{xs > ys}, nil
						case "<=":
							return []lval{xs <= ys}, nil
						}
						return []lval{xs >= ys}, nil
					}
				}
				xn, ok1 := x.(float64)
				yn, ok2 := y.(float64)
				if !ok1 || !ok2 {
					return nil, fmt.Errorf("attempt to compare %s with %s", ltype(x), ltype(y))
				}
				switch op {
				case "<":
					return []lval{xn < yn}, nil
				case ">":
					return []lval{xn > yn}, nil
				case "<=":
					return []lval{xn <= yn}, nil
				}
				return []lval{xn >= yn}, nil
			}
			xn, err := toNum(x)
			if err != nil {
				return nil, err
			}
			yn, err := toNum(y)
			if err != nil {
				return nil, err
			}
			switch op {
			case "+":
				return []lval{xn + yn}, nil
			case "-":
				return []lval{xn - yn}, nil
			case "*":
				return []lval{xn * yn}, nil
			case "/":
				return []lval{xn / yn}, nil
			case "%":
				return []lval{xn - math.Floor(xn/yn)*yn}, nil
			}
			return []lval{math.Pow(xn, yn)}, nil
		}
	}
}

func leq(a, b lval) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *ltable:
		y, ok := b.(*ltable)
		return ok && x == y
	case *lfunc:
		y, ok := b.(*lfunc)
		return ok && x == y
	}
	return false
}

func ltype(v lval) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *ltable:
		return "table"
	}
	return "function"
}

func lnumstr(n float64) string {
	if n == math.Trunc(n) && math.Abs(n) < 1e15 {
		return strconv.FormatInt(int64(n), 10)
	}
	if math.IsInf(n, 1) {
		return "inf"
	}
	if math.IsInf(n, -1) {
		return "-inf"
	}
	return strings.Replace(strconv.FormatFloat(n, 'g', 14, 64), "e+", "e+", 1)
}

func lstr(v lval) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case float64:
		return lnumstr(x), true
	}
	return "", false
}

func parseLuaNum(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, false
	}
	n, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, false
	}
	return n, true
}

func toNum(v lval) (float64, error) {
	switch x := v.(type) {
	case float64:
		return x, nil
	case string:
		if n, ok := parseLuaNum(x); ok {
			return n, nil
		}
	}
	return 0, fmt.Errorf("attempt to perform arithmetic on a %s value", ltype(v))
}

type lprog struct {
	parser *lparser
	body   []lstmt
}

func luaParse(src string) (pr *lprog, err error) {
	toks, err := llex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(lperr); ok {
				err = pe.error
				return
			}
			panic(r)
		}
	}()
	p := &lparser{t: toks}
	b := p.block()
	return &lprog{p, b}, nil
}

func tbl(vs ...lval) *ltable {
	t := &ltable{}
	for i, v := range vs {
		t.set(float64(i+1), v)
	}
	return t
}

// run executes the script; call executes a redis command.
func (pr *lprog) run(keys, argv []string, call func(args []string) (lval, error)) ([]lval, error) {
	// A parsed program is not reentrant in its step counter/global env; copy the parser header.
	g := &lenv{vars: map[string]*lval{}}
	p := pr.parser
	p.global = g
	p.steps = 0
	nat := func(n string, f func([]lval) ([]lval, error)) *lfunc { return &lfunc{name: n, native: f} }
	def := func(n string, f func([]lval) ([]lval, error)) { g.declare(n, nat(n, f)) }
	arg := func(a []lval, i int) lval {
		if i < len(a) {
			return a[i]
		}
		return nil
	}
	kt, at := &ltable{}, &ltable{}
	for i, k := range keys {
		kt.set(float64(i+1), k)
	}
	for i, k := range argv {
		at.set(float64(i+1), k)
	}
	g.declare("KEYS", kt)
	g.declare("ARGV", at)
	inext := nat("inext", func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument to ipairs")
		}
		i, _ := arg(a, 1).(float64)
		v := t.get(i + 1)
		if v == nil {
			return []lval{nil}, nil
		}
		return []lval{i + 1, v}, nil
	})
	nextf := func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument #1 to 'next' (table expected)")
		}
		k, v := t.next(arg(a, 1))
		if k == nil {
			return []lval{nil}, nil
		}
		return []lval{k, v}, nil
	}
	def("next", nextf)
	def("ipairs", func(a []lval) ([]lval, error) { return []lval{inext, arg(a, 0), 0.0}, nil })
	nx := nat("next", nextf)
	def("pairs", func(a []lval) ([]lval, error) { return []lval{nx, arg(a, 0), nil}, nil })
	unpackf := func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument #1 to 'unpack' (table expected)")
		}
		from, to := 1, len(t.arr)
		if f, ok := arg(a, 1).(float64); ok {
			from = int(f)
		}
		if f, ok := arg(a, 2).(float64); ok {
			to = int(f)
		}
		if to-from+1 > 7999 {
			return nil, errors.New("too many results to unpack")
		}
		var out []lval
		for i := from; i <= to; i++ {
			out = append(out, t.get(float64(i)))
		}
		return out, nil
	}
	def("unpack", unpackf)
	def("type", func(a []lval) ([]lval, error) { return []lval{ltype(arg(a, 0))}, nil })
	def("error", func(a []lval) ([]lval, error) { return nil, fmt.Errorf("%v", arg(a, 0)) })
	def("assert", func(a []lval) ([]lval, error) {
		if !truthy(arg(a, 0)) {
			return nil, errors.New("assertion failed!")
		}
		return a, nil
	})
	def("tostring", func(a []lval) ([]lval, error) {
		v := arg(a, 0)
		if s, ok := lstr(v); ok {
			return []lval{s}, nil
		}
		if v == nil {
			return []lval{"nil"}, nil
		}
		if b, ok := v.(bool); ok {
			return []lval{strconv.FormatBool(b)}, nil
		}
		return []lval{ltype(v) + ": 0x0"}, nil
	})
	def("tonumber", func(a []lval) ([]lval, error) {
		if n, err := toNum(arg(a, 0)); err == nil {
			return []lval{n}, nil
		}
		return []lval{nil}, nil
	})
	def("select", func(a []lval) ([]lval, error) {
		if s, ok := arg(a, 0).(string); ok && s == "#" {
			return []lval{float64(len(a) - 1)}, nil
		}
		n, err := toNum(arg(a, 0))
		if err != nil || int(n) >= len(a)+1 {
			return nil, err
		}
		return a[int(n):], nil
	})
	def("pcall", func(a []lval) ([]lval, error) {
		if len(a) == 0 {
			return nil, errors.New("bad argument to pcall")
		}
		v, err := p.call(a[0], a[1:])
		if err != nil {
			return []lval{false, err.Error()}, nil
		}
		return append([]lval{true}, v...), nil
	})
	tab := &ltable{}
	tab.set("insert", nat("insert", func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument #1 to 'insert'")
		}
		if len(a) == 3 {
			n, err := toNum(a[1])
			if err != nil {
				return nil, err
			}
			i := int(n) - 1
			if i < 0 || i > len(t.arr) {
				return nil, errors.New("bad position")
			}
			t.arr = append(t.arr, nil)
			copy(t.arr[i+1:], t.arr[i:])
			t.arr[i] = a[2]
			return nil, nil
		}
		t.set(float64(len(t.arr)+1), arg(a, 1))
		return nil, nil
	}))
	tab.set("remove", nat("remove", func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok || len(t.arr) == 0 {
			return []lval{nil}, nil
		}
		i := len(t.arr) - 1
		if f, ok := arg(a, 1).(float64); ok {
			i = int(f) - 1
		}
		if i < 0 || i >= len(t.arr) {
			return []lval{nil}, nil
		}
		v := t.arr[i]
		t.arr = append(t.arr[:i:i], t.arr[i+1:]...)
		return []lval{v}, nil
	}))
	tab.set("getn", nat("getn", func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument #1 to 'getn'")
		}
		return []lval{float64(len(t.arr))}, nil
	}))
	tab.set("concat", nat("concat", func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument #1 to 'concat'")
		}
		sep, _ := lstr(arg(a, 1))
		var ss []string
		for _, v := range t.arr {
			s, ok := lstr(v)
			if !ok {
				return nil, errors.New("invalid value in table for 'concat'")
			}
			ss = append(ss, s)
		}
		return []lval{strings.Join(ss, sep)}, nil
	}))
	tab.set("unpack", nat("unpack", unpackf))
	tab.set("sort", nat("sort", func(a []lval) ([]lval, error) {
		t, ok := arg(a, 0).(*ltable)
		if !ok {
			return nil, errors.New("bad argument #1 to 'sort'")
		}
		var serr error
		sort.SliceStable(t.arr, func(i, j int) bool {
			if f := arg(a, 1); f != nil {
				v, err := p.call(f, []lval{t.arr[i], t.arr[j]})
				if err != nil {
					serr = err
				}
				return truthy(one(v))
			}
			if x, ok := t.arr[i].(float64); ok {
				y, _ := t.arr[j].(float64)
				return x < y
			}
			x, _ := lstr(t.arr[i])
			y, _ := lstr(t.arr[j])
			return x < y
		})
		return nil, serr
	}))
	g.declare("table", tab)
	str := &ltable{}
	str.set("sub", nat("sub", func(a []lval) ([]lval, error) {
		s, _ := lstr(arg(a, 0))
		i, j := 1, len(s)
		if n, err := toNum(arg(a, 1)); err == nil {
			i = int(n)
		}
		if n, err := toNum(arg(a, 2)); err == nil {
			j = int(n)
		}
		if i < 0 {
			i = len(s) + i + 1
		}
		if j < 0 {
			j = len(s) + j + 1
		}
		if i < 1 {
			i = 1
		}
		if j > len(s) {
			j = len(s)
		}
		if i > j {
			return []lval{""}, nil
		}
		return []lval{s[i-1 : j]}, nil
	}))
	str.set("len", nat("len", func(a []lval) ([]lval, error) {
		s, _ := lstr(arg(a, 0))
		return []lval{float64(len(s))}, nil
	}))
	str.set("lower", nat("lower", func(a []lval) ([]lval, error) {
		s, _ := lstr(arg(a, 0))
		return []lval{strings.ToLower(s)}, nil
	}))
	str.set("upper", nat("upper", func(a []lval) ([]lval, error) {
		s, _ := lstr(arg(a, 0))
		return []lval{strings.ToUpper(s)}, nil
	}))
	str.set("format", nat("format", func(a []lval) ([]lval, error) {
		f, _ := lstr(arg(a, 0))
		var out strings.Builder
		k := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out.WriteByte(f[i])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("0123456789.-+ #", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				return nil, errors.New("invalid format")
			}
			spec := f[i:j]
			switch f[j] {
			case '%':
				out.WriteByte('%')
			case 's':
				s, ok := lstr(arg(a, k))
				if !ok {
					s = fmt.Sprint(arg(a, k))
				}
				k++
				out.WriteString(fmt.Sprintf(spec+"s", s))
			case 'd', 'i':
				n, err := toNum(arg(a, k))
				if err != nil {
					return nil, err
				}
				k++
				out.WriteString(fmt.Sprintf(spec+"d", int64(n)))
			case 'f', 'g', 'e':
				n, err := toNum(arg(a, k))
				if err != nil {
					return nil, err
				}
				k++
				out.WriteString(fmt.Sprintf(spec+string(f[j]), n))
			default:
				return nil, errors.New("unsupported format")
			}
			i = j
		}
		return []lval{out.String()}, nil
	}))
	str.set("find", nat("find", func(a []lval) ([]lval, error) {
		s, _ := lstr(arg(a, 0))
		q, _ := lstr(arg(a, 1))
		i := strings.Index(s, q)
		if i < 0 {
			return []lval{nil}, nil
		}
		return []lval{float64(i + 1), float64(i + len(q))}, nil
	}))
	g.declare("string", str)
	mth := &ltable{}
	m1 := func(n string, f func(float64) float64) {
		mth.set(n, nat(n, func(a []lval) ([]lval, error) {
			x, err := toNum(arg(a, 0))
			return []lval{f(x)}, err
		}))
	}
	m1("floor", math.Floor)
	m1("ceil", math.Ceil)
	m1("abs", math.Abs)
	m1("sqrt", math.Sqrt)
	fold := func(n string, f func(a, b float64) float64) {
		mth.set(n, nat(n, func(a []lval) ([]lval, error) {
			x, err := toNum(arg(a, 0))
			if err != nil {
				return nil, err
			}
			for _, v := range a[1:] {
				y, err := toNum(v)
				if err != nil {
					return nil, err
				}
				x = f(x, y)
			}
			return []lval{x}, nil
		}))
	}
	fold("max", math.Max)
	fold("min", math.Min)
	mth.set("huge", math.Inf(1))
	g.declare("math", mth)
	red := &ltable{}
	doCall := func(a []lval) ([]lval, error) {
		var args []string
		for _, v := range a {
			s, ok := lstr(v)
			if f, isN := v.(float64); isN {
				// Redis converts Lua numbers with "%.17g"
				if f == math.Trunc(f) && math.Abs(f) < 1e17 {
					s = strconv.FormatInt(int64(f), 10)
				} else {
					s = strconv.FormatFloat(f, 'g', 17, 64)
				}
			}
			if !ok {
				return nil, errors.New("Lua redis() command arguments must be strings or integers")
			}
			args = append(args, s)
		}
		if len(args) == 0 {
			return nil, errors.New("Please specify at least one argument for this redis lib call")
		}
		v, err := call(args)
		return []lval{v}, err
	}
	red.set("call", nat("call", doCall))
	red.set("pcall", nat("pcall", func(a []lval) ([]lval, error) {
		v, err := doCall(a)
		if err != nil {
			t := &ltable{}
			t.set("err", err.Error())
			return []lval{t}, nil
		}
		return v, nil
	}))
	red.set("error_reply", nat("error_reply", func(a []lval) ([]lval, error) {
		t := &ltable{}
		t.set("err", arg(a, 0))
		return []lval{t}, nil
	}))
	red.set("status_reply", nat("status_reply", func(a []lval) ([]lval, error) {
		t := &ltable{}
		t.set("ok", arg(a, 0))
		return []lval{t}, nil
	}))
	red.set("log", nat("log", func(a []lval) ([]lval, error) { return nil, nil }))
	g.declare("redis", red)
	_, v, err := runBlock(pr.body, &lenv{parent: g})
	return v, err
}
