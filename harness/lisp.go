package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strings"
)

// Sessions with the REPL of examples/lisp-repl, whose path is in JV_LISP.

type lispOp struct {
	O string `json:"o"`
	S string `json:"s"` // the line
	R []any  `json:"r"`
	X []any  `json:"x,omitempty"`
}

type lispCase struct {
	ID  int       `json:"id"`
	Ops []*lispOp `json:"ops"`
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

const lispPrompt = "Eval: "

// repl is a REPL waiting for a line.
type repl struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs bytes.Buffer
}

func newRepl() *repl {
	p := &repl{cmd: exec.Command("/bin/sh", "-c", `ulimit -t 30; exec "$0"`, os.Getenv("JV_LISP"))}
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out, p.cmd.Stderr = bufio.NewReader(o), &p.errs
	if err := p.cmd.Start(); err != nil {
		die("lisp:", err)
	}
	return p
}

// reply: what is printed before the next prompt; ok unless there is none
func (p *repl) reply() (said string, ok bool) {
	var b []byte
	for {
		c, err := p.out.ReadByte()
		if err != nil {
			return ansi.ReplaceAllString(string(b), ""), false
		}
		if b = append(b, c); c == ' ' && bytes.HasSuffix(b, []byte(lispPrompt)) {
			return ansi.ReplaceAllString(string(b[:len(b)-len(lispPrompt)]), ""), true
		}
	}
}

// answer to a line, of which the prompt is there; over when the REPL ended.
func (p *repl) answer() (r []any, over bool) {
	said, ok := p.reply()
	if !ok {
		err := p.cmd.Wait()
		switch e := p.errs.String(); {
		case err == nil:
			return []any{"left", said}, true
		case strings.Contains(e, "goroutine stack exceeds"):
			return []any{"dead", "stack"}, true
		case strings.HasPrefix(e, "panic: ") || strings.Contains(e, "\npanic: "):
			return []any{"refused"}, true
		}
		return []any{"dead", err.Error()}, true
	}
	said = strings.TrimSuffix(said, "\n")
	if strings.HasPrefix(said, "Parse error") {
		return []any{"parse error"}, false
	}
	return []any{"value", strings.ReplaceAll(said, "-0.000000", "0.000000")}, false
}

func (p *repl) kill() { p.in.Close(); p.cmd.Process.Kill(); p.cmd.Wait() }

var hopeless, overflows int // lines that ended neither with an answer nor with a refusal

// lispSession types line by line, and goes on with a new REPL when one ends.
func lispSession(c *lispCase) {
	var p *repl
	for _, op := range c.Ops {
		if op.R = []any{"skipped"}; hopeless > 3 {
			continue
		}
		if p == nil {
			p = newRepl()
			p.reply()
		}
		io.WriteString(p.in, op.S+"\n")
		over := false
		if op.R, over = p.answer(); over {
			p.kill()
			p = nil
		}
		if op.R[0] == "dead" {
			if overflows++; op.R[1] != "stack" || overflows > 60 { // a list for a number overflows the stack
				hopeless++
			}
		}
	}
	if p != nil {
		p.in.Close()
		if said, ok := p.reply(); said != "Bye!\n" || ok || p.cmd.Wait() != nil {
			c.Ops[len(c.Ops)-1].R = []any{"no end", said}
		}
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// lispSaid types all lines of an operation at once, into a REPL of their own.
func lispSaid(c *lispCase) {
	for _, op := range c.Ops {
		lines := strings.Split(op.S, "|")
		p := newRepl()
		io.WriteString(p.in, strings.Join(lines, "\n")+"\n")
		p.in.Close()
		p.reply()
		op.R = []any{}
		for range lines {
			r, over := p.answer()
			if op.R = append(op.R, r); over {
				break
			}
		}
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

var waiting *repl

// lispLine types one line into a REPL which is kept.
func lispLine(c *lispCase) {
	for _, op := range c.Ops {
		if op.R = []any{"skipped"}; hopeless > 3 {
			return
		}
		if waiting == nil {
			waiting = newRepl()
			waiting.reply()
		}
		io.WriteString(waiting.in, op.S+"\n")
		over := false
		if op.R, over = waiting.answer(); over {
			waiting.kill()
			waiting = nil
		}
		if op.R[0] == "dead" {
			if overflows++; op.R[1] != "stack" || overflows > 60 { // a list for a number overflows the stack
				hopeless++
			}
		}
	}
}

// -- lines to type

type lispGen struct {
	r   *rand.Rand
	fns []lispFn // defined by the user; each calls only earlier ones
}

type lispFn struct {
	name string
	args int
	data bool // gives no number; its arguments may be anything
	rec  bool // calls itself: its arguments are small

	params []string
}

func (g *lispGen) one(a ...string) string { return a[g.r.Intn(len(a))] }

func (g *lispGen) num() string {
	switch g.r.Intn(8) {
	case 0:
		return fmt.Sprint(-g.r.Intn(12))
	case 1:
		return fmt.Sprint(g.r.Intn(200))
	case 2:
		return g.one("0", "1", "-1", "007", "-0")
	}
	return fmt.Sprint(g.r.Intn(10))
}

func (g *lispGen) blank() string { return g.one(" ", " ", " ", " ", " ", " ", "  ", "\t", " \t ") }
func (g *lispGen) edge() string  { return g.one("", "", "", "", "", "", "", " ", "\t", "  ") }

func (g *lispGen) list(a ...string) string {
	var b strings.Builder
	b.WriteString("(" + g.edge())
	for i, s := range a {
		if i > 0 {
			b.WriteString(g.blank())
		}
		b.WriteString(s)
	}
	b.WriteString(g.edge() + ")")
	return b.String()
}

func (g *lispGen) many(n int, f func() string) (a []string) {
	for i := 0; i < n; i++ {
		a = append(a, f())
	}
	return
}

// number: an expression that gives a number. params: what may occur in it.
func (g *lispGen) number(d int, params []string) string {
	if d <= 0 || g.r.Intn(4) == 0 {
		if len(params) > 0 && g.r.Intn(3) > 0 {
			return g.one(params...)
		}
		return g.num()
	}
	sub := func() string { return g.number(d-1, params) }
	call := func(op string, n int) string { return g.list(append([]string{op}, g.many(n, sub)...)...) }
	switch g.r.Intn(14) {
	case 0, 1:
		return call(g.one("+", "add"), g.r.Intn(4))
	case 2:
		return call(g.one("-", "sub"), 2+g.r.Intn(2))
	case 3:
		return call(g.one("*", "mul"), g.r.Intn(4))
	case 4:
		return call("%", 2)
	case 5, 6, 7:
		return g.truth(d, params)
	case 8:
		return g.list("if", g.truth(d-1, params), sub(), sub())
	case 9, 10:
		return g.cond(d, params, sub)
	case 11:
		return g.list("car", g.values(d-1, params, true))
	default:
		if len(g.fns) > 0 {
			if f := g.fns[g.r.Intn(len(g.fns))]; !f.data || g.r.Intn(20) == 0 {
				return g.call(f, d, params)
			}
		}
		return call(g.one("+", "-", "*"), 2)
	}
}

func (g *lispGen) call(f lispFn, d int, params []string) string {
	n := f.args
	if g.r.Intn(40) == 0 {
		n += g.r.Intn(3) - 1
	}
	if n < 0 {
		n = 0
	}
	return g.list(append([]string{f.name}, g.many(n, func() string {
		if f.rec {
			return fmt.Sprint(g.r.Intn(8))
		}
		if f.data {
			if g.r.Intn(3) == 0 && len(f.params) > 0 { // names of its parameters
				p := g.one(f.params...)
				return g.one(p, "(8 "+p+")", "("+p+" "+g.one(f.params...)+")", "x")
			}
			return g.value(d-1, params)
		}
		return g.number(d-1, params)
	})...)...)
}

func (g *lispGen) truth(d int, params []string) string {
	sub := func() string { return g.number(d-1, params) }
	cond := func() string { return g.truth(d-1, params) }
	if d <= 0 {
		return sub()
	}
	switch g.r.Intn(8) {
	case 0:
		return g.list(append([]string{"and"}, g.many(g.r.Intn(4), cond)...)...)
	case 1:
		return g.list(append([]string{"or"}, g.many(g.r.Intn(4), cond)...)...)
	case 2:
		if g.r.Intn(12) == 0 {
			return g.list("not", cond())
		}
		return g.list("eq", cond(), "0")
	case 3:
		return g.list("list?", g.value(d-1, params))
	}
	return g.list(append([]string{g.one("<", "<=", ">", ">=", "==", "!=", "lt", "le", "gt", "ge", "eq", "neq", "eq?", "neq?")},
		g.many(2+g.r.Intn(3)/2+g.r.Intn(2), sub)...)...)
}

func (g *lispGen) cond(d int, params []string, sub func() string) string {
	a := []string{"cond"}
	for n := g.r.Intn(4); n > 0; n-- {
		a = append(a, g.list(g.truth(d-1, params), sub()))
	}
	if g.r.Intn(60) > 0 { // without else it may be (), which is no number
		a = append(a, g.list("else", sub()))
	}
	return g.list(a...)
}

// values: an expression that gives a list, of numbers at least at its start
func (g *lispGen) values(d int, params []string, some bool) string {
	if d > 0 && g.r.Intn(3) == 0 {
		return g.list("cdr", g.list(append([]string{g.num(), g.num()}, g.many(g.r.Intn(3), func() string { return g.value(d-1, params) })...)...))
	}
	if d > 0 && g.r.Intn(20) == 0 {
		return g.list("cdr", g.values(d-1, params, some))
	}
	if d > 0 && g.r.Intn(6) == 0 {
		return g.list("if", g.truth(d-1, params), g.values(d-1, params, some), g.values(d-1, params, some))
	}
	return g.list(append([]string{g.num()}, g.many(g.r.Intn(4), func() string { return g.value(d-1, params) })...)...)
}

func (g *lispGen) str() string {
	return `"` + g.one("", "a", "x y", "(+ 1 2)", ")", "é€", "a\tb", "12", "else", "\\") + `"`
}

func (g *lispGen) value(d int, params []string) string {
	switch g.r.Intn(10) {
	case 0:
		return g.str()
	case 1:
		return g.one("x", "y", "n", "acc", "zed", "a.b", "_", "q?", "<", "=", "else", "+")
	case 2, 3:
		return g.values(d, params, false)
	case 6:
		if len(params) > 0 {
			return g.one(params...)
		}
		for _, f := range g.fns {
			if f.data {
				return g.call(f, d, params)
			}
		}
	case 4:
		return g.list(g.many(g.r.Intn(3), func() string { return g.one(g.str(), g.num(), "()") })...)
	}
	return g.number(d, params)
}

var lispParams = []string{"x", "y", "n", "acc", "p.q", "_", "z?"}

func (g *lispGen) name(s string) string {
	if g.r.Intn(5) == 0 {
		return `"` + s + `"`
	}
	return s
}

func (g *lispGen) define() string {
	name, n := fmt.Sprintf("f%d", len(g.fns)), g.r.Intn(4)
	if g.r.Intn(6) == 0 {
		name = g.one("add", "mul", "*", "not", "eq", "<", "sq?")
	}
	for _, f := range g.fns {
		if f.name == name {
			return g.number(3, nil)
		}
	}
	params := append([]string{}, lispParams[g.r.Intn(3):][:n]...)
	body := ""
	builtin, data, rec := name[0] != 'f', false, false
	switch {
	case builtin: // redefined, with what is never redefined
		n = 1 + g.r.Intn(2)
		params = append([]string{}, lispParams[:n]...)
		body = g.one("(sub 7 x)", "(if (gt x 2) 3 x)", "x", "(- x 1)", "(cond ((gt x 1) 8) (else x))", "(or x 0)")
	case g.r.Intn(5) == 0: // recursive
		rec = true
		params = []string{"n"}
		body = g.one("(if (le n 1) 1 (mul n (@ (sub n 1))))", "(cond ((le n 0) 0) (else (add n (@ (sub n 2)))))",
			"(if (lt n 2) n (add (@ (sub n 1)) 1))", "(cond ((le n 1) (7 8)) (else (@ (- n 1))))")
		body = strings.ReplaceAll(body, "@", name)
	case g.r.Intn(3) == 0:
		data = true
		body = g.value(2, params)
		if len(params) > 0 && g.r.Intn(2) == 0 { // all of them, in a list
			body = g.list(append(append([]string{g.num()}, params[g.r.Intn(len(params)):]...), params...)...)
		}
	default:
		body = g.number(2+g.r.Intn(2), params)
	}
	head := []string{g.name(name)}
	for _, p := range params {
		head = append(head, g.name(p))
	}
	if !builtin {
		g.fns = append(g.fns, lispFn{name, len(params), data, rec, params})
	}
	return g.list("define", g.list(head...), body)
}

// alias: a name of its own for anything, or one that is in use for a builtin
func (g *lispGen) alias() string {
	to, as := g.one("add", "sub", "mul", "if", "lt", "not", "cond", "car", "list?"), lispFn{fmt.Sprintf("g.%d", len(g.fns)), -1, false, false, nil}
	if g.r.Intn(2) == 0 {
		return g.list("alias", g.name(g.one("/", "=", "add", "+", "f0", "f1", "sq?")), g.name(to))
	}
	if len(g.fns) > 0 && g.r.Intn(2) == 0 {
		f := g.fns[g.r.Intn(len(g.fns))]
		to, as.args, as.data, as.rec, as.params = f.name, f.args, f.data, f.rec, f.params
	} else if n, ok := map[string]int{"add": 2, "sub": 2, "mul": 2, "if": 3, "lt": 2, "not": 1, "list?": 1}[to]; ok {
		as.args = n
	}
	if as.args >= 0 {
		g.fns = append(g.fns, as)
	}
	return g.list("alias", g.name(as.name), g.name(to))
}

// doing: what defines something depending on something, or not at all
func (g *lispGen) doing() string {
	act := func() string {
		switch g.r.Intn(4) {
		case 0:
			return g.define()
		case 1, 2:
			return g.list("alias", g.name(g.one("/", "=", "add", "+", "f0", "f1", "sq?")), g.name(g.one("add", "sub", "mul", "lt", "not")))
		}
		return g.number(1, nil)
	}
	cond := func() string { return g.truth(1, nil) }
	switch g.r.Intn(6) {
	case 0:
		return g.list("if", cond(), act(), act())
	case 4:
		c := []string{"cond"}
		for n := g.r.Intn(4); n > 0; n-- {
			c = append(c, g.list(cond(), act()))
		}
		return g.list(c...)
	case 1, 2:
		return g.list("cond", g.list(cond(), act()), g.list(cond(), act()), g.list("else", act()))
	case 3:
		return g.list("car", g.list(g.num(), act()))
	}
	return g.list(g.one("and", "or", "+", "<"), cond(), g.list("cond", g.list(cond(), g.number(2, nil)), g.list("else", g.num())))
}

func (g *lispGen) broken(s string) string {
	rs := []rune(s)
	i := g.r.Intn(len(rs) + 1)
	switch g.r.Intn(3) {
	case 0:
		if i < len(rs) {
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 1:
		return string(rs[:i])
	}
	return string(rs[:i]) + g.one("(", ")", "\"", " ", "-", "1", "?", "x", "!", "=", "%", ";", "'", "é", "[") + string(rs[i:])
}

func (g *lispGen) line() string {
	s := ""
	switch g.r.Intn(12) {
	case 0, 1, 2:
		s = g.define()
	case 3:
		s = g.alias()
	case 4:
		s = g.value(3, nil)
		if g.r.Intn(2) == 0 {
			s = g.doing()
		}
	case 5:
		s = g.one("", " ", "()", "x", "\"s\"", "42", "add", "(1 2 3)", "car ()", "cond", "cond (0 1)", "cond ((> 1 2) 3) ((< 1 2) 4)", "list? ()", "% 7 0", "((+ 1 2))", "\t(+ 1 2)", "(+ 1 2) 3")
	case 6:
		if len(g.fns) > 0 {
			f := g.fns[g.r.Intn(len(g.fns))]
			for _, v := range g.fns {
				if v.data && v.args > 1 && g.r.Intn(3) == 0 {
					f = v
				}
			}
			s = g.call(f, 2, nil)
			break
		}
		fallthrough
	default:
		s = g.number(3, nil)
	}
	if g.r.Intn(14) == 0 {
		s = g.broken(s)
	}
	switch g.r.Intn(6) {
	case 0:
		if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
			s = strings.TrimPrefix(strings.TrimSuffix(s, ")"), "(")
		}
	case 1:
		s = g.one(" ", "  ") + s + g.one("", " ", "\t", "   ")
	}
	return s
}

func randomLisp(r *rand.Rand, id int) *lispCase {
	g := &lispGen{r: r}
	c := &lispCase{ID: id}
	for n := 4 + r.Intn(12); n > 0; n-- {
		c.Ops = append(c.Ops, &lispOp{O: "line", S: g.line()})
	}
	return c
}

func init() {
	handlers["lispsaid"] = func(b []byte) []byte {
		var c lispCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		lispSaid(&c)
		return mustJSON(c)
	}
	handlers["lisp1"] = func(b []byte) []byte {
		var c lispCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		lispLine(&c)
		return mustJSON(c)
	}
	histories["lisp"] = func(r *rand.Rand, id int) (string, any) { return "lisp", randomLisp(r, id) }
	handlers["lisp"] = func(b []byte) []byte {
		var c lispCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		lispSession(&c)
		return mustJSON(c)
	}
}
