package main

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// cbNode is what the parse functions of the harness build.
type cbNode struct {
	*j.Attr
	name string
	it   j.Ast
}

// spanNode is looked at for its origin.
type spanNode struct {
	*j.Attr
	name string
	it   j.Ast
	s    *session
	rule string // named by the origin
}

func (c *spanNode) SetOrigin(o j.Origin) { c.Attr.SetOrigin(o); c.rule = o.RuleName }

func (c *spanNode) String() string { return c.name + "<" + c.it.String() + ">" }

func (c *cbNode) String() string { return c.name + "<" + c.it.String() + ">" }

// session carries what the parse functions of one grammar record.
type session struct {
	log     []any
	logging bool
	text    string             // what is parsed
	nested  func(pos int)      // called by "nest" parse functions
	calls   *int               // counts calls, instead of logging them
	event   func([]any)        // told of every call, instead of logging it
	pause   func()             // lets other parses go on
	peers   map[int64]*session // by goroutine, who is meant
}

func (s *session) emit(kind, rule string, pos int, v any) {
	if s.event != nil {
		s.event([]any{kind, rule, pos, v})
	} else if s.logging {
		s.log = append(s.log, []any{kind, rule, pos, v})
	}
}

// parseFunc gives the parse function with the given behaviour. What each
// returns is a function of its argument and of the position only.
func (s *session) parseFunc(rule, behaviour string) func(j.Ast, *j.ParseContext) j.Ast {
	of := s
	return func(it j.Ast, ctx *j.ParseContext) j.Ast {
		s := of
		if s.peers != nil {
			s = s.peers[gid()]
		}
		pos := -1
		if ctx != nil {
			pos = ctx.Code.Pos()
		}
		if s.pause != nil {
			s.pause()
		}
		if behaviour == "probe" {
			s.emit("pr", rule, pos, []any{"u"})
			return it
		}
		if s.calls != nil {
			*s.calls++
		} else {
			s.emit("cb", rule, pos, astJSON(it))
		}
		if s.pause != nil {
			s.pause()
		}
		switch behaviour {
		case "wrap":
			return &cbNode{j.NewAttr(), rule, it}
		case "span":
			return &spanNode{j.NewAttr(), rule, it, s, ""}
		case "id":
			return it
		case "str":
			return j.NewNativeString("k")
		case "int":
			return j.NewNativeInt(pos)
		case "undef":
			return j.NewNativeUndefined()
		case "nil":
			return nil
		case "nilodd": // fails when it ends at an odd position
			if pos%2 == 1 {
				return nil
			}
			return &cbNode{j.NewAttr(), rule, it}
		case "nileven":
			if pos%2 == 0 {
				return nil
			}
			return it
		case "nilundef":
			if j.IsUndefined(it) {
				return nil
			}
			return it
		case "err":
			return ctx.Error("E" + rule)
		case "panic":
			panic(ctx.Error("P" + rule))
		case "panic2":
			if pos >= 2 {
				panic(ctx.Error("P" + rule))
			}
			return it
		case "nest":
			if s.nested != nil {
				s.nested(pos)
			}
			return &cbNode{j.NewAttr(), rule, it}
		}
		panic("parse function " + behaviour)
	}
}

// astJSON renders a parse result in the form the specification uses.
func astJSON(a j.Ast) []any {
	switch v := a.(type) {
	case nil:
		return []any{"nil"}
	case j.NativeString:
		return []any{"s", ints(string(v))}
	case j.NativeInt:
		return []any{"i", v.Int()}
	case j.NativeUndefined:
		return []any{"u"}
	case *j.NativeArray:
		x := []any{}
		for _, e := range *v {
			x = append(x, astJSON(e))
		}
		return []any{"a", x}
	case *j.NativeMap:
		x := []any{}
		for _, k := range v.Keys() {
			x = append(x, []any{k, astJSON(v.Get(k))})
		}
		return []any{"m", x}
	case *cbNode:
		return []any{"c", v.name, astJSON(v.it)}
	case *spanNode:
		o := v.GetOrigin()
		return []any{"o", v.name, astJSON(v.it), o.Start, o.End, v.GetLine(), o.Line == v.GetLine() && o.Code == v.s.text && v.rule == v.name}
	case j.ParseError:
		return []any{"e", v.ErrorString}
	default:
		return []any{"x", fmt.Sprintf("%T", a)}
	}
}

// lines gives the declaration of rank n of g.
func (g *Gram) lines(n int, s *session) []j.Line {
	nd := &g.Nodes[n-1]
	args := func(n int) []any {
		r := &g.Nodes[n-1]
		var body any
		if r.T == "rank" {
			body = g.lines(n, s)
		} else {
			body = g.render(n, lvChoice)
		}
		if r.Comp {
			body = generation(g.Gen).ParseString(body.(string)).(j.Parser)
		}
		var a []any
		if r.Named {
			a = append(a, j.Named(r.R, body))
		} else {
			a = append(a, body)
		}
		if r.Cb != "" {
			// any of the supported signatures
			f := s.parseFunc(r.R, r.Cb)
			switch {
			case g.Sig1 && n%3 == 2 && map[string]bool{"wrap": true, "id": true, "str": true, "undef": true, "nil": true}[r.Cb]:
				a = append(a, func(it j.Ast) j.Ast { return f(it, nil) }) // not told the position
			case n%2 == 0:
				a = append(a, f)
			default:
				a = append(a, func(it j.Ast, ctx *j.ParseContext, _ j.Ast) j.Ast { return f(it, ctx) })
			}
		}
		if r.Sk {
			a = append(a, j.SkipCache{Bool: true})
		}
		if r.Dbg {
			a = append(a, j.Debug{Bool: true})
		}
		if r.Sl {
			a = append(a, j.SkipLog{Bool: true})
		}
		return a
	}
	var ls []j.Line
	if nd.IFst {
		for _, k := range nd.IR {
			ls = append(ls, j.I(args(k)...))
		}
	}
	for _, k := range nd.K {
		ls = append(ls, j.O(args(k)...))
	}
	if !nd.IFst {
		for _, k := range nd.IR {
			ls = append(ls, j.I(args(k)...))
		}
	}
	return ls
}

func (g *Gram) build(s *session, topt *j.TraceOptions) *j.Grammar {
	if topt == nil {
		topt = j.Mute()
	}
	opt := j.GrammarOptions{TraceOptions: topt}
	if g.Gen > 0 {
		opt.LazyGrammar = lazily(generation(g.Gen))
	}
	return j.GrammarWithOptionsFromLines("g", opt, g.lines(g.Top, s))
}

var reErr = regexp.MustCompile(`^Error parsing at char:(-?\d+)=\(line:(-?\d+),col:(-?\d+)\)\.`)

// it names the rule that does not exist
var reGone = regexp.MustCompile(`\b(_?Gone(?:\.x)?|A_|gone0)(?:[^\w.]|$)`)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// outcome turns the result of a parse into what the specification predicts:
// ok and the value, nil, or err with position, line and column.
func outcome(a j.Ast) []any {
	if a == nil {
		return []any{"nil"}
	}
	if pe, ok := a.(j.ParseError); ok {
		if m := reErr.FindStringSubmatch(pe.ErrorString); m != nil {
			return []any{"err", atoi(m[1]), atoi(m[2]), atoi(m[3])}
		}
		return []any{"ok", []any{"e", pe.ErrorString}}
	}
	return []any{"ok", astJSON(a)}
}

// guard runs f, turning a panic into an outcome.
func guard(f func() []any) (out []any) {
	defer func() {
		if e := recover(); e != nil {
			if pe, ok := e.(j.ParseError); ok {
				out = []any{"panic", pe.ErrorString}
				return
			}
			m := fmt.Sprint(e)
			if g := reGone.FindStringSubmatch(m); g != nil {
				out = []any{"panic", "U" + g[1]}
				return
			}
			if i := strings.IndexByte(m, '\n'); i >= 0 {
				m = m[:i]
			}
			out = []any{"crash", m}
		}
	}()
	return f()
}

// runCase builds the grammar of c and parses its inputs, filling in Out and Log.
func runCase(c *Case) {
	s := &session{}
	if c.Par > 0 {
		captured(c.parallel)
		c.Silent = true
		return
	}
	var gm *j.Grammar
	var built []any
	said := captured(func() { built = guard(func() []any { gm = c.G.build(s, c.Topt.options()); return nil }) })
	c.Silent = said == "" || !c.Topt.mute() || c.G.debugs()
	if c.Weave != 0 && gm != nil {
		captured(func() { c.weave(s, gm) })
		c.trim()
		return
	}
	for _, in := range c.Inputs {
		in.Trace = []any{}
		if in.Opts == nil {
			in.Opts = []string{}
		}
		if gm == nil {
			in.Out, in.Log = built, []any{}
			continue
		}
		s.log, s.logging, s.text = []any{}, true, bytesOf(in.In)
		if in.St != nil {
			s.text = bytesOf(in.St.Orig)
		}
		said := captured(func() { in.Out = guard(func() []any { return outcome(in.parse(gm)) }) })
		in.Log = s.log
		if c.Topt != nil {
			in.Trace = traceLines(said)
		}
	}
	c.trim()
}

// trim keeps some of the inputs: half of them accepted if possible, and among
// the others first those that were written according to the grammar.
func (c *Case) trim() {
	if c.Keep == 0 || len(c.Inputs) <= c.Keep {
		return
	}
	var good, derived, rest []*Input
	for _, in := range c.Inputs {
		switch {
		case in.Out[0] == "ok" && len(good) < (c.Keep+1)/2:
			good = append(good, in)
		case in.Drv && in.Out[0] != "ok" && len(derived) < (c.Keep+2)/4:
			derived = append(derived, in)
		default:
			rest = append(rest, in)
		}
	}
	c.Inputs = append(append(good, derived...), rest...)[:c.Keep]
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

func (in *Input) parse(gm *j.Grammar) j.Ast {
	if in.St != nil {
		if in.ts == nil {
			in.ts = in.St.open().(*j.TokenStream)
		}
		in.ts.SetPos(0)
		return gm.ParseTokens(in.ts, in.options()...)
	}
	return gm.ParseString(bytesOf(in.In), in.options()...)
}

func (g *Gram) debugs() bool {
	for _, nd := range g.Nodes {
		if nd.Dbg {
			return true
		}
	}
	return false
}
