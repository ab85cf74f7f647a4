package main

import (
	"encoding/json"

	j "github.com/grepsuzette/joeson"
)

// Declarations of rules, right and wrong ones.

type declareOp struct {
	O      string   `json:"o"` // o or i
	First  string   `json:"first"`
	More   []string `json:"more"`
	Nested bool     `json:"nested"`
	Named  bool     `json:"named"`
	R      []any    `json:"r"`
	X      []any    `json:"x"`
}

type declareCase struct {
	ID  int          `json:"id"`
	Ops []*declareOp `json:"ops"`
}

func tagged(tag string, it j.Ast) j.Ast { return &cbNode{j.NewAttr(), tag, it} }

func goodParser() j.Parser { return generation(0).ParseString("'x'").(j.Parser) }

// argument gives what each kind of argument stands for.
func argument(kind string) any {
	switch kind {
	case "text":
		return "'x'"
	case "named text":
		return j.Named("N", "'x'")
	case "named lines":
		return j.Named("N", []j.Line{j.O("'x'"), j.O("'z'")})
	case "named deep lines":
		return j.Named("N", []j.Line{j.O(j.Named("M", []j.Line{j.O("Q"), j.I(j.Named("Q", "'x'"))})), j.O("'z'")})
	case "deep bad lines":
		return j.Named("N", []j.Line{j.O("'x'"), j.O(j.Named("M", []j.Line{j.O("'y'"), j.I(j.Named("Q", "'x' )"))})), j.O("'z'")})
	case "parser":
		return goodParser()
	case "named parser":
		return j.Named("N", goodParser())
	case "bad text":
		return "'x' |"
	case "named bad text":
		return j.Named("N", "('x'")
	case "named bad lines":
		return j.Named("N", []j.Line{j.O("'x'"), j.O("*")})
	case "bad regex":
		return "/x(/"
	case "named bad regex":
		return j.Named("N", "'x' | [z-a]")
	case "no name":
		return j.Named("", "'x'")
	case "lines":
		return []j.Line{j.O("'x'")}
	case "line list of texts":
		return j.Named("N", []string{"'x'"})
	case "i":
		return j.I(j.Named("N", "'x'"))
	case "o":
		return j.O("'x'")
	case "named i":
		return j.Named("N", j.I(j.Named("M", "'x'")))
	case "number":
		return 7
	case "named number":
		return j.Named("N", 7)
	case "named":
		return j.Named("M", "'x'")
	case "option", "skip":
		return j.SkipCache{Bool: true}
	case "debug":
		return j.Debug{Bool: true}
	case "skiplog":
		return j.SkipLog{Bool: true}
	case "function", "f1":
		return func(it j.Ast) j.Ast { return tagged("f1", it) }
	case "f2":
		return func(it j.Ast, _ *j.ParseContext) j.Ast { return tagged("f2", it) }
	case "f3":
		return func(it j.Ast, _ *j.ParseContext, _ j.Ast) j.Ast { return tagged("f3", it) }
	case "wrong f":
		return func(it j.Ast, _ int) j.Ast { return tagged("wrong", it) }
	}
	panic("argument " + kind)
}

// declare builds a grammar with the declaration in it and uses it.
func declare(op *declareOp) []any {
	r := guard(func() []any {
		var args []any
		if op.First != "nothing" {
			args = append(args, argument(op.First))
		}
		for _, m := range op.More {
			args = append(args, argument(m))
		}
		var lines []j.Line
		if op.O == "o" {
			lines = append(lines, j.O(args...))
		} else {
			lines = append(lines, j.I(args...))
		}
		if op.Named {
			lines = append(lines, j.O("'w' N"))
		}
		lines = append(lines, j.O("'y'"))
		if op.Nested {
			lines = []j.Line{j.O("'v'"), j.O(j.Named("Nest", lines))}
		}
		gm := j.GrammarWithOptionsFromLines("g", j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: lazily(generation(0))}, lines)
		text := "x"
		if op.O == "i" {
			text = "wx"
		}
		a := gm.ParseString(text)
		if a == nil || j.IsParseError(a) {
			return []any{"does not match"}
		}
		f := ""
		if c, ok := a.(*cbNode); ok {
			f, a = c.name, c.it
		}
		if _, ok := a.(j.NativeString); !ok {
			return []any{"unexpected value"}
		}
		if b := gm.ParseString("y"); b == nil || j.IsParseError(b) {
			return []any{"other rules do not match"}
		}
		return []any{"built", f}
	})
	if r[0] == "crash" || r[0] == "panic" {
		return []any{"refused"}
	}
	return r
}

var declarer *child // does those that may end the process

func init() {
	one := func(b []byte) *declareOp {
		var op declareOp
		if err := json.Unmarshal(b, &op); err != nil {
			die(err)
		}
		return &op
	}
	handlers["declare1"] = func(b []byte) []byte { return mustJSON(declare(one(b))) }
	handlers["declare"] = func(b []byte) []byte {
		var c declareCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		for _, op := range c.Ops {
			if declarer == nil {
				declarer = startChild("declare1")
			}
			res, dead := declarer.one(mustJSON(op))
			switch {
			case dead == "exit":
				op.R = []any{"refused"}
			case dead != "":
				op.R = []any{"dead", dead}
			default:
				if err := json.Unmarshal(res, &op.R); err != nil {
					die(err)
				}
			}
			if dead != "" {
				declarer = nil
			}
		}
		return mustJSON(c)
	}
}
