package main

import (
	"encoding/json"
	"os"

	j "github.com/grepsuzette/joeson"
)

type optionsOp struct {
	O   string `json:"o"`
	V   int    `json:"v"`
	Env string `json:"env"`
	D   []any  `json:"d"`
	R   []any  `json:"r"`
	X   []any  `json:"x"`
}

type optionsCase struct {
	ID  int          `json:"id"`
	Ops []*optionsOp `json:"ops"`
}

func shownOptions(t *j.TraceOptions) []any {
	return []any{t.Stack, t.Loop, t.Grammar, t.FilterLine, t.SkipSetup}
}

func askOptions(op *optionsOp) {
	os.Unsetenv("TRACE")
	os.Unsetenv("trace")
	defer os.Unsetenv("TRACE")
	defer os.Unsetenv("trace")
	if op.V == 1 || op.V == 3 {
		os.Setenv("TRACE", op.Env)
	}
	if op.V == 2 {
		os.Setenv("trace", op.Env)
	} else if op.V == 3 && op.Env != "" {
		os.Setenv("trace", "stack,loop,line=7")
	}
	op.R = guard(func() []any {
		switch op.O {
		case "mute":
			return shownOptions(j.Mute())
		case "verbose":
			return shownOptions(j.Verbose())
		case "default":
			return shownOptions(j.DefaultTraceOptions())
		case "gram", "gramnil": // those of a new grammar
			var gm *j.Grammar
			var trouble any
			captured(func() {
				defer func() { trouble = recover() }()
				lines := []j.Line{j.O("'a'")}
				if op.O == "gram" {
					gm = j.GrammarFromLines("g", lines)
				} else {
					gm = j.GrammarWithOptionsFromLines("g", j.GrammarOptions{}, lines)
				}
			})
			if trouble != nil {
				panic(trouble)
			}
			return shownOptions(gm.TraceOptions)
		}
		d := &j.TraceOptions{Stack: op.D[0].(bool), Loop: op.D[1].(bool), Grammar: op.D[2].(bool),
			FilterLine: int(op.D[3].(float64)), SkipSetup: op.D[4].(bool)}
		t := j.TraceOptionsFromEnvironmentOrUse(d)
		r := shownOptions(t)
		// a copy has to be one, and to be on its own
		c := t.Copy()
		c.Stack, c.Loop, c.Grammar, c.FilterLine, c.SkipSetup = !c.Stack, !c.Loop, !c.Grammar, c.FilterLine+1, !c.SkipSetup
		u := shownOptions(t)
		for i := range r {
			if r[i] != u[i] {
				return []any{"changed"}
			}
		}
		for i, x := range shownOptions(c) {
			if n, ok := x.(int); ok && n != u[i].(int)+1 || !ok && x == u[i] {
				return []any{"not copied"}
			}
		}
		return r
	})
	if op.R[0] == "crash" || op.R[0] == "panic" {
		op.R = []any{"panic"}
	}
}

func init() {
	handlers["options"] = func(b []byte) []byte {
		var c optionsCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		for _, op := range c.Ops {
			askOptions(op)
		}
		return mustJSON(c)
	}
}
