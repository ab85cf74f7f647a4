package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// Sessions: many parses with several grammars, also from within parse
// functions.

type sessionGram struct {
	G    Gram      `json:"g"`
	Topt *TraceOpt `json:"topt"`
	Text []string  `json:"text"`
}

type sessionCase struct {
	ID      int            `json:"id"`
	Grams   []*sessionGram `json:"grams"`
	Texts   []*Input       `json:"texts"`
	Options [][]string     `json:"options"`
	Script  [][]int        `json:"script"` // grammar, text, options of each parse
	Nest    [][][]int      `json:"nest"`   // by grammar: what its nest functions parse
	Budget  int            `json:"budget"`
	Early   []bool         `json:"early"` // by grammar: built before anything is parsed
	Again   []bool         `json:"again"` // by parse of the script: built again first
	Reuse   bool           `json:"reuse"` // token streams are parsed several times
	Log     []any          `json:"log"`
}

func runSession(c *sessionCase) {
	grams := make([]*j.Grammar, len(c.Grams))
	lines := make([][]j.Line, len(c.Grams))
	event := func(e []any) { fmt.Fprintf(os.Stdout, "\x01%s\n", mustJSON(e)) }
	level, left := 0, c.Budget
	streams := make([]*j.TokenStream, len(c.Texts)) // to be parsed again
	busy := make([]int, len(c.Texts))
	var parse func(what []int)
	build := func(g int) {
		sg := c.Grams[g]
		if lines[g] == nil {
			s := &session{event: event}
			s.nested = func(pos int) {
				if plan := c.Nest[g]; level <= 2 && left > 0 && len(plan) > 0 {
					left--
					parse(plan[pos%len(plan)])
				}
			}
			lines[g] = sg.G.lines(sg.G.Top, s)
		}
		event([]any{"build"})
		grams[g] = j.GrammarWithOptionsFromLines("g", j.GrammarOptions{TraceOptions: sg.Topt.options()}, lines[g])
		event([]any{"built", sg.Topt.mute() && !sg.G.debugs()})
	}
	parse = func(what []int) {
		g, t := what[0]-1, *c.Texts[what[1]-1]
		if grams[g] == nil {
			build(g)
		}
		event([]any{"begin", what[0], what[1], what[2]})
		t.Opts = c.Options[what[2]-1]
		was := level
		level++
		if busy[what[1]-1] == 0 {
			t.ts = streams[what[1]-1]
		}
		busy[what[1]-1]++
		out := guard(func() []any { return outcome(t.parse(grams[g])) })
		busy[what[1]-1]--
		if c.Reuse {
			streams[what[1]-1] = t.ts
		}
		level = was
		event([]any{"end", out})
	}
	said := captured(func() {
		out := guard(func() []any {
			for g, early := range c.Early {
				if early {
					build(g)
				}
			}
			for i, what := range c.Script {
				if c.Again[i] {
					build(what[0] - 1)
				}
				parse(what)
			}
			return nil
		})
		if out != nil {
			event([]any{"broken", out})
		}
	})
	c.Log = []any{}
	built := 0
	for _, l := range strings.Split(strings.TrimSuffix(said, "\n"), "\n") {
		if !strings.HasPrefix(l, "\x01") {
			c.Log = append(c.Log, traceLines(l)...)
			continue
		}
		var e []any
		if err := json.Unmarshal([]byte(l[1:]), &e); err != nil {
			die(err)
		}
		switch e[0] {
		case "build":
			built = len(c.Log)
		case "built": // what was printed meanwhile is looked at if it should be nothing
			if e[1] == false {
				c.Log = c.Log[:built]
			}
		default:
			c.Log = append(c.Log, e)
		}
	}
}

func newSession(r *rand.Rand, id int) *sessionCase {
	c := &sessionCase{ID: id, Reuse: r.Intn(3) > 0, Budget: 1 + r.Intn(8), Options: [][]string{{}}, Log: []any{}}
	for n := r.Intn(3); n > 0; n-- {
		c.Options = append(c.Options, [][]string{{"debug"}, {"skiplog"}, {"debug", "skiplog"}, {"nodebug"}}[r.Intn(4)])
	}
	traced := r.Intn(3)
	ng := 1 + r.Intn(3)
	own := make([][]int, ng)
	for g := 0; g < ng; g++ {
		k := newCase(r, profile("session", r), g+1, "session")
		sg := &sessionGram{G: k.G, Text: k.Text, Topt: &TraceOpt{Line: -1}}
		if traced == 0 {
			randomTracing(r, k)
			sg.Topt = k.Topt
		}
		c.Grams = append(c.Grams, sg)
		r.Shuffle(len(k.Inputs), func(a, b int) { k.Inputs[a], k.Inputs[b] = k.Inputs[b], k.Inputs[a] })
		var good, others []*Input
		for _, in := range k.Inputs {
			if in.Drv {
				good = append(good, in)
			} else {
				others = append(others, in)
			}
		}
		for n, in := range append(good, others...) {
			if n == 3 {
				break
			}
			if r.Intn(3) == 0 {
				in.St = tokenize(r, bytesOf(in.In), profile("session", r).Alpha)
			}
			in.Out, in.Log, in.Trace, in.Opts = []any{}, []any{}, []any{}, []string{}
			c.Texts = append(c.Texts, in)
			own[g] = append(own[g], len(c.Texts))
		}
	}
	what := func() []int {
		g := r.Intn(ng)
		t := own[g][r.Intn(len(own[g]))]
		if r.Intn(6) == 0 {
			t = 1 + r.Intn(len(c.Texts))
		}
		return []int{g + 1, t, 1 + r.Intn(len(c.Options))}
	}
	for n := 2 + r.Intn(5); n > 0; n-- {
		w := what()
		if len(c.Script) > 0 && r.Intn(3) == 0 {
			w = c.Script[r.Intn(len(c.Script))]
		}
		c.Script = append(c.Script, w)
		c.Again = append(c.Again, r.Intn(6) == 0)
	}
	for g := 0; g < ng; g++ {
		plan := [][]int{}
		for n := r.Intn(4); n > 0; n-- {
			plan = append(plan, what())
		}
		c.Nest = append(c.Nest, plan)
		c.Early = append(c.Early, r.Intn(2) == 0)
	}
	return c
}

func init() {
	histories["session"] = func(r *rand.Rand, id int) (string, any) { return "session", newSession(r, id) }
	handlers["session"] = func(b []byte) []byte {
		var c sessionCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		runSession(&c)
		return mustJSON(c)
	}
}
