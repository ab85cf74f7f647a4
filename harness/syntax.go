package main

import (
	"encoding/json"
	"math/rand"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// generation gives joeson's grammar: 0 is the hand-compiled one, n+1 the one
// compiled from its own rules by generation n.
func generation(n int) *j.Grammar {
	for len(generations) <= n {
		k := len(generations)
		if k == 0 {
			generations = append(generations, j.NewJoesonWithOptions(j.Mute()))
			continue
		}
		generations = append(generations, j.GrammarWithOptionsFromLines("intention",
			j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: lazily(generations[k-1])}, j.IntentionRules()))
	}
	return generations[n]
}

var generations []*j.Grammar

func lazily(g *j.Grammar) *helpers.Lazy[*j.Grammar] {
	return helpers.LazyFromFunc(func() *j.Grammar { return g })
}

type ruleOp struct {
	O string `json:"o"`
	S []int  `json:"s"`
	R []any  `json:"r"`
	X []any  `json:"x,omitempty"`

	Gen int `json:"gen"`
	At  int `json:"at"` // build: where in a grammar
}

// buildWith builds a grammar with a rule somewhere in it.
func buildWith(gen, at int, text string) []any {
	out := guard(func() []any {
		body := any(text)
		if at%2 == 1 {
			body = j.Named("R", text)
		}
		lines := []j.Line{j.O("'x' a"), j.I(j.Named("a", "b* (c | 'y')"))}
		switch at / 2 {
		case 0:
			lines = append([]j.Line{j.O(body)}, lines...)
		case 1:
			lines = append(lines, j.O(body, func(it j.Ast) j.Ast { return it }))
		case 2:
			lines = append([]j.Line{j.I(j.Named("S", []j.Line{j.O("a"), j.O(body), j.I(j.Named("T", "a b"))}))}, lines...)
		case 3:
			lines = append(lines, j.O(j.Named("S", []j.Line{j.O(j.Named("U", []j.Line{j.O("a b"), j.O(body)})), j.I(j.Named("T", "a b"))})))
		case 4:
			lines = append(lines, j.I(j.Named("R", text), j.SkipCache{Bool: true}))
		}
		j.GrammarWithOptionsFromLines("g", j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: lazily(generation(gen))}, lines)
		return []any{"built"}
	})
	if out[0] == "panic" || out[0] == "crash" {
		return []any{"refused"}
	}
	return out
}

type ruleCase struct {
	ID  int       `json:"id"`
	Ops []*ruleOp `json:"ops"`
}

// readRule has a generation of joeson's grammar read the text of a rule.
func readRule(gen int, text string) []any {
	out := guard(func() []any {
		a := generation(gen).ParseString(text)
		if a == nil || j.IsParseError(a) {
			return []any{"no"}
		}
		return []any{"yes", ints(reANSI.ReplaceAllString(j.String(a), ""))}
	})
	if out[0] != "yes" {
		return []any{"no"}
	}
	return out
}

// randomRule is a text that is a rule or nearly so.
func randomRule(r *rand.Rand, id int, build bool) *ruleTextCase {
	c := newCase(r, profile("format", r), id, "format")
	good := map[string]bool{}
	var rules []int
	for i, nd := range c.G.Nodes {
		switch nd.T {
		case "cls":
			good[nd.Txt] = true
		case "rx":
			good[nd.Txt] = true
		}
		if nd.R != "" && nd.T != "rank" {
			rules = append(rules, i+1)
		}
	}
	text := []byte(c.G.render(rules[r.Intn(len(rules))], lvChoice))
	k := &ruleTextCase{ID: id, Good: [][]int{}}
	for t := range good {
		k.Good = append(k.Good, ints(t))
	}
	const bits = "abR'[]/()|*+?!{},: \n12_.\\&@-^x\t\xff\xce\xb1#>"
	pieces := []string{"->", "-> {", "name:", "&:", "@:", "{,}", "{1,}", "{ 2 , 3 }", "''", "(?", "a(", "(a: ", "\\'", "| ", "*'x'", "+'y'", "{12,345}", "\u00a0", "世",
		"{010,}", "'a'{,012}", "b*{08,0011}", "{0x1,}", "{1_0,2}", "{1e1,}", "[b]*'c'{0,0b1}", "'\\0'", "'\\n\\x41'", "/\\n\\x41/"}
	for n := r.Intn(4); n > 0 && len(text) > 0; n-- {
		at := r.Intn(len(text) + 1)
		what := string(bits[r.Intn(len(bits))])
		if r.Intn(4) == 0 {
			what = string([]byte{byte(r.Intn(256))})
		}
		if r.Intn(3) == 0 {
			what = pieces[r.Intn(len(pieces))]
		}
		switch r.Intn(4) {
		case 0: // delete
			to := min(len(text), at+1+r.Intn(3)/2)
			text = append(text[:at:at], text[to:]...)
		case 1, 2: // insert
			text = []byte(string(text[:at]) + what + string(text[at:]))
		default: // replace
			text = []byte(string(text[:at]) + what + string(text[min(len(text), at+1):]))
		}
	}
	for i := 0; build && i < 3; i++ {
		k.Ops = append(k.Ops, &ruleOp{O: "build", S: ints(string(text)), R: []any{}, Gen: r.Intn(3) / 2, At: r.Intn(10)})
	}
	for gen := 0; !build && gen <= 3; gen++ {
		k.Ops = append(k.Ops, &ruleOp{O: "rule", S: ints(string(text)), R: []any{}, Gen: gen})
	}
	return k
}

type ruleTextCase struct {
	ID   int       `json:"id"`
	Good [][]int   `json:"good"` // sources of regular expressions that are valid
	Ops  []*ruleOp `json:"ops"`
}

func init() {
	histories["ruletext"] = func(r *rand.Rand, id int) (string, any) { return "ruletext", randomRule(r, id, false) }
	histories["building"] = func(r *rand.Rand, id int) (string, any) { return "ruletext", randomRule(r, id, true) }
	handlers["ruletext"] = func(b []byte) []byte {
		var c ruleTextCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		for _, op := range c.Ops {
			if op.O == "build" {
				op.R = buildWith(op.Gen, op.At, bytesOf(op.S))
			} else {
				op.R = readRule(op.Gen, bytesOf(op.S))
			}
		}
		return mustJSON(c)
	}
	for gen, name := range []string{"rule0", "rule1", "rule2", "rule3"} {
		handlers[name] = func(b []byte) []byte {
			var c ruleCase
			if err := json.Unmarshal(b, &c); err != nil {
				die(err)
			}
			generation(gen)
			for _, op := range c.Ops {
				op.R = readRule(gen, bytesOf(op.S))
			}
			return mustJSON(c)
		}
	}
}
