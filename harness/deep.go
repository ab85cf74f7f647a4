package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// Families of grammars and texts that differ in size only.

type family struct {
	name  string
	gram  func(n int) *grule
	text  func(n int) string
	lines bool  // parsed as tokens, each on a line of its own
	sizes []int // besides small ones
}

func topOf(o *grule, i ...*grule) *grule {
	return &grule{name: "g", rank: true, o: []*grule{o}, i: i}
}

func wrapped(name string, b *gn) *grule { r := rule(name, b); r.cb = "wrap"; return r }

func choiceOf(k ...*gn) *gn { return &gn{t: "choice", k: k, mn: -1, mx: -1} }

func letters(a ...string) *gn {
	g := &generator{}
	return &gn{t: "cls", set: a, txt: g.classText(a, false), mn: -1, mx: -1}
}

func times(s string, n int) string { return strings.Repeat(s, n) }

var families = []family{
	{name: "nest", gram: nestGram, text: func(n int) string { return times("(", n) + "x" + times(")", n) }, sizes: []int{40, 1100, 10000, 36000}},
	{name: "unclosed", gram: nestGram, text: func(n int) string { return times("(", n) + "x" + times(")", n-1) }, sizes: []int{40, 1100, 10000, 36000}},
	{name: "list", gram: listGram, text: func(n int) string { return times("a,", n-1) + "a" }, sizes: []int{40, 1100, 20000, 36000}},
	{name: "long", gram: listGram, text: func(n int) string { return times("a,", n-1) + "a!" }, sizes: []int{40, 1100, 20000, 36000}},
	{name: "tokens", gram: listGram, text: func(n int) string { return times("a,", n-1) + "a" }, lines: true, sizes: []int{40, 1100, 10000, 33000}},
	{name: "badtoken", gram: listGram, text: func(n int) string { return times("a,", n-1) + "a!" }, lines: true, sizes: []int{40, 1100, 10000, 33000}},
	{name: "left", text: func(n int) string { return times("a+", n-1) + "a" }, gram: func(int) *grule {
		e, t := wrapped("E", nil), wrapped("N", letters("az"))
		e.body = choiceOf(seqOf(refTo(e), str("+"), refTo(t)), refTo(t))
		return topOf(e, t)
	}, sizes: []int{40, 1100, 6000, 36000}},
	{name: "right", text: func(n int) string { return times("a,", n-1) + "a" }, gram: func(int) *grule {
		e, t := wrapped("R", nil), wrapped("N", letters("az"))
		e.body = choiceOf(seqOf(refTo(t), str(","), refTo(e)), refTo(t))
		return topOf(e, t)
	}, sizes: []int{40, 1100, 10000, 36000}},
	{name: "again", text: func(n int) string { return times("(", n) + "x" + times(")", n) }, gram: func(int) *grule {
		s, a := wrapped("S", nil), wrapped("A", nil)
		s.body = choiceOf(seqOf(refTo(a), str("b")), seqOf(refTo(a), str("c")), refTo(a))
		a.body = choiceOf(seqOf(str("("), refTo(s), str(")")), str("x"))
		return topOf(s, a)
	}, sizes: []int{40, 1100, 6000, 20000}},
	{name: "lines", text: func(n int) string { return times("a\n", n) + "!" }, gram: func(int) *grule {
		w := wrapped("W", letters("az"))
		return topOf(wrapped("L", star(seqOf(refTo(w), str("\n")))), w)
	}, sizes: []int{40, 1100, 20000, 36000}},
	{name: "chain", text: func(int) string { return "x" }, gram: func(n int) *grule {
		rs := make([]*grule, n)
		for k := n - 1; k >= 0; k-- {
			rs[k] = wrapped(fmt.Sprintf("R%d", k+1), str("x"))
			if k < n-1 {
				rs[k].body = refTo(rs[k+1])
			}
		}
		return topOf(rs[0], rs[1:]...)
	}, sizes: []int{40, 1100, 6000, 12000}},
	{name: "alts", text: func(n int) string { return fmt.Sprintf("k%d;", n) }, gram: func(n int) *grule {
		var a []*gn
		for k := 0; k <= n; k++ {
			a = append(a, str(fmt.Sprintf("k%d;", k)))
		}
		return topOf(wrapped("A", choiceOf(a...)))
	}, sizes: []int{40, 1100, 6000, 15000}},
	{name: "postfix", text: func(n int) string { return times("x(", n) + "x" + times(")", n) }, gram: func(int) *grule {
		e := wrapped("E", nil)
		e.body = choiceOf(seqOf(refTo(e), str("("), refTo(e), str(")")), str("x"))
		return topOf(e)
	}, sizes: []int{40, 1100, 5000, 24000}},
	{name: "word", text: func(n int) string { return times("a", n) }, gram: func(int) *grule {
		return topOf(wrapped("T", plus(letters("az"))))
	}, sizes: []int{40, 1100, 20000, 70000}},
	{name: "literal", text: func(n int) string { return times("a", n) }, gram: func(n int) *grule {
		return topOf(wrapped("T", seqOf(labelled("x", str(times("a", n))))))
	}, sizes: []int{40, 1100, 6000, 70000}},
	{name: "exactly", text: func(n int) string { return times("a", n) }, gram: exactGram, sizes: []int{40, 130, 300, 40000}},
	{name: "fewer", text: func(n int) string { return times("a", n-1) + "b" }, gram: exactGram, sizes: []int{40, 130, 300, 40000}},
	{name: "more", text: func(n int) string { return times("a", n) + "ab" }, gram: exactGram, sizes: []int{40, 130, 300, 40000}},
	{name: "labels", text: func(n int) string { return times("a", n-n/3) }, gram: func(n int) *grule {
		var a []*gn
		for k := 1; k <= n; k++ {
			e := str("a")
			if k%3 == 0 {
				e = opt(str("b"))
			}
			a = append(a, labelled(fmt.Sprintf("l%d", k), e))
		}
		return topOf(wrapped("T", seqOf(a...)))
	}, sizes: []int{40, 400, 1000, 3000}},
	{name: "cycle", text: func(n int) string { return "axxx" }, gram: func(n int) *grule {
		rs := make([]*grule, n+1)
		for k := range rs {
			rs[k] = wrapped(fmt.Sprintf("R%d", k), nil)
		}
		for k := range rs {
			rs[k].body = refTo(rs[(k+1)%len(rs)])
		}
		rs[0].body = choiceOf(seqOf(refTo(rs[1]), str("x")), str("a"))
		return topOf(rs[0], rs[1:]...)
	}, sizes: []int{40, 300, 1500, 4000}},
	{name: "mutual", text: func(n int) string { return "p" + times(".p(p)", n) }, gram: func(int) *grule {
		p, c, m, t := wrapped("P", nil), wrapped("C", nil), wrapped("M", nil), wrapped("N", letters("p"))
		p.body = choiceOf(refTo(c), refTo(m), refTo(t))
		c.body = seqOf(refTo(p), str("("), refTo(p), str(")"))
		m.body = seqOf(refTo(p), str("."), refTo(t))
		return topOf(p, c, m, t)
	}, sizes: []int{40, 300, 1500, 15000}},
	{name: "rules", text: func(int) string { return "a" }, gram: func(n int) *grule {
		var a []*gn
		var rs []*grule
		for k := 1; k <= n; k++ {
			r := wrapped(fmt.Sprintf("R%d", k), str("a"))
			rs = append(rs, r)
			if k < n {
				a = append(a, seqOf(refTo(r), str("!")))
			}
		}
		return topOf(wrapped("S", choiceOf(append(a, refTo(rs[n-1]))...)), rs...)
	}, sizes: []int{40, 300, 1500, 4000}},
	{name: "far", text: func(n int) string { return times("a\n", n) + "x+x+x" }, gram: func(int) *grule {
		e, t := wrapped("E", nil), wrapped("N", letters("x"))
		e.body = choiceOf(seqOf(refTo(e), str("+"), refTo(t)), refTo(t))
		return topOf(wrapped("S", seqOf(star(str("a\n")), labelled("e", refTo(e)))), e, t)
	}, sizes: []int{40, 1100, 20000, 36000}},
	{name: "parens", text: func(int) string { return "x" }, gram: func(n int) *grule {
		x := letters("x")
		x.par = n
		return topOf(wrapped("T", x))
	}, sizes: []int{40, 150, 400, 1000}},
}

func exactGram(n int) *grule {
	x := star(str("a"))
	x.mn, x.mx, x.txt = n, n, "{"
	return topOf(wrapped("T", seqOf(labelled("x", x))))
}

func nestGram(int) *grule {
	s := wrapped("S", nil)
	s.body = choiceOf(seqOf(str("("), refTo(s), str(")")), str("x"))
	return topOf(s)
}

func listGram(int) *grule {
	t := wrapped("N", letters("az"))
	return topOf(wrapped("L", starJoin(refTo(t), str(","))), t)
}

// input makes the n-th text, possibly of tokens.
func (f family) input(n int) *Input {
	t := f.text(n)
	in := &Input{In: ints(t), Out: []any{}, Log: []any{}, Trace: []any{}, Opts: []string{}}
	if f.lines {
		var orig strings.Builder
		var toks []Tok
		for i := 0; i < len(t); i++ {
			toks = append(toks, Tok{O: orig.Len(), W: i, S: ints(t[i : i+1])})
			orig.WriteString(t[i:i+1] + "\n")
		}
		in.St = &StreamState{Work: ints(t), Orig: ints(orig.String()), Toks: toks, Tok: true}
	}
	return in
}

type deepCase struct {
	ID  int       `json:"id"`
	F   string    `json:"f"`
	Fam int       `json:"fam"`
	G   Gram      `json:"g"` // of small ones
	Ops []*deepOp `json:"ops"`
}

type deepOp struct {
	O  string `json:"o"`
	N  int    `json:"n"`
	In []int  `json:"in"` // of small ones
	R  []any  `json:"r"`
}

// digest: how many values parse functions built, how deep values nest, how
// many strings there are and how many bytes in them.
type digest struct {
	built, strs, bytes int
	last               j.Origin // of the value that begins last
}

func (d *digest) add(a j.Ast) (depth int) {
	switch v := a.(type) {
	case j.NativeString:
		d.strs++
		d.bytes += len(v)
		return 0
	case j.NativeUndefined:
		d.strs++
		return 0
	case *cbNode:
		d.built++
		if o := v.GetOrigin(); o.Start >= d.last.Start {
			d.last = o
		}
		return 1 + d.add(v.it)
	case *j.NativeArray:
		for _, e := range *v {
			if k := d.add(e); k > depth {
				depth = k
			}
		}
		return depth + 1
	case *j.NativeMap:
		for _, key := range v.Keys() {
			if k := d.add(v.Get(key)); k > depth {
				depth = k
			}
		}
		return depth + 1
	}
	return -1 << 20
}

func runDeep(f family, g *Gram, in *Input) []any {
	calls := 0
	s := &session{calls: &calls}
	return guard(func() []any {
		a := in.parse(g.build(s, j.Mute()))
		switch o := a.(type) {
		case nil:
			return []any{"nil"}
		case j.ParseError:
			return append(outcome(o), calls)
		}
		d := digest{}
		depth := d.add(a)
		out := []any{"ok", d.built, depth, d.strs, d.bytes, calls}
		if f.name == "far" {
			out = append(out, d.last.Start, d.last.End, d.last.Line)
		}
		return out
	})
}

func init() {
	// the sizes after the small ones are random, from a few up to the largest
	histories["deep"] = func(r *rand.Rand, id int) (string, any) {
		var some []int
		for k, f := range families {
			if selection == "" || strings.Contains(","+selection+",", ","+f.name+",") {
				some = append(some, k)
			}
		}
		k := some[(id-1)%len(some)]
		f, round := families[k], (id-1)/len(some)
		n := round + 1
		if round > 3 {
			n = f.sizes[(round-4)%len(f.sizes)]
		}
		if round > 3+len(f.sizes) {
			n = 5 + r.Intn(f.sizes[r.Intn(len(f.sizes))])
		}
		c := &deepCase{ID: id, F: f.name, Fam: k, Ops: []*deepOp{{O: f.name, N: n, In: []int{}, R: []any{}}}}
		if round <= 3 {
			c.G = flatten(f.gram(n))
			c.Ops[0].In = ints(f.text(n))
		} else {
			c.G = Gram{Nodes: []Node{}}
		}
		return "deep", c
	}
	handlers["deep"] = func(b []byte) []byte {
		var c deepCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		for _, op := range c.Ops {
			f := families[c.Fam]
			g := flatten(f.gram(op.N))
			op.R = runDeep(f, &g, f.input(op.N))
		}
		return mustJSON(c)
	}
}
