package main

import (
	"encoding/json"
	"math/rand"
	"regexp"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// Histories of code streams.

type Tok struct {
	S []int `json:"s"`
	O int   `json:"o"`
	W int   `json:"w"`
}

type StreamState struct {
	Work []int `json:"work"`
	Orig []int `json:"orig"`
	Toks []Tok `json:"toks"`
	Tok  bool  `json:"tok"`
}

// StreamOp is an operation, its result R and the position P after it; X and
// PX are what the specification says, when it made the history.
type StreamOp struct {
	O  string   `json:"o"`
	S  []int    `json:"s"`
	N  []int    `json:"n"`
	Rx []RxItem `json:"rx"`
	R  []any    `json:"r"`
	P  int      `json:"p"`
	X  []any    `json:"x,omitempty"`
	PX int      `json:"px"`
}

type StreamCase struct {
	ID  int         `json:"id"`
	St  StreamState `json:"st"`
	At  int         `json:"at"` // position to start from
	Ops []*StreamOp `json:"ops"`
}

func (s *StreamState) open() j.CodeStream {
	if !s.Tok {
		return j.NewRuneStream(bytesOf(s.Work))
	}
	var toks []j.Token
	for _, t := range s.Toks {
		toks = append(toks, j.Token{Repr: bytesOf(t.S), OriginalOffset: t.O, WorkOffset: t.W})
	}
	return j.NewTokenStream(bytesOf(s.Orig), toks)
}

func (it *RxItem) has(r rune) bool {
	in := false
	for _, x := range it.Set {
		in = in || (rune(x[0]) <= r && r <= rune(x[1]))
	}
	return in != it.Neg
}

func (op *StreamOp) do(c j.CodeStream) []any {
	text := func(s string) []any { return []any{"s", ints(s)} }
	num := func(n int) []any { return []any{"i", n} }
	switch op.O {
	case "set":
		c.SetPos(op.N[0])
		return []any{"ok"}
	case "pos":
		return num(c.Pos())
	case "line":
		return num(c.Line())
	case "col":
		return num(c.Col())
	case "ptl":
		return num(c.PosToLine(op.N[0]))
	case "ptc":
		return num(c.PosToCol(op.N[0]))
	case "len":
		return num(c.Length())
	case "code":
		return text(c.Code())
	case "until":
		return text(c.GetUntil(bytesOf(op.S)))
	case "runes":
		return text(c.PeekRunes(op.N[0]))
	case "lines":
		return text(c.PeekLines(op.N...))
	case "str":
		if ok, m := c.MatchString(bytesOf(op.S)); ok {
			return []any{"yes", ints(m)}
		}
		return []any{"no"}
	case "rx":
		if ok, m := c.MatchRegexp(*regexp.MustCompile(rxSource(op.Rx))); ok {
			return []any{"yes", ints(m)}
		}
		return []any{"no"}
	case "rune":
		if ok, m := c.MatchRune(op.Rx[0].has); ok {
			return []any{"rune", int(m)}
		}
		return []any{"no"}
	}
	panic("operation " + op.O)
}

func runStream(c *StreamCase) {
	var cs j.CodeStream
	start := guard(func() []any { cs = c.St.open(); cs.SetPos(c.At); return nil })
	for _, op := range c.Ops {
		if start != nil {
			op.R = start
			continue
		}
		op.R = guard(func() []any { return op.do(cs) })
		if op.R[0] == "crash" && op.O == "set" {
			op.R = []any{"panic"}
		}
		op.P = cs.Pos()
	}
}

func init() {
	handlers["stream"] = func(b []byte) []byte {
		var c StreamCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		runStream(&c)
		return mustJSON(c)
	}
	histories["rune"] = func(r *rand.Rand, id int) (string, any) { return "stream", randomStream(r, id, false) }
	histories["tok"] = func(r *rand.Rand, id int) (string, any) { return "stream", randomStream(r, id, true) }
}

var streamAlphabets = [][]string{
	{"a", "b", "\n"}, {"a", "é", "世", "\n", "😀"}, {"a", "\n", "\xff", "\xc3", "é"}, {"x", " ", "\n", ";", "="}, {"\n"},
	{"a", "\n", "\r", "\r\n", "\u2028", "\u0085"}, {"a", "\v", "\f", "\x00", "\n", "\ufeff", "\t"},
}

func randomText(r *rand.Rand, alpha []string, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(alpha[r.Intn(len(alpha))])
	}
	return b.String()
}

// randomTokens cuts tokens from text, in order, with gaps; some get longer.
func randomTokens(r *rand.Rand, text string) (toks []Tok, work string) {
	p := 0
	for p < len(text) && len(toks) < 12 {
		p += r.Intn(3)
		q := p + r.Intn(4)
		if q > len(text) {
			break
		}
		s := text[p:q]
		if r.Intn(5) == 0 {
			s = " " + s
		}
		if r.Intn(6) == 0 {
			s += ";\n"
		}
		toks = append(toks, Tok{ints(s), p, len(work)})
		work += s
		p = q
	}
	return
}

func randomStream(r *rand.Rand, id int, tok bool) *StreamCase {
	alpha := streamAlphabets[r.Intn(len(streamAlphabets))]
	text := randomText(r, alpha, r.Intn(24))
	work := text
	c := &StreamCase{ID: id, St: StreamState{Tok: tok, Toks: []Tok{}}}
	if tok {
		c.St.Toks, work = randomTokens(r, text)
		if c.St.Toks == nil {
			c.St.Toks = []Tok{}
		}
	}
	c.St.Orig, c.St.Work = ints(text), ints(work)
	cs := c.St.open() // only to know what is possible
	defer func() { recover() }()
	piece := func() string {
		if len(work) == 0 || r.Intn(4) == 0 {
			return randomText(r, alpha, r.Intn(3))
		}
		a := r.Intn(len(work))
		if r.Intn(2) == 0 {
			a = cs.Pos() % len(work)
		}
		b := a + r.Intn(4)
		if b > len(work) {
			b = len(work)
		}
		return work[a:b]
	}
	class := func() RxItem {
		it := RxItem{Set: [][]int{}, A: [][]RxItem{}, Neg: r.Intn(3) == 0, Mn: 1, Mx: 1}
		for k := 1 + r.Intn(2); k > 0; k-- {
			x := runes(alpha[r.Intn(len(alpha))])[0]
			it.Set = append(it.Set, []int{int(x), int(x) + r.Intn(2)*r.Intn(3)})
		}
		return it
	}
	names := []string{"set", "pos", "line", "col", "ptl", "ptc", "len", "code", "until", "runes", "lines", "str", "rx", "rune",
		"str", "rune", "rx", "set", "until", "lines", "runes"}
	for n := 4 + r.Intn(20); n > 0; n-- {
		op := &StreamOp{O: names[r.Intn(len(names))], S: []int{}, N: []int{}, Rx: []RxItem{}}
		switch op.O {
		case "set":
			op.N = []int{r.Intn(len(work) + 1)}
			if r.Intn(5) == 0 {
				op.N[0] = []int{-1, len(work), len(work) + 1, len(text) + 1, -5}[r.Intn(5)]
			}
		case "ptl", "ptc":
			op.N = []int{r.Intn(len(work) + 1)}
		case "until":
			s := piece()
			if r.Intn(4) > 0 && !strings.Contains(work[cs.Pos():], s) {
				continue
			}
			op.S = ints(s)
		case "str":
			op.S = ints(piece())
		case "runes":
			op.N = []int{r.Intn(13) - 6}
		case "lines":
			for k := r.Intn(4); k > 0; k-- {
				op.N = append(op.N, r.Intn(7)-3)
			}
		case "rune":
			op.Rx = []RxItem{class()}
		case "rx":
			op.Rx, _ = randomRx(r, validOf(alpha))
		}
		c.Ops = append(c.Ops, op)
		func() { // follow, to have needles that occur
			defer func() { recover() }()
			op.do(cs)
		}()
	}
	return c
}

// tokenize makes up an original text and tokens whose working text is work.
func tokenize(r *rand.Rand, work string, alpha []string) *StreamState {
	s := &StreamState{Work: ints(work), Tok: true, Toks: []Tok{}}
	orig := ""
	for p := 0; p < len(work); {
		q := p + 1 + r.Intn(4)
		if q > len(work) {
			q = len(work)
		}
		orig += randomText(r, alpha, r.Intn(4))
		s.Toks = append(s.Toks, Tok{ints(work[p:q]), len(orig), p})
		if r.Intn(8) > 0 { // else the token was inserted
			orig += work[p:q]
		}
		p = q
	}
	s.Orig = ints(orig + randomText(r, alpha, r.Intn(4)))
	return s
}
