package main

import (
	"encoding/json"
	"math/rand"
	"sync"

	j "github.com/grepsuzette/joeson"
)

// Tokenizing Go code.

type goLexOp struct {
	O      string   `json:"o"`
	Err    bool     `json:"err"`
	Msg    string   `json:"msg"`
	Work   []int    `json:"work"`
	Code   []int    `json:"code"`
	Places [][2]int `json:"places"` // line and column of each position
}

type goLexCase struct {
	ID  int        `json:"id"`
	Src []int      `json:"src"`
	Txt string     `json:"txt"`
	All [][]int    `json:"all,omitempty"` // tokenized at the same time
	Ops []*goLexOp `json:"ops"`
}

func init() {
	handlers["golex"] = func(b []byte) []byte {
		var c goLexCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		op := &goLexOp{O: "golex", Work: []int{}, Code: []int{}, Places: [][2]int{}}
		c.Ops = []*goLexOp{op}
		var over sync.WaitGroup
		start := make(chan bool)
		for _, src := range c.All {
			src := bytesOf(src)
			over.Add(1)
			go func() {
				defer over.Done()
				<-start
				guard(func() []any {
					if ts, err := j.TokenStreamFromGoCode(src); err == nil {
						ts.PosToLine(len(ts.PeekRunes(1<<20)) / 2)
					}
					return nil
				})
			}()
		}
		close(start)
		defer over.Wait()
		if r := guard(func() []any {
			ts, err := j.TokenStreamFromGoCode(bytesOf(c.Src))
			if err != nil {
				op.Err, op.Msg = true, err.Error()
				if ts != nil {
					op.Code = ints("stream despite the error")
				}
				return nil
			}
			work := ts.PeekRunes(1 << 20)
			op.Work, op.Code = ints(work), ints(ts.Code())
			for p := 0; p <= len(work); p++ {
				op.Places = append(op.Places, [2]int{ts.PosToLine(p), ts.PosToCol(p)})
			}
			return nil
		}); r != nil {
			op.Msg = r[1].(string)
		}
		return mustJSON(c)
	}
	histories["golex"] = func(r *rand.Rand, id int) (string, any) { return "golex", randomGo(r, id) }
	histories["golexpar"] = func(r *rand.Rand, id int) (string, any) {
		c := randomGo(r, id)
		for i := 0; i < 6; i++ {
			c.All = append(c.All, randomGo(r, id).Src)
		}
		return "golex", c
	}
}

var goWords = []string{"a", "f", "goo", "return", "continue", "func", "var", "go", "é", "αβ", "k9", "世", "e", "i", "x_", "if", "range", "type", "fallthrough", "E2", "else"}
var goOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "=", "!", "(", ")", "[", "]", "{", "}", ",", ";", ".", ":",
	"<<", ">>", "&^", "+=", "&&", "||", "<-", "++", "--", "==", "!=", "<=", ":=", "<<=", "&^=", "...", "~", "|=", ">>="}
var goLits = []string{"1", "42", "3.14", ".5", "7.", `"s"`, `"a b"`, `"\""`, `""`, "`r`", "`a\nb`", "'c'", `'\''`, "'é'", `"世"`, `'\n'`,
	"0x1F", "1e9", "2i", "1_000", "1E-3", "6.02e+23", `"\x41\u00e9"`, `'\101'`, `'\U0001F600'`, `"\a\v"`}
var goBad = []string{"@", `"u`, "'", "`", "/*", "$", "?", `\`, "''", "'ab'", "\xff", `"\q"`, "#", `"\x4"`, `'\u12'`, "0x", "1__0", "1e", "\x00"}
var goGaps = []string{"", "", "", " ", " ", "\n", "\n\n", "\t", "\r\n", "  \r\n\t", " // c\n", "// c\r\n", "/* c */", "/* c\n d */", " /**/ ", "//\n"}

func randomGo(r *rand.Rand, id int) *goLexCase {
	s := ""
	pick := func(a []string) string { return a[r.Intn(len(a))] }
	bad := r.Intn(5) == 0
	dots := 0
	for n := r.Intn(12); n > 0; n-- {
		t := ""
		switch k := r.Intn(10); {
		case k < 4:
			t = pick(goWords)
		case k < 8:
			t = pick(goOps)
		default:
			t = pick(goLits)
		}
		if t == "." { // three single dots in a row are no Go, whatever is between them
			dots++
			if dots > 1 {
				continue
			}
		} else {
			dots = 0
		}
		if bad && r.Intn(6) == 0 {
			t = pick(goBad)
		}
		s += t + pick(goGaps)
	}
	return &goLexCase{ID: id, Src: ints(s), Txt: s, Ops: []*goLexOp{}}
}
