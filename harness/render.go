package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

const (
	lvChoice = iota
	lvSeq
	lvUnit
	lvPrimary
)

func (g *Gram) quoteStr(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for i, c := range []rune(s) {
		if c == '\\' || c == '\'' || c != utf8.RuneError && g.dice(i, 8) == 1 {
			b.WriteByte('\\')
		}
		if c == utf8.RuneError {
			return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(s) + "'"
		}
		b.WriteRune(c)
	}
	b.WriteByte('\'')
	return b.String()
}

// dice decides about the formatting in place n; 0 when it is plain.
func (g *Gram) dice(n, sides int) int {
	if g.Fmt == 0 {
		return 0
	}
	h := uint64(g.Fmt)*0x9E3779B97F4A7C15 + uint64(n)*0xBF58476D1CE4E5B9
	h ^= h >> 29
	h *= 0x94D049BB133111EB
	h ^= h >> 32
	return int(h % uint64(sides))
}

// gap is white space that means nothing; at least min.
func (g *Gram) gap(n int, min string) string {
	return []string{min, min, min + "\n", " " + min, min + " \n ", "\n\n" + min}[g.dice(n, 6)]
}

func (g *Gram) pipes(n int) string {
	return []string{"", "", "", "|", g.gap(n, "") + "|", "||" + g.gap(n, " ") + "|"}[g.dice(n, 6)]
}

// render writes node n of g as joeson rule text in a place that accepts
// elements of the given level (precedence).
func (g *Gram) render(n int, level int) string {
	nd := &g.Nodes[n-1]
	s, lv := g.bare(n)
	for i := 0; i < nd.Par; i++ {
		s, lv = g.parens(n, s), lvPrimary
	}
	if nd.L != "" {
		if lv < lvUnit {
			s = g.parens(n+1000, s)
		}
		s, lv = nd.L+":"+s, lvUnit
	}
	if lv < level {
		s = g.parens(n+1000, s)
	}
	if level == lvChoice {
		s = g.gap(7*n, "") + s + g.gap(7*n+1, "")
	}
	return s
}

func (g *Gram) parens(n int, s string) string {
	return "(" + g.gap(13*n, "") + s + g.gap(13*n+1, "") + ")"
}

func (g *Gram) bare(n int) (string, int) {
	nd := &g.Nodes[n-1]
	switch nd.T {
	case "choice":
		var a []string
		for _, k := range nd.K {
			a = append(a, g.render(k, lvSeq))
		}
		s := a[0]
		for i, x := range a[1:] {
			s += g.gap(64*n+i, " ") + "|" + g.gap(64*n+i+32, " ") + x
		}
		if len(a) > 1 {
			s = g.pipes(7*n+2) + s + g.pipes(7*n+3)
		}
		return s, lvChoice
	case "seq":
		var a []string
		for _, k := range nd.K {
			a = append(a, g.render(k, lvUnit))
		}
		s := a[0]
		for i, x := range a[1:] {
			s += g.gap(64*n+i, " ") + x
		}
		return s, lvSeq
	case "opt":
		return g.render(nd.K[0], lvPrimary) + "?", lvUnit
	case "not":
		return "!" + g.render(nd.K[0], lvPrimary), lvUnit
	case "look":
		return "(?" + g.render(nd.K[0], lvChoice) + ")", lvUnit
	case "pat":
		s := g.render(nd.K[0], lvPrimary)
		join := ""
		if nd.J != 0 {
			join = g.render(nd.J, lvPrimary)
		}
		rng := "{" + g.gap(7*n+4, "")
		if nd.Mn >= 0 {
			rng += strconv.Itoa(nd.Mn)
		}
		rng += g.gap(7*n+5, "") + ","
		if nd.Mx >= 0 {
			rng += strconv.Itoa(nd.Mx)
		}
		rng += g.gap(7*n+6, "") + "}"
		switch nd.Txt {
		case "+":
			return s + "+" + join, lvUnit
		case "*":
			return s + "*" + join, lvUnit
		case "*{":
			return s + "*" + join + rng, lvUnit
		case "{":
			return s + rng, lvUnit
		}
		panic("pat txt " + nd.Txt)
	case "str":
		return g.quoteStr(bytesOf(nd.S)), lvPrimary
	case "cls", "gone":
		return nd.Txt, lvPrimary
	case "rx":
		return "/" + nd.Txt + "/", lvPrimary
	case "ref":
		return g.Nodes[nd.Ref-1].R, lvPrimary
	}
	panic("render " + nd.T)
}

// describe lists the lines of a grammar for humans.
func (g *Gram) describe(rank int, indent string) []string {
	nd := &g.Nodes[rank-1]
	var a []string
	one := func(kind string, n int) {
		r := &g.Nodes[n-1]
		opts := ""
		if r.Cb != "" {
			opts += " -> " + r.Cb
		}
		if r.Sk {
			opts += " SkipCache"
		}
		name := ""
		if r.Named {
			name = r.R + ": "
		}
		if r.T == "rank" {
			a = append(a, fmt.Sprintf("%s%s %s[%s", indent, kind, name, opts))
			a = append(a, g.describe(n, indent+"  ")...)
			a = append(a, indent+"]")
		} else {
			a = append(a, fmt.Sprintf("%s%s %s%s%s", indent, kind, name, g.render(n, lvChoice), opts))
		}
	}
	if nd.IFst {
		for _, n := range nd.IR {
			one("i", n)
		}
	}
	for _, n := range nd.K {
		one("o", n)
	}
	if !nd.IFst {
		for _, n := range nd.IR {
			one("i", n)
		}
	}
	return a
}
