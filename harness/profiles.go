package main

import "math/rand"

var baseW = map[string]int{"str": 6, "cls": 4, "ref": 7, "seq": 5, "choice": 4, "opt": 2, "pat": 3, "not": 1, "look": 1, "rx": 1}

func profile(kind string, r *rand.Rand) *Profile {
	p := &Profile{
		Alpha: []string{"a", "b", "c"}, Rules: [2]int{1, 4}, Depth: 3, W: baseW,
		TopO: [2]int{1, 2}, LR: "no", MaxIn: 8, NIn: 6, Rank: 0.15,
		Cbs: []string{"wrap"}, Under: 0.1, Labels: labels,
	}
	switch r.Intn(8) {
	case 0:
		p.Alpha = []string{"a", "b"}
	case 3:
		p.Alpha = []string{"a", "A", "B", "b"}
	case 4:
		p.Alpha = []string{"a", "𝄞", "\t", "\r", "\x00", "\u2028", "\ufeff"}
	case 1:
		p.Alpha = []string{"a", "α", "世", "\n", "\xff", "'"}
	case 2:
		p.Alpha = []string{"x", "]", "\\", "-", "^", " "}
	}
	p.Stretch = 0.05
	switch kind {
	case "core": // matching and result shapes, no labels
		p.Cb, p.Sig1 = 0.1, true
	case "regex":
		p.Alpha = [][]string{{"a", "b", " "}, {"a", "B", "k", "1"}, {"a", "é", "\n"}, {"a", "_", "\n", "\xff"}, {"x", "]", "\\", "-", "^", "/"}}[r.Intn(5)]
		p.Rules, p.NIn, p.MaxIn = [2]int{0, 2}, 10, 9
		p.W = map[string]int{"str": 2, "cls": 1, "ref": 3, "seq": 6, "choice": 3, "opt": 2, "pat": 2, "not": 1, "look": 1, "rx": 14}
	case "shape":
		p.Label, p.Merge, p.Under = 0.4, 0.2, 0.15
		p.Cb, p.Sig1 = 0.2, true
		p.Cbs = []string{"wrap", "wrap", "id", "undef"}
		p.W = map[string]int{"str": 5, "cls": 6, "ref": 8, "seq": 7, "choice": 3, "opt": 4, "pat": 3, "not": 1, "look": 1, "rx": 1}
	case "merge": // few labels, merged into each other
		p.Label, p.Merge, p.Labels = 0.8, 0.45, labels[:2+r.Intn(2)]
		p.Cb, p.Sig1, p.Cbs = 0.35, true, []string{"wrap", "undef", "undef", "id"}
		p.W = map[string]int{"str": 6, "cls": 4, "ref": 6, "seq": 9, "choice": 3, "opt": 6, "pat": 2, "not": 1, "look": 1}
	case "format", "again": // all of the rule language
		p.Fmt, p.Label, p.Merge, p.Cb, p.Paren = true, 0.3, 0.1, 0.1, 0.2
		p.W = map[string]int{"str": 6, "cls": 4, "ref": 6, "seq": 6, "choice": 6, "opt": 2, "pat": 4, "not": 2, "look": 2, "rx": 1}
		if kind == "again" {
			p.Gen, p.LR, p.Skip = 1+r.Intn(3), []string{"no", "no", "direct"}[r.Intn(3)], 0.1
			if p.LR != "no" {
				p.Under = 0
			}
		}
	case "layout": // ranks in ranks, i rules anywhere
		p.Comp = 0.2
		p.Rank, p.Rules, p.Depth, p.Label, p.Merge, p.Cb, p.LR = 0.5, [2]int{1, 5}, 2, 0.25, 0.1, 0.15, "maybe"
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 7, "choice": 6, "opt": 3, "pat": 2, "not": 1, "look": 1, "rx": 1}
	case "rep":
		p.Rules = [2]int{0, 2}
		p.W = map[string]int{"str": 5, "cls": 5, "ref": 2, "seq": 3, "choice": 2, "opt": 3, "pat": 12, "not": 1, "look": 1, "rx": 1}
		p.NIn, p.MaxIn = 10, 9
	case "back": // backtracking, lookahead, negation
		p.W = map[string]int{"str": 6, "cls": 3, "ref": 6, "seq": 7, "choice": 6, "opt": 3, "pat": 2, "not": 5, "look": 5, "rx": 1}
		p.Label, p.Merge, p.Cb = 0.15, 0.3, 0.15
	case "memo":
		p.W = map[string]int{"str": 6, "cls": 2, "ref": 14, "seq": 6, "choice": 6, "opt": 1, "pat": 2, "not": 1, "look": 1, "rx": 1}
		p.Comp = 0.1
		p.Rules, p.Depth, p.Probe, p.Cb = [2]int{2, 4}, 2, true, 0.4
		if r.Intn(2) == 0 {
			p.Skip = 0.25
		}
		p.Cbs = []string{"wrap", "id", "nilodd", "str"}
	case "cb":
		p.Comp = 0.2
		p.Cb, p.Rank = 0.75, 0.3
		p.Cbs = []string{"wrap", "wrap", "id", "str", "int", "undef", "nil", "nilodd", "nileven", "nilundef", "err", "panic2"}
		p.Label = 0.15
	case "skip":
		p.Comp = 0.2
		p.Skip, p.Cb = 0.5, 0.3
		p.W = map[string]int{"str": 6, "cls": 2, "ref": 14, "seq": 6, "choice": 6, "opt": 2, "pat": 3, "not": 1, "look": 1, "rx": 1}
		p.Rules = [2]int{2, 4}
		p.Label = 0.15
		p.Cbs = []string{"wrap", "id", "nilodd", "str"}
	case "lines": // texts of several lines, error positions
		p.Alpha = []string{"a", "b", "\n", "世"}
		p.MaxIn, p.NIn, p.Cb = 14, 8, 0.1
		p.Rules, p.Skip = [2]int{2, 4}, 0.1
	case "tokens":
		p.Alpha = []string{"a", "b", "\n", "世", " "}
		p.MaxIn, p.NIn, p.Cb, p.Label = 14, 8, 0.2, 0.1
		p.Rules, p.Skip, p.Tokens = [2]int{1, 4}, 0.1, true
	case "trace":
		p.Comp = 0.1
		p.LR, p.Under, p.Trace, p.Debug = "maybe", 0, true, 0
		if r.Intn(3) == 0 {
			p.Debug = 0.4
		}
		p.Rules, p.Depth, p.Cb = [2]int{1, 4}, 2, 0.3
		p.Alpha = [][]string{{"a", "b", "\n"}, {"a", "世", "\xff", "\n"}, {"a", "b", "c"}}[r.Intn(3)]
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 7, "choice": 8, "opt": 2, "pat": 2, "not": 1, "look": 1, "rx": 1}
		p.Cbs, p.Label = []string{"wrap", "wrap", "nilodd", "id", "panic2"}, 0.1
		p.Tokens = r.Intn(4) == 0
		if r.Intn(2) == 0 {
			p.LR, p.Skip = "no", 0.2
		}
	case "origin":
		p.LR, p.NIn, p.Cb, p.Label = "maybe", 8, 1, 0.15
		p.Cbs = []string{"span", "span", "span", "span", "span", "str", "nilodd"}
		p.Alpha = [][]string{{"a", "b", "\n"}, {"a", "世", "\n"}, {"a", "b", "c"}}[r.Intn(3)]
		p.Rules, p.Rank, p.Skip, p.MaxIn = [2]int{1, 4}, 0.2, 0.1, 10
		p.W = map[string]int{"str": 7, "cls": 4, "ref": 14, "seq": 7, "choice": 7, "opt": 3, "pat": 3, "not": 1, "look": 1, "rx": 1}
		p.Tokens = r.Intn(4) == 0
	case "weave", "parallel": // many calls, in which other parses go on
		p.LR, p.Cb, p.NIn, p.Label, p.Skip = "maybe", 0.6, 8, 0.1, 0.1
		p.Cbs = []string{"wrap", "wrap", "wrap", "nilodd", "id", "str", "panic2", "err"}
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 7, "choice": 8, "opt": 2, "pat": 2, "not": 1, "look": 1, "rx": 1}
		p.Tokens = r.Intn(4) == 0
		if r.Intn(2) == 0 {
			p.Cb, p.Cbs = 1, []string{"span", "span", "span", "nilodd"}
		}
		if kind == "parallel" && r.Intn(5) == 0 {
			p.Gen = 1 + r.Intn(2)
		}
	case "gone": // references to rules that do not exist
		p.LR, p.Depth, p.Cb, p.Label, p.Skip, p.Under = "maybe", 2, 0.4, 0.15, 0.1, 0
		p.Cbs = []string{"wrap", "wrap", "nilodd", "id", "panic2"}
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 8, "choice": 9, "opt": 3, "pat": 2, "not": 1, "look": 1, "rx": 1, "gone": 3}
		p.Tokens = r.Intn(5) == 0
	case "session":
		p.LR, p.Depth, p.NIn, p.MaxIn = "maybe", 2, 3, 6
		p.Cb, p.Cbs = 0.6, []string{"nest", "nest", "nest", "wrap", "nilodd", "panic2", "err"}
		p.Rules, p.Skip, p.Label = [2]int{1, 3}, 0.1, 0.1
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 7, "choice": 8, "opt": 2, "pat": 2, "not": 1, "look": 1, "rx": 1}
		if r.Intn(4) == 0 {
			p.Debug = 0.3
		}
	case "lrd":
		p.LR, p.Rank, p.Under = "direct", 0.1, 0
		p.Rules, p.Depth, p.Cb = [2]int{1, 3}, 2, 0.3
		p.Cbs = []string{"wrap", "wrap", "id"}
		p.Label, p.Merge = 0.1, 0
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 7, "choice": 8, "opt": 1, "pat": 1, "not": 1, "look": 1, "rx": 1}
	case "expr":
		p.LR, p.Template, p.MaxIn, p.NIn = "direct", exprTemplate, 16, 8
		p.Alpha = []string{"1", "+", "*", "(", ")", " "}
	case "entry":
		p.LR, p.Template, p.Stretch = "must", entryTemplate, 0
		p.Alpha = []string{"p", "q", ".", "(", ")", ","}
	case "member":
		p.LR, p.Template, p.MaxIn, p.NIn = "must", memberTemplate, 12, 8
		p.Alpha = []string{"p", "q", ".", "(", ")", ","}
	case "retry":
		p.LR, p.Template, p.Retry, p.MaxIn, p.NIn = "must", memberTemplate, true, 12, 10
		p.Alpha = []string{"p", "q", ".", "(", ")", ",", ";", "!"}
	case "lr":
		p.LR, p.Rank, p.Under = "must", 0.1, 0
		p.Rules, p.Depth, p.Cb = [2]int{1, 4}, 2, 0.3
		p.Cbs = []string{"wrap", "wrap", "nilodd", "id"}
		p.W = map[string]int{"str": 8, "cls": 3, "ref": 14, "seq": 7, "choice": 8, "opt": 1, "pat": 1, "not": 1, "look": 1, "rx": 1}
	}
	return p
}
