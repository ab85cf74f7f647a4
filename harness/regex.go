package main

import (
	"fmt"
	"math/rand"
	"unicode"
	"unicode/utf8"
)

func validOf(alpha []string) []string {
	var a []string
	for _, s := range alpha {
		if utf8.ValidString(s) {
			a = append(a, s)
		}
	}
	return a
}

// rxSource writes a regular expression.
func rxSource(items []RxItem) string {
	s := ""
	for _, it := range items {
		switch {
		case it.Z == "b" || it.Z == "B":
			s += "\\" + it.Z
			continue
		case it.Z == "m^" || it.Z == "m$":
			s += "(?m:" + it.Z[1:] + ")"
			continue
		case it.Z != "":
			s += it.Z
			continue
		case len(it.A) > 0:
			s += "(?:"
			for i, a := range it.A {
				if i > 0 {
					s += "|"
				}
				s += rxSource(a)
			}
			s += ")"
		default:
			s += "["
			if it.Neg {
				s += "^"
			}
			for _, x := range it.Set {
				s += fmt.Sprintf(`\x{%x}-\x{%x}`, x[0], x[1])
			}
			s += "]"
		}
		s += quantifier(it)
	}
	return s
}

func quantifier(it RxItem) string {
	s := ""
	switch {
	case it.Mn == 0 && it.Mx < 0:
		s = "*"
	case it.Mn == 1 && it.Mx < 0:
		s = "+"
	case it.Mn == 0 && it.Mx == 1:
		s = "?"
	case it.Mn == 1 && it.Mx == 1:
		return ""
	case it.Mx < 0:
		s = fmt.Sprintf("{%d,}", it.Mn)
	case it.Mx == it.Mn:
		s = fmt.Sprintf("{%d}", it.Mn)
	default:
		s = fmt.Sprintf("{%d,%d}", it.Mn, it.Mx)
	}
	if it.Lz {
		s += "?"
	}
	return s
}

func rxNull(rx []RxItem) bool {
	for _, it := range rx {
		ok := it.Z != "" || it.Mn == 0
		for _, a := range it.A {
			ok = ok || rxNull(a)
		}
		if !ok {
			return false
		}
	}
	return true
}

// randomRx makes up a regular expression and a way to write it.
func randomRx(r *rand.Rand, alpha []string) ([]RxItem, string) {
	if r.Intn(4) == 0 { // greedy runs of disjoint classes, so that no backtracking matters
		x := &rxGen{r: r, alpha: alpha}
		i := r.Intn(len(alpha))
		rx, src := []RxItem{}, ""
		for k := 0; k < 2 && (k == 0 || len(alpha) > 1 && r.Intn(2) == 0); k++ {
			c := int(runes(alpha[(i+k)%len(alpha)])[0])
			it := RxItem{Set: [][]int{{c, c}}, A: [][]RxItem{}}
			q := [][2]int{{0, -1}, {1, -1}, {0, 1}, {1, 1}}[r.Intn(4)]
			it.Mn, it.Mx = q[0], q[1]
			rx, src = append(rx, it), src+"["+x.char(rune(c))+"]"+quantifier(it)
		}
		return rx, src
	}
	x := &rxGen{r: r, alpha: alpha, fold: r.Intn(10) == 0, bt: true}
	x.dotall = r.Intn(8) == 0
	rx, src := x.either(2)
	if x.dotall {
		src = "(?s)" + src
	}
	if x.fold {
		src = "(?i)" + src
	}
	return rx, src
}

type rxGen struct {
	r                *rand.Rand
	alpha            []string
	fold, dotall, bt bool
}

// char writes a character, in a class or out of it.
func (x *rxGen) char(c rune) string {
	switch c {
	case '\n':
		return `\n`
	case '\t':
		return `\t`
	case '/':
		return `\x2f`
	case ' ', '\'', '"', ',', ':', '#', '&', '@', '<', '>', '~', '=', '!', '%', ';', '_':
		return string(c)
	}
	if c < 128 && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
		return `\` + string(c)
	}
	if x.r.Intn(12) == 0 {
		return fmt.Sprintf(`\x{%x}`, c)
	}
	return string(c)
}

// folded adds what differs by case only.
func (x *rxGen) folded(set [][]int) [][]int {
	if !x.fold {
		return set
	}
	out := append([][]int{}, set...)
	for _, s := range set {
		for c := s[0]; c <= s[1] && c <= s[0]+300; c++ {
			for f := unicode.SimpleFold(rune(c)); f != rune(c); f = unicode.SimpleFold(f) {
				out = append(out, []int{int(f), int(f)})
			}
		}
	}
	return out
}

func (x *rxGen) symbol() rune { return runes(x.alpha[x.r.Intn(len(x.alpha))])[0] }

// atom is a class of characters.
func (x *rxGen) atom() (RxItem, string) {
	it := RxItem{A: [][]RxItem{}, Mn: 1, Mx: 1, Bt: x.bt}
	switch x.r.Intn(10) {
	case 0:
		it.Set, it.Neg = [][]int{{10, 10}}, true
		if x.dotall {
			it.Set, it.Neg = [][]int{{0, 0x10ffff}}, false
		}
		return it, "."
	case 1:
		k := x.r.Intn(6)
		it.Neg = k%2 == 1
		it.Set = x.folded([][][]int{{{48, 57}}, {{48, 57}, {65, 90}, {95, 95}, {97, 122}}, {{9, 10}, {12, 13}, {32, 32}}}[k/2])
		return it, []string{`\d`, `\D`, `\w`, `\W`, `\s`, `\S`}[k]
	case 2, 3, 4: // a class
		src := ""
		for k := 1 + x.r.Intn(2); k > 0; k-- {
			a, b := x.symbol(), x.symbol()
			if x.r.Intn(4) > 0 || b-a > 300 {
				b = a
			}
			if a > b {
				a, b = b, a
			}
			if b-a > 300 {
				a = b
			}
			it.Set = append(it.Set, []int{int(a), int(b)})
			src += x.char(a)
			if a < b {
				src += "-" + x.char(b)
			}
		}
		it.Set = x.folded(it.Set)
		if it.Neg = x.r.Intn(3) == 0; it.Neg {
			return it, "[^" + src + "]"
		}
		return it, "[" + src + "]"
	}
	c := x.symbol()
	it.Set = x.folded([][]int{{int(c), int(c)}})
	return it, x.char(c)
}

func (x *rxGen) item(depth int) (RxItem, string) {
	if x.r.Intn(9) == 0 {
		k := x.r.Intn(8)
		return RxItem{Set: [][]int{}, A: [][]RxItem{}, Z: []string{"^", "$", "b", "b", "B", "m^", "m$", "$"}[k], Bt: true},
			[]string{"^", "$", `\b`, `\b`, `\B`, "(?m:^)", "(?m:$)", `\z`}[k]
	}
	it, src := x.atom()
	null := false
	if depth > 0 && x.r.Intn(3) == 0 {
		it = RxItem{Set: [][]int{}, A: [][]RxItem{}, Mn: 1, Mx: 1, Bt: true}
		inner, text := x.either(depth - 1)
		if len(inner) == 1 && len(inner[0].A) > 0 && inner[0].Mn == 1 && inner[0].Mx == 1 {
			it.A = inner[0].A // the very choice
		} else {
			it.A = append(it.A, inner)
		}
		null = rxNull(inner)
		src = "(" + []string{"", "?:"}[x.r.Intn(2)] + text + ")"
	}
	if x.r.Intn(2) == 0 {
		q := [][2]int{{0, -1}, {1, -1}, {0, 1}, {0, 1}, {2, 2}, {1, 2}, {0, 2}, {2, -1}, {2, 3}}[x.r.Intn(9)]
		if q[1] < 0 && null { // what repeating nothing comes to is not specified
			q = [2]int{0, 1}
		}
		it.Mn, it.Mx = q[0], q[1]
		it.Lz = x.r.Intn(3) == 0
	}
	return it, src + quantifier(it)
}

func (x *rxGen) sequence(depth int) ([]RxItem, string) {
	rx, src := []RxItem{}, ""
	for k := 1 + x.r.Intn(3); k > 0; k-- {
		it, s := x.item(depth)
		rx, src = append(rx, it), src+s
	}
	return rx, src
}

// either is a choice of sequences, mostly just one.
func (x *rxGen) either(depth int) ([]RxItem, string) {
	n := []int{1, 1, 2, 3}[x.r.Intn(4)]
	if n == 1 {
		return x.sequence(depth)
	}
	it := RxItem{Set: [][]int{}, A: [][]RxItem{}, Mn: 1, Mx: 1, Bt: true}
	src := ""
	for i := 0; i < n; i++ {
		rx, s := x.sequence(depth)
		if i > 0 {
			src += "|"
		}
		if i == n-1 && x.r.Intn(8) == 0 {
			rx, s = []RxItem{}, ""
		}
		it.A = append(it.A, rx)
		src += s
	}
	return []RxItem{it}, src
}

// deriveRx writes a text that may well match.
func deriveRx(r *rand.Rand, rx []RxItem, alpha []string) string {
	s := ""
	for _, it := range rx {
		if it.Z != "" {
			continue
		}
		k := it.Mn
		if it.Mx < 0 || it.Mx > it.Mn {
			k += r.Intn(2)
		}
		for ; k > 0; k-- {
			if len(it.A) > 0 {
				s += deriveRx(r, it.A[r.Intn(len(it.A))], alpha)
			} else {
				s += pickIn(r, it.Set, it.Neg, alpha)
			}
		}
	}
	return s
}
