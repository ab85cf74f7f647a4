package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"
)

// Making grammars and texts larger: rules that stand between the others (so
// that numbers of rules are large and far apart), references through chains of
// rules, and texts in which a part is repeated many times.

func (g *generator) pad(top *grule) {
	n := []int{10, 40, 70, 140, 270}[g.r.Intn(5)]
	var pads []*grule
	for i := 0; i < n; i++ {
		p := rule(fmt.Sprintf("Z%d", i), nil)
		if g.chance(0.5) {
			p.body = g.class()
		} else {
			p.body = str(g.pick(g.valid()) + g.pick(g.valid()))
		}
		pads = append(pads, p)
	}
	// as alternatives, where there are several
	for _, c := range g.elements(top, "choice") {
		for g.chance(0.4) {
			at := g.r.Intn(len(c.k) + 1)
			e := refTo(pads[g.r.Intn(n)])
			if g.chance(0.7) {
				e = seqOf(e, str(g.pick(g.valid())))
			}
			c.k = append(c.k[:at:at], append([]*gn{e}, c.k[at:]...)...)
		}
	}
	top.i = append(top.i, pads...)
	g.r.Shuffle(len(top.i), func(a, b int) { top.i[a], top.i[b] = top.i[b], top.i[a] })
}

func (g *generator) chain(top *grule) {
	id := g.p.Cb > 0 && strings.Contains(","+strings.Join(g.p.Cbs, ",")+",", ",id,")
	var all []*grule
	for _, e := range g.elements(top, "ref") {
		if e.label == "@" || e.label == "&" || strings.HasPrefix(e.ref.name, "_") || g.chance(0.6) {
			continue
		}
		to := e.ref
		for k := 1 + g.r.Intn([]int{3, 8, 14}[g.r.Intn(3)]); k > 0; k-- {
			a := rule(fmt.Sprintf("Y%d", len(all)), refTo(to))
			if id && g.chance(0.3) {
				a.cb = "id"
			}
			all = append(all, a)
			to = a
		}
		e.ref = to
	}
	top.i = append(top.i, all...)
	if g.coin() {
		g.r.Shuffle(len(top.i), func(a, b int) { top.i[a], top.i[b] = top.i[b], top.i[a] })
	}
}

// stretch makes a grammar larger.
func (g *generator) stretch(top *grule) {
	g.large = true
	what := g.r.Intn(4)
	if g.p.Cb == 1 {
		what = 1 // every rule builds a value
	} else if g.p.LR == "direct" || g.p.Template != nil {
		what = 1 // the reference semantics take exponential time to grow many rules at once
	}
	if what != 1 {
		g.chain(top)
	}
	if what < 2 {
		g.pad(top)
	}
}

// pump repeats a part of a text.
func (g *generator) pump(s string) string {
	if s == "" {
		return s
	}
	i := g.r.Intn(len(s))
	j := i + 1 + g.r.Intn(len(s)-i)
	k := 2 + g.r.Intn(80/(j-i)+1)
	return s[:i] + strings.Repeat(s[i:j], k) + s[j:]
}

// elements lists those of a type.
func (g *generator) elements(top *grule, t string) (out []*gn) {
	var visit func(e *gn)
	visit = func(e *gn) {
		if e.t == t {
			out = append(out, e)
		}
		for _, k := range e.k {
			visit(k)
		}
		if e.join != nil {
			visit(e.join)
		}
	}
	allRules(top, func(r *grule) {
		if r.body != nil {
			visit(r.body)
		}
	})
	return
}

// cost is about how many elements are tried when the text is parsed without
// remembering anything, up to a limit. Parse functions are not called.
func (g *Gram) cost(text string, limit int) int {
	n := 0
	lr := map[int]bool{}
	for _, e := range g.leftRecursive() {
		lr[e] = true
	}
	seeds := map[[2]int]int{}        // of rules under evaluation
	var body, try func(e, p int) int // where it ends, or -1
	try = func(e, p int) int {
		if !lr[e] {
			return body(e, p)
		}
		at := [2]int{e, p}
		if end, ok := seeds[at]; ok {
			n++
			return end
		}
		best := -1
		for n <= limit {
			seeds[at] = best
			end := body(e, p)
			delete(seeds, at)
			if end <= best {
				break
			}
			best = end
		}
		return best
	}
	body = func(e, p int) int {
		if n++; n > limit {
			return -1
		}
		nd := &g.Nodes[e-1]
		switch nd.T {
		case "str":
			if strings.HasPrefix(text[p:], bytesOf(nd.S)) {
				return p + len(nd.S)
			}
			return -1
		case "cls":
			it := RxItem{Set: nd.Set, Neg: nd.Neg}
			if c, size := utf8.DecodeRuneInString(text[p:]); size > 0 && it.has(c) {
				return p + size
			}
			return -1
		case "rx":
			if nd.re == nil {
				nd.re = regexp.MustCompile("^(?:" + nd.Txt + ")")
			}
			m := nd.re.FindStringIndex(text[p:])
			if m == nil {
				return -1
			}
			return p + m[1]
		case "gone":
			return -1
		case "ref":
			return try(nd.Ref, p)
		case "seq":
			for _, k := range nd.K {
				if p = try(k, p); p < 0 {
					return -1
				}
			}
			return p
		case "choice", "rank":
			for _, k := range nd.K {
				if q := try(k, p); q >= 0 {
					return q
				}
			}
			return -1
		case "opt":
			if q := try(nd.K[0], p); q >= 0 {
				return q
			}
			return p
		case "not":
			if try(nd.K[0], p) >= 0 {
				return -1
			}
			return p
		case "look":
			if try(nd.K[0], p) < 0 {
				return -1
			}
			return p
		case "pat":
			k := 0
			for ; nd.Mx < 0 || k < nd.Mx; k++ {
				q := p
				if k > 0 && nd.J != 0 {
					if q = try(nd.J, p); q < 0 {
						break
					}
				}
				if q = try(nd.K[0], q); q < 0 || q == p && nd.Mx < 0 {
					break
				}
				p = q
			}
			if k < nd.Mn {
				return -1
			}
			return p
		}
		panic("cost")
	}
	try(g.Top, 0)
	return n
}
