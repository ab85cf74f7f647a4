package main

import "fmt"

// Left-recursive grammars of the kinds people write.

func str(s string) *gn             { return &gn{t: "str", str: s, mn: -1, mx: -1} }
func seqOf(k ...*gn) *gn           { return &gn{t: "seq", k: k, mn: -1, mx: -1} }
func refTo(r *grule) *gn           { return &gn{t: "ref", ref: r, mn: -1, mx: -1} }
func labelled(l string, n *gn) *gn { n.label = l; return n }
func opt(n *gn) *gn                { return &gn{t: "opt", k: []*gn{n}, mn: -1, mx: -1} }
func star(n *gn) *gn               { return &gn{t: "pat", k: []*gn{n}, txt: "*", mn: -1, mx: -1} }
func plus(n *gn) *gn               { return &gn{t: "pat", k: []*gn{n}, txt: "+", mn: 1, mx: -1} }
func starJoin(n, join *gn) *gn {
	return &gn{t: "pat", k: []*gn{n}, txt: "*", join: join, mn: -1, mx: -1}
}
func not(n *gn) *gn                  { return &gn{t: "not", k: []*gn{n}, mn: -1, mx: -1} }
func rule(name string, b *gn) *grule { return &grule{name: name, named: true, body: b} }
func (g *generator) coin() bool      { return g.chance(0.5) }
func (g *generator) cls(a ...string) *gn {
	return &gn{t: "cls", set: a, txt: g.classText(a, false), mn: -1, mx: -1}
}

// orSeq makes the alternatives of a rule: a choice, or a rank of rules.
func (g *generator) orSeq(r *grule, alts ...*gn) {
	if len(alts) == 1 {
		r.body = alts[0]
	} else if g.chance(0.35) {
		r.rank = true
		for i, a := range alts {
			sub := &grule{name: fmt.Sprintf("%s[%d]", r.name, i), body: a}
			if g.chance(0.4) {
				sub.name, sub.named = fmt.Sprintf("%sv%d", r.name, i), true
			}
			if g.chance(0.5) {
				sub.cb = "wrap"
			}
			r.o = append(r.o, sub)
		}
	} else {
		r.body = &gn{t: "choice", k: alts, mn: -1, mx: -1}
	}
	if g.chance(0.6) {
		r.cb = "wrap"
	}
}

// exprTemplate: levels of left-associative operators over a primary.
func exprTemplate(g *generator) *grule {
	top := &grule{name: "g", rank: true, ifst: g.coin()}
	levels := g.between(1, 3)
	var rs []*grule
	for i := 0; i <= levels; i++ {
		rs = append(rs, &grule{name: string(rune('A' + i)), named: true})
	}
	ws := rule("_", star(str(" ")))
	spaced := g.chance(0.4)
	ops := []string{"+", "*", "-"}
	for i := 0; i < levels; i++ {
		r, next := rs[i], rs[i+1]
		op := str(ops[i])
		if g.chance(0.3) {
			op = g.cls(ops[i], "/")
		}
		lab := g.chance(0.4)
		mk := func(kids ...*gn) *gn {
			var k []*gn
			for j, x := range kids {
				if j > 0 && spaced {
					k = append(k, refTo(ws))
				}
				if lab && x.t == "ref" {
					x.label = string(rune('x' + j))
				}
				k = append(k, x)
			}
			return seqOf(k...)
		}
		alts := []*gn{mk(refTo(r), op, refTo(next))}
		if g.chance(0.2) { // right operand of the same level: ambiguous
			alts = []*gn{mk(refTo(r), op, refTo(r))}
		}
		if g.chance(0.2) {
			alts = append(alts, seqOf(refTo(r), str("!")))
		}
		if g.chance(0.15) { // base first: the recursion never gets a chance
			alts = append([]*gn{refTo(next)}, alts...)
		} else {
			alts = append(alts, refTo(next))
		}
		g.orSeq(r, alts...)
	}
	last := rs[levels]
	num := g.cls("1", "2")
	if g.coin() {
		num = plus(g.cls("1", "2"))
	}
	alts := []*gn{num}
	if g.chance(0.7) {
		alts = append(alts, seqOf(str("("), refTo(rs[g.r.Intn(levels)]), str(")")))
	}
	g.orSeq(last, alts...)
	start := &grule{name: "g[0]", body: refTo(rs[0])}
	if g.chance(0.3) {
		start.body = seqOf(refTo(rs[0]), opt(str(";")))
	}
	top.o = []*grule{start}
	top.i = append(rs, ws)
	if g.coin() {
		g.r.Shuffle(len(rs), func(a, b int) { top.i[a], top.i[b] = top.i[b], top.i[a] })
	}
	return top
}

// memberTemplate: mutual left recursion, as in p.q(p).q, entered at the rule
// that all cycles go through.
func memberTemplate(g *generator) *grule {
	top := &grule{name: "g", rank: true, ifst: g.coin()}
	P := &grule{name: "P", named: true}
	C := &grule{name: "C", named: true}
	M := &grule{name: "M", named: true}
	N := rule("N", g.cls("p", "q"))
	args := starJoin(refTo(P), str(","))
	if g.chance(0.4) {
		args = opt(refTo(P))
	}
	lab := func(l string, n *gn) *gn {
		if g.chance(0.3) {
			n.label = l
		}
		return n
	}
	g.orSeq(C, seqOf(lab("x", refTo(P)), str("("), lab("y", args), str(")")))
	g.orSeq(M, seqOf(lab("x", refTo(P)), str("."), lab("y", refTo(N))))
	alts := []*gn{refTo(C), refTo(M)}
	if g.coin() {
		alts[0], alts[1] = alts[1], alts[0]
	}
	if g.chance(0.2) {
		alts = alts[:1]
	}
	g.orSeq(P, append(alts, refTo(N))...)
	start := &grule{name: "g[0]", body: refTo(P)}
	if g.p.Retry { // rules of the cycles are tried again at the same place
		ends := []string{";", "!", "."}
		var alts []*gn
		for n := g.between(2, 4); len(alts) < n; {
			a := seqOf(refTo([]*grule{P, C, M}[g.r.Intn(3)]), str(ends[g.r.Intn(3)]))
			switch g.r.Intn(8) {
			case 0:
				a = a.k[0]
			case 1:
				a = seqOf(&gn{t: "look", k: []*gn{refTo([]*grule{P, C, M}[g.r.Intn(3)])}, mn: -1, mx: -1}, a.k[0], a.k[1])
			case 2:
				a = seqOf(not(a), refTo([]*grule{P, C, M}[g.r.Intn(3)]), opt(str("!")))
			}
			alts = append(alts, a)
		}
		start.body = &gn{t: "choice", k: alts, mn: -1, mx: -1}
	} else if g.chance(0.3) { // an operator on top of it
		E := &grule{name: "E", named: true}
		g.orSeq(E, seqOf(refTo(E), str(","), refTo(P)), refTo(P))
		start.body = refTo(E)
		top.i = append(top.i, E)
	}
	top.o = []*grule{start}
	top.i = append(top.i, P, C, M, N)
	g.r.Shuffle(len(top.i), func(a, b int) { top.i[a], top.i[b] = top.i[b], top.i[a] })
	return top
}

// entryTemplate: the same, entered at another rule of the cycles. There are
// four such grammars and their texts are fixed, see entryInputs.
func entryTemplate(g *generator) *grule {
	top := &grule{name: "g", rank: true}
	P, C, M := rule("P", nil), rule("C", nil), rule("M", nil)
	N := rule("N", g.cls("p", "q"))
	C.body = seqOf(refTo(P), str("("), starJoin(refTo(P), str(",")), str(")"))
	M.body = seqOf(refTo(P), str("."), refTo(N))
	alts := []*gn{refTo(C), refTo(M)}
	if g.id%2 == 0 {
		alts[0], alts[1] = alts[1], alts[0]
	}
	P.body = &gn{t: "choice", k: append(alts, refTo(N)), mn: -1, mx: -1}
	start := &grule{name: "g[0]", body: refTo(M)}
	if g.id > 2 {
		start.body = refTo(C)
	}
	top.o = []*grule{start}
	top.i = []*grule{P, C, M, N}
	return top
}

func entryInputs() (in []*Input) {
	tails := []string{"", ".p", "()", "(q)"}
	for _, a := range tails {
		for _, b := range tails {
			for _, c := range tails {
				if (a == "" && b != "") || (b == "" && c != "") {
					continue
				}
				in = append(in, &Input{In: ints("p" + a + b + c), Out: []any{}, Log: []any{}})
			}
		}
	}
	return
}
