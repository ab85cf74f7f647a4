package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Profile says which grammars are generated.
type Profile struct {
	Alpha     []string // symbols of the alphabet
	Rules     [2]int   // number of i rules
	Depth     int
	W         map[string]int // weights of element types
	Label     float64        // chance that an element is labelled
	Merge     float64        // chance of @ and & labels
	Labels    []string
	Cb        float64 // chance that a rule has a parse function
	Cbs       []string
	Skip      float64 // chance that a rule is SkipCache
	Probe     bool    // every rule starts with a probe
	Rank      float64 // chance that a rule is a rank
	TopO      [2]int
	LR        string // "no", "maybe", "must"
	MaxIn     int
	NIn       int
	Under     float64 // chance that a rule name starts with _
	BigMinMax bool
	Paren     float64
	Template  func(g *generator) *grule
	Retry     bool    // rules of a cycle are tried again where they were
	Tokens    bool    // parse token streams
	Trace     bool    // record what is printed
	Debug     float64 // chance that a rule is Debug
	Keep      int     // inputs kept of those tried
	Fmt       bool    // rule texts in random formatting
	Sig1      bool    // parse functions of one argument too
	Stretch   float64 // chance of a large grammar
	Comp      float64 // chance that a rule is given as a parser
	Gen       int     // generation of joeson's grammar that compiles the rules
}

// gn is an element under construction.
type gn struct {
	t      string
	k      []*gn
	label  string
	str    string
	set    []string // cls: the symbols or (two runes) ranges
	neg    bool
	rx     []RxItem
	mn, mx int
	join   *gn
	ref    *grule
	txt    string
	par    int
}
type grule struct {
	name  string
	body  *gn
	rank  bool
	o, i  []*grule // rank
	ifst  bool
	cb    string
	skip  bool
	named bool
	node  int
	dbg   bool
	comp  bool
	mapof bool // its values are merged into others
}

type generator struct {
	r      *rand.Rand
	p      *Profile
	rules  []*grule // referable, in order of creation
	probes int
	id     int  // of the case
	large  bool // grammars and texts are
}

func (g *generator) chance(p float64) bool  { return g.r.Float64() < p }
func (g *generator) between(a, b int) int   { return a + g.r.Intn(b-a+1) }
func (g *generator) pick(a []string) string { return a[g.r.Intn(len(a))] }

func (g *generator) pickW(w map[string]int, except string) string {
	order := []string{"str", "cls", "ref", "seq", "choice", "opt", "pat", "not", "look", "rx", "gone"}
	tot := 0
	for _, k := range order {
		if !strings.Contains(except, k+",") {
			tot += w[k]
		}
	}
	x := g.r.Intn(tot)
	for _, k := range order {
		if strings.Contains(except, k+",") {
			continue
		}
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	panic("pickW")
}

const leafless = "seq,choice,opt,pat,not,look,"

func runes(s string) []rune { return []rune(s) }

func (g *generator) classText(set []string, neg bool) string {
	s := "["
	if neg {
		s += "^"
	}
	one := func(c rune) {
		switch c {
		case ']', '\\', '^', '-', '[':
			s += "\\" + string(c)
		case '\n':
			s += "\\n"
		case '\t':
			s += "\\t"
		default:
			s += string(c)
		}
	}
	for _, c := range set {
		r := runes(c)
		one(r[0])
		if len(r) == 2 {
			s += "-"
			one(r[1])
		}
	}
	return s + "]"
}

func (g *generator) class() *gn {
	var set []string
	v := g.valid()
	for len(set) == 0 {
		for _, a := range v {
			if g.chance(0.45) {
				set = append(set, a)
			}
		}
	}
	if g.chance(0.25) { // a range of code points
		a, b := runes(g.pick(v))[0], runes(g.pick(v))[0]
		if a > b {
			a, b = b, a
		}
		set = append(set, string(a)+string(b))
	}
	neg := g.chance(0.25)
	return &gn{t: "cls", set: set, neg: neg, txt: g.classText(set, neg)}
}

func validRune(s string) bool { return s != "\xff" && s != "\x80" }

func (g *generator) valid() []string {
	var a []string
	for _, s := range g.p.Alpha {
		if validRune(s) {
			a = append(a, s)
		}
	}
	return a
}

// element builds a random element. inSeq: it is directly in a sequence.
func (g *generator) element(depth int, except string) *gn {
	if depth <= 0 {
		except += leafless
	}
	if len(g.rules) == 0 {
		except += "ref,"
	}
	t := g.pickW(g.p.W, except)
	n := &gn{t: t, mn: -1, mx: -1}
	switch t {
	case "str":
		k := 1
		if g.chance(0.25) {
			k = 2
		} else if g.chance(0.04) {
			k = 0
		}
		for ; k > 0; k-- {
			n.str += g.pick(g.valid())
		}
	case "cls":
		n = g.class()
	case "rx":
		n.rx, n.txt = randomRx(g.r, g.valid())
	case "ref":
		n.ref = g.rules[g.r.Intn(len(g.rules))]
	case "gone":
		n.txt = g.pick([]string{"Gone", "Gone.x", "_Gone", "A_", "gone0"})
	case "seq":
		m := g.between(2, 3)
		for i := 0; i < m; i++ {
			e := g.element(depth-1, "")
			g.labelKid(e, depth)
			n.k = append(n.k, e)
		}
	case "choice":
		m := g.between(2, 3)
		for i := 0; i < m; i++ {
			// a lookahead is no alternative: the value it yields is not specified
			e := g.element(depth-1, "look,")
			if g.p.Label > 0 && g.chance(g.p.Label/3) {
				e.label = g.pick(g.p.Labels)
			}
			n.k = append(n.k, e)
		}
	case "opt":
		e := g.element(depth-1, "look,")
		if g.p.Label > 0 && g.chance(g.p.Label/2) {
			e.label = g.pick(g.p.Labels)
		}
		n.k = []*gn{e}
	case "not":
		n.k = []*gn{g.element(depth-1, "look,")}
	case "look":
		n.k = []*gn{g.element(depth-1, "look,")}
	case "pat":
		e := g.element(depth-1, "look,not,")
		if g.p.Label > 0 && g.chance(g.p.Label/3) {
			e.label = g.pick(g.p.Labels)
		}
		n.k = []*gn{e}
		if g.chance(0.4) {
			n.join = g.element(depth-2, "look,")
		}
		lim := 3
		switch g.r.Intn(5) {
		case 0:
			n.txt = "*"
		case 1:
			n.txt, n.mn = "+", 1
		default:
			if (e.t == "str" || e.t == "cls") && g.chance(0.15) {
				lim = 14
			}
			n.txt = "*{"
			if n.join == nil && g.chance(0.5) {
				n.txt = "{"
			}
			if g.chance(0.7) {
				n.mn = g.r.Intn(lim)
			}
			if g.chance(0.7) {
				n.mx = g.r.Intn(lim + 1)
				if n.mx < n.mn && !g.chance(0.1) {
					n.mx = n.mn
				}
			}
		}
	}
	if g.p.Paren > 0 && g.chance(g.p.Paren) {
		n.par = 1 + g.r.Intn(2)
	}
	return n
}

var labels = []string{"x", "y", "z", "x", "y", "z", "min", "A", "_l", "long.label_9"}

func (g *generator) labelKid(e *gn, depth int) {
	if e.t == "look" || g.p.Label == 0 || !g.chance(g.p.Label) {
		return
	}
	if e.t != "gone" && g.chance(g.p.Merge) {
		// wants something that yields a map or nothing
		m := g.mapish(depth)
		*e = *m
		e.label = g.pick([]string{"@", "&"})
		return
	}
	e.label = g.pick(g.p.Labels)
}

// mapish builds an element which yields a map (or undefined).
func (g *generator) mapish(depth int) *gn {
	seq := &gn{t: "seq", mn: -1, mx: -1}
	for i := 0; i < 2; i++ {
		e := g.element(depth-2, "look,")
		if g.p.Merge > 0.4 && e.t != "opt" && g.chance(0.4) { // undefined when it is not there
			e = &gn{t: "opt", k: []*gn{e}, mn: -1, mx: -1}
		}
		if i == 0 || g.chance(0.5) {
			e.label = g.pick(g.p.Labels)
		}
		seq.k = append(seq.k, e)
	}
	if g.chance(0.3) {
		return &gn{t: "opt", k: []*gn{seq}, mn: -1, mx: -1}
	}
	// a rule which yields a map, if there is one
	var c []*grule
	for _, r := range g.rules {
		if r.body != nil && r.cb == "" && r.body.t == "seq" && plainMap(r.body) {
			c = append(c, r)
		}
	}
	if len(c) > 0 && g.chance(0.6) {
		ref := &gn{t: "ref", ref: c[g.r.Intn(len(c))], mn: -1, mx: -1}
		ref.ref.mapof = true
		if g.chance(0.3) {
			return &gn{t: "opt", k: []*gn{ref}, mn: -1, mx: -1}
		}
		return ref
	}
	return seq
}

// plainMap: the sequence certainly yields a map.
func plainMap(n *gn) bool {
	for _, k := range n.k {
		if k.label == "@" || k.label == "&" {
			return false
		}
	}
	for _, k := range n.k {
		if k.label != "" {
			return true
		}
	}
	return false
}

func (g *generator) decorate(r *grule) {
	if g.chance(g.p.Cb) {
		r.cb = g.pick(g.p.Cbs)
		if r.mapof && r.cb != "undef" { // what is merged has to stay a map
			r.cb = ""
		}
	}
	if g.chance(g.p.Skip) {
		r.skip = true
	}
	if g.p.Comp > 0 && g.chance(g.p.Comp) {
		r.comp = true
	}
	if g.p.Debug > 0 && g.chance(g.p.Debug) {
		r.dbg = true
	}
}

func (g *generator) body(r *grule, depth int) {
	if g.p.Rank > 0 && g.chance(g.p.Rank) {
		r.rank = true
		m := g.between(1, 3)
		for i := 0; i < m; i++ {
			sub := &grule{}
			sub.name = r.name + "[" + strconv.Itoa(i) + "]"
			if g.chance(0.5) {
				sub.name = r.name + strconv.Itoa(i)
				sub.named = true
			}
			sub.body = g.ruleBody(depth)
			g.decorate(sub)
			r.o = append(r.o, sub)
			if sub.named && g.p.LR == "no" && g.chance(0.5) {
				g.rules = append(g.rules, sub)
			}
		}
		if g.chance(0.4) {
			sub := &grule{name: r.name + "i", named: true}
			sub.body = g.ruleBody(depth)
			g.decorate(sub)
			r.i = append(r.i, sub)
			g.rules = append(g.rules, sub)
		}
		r.ifst = g.chance(0.5)
		return
	}
	r.body = g.ruleBody(depth)
}

func (g *generator) ruleBody(depth int) *gn {
	e := g.element(depth, "look,")
	if g.p.Label > 0 && g.chance(g.p.Label/4) {
		e.label = g.pick(g.p.Labels)
	}
	if e.t == "rx" || e.t == "ref" || e.t == "str" {
		if g.chance(0.5) && depth > 0 { // rather something with structure
			return g.ruleBody(depth)
		}
	}
	return e
}

func (g *generator) probe(n *gn, top *grule) *gn {
	g.probes++
	p := &grule{name: fmt.Sprintf("_P%d", g.probes), named: true, body: &gn{t: "str", mn: -1, mx: -1}, cb: "probe", skip: true, comp: g.chance(g.p.Comp)}
	top.i = append(top.i, p)
	ref := &gn{t: "ref", ref: p, mn: -1, mx: -1}
	if n.t == "seq" && n.label == "" {
		n.k = append([]*gn{ref}, n.k...)
		return n
	}
	return &gn{t: "seq", k: []*gn{ref, n}, mn: -1, mx: -1}
}

func allRules(r *grule, f func(*grule)) {
	for _, x := range r.o {
		f(x)
		allRules(x, f)
	}
	for _, x := range r.i {
		f(x)
		allRules(x, f)
	}
}

// grammar builds a random grammar.
func (g *generator) grammar() *grule {
	top := &grule{name: "g", rank: true, ifst: g.chance(0.5)}
	k := g.between(g.p.Rules[0], g.p.Rules[1])
	names := "ABCDEFGH"
	// rules may refer to any rule: to later ones too, so all exist beforehand
	var own []*grule
	for i := 0; i < k; i++ {
		r := &grule{name: string(names[i]), named: true}
		if g.chance(g.p.Under) {
			r.name = "_" + r.name
		}
		own = append(own, r)
	}
	g.rules = append([]*grule{}, own...)
	if g.p.LR == "no" && g.chance(0.7) {
		// mostly acyclic: build the last ones first
		g.rules = nil
		for i := k - 1; i >= 0; i-- {
			g.body(own[i], g.p.Depth)
			g.rules = append(g.rules, own[i])
			if g.chance(0.3) { // and then a chance of cycles
				g.rules = append(g.rules, own[g.r.Intn(k)])
			}
		}
	} else {
		for _, r := range own {
			g.body(r, g.p.Depth)
		}
	}
	for _, r := range own {
		g.decorate(r)
		if r.rank {
			r.ifst = g.chance(0.5)
		}
	}
	m := g.between(g.p.TopO[0], g.p.TopO[1])
	for i := 0; i < m; i++ {
		o := &grule{name: "g[" + strconv.Itoa(i) + "]"}
		if g.chance(0.5) {
			o.name, o.named = "O"+strconv.Itoa(i), true
		}
		if o.named {
			g.body(o, g.p.Depth)
		} else { // a rank has to be named
			o.body = g.ruleBody(g.p.Depth)
		}
		g.decorate(o)
		top.o = append(top.o, o)
	}
	g.r.Shuffle(len(own), func(a, b int) { own[a], own[b] = own[b], own[a] })
	top.i = append(top.i, own...)
	if g.p.Probe {
		allRules(top, func(r *grule) {
			if r.body != nil && r.cb != "probe" {
				r.body = g.probe(r.body, top)
			}
		})
	}
	return top
}

// rename gives the rules names of all sorts: parts of each other, differing by
// case only, with dots, digits or underscores.
func (g *generator) rename(top *grule) {
	words := []string{"a", "A", "ab", "AB", "Ab", "abc", "a.b", "list.item", "x1", "A_", "B", "b", "Very_Long.Name_Of_A_Rule_1234567890", "x", "y", "_", "._9", "expr", "Expr", "min", "max"}
	g.r.Shuffle(len(words), func(a, b int) { words[a], words[b] = words[b], words[a] })
	to, n := map[byte]string{}, 0
	name := func(s string) string {
		u := strings.HasPrefix(s, "_")
		t := strings.TrimPrefix(s, "_")
		if t == "" || t[0] < 'A' || t[0] > 'Z' || t[0] == 'P' && u {
			return s
		}
		if to[t[0]] == "" {
			to[t[0]] = words[n%len(words)]
			n++
		}
		w := to[t[0]]
		if u {
			return "_" + w + t[1:]
		}
		if w[0] == '_' {
			w = "N" + w
		}
		return w + t[1:]
	}
	seen, clash := map[string]bool{"Gone": true, "Gone.x": true, "_Gone": true, "A_": true, "gone0": true}, false
	allRules(top, func(r *grule) {
		clash = clash || seen[name(r.name)]
		seen[name(r.name)] = true
	})
	if !clash {
		allRules(top, func(r *grule) { r.name = name(r.name) })
	}
}

// flatten turns it into a node table.
func flatten(top *grule) Gram {
	var g Gram
	newNode := func() int {
		g.Nodes = append(g.Nodes, Node{K: []int{}, S: []int{}, Set: [][]int{}, Rx: []RxItem{}, IR: []int{}, Mn: -1, Mx: -1})
		return len(g.Nodes)
	}
	enc := func(a []string) [][]int {
		x := [][]int{}
		for _, s := range a {
			r := runes(s)
			x = append(x, []int{int(r[0]), int(r[len(r)-1])})
		}
		return x
	}
	type late struct {
		node int
		to   *grule
	}
	var refs []late
	var elem func(e *gn, parent int) int
	elem = func(e *gn, parent int) int {
		n := newNode()
		nd := Node{T: e.t, K: []int{}, L: e.label, S: ints(e.str), Set: enc(e.set), Neg: e.neg, Rx: []RxItem{}, Mn: e.mn, Mx: e.mx, P: parent, Txt: e.txt, Par: e.par, IR: []int{}}
		nd.Rx = append(nd.Rx, e.rx...)
		for _, k := range e.k {
			nd.K = append(nd.K, elem(k, n))
		}
		if e.join != nil {
			nd.J = elem(e.join, n)
		}
		if e.t == "ref" {
			nd.U = strings.HasPrefix(e.ref.name, "_")
			refs = append(refs, late{n, e.ref})
		}
		if e.t == "gone" {
			nd.U = strings.HasPrefix(e.txt, "_")
		}
		g.Nodes[n-1] = nd
		return n
	}
	var rule func(r *grule, parent int) int
	rule = func(r *grule, parent int) int {
		var n int
		if r.rank {
			n = newNode()
			r.node = n
			nd := Node{T: "rank", K: []int{}, S: []int{}, Set: [][]int{}, Rx: []RxItem{}, Mn: -1, Mx: -1, P: parent, IR: []int{}, IFst: r.ifst}
			for _, o := range r.o {
				nd.K = append(nd.K, rule(o, n))
			}
			for _, o := range r.i {
				nd.IR = append(nd.IR, rule(o, n))
			}
			g.Nodes[n-1] = nd
		} else {
			n = elem(r.body, parent)
			r.node = n
		}
		nd := &g.Nodes[n-1]
		if parent != 0 {
			nd.R = r.name
		}
		nd.Cb, nd.Named, nd.Dbg, nd.Comp = r.cb, r.named, r.dbg && !r.rank, r.comp && !r.rank
		nd.Sk = r.skip && !r.rank // options of a rank are not looked at
		return n
	}
	g.Top = rule(top, 0)
	for _, l := range refs {
		g.Nodes[l.node-1].Ref = l.to.node
	}
	return g
}

// nullable tells which nodes may succeed without consuming, and leftReach
// whether some rule may be entered again at the same position (left recursion).
func (g *Gram) nullable() []bool {
	null := make([]bool, len(g.Nodes)+1)
	for changed := true; changed; {
		changed = false
		for i := range g.Nodes {
			n := i + 1
			if null[n] {
				continue
			}
			nd := &g.Nodes[i]
			v := false
			switch nd.T {
			case "str":
				v = len(nd.S) == 0
			case "rx":
				v = rxNull(nd.Rx)
			case "opt", "not", "look":
				v = true
			case "pat":
				v = nd.Mn <= 0 || nd.Mx == 0 || (null[nd.K[0]] && (nd.J == 0 || null[nd.J]))
				v = v || null[nd.K[0]]
			case "seq":
				v = true
				for _, k := range nd.K {
					v = v && null[k]
				}
			case "choice", "rank":
				for _, k := range nd.K {
					v = v || null[k]
				}
			case "ref":
				v = null[nd.Ref]
			}
			if v {
				null[n] = true
				changed = true
			}
		}
	}
	return null
}

func (g *Gram) leftEdges(null []bool) [][]int {
	e := make([][]int, len(g.Nodes)+1)
	for i := range g.Nodes {
		nd := &g.Nodes[i]
		switch nd.T {
		case "seq":
			for _, k := range nd.K {
				e[i+1] = append(e[i+1], k)
				if !null[k] {
					break
				}
			}
		case "pat":
			e[i+1] = append(e[i+1], nd.K[0])
			if nd.J != 0 && null[nd.K[0]] {
				e[i+1] = append(e[i+1], nd.J)
			}
		case "ref":
			e[i+1] = append(e[i+1], nd.Ref)
		default:
			e[i+1] = append(e[i+1], nd.K...)
		}
	}
	return e
}

// leftRecursive lists the rules that can reach themselves without consuming.
func (g *Gram) leftRecursive() []int {
	e := g.leftEdges(g.nullable())
	var out []int
	for i := range g.Nodes {
		if g.Nodes[i].R == "" {
			continue
		}
		seen := make([]bool, len(g.Nodes)+1)
		var visit func(n int) bool
		visit = func(n int) bool {
			for _, m := range e[n] {
				if m == i+1 {
					return true
				}
				if !seen[m] {
					seen[m] = true
					if visit(m) {
						return true
					}
				}
			}
			return false
		}
		if visit(i + 1) {
			out = append(out, i+1)
		}
	}
	return out
}

// mergeUnderOpt: an optional element around @:rule, whose labels depend on
// the order in which rules are prepared.
func (g *Gram) mergeRefUnderOpt(n int, under bool) bool {
	nd := &g.Nodes[n-1]
	if nd.T == "ref" && nd.L == "@" && under {
		return true
	}
	for _, k := range nd.K {
		if g.mergeRefUnderOpt(k, under || nd.T == "opt") {
			return true
		}
	}
	for _, k := range nd.IR {
		if g.mergeRefUnderOpt(k, under) {
			return true
		}
	}
	if nd.J != 0 {
		return g.mergeRefUnderOpt(nd.J, under)
	}
	return false
}

// labelLoop: @:rule cycles, whose labels would be defined by themselves.
func (g *Gram) labelLoop() bool {
	state := make([]int, len(g.Nodes)+1)
	var visit func(n int) bool
	visit = func(n int) bool {
		if state[n] == 1 {
			return true
		}
		if state[n] == 2 {
			return false
		}
		state[n] = 1
		nd := &g.Nodes[n-1]
		bad := false
		switch {
		case nd.T == "seq" || nd.T == "opt":
			for _, k := range nd.K {
				bad = bad || visit(k)
			}
		case nd.T == "ref" && nd.L == "@":
			bad = visit(nd.Ref)
		}
		state[n] = 2
		return bad
	}
	for i := range g.Nodes {
		if visit(i + 1) {
			return true
		}
	}
	return false
}

func (g *Gram) reachable() []bool {
	seen := make([]bool, len(g.Nodes)+1)
	var visit func(n int)
	visit = func(n int) {
		if n == 0 || seen[n] {
			return
		}
		seen[n] = true
		nd := &g.Nodes[n-1]
		for _, k := range nd.K {
			visit(k)
		}
		visit(nd.J)
		visit(nd.Ref)
	}
	visit(g.Top)
	return seen
}

// pickIn picks a symbol of the class.
func pickIn(r *rand.Rand, set [][]int, neg bool, alpha []string) string {
	var ok []string
	for _, a := range alpha {
		c := int(runes(a)[0]) // an invalid byte is U+FFFD
		in := false
		for _, x := range set {
			in = in || (x[0] <= c && c <= x[1])
		}
		if in != neg {
			ok = append(ok, a)
		}
	}
	if len(ok) > 0 && r.Intn(8) > 0 {
		return ok[r.Intn(len(ok))]
	}
	if neg {
		return "~"
	}
	x := set[r.Intn(len(set))]
	return string(rune(x[0] + r.Intn(x[1]-x[0]+1)))
}

// derive writes a text that the grammar may well accept.
func (g *Gram) derive(r *rand.Rand, n, depth int, alpha []string) string {
	nd := &g.Nodes[n-1]
	if depth <= 0 {
		return ""
	}
	switch nd.T {
	case "str":
		return bytesOf(nd.S)
	case "cls":
		return pickIn(r, nd.Set, nd.Neg, alpha)
	case "rx":
		return deriveRx(r, nd.Rx, alpha)
	case "seq":
		s := ""
		for _, k := range nd.K {
			s += g.derive(r, k, depth-1, alpha)
		}
		return s
	case "choice", "rank":
		k := nd.K[r.Intn(len(nd.K))]
		return g.derive(r, k, depth-1, alpha)
	case "opt":
		if r.Intn(2) == 0 {
			return ""
		}
		return g.derive(r, nd.K[0], depth-1, alpha)
	case "not", "look", "gone":
		return ""
	case "ref":
		return g.derive(r, nd.Ref, depth-1, alpha)
	case "pat":
		k := 0
		if nd.Mn > 0 {
			k = nd.Mn
		}
		k += r.Intn(3)
		if nd.Mx >= 0 && k > nd.Mx && r.Intn(3) > 0 {
			k = nd.Mx
		}
		s := ""
		for i := 0; i < k; i++ {
			if i > 0 && nd.J != 0 {
				s += g.derive(r, nd.J, depth-1, alpha)
			}
			s += g.derive(r, nd.K[0], depth-1, alpha)
		}
		return s
	}
	panic("derive")
}

// skips tells whether some rule, other than probes, is not cached.
func (g *Gram) skips() bool {
	for _, nd := range g.Nodes {
		if nd.Sk && nd.Cb != "probe" {
			return true
		}
	}
	return false
}

func (g *generator) inputs(gr *Gram, n int) []*Input {
	seen := map[string]bool{}
	var out []*Input
	drv, most := false, 100
	add := func(s string) {
		if len(s) <= most && !seen[s] && len(out) < n {
			seen[s] = true
			if (!g.p.Probe || gr.skips()) && gr.cost(s, 10000) > 10000 {
				return // the reference semantics would take too long
			}
			out = append(out, &Input{In: ints(s), Out: []any{}, Log: []any{}, Drv: drv})
		}
	}
	mutate := func(s string) string {
		if len(s) == 0 {
			return g.pick(g.p.Alpha)
		}
		i := g.r.Intn(len(s))
		switch g.r.Intn(3) {
		case 0:
			return s[:i] + s[i+1:]
		case 1:
			return s[:i] + g.pick(g.p.Alpha) + s[i:]
		default:
			return s[:i] + g.pick(g.p.Alpha) + s[i+1:]
		}
	}
	for t := 0; g.large && len(gr.leftRecursive()) == 0 && t < n/2; t++ {
		drv = true
		add(g.pump(gr.derive(g.r, gr.Top, g.deriveDepth(), g.p.Alpha)))
	}
	most = g.p.MaxIn
	for t := 0; t < 12*n && len(out) < n; t++ {
		drv = false
		switch g.r.Intn(6) {
		case 0:
			s := ""
			for k := g.r.Intn(g.p.MaxIn); k > 0; k-- {
				s += g.pick(g.p.Alpha)
			}
			add(s)
		case 1:
			add(mutate(gr.derive(g.r, gr.Top, g.deriveDepth(), g.p.Alpha)))
		case 2:
			add(gr.derive(g.r, gr.Top, g.deriveDepth(), g.p.Alpha) + g.pick(g.p.Alpha))
		default:
			drv = true
			add(gr.derive(g.r, gr.Top, g.deriveDepth(), g.p.Alpha))
		}
	}
	return out
}

// newCase draws grammars until one fits the profile.
func newCase(r *rand.Rand, p *Profile, id int, kind string) *Case {
	for {
		g := &generator{r: r, p: p, id: id}
		var tree *grule
		if p.Template != nil {
			tree = p.Template(g)
		} else {
			tree = g.grammar()
		}
		most := 60
		if p.Stretch > 0 && g.chance(p.Stretch) {
			g.stretch(tree)
			most = 700
		}
		if kind != "entry" && g.chance(0.3) {
			g.rename(tree)
		}
		gr := flatten(tree)
		if len(gr.Nodes) > most {
			continue
		}
		lr := gr.leftRecursive()
		switch p.LR {
		case "no":
			if len(lr) > 0 {
				continue
			}
		case "must", "direct":
			if p.LR == "direct" && !gr.onlyDirect(lr) {
				continue
			}
			reach := gr.reachable()
			ok := false
			for _, n := range lr {
				ok = ok || reach[n]
			}
			if !ok {
				continue
			}
		}
		bad := gr.labelLoop() || gr.mergeRefUnderOpt(gr.Top, false)
		for _, n := range lr { // endless recursion, by definition of SkipCache
			if gr.Nodes[n-1].Sk {
				bad = true
			}
		}
		if bad {
			continue
		}
		c := &Case{ID: id, Kind: kind, G: gr, LR: len(lr) > 0, Keep: p.NIn}
		for _, n := range c.G.Nodes {
			c.Panics = c.Panics || n.Cb == "panic" || n.Cb == "panic2"
		}
		if kind == "entry" {
			c.Inputs, c.Keep = entryInputs(), 0
		} else {
			c.Inputs = g.inputs(&c.G, 4*p.NIn)
		}
		if kind == "weave" {
			c.Weave = 1 + r.Int63n(1<<40)
		}
		if kind == "parallel" {
			c.Par, c.Keep = []int{1, 1, 4, 6}[r.Intn(4)], 0
			for _, n := range c.G.Nodes {
				if n.Comp { // a parser that grammars would share
					c.Par = 1
				}
			}
			sort.SliceStable(c.Inputs, func(a, b int) bool { return c.Inputs[a].Drv && !c.Inputs[b].Drv })
			if len(c.Inputs) > p.NIn {
				c.Inputs = c.Inputs[:p.NIn]
			}
			for _, in := range c.Inputs { // each twice
				d := *in
				c.Inputs = append(c.Inputs, &d)
				for _, in := range []*Input{in, &d} {
					if r.Intn(6) == 0 {
						in.Opts = []string{[]string{"debug", "skiplog", "nodebug"}[r.Intn(3)]}
					} else {
						in.Opts = []string{}
					}
				}
			}
			if r.Intn(4) == 0 {
				c.Topt = &TraceOpt{Stack: r.Intn(3) > 0, Loop: r.Intn(3) == 0, Line: r.Intn(4) - 1, Skip: true}
			}
		}
		if p.Tokens {
			for _, in := range c.Inputs {
				in.St = tokenize(r, bytesOf(in.In), p.Alpha)
			}
		}
		if len(c.Inputs) == 0 {
			continue
		}
		if p.Trace {
			randomTracing(r, c)
		}
		if p.Fmt {
			c.G.Fmt = 1 + r.Intn(1<<30)
		}
		c.G.Gen, c.G.Sig1 = p.Gen, p.Sig1
		c.Text = c.G.describe(c.G.Top, "")
		return c
	}
}

// onlyDirect: no two rules are left-recursive through each other, and none is
// through a negation or lookahead.
func (g *Gram) onlyDirect(lr []int) bool {
	e := g.leftEdges(g.nullable())
	after := func(n int) []bool {
		seen := make([]bool, len(g.Nodes)+1)
		var visit func(n int)
		visit = func(n int) {
			for _, m := range e[n] {
				if !seen[m] {
					seen[m] = true
					visit(m)
				}
			}
		}
		visit(n)
		return seen
	}
	afters := map[int][]bool{}
	for _, a := range lr {
		afters[a] = after(a)
	}
	for _, a := range lr {
		for _, b := range lr {
			if a != b && afters[a][b] && afters[b][a] {
				return false
			}
		}
		for i := range g.Nodes {
			if t := g.Nodes[i].T; (t == "not" || t == "look") && afters[a][i+1] && after(i + 1)[a] {
				return false
			}
		}
	}
	return true
}

func (g *generator) deriveDepth() int {
	if g.p.Template != nil {
		return 30
	}
	return 14
}
