"""Planted bugs, see plant.py."""
BUGS = {}
HEAD = '''
package main

import (
	"fmt"
	"os"

	j "github.com/grepsuzette/joeson"
)

var _ = fmt.Sprint

func o(a ...any) j.Line { return j.O(a...) }
func i(a ...any) j.Line { return j.I(a...) }

func grammar(lines ...j.Line) *j.Grammar {
	return j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: j.Mute()}, lines)
}

func show(a j.Ast) string {
	if a == nil {
		return "nil"
	}
	return a.String()
}

func expect(what, got, want string) {
	if got != want {
		fmt.Printf("%s: %q instead of %q\\n", what, got, want)
		os.Exit(1)
	}
}

func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("panic:", e)
			os.Exit(1)
		}
	}()
'''


def bug(name, property, needs, breaks, edits, demo=None, **more):
    BUGS[name] = dict(property=property, needs=needs, breaks=breaks, edits=edits, **more)
    if demo:
        BUGS[name]["demo"] = (demo if demo.lstrip().startswith("package") else HEAD + demo + "}\n")


bug("c04-failure-memo", "C04", "a rule that failed at a position is tried again there by another alternative",
    "failures are not remembered when the attempt consumed nothing: the rule is evaluated again, its parts call their parse functions again",
    [["packrat.go", "				frame.cacheSet(result, ctx.Code.Pos())\n", "				if result != nil || ctx.Code.Pos() > startPos {\n					frame.cacheSet(result, ctx.Code.Pos())\n				}\n"]],
    '''
	n := 0
	gm := grammar(
		o(`A 'x' | A 'y' | 'z'`),
		i(j.Named("A", `B 'q'`)),
		i(j.Named("B", `(?C) 'z'? 'w'`)),
		i(j.Named("C", `''`), func(it j.Ast) j.Ast { n++; return it }, j.SkipCache{Bool: true}),
	)
	gm.ParseString("kz")
	expect("evaluations of B", fmt.Sprint(n), "1")
''')

bug("c10-undefined", "C10", "a rule with a parse function whose body matches something that yields undefined",
    "the parse function is not called for undefined",
    [["packrat.go", "			if rule.cb != nil {\n				result = rule.cb", "			if rule.cb != nil && !IsUndefined(result) {\n				result = rule.cb"]],
    '''
	gm := grammar(o(`'a' B`), i(j.Named("B", `'b'?`), func(it j.Ast) j.Ast { return j.NewNativeString("called") }))
	expect("undefined", show(gm.ParseString("a")), "called")
''')

bug("c14-boundary", "C14", "a position at the boundary of two tokens between which something of the original was left out, on another line",
    "the position is located at the end of the first token instead of the start of the second",
    [["codestream_token.go", "if workOffset < token.WorkOffset+len(token.Repr) {", "if workOffset < token.WorkOffset+len(token.Repr) || workOffset == token.WorkOffset+len(token.Repr) && len(token.Repr) > 4 {"]],
    '''
	s := j.NewTokenStream("hello\\n\\nb", []j.Token{{Repr: "hello", OriginalOffset: 0, WorkOffset: 0}, {Repr: "b", OriginalOffset: 7, WorkOffset: 5}})
	expect("line", fmt.Sprint(s.PosToLine(5), s.PosToCol(5)), "2 0")
''')

bug("c15-frames", "C15", "a token stream whose working text is longer than the original text",
    "the memo table has the size of the original text: parsing beyond panics",
    [["parsectx.go", "frames := make([][]*frame, code.workLength()+1)", "frames := make([][]*frame, code.Length()+1)"]],
    '''
	gm := grammar(o(`A*`), i(j.Named("A", `[a;]`)))
	s := j.NewTokenStream("a\\na", []j.Token{{Repr: "a", OriginalOffset: 0, WorkOffset: 0}, {Repr: ";;;", OriginalOffset: 1, WorkOffset: 1}, {Repr: "a", OriginalOffset: 2, WorkOffset: 4}})
	expect("tokens", show(gm.ParseTokens(s)), "[a,;,;,;,a]")
''')

bug("c17-set-again", "C17", "setting a key that is in the map and is not the last one",
    "the key is listed twice",
    [["native_map.go", "	for _, k2 := range nm.keys {\n		if k == k2 {\n			return\n		}\n	}\n", "	if n := len(nm.keys); n > 0 && n < 3 && (nm.keys[0] == k || nm.keys[n-1] == k) || n > 2 && nm.keys[n-1] == k {\n		return\n	}\n"]],
    '''
	m := j.NewEmptyNativeMap()
	for _, k := range []string{"a", "b", "c", "b"} {
		m.Set(k, j.NewNativeString(k))
	}
	expect("keys", fmt.Sprint(m.Keys()), "[a b c]")
''')

bug("c01-empty-at-end", "C01", "an empty string literal tried at the end of the text",
    "the empty string does not match at the end of the text",
    [["codestream_rune.go", "	if s != code.text[code.pos:", "	if code.pos >= len(code.text) {\n		return false, \"\" // never match at EOF\n	}\n	if s != code.text[code.pos:"]],
    '''
	gm := grammar(o(`x:[a] y:('b' | '')`))
	expect("empty", show(gm.ParseString("a")), "NativeMap{x:a, y:}")
''')

bug("c02-absent", "C02", "a sequence of several captured elements one of which is optional and absent",
    "an absent optional element has no place in the array",
    [["parser_sequence.go", "		if child.getRule().capture {\n			results = append(results, res)", "		if child.getRule().capture && !(IsUndefined(res) && len(results) > 1) {\n			results = append(results, res)"]],
    '''
	gm := grammar(o(`[a] [b]? [c] [d]?`))
	expect("absent", show(gm.ParseString("ac")), "[a,<NativeUndefined>,c,<NativeUndefined>]")
''')

bug("c06-stash", "C06", "left recursion through several rules, one of which is tried again at the same position after the recursion ended",
    "what the involved rules came to when the best result was found is forgotten for what they came to first",
    [["packrat.go", "						bestStash = ctx.wipeWith(frame, true)\n", "						if st := ctx.wipeWith(frame, true); bestStash == nil {\n							bestStash = st\n						}\n"]],
    '''
	gm := grammar(
		o(`E ';' | Add '!'`),
		i(j.Named("E", `Add | N`)),
		i(j.Named("Add", `E '+' N`)),
		i(j.Named("N", `[0-9]`)),
	)
	expect("1+2+3!", show(gm.ParseString("1+2+3!")), "[[1,2],3]")
''')

bug("c07-eof", "C07", "an incomplete parse whose furthest match is of nothing, at the very end of the text",
    "the end of the text is not looked at when searching the furthest match",
    [["grammar.go", "for pos := ctx.Code.Pos(); pos < len(ctx.frames); pos++ {", "for pos := ctx.Code.Pos(); pos < len(ctx.frames)-1; pos++ {"]],
    '''
	gm := grammar(o(`'a' 'b' E 'c' | 'a'`), i(j.Named("E", `'x'*`)))
	r := show(gm.ParseString("ab"))
	if len(r) > 45 {
		r = r[:45]
	}
	expect("error", r, "ERROR Error parsing at char:2=(line:0,col:2).")
''')

bug("c08-join", "C08", "a separator of several elements of which only the first ones match after the last item",
    "the part of the separator that matched stays consumed",
    [["parser_pattern.go", "				if resJoin == nil {\n					ctx.Code.SetPos(pos2)\n", "				if resJoin == nil {\n"]],
    '''
	gm := grammar(o(`[a]*(',' ' ') ',' 'b'`))
	expect("join", show(gm.ParseString("a, a,b")), "[a,a]")
''')

bug("c09-negation", "C09", "a negation of several parts of which only the first ones match",
    "the parts that matched are consumed",
    [["parser_not.go", "		ctx.Code.SetPos(pos)\n		if res != nil {\n", "		if res != nil {\n			ctx.Code.SetPos(pos)\n"]],
    '''
	gm := grammar(o(`!('a' 'b') [a] [c]`))
	expect("negation", show(gm.ParseString("ac")), "[a,c]")
''')

bug("c13-final-newline", "C13", "a text that ends with a line feed, looked at from its end",
    "the end of the text counts to the line before the final line feed",
    [["codestream_rune.go", "		if rune == '\\n' {", "		if rune == '\\n' && pos+1 < len(text) {"]],
    '''
	s := j.NewRuneStream("ab\\n")
	s.SetPos(3)
	expect("line", fmt.Sprint(s.Line(), s.Col()), "1 0")
''')

bug("c16-runes", "C16", "Go code with tokens that have multi-byte characters",
    "positions in the working text are counted in characters instead of bytes",
    [["codestream_token.go", "		workOffset += len(prev)\n", "		workOffset += len([]rune(prev))\n"]],
    '''
	s, err := j.TokenStreamFromGoCode("é = 1\\nb")
	if err != nil {
		panic(err)
	}
	w := s.PeekRunes(100)
	expect("place of b", fmt.Sprint(s.PosToLine(len(w)-3), s.PosToCol(len(w)-3)), "1 0")
''')

bug("c03-collide", "C03", "a grammar with more than 128 rules, two of which 128 apart are tried at the same position",
    "rules share a slot of the memo table: one takes the remembered outcome of the other",
    [["parsectx.go", "	frame := posFrames[id]\n", "	id &= 127\n	frame := posFrames[id]\n"]],
    '''
	lines := []j.Line{o(`P | Q0 'b'`), i(j.Named("P", `Q128 'c'`))}
	for k := 0; k < 140; k++ {
		lines = append(lines, i(j.Named(fmt.Sprintf("Q%d", k), fmt.Sprintf("'<%d>' | 'a'", k))))
	}
	gm := grammar(lines...)
	n := gm.CountRules()
	_ = n
	for k := 0; k < 12; k++ {
		lines[1] = i(j.Named("P", fmt.Sprintf("Q%d 'c'", 120+k)))
		lines[0] = o(`P | Q0 'b'`)
		expect("same start", show(grammar(lines...).ParseString("<0>b")), "<0>")
	}
''')

bug("c05-growth", "C05", "a left recursion that grows more than 64 times",
    "growing a left recursion stops after 64 steps",
    [["packrat.go", "					for result != nil {\n", "					for n := 0; result != nil && n <= 64; n++ {\n"]],
    '''
	gm := grammar(o(j.Named("E", `E '+' N | N`)), i(j.Named("N", `/[0-9]/`)))
	s := "1"
	for k := 0; k < 100; k++ {
		s += "+1"
	}
	if a := gm.ParseString(s); a == nil || j.IsParseError(a) {
		fmt.Println("rejected", show(a))
		os.Exit(1)
	}
''')

bug("c06-long-cycle", "C06", "a left recursion through more than eight rules",
    "only the eight innermost rules of a left recursion are evaluated anew when it grows",
    [["packrat.go", "for i := ctx.stackLength - 2; i >= 0; i-- {", "for i := ctx.stackLength - 2; i >= 0 && i >= ctx.stackLength-10; i-- {"]],
    '''
	lines := []j.Line{o(j.Named("R0", `R1 'x' | 'a'`))}
	for k := 1; k < 14; k++ {
		lines = append(lines, i(j.Named(fmt.Sprintf("R%d", k), fmt.Sprintf("R%d", (k+1)%14))))
	}
	if a := grammar(lines...).ParseString("axxx"); a == nil || j.IsParseError(a) {
		fmt.Println("rejected", show(a))
		os.Exit(1)
	}
''')

bug("c11-tokens", "C11", "a token stream parsed again from its start, with the same grammar",
    "the memo table is kept with the token stream: parse functions are not called in the second parse, which returns the values of the first",
    [["codestream_token.go", "		lineStarts []int   // line starts in the `original` text\n", "		lineStarts []int   // line starts in the `original` text\n		parsed     *ParseContext\n"],
     ["codestream_token.go", "return &TokenStream{tokens, text, b.String(), 0, lineStarts}", "return &TokenStream{tokens, text, b.String(), 0, lineStarts, nil}"],
     ["grammar.go", "		tokens,\n		gm.numrules,\n		gm.TraceOptions,\n	)\n", "		tokens,\n		gm.numrules,\n		gm.TraceOptions,\n	)\n	if tokens.parsed != nil && tokens.parsed.GrammarName == gm.getRule().name {\n		ctx.frames = tokens.parsed.frames\n	}\n	tokens.parsed = ctx\n"]],
    '''
	n := 0
	gm := grammar(o(`A B`), i(j.Named("A", `'a'`), func(it j.Ast) j.Ast { n++; return it }), i(j.Named("B", `'b'?`)))
	ts := j.NewTokenStream("a b", []j.Token{{Repr: "a"}, {Repr: "b", OriginalOffset: 2, WorkOffset: 1}})
	gm.ParseTokens(ts)
	ts.SetPos(0)
	gm.ParseTokens(ts)
	expect("calls", fmt.Sprint(n), "2")
''')

bug("c12-traced-failure", "C12", "tracing a parse in which a rule fails twice at a position",
    "with tracing, failures are not remembered: rules are evaluated again and their parse functions called again",
    [["packrat.go", "				frame.cacheSet(result, ctx.Code.Pos())\n				if showLog {\n					s := Cyan(\"`-set:\") + \" \"\n					if result == nil {\n						s += \"nil\"\n					} else {",
      "				if result != nil || !showLog {\n					frame.cacheSet(result, ctx.Code.Pos())\n				}\n				if showLog {\n					s := Cyan(\"`-set:\") + \" \"\n					if result == nil {\n						s += \"nil\"\n					} else {"]],
    '''
	n := 0
	gm := grammar(
		o(`A 'x' | A 'y' | 'k' 'z'`),
		i(j.Named("A", `B 'q'`)),
		i(j.Named("B", `C 'w'`)),
		i(j.Named("C", `'k'`), func(it j.Ast) j.Ast { n++; return nil }),
	)
	a := show(gm.ParseString("kz"))
	quiet := n
	n = 0
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	b := show(gm.ParseString("kz", j.Debug{Bool: true}))
	os.Stdout = out
	expect("result", b, a)
	expect("calls", fmt.Sprint(n), fmt.Sprint(quiet))
''')

bug("c18-plus", "C18", "a rule with `+` compiled by the grammar that was compiled from joeson's own rules",
    "in the second generation `+` lets the element be absent",
    [["joeson_intention.go", "									h.Set(\"min\", NewNativeInt(1))\n", "									h.Set(\"min\", NewNativeInt(0))\n"]],
    '''
	one := grammar(j.IntentionRules()...)
	expect("A+", show(one.ParseString("A+")), show(j.NewJoesonWithOptions(j.Mute()).ParseString("A+")))
''')

bug("c19-bounds", "C19", "a repetition whose upper bound is below its lower bound",
    "the upper bound is silently raised",
    [["parser_pattern.go", "			case NativeInt:\n				patt.max = v.Int()\n", "			case NativeInt:\n				patt.max = v.Int()\n				if patt.max >= 0 && patt.max < patt.min {\n					patt.max = patt.min\n				}\n"]],
    '''
	gm := grammar(o(`'a'*{3,2} 'b'?`))
	if a := gm.ParseString("aaa"); a != nil && !j.IsParseError(a) {
		fmt.Println("accepted", show(a))
		os.Exit(1)
	}
''')

bug("c20-unnamed", "C20", "an unnamed o rule declared after an i rule in its rank",
    "unnamed o rules are counted with the i rules",
    [["parser_rank.go", "	for _, line := range lines {\n		if ol, ok", "	for k, line := range lines {\n		if ol, ok"],
     ["parser_rank.go", "oLineNaming{index: rank.Length()}", "oLineNaming{index: k}"]],
    '''
	gm := grammar(i(j.Named("A", `'a'`)), o(`A 'x'`), o(`'b'`))
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	gm.PrintRules()
	os.Stdout = out
	w.Close()
	b := make([]byte, 1<<16)
	n, _ := r.Read(b)
	if s := string(b[:n]); !contains(s, "demo[0]") || !contains(s, "demo[1]") || contains(s, "demo[2]") {
		fmt.Println(s)
		os.Exit(1)
	}
}

func contains(s, t string) bool {
	for k := 0; k+len(t) <= len(s); k++ {
		if s[k:k+len(t)] == t {
			return true
		}
	}
	return false
''')

bug("c21-guard", "C21", "rules nested more than 4096 deep",
    "a guard against infinite recursion gives up on deep nesting",
    [["parsectx.go", "	ctx.stackLength++\n", "	ctx.stackLength++\n	if ctx.stackLength > 4096 {\n		panic(\"infinite recursion in \" + x.getRule().name)\n	}\n"],
     ["parsectx.go", "func (ctx *ParseContext) stackPop() { ctx.stackLength-- }", "func (ctx *ParseContext) stackPop() { ctx.stackLength -= 1 }"]],
    '''
	gm := grammar(o(j.Named("S", `'(' S ')' | 'x'`)))
	s := "x"
	for k := 0; k < 5000; k++ {
		s = "(" + s + ")"
	}
	if a := gm.ParseString(s); a == nil || j.IsParseError(a) {
		fmt.Println("rejected")
		os.Exit(1)
	}
''')

bug("c23-none", "C23", "none after a line number in TRACE",
    "none keeps the line number",
    [["traceoptions.go", "			case \"none\":\n				opt = Mute()\n", "			case \"none\":\n				opt.Stack, opt.Loop, opt.Grammar, opt.SkipSetup = false, false, false, false\n"]],
    '''
	os.Setenv("TRACE", "line=3,none,stack")
	expect("line", fmt.Sprint(j.DefaultTraceOptions().FilterLine), "-1")
''')

bug("c24-empty", "C24", "a rule that matches the empty text and builds a value",
    "an empty match leaves the origin unset",
    [["attr.go", "	attr.Start = o.Start\n	attr.End = o.End\n", "	if o.End > o.Start {\n		attr.Start = o.Start\n		attr.End = o.End\n	}\n"]],
    '''
	var v *val
	gm := grammar(o(`'a' B C`), i(j.Named("C", `'c'?`)), i(j.Named("B", `''`), func(it j.Ast) j.Ast { v = &val{j.NewAttr()}; return v }))
	gm.ParseString("ac")
	expect("origin", fmt.Sprint(v.GetOrigin().Start, v.GetOrigin().End), "1 1")
}

type val struct{ *j.Attr }

func (*val) String() string {
	return "v"
''')

bug("c25-line-zero", "C25", "tracing restricted to the first line",
    "line 0 means all lines",
    [["parsectx.go", "if opts.FilterLine == -1 ||", "if opts.FilterLine <= 0 ||"]],
    '''
	opts := j.Mute()
	opts.Stack = true
	opts.FilterLine = 0
	gm := j.GrammarWithOptionsFromLines("demo", j.GrammarOptions{TraceOptions: opts}, []j.Line{o(`A*`), i(j.Named("A", `/[^b]/`))})
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	gm.ParseString("a\\na")
	os.Stdout = out
	w.Close()
	b := make([]byte, 1<<16)
	n, _ := r.Read(b)
	for k := 0; k+2 < n; k++ {
		if string(b[k:k+3]) == "m1," {
			fmt.Println("traced line 1")
			os.Exit(1)
		}
	}
''')

bug("c11-level", "C11", "a parse that begins after another one, under way at the same time, has ended: parses in turns rather than one inside the other",
    "rule stacks are kept for the next parse at the same level of nesting, and two parses come to share one",
    [["grammar.go", "	ctx.GrammarName = gm.getRule().name\n", "	ctx.GrammarName = gm.getRule().name\n	level := len(underWay)\n	if level < len(stacks) {\n		ctx.stack = stacks[level][:0]\n	}\n	underWay = append(underWay, ctx)\n	defer func() {\n		underWay = underWay[:len(underWay)-1]\n		if level >= len(stacks) {\n			stacks = append(stacks, ctx.stack)\n		}\n	}()\n"],
     ["grammar.go", "type GrammarOptions struct {\n", "// parses under way, and stacks to be used by those inside each other\nvar (\n	underWay []*ParseContext\n	stacks   [][]*frame\n)\n\ntype GrammarOptions struct {\n"]],
    '''
	turns := []chan bool{make(chan bool), make(chan bool), make(chan bool)}
	back := make(chan bool)
	cur := 0
	gm := grammar(o(j.Named("S", `'(' S ')' | X`)), i(j.Named("X", `'x'`), func(it j.Ast) j.Ast {
		k := cur
		back <- true
		<-turns[k]
		return &val{j.NewAttr()}
	}))
	plain := grammar(o(j.Named("S", `'(' _ S _ ')' | X`)), i(j.Named("_", `' '*`)), i(j.Named("X", `'x'`), func(it j.Ast) j.Ast {
		k := cur
		back <- true
		<-turns[k]
		return &val{j.NewAttr()}
	}))
	results := make([]string, 3)
	begin := func(k int, gm *j.Grammar, s string) {
		go func() {
			<-turns[k]
			gm.ParseString(s)
			results[k] = fmt.Sprint(pos)
			back <- true
		}()
	}
	step := func(k int) {
		cur = k
		turns[k] <- true
		<-back
	}
	for round := 0; round < 2; round++ {
		begin(0, gm, "((x))")
		begin(1, gm, "(((x)))")
		begin(2, plain, " (  ( (  x) ))"[1:])
		step(0)
		step(1)
		step(0)
		step(2)
		step(1)
		step(2)
		expect("origins", fmt.Sprint(results), "[2 3 8]")
	}
}

var pos int

type val struct{ *j.Attr }

func (*val) String() string { return "v" }
func (v *val) SetOrigin(o j.Origin) {
	if o.RuleName == "X" {
		pos = o.Start
	}
''')

bug("c27-missing-at-end", "C27", "the missing rule is reached where the text has ended",
    "a reference to a rule that does not exist then counts as a failure to match: a text may be accepted through another alternative, or be rejected, without a word",
    [["parser_ref.go", "		if node == nil {\n", "		if node == nil && ctx.Code.Pos() == ctx.Code.workLength() && ctx.Code.Pos() > 0 {\n			return nil // nothing left that it could match\n		} else if node == nil {\n"]],
    '''
	gm := grammar(o(j.Named("A", "'a' Missing?")))
	said := func(s string) (r string) {
		defer func() {
			if recover() != nil {
				r = "panic"
			}
		}()
		return show(gm.ParseString(s))
	}
	expect("in the middle", said("ab"), "panic")
	expect("at the end", said("a"), "panic")
''')

bug("c27-option-after", "C27", "an option (SkipCache, Debug, SkipLog) that comes after the parse function, rather than before it",
    "the parse function given is dropped, without a word",
    [["line.go", "				attrs = v.apply(attrs)\n", "				cb := attrs.cb\n				attrs = v.apply(newParseOptions())\n				if i == 1 {\n					attrs.cb = cb\n				}\n"]],
    '''
	f := func(it j.Ast) j.Ast { return j.NewNativeString("f") }
	gm := grammar(o(j.Named("A", "'a'"), j.SkipCache{Bool: true}, f), o(j.Named("B", "'b'"), f, j.SkipCache{Bool: true}))
	expect("before", show(gm.ParseString("a")), "f")
	expect("after", show(gm.ParseString("b")), "f")
''')


bug("c26-escape", "C26", "a text with a line end, a tab, or another character that has an escape",
    "the backslashes of the escapes are escaped again",
    [["helpers/helpers.go", "	`\\`, `\\\\`,\n", ""], ["helpers/helpers.go", "	return escaper.Replace(str)\n", "	return strings.ReplaceAll(escaper.Replace(str), `\\`, `\\\\`)\n"]],
    HEAD.replace('j "github.com/grepsuzette/joeson"', '"github.com/grepsuzette/joeson/helpers"\n	j "github.com/grepsuzette/joeson"') + '''
	expect("backslash", helpers.Escape("a\\\\b"), `a\\\\b`)
	expect("two", helpers.Escape("a\\\\\\\\b"), `a\\\\\\\\b`)
	expect("line end", helpers.Escape("a\\nb"), `a\\nb`)
}
''')

bug("c26-bisect-left", "C26", "a list in which the number is there already, more than once, or with others on both sides",
    "BisectLeft gives a place among the equal elements rather than before them",
    [["helpers/bisect.go", "		return s[i] >= n\n", "		return s[i] >= n && (i == 0 || s[i] > n || i+1 == len(s) || s[i-1] == n)\n"]],
    HEAD.replace('j "github.com/grepsuzette/joeson"', '"github.com/grepsuzette/joeson/helpers"\n	j "github.com/grepsuzette/joeson"') + '''
	expect("1 2 2 3", fmt.Sprint(helpers.BisectLeft([]int{1, 2, 2, 2, 3}, 2)), "1")
	expect("1 2", fmt.Sprint(helpers.BisectLeft([]int{1, 2}, 2)), "1")
}
''')

bug("c20-walk-stop", "C20", "a walk whose Pre stops at some nodes, and has a Post",
    "Post is called for what Pre stopped at",
    [["walk.go", "	ast.forEachChild(func(child Parser) Parser {\n		return Walk(child, ast, prepost)\n	})\n", "	if stopped := stop; !stopped {\n		ast.forEachChild(func(child Parser) Parser {\n			return Walk(child, ast, prepost)\n		})\n	}\n"],
     ["walk.go", "	if prepost.Pre != nil {\n		stop := prepost.Pre(ast, parent)\n		if stop == \"__stop__\" {\n			return ast\n		}\n	}\n", "	stop := prepost.Pre != nil && prepost.Pre(ast, parent) == \"__stop__\"\n"]],
    '''
	gm := grammar(o(j.Named("A", "B 'x'")), i(j.Named("B", "'y' | 'z'")))
	pre, post := 0, 0
	j.Walk(gm, nil, j.WalkPrepost{
		Pre: func(p, parent j.Parser) string {
			pre++
			if pre%2 == 0 {
				return "__stop__"
			}
			return ""
		},
		Post: func(p, parent j.Parser) string { post++; return "" },
	})
	expect("posts", fmt.Sprint(post), fmt.Sprint(pre-pre/2))
''')

bug("c20-table-join", "C20", "the rules of a grammar are printed, and one of them is repeated at most so often, but without a minimum",
    "how often is not printed",
    [["parser_pattern.go", "	if patt.min < 0 && patt.max < 0 {\n		// Cyan", "	if patt.min < 0 && (patt.max < 0 || IsUndefined(patt.join)) {\n		// Cyan"]],
    HEAD.replace('"os"', '"os"\n\t"regexp"\n\t"strings"') + '''
	strip := func(s string) string { return regexp.MustCompile("\\x1b\\\\[[0-9;]*m").ReplaceAllString(s, "") }
	said := []string{}
	gm := grammar(o(j.Named("A", "'x'*','{,3}")), o(j.Named("B", "'x'{,3}")), o(j.Named("C", "'x'*")))
	j.Walk(gm, nil, j.WalkPrepost{Pre: func(p, parent j.Parser) string { said = append(said, strip(j.String(p))); return "" }})
	expect("max with join", fmt.Sprint(strings.Contains(strings.Join(said, "\\n"), "A: 'x'*','{,3}\\n")), "true")
	expect("max without join", fmt.Sprint(strings.Contains(strings.Join(said, "\\n"), "B: 'x'*{,3}\\n")), "true")
}
''')
RUSH = '''
// rush has goroutines run f at the same time and counts what differs from want.
func rush(f func() string, want string) string {
	var wg sync.WaitGroup
	var wrong atomic.Int64
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4000 && wrong.Load() == 0; k++ {
				func() {
					defer func() {
						if recover() != nil {
							wrong.Add(1)
						}
					}()
					if f() != want {
						wrong.Add(1)
					}
				}()
			}
		}()
	}
	wg.Wait()
	return fmt.Sprint(wrong.Load() > 0)
}
'''
PAR = HEAD.replace('"os"', '"os"\n\t"sync"\n\t"sync/atomic"').replace("\nfunc main() {", RUSH + "\nfunc main() {")
bug("c28-spare-frames", "C28", "two goroutines parse at the same time; parses after or inside each other are not affected",
    "the memory of a parse that is over is used by the next one, or by two at once",
    [["parsectx.go", "	frames := make([][]*frame, code.workLength()+1)\n	for i := range frames {\n		frames[i] = make([]*frame, numRules)\n	}\n",
      "	frames := spareFrames\n	spareFrames = nil // taken, also by parses in parse functions of this one\n	for len(frames) < code.workLength()+1 {\n		frames = append(frames, nil)\n	}\n	for i := range frames {\n		if len(frames[i]) < numRules {\n			frames[i] = make([]*frame, numRules)\n		}\n		for k := range frames[i] {\n			frames[i][k] = nil\n		}\n	}\n"],
     ["parsectx.go", "// Create a new parse context.\n", "// frames that are no longer in use\nvar spareFrames [][]*frame\n\n// Create a new parse context.\n"],
     ["grammar.go", "	result := gm.rank.parse(ctx)\n", "	result := gm.rank.parse(ctx)\n	spareFrames = ctx.frames\n"]],
    PAR + '''
	gm := grammar(o(j.Named("S", "A*',' | B")), i(j.Named("A", "[a-c]+ '!'?")), i(j.Named("B", "'b'*")))
	expect("alone", show(gm.ParseString("ab,c!,a")), show(gm.ParseString("ab,c!,a")))
	expect("wrong when others parse", rush(func() string { return show(gm.ParseString("ab,c!,a")) }, show(gm.ParseString("ab,c!,a"))), "false")
}
''')
bug("c28-spare-results", "C28", "two goroutines parse with the same grammar at the same time, a sequence that yields an array; recursion is not affected",
    "sequences collect what they match in memory that others use at the same time",
    [["parser_sequence.go", "	results := make([]Ast, 0)\n", "	results := seq.spare\n	seq.spare = nil // in use, also when recursive\n"],
     ["parser_sequence.go", "	return NewNativeArray(results)\n", "	seq.spare = results[:0]\n	return NewNativeArray(append(make([]Ast, 0, len(results)), results...))\n"],
     ["parser_sequence.go", "	sequence []Parser\n	lazyType", "	sequence []Parser\n	spare    []Ast // memory for results\n	lazyType"]],
    PAR + '''
	gm := grammar(o(j.Named("S", "A A A A A")), i(j.Named("A", "[a-z] [a-z] [a-z]")))
	all := []string{"abcdefghijklmno", "zyxwvutsrqponml"}
	var n atomic.Int64
	expect("wrong when others parse", rush(func() string {
		text := all[n.Add(1)%2]
		a := gm.ParseString(text).(*j.NativeArray)
		return fmt.Sprint(string(a.Concat()) == text)
	}, "true"), "false")
}
''')
bug("c01-longest", "C01", "a regular expression with alternatives one of which begins like another, longer one",
    "regular expressions take the longest alternative rather than the first one that matches",
    [["parser_regex.go", "		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}", "		compiledRegexp.Longest() // as greedy as the rest\n		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}"]],
    '''
	gm := grammar(o(`/a|ab/ 'b'?`))
	expect("a|ab", show(gm.ParseString("ab")), "a")
	gm = grammar(o(`x:/a+?/ y:'a'*`))
	expect("a+?", show(gm.ParseString("aaa").(*j.NativeMap).Get("x")), "a")
''')
bug("c02-many-labels", "C02", "a sequence of more than eight labels, one of the last of which is of something absent",
    "the labels of absent elements are left out of large maps",
    [["parser_sequence.go", "				if h, isMap := results.(*NativeMap); isMap {\n					h.Set(label, res)", "				if h, isMap := results.(*NativeMap); isMap {\n					if len(h.keys) < 8 || !IsUndefined(res) {\n						h.Set(label, res)\n					}"]],
    '''
	gm := grammar(o("a:'a' b:'b' c:'c' d:'d' e:'e' f:'f' g:'g' h:'h' i:'i'? j:'j'"))
	m := gm.ParseString("abcdefghj").(*j.NativeMap)
	expect("labels", fmt.Sprint(m.Keys()), "[a b c d e f g h i j]")
''')
bug("c06-deep-heads", "C06", "a left recursion through more than sixteen rules",
    "of a long loop the rules in between keep what they remember while it grows",
    [["packrat.go", "				if i_frame.pos < startPos || i_frame.id == x.getRule().id {", "				if i_frame.pos < startPos || i_frame.id == x.getRule().id || ctx.stackLength-i > 16 {"]],
    '''
	lines := []j.Line{o(j.Named("R0", "R1 'x' | 'a'"))}
	for k := 1; k <= 24; k++ {
		lines = append(lines, i(j.Named(fmt.Sprintf("R%d", k), fmt.Sprintf("R%d", (k+1)%25))))
	}
	a := grammar(lines...).ParseString("axxx")
	expect("error", fmt.Sprint(a == nil || j.IsParseError(a)), "false")
''')
bug("c08-small-counter", "C08", "a repetition that must occur 128 times or more",
    "minima of 128 and above do not count",
    [["parser_pattern.go", "		if patt.min > -1 && int(patt.min) > len(matches) {", "		if patt.min > -1 && int(int8(patt.min)) > len(matches) {"]],
    '''
	gm := grammar(o("'a'*{130,130}"))
	text := ""
	for len(text) < 129 {
		text += "a"
	}
	a := gm.ParseString(text)
	expect("too few accepted", fmt.Sprint(a != nil && !j.IsParseError(a)), "false")
''')
bug("c13-separator", "C13", "a text that has the line separator U+2028",
    "lines end at separators of Unicode too",
    [["codestream_rune.go", "		if rune == '\\n' {", "		if rune == '\\n' || rune == '\\u2028' {"]],
    '''
	code := j.NewRuneStream("a\\u2028b\\nc")
	expect("line of b", fmt.Sprint(code.PosToLine(4)), "0")
	expect("column of b", fmt.Sprint(code.PosToCol(4)), "4")
	expect("line of c", fmt.Sprint(code.PosToLine(6)), "1")
''')
bug("c17-many-keys", "C17", "setting a key, beyond the sixteenth, that is in the map",
    "keys are looked for among the first ones only, so a later one is listed twice",
    [["native_map.go", "	for _, k2 := range nm.keys {\n		if k == k2 {\n			return\n		}\n	}", "	for i, k2 := range nm.keys {\n		if k == k2 {\n			return\n		}\n		if i == 15 {\n			break // new ones come last\n		}\n	}"]],
    '''
	m := j.NewEmptyNativeMap()
	for k := 0; k < 40; k++ {
		m.Set(fmt.Sprintf("k%d", k%20), j.NewNativeInt(k))
	}
	expect("keys", fmt.Sprint(len(m.Keys())), "20")
''')
bug("c24-small-places", "C24", "a value that begins beyond 64 kB in the text",
    "places beyond 65535 are remembered modulo 65536",
    [["packrat.go", "func newFrame(pos int, id int) *frame {", "func newFrame(p int, i int) *frame {\n	pos, id := int(uint16(p)), i"]],
    '''
	var v *val
	gm := grammar(o(j.Named("S", "'a'* e:E")), i(j.Named("E", "[x]"), func(it j.Ast) j.Ast { v = &val{j.NewAttr()}; return v }))
	text := make([]byte, 70001)
	for k := range text {
		text[k] = 'a'
	}
	text[70000] = 'x'
	gm.ParseString(string(text))
	expect("place", fmt.Sprint(v.GetOrigin().Start), "70000")
}

type val struct{ *j.Attr }

func (*val) String() string {
	return "v"
''')

bug("c19-return-space", "C19", "a rule text with a carriage return between two elements",
    "the carriage return counts as white space where rule texts are read",
    [["joeson_handcompiled.go", "		i(Named(\"_\", p(c(st(\" \"), st(\"\\n\")), nil))),", "		i(Named(\"_\", p(c(st(\" \"), st(\"\\n\"), st(\"\\r\")), nil))),"]],
    '''
	gm := j.NewJoeson()
	a := gm.ParseString("'a' \\r'b'")
	expect("a carriage return is no space", fmt.Sprint(a == nil || j.IsParseError(a)), "true")
''')
bug("c02-merge-keep", "C02", "a map, merged into another, with an undefined value for a key that is in both",
    "undefined values do not replace those that are there",
    [["parser_sequence.go", "				vToExtend.Set(k, vnewcomer.GetOrPanic(k))", "				if v := vnewcomer.GetOrPanic(k); !IsUndefined(v) || !vToExtend.Exists(k) {\n					vToExtend.Set(k, v)\n				}"]],
    '''
	gm := grammar(o("@:A @:B"), i(j.Named("A", "x:'a' 'b'")), i(j.Named("B", "x:'c'? 'd'")))
	a := gm.ParseString("abd")
	m, is := a.(*j.NativeMap)
	expect("a map", fmt.Sprint(is), "true")
	v := m.GetOrPanic("x")
	expect("x", fmt.Sprint(j.IsUndefined(v)), "true")
''')

bug("c25-debug-sticky", "C25", "a rule that is given Debug{true} and then Debug{false}",
    "once on, debugging of a rule stays on",
    [["parseoption.go", "func (o Debug) apply(opts *parseOptions) *parseOptions     { opts.debug = o.Bool; return opts }", "func (o Debug) apply(opts *parseOptions) *parseOptions     { opts.debug = opts.debug || o.Bool; return opts }"]],
    '''
	gm := grammar(o("A"), i(j.Named("A", "'a'"), j.Debug{true}, j.Debug{false}))
	r, w, _ := os.Pipe()
	out := os.Stdout
	os.Stdout = w
	gm.ParseString("a")
	os.Stdout = out
	fmt.Fprint(w, "end")
	w.Close()
	b := make([]byte, 1<<16)
	n, _ := r.Read(b)
	expect("printed", fmt.Sprint(n), "3")
''')
