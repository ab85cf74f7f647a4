package main

import (
	"regexp"

	j "github.com/grepsuzette/joeson"
)

// Grammar cases: a grammar is a table of nodes (what the specification works
// on); the text of its rules (what joeson compiles) is rendered from it.

// Node is one element of a grammar. K, J, Ref and P are 1-based indexes into
// Gram.Nodes, 0 meaning none.
type Node struct {
	T   string   `json:"t"`   // seq choice rank pat opt not look str cls rx ref, gone: a reference to no rule
	K   []int    `json:"k"`   // children
	L   string   `json:"l"`   // label
	R   string   `json:"r"`   // rule name, "" when the node is no rule
	Cb  string   `json:"cb"`  // behaviour of the parse function, "" when none
	Sk  bool     `json:"sk"`  // SkipCache
	S   []int    `json:"s"`   // str: bytes
	Set [][]int  `json:"set"` // cls: ranges of code points
	Neg bool     `json:"neg"` // cls: everything but those
	Rx  []RxItem `json:"rx"`  // rx: its items
	Mn  int      `json:"mn"`  // pat
	Mx  int      `json:"mx"`  // pat
	J   int      `json:"j"`   // pat: join
	Ref int      `json:"ref"` // ref: node of the rule
	U   bool     `json:"u"`   // ref, gone: name starts with _
	P   int      `json:"p"`   // parent, 0 for the top rank

	// how it is written, which the specification does not look at
	Txt   string `json:"txt"`           // cls, rx: source; pat: "+", "*" or "{"
	Src   string `json:"src,omitempty"` // cls, rx: Txt as it is printed, where that is asked
	Par   int    `json:"par"`           // redundant parentheses
	Named bool   `json:"named"`         // rule: has a name of its own
	IR    []int  `json:"ir"`            // rank: i rules declared in it
	IFst  bool   `json:"ifst"`          // rank: i rules come before the o rules
	Dbg   bool   `json:"dbg"`           // rule: Debug{true}
	Comp  bool   `json:"comp"`          // rule: given as a parser compiled beforehand
	Sl    bool   `json:"sl"`            // rule: SkipLog{true}

	re *regexp.Regexp
}

// RxItem is part of a regular expression: a class of characters or (A) a
// choice of regular expressions, repeated; or (Z) an assertion. Mx -1 means
// unbounded. Where no item has Bt, running them one after another will do.
type RxItem struct {
	Set [][]int    `json:"set"`
	Neg bool       `json:"neg"`
	Mn  int        `json:"mn"`
	Mx  int        `json:"mx"`
	A   [][]RxItem `json:"a"`
	Z   string     `json:"z"`
	Lz  bool       `json:"lz"` // as seldom as possible
	Bt  bool       `json:"bt"`
}

type Gram struct {
	Nodes []Node `json:"nodes"`
	Top   int    `json:"top"`
	Fmt   int    `json:"fmt"`  // formatting of the rule texts, 0 for plain
	Sig1  bool   `json:"sig1"` // parse functions of one argument too
	Gen   int    `json:"gen"`  // generation of joeson's grammar that compiles them
}

// Case is a grammar and texts to parse with it.
type Case struct {
	ID     int       `json:"id"`
	Kind   string    `json:"kind"`
	G      Gram      `json:"g"`
	LR     bool      `json:"lr"`     // some rule is left recursive
	Panics bool      `json:"panics"` // some parse function panics
	Weave  int64     `json:"weave"`  // if not 0, all inputs are parsed at the same time
	Par    int       `json:"par"`    // if not 0, all inputs are parsed in goroutines; one in how many builds its grammar
	Keep   int       `json:"keep"`   // how many of the inputs to keep
	Inputs []*Input  `json:"inputs"`
	Topt   *TraceOpt `json:"topt,omitempty"` // what is printed is recorded too
	Silent bool      `json:"silent"`         // nothing was printed while building, or it was asked for
	Text   []string  `json:"text"`           // the lines of the grammar, for humans
}

type Input struct {
	In    []int        `json:"in"`
	Out   []any        `json:"out"`
	Log   []any        `json:"log"`
	Opts  []string     `json:"opts"`         // options of this parse
	Trace []any        `json:"trace"`        // lines printed
	Drv   bool         `json:"drv"`          // written according to the grammar
	St    *StreamState `json:"st,omitempty"` // parsed as a token stream
	ts    *j.TokenStream
}

func ints(s string) []int {
	a := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		a[i] = int(s[i])
	}
	return a
}

func bytesOf(a []int) string {
	b := make([]byte, len(a))
	for i, v := range a {
		b[i] = byte(v)
	}
	return string(b)
}
