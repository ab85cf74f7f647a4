package main

import (
	"encoding/json"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// What a grammar says about its rules.

type askOp struct {
	O string `json:"o"`
	R []any  `json:"r"`
}

type rulesCase struct {
	ID   int       `json:"id"`
	G    Gram      `json:"g"`
	Topt *TraceOpt `json:"topt"`
	Text []string  `json:"text"`
	Ops  []*askOp  `json:"ops"`
}

var reRow = regexp.MustCompile(`^\|   (\S+) +(\d+) +(\S+) +(y|n|yes|no|true|false) +(.*)$`)
var reLoop = regexp.MustCompile("^Loop (\\d+):\t(.*?): (.*)$")

// spell replaces the bytes that are not printable ASCII.
func spell(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			b.WriteString("~" + strconv.Itoa(int(s[i])))
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// tableOf reads the table of rules printed last.
func tableOf(said string) []any {
	rows, in := []any{}, false
	for _, l := range strings.Split(said, "\n") {
		if strings.HasPrefix(l, "+---") {
			rows, in = []any{}, true
		} else if in {
			if m := reRow.FindStringSubmatch(l); m != nil {
				// label, labels and parent are in columns of 7, 21, 16
				at := len(m[1])
				if at < 14 {
					at = 14
				}
				rest := l[len("|   ")+at+1:]
				rest = rest[len("xxx ")+21+4:]
				label, _, _ := strings.Cut(rest, " ")
				rest = rest[max(7, len(label))+1:]
				labels, after, _ := strings.Cut(rest, " ")
				if len(labels) < 21 {
					after = rest[22:]
				}
				parent, _, _ := strings.Cut(after, " ")
				at = len(parent)
				if at < 16 {
					at = 16
				}
				content := after[at+1:]
				rows = append(rows, []any{m[1], atoi(m[2]), m[4], label, labels, parent, spell(strings.TrimRight(content, " "))})
			}
		}
	}
	return rows
}

// loopsOf gives the rules listed for the grammar of n rules built last.
func loopsOf(said string, n int) []any {
	rows := []any{}
	for _, l := range strings.Split(said, "\n") {
		if m := reLoop.FindStringSubmatch(l); m != nil {
			rows = append(rows, []any{m[2], atoi(m[1]), spell(m[3])})
		}
	}
	if len(rows) > n {
		rows = rows[len(rows)-n:]
	}
	return rows
}

func askRules(c *rulesCase) {
	var gm *j.Grammar
	said := ""
	out := guard(func() []any {
		said = captured(func() { gm = c.G.build(&session{}, c.Topt.options()) })
		return nil
	})
	said = reANSI.ReplaceAllString(said, "")
	for _, op := range c.Ops {
		if gm == nil {
			op.R = out
			continue
		}
		op.R = guard(func() []any {
			switch op.O {
			case "walk":
				return walked(gm, 0)
			case "walk3":
				return walked(gm, 3)
			case "text":
				return []any{spell(reANSI.ReplaceAllString(gm.String(), ""))}
			case "count":
				return []any{gm.CountRules()}
			case "ready":
				return []any{gm.IsReady()}
			case "table":
				return tableOf(said)
			case "loop":
				return loopsOf(said, gm.CountRules())
			case "again":
				return tableOf(reANSI.ReplaceAllString(captured(gm.PrintRules), ""))
			}
			panic(op.O)
		})
	}
}

// walked lists the visits of a walk that every stop-th call of Pre stops.
func walked(gm *j.Grammar, stop int) []any {
	visits, k := []any{}, 0
	name := func(p j.Parser) string {
		if p == nil {
			return ""
		}
		return spell(reANSI.ReplaceAllString(j.String(p), ""))
	}
	j.Walk(gm, nil, j.WalkPrepost{
		Pre: func(node, parent j.Parser) string {
			if _, none := node.(j.NativeUndefined); none { // no join
				return ""
			}
			k++
			visits = append(visits, []any{"pre", name(node), name(parent)})
			if stop > 0 && k%stop == 0 {
				return "__stop__"
			}
			return ""
		},
		Post: func(node, parent j.Parser) string {
			if _, none := node.(j.NativeUndefined); none {
				return ""
			}
			visits = append(visits, []any{"post", name(node), name(parent)})
			return ""
		},
	})
	return visits
}

func newRules(r *rand.Rand, id int) *rulesCase {
	k := newCase(r, profile("layout", r), id, "layout")
	c := &rulesCase{ID: id, G: k.G, Text: k.Text, Topt: &TraceOpt{Line: -1, Grammar: r.Intn(2) == 0, Loop: r.Intn(3) == 0, Skip: r.Intn(2) == 0}}
	for i := range c.G.Nodes {
		nd := &c.G.Nodes[i]
		nd.Src = spell(strings.NewReplacer("\r", `\r`, "\n", `\n`, "\t", `\t`).Replace(nd.Txt))
	}
	for _, o := range []string{"count", "text", "ready", "table", "loop", "again", "walk", "walk3", "text"} {
		c.Ops = append(c.Ops, &askOp{O: o, R: []any{}})
	}
	return c
}

func init() {
	histories["rules"] = func(r *rand.Rand, id int) (string, any) { return "rules", newRules(r, id) }
	handlers["rules"] = func(b []byte) []byte {
		var c rulesCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		askRules(&c)
		return mustJSON(c)
	}
}
