package main

import (
	"encoding/json"
	"fmt"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// Package helpers, and colours.

type helpOp struct {
	O string `json:"o"`
	S []int  `json:"s"`
	A []int  `json:"a"`
	N int    `json:"n"`
	M int    `json:"m"`
	X []any  `json:"x"`
	R []any  `json:"r"`
}

type helpCase struct {
	ID  int       `json:"id"`
	Ops []*helpOp `json:"ops"`
}

var dyes = map[string]func(string) string{
	"Black": j.Black, "Red": j.Red, "Green": j.Green, "Yellow": j.Yellow, "Blue": j.Blue, "Magenta": j.Magenta, "Cyan": j.Cyan, "White": j.White,
	"BoldBlack": j.BoldBlack, "BoldRed": j.BoldRed, "BoldGreen": j.BoldGreen, "BoldYellow": j.BoldYellow,
	"BoldBlue": j.BoldBlue, "BoldMagenta": j.BoldMagenta, "BoldCyan": j.BoldCyan, "BoldWhite": j.BoldWhite, "Bold": j.Bold,
	"Escape": helpers.Escape, "EscapeButKeepNonAscii": helpers.EscapeButKeepNonAscii, "StripAnsi": helpers.StripAnsi,
}

var padding = map[string]func(string, int) string{
	"LastNRunes": helpers.LastNRunes, "LastNRunesReversed": helpers.LastNRunesReversed, "PadLeft": helpers.PadLeft, "PadRight": helpers.PadRight,
}

// help does one operation; z is the lazy value.
func help(op *helpOp, z **helpers.Lazy[int]) []any {
	b := make([]byte, len(op.S))
	for i, c := range op.S {
		b[i] = byte(c)
	}
	s, a := string(b), append([]int{}, op.A...)
	told := func(s string) []any { return numbers(ints(s)) }
	called := 0
	f := func() int { called++; return 10*op.N + called - 1 }
	if dye := dyes[op.O]; dye != nil {
		return told(dye(s))
	}
	if pad := padding[op.O]; pad != nil {
		return told(pad(s, op.N))
	}
	switch op.O {
	case "SliceString":
		return told(helpers.SliceString(s, op.N, op.M))
	case "Indent":
		return told(helpers.Indent(op.N))
	case "BoolToString":
		return told(helpers.BoolToString(op.N > 0))
	case "Min":
		return []any{helpers.Min(op.N, op.M)}
	case "Max":
		return []any{helpers.Max(op.N, op.M)}
	case "BisectLeft":
		return []any{helpers.BisectLeft(a, op.N)}
	case "BisectRight":
		return []any{helpers.BisectRight(a, op.N)}
	case "InsortLeft":
		return numbers(helpers.InsortLeft(a, op.N))
	case "InsortRight":
		return numbers(helpers.InsortRight(a, op.N))
	case "SortIntKeys":
		m := map[int]bool{}
		for _, k := range a {
			m[k] = true
		}
		return numbers(helpers.SortIntKeys(m))
	case "SortStringKeys":
		m, n, names := map[string]bool{}, []any{}, []string{"", "B", "BA", "a", "b"}
		for _, k := range a {
			m[names[k]] = true
		}
		for _, k := range helpers.SortStringKeys(m) {
			for i, name := range names {
				if name == k {
					n = append(n, i)
				}
			}
		}
		return n
	case "new":
		*z = helpers.NewLazy[int]()
	case "value":
		*z = helpers.LazyFromValue(op.N)
	case "func":
		*z = helpers.LazyFromFunc(f)
	case "set":
		(*z).Set(op.N)
	case "lazy":
		(*z).SetLazy(f)
	case "clear":
		(*z).Clear()
	case "isset":
		return []any{(*z).IsSet()}
	case "get":
		return []any{(*z).Get()}
	default:
		die("unknown operation", op.O)
	}
	return []any{"done"}
}

func numbers(a []int) []any {
	r := []any{}
	for _, n := range a {
		r = append(r, n)
	}
	return r
}

func init() {
	handlers["helpers"] = func(b []byte) []byte {
		var c helpCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		var z *helpers.Lazy[int]
		for _, op := range c.Ops {
			func() {
				defer func() {
					if e := recover(); e != nil {
						op.R = []any{"panic"}
						if op.O != "get" {
							op.R = append(op.R, fmt.Sprint(e))
						}
					}
				}()
				op.R = help(op, &z)
			}()
		}
		return mustJSON(c)
	}
}
