package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"math/rand"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		die("usage: jv COMMAND ...")
	}
	switch os.Args[1] {
	case "worker":
		if os.Args[2] == "deep" {
			cpuLimit = 25 * time.Second
		}
		worker(handlers[os.Args[2]])
	case "cases":
		cmdCases(os.Args[2:])
	case "hist":
		cmdHist(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		die("unknown command", os.Args[1])
	}
}

var handlers = map[string]func([]byte) []byte{
	"case": func(b []byte) []byte {
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		runCase(&c)
		for _, in := range c.Inputs { // TLC reads no JSON that is nested deeper than 255
			if nesting(in.Out) > 230 || nesting(in.Log) > 230 {
				in.Out, in.Log, in.Trace = []any{"dead", "skipped"}, []any{}, []any{}
			}
		}
		return mustJSON(c)
	},
}

// nesting is how deeply arrays are nested.
func nesting(v any) int {
	n := 0
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			n = max(n, nesting(e))
		}
	case []int:
	default:
		return 0
	}
	return n + 1
}

func writeLines[T any](path string, items []T) {
	f, err := os.Create(path)
	if err != nil {
		die(err)
	}
	w := bufio.NewWriter(f)
	for _, x := range items {
		w.Write(mustJSON(x))
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		die(err)
	}
	f.Close()
}

func cmdCases(args []string) {
	fs := flag.NewFlagSet("cases", flag.ExitOnError)
	kind := fs.String("kind", "core", "")
	n := fs.Int("n", 100, "")
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "")
	nproc := fs.Int("nproc", 8, "")
	fs.Parse(args)
	r := rand.New(rand.NewSource(*seed))
	var cases []*Case
	for i := 0; i < *n; i++ {
		cases = append(cases, newCase(r, profile(*kind, r), i+1, *kind))
	}
	runCases("case", cases, *nproc)
	writeLines(*out, cases)
}

// histories: by kind, how to make the id-th random one, and its handler.
var selection string // kind:selection, what the kind makes of it

var histories = map[string]func(r *rand.Rand, id int) (string, any){}

func cmdHist(args []string) {
	fs := flag.NewFlagSet("hist", flag.ExitOnError)
	kind := fs.String("kind", "", "")
	n := fs.Int("n", 100, "")
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	r := rand.New(rand.NewSource(*seed))
	*kind, selection, _ = strings.Cut(*kind, ":")
	var items [][]byte
	handler := ""
	for i := 0; i < *n; i++ {
		h, c := histories[*kind](r, i+1)
		handler = h
		items = append(items, mustJSON(c))
	}
	runItems(handler, items, *out)
}

// cmdReplay runs the histories in a file.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	kind := fs.String("kind", "", "")
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(*in)
	if err != nil {
		die(err)
	}
	var items [][]byte
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(l)) > 0 {
			items = append(items, l)
		}
	}
	runItems(*kind, items, *out)
}

// runItems writes the answers, one per line; what was lost as {"dead": reason, "item": item}.
func runItems(kind string, items [][]byte, out string) {
	res, dead := isolate(kind, items, 8)
	f, err := os.Create(out)
	if err != nil {
		die(err)
	}
	w := bufio.NewWriter(f)
	for i := range items {
		if dead[i] != "" {
			w.Write(mustJSON(map[string]any{"dead": dead[i], "item": json.RawMessage(items[i])}))
		} else {
			w.Write(res[i])
		}
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
}
