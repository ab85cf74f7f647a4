package main

import (
	"io"
	"math/rand"
	"os"
	"regexp"
	"strings"

	j "github.com/grepsuzette/joeson"
)

// TraceOpt are the trace options a grammar is built with.
type TraceOpt struct {
	Stack   bool `json:"stack"`
	Loop    bool `json:"loop"`
	Grammar bool `json:"grammar"`
	Line    int  `json:"line"`
	Skip    bool `json:"skip"`
}

func (t *TraceOpt) options() *j.TraceOptions {
	if t == nil {
		return j.Mute()
	}
	return &j.TraceOptions{Stack: t.Stack, Loop: t.Loop, Grammar: t.Grammar, FilterLine: t.Line, SkipSetup: t.Skip}
}

func (t *TraceOpt) mute() bool { return t == nil || !t.Stack && !t.Loop && !t.Grammar }

var captureFile *os.File

// captured runs f and returns what it printed.
func captured(f func()) string {
	if captureFile == nil {
		var err error
		if captureFile, err = os.CreateTemp("", "jv"); err != nil {
			die(err)
		}
		os.Remove(captureFile.Name())
	}
	captureFile.Truncate(0)
	captureFile.Seek(0, io.SeekStart)
	old := os.Stdout
	os.Stdout = captureFile
	defer func() { os.Stdout = old }()
	f()
	captureFile.Seek(0, io.SeekStart)
	b, err := io.ReadAll(captureFile)
	if err != nil {
		die(err)
	}
	return string(b)
}

var reANSI = regexp.MustCompile("\x1b\\[[0-9;]*m")
var reTrace = regexp.MustCompile("^(\\d+),(\\d+)\t.*?[>\\]] ((?:\\| )*)(\\*|`->:|`-hit:|`-set:|`-base:|`--- loop nil|\\|`--- loop iteration|`--- loop done)(.*)$")
var reTry = regexp.MustCompile(`^ (\S+): .* (\d+)$`)

// traceLines reads what was printed while parsing.
func traceLines(s string) []any {
	out := []any{}
	if s == "" {
		return out
	}
	names := map[string]string{"*": "*", "`->:": "->", "`-hit:": "hit", "`-set:": "set", "`-base:": "base",
		"`--- loop nil": "no loop", "|`--- loop iteration": "again", "`--- loop done": "done"}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		m := reTrace.FindStringSubmatch(reANSI.ReplaceAllString(l, ""))
		if m == nil {
			out = append(out, []any{"?", l})
			continue
		}
		x := []any{names[m[4]], atoi(m[1]), atoi(m[2]), len(m[3]) / 2}
		if m[4] == "*" {
			t := reTry.FindStringSubmatch(m[5])
			if t == nil {
				out = append(out, []any{"?", l})
				continue
			}
			x = append(x, t[1], atoi(t[2]))
		}
		out = append(out, x)
	}
	return out
}

func (in *Input) options() []j.ParseOption {
	var a []j.ParseOption
	for _, o := range in.Opts {
		switch o {
		case "debug":
			a = append(a, j.Debug{Bool: true})
		case "skiplog":
			a = append(a, j.SkipLog{Bool: true})
		case "nodebug":
			a = append(a, j.Debug{Bool: false})
		case "log":
			a = append(a, j.SkipLog{Bool: false})
		case "skipcache":
			a = append(a, j.SkipCache{Bool: true})
		}
	}
	return a
}

// randomTracing draws options for a case and its inputs.
func randomTracing(r *rand.Rand, c *Case) {
	c.Topt = &TraceOpt{Stack: r.Intn(3) == 0, Loop: r.Intn(3) == 0, Grammar: r.Intn(6) == 0, Line: -1, Skip: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		c.Topt.Line = r.Intn(3)
	}
	if r.Intn(3) == 0 {
		c.Topt = &TraceOpt{Line: -1}
	}
	for _, in := range c.Inputs {
		in.Opts = []string{}
		switch r.Intn(7) {
		case 0, 1:
			in.Opts = append(in.Opts, "debug")
		case 2:
			in.Opts = append(in.Opts, "skiplog")
		case 3:
			in.Opts = append(in.Opts, "debug", "skiplog")
		case 4:
			in.Opts = append(in.Opts, []string{"nodebug", "skipcache"}[r.Intn(2)])
		case 5:
			for k := 1 + r.Intn(4); k > 0; k-- {
				in.Opts = append(in.Opts, []string{"debug", "nodebug", "skiplog", "log", "skipcache"}[r.Intn(5)])
			}
		}
	}
}
