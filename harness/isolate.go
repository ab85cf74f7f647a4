package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Work items run in child processes, so that code under test which loops,
// exhausts memory or overflows its stack only loses the item at hand.

const (
	heapLimit = 1 << 30
	wallLimit = 10 * time.Minute
	maxDeaths = 24 // then the remaining items are skipped
)

var cpuLimit = 5 * time.Second // CPU time, so a busy machine does not matter

func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// worker reads one item per line on stdin and answers with one line each.
func worker(handle func([]byte) []byte) {
	debug.SetMaxStack(768 << 20)
	out := os.Stdout
	if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = devnull // what the code under test prints
	}
	var started atomic.Int64 // CPU time at the start of the current item, -1 none
	started.Store(-1)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			st := started.Load()
			if st < 0 {
				continue
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > heapLimit {
				fmt.Fprintln(out, "!memory")
				os.Exit(9)
			}
			if cpuTime()-time.Duration(st) > cpuLimit {
				fmt.Fprintln(out, "!endless")
				os.Exit(9)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		started.Store(int64(cpuTime()))
		res := handle(bytes.TrimSpace(line))
		started.Store(-1)
		out.Write(append(res, '\n'))
	}
}

type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

func startChild(kind string) *child {
	c := &child{cmd: exec.Command("/proc/self/exe", "worker", kind)}
	c.in, _ = c.cmd.StdinPipe()
	o, _ := c.cmd.StdoutPipe()
	c.out = bufio.NewReaderSize(o, 1<<20)
	c.cmd.Stderr = &c.err
	if err := c.cmd.Start(); err != nil {
		die("cannot start worker:", err)
	}
	return c
}

var reFrame = regexp.MustCompile(`(?m)^      .*/(\w+\.go:\d+)`)

// raceAt says where the two accesses are.
func raceAt(report string) string {
	at := ""
	for _, access := range strings.SplitN(report, "\n\n", 3)[:2] {
		if m := reFrame.FindStringSubmatch(access); m != nil {
			at += " " + m[1]
		}
	}
	return at
}

func (c *child) stop() { c.in.Close(); c.cmd.Process.Kill(); c.cmd.Wait() }

// one hands an item to the child. dead is "" or how the child died.
func (c *child) one(item []byte) (res []byte, dead string) {
	c.in.Write(append(item, '\n'))
	t := time.AfterFunc(wallLimit, func() { die("worker does not answer") })
	line, err := c.out.ReadBytes('\n')
	t.Stop()
	if err != nil {
		c.cmd.Wait()
		e := c.err.String()
		if bytes.Contains([]byte(e), []byte("stack overflow")) || bytes.Contains([]byte(e), []byte("stack exceeds")) {
			return nil, "stack"
		}
		if bytes.Contains([]byte(e), []byte("concurrent map")) || bytes.Contains([]byte(e), []byte("fatal error")) || bytes.Contains([]byte(e), []byte("panic")) {
			return nil, "fatal"
		}
		if i := strings.Index(e, "DATA RACE"); i >= 0 {
			return nil, "race" + raceAt(e[i:])
		}
		if ps := c.cmd.ProcessState; ps != nil && ps.ExitCode() == 1 {
			return nil, "exit" // the library calls os.Exit(1) on some bad grammars
		}
		die("worker died unexpectedly:", err, c.cmd.ProcessState, e)
	}
	line = bytes.TrimSpace(line)
	if len(line) > 0 && line[0] == '!' {
		c.cmd.Wait()
		return nil, string(line[1:])
	}
	return line, ""
}

// isolate runs items in parallel; dead(i, reason) tells of the ones lost.
func isolate(kind string, items [][]byte, nproc int) (res [][]byte, dead []string) {
	res = make([][]byte, len(items))
	dead = make([]string, len(items))
	var next, deaths atomic.Int64
	var wg sync.WaitGroup
	for p := 0; p < nproc; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *child
			for {
				i := int(next.Add(1)) - 1
				if i >= len(items) {
					break
				}
				if deaths.Load() > maxDeaths {
					dead[i] = "skipped"
					continue
				}
				if c == nil {
					c = startChild(kind)
				}
				res[i], dead[i] = c.one(items[i])
				if dead[i] != "" {
					deaths.Add(1)
					c = nil
				}
			}
			if c != nil {
				c.stop()
			}
		}()
	}
	wg.Wait()
	return
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		die("json:", err)
	}
	return b
}

// runCases runs cases in isolation; inputs that kill the worker get ["dead", how].
func runCases(kind string, cases []*Case, nproc int) {
	items := make([][]byte, len(cases))
	for i, c := range cases {
		items[i] = mustJSON(c)
	}
	res, dead := isolate(kind, items, nproc)
	type part struct{ ci, ii int }
	var again [][]byte
	var parts []part
	for i, c := range cases {
		if dead[i] == "" {
			var d Case
			if err := json.Unmarshal(res[i], &d); err != nil {
				die("worker answer:", err, string(res[i]))
			}
			c.Inputs, c.Silent = d.Inputs, d.Silent
			continue
		}
		c.Silent = true
		if c.Par > 0 { // alone an input shows nothing
			for _, in := range c.Inputs {
				in.Out, in.Log, in.Trace = []any{"dead", dead[i]}, []any{}, []any{}
			}
			continue
		}
		for k, in := range c.Inputs {
			d := *c
			d.Inputs = []*Input{in}
			again = append(again, mustJSON(&d))
			parts = append(parts, part{i, k})
		}
	}
	if len(again) == 0 {
		return
	}
	res, dead = isolate(kind, again, nproc)
	for n, p := range parts {
		if dead[n] != "" {
			cases[p.ci].Inputs[p.ii].Out = []any{"dead", dead[n]}
			cases[p.ci].Inputs[p.ii].Log = []any{}
			cases[p.ci].Inputs[p.ii].Trace = []any{}
			continue
		}
		var d Case
		if err := json.Unmarshal(res[n], &d); err != nil {
			die("worker answer:", err)
		}
		cases[p.ci].Inputs[p.ii] = d.Inputs[0]
	}
}
