package main

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"

	j "github.com/grepsuzette/joeson"
)

// gid is the number of the goroutine; asking for it synchronizes nothing.
func gid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, err := strconv.ParseInt(string(f[1]), 10, 64)
	if err != nil {
		die("goroutine number:", err)
	}
	return n
}

// parallel parses all inputs at the same time, each in a goroutine, with the
// same grammar or with one that the goroutine builds from the same lines.
// After they started the goroutines share nothing but what the library
// shares, so that the race detector sees all of it.
func (c *Case) parallel() {
	s := &session{}
	opt := j.GrammarOptions{TraceOptions: c.Topt.options()}
	if c.G.Gen > 0 {
		opt.LazyGrammar = lazily(generation(c.G.Gen))
	}
	lines := c.G.lines(c.G.Top, s)
	var gm *j.Grammar
	if built := guard(func() []any { gm = j.GrammarWithOptionsFromLines("g", opt, lines); return nil }); gm == nil {
		for _, in := range c.Inputs {
			in.Out, in.Log, in.Trace = built, []any{}, []any{}
		}
		return
	}
	peers := map[int64]*session{}
	var ready, over sync.WaitGroup
	var mu sync.Mutex
	start := make(chan bool)
	for i, in := range c.Inputs {
		in, own := in, c.Par > 1 && i%c.Par == 1
		ready.Add(1)
		over.Add(1)
		go func() {
			defer over.Done()
			me := &session{log: []any{}, logging: true, text: bytesOf(in.In)}
			if in.St != nil {
				me.text = bytesOf(in.St.Orig)
			}
			mu.Lock()
			peers[gid()] = me
			mu.Unlock()
			ready.Done()
			<-start
			in.Out = guard(func() []any {
				with := gm
				if own {
					with = j.GrammarWithOptionsFromLines("g", opt, lines)
				}
				return outcome(in.parse(with))
			})
			in.Log, in.Trace = me.log, []any{}
		}()
	}
	ready.Wait()
	s.peers = peers
	close(start)
	over.Wait()
}
