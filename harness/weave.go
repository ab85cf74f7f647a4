package main

import (
	"math/rand"

	j "github.com/grepsuzette/joeson"
)

// weaver lets several parses go on in turns: one at a time runs, until a
// parse function of it pauses or it ends. What goes on next is drawn.
type weaver struct {
	r     *rand.Rand
	turn  []chan bool
	alive []int
	cur   int
}

func (w *weaver) next(from int) int {
	if len(w.alive) == 0 {
		return -1
	}
	if from >= 0 && w.r.Intn(2) == 0 {
		return from
	}
	return w.alive[w.r.Intn(len(w.alive))]
}

// weave parses all inputs at the same time, with two grammars built from the
// same lines.
func (c *Case) weave(s *session, gm *j.Grammar) {
	w := &weaver{r: rand.New(rand.NewSource(c.Weave))}
	grams := []*j.Grammar{gm, c.G.build(s, nil)}
	over := make(chan bool)
	s.logging = true
	resume := func(i int) {
		in := c.Inputs[i]
		w.cur, s.log, s.text = i, in.Log, bytesOf(in.In)
		if in.St != nil {
			s.text = bytesOf(in.St.Orig)
		}
	}
	s.pause = func() {
		i := w.cur
		c.Inputs[i].Log = s.log
		if w.r.Intn(40) == 0 { // something else
			guard(func() []any { return outcome(c.G.build(&session{}, nil).ParseString("ab")) })
		}
		if k := w.next(i); k != i {
			w.turn[k] <- true
			<-w.turn[i]
		}
		resume(i)
	}
	for i, in := range c.Inputs {
		in.Log, in.Trace, in.Opts = []any{}, []any{}, []string{}
		w.turn = append(w.turn, make(chan bool))
		w.alive = append(w.alive, i)
		which := grams[w.r.Intn(2)]
		go func() {
			<-w.turn[i]
			resume(i)
			in.Out = guard(func() []any { return outcome(in.parse(which)) })
			in.Log = s.log
			for n, k := range w.alive {
				if k == i {
					w.alive = append(w.alive[:n:n], w.alive[n+1:]...)
					break
				}
			}
			if k := w.next(-1); k >= 0 {
				w.turn[k] <- true
			} else {
				over <- true
			}
		}()
	}
	if len(c.Inputs) > 0 {
		w.turn[0] <- true
		<-over
	}
}
