package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"

	j "github.com/grepsuzette/joeson"
)

// Histories of native values.

type nativeOp struct {
	O   string  `json:"o"`
	Obj int     `json:"obj"` // object, from 1
	K   [][]int `json:"k"`   // keys
	V   [][]any `json:"v"`   // values
	N   int     `json:"n"`
	R   []any   `json:"r"`
	X   []any   `json:"x,omitempty"`
}

type nativeCase struct {
	ID  int         `json:"id"`
	Ops []*nativeOp `json:"ops"`
}

type nativeStore struct{ objs []j.Ast }

func (s *nativeStore) value(v []any) j.Ast {
	num := func(x any) int {
		switch n := x.(type) {
		case float64:
			return int(n)
		case int:
			return n
		}
		panic("number")
	}
	switch v[0] {
	case "s":
		var b []int
		switch a := v[1].(type) {
		case []int:
			b = a
		case []any:
			for _, x := range a {
				b = append(b, num(x))
			}
		}
		return j.NewNativeString(bytesOf(b))
	case "i":
		return j.NewNativeInt(num(v[1]))
	case "j":
		return j.NewNativeInt(atoi(string(s.value([]any{"s", v[1]}).(j.NativeString))))
	case "u":
		return j.NewNativeUndefined()
	case "r":
		return s.objs[num(v[1])-1]
	}
	panic("value")
}

func (s *nativeStore) show(a j.Ast) []any {
	switch v := a.(type) {
	case nil:
		return []any{"nil"}
	case j.NativeString:
		return []any{"s", ints(string(v))}
	case j.NativeInt:
		if n := v.Int(); n > 999999999 || n < -999999999 {
			return []any{"j", ints(strconv.Itoa(n))}
		}
		return []any{"i", v.Int()}
	case j.NativeUndefined:
		return []any{"u"}
	}
	for i, o := range s.objs {
		if o == a {
			return []any{"r", i + 1}
		}
	}
	return []any{"?"}
}

func (s *nativeStore) do(op *nativeOp) []any {
	key := func() string { return bytesOf(op.K[0]) }
	val := func() j.Ast { return s.value(op.V[0]) }
	text := func(t string) []any { return []any{"s", ints(t)} }
	var m *j.NativeMap
	var a *j.NativeArray
	if op.Obj > 0 && op.Obj <= len(s.objs) {
		m, _ = s.objs[op.Obj-1].(*j.NativeMap)
		a, _ = s.objs[op.Obj-1].(*j.NativeArray)
	}
	switch op.O {
	case "newmap":
		h := map[string]j.Ast{}
		for i, k := range op.K {
			h[bytesOf(k)] = s.value(op.V[i])
		}
		if len(op.K) == 0 {
			s.objs = append(s.objs, j.NewEmptyNativeMap())
		} else {
			s.objs = append(s.objs, j.NewNativeMap(h))
		}
		return []any{"ok"}
	case "newarr":
		var vs []j.Ast
		for _, v := range op.V {
			vs = append(vs, s.value(v))
		}
		if len(vs) == 0 {
			s.objs = append(s.objs, j.NewEmptyNativeArray())
		} else {
			s.objs = append(s.objs, j.NewNativeArray(vs))
		}
		return []any{"ok"}
	case "set":
		m.Set(key(), val())
		return []any{"ok"}
	case "get":
		return s.show(m.Get(key()))
	case "getexists":
		v, ok := m.GetExists(key())
		if ok != (v != nil) {
			return []any{"?"}
		}
		return s.show(v)
	case "getorpanic":
		return s.show(m.GetOrPanic(key()))
	case "whichever":
		var ks []string
		for _, k := range op.K {
			ks = append(ks, bytesOf(k))
		}
		return s.show(m.GetWhicheverOrPanic(ks))
	case "exists":
		return []any{"b", m.Exists(key())}
	case "isundef":
		return []any{"b", m.IsUndefined(key())}
	case "getstring":
		if v, ok := m.GetStringExists(key()); ok {
			return text(v)
		}
		return []any{"nil"}
	case "getint":
		if v, ok := m.GetIntExists(key()); ok {
			return s.show(j.NewNativeInt(v))
		}
		return []any{"nil"}
	case "keys":
		ks := [][]int{}
		for _, k := range m.Keys() {
			ks = append(ks, ints(k))
		}
		return []any{"k", ks}
	case "isempty":
		return []any{"b", m.IsEmpty()}
	case "append":
		a.Append(val())
		return []any{"ok"}
	case "at":
		return s.show(a.Get(op.N))
	case "length":
		return []any{"i", a.Length()}
	case "array":
		vs := []any{}
		for _, v := range a.Array() {
			vs = append(vs, s.show(v))
		}
		return []any{"l", vs}
	case "concat":
		if m != nil {
			return text(string(m.Concat()))
		}
		return text(string(a.Concat()))
	case "string":
		return text(s.objs[op.Obj-1].String())
	case "vstring":
		return text(val().String())
	case "intfrom":
		if op.N == 0 {
			return s.show(j.NewNativeIntFrom(val()))
		}
		return s.show(j.NativeIntFrom(val()))
	case "stringfrom":
		if op.N == 0 {
			return s.show(j.NewNativeStringFrom(val()))
		}
		return s.show(j.NativeStringFrom(val()))
	case "undef":
		return []any{"b", j.IsUndefined(val())}
	case "bool":
		return []any{"b", val().(j.NativeInt).Bool()}
	case "frombool":
		return s.show(j.NewNativeIntFromBool(op.N != 0))
	}
	panic("operation " + op.O)
}

func init() {
	handlers["native"] = func(b []byte) []byte {
		var c nativeCase
		if err := json.Unmarshal(b, &c); err != nil {
			die(err)
		}
		s := &nativeStore{}
		for _, op := range c.Ops {
			op.R = guard(func() []any { return s.do(op) })
			if op.R[0] == "crash" {
				op.R = []any{"panic"}
			}
		}
		return mustJSON(c)
	}
	histories["native"] = func(r *rand.Rand, id int) (string, any) { return "native", randomNative(r, id) }
}

func randomNative(r *rand.Rand, id int) *nativeCase {
	c := &nativeCase{ID: id}
	words := []string{"", "a", "b", "ab", "1", "-2", "+30", "4x", "é", "aé", "B", "007", "-", "9999999", "2147483648", "-4294967297", "000000000001", "010", "-08", "0x1f", "0b1", "0o7", "1_0", " 5", "5 ", "1e3", "1.0", "+", "٣", "undefined", "nil", "[]", "true",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"}
	n, most, refs := 5+r.Intn(25), 4, 1
	big := r.Intn(10) == 0
	if big { // many keys and elements
		n, most, refs = 60+r.Intn(120), 50, 40
		for k := 10 + r.Intn(60); k > 0; k-- {
			words = append(words, fmt.Sprintf("k%d", k))
		}
	}
	word := func() []int { return ints(words[r.Intn(len(words))]) }
	var kinds []byte // of the objects
	value := func(below int) []any {
		switch r.Intn(6) {
		case 0:
			if r.Intn(5) == 0 {
				return []any{"j", ints([]string{"1000000000", "-4294967296", "9223372036854775807", "-9223372036854775808"}[r.Intn(4)])}
			}
			return []any{"i", r.Intn(2000) - 1000}
		case 1:
			return []any{"u"}
		case 2:
			if below > 1 && r.Intn(refs) == 0 {
				return []any{"r", 1 + r.Intn(below-1)} // no cycles
			}
		}
		return []any{"s", word()}
	}
	names := map[byte][]string{
		'm': {"set", "set", "set", "get", "getexists", "getorpanic", "whichever", "exists", "isundef", "getstring", "getint", "getint", "keys", "isempty", "concat", "string"},
		'a': {"append", "append", "at", "length", "array", "concat", "string"},
		'v': {"vstring", "intfrom", "stringfrom", "undef", "bool", "frombool"},
	}
	for ; n > 0; n-- {
		op := &nativeOp{K: [][]int{}, V: [][]any{}, Obj: 1}
		c.Ops = append(c.Ops, op)
		x := r.Intn(10)
		switch {
		case len(kinds) == 0 || (x == 0 && len(kinds) < 5 && (!big || r.Intn(8) == 0)):
			op.O = []string{"newmap", "newarr"}[r.Intn(2)]
			seen := map[string]bool{}
			for k := r.Intn(most); k > 0; k-- {
				w := word()
				if seen[bytesOf(w)] {
					continue
				}
				seen[bytesOf(w)] = true
				if op.O == "newmap" {
					op.K = append(op.K, w)
				}
				op.V = append(op.V, value(len(kinds)+1))
			}
			kinds = append(kinds, op.O[3])
		case x == 1:
			op.O = names['v'][r.Intn(6)]
			v := value(len(kinds) + 1)
			if op.O == "bool" {
				if v = value(len(kinds) + 1); v[0] != "j" {
					v = []any{"i", r.Intn(3)}
				}
			}
			op.V, op.N = [][]any{v}, r.Intn(2)
		default:
			op.Obj = 1 + r.Intn(len(kinds))
			ns := names[kinds[op.Obj-1]]
			op.O = ns[r.Intn(len(ns))]
			op.K = [][]int{word()}
			if op.O == "whichever" {
				op.K = [][]int{word(), word(), word()}
			}
			if op.O == "set" || op.O == "append" {
				op.V = [][]any{value(op.Obj)}
			}
			op.N = r.Intn(most)
		}
	}
	return c
}
