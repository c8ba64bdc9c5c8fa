package main

import (
	"math"
	"sort"
)

type kv struct{ k, v int64 }

// Model is the reference: a sorted slice of (ordinal, value id).
type Model struct{ s []kv }

func (m *Model) clone() *Model { return &Model{append([]kv(nil), m.s...)} }

func (m *Model) find(k int64) (int, bool) {
	i := sort.Search(len(m.s), func(i int) bool { return m.s[i].k >= k })
	return i, i < len(m.s) && m.s[i].k == k
}

// Res is the observable result of a map call.
type Res struct {
	Idx   int
	Key   int64
	Val   int64
	OK    bool
	HasKV bool
	Count int
}

// idxArg turns op operands into an index argument.
func idxArg(n int, a, b int64) int {
	if a < 0 {
		a = -a
	}
	switch b {
	case 1:
		return -1 - int(a%5)
	case 2:
		return n + int(a%5)
	case 3:
		if a%2 == 0 {
			return math.MaxInt - int(a%7)
		}
		return math.MinInt + int(a%7)
	case 4:
		switch (a / 7) % 4 { // look like valid ones when cut to 8, 16 or 32 bits
		case 1:
			return 1<<32*int(1+a%3) + int(a%int64(n+1))
		case 2:
			return max(n, 1<<16*int(1+a%3)+int(a%int64(n+1)))
		case 3:
			return -(1<<32)*int(1+a%3) + int(a%int64(n+1))
		}
		return math.MaxInt32 + int(a%7)
	case 5: // first or last
		if n == 0 {
			return 0
		}
		if a%2 == 0 {
			return 0
		}
		return n - 1
	}
	if n == 0 {
		return int(a % 3)
	}
	return int(a % int64(n))
}

// apply gives the ideal result of op and performs it.
func (m *Model) apply(op Op, u int64, vmode int) (r Res, changed bool) {
	k := mod(op.A, u)
	v := op.V
	if v < 0 {
		v = -v
	}
	if vmode == valNil {
		v = 0
	}
	i, found := m.find(k)
	n := len(m.s)
	switch op.K {
	case "put":
		if found {
			return
		}
		m.s = append(m.s, kv{})
		copy(m.s[i+1:], m.s[i:])
		m.s[i] = kv{k, v}
		r.OK, changed = true, true
	case "getk":
		if found {
			r.OK, r.Val = true, m.s[i].v
		}
	case "patk":
		if found {
			m.s[i].v = v
			r.OK, changed = true, true
		}
	case "delk":
		if found {
			m.s = append(m.s[:i], m.s[i+1:]...)
			r.OK, changed = true, true
		}
	case "bl":
		r.Idx, r.OK = i, found
		if !found {
			r.Idx = i - 1
		}
	case "br":
		r.Idx, r.OK = i, found
	case "len":
		r.Count = n
	case "geti", "pati", "deli":
		x := idxArg(n, op.A, op.B)
		if x < 0 || x >= n {
			return
		}
		r.OK = true
		switch op.K {
		case "geti":
			r.Key, r.Val, r.HasKV = m.s[x].k, m.s[x].v, true
		case "pati":
			m.s[x].v = v
			changed = true
		case "deli":
			m.s = append(m.s[:x], m.s[x+1:]...)
			changed = true
		}
	case "reset":
		changed = n > 0
		m.s = nil
	}
	return
}

func mod(a, u int64) int64 {
	a %= u
	if a < 0 {
		a += u
	}
	return a
}
