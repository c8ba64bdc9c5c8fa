package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	sm "github.com/NVIDIA/sortedmap"
)

type namedInt int
type namedU16 uint16
type namedU32 uint32
type namedU64 uint64
type namedString string
type namedBytes []byte
type namedTime time.Time

type cmpKind struct {
	name string
	f    sm.Compare
	mk   func(a, b int64) sm.Key
	nat  func(x, y sm.Key) int
}

func sign[T int | int64 | uint16 | uint32 | uint64 | string](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// edgy spreads a raw draw over the interesting values of a 64-bit space.
func edgy(a, b int64) uint64 {
	d := uint64(mod(b, 5)) - 2
	switch mod(a, 10) {
	case 0:
		return d
	case 1:
		return 1<<63 + d
	case 2:
		return 1<<63 - 1 + d
	case 3:
		return 1<<uint(mod(a/16, 64)) + d
	case 4:
		return ^uint64(0) << uint(mod(a/16, 64))
	case 5:
		return 1<<32 + d
	case 6:
		return 1<<16 + d
	case 7:
		return uint64(a)
	case 8:
		return uint64(a) * 0x9E3779B97F4A7C15
	}
	return mix64(uint64(a)) + uint64(b)
}

func edgyBytes(a, b int64) []byte {
	base := []byte{0, 0xff, 'a', 0x80, 0x7f, 0xc3, 0xa9, 0}
	n := int(mod(a, 7))
	out := make([]byte, 0, 16)
	for i := 0; i < n; i++ {
		out = append(out, base[mod(a>>uint(3*i+3), int64(len(base)))])
	}
	if mod(b, 4) == 0 {
		out = append(out, byte(b))
	}
	if mod(b, 11) == 0 {
		out = append(bytes.Repeat([]byte{'x'}, int(mod(b/11, 70))), out...)
	}
	if mod(b, 64) == 63 { // long: the difference, or only the length, lies far in
		long := []int{255, 256, 1023, 1024, 4095, 4096, 16384, 65535, 65536, 70000}
		out = append(bytes.Repeat([]byte{'y'}, long[mod(b/64, 10)]), out...)
	}
	return out
}

var cmpKinds = []cmpKind{
	{"CompareInt", sm.CompareInt, func(a, b int64) sm.Key { return int(edgy(a, b)) }, func(x, y sm.Key) int { return sign(x.(int), y.(int)) }},
	{"CompareUint16", sm.CompareUint16, func(a, b int64) sm.Key { return uint16(edgy(a, b) >> uint(16*mod(b/8, 4))) }, func(x, y sm.Key) int { return sign(x.(uint16), y.(uint16)) }},
	{"CompareUint32", sm.CompareUint32, func(a, b int64) sm.Key { return uint32(edgy(a, b) >> uint(32*mod(b/8, 2))) }, func(x, y sm.Key) int { return sign(x.(uint32), y.(uint32)) }},
	{"CompareUint64", sm.CompareUint64, func(a, b int64) sm.Key { return edgy(a, b) }, func(x, y sm.Key) int { return sign(x.(uint64), y.(uint64)) }},
	{"CompareString", sm.CompareString, func(a, b int64) sm.Key { return string(edgyBytes(a, b)) }, func(x, y sm.Key) int { return sign(x.(string), y.(string)) }},
	{"CompareByteSlice", sm.CompareByteSlice, func(a, b int64) sm.Key {
		v := edgyBytes(a, b)
		if len(v) == 0 && b%2 == 0 {
			return []byte(nil)
		}
		return v
	}, func(x, y sm.Key) int { // written out: byte by byte, then length
		p, q := x.([]byte), y.([]byte)
		for i := 0; i < len(p) && i < len(q); i++ {
			if p[i] != q[i] {
				return sign(int(p[i]), int(q[i]))
			}
		}
		return sign(len(p), len(q))
	}},
	{"CompareTime", sm.CompareTime, func(a, b int64) sm.Key {
		var t time.Time
		switch mod(b, 6) {
		case 0:
			t = time.Unix(int64(edgy(a, b))>>20, mod(a, 2))
		case 1:
			t = time.Unix(mod(a, 5), mod(b/6, 1000000000))
		case 2:
			t = time.Date(int(mod(a, 20000))-9000, 1, 1, 0, 0, 0, int(mod(b/6, 3)), time.UTC)
		case 3:
			t = time.Time{}.Add(time.Duration(mod(a, 3)))
		case 4:
			t = time.Unix(0, int64(edgy(a, b)))
		case 5:
			t = time.Unix(mod(a, 3)*3600, 0)
		}
		switch mod(b/6, 3) {
		case 1:
			t = t.UTC()
		case 2:
			t = t.In(time.FixedZone("z", int(mod(a, 24)-12)*3600+1800))
		}
		return t
	}, func(x, y sm.Key) int {
		p, q := x.(time.Time), y.(time.Time)
		if s := sign(p.Unix(), q.Unix()); s != 0 {
			return s
		}
		return sign(p.Nanosecond(), q.Nanosecond())
	}},
}

func wrongTyped(i, kind int64) sm.Key {
	n := 7
	all := []sm.Key{int(i), uint16(i), uint32(i), uint64(i), "w", []byte{1}, time.Unix(i, 0), nil,
		int8(1), int16(i), int32(i), int64(i), uint8(1), uint(i), uintptr(i), 1.5, float32(i), math.NaN(), true, 'x',
		&n, (*int)(nil), (*string)(nil), []int{1}, []string{"a"}, [2]byte{1, 2}, struct{}{}, time.Second, error(nil), errReject,
		namedInt(i), namedU16(i), namedU32(i), namedU64(i), namedString("w"), namedBytes{1}, namedTime(time.Unix(i, 0)),
		map[int]int{}, func() {}, []rune("w"), (*time.Time)(nil), &time.Time{}, []any{1}, complex(1, 2)}
	all = append(all[:kind], all[kind+1:]...)
	return all[mod(i, int64(len(all)))]
}

func cloneKey(k sm.Key) sm.Key {
	if b, ok := k.([]byte); ok && b != nil {
		return append([]byte{}, b...)
	}
	return k
}

func sgn(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

// runCmp: each op is one triple (A: first, B: second, V: third) of values for
// comparator c.Key.
func runCmp(c *Case) *World {
	w := newWorld(c)
	ki := mod(int64(c.Key), int64(len(cmpKinds)))
	k := cmpKinds[ki]
	call := func(x, y sm.Key) (r int, err error, ok bool) {
		cx, cy := cloneKey(x), cloneKey(y)
		ok = w.guard(k.name, func() { r, err = k.f(x, y) })
		w.ctr.ops++
		if b, isB := cx.([]byte); ok && isB && !bytes.Equal(b, x.([]byte)) {
			w.fail("cmp", "%s modified its first argument %v", k.name, cx)
		}
		if b, isB := cy.([]byte); ok && isB && !bytes.Equal(b, y.([]byte)) {
			w.fail("cmp", "%s modified its second argument %v", k.name, cy)
		}
		return
	}
	for i, op := range c.Ops {
		w.opIdx = i
		vals := []sm.Key{k.mk(op.A, op.B), k.mk(op.B, op.V), k.mk(op.A, op.V)}
		switch op.T { // near neighbours
		case 1:
			vals[1] = k.mk(op.A, op.B+1)
		case 2:
			vals[1] = k.mk(op.A+1, op.B)
		case 3:
			vals[1] = k.mk(op.A+7*8, op.B)
		}
		for x := range vals {
			for y := range vals {
				got, err, ok := call(vals[x], vals[y])
				if !ok || w.viol != nil {
					return w
				}
				if err != nil {
					w.fail("cmp", "%s(%v, %v) failed: %v", k.name, vals[x], vals[y], err)
					return w
				}
				want := k.nat(vals[x], vals[y])
				if sgn(got) != want {
					w.fail("cmp", "%s(%v, %v) = %d, natural order is %d", k.name, vals[x], vals[y], got, want)
					return w
				}
				w.label(fmt.Sprintf("%s:%d", k.name, want))
			}
		}
		bad := wrongTyped(op.V, []int64{0, 1, 2, 3, 4, 5, 6}[ki])
		bad2 := wrongTyped(op.A, ki)
		for j, p := range [][2]sm.Key{{bad, vals[0]}, {vals[0], bad}, {bad, bad2}, {bad, bad}} {
			_, err, ok := call(p[0], p[1])
			if !ok || w.viol != nil {
				return w
			}
			if err == nil {
				w.fail("cmp", "%s with wrongly typed arguments (%T, %T) returned no error", k.name, p[0], p[1])
				return w
			}
			w.label(fmt.Sprintf("%s:wrong%d", k.name, j))
		}
	}
	return w
}
