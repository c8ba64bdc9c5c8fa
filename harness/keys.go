package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	sm "github.com/NVIDIA/sortedmap"
)

// Keys of every type are images of ordinals 0..U-1 under a strictly monotone
// mapping, so the reference model can work on ordinals only.

var errReject = errors.New("comparator rejects this key")
var errShort = errors.New("codec: short data")
var errBadType = errors.New("codec: wrong key or value type")

type ckey struct {
	o   int64
	bad bool
}

type keyKind struct {
	name string
	// mk builds the key for ordinal o out of universe u. salt selects among
	// representations that must compare equal (time zones, slice capacity).
	mk func(o, u, salt int64) sm.Key
	// cmp is the comparator handed to the map.
	cmp sm.Compare
	// ord recovers the ordinal of a key (ok=false when it is not an image).
	ord func(k sm.Key, u int64) (int64, bool)
	// bad builds keys cmp must reject.
	bad func(i int64) sm.Key
}

func spread(o, u int64, width uint64) uint64 {
	// strictly increasing 0..u-1 -> 0..width covering both ends
	if u <= 1 {
		return 0
	}
	step := width / uint64(u-1)
	if o == u-1 {
		return width
	}
	return uint64(o) * step
}

func unspread(v uint64, u int64, width uint64) (int64, bool) {
	if u <= 1 {
		return 0, v == 0
	}
	if v == width {
		return u - 1, true
	}
	step := width / uint64(u-1)
	o := int64(v / step)
	return o, v%step == 0 && o < u-1
}

var timeBase = time.Date(1700, 1, 1, 0, 0, 0, 0, time.UTC)

func strOf(o int64) string {
	if o == 0 {
		return ""
	}
	hi, lo := o/4, o%4
	return fmt.Sprintf("%05x", hi) + []string{"", "\x00", "\x00\xff", "z\xff\xff"}[lo]
}

func strOrd(s string) (int64, bool) {
	if s == "" {
		return 0, true
	}
	if len(s) < 5 {
		return 0, false
	}
	hi, err := strconv.ParseInt(s[:5], 16, 64)
	if err != nil {
		return 0, false
	}
	for lo, suf := range []string{"", "\x00", "\x00\xff", "z\xff\xff"} {
		if s[5:] == suf {
			return hi*4 + int64(lo), true
		}
	}
	return 0, false
}

func timeOf(o, u, salt int64) time.Time {
	t := timeBase.Add(time.Duration(spread(o, u, math.MaxInt64)))
	// keys of neighbouring ordinals may differ by nanoseconds only when u is large
	switch salt % 3 {
	case 1:
		t = t.In(time.FixedZone("E", 5*3600+1800))
	case 2:
		t = t.In(time.FixedZone("W", -8*3600))
	}
	return t
}

var keyKinds = []*keyKind{
	{name: "int-near", cmp: sm.CompareInt,
		mk: func(o, u, _ int64) sm.Key { return int(o - u/2) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			i, ok := k.(int)
			return int64(i) + u/2, ok
		},
		bad: func(i int64) sm.Key { return []sm.Key{int64(5), "x", nil, uint(7), 3.5}[i%5] }},
	{name: "int-wide", cmp: sm.CompareInt,
		mk: func(o, u, _ int64) sm.Key { return int(spread(o, u, math.MaxUint64) + (1 << 63)) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			i, ok := k.(int)
			if !ok {
				return 0, false
			}
			return unspread(uint64(i)-(1<<63), u, math.MaxUint64)
		},
		bad: func(i int64) sm.Key { return []sm.Key{uint64(5), []byte("x"), nil, int32(7), true}[i%5] }},
	{name: "uint16", cmp: sm.CompareUint16,
		mk: func(o, u, _ int64) sm.Key { return uint16(spread(o, u, math.MaxUint16)) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			i, ok := k.(uint16)
			if !ok {
				return 0, false
			}
			return unspread(uint64(i), u, math.MaxUint16)
		},
		bad: func(i int64) sm.Key { return []sm.Key{uint32(5), int(5), nil, "5"}[i%4] }},
	{name: "uint32", cmp: sm.CompareUint32,
		mk: func(o, u, _ int64) sm.Key { return uint32(spread(o, u, math.MaxUint32)) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			i, ok := k.(uint32)
			if !ok {
				return 0, false
			}
			return unspread(uint64(i), u, math.MaxUint32)
		},
		bad: func(i int64) sm.Key { return []sm.Key{uint64(5), int(5), nil, uint16(5)}[i%4] }},
	{name: "uint64", cmp: sm.CompareUint64,
		mk: func(o, u, _ int64) sm.Key { return spread(o, u, math.MaxUint64) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			i, ok := k.(uint64)
			if !ok {
				return 0, false
			}
			return unspread(i, u, math.MaxUint64)
		},
		bad: func(i int64) sm.Key { return []sm.Key{uint32(5), int(5), nil, int64(5)}[i%4] }},
	{name: "string", cmp: sm.CompareString,
		mk: func(o, u, _ int64) sm.Key { return strOf(o) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			s, ok := k.(string)
			if !ok {
				return 0, false
			}
			return strOrd(s)
		},
		bad: func(i int64) sm.Key { return []sm.Key{[]byte("a"), 5, nil, 'c'}[i%4] }},
	{name: "bytes", cmp: sm.CompareByteSlice,
		mk: func(o, u, salt int64) sm.Key {
			b := []byte(strOf(o))
			if salt%2 == 1 {
				b = append(make([]byte, 0, len(b)+16), b...)
			}
			return b
		},
		ord: func(k sm.Key, u int64) (int64, bool) {
			s, ok := k.([]byte)
			if !ok {
				return 0, false
			}
			return strOrd(string(s))
		},
		bad: func(i int64) sm.Key { return []sm.Key{"a", 5, nil, [2]byte{1, 2}}[i%4] }},
	{name: "time", cmp: sm.CompareTime,
		mk: func(o, u, salt int64) sm.Key { return timeOf(o, u, salt) },
		ord: func(k sm.Key, u int64) (int64, bool) {
			t, ok := k.(time.Time)
			if !ok {
				return 0, false
			}
			return unspreadTime(t, u)
		},
		bad: func(i int64) sm.Key { return []sm.Key{int64(5), time.Second, nil, "now"}[i%4] }},
	// client-written comparator: reversed order, huge magnitudes, rejects some keys
	{name: "custom", cmp: customCompare,
		mk: func(o, u, _ int64) sm.Key { return ckey{o: -o} },
		ord: func(k sm.Key, u int64) (int64, bool) {
			c, ok := k.(ckey)
			return -c.o, ok && !c.bad
		},
		bad: func(i int64) sm.Key { return []sm.Key{ckey{o: -i, bad: true}, ckey{o: i, bad: true}, 5, nil}[i%4] }},
}

func unspreadTime(t time.Time, u int64) (int64, bool) {
	d := t.Sub(timeBase)
	return unspread(uint64(d), u, math.MaxInt64)
}

func customCompare(a, b sm.Key) (int, error) {
	x, ok := a.(ckey)
	if !ok || x.bad {
		return 0, errReject
	}
	y, ok := b.(ckey)
	if !ok || y.bad {
		return 0, errReject
	}
	switch { // reversed: larger o sorts first
	case x.o > y.o:
		return math.MinInt + int(x.o&3), nil
	case x.o < y.o:
		return math.MaxInt - int(x.o&3), nil
	}
	return 0, nil
}

// ---- values -------------------------------------------------------------

const (
	valInt = iota
	valString
	valBytes
	valNil // every value nil: encodes to zero bytes
	valBox // a pointer whose target the client changes before it patches the same pointer in again
)

type box struct{ vid int64 }

func mkVal(mode int, vid int64) sm.Value {
	switch mode {
	case valInt:
		return vid
	case valString:
		return fmt.Sprintf("%d:%s", vid, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"[:vid%33])
	case valBytes:
		b := make([]byte, 8+vid%5)
		binary.BigEndian.PutUint64(b, uint64(vid))
		return b
	case valBox:
		return &box{vid}
	}
	return nil
}

func valEq(mode int, v sm.Value, vid int64) bool {
	switch w := mkVal(mode, vid).(type) {
	case []byte:
		g, ok := v.([]byte)
		return ok && bytes.Equal(g, w)
	case nil:
		return v == nil
	case int64:
		g, ok := v.(int64)
		return ok && g == w
	case *box:
		g, ok := v.(*box)
		return ok && g != nil && g.vid == w.vid
	case string:
		g, ok := v.(string)
		return ok && g == w
	}
	return false
}

func vidOf(mode int, v sm.Value) (int64, bool) {
	switch mode {
	case valInt:
		g, ok := v.(int64)
		return g, ok
	case valString:
		s, ok := v.(string)
		if !ok {
			return 0, false
		}
		num, _, _ := strings.Cut(s, ":")
		vid, err := strconv.ParseInt(num, 10, 64)
		if err != nil || vid < 0 || !valEq(mode, v, vid) {
			return 0, false
		}
		return vid, true
	case valBytes:
		b, ok := v.([]byte)
		if !ok || len(b) < 8 {
			return 0, false
		}
		vid := int64(binary.BigEndian.Uint64(b))
		return vid, vid >= 0 && valEq(mode, v, vid)
	case valBox:
		p, ok := v.(*box)
		if !ok || p == nil {
			return 0, false
		}
		return p.vid, true
	}
	return 0, v == nil
}

// ---- codecs -------------------------------------------------------------
// A codec encodes a non-negative integer; keys encode their ordinal, values
// their id.

const (
	codFixed = iota
	codVarint
	codPadded // length byte, then the number, then junk
	nCodecs
	codBulk = nCodecs // four length bytes, the number, now and then kilobytes of junk, rarely more than 65536 bytes
)

func encNum(c int, n int64) []byte {
	switch c {
	case codFixed:
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, uint64(n))
		return b
	case codVarint:
		return binary.AppendUvarint(nil, uint64(n))
	case codBulk:
		b := binary.AppendUvarint(make([]byte, 4, 16), uint64(n))
		if n%8 == 5 {
			junk := 300 + uint64(n)*977%4700
			if n%512 == 509 {
				junk += 60000 + uint64(n)*7919%90000
			}
			b = append(b, make([]byte, junk)...)
			for i := 14; i < len(b); i++ {
				b[i] = byte(i * 13)
			}
		}
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		return b
	}
	b := make([]byte, 1, 16)
	b = binary.AppendUvarint(b, uint64(n))
	for i := int64(0); i < n%6; i++ {
		b = append(b, byte(0xA0+i))
	}
	b[0] = byte(len(b) - 1)
	return b
}

func decNum(c int, p []byte) (n int64, used uint64, err error) {
	switch c {
	case codFixed:
		if len(p) < 8 {
			return 0, 0, errShort
		}
		return int64(binary.BigEndian.Uint64(p)), 8, nil
	case codVarint:
		v, k := binary.Uvarint(p)
		if k <= 0 {
			return 0, 0, errShort
		}
		return int64(v), uint64(k), nil
	case codBulk:
		if len(p) < 4 {
			return 0, 0, errShort
		}
		ln := int(binary.BigEndian.Uint32(p))
		if len(p) < 4+ln {
			return 0, 0, errShort
		}
		v, k := binary.Uvarint(p[4 : 4+ln])
		if k <= 0 {
			return 0, 0, errShort
		}
		return int64(v), 4 + uint64(ln), nil
	}
	if len(p) < 1 || len(p) < 1+int(p[0]) {
		return 0, 0, errShort
	}
	v, k := binary.Uvarint(p[1 : 1+int(p[0])])
	if k <= 0 {
		return 0, 0, errShort
	}
	return int64(v), 1 + uint64(p[0]), nil
}
