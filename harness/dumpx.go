package main

import (
	"regexp"
	"strconv"
	"strings"
)

// Beyond the keys and values, Dump describes the structure: B+Tree nodes with
// their location, item count and flags; LLRB nodes with colour, children and
// size, and a drawing. Where that description can be read in the form the
// library prints, it must be true. A form that cannot be read is not judged.

type dumpNode struct {
	obj, off, ln uint64
	items        uint64
	loaded       bool
	dirty        bool
	root, leaf   bool
	tag          string
}

var dumpField = regexp.MustCompile(`^ *\.(objectNumber|objectOffset|objectLength|items|loaded|dirty|root|leaf|btreeNodeCacheTag|minKeysPerNode|maxKeysPerNode) += (.*)$`)

// readDump collects the node descriptions of a B+Tree dump in order; ok only
// if every one of n nodes has all its fields.
func readDump(out string) (nodes []dumpNode, min, max uint64, ok bool) {
	var cur *dumpNode
	seen, tag := 0, ""
	done := func() bool { return cur == nil || seen == 8 }
	for _, l := range strings.Split(out, "\n") {
		m := dumpField.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		num, nerr := strconv.ParseUint(m[2], 0, 64)
		b, berr := strconv.ParseBool(m[2])
		isB := false
		switch m[1] {
		case "btreeNodeCacheTag":
			tag, _, _ = strings.Cut(m[2], " ")
			continue
		case "minKeysPerNode":
			min = num
			continue
		case "maxKeysPerNode":
			max = num
			continue
		case "objectNumber":
			if !done() {
				return nil, 0, 0, false
			}
			nodes = append(nodes, dumpNode{obj: num, tag: tag})
			cur, seen, tag = &nodes[len(nodes)-1], 0, ""
		}
		if cur == nil {
			return nil, 0, 0, false
		}
		switch m[1] {
		case "objectOffset":
			cur.off = num
		case "objectLength":
			cur.ln = num
		case "items":
			cur.items = num
		case "loaded":
			cur.loaded, isB = b, true
		case "dirty":
			cur.dirty, isB = b, true
		case "root":
			cur.root, isB = b, true
		case "leaf":
			cur.leaf, isB = b, true
		}
		if isB && berr != nil || !isB && nerr != nil {
			return nil, 0, 0, false
		}
		seen++
	}
	return nodes, min, max, len(nodes) > 0 && done() && max > 0
}

func (t *Tree) dumpStructure(out string) {
	w := t.w
	nodes, min, max, ok := readDump(out)
	if !ok {
		w.label("dump:unread")
		return
	}
	bad := func(f string, a ...any) { w.fail("dump", "Dump of %d items: "+f, append([]any{len(t.m.s)}, a...)...) }
	if max != t.cfg.Max || min != max/2 {
		bad("keys per node %d..%d, the tree was made with maximum %d", min, max, t.cfg.Max)
		return
	}
	leafItems := uint64(0)
	for i, n := range nodes {
		if n.leaf {
			leafItems += n.items
		}
		if n.root != (i == 0) {
			bad("node %d of the listing has root = %v", i, n.root)
			return
		}
		if !n.loaded {
			bad("node %d is listed as not loaded", i)
			return
		}
		if n.dirty && n.tag == "cleanLRU" || !n.dirty && n.tag == "dirtyLRU" {
			bad("node %d has dirty = %v and is on %s", i, n.dirty, n.tag)
			return
		}
	}
	if nodes[0].items != uint64(len(t.m.s)) || leafItems != nodes[0].items {
		bad("the root counts %d items, the leaves %d", nodes[0].items, leafItems)
		return
	}
	if t.dirtyUnknown {
		return
	}
	if t.dirty {
		if t.mods > 0 && !nodes[0].dirty {
			bad("the root is listed as not dirty although there are unflushed modifications")
		}
		return
	}
	if t.cur == nil {
		return
	}
	if len(nodes) != len(t.cur.dec.nodes) {
		bad("%d nodes listed, the stored tree has %d", len(nodes), len(t.cur.dec.nodes))
		return
	}
	for i, d := range t.cur.dec.nodes {
		n := nodes[i]
		if n.obj != d.b.at.obj || n.off != d.b.at.off || n.ln != uint64(len(d.b.data)) || n.items != d.items || n.leaf != d.leaf || n.dirty {
			bad("node %d listed at (%d,%d,%d) with %d items, leaf %v, dirty %v; it is stored at (%d,%d,%d) with %d items, leaf %v", i, n.obj, n.off, n.ln, n.items, n.leaf, n.dirty, d.b.at.obj, d.b.at.off, len(d.b.data), d.items, d.leaf)
			return
		}
	}
	w.label("dump:structure")
	if len(nodes) > 3 {
		w.label("dump:structure-multi")
	}
}

var (
	flatLine = regexp.MustCompile(`^(RED|BLACK) Node Key == (.*) Node\.left\.Key == (.*) Node\.right\.Key == (.*) len == (\d+)$`)
	drawLine = regexp.MustCompile(`^([ |]*)([/\\])----- (.*)$`)
)

// llrbStructure: the flat listing describes one left-leaning red-black search
// tree, and the drawing shows the same tree.
func (w *World) llrbStructure(out string, m *Model) {
	type fn struct {
		red     bool
		k, l, r string
		ln      int
	}
	var flat []fn
	depth := map[string]int{} // as drawn
	slash := map[string]string{}
	drawn := 0
	one := func(s string) string {
		t := tokens(s)
		if len(t) != 1 {
			return ""
		}
		return t[0]
	}
	for _, l := range strings.Split(out, "\n") {
		if f := flatLine.FindStringSubmatch(l); f != nil {
			n, _ := strconv.Atoi(f[5])
			flat = append(flat, fn{red: f[1] == "RED", k: one(f[2]), l: one(f[3]), r: one(f[4]), ln: n})
		} else if d := drawLine.FindStringSubmatch(l); d != nil {
			k := one(d[3])
			depth[k], slash[k] = len(d[1])/8+1, d[2]
			drawn++
		}
	}
	n := len(m.s)
	if len(flat) != n || n > 0 && drawn != n-1 {
		w.label("dump:unread")
		return
	}
	i := 0
	var bad string
	fail := func(s string) (int, int) {
		if bad == "" {
			bad = s
		}
		return 0, 0
	}
	var walk func(want string, d int, side string, upRed bool, lo, hi int) (size, black int)
	ord := func(k string) int {
		if k == "" {
			return -1
		}
		o, _ := strconv.ParseInt(k[1:], 10, 64)
		i, _ := m.find(o)
		return i
	}
	walk = func(want string, d int, side string, upRed bool, lo, hi int) (int, int) {
		if i == n {
			return fail("the listing ends early")
		}
		x := flat[i]
		i++
		o := ord(x.k)
		if o < lo || o > hi {
			return fail("key " + x.k + " is out of order in the listing")
		}
		if want != "" && x.k != want {
			return fail("key " + x.k + " is listed where " + want + " was announced as a child")
		}
		if d > 0 && (depth[x.k] != d || slash[x.k] != side) {
			return fail("the drawing does not show " + x.k + " where the listing has it")
		}
		if x.red && (upRed || d == 0 || side == "/") {
			return fail("node " + x.k + " cannot be red there")
		}
		size, lb, rb := 1, 0, 0
		if x.l != "" {
			s, b := walk(x.l, d+1, `\`, x.red, lo, o-1)
			size, lb = size+s, b
		}
		if x.r != "" {
			s, b := walk(x.r, d+1, "/", x.red, o+1, hi)
			size, rb = size+s, b
		}
		if bad == "" && size != x.ln {
			return fail("node " + x.k + " is listed with len " + strconv.Itoa(x.ln) + ", its subtree has " + strconv.Itoa(size))
		}
		if bad == "" && lb != rb {
			return fail("the subtrees of " + x.k + " differ in black height")
		}
		if !x.red {
			lb++
		}
		return size, lb
	}
	if n > 0 {
		walk("", 0, "", false, 0, n-1)
		if bad == "" && i != n {
			bad = "the listing has nodes that are no descendants of the first"
		}
	}
	if bad != "" {
		w.fail("dump", "Dump of %d items: %s", n, bad)
		return
	}
	w.label("dump:structure")
}
