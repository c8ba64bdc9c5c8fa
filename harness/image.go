package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc64"
	"runtime"

	sm "github.com/NVIDIA/sortedmap"
)

// ImageSpec describes a stored tree written by this harness rather than by
// the library, directly from the documented node layout.
type ImageSpec struct {
	Height int
	Shape  []int64 // consumed cyclically: fan-outs, gaps, separators, order
	Empty  bool    // empty root leaf
	// Forge, when non-zero, plants one inconsistency Validate must find.
	Forge int
	Node  int64
	Delta int64
}

const (
	forgeNone      = iota
	forgeLeafItems // a leaf's own item count is wrong
	forgeRefItems  // the count recorded for a child is wrong
	forgeRefSwap   // two counts wrong, their sum right
	forgeLeafBoth  // leaf's own count wrong and the parent agrees with it
	forgeLeafUnder // non-root leaf under-filled
	forgeLeafOver  // leaf over-filled
	forgeNodeUnder // non-root interior node under-filled
	forgeNodeOver  // interior node over-filled
	nForge
)

type inode struct {
	leaf     bool
	root     bool
	kvs      []kv
	children []*inode
	seps     []int64
	minKey   int64
	maxKey   int64
	items    int
	own      int64 // delta on own recorded count
	refd     int64 // delta on the count the parent records
	at       loc
	ln       uint64
}

type shapeStream struct {
	s []int64
	i int
}

func (s *shapeStream) next(n int64) int64 {
	if n <= 1 {
		return 0
	}
	v := int64(s.i) * 0x9E3779B9
	if len(s.s) > 0 {
		v ^= s.s[s.i%len(s.s)]*31 + int64(s.i/len(s.s))*0x85EBCA6B
	}
	s.i++
	x := uint64(v)
	x ^= x >> 31
	x *= 0x94D049BB133111EB
	x ^= x >> 29
	return int64(x>>1) % n
}

// plan lays out the tree; keys are ordinals assigned left to right.
func (sp *ImageSpec) plan(max uint64) (root *inode, all []*inode, u int64) {
	st := &shapeStream{s: sp.Shape}
	next := st.next(3)
	half := int64(max / 2)
	var vid int64
	var build func(level int, isRoot bool) *inode
	leafBias := st.next(4)
	pick := func(lo, hi int64, extra int64) int64 {
		switch (leafBias + extra) % 4 {
		case 0:
			return lo
		case 1:
			return hi
		}
		return lo + st.next(hi-lo+1)
	}
	build = func(level int, isRoot bool) *inode {
		n := &inode{leaf: level == 0, root: isRoot}
		all = append(all, n)
		if n.leaf {
			lo := half
			if isRoot {
				lo = 1
			}
			cnt := pick(lo, int64(max), st.next(4))
			if isRoot && sp.Empty {
				cnt = 0
			}
			for i := int64(0); i < cnt; i++ {
				vid++
				n.kvs = append(n.kvs, kv{next, vid})
				next += 1 + st.next(4)
			}
			n.items = int(cnt)
			if cnt > 0 {
				n.minKey, n.maxKey = n.kvs[0].k, n.kvs[cnt-1].k
			}
			return n
		}
		lo := half
		if isRoot {
			lo = 1
		}
		keys := pick(lo, int64(max), st.next(4))
		for i := int64(0); i <= keys; i++ {
			c := build(level-1, false)
			if i == 0 {
				n.minKey = c.minKey
			} else {
				// any separator above the left neighbour and up to the child's smallest
				p := n.children[i-1].maxKey
				sep := c.minKey
				if st.next(2) == 0 {
					sep = p + 1 + st.next(c.minKey-p)
				}
				n.seps = append(n.seps, sep)
			}
			n.maxKey = c.maxKey
			n.items += c.items
			n.children = append(n.children, c)
		}
		return n
	}
	h := sp.Height
	if h < 1 || sp.Empty {
		h = 1
	}
	root = build(h-1, true)
	return root, all, next + 2 + st.next(40)
}

// forge plants the inconsistency; false when the shape has no place for it.
func (sp *ImageSpec) forge(root *inode, all []*inode, max uint64) bool {
	var cand []*inode
	for _, n := range all {
		switch sp.Forge {
		case forgeLeafItems:
			if n.leaf {
				cand = append(cand, n)
			}
		case forgeLeafBoth, forgeLeafUnder:
			if n.leaf && !n.root {
				cand = append(cand, n)
			}
		case forgeRefItems:
			if !n.root {
				cand = append(cand, n)
			}
		case forgeRefSwap, forgeNodeOver:
			if !n.leaf {
				cand = append(cand, n)
			}
		case forgeLeafOver:
			if n.leaf && len(n.kvs) > 0 {
				cand = append(cand, n)
			}
		case forgeNodeUnder:
			if !n.leaf && !n.root {
				cand = append(cand, n)
			}
		}
	}
	if len(cand) == 0 {
		return false
	}
	n := cand[mod(sp.Node, int64(len(cand)))]
	d := 1 + mod(sp.Delta/2, 3)
	if sp.Delta%2 != 0 {
		d = -d
	}
	switch sp.Forge {
	case forgeLeafItems:
		if int64(len(n.kvs))+d < 0 {
			d = -d
		}
		n.own = d
	case forgeLeafBoth:
		if int64(len(n.kvs))+d < 0 {
			d = -d
		}
		n.own, n.refd = d, d
	case forgeRefItems:
		if int64(n.items)+d < 0 {
			d = -d
		}
		n.refd = d
	case forgeRefSwap:
		if d < 0 {
			d = -d
		}
		k := int64(len(n.children))
		i := mod(sp.Delta, k)
		j := (i + 1 + mod(sp.Delta/3, k-1)) % k
		if int64(n.children[j].items) < d {
			d = 1
		}
		n.children[i].refd, n.children[j].refd = d, -d
	case forgeLeafUnder:
		keep := mod(sp.Delta, int64(max/2))
		n.kvs = n.kvs[:keep]
	case forgeLeafOver:
		last := n.kvs[len(n.kvs)-1]
		n.kvs = n.kvs[:0]
		for i := int64(max); i >= 0; i-- {
			k := last.k - i
			n.kvs = append(n.kvs, kv{k, 1000 + i})
		}
		// room for them is made by renumbering below
	case forgeNodeUnder:
		keep := 1 + mod(sp.Delta, int64(max/2))
		n.children = n.children[:keep]
		n.seps = n.seps[:keep-1]
		if len(n.children) < 2 { // stay well-formed: at least two children
			return false
		}
	case forgeNodeOver:
		c := n.children[len(n.children)-1]
		for uint64(len(n.children)) <= max+1 {
			n.children = append(n.children, c.copy())
			n.seps = append(n.seps, 0)
		}
	}
	if sp.Forge >= forgeLeafUnder {
		// renumber keys left to right; recompute counts and separators
		next := int64(1)
		var walk func(n *inode)
		walk = func(n *inode) {
			if n.leaf {
				n.items = len(n.kvs)
				n.minKey = next
				for i := range n.kvs {
					n.kvs[i].k = next
					next += 2
				}
				n.maxKey = next - 1
				return
			}
			n.items = 0
			for i, c := range n.children {
				walk(c)
				n.items += c.items
				if i > 0 {
					n.seps[i-1] = c.minKey
				}
			}
			n.minKey, n.maxKey = n.children[0].minKey, n.children[len(n.children)-1].maxKey
		}
		walk(root)
	}
	return true
}

func (n *inode) copy() *inode {
	c := *n
	c.kvs = append([]kv(nil), n.kvs...)
	c.seps = append([]int64(nil), n.seps...)
	c.children = nil
	for _, x := range n.children {
		c.children = append(c.children, x.copy())
	}
	return &c
}

func (n *inode) last() int64 {
	if n.leaf {
		if len(n.kvs) == 0 {
			return n.minKey
		}
		return n.kvs[len(n.kvs)-1].k
	}
	return n.children[len(n.children)-1].last()
}

func (n *inode) contents(m *Model) {
	if n.leaf {
		m.s = append(m.s, n.kvs...)
	}
	for _, c := range n.children {
		c.contents(m)
	}
}

// store writes the node images, children first.
func (w *World) storeImage(n *inode, owner int, max uint64, st *shapeStream) {
	order := make([]int, len(n.children))
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		j := int(st.next(int64(i + 1)))
		order[i], order[j] = order[j], order[i]
	}
	for _, i := range order {
		w.storeImage(n.children[i], owner, max, st)
	}
	var p []byte
	u64 := func(v uint64) { p = binary.LittleEndian.AppendUint64(p, v) }
	flag := func(b bool) {
		if b {
			p = append(p, 1)
		} else {
			p = append(p, 0)
		}
	}
	u64(uint64(int64(n.items) + n.own))
	flag(n.root)
	flag(n.leaf)
	if n.root {
		u64(max)
	}
	if n.leaf {
		u64(uint64(len(n.kvs)))
		for _, e := range n.kvs {
			p = append(p, encNum(w.c.KCod, e.k)...)
			if w.c.Val != valNil {
				p = append(p, encNum(w.c.VCod, e.v)...)
			}
		}
	} else {
		u64(uint64(len(n.children)))
		for i, c := range n.children {
			if i > 0 {
				p = append(p, encNum(w.c.KCod, n.seps[i-1])...)
			}
			u64(c.at.obj)
			u64(c.at.off)
			u64(c.ln)
			u64(uint64(int64(c.items) + c.refd))
		}
	}
	l := w.alloc(uint64(len(p)))
	b := &blob{at: l, data: p, sum: crc64.Checksum(p, crcTab), owner: owner}
	w.store[l] = b
	w.all = append(w.all, b)
	n.at, n.ln = l, uint64(len(p))
}

// fitUniverse makes room for u distinct keys.
func (w *World) fitUniverse(u int64) {
	c := w.c
	if u > c.U {
		c.U = u
	}
	if w.kk.name == "uint16" && c.U > 60000 {
		for i := range keyKinds {
			if keyKinds[i].name == "uint32" {
				c.Key, w.kk = i, keyKinds[i]
			}
		}
	}
}

// openImage builds, stores and opens the case's image as its only tree.
func (w *World) openImage() *Tree {
	c := w.c
	cfg := c.Trees[0]
	root, _, u := c.Image.plan(cfg.Max)
	w.fitUniverse(u)
	t := &Tree{id: 0, w: w, cfg: cfg, m: &Model{}, resident: map[loc]bool{}, pruneValid: true}
	t.cb = &treeCB{w: w, t: t}
	root.contents(t.m)
	if c.Val == valNil {
		for i := range t.m.s {
			t.m.s[i].v = 0
		}
	}
	w.storeImage(root, 0, cfg.Max, &shapeStream{s: c.Image.Shape, i: 1000})
	at := rootLoc{root.at.obj, root.at.off, root.ln}
	dec, de := w.decode(at, cfg.Max)
	if de != nil {
		panic(harnessError{"own image does not decode: " + de.msg})
	}
	if msg := diffKV(dec.kv, t.m.s); msg != "" {
		panic(harnessError{"own image decodes wrongly: " + msg})
	}
	t.cur = &Version{at: at, m: t.m.clone(), dec: dec, valid: true}
	t.versions = []*Version{t.cur}
	w.trees = append(w.trees, t)
	w.ctr.maxItems = len(t.m.s)
	w.ctr.maxHeight = dec.height
	w.label(fmt.Sprintf("image:height%d", dec.height))
	t.pre("open")
	w.preStats = nil
	bt, err := t.open(t.cur, w.theCache(cfg), nil)
	if w.viol != nil {
		return t
	}
	if err != nil {
		w.fail("image", "opening a well-formed stored tree (height %d, %d items) failed: %v", dec.height, len(t.m.s), err)
		return t
	}
	t.bt = bt
	t.post("open", nil, false)
	return t
}

func runImage(c *Case) *World {
	w := newWorld(c)
	t := w.openImage()
	if w.viol != nil {
		return w
	}
	if c.X%2 == 0 {
		if !t.validate(nil) || !t.deep() {
			return w
		}
	}
	for i, op := range c.Ops {
		w.opIdx = i
		if !w.step(op) && w.over() {
			return w
		}
	}
	w.opIdx = len(c.Ops)
	w.finish()
	return w
}

// runForged: Validate (or open) must notice the planted inconsistency.
func runForged(c *Case) *World {
	w := newWorld(c)
	cfg := c.Trees[0]
	root, all, u := c.Image.plan(cfg.Max)
	if !c.Image.forge(root, all, cfg.Max) {
		w.label("forge:no-place")
		return w
	}
	if c.Image.Forge >= forgeLeafUnder {
		u = root.last() + 3
	}
	w.fitUniverse(u)
	t := &Tree{id: 0, w: w, cfg: cfg, m: &Model{}, resident: map[loc]bool{}}
	t.cb = &treeCB{w: w, t: t}
	w.trees = append(w.trees, t)
	w.storeImage(root, 0, cfg.Max, &shapeStream{s: c.Image.Shape, i: 1000})
	w.begin("open", t)
	var bt sm.BPlusTree
	var err error
	w.guard("OldBPlusTree", func() {
		bt, err = sm.OldBPlusTree(root.at.obj, root.at.off, root.ln, w.compare, t.cb, w.theCache(cfg))
	})
	if w.viol != nil {
		return w
	}
	w.label(fmt.Sprintf("forge:%d", c.Image.Forge))
	w.ctr.damagedReads++
	if err != nil {
		w.label("forge:refused-at-open")
		return w
	}
	w.guard("Validate", func() { err = bt.Validate() })
	if w.viol != nil {
		return w
	}
	if err == nil {
		w.fail("forged", "Validate reports no error for a stored tree (maximum %d, %d items) in which %s", cfg.Max, root.items, forgeNames[c.Image.Forge])
		return w
	}
	// still the same verdict when everything is already in memory
	w.guard("Validate", func() { err = bt.Validate() })
	if w.viol == nil && err == nil {
		w.fail("forged", "Validate run again reports no error for a stored tree in which %s", forgeNames[c.Image.Forge])
	}
	for i := 0; i < 1000 && runtime.NumGoroutine() > w.baseline; i++ {
		runtime.Gosched()
	}
	return w
}

var forgeNames = [...]string{"", "a leaf's own item count is wrong", "the item count recorded for a child is wrong", "two children's recorded item counts are wrong (sum preserved)", "a leaf's own count and the count its parent records are both wrong", "a non-root leaf is under-filled", "a leaf is over-filled", "a non-root interior node is under-filled", "an interior node is over-filled"}
