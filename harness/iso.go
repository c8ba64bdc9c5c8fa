package main

import (
	sm "github.com/NVIDIA/sortedmap"
)

// Isolation under concurrency (C19): goroutine g is the only user of tree g.
// Trees share the cache, the store and its object space, so every answer of
// every call is determined by that goroutine's own program. With Z%3 == 0 the
// callbacks of tree g also use a second tree of goroutine g, as a client does
// that keeps its own records in one.

type journal struct {
	r    *concRun
	t    *Tree
	m    *Model
	busy bool
	n    uint64
	seed uint64
	at   rootLoc
}

// nest runs inside a callback of another tree, before that callback's own work.
func (cb *treeCB) nest() {
	j := cb.j
	if j == nil || j.busy || cb.w.stopped() {
		return
	}
	j.n++
	h := mix64(j.n*0x9e3779b97f4a7c15 + j.seed)
	if h%4 != 0 {
		return
	}
	j.busy = true
	defer func() { j.busy = false }()
	w, h := cb.w, h>>8
	a, v := int64(h>>20%4096), int64(h>>40%1000)
	var err error
	one := func(k string) {
		op := Op{K: k, A: a, V: v}
		want, _ := j.m.apply(op, w.c.U, w.c.Val)
		res, err := w.callMap(j.t.bt, op, len(j.m.s))
		if !w.stopped() && (err != nil || res != want) {
			w.fail("crosstree", "used from a callback of tree %d, %s on another tree gave %+v (%v), want %+v", cb.t.id, k, res, err, want)
		}
	}
	switch h % 16 {
	case 0, 1, 2, 3, 4, 5:
		one("put")
	case 6:
		one("delk")
	case 7, 8:
		one("getk")
	case 9:
		one("geti")
	case 10:
		one("len")
	case 11:
		w.guard("Flush", func() { _, _, _, err = j.t.bt.Flush(h>>4%2 == 0) })
	case 12:
		w.guard("Purge", func() { err = j.t.bt.Purge(false) })
	case 13:
		w.guard("Prune", func() { err = j.t.bt.Prune() })
	case 14:
		if w.cache != nil {
			w.cache.Stats()
		}
	case 15:
		w.guard("Validate", func() { err = j.t.bt.Validate() })
	}
	if err != nil {
		w.fail("crosstree", "used from a callback of tree %d, a call on another tree failed: %v", cb.t.id, err)
	}
}

func runIso(c *Case) *World {
	r := newConc(c)
	w := r.w
	if w.viol != nil {
		return w
	}
	type flushRec struct {
		at rootLoc
		m  *Model
	}
	n := len(r.trees)
	ms := make([]*Model, n)
	recs := make([][]flushRec, n)
	js := make([]*journal, n)
	for i, t := range r.trees {
		ms[i] = &Model{}
		if c.Z%3 == 0 {
			j := &journal{r: r, m: &Model{}, seed: uint64(c.Z) + uint64(i)<<32}
			j.t = &Tree{id: 500 + i, w: w, cfg: TreeCfg{Max: 4, Cache: t.cfg.Cache, Alt: t.cfg.Alt}, m: j.m}
			j.t.cb = &treeCB{w: w, t: j.t}
			w.guard("NewBPlusTree", func() {
				var cache sm.BPlusTreeCache
				if j.t.cfg.Cache || j.t.cfg.Alt {
					cache = w.theCache(j.t.cfg)
				}
				j.t.bt = sm.NewBPlusTree(4, w.compare, j.t.cb, cache)
			})
			if w.viol != nil {
				return w
			}
			t.cb.j, js[i] = j, j
		}
	}
	reps := int(1 + mod(c.Y, 5))
	r.run(func(g int, prog []Op) {
		if g >= n {
			return // a tree the minimisation took away
		}
		t := r.trees[g]
		m := ms[g]
		st := &concState{dirty: true}
		for rep := 0; rep < reps; rep++ {
			for _, op := range prog {
				if w.stopped() {
					return
				}
				o := op
				o.T = g
				o.A += int64(rep * 41)
				one := func(o Op) bool {
					res, err := w.callMap(t.bt, o, len(m.s))
					want, changed := m.apply(o, c.U, c.Val)
					if w.stopped() {
						return false
					}
					if err != nil || res != want {
						w.fail("crosstree", "tree %d, used by one goroutine while others use other trees: %s gave %+v (%v), want %+v", g, w.opArgs(o, len(m.s)), res, err, want)
						return false
					}
					st.dirty = st.dirty || changed
					r.done.Add(1)
					return true
				}
				switch {
				case op.K == "reset":
				case op.K == "putrun" || op.K == "delrun":
					o.B = min(o.B, 60)
					expandRun(o, m, c.U, one)
				case mapOps[op.K]:
					one(o)
				default:
					out := r.do(concIn{tree: g, op: o})
					if w.stopped() {
						return
					}
					if out.err != nil && o.K != "purgef" {
						w.fail("crosstree", "tree %d, used by one goroutine while others use other trees: %s failed: %v", g, o.K, out.err)
						return
					}
					if o.K == "flush" || o.K == "flushp" {
						if len(recs[g]) < 40 {
							recs[g] = append(recs[g], flushRec{out.at, m.clone()})
						}
					}
					st.s = m.s
					ok, next := w.concStep(st, concIn{tree: g, op: o}, out, t.cfg.Max, nil, false)
					if !ok && o.K != "stats" {
						w.fail("crosstree", "tree %d, used by one goroutine while others use other trees: %s gave %+v at=%v next=%d dims=%+v err=%v with %d items, modified=%v, last flush %v", g, o.K, out.Res, out.at, out.next, out.dims, out.err, len(m.s), st.dirty, st.at)
						return
					}
					st = next
				}
				r.done.Add(1)
				w.countOp()
			}
		}
	})
	w.settle()
	if w.viol != nil {
		return w
	}
	w.label("iso:concurrent")
	for i, t := range r.trees {
		t.cb.j = nil
		var got []kv
		if r.final(i, &got); w.viol != nil {
			return w
		}
		if msg := diffKV(got, ms[i].s); msg != "" {
			w.fail("crosstree", "after use next to other trees, tree %d does not hold what its goroutine put there: %s", i, msg)
			return w
		}
		if len(got) > w.ctr.maxItems {
			w.ctr.maxItems = len(got)
		}
		for _, rec := range recs[i] {
			d := w.image(t, rec.at, "flushed")
			if w.viol != nil {
				return w
			}
			if msg := diffKV(d.kv, rec.m.s); msg != "" {
				w.fail("crosstree", "tree %d flushed at %v while other trees were in use does not hold its map: %s", i, rec.at, msg)
				return w
			}
			w.label("iso:flush-image")
		}
	}
	for i, j := range js {
		if j == nil {
			continue
		}
		// the trees used from callbacks are whole as well
		r.trees = append(r.trees, j.t)
		r.maps = append(r.maps, j.t.bt)
		var got []kv
		if r.final(len(r.maps)-1, &got); w.viol != nil {
			return w
		}
		if msg := diffKV(got, j.m.s); msg != "" {
			w.fail("crosstree", "the tree used from callbacks of tree %d does not hold what was put there: %s", i, msg)
			return w
		}
		if len(got) > 3 {
			w.label("iso:nested")
		}
	}
	return w
}
