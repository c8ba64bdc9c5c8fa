package main

import (
	"fmt"
)

// faultTargets are the operations a fault can be armed for.
var faultTargets = []string{"put", "delk", "deli", "patk", "pati", "getk", "geti", "bl", "br", "len", "flush", "flushp", "prune", "touch", "ti", "layout", "dims", "validate", "dump", "discard", "open"}

// stepF runs one operation with fault f armed (nil: none). It returns false
// when the operation did not take effect: it failed as expected, or w.viol is set.
func (w *World) stepF(t *Tree, op Op, f *fault) bool {
	switch op.K {
	case "flush":
		return t.flush(false, f)
	case "flushp":
		return t.flush(true, f)
	case "prune":
		return t.prune(f)
	case "touch":
		return t.touch(f)
	case "ti":
		_, ok := t.touchItem(uint64(idxArg(len(t.m.s), op.A, op.B)), f)
		return ok
	case "layout":
		return t.layout(f)
	case "dims":
		return t.dims(f)
	case "validate":
		return t.validate(f)
	case "discard":
		return t.discard(f)
	case "dump":
		t.pre("dump")
		w.fault = f
		var err error
		captureStart()
		w.guard("Dump", func() { err = t.bt.Dump() })
		captureEnd()
		if !t.checkErr("dump", err, f) {
			return false
		}
		t.post("dump", nil, false)
		return w.viol == nil
	case "open":
		return t.openF(f)
	}
	return t.mapOp(op, f)
}

// openF opens the tree's last version again (the tree must be unmodified and
// everything else it ever stored pruned), replacing the tree object.
func (t *Tree) openF(f *fault) bool {
	w := t.w
	if !t.purge(true) {
		return false
	}
	t.pre("open")
	bt, err := t.open(t.cur, w.theCache(t.cfg), f)
	if f != nil && f.fired > 0 && w.viol == nil && err == nil {
		w.fail("faultlost", "OldBPlusTree returned no error although %s failed during it", faultKinds(f.mask))
		return false
	}
	if w.viol != nil {
		return false
	}
	if f != nil && f.fired > 0 {
		w.ctr.faultsFired++
		clear(t.resident)
		return false
	}
	if w.damage != nil && w.damage.reads > 0 {
		if err == nil {
			w.fail("damage", "OldBPlusTree read a damaged root (%s) and returned no error", w.damage)
		}
		return false
	}
	if err != nil {
		w.fail("reopen", "opening the flushed location %v failed: %v", t.cur.at, err)
		return false
	}
	t.bt = bt
	t.post("open", nil, false)
	return w.viol == nil
}

// settleOp brings the tree to a state where "open" may be used: flushed,
// purged and pruned, so that abandoning the tree object loses nothing.
func (t *Tree) beforeOpen() bool {
	if !t.flush(true, nil) || !t.prune(nil) {
		return false
	}
	t.orphanize()
	clear(t.resident)
	return true
}

func faultMask(sel int64) uint {
	all := uint(1)<<uint(nCb) - 1
	switch mod(sel, 9) {
	case 0, 1, 2:
		return all
	case 3:
		return 1 << uint(cbGet)
	case 4:
		return 1 << uint(cbPut)
	case 5:
		return 1 << uint(cbDiscard)
	case 6:
		return 1<<uint(cbUnpackKey) | 1<<uint(cbUnpackVal)
	case 7:
		return 1<<uint(cbPackKey) | 1<<uint(cbPackVal)
	}
	return 1<<uint(cbGet) | 1<<uint(cbPut) | 1<<uint(cbDiscard)
}

// runFault: Ops[:X] build a state; Ops[X] is executed with a fault at position
// p of its callback sequence for every p; then the rest runs normally.
// Y selects the fault shape; Z what happens between the failure and the retry.
// With Place bit ... storm mode is Kind "faultstorm".
func runFault(c *Case) *World {
	if len(c.Ops) == 0 {
		return newWorld(c)
	}
	x := int(mod(c.X, int64(len(c.Ops))))
	var last *World
	total := counters{}
	labels := map[string]int{}
	for p := 0; p < 400; p++ {
		w := newWorld(c)
		last = w
		fired := w.faultRun(x, p)
		for k, v := range w.labels {
			labels[k] += v
		}
		total.faultsFired += w.ctr.faultsFired
		total.ops += w.ctr.ops
		if w.viol != nil {
			w.viol.Msg += fmt.Sprintf(" (fault position %d)", p)
			break
		}
		if !fired {
			break
		}
	}
	last.ctr.faultsFired, last.ctr.ops = total.faultsFired, total.ops
	last.labels = labels
	return last
}

func (w *World) buildTrees() bool {
	for i, cfg := range w.c.Trees {
		t := w.newTree(i, cfg)
		if w.viol != nil {
			return false
		}
		w.trees = append(w.trees, t)
	}
	return true
}

func (w *World) faultRun(x, p int) (fired bool) {
	c := w.c
	if !w.buildTrees() {
		return
	}
	for i := 0; i < x; i++ {
		w.opIdx = i
		if !w.step(c.Ops[i]) && w.over() {
			return
		}
	}
	w.opIdx = x
	live := w.liveTrees()
	op := c.Ops[x]
	t := live[mod(int64(op.T), int64(len(live)))]
	if t.cfg.NilCB {
		return
	}
	f := &fault{mask: faultMask(c.Y), nth: p, times: 1 + int(mod(c.Y/9, 2)), after: mod(c.Y/18, 2) == 1}
	fired = w.faultOp(t, op, f)
	if w.viol != nil {
		return
	}
	for i := x + 1; i < len(c.Ops); i++ {
		w.opIdx = i
		if !w.step(c.Ops[i]) && w.over() {
			return
		}
	}
	w.opIdx = len(c.Ops)
	w.faultEnd()
	return
}

// faultEnd: everything still works and storage accounting is still exact.
func (w *World) faultEnd() {
	for _, t := range w.liveTrees() {
		if w.viol != nil || t.cfg.NilCB {
			return
		}
		if mod(w.c.Z/8, 2) == 0 && (!t.validate(nil) || !t.deep()) {
			return
		}
		if !t.flush(mod(w.c.Z/4, 2) == 0, nil) || !t.prune(nil) || !t.checkVersion(t.cur) {
			return
		}
		if mod(w.c.Z/16, 3) == 0 && !t.discard(nil) {
			return
		}
	}
	w.verifyStore()
	w.settle()
}

// faultOp executes op with f armed, and if f fired checks that the failure
// was clean and repeats the operation without it.
func (w *World) faultOp(t *Tree, op Op, f *fault) (fired bool) {
	c := w.c
	switch op.K {
	case "putrun", "delrun", "readrun", "lookall", "purge", "purgef", "limits", "floc", "snap", "crash", "reopen", "deep", "rej", "rejp", "ticycle", "fprune":
		if !w.step(op) {
			return
		}
		return false
	}
	if op.K == "open" && !t.beforeOpen() {
		return
	}
	wasDirty := t.dirty
	before := w.ctr.faultsFired
	// reaching the fault consumes at most f.times firings: retry under it
	discFailed := false
	for tries := 0; tries < 4; tries++ {
		w.stepF(t, op, f)
		if w.viol != nil {
			return
		}
		if f.fired == 0 {
			break
		}
		fired = true
		discFailed = discFailed || op.K == "discard" && w.discardStarted(t)
		skip := false
		if !discFailed && op.K != "open" {
			h := mix64(uint64(c.Z)*31 + uint64(c.Y)*7 + uint64(w.opIdx)*13)
			if h%5 == 0 && op.K != "prune" && op.K != "discard" {
				// the client reclaims what it can before going on
				if !t.prune(nil) {
					return
				}
			}
			skip = h/8%4 == 0 // and may never repeat the operation
			switch mod(c.Z, 4) {
			case 1: // look at everything before repeating
				if !t.deep() {
					return
				}
			case 2:
				if !t.validate(nil) {
					return
				}
				if op.K != "discard" && t.dirty == wasDirty {
					t.purge(false)
				}
			case 3:
				if op.K != "prune" && !t.flush(mod(c.Z/4, 2) == 1, nil) {
					return
				}
			}
		}
		if w.viol != nil {
			return
		}
		if skip {
			w.label("fault-unrepeated:" + op.K)
			break
		}
		if f.idx >= f.nth+f.times {
			f = nil
		}
		if f == nil {
			w.stepF(t, op, nil)
			if w.viol != nil {
				w.viol.Msg = "repeated after the fault: " + w.viol.Msg
				return
			}
			break
		}
		f.fired = 0
	}
	if w.ctr.faultsFired > before {
		w.label("fault:" + op.K)
	}
	if op.K == "discard" && t.dead {
		w.replace(t)
	}
	return fired
}

// discardStarted: a failed Discard already gave some storage away.
func (w *World) discardStarted(t *Tree) bool {
	return len(w.discs) > 0 || w.cnt[cbDiscard] > 0
}

// runStorm: every operation is hit by a fault somewhere and then repeated.
func runStorm(c *Case) *World {
	w := newWorld(c)
	if !w.buildTrees() {
		return w
	}
	for i, op := range c.Ops {
		w.opIdx = i
		live := w.liveTrees()
		t := live[mod(int64(op.T), int64(len(live)))]
		if t.cfg.NilCB {
			continue
		}
		h := (op.A*31+op.V*17+int64(i)*7+c.X)>>1&0x7fffffff + 1
		span := []int64{1, 2, 3, 5, 9, 30}[h%6]
		f := &fault{mask: faultMask(h / 7), nth: int(h / 64 % span), times: 1 + int(h/512%2), after: h/1024%2 == 0}
		if h%3 == 0 {
			f = nil
		}
		if f == nil {
			w.step(op)
		} else {
			w.faultOp(t, op, f)
		}
		if w.viol != nil {
			return w
		}
	}
	w.opIdx = len(c.Ops)
	w.faultEnd()
	return w
}

// runDamage: Ops[:X] build a state, then Ops[X] runs while one stored node
// comes back truncated or extended; then the intact bytes are back.
func runDamage(c *Case) *World {
	w := newWorld(c)
	if c.Image != nil {
		w.openImage()
	} else {
		w.buildTrees()
	}
	if w.viol != nil || len(c.Ops) == 0 {
		return w
	}
	x := int(mod(c.X, int64(len(c.Ops))))
	for i, op := range c.Ops {
		w.opIdx = i
		live := w.liveTrees()
		t := live[mod(int64(op.T), int64(len(live)))]
		if i < x || i >= x && (i-x)%3 != 0 {
			if !w.step(op) && w.over() {
				return w
			}
			continue
		}
		switch op.K {
		case "putrun", "delrun", "readrun", "lookall", "limits", "floc", "snap", "crash", "reopen", "rej", "rejp", "ticycle", "fprune", "purge", "purgef", "deep":
			if !w.step(op) && w.over() {
				return w
			}
			continue
		}
		if op.K == "open" {
			if !t.beforeOpen() {
				return w
			}
		} else if t.cur == nil || t.dirty && mod(c.Y, 3) == 0 {
			if !t.flush(true, nil) {
				return w
			}
		}
		t.purge(!t.dirty)
		if w.viol != nil {
			return w
		}
		var live2 []*blob
		for _, n := range t.cur.dec.nodes {
			if !n.b.discarded {
				live2 = append(live2, n.b)
			}
		}
		if len(live2) == 0 {
			continue
		}
		vi := mod(c.Y/3+int64(i), int64(len(live2)))
		if op.K == "open" {
			vi = 0
		}
		b := live2[vi]
		d := &damage{at: b, trunc: -1}
		h := c.Z + int64(i)*131
		if mod(h, 3) == 0 {
			d.extra = 1 + int(mod(h/3, 40))
		} else {
			d.trunc = int(mod(h/3, int64(len(b.data))))
			if mod(h, 7) == 0 {
				d.trunc = len(b.data) - 1
			}
		}
		if op.K == "dump" {
			op.B = 0
		}
		w.damage = d
		done := w.stepF(t, op, nil)
		if w.viol != nil {
			return w
		}
		hit := d.reads > 0
		if hit {
			kind := "trunc"
			if d.trunc < 0 {
				kind = "extra"
			}
			w.label("damage:" + kind + ":" + op.K)
			// the damage persists: still an error, still no panic
			if mod(c.Z/5, 2) == 0 && !w.discarding(op) {
				d.reads = 0
				done = w.stepF(t, op, nil)
				if w.viol != nil {
					return w
				}
			}
		}
		w.damage = nil
		if hit && !done {
			t.visited = false
			clear(t.resident)
			switch mod(c.Z/11, 3) {
			case 1:
				t.deep()
			case 2:
				t.validate(nil)
			}
			if w.viol != nil {
				w.viol.Msg = "after the intact bytes were back: " + w.viol.Msg
				return w
			}
			done = w.stepF(t, op, nil)
			if w.viol != nil {
				w.viol.Msg = "repeated after the intact bytes were back: " + w.viol.Msg
				return w
			}
		}
		if op.K == "discard" && t.dead {
			w.replace(t)
		}
	}
	w.opIdx = len(c.Ops)
	w.faultEnd()
	return w
}

func (w *World) discarding(op Op) bool { return op.K == "discard" }
