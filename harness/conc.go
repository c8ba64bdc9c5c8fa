package main

import (
	"fmt"
	"hash/crc64"
	"maps"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	sm "github.com/NVIDIA/sortedmap"
)

// concOut is what one concurrent call returned.
type concOut struct {
	Res
	at   rootLoc
	at0  bool // location was all zero
	err  error
	seq  []int64  // values handed to DumpValue, in order
	toks []string // keys and values Dump printed, in order
	dims sm.DimensionsReport
	rep  sm.LayoutReport
	next uint64
	lims [2]uint64 // limits Stats reported
	lim0 bool      // there is a cache
	pop  uint64    // clean and modified nodes Stats reported
}

type concIn struct {
	tree int
	op   Op
	idx  int
}

type concState struct {
	s     []kv
	dirty bool
	at    rootLoc
}

func (a *concState) equal(b *concState) bool {
	if a.dirty != b.dirty || a.at != b.at || len(a.s) != len(b.s) {
		return false
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return false
		}
	}
	return true
}

const concN = 8 // index arguments are resolved against this many items

type concRun struct {
	w     *World
	llrb  sm.LLRBTree
	maps  []sm.SortedMap
	trees []*Tree
	clock atomic.Int64
	done  atomic.Int64
	yctr  atomic.Uint64
	dump  sync.Mutex
	stop  atomic.Bool
	// racing: the goroutines are running
	racing atomic.Bool
	spawn  atomic.Int64
}

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func (r *concRun) maybeYield() {
	h := mix64(r.yctr.Add(1)*0x9e3779b97f4a7c15 + uint64(r.w.c.Z))
	if s := uint64(r.w.c.Slow); s > 0 && r.racing.Load() {
		// A mutex whose waiters wait for more than 1 ms is handed over to
		// them at each release: a lock released inside a call is then lost.
		if h%s == 0 {
			time.Sleep(time.Duration(1050+h>>32%500) * time.Microsecond)
		}
		return
	}
	switch {
	case h%16 == 0:
		runtime.Gosched()
	case h%512 == 1:
		time.Sleep(time.Duration(h>>32%60) * time.Microsecond)
	}
}

// newConc sets up the maps: an LLRB, or B+Trees sharing a cache.
func newConc(c *Case) *concRun {
	w := newWorld(c)
	w.conc = true
	r := &concRun{w: w}
	w.yield = r.maybeYield
	if c.Kind == "llrb" {
		r.llrb = w.newLLRB()
		r.maps = []sm.SortedMap{r.llrb}
		return r
	}
	for i, cfg := range c.Trees {
		cfg.NilCB = false
		t := &Tree{id: i, w: w, cfg: cfg, m: &Model{}}
		t.cb = &treeCB{w: w, t: t}
		w.construct(t)
		if w.viol != nil {
			return r
		}
		w.trees = append(w.trees, t)
		r.trees = append(r.trees, t)
		r.maps = append(r.maps, t.bt)
	}
	return r
}

func (r *concRun) do(in concIn) (o concOut) {
	w := r.w
	op := in.op
	if mapOps[op.K] && (op.K != "reset" || r.llrb != nil) {
		o.Res, o.err = w.callMap(r.maps[in.tree], op, concN)
		return
	}
	var bt sm.BPlusTree
	if r.llrb == nil {
		bt = r.trees[in.tree].bt
	}
	if bt == nil {
		switch op.K {
		case "dump":
			r.dump.Lock()
			defer r.dump.Unlock()
			captureStart()
			w.guard("Dump", func() { o.err = r.llrb.Dump() })
			o.toks = tokens(captureEnd())
		default:
			w.guard("Validate", func() { o.err = r.llrb.Validate() })
		}
		return
	}
	switch op.K {
	case "flush", "flushp":
		w.guard("Flush", func() { o.at.obj, o.at.off, o.at.ln, o.err = bt.Flush(op.K == "flushp") })
	case "purge":
		w.guard("Purge", func() { o.err = bt.Purge(false) })
	case "purgef":
		w.guard("Purge", func() { o.err = bt.Purge(true) })
	case "prune":
		w.guard("Prune", func() { o.err = bt.Prune() })
	case "touch":
		w.guard("Touch", func() { o.err = bt.Touch() })
	case "ti":
		w.guard("TouchItem", func() { o.next, o.err = bt.TouchItem(uint64(mod(op.A, concN+2))) })
	case "layout":
		w.guard("FetchLayoutReport", func() { o.rep, o.err = bt.FetchLayoutReport() })
	case "dims":
		w.guard("FetchDimensionsReport", func() { o.dims, o.err = bt.FetchDimensionsReport() })
	case "floc":
		w.guard("FetchLocation", func() { o.at.obj, o.at.off, o.at.ln = bt.FetchLocation() })
	case "validate":
		w.guard("Validate", func() { o.err = bt.Validate() })
	case "stats":
		if w.cache != nil {
			var st *sm.BPlusTreeCacheStats
			w.guard("Stats", func() { st = w.cache.Stats() })
			if st != nil {
				o.lims, o.lim0 = [2]uint64{st.EvictLowLimit, st.EvictHighLimit}, true
				o.pop = st.CleanLRUItems + st.DirtyLRUItems
			}
		}
	case "limits":
		if w.cache != nil {
			l := concLimits(op)
			w.guard("UpdateLimits", func() { w.cache.UpdateLimits(l[0], l[1]) })
			o.lim0 = true
		}
	case "spawn":
		r.spawnTree(in)
	case "dump":
		r.dump.Lock()
		defer r.dump.Unlock()
		w.mu.Lock()
		w.vals = nil
		w.mu.Unlock()
		captureStart()
		w.guard("Dump", func() { o.err = bt.Dump() })
		o.toks = tokens(captureEnd())
		w.mu.Lock()
		o.seq = append([]int64{}, w.vals...)
		w.mu.Unlock()
	case "deep":
		w.guard("Validate", func() { o.err = bt.Validate() })
	default:
		panic(harnessError{"conc op " + op.K})
	}
	return
}

// concLimits: the limits a "limits" step sets. The low limit determines the
// high one, so a mixture of two settings is recognised.
func concLimits(op Op) [2]uint64 {
	lo := uint64(mod(op.A, 64))
	l := [2]uint64{lo, (lo*5 + 3) % 64}
	if op.B < 0 { // too high for anything to be evicted
		l[1] += 1 << 33
	}
	return l
}

// limitsHistory: Stats and UpdateLimits act on one register.
func (r *concRun) limitsHistory(all []porcupine.Operation) {
	w := r.w
	if w.cache == nil {
		return
	}
	var h []porcupine.Operation
	for _, o := range all {
		k := o.Input.(concIn).op.K
		if (k == "stats" || k == "limits") && o.Output.(concOut).lim0 {
			h = append(h, o)
		}
	}
	st := w.cache.Stats()
	now := r.clock.Add(2)
	h = append(h, porcupine.Operation{ClientId: len(w.c.Progs), Input: concIn{op: Op{K: "stats"}}, Call: now - 1, Return: now,
		Output: concOut{lims: [2]uint64{st.EvictLowLimit, st.EvictHighLimit}, lim0: true}})
	pm := porcupine.Model{
		Init: func() any { return [2]uint64{w.lo, w.hi} },
		Step: func(state, input, output any) (bool, any) {
			s, in, out := state.([2]uint64), input.(concIn), output.(concOut)
			if in.op.K == "limits" {
				return true, concLimits(in.op)
			}
			return out.lims == s, s
		},
	}
	switch porcupine.CheckOperationsTimeout(pm, h, 3*time.Second) {
	case porcupine.Illegal:
		s := fmt.Sprintf("no order of these %d UpdateLimits and Stats calls explains the limits reported; initially %d/%d\n", len(h), w.lo, w.hi)
		for _, o := range h {
			in, out := o.Input.(concIn), o.Output.(concOut)
			if in.op.K == "limits" {
				out.lims = concLimits(in.op)
			}
			s += fmt.Sprintf("  g%d [%d,%d] %s %v\n", o.ClientId, o.Call, o.Return, in.op.K, out.lims)
			if len(s) > 4000 {
				break
			}
		}
		w.fail("lin", "%s", s)
	case porcupine.Unknown:
		w.label("conc:limits-undecided")
	default:
		w.label("conc:limits-linearized")
	}
}

// spawnTree: a tree this goroutine alone uses comes and goes next to the
// others, in the same cache.
func (r *concRun) spawnTree(in concIn) {
	w := r.w
	op := in.op
	if r.llrb != nil {
		return
	}
	cfg := w.c.Trees[int(mod(op.V, int64(len(w.c.Trees))))]
	t := &Tree{id: 1000 + int(r.spawn.Add(1)), w: w, cfg: TreeCfg{Max: cfg.Max, Cache: w.cache != nil}, m: &Model{}}
	t.cb = &treeCB{w: w, t: t}
	w.guard("NewBPlusTree", func() {
		var c sm.BPlusTreeCache
		if t.cfg.Cache {
			c = w.cache
		}
		t.bt = sm.NewBPlusTree(t.cfg.Max, w.compare, t.cb, c)
	})
	if t.bt == nil {
		w.fail("err", "NewBPlusTree(%d) returned nil", t.cfg.Max)
		return
	}
	step := func(o Op) bool {
		want, _ := t.m.apply(o, w.c.U, w.c.Val)
		res, err := w.callMap(t.bt, o, len(t.m.s))
		if !w.stopped() && (err != nil || res != want) {
			w.fail("lin", "on a tree only this goroutine uses, %s gave %+v (%v), want %+v", o.K, res, err, want)
		}
		return !w.stopped()
	}
	var err error
	var at rootLoc
	for i := int64(0); i < 2+mod(op.A, 3*int64(min(cfg.Max, 12))); i++ {
		if !step(Op{K: "put", A: op.A + i*7, V: i}) {
			return
		}
		if mod(op.B+i, 9) == 8 {
			w.guard("Flush", func() { at.obj, at.off, at.ln, err = t.bt.Flush(mod(op.B, 2) == 0) })
			if err != nil {
				w.fail("err", "Flush of a tree only this goroutine uses failed: %v", err)
			}
			if mod(op.B, 3) == 0 {
				w.guard("Prune", func() { err = t.bt.Prune() })
			}
			if !step(Op{K: "getk", A: op.A}) || !step(Op{K: "delk", A: op.A + i}) {
				return
			}
		}
	}
	if !step(Op{K: "len"}) {
		return
	}
	w.guard("Discard", func() { err = t.bt.Discard() })
	if err != nil {
		w.fail("err", "Discard of a tree only this goroutine uses failed: %v", err)
	}
	if w.stopped() {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.all {
		if b.owner == t.id && !b.discarded {
			w.fail("leak", "Discard of a tree during concurrent use of others left node (%d,%d)", b.at.obj, b.at.off)
			return
		}
	}
}

// race runs the programs; false when the worker must be abandoned.
func (r *concRun) run(body func(g int, prog []Op)) {
	w := r.w
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, prog := range w.c.Progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			body(g, prog)
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	r.racing.Store(true)
	close(start)
	r.await(fin, "concurrent calls")
	r.racing.Store(false)
}

// await waits for fin, watching for calls that never return.
func (r *concRun) await(fin chan struct{}, what string) {
	last, since, cpu := r.done.Load(), time.Now(), cpuTime()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-fin:
			return
		case <-tick.C:
		}
		if d := r.done.Load(); d != last {
			last, since, cpu = d, time.Now(), cpuTime()
			continue
		}
		el := time.Since(since)
		if el < 6*time.Second {
			continue
		}
		gs := libGoroutines()
		if allBlocked(gs) {
			time.Sleep(time.Second)
			gs2 := libGoroutines()
			if allBlocked(gs2) && len(gs2) == len(gs) && r.done.Load() == last {
				r.w.fail("deadlock", "%s: %d goroutines inside the library are blocked for ever, first:\n%s", what, len(gs2), gs2[0])
				panic(abandonWorker{})
			}
			continue
		}
		if len(gs) > 0 && cpuTime()-cpu > 25*time.Second {
			r.w.fail("spin", "%s: no call returned during %v of processor time, e.g.:\n%s", what, cpuTime()-cpu, gs[0])
			panic(abandonWorker{})
		}
		if el > 150*time.Second {
			panic(harnessError{"concurrent run made no progress in 150s (inconclusive)"})
		}
	}
}

// decodeAt reads the image at l, reclaimed or not.
func (w *World) decodeAt(l rootLoc, max uint64) (*Decoded, *decErr) {
	var undo []*blob
	for _, b := range w.all {
		if b.discarded {
			b.discarded = false
			undo = append(undo, b)
		}
	}
	d, e := w.decode(l, max)
	for _, b := range undo {
		b.discarded = true
	}
	return d, e
}

func (w *World) image(t *Tree, l rootLoc, what string) *Decoded {
	b := w.store[loc{l.obj, l.off}]
	if b == nil || uint64(len(b.data)) != l.ln || b.owner != t.id || b.data[8] != 1 {
		w.fail("lin", "%s returned location %v, which is no root this tree ever stored", what, l)
		return nil
	}
	d, e := w.decodeAt(l, t.cfg.Max)
	if e != nil {
		w.fail("lin", "the tree %s at %v during concurrent use is broken: %s", what, l, e.msg)
		return nil
	}
	return d
}

func runConc(c *Case) *World {
	switch c.X {
	case 1:
		return runOwner(c)
	case 2, 3:
		return runHammer(c)
	}
	r := newConc(c)
	w := r.w
	if w.viol != nil {
		return w
	}
	// sequential warm-up so that trees have several nodes, then concurrency
	init := make([]*concState, len(r.maps))
	for i := range r.maps {
		m := &Model{}
		dirty, at := true, rootLoc{}
		for _, op := range c.Ops {
			if mod(int64(op.T), int64(len(r.maps))) != int64(i) {
				continue
			}
			f := func(o Op) bool {
				if op.K == "delrun" {
					if i := len(m.s); i == 0 {
						return false
					}
				}
				var res Res
				var err error
				want, _ := (&Model{m.s}).clone().apply(o, c.U, c.Val)
				res, err = w.callMap(r.maps[i], o, len(m.s))
				if _, changed := m.apply(o, c.U, c.Val); changed {
					dirty = true
				}
				if w.viol == nil && (err != nil || res != want) {
					w.fail("seq", "sequential %s gave %+v (%v), want %+v", o.K, res, err, want)
				}
				return w.viol == nil
			}
			switch op.K {
			case "putrun", "delrun":
				expandRun(op, m, c.U, f)
			case "put", "patk", "delk", "pati", "deli", "getk", "geti", "bl", "br", "len":
				f(op)
			case "reset":
				r.do(concIn{tree: i, op: op})
				m.s = nil
			default:
				out := r.do(concIn{tree: i, op: op})
				switch op.K {
				case "flush", "flushp":
					dirty, at = false, out.at
				case "touch":
					dirty = true
				case "ti":
					dirty = dirty || uint64(mod(op.A, concN+2)) < uint64(len(m.s))
				}
			}
		}
		init[i] = &concState{s: m.s, dirty: dirty, at: at}
	}
	if w.viol != nil {
		return w
	}
	hist := make([][]porcupine.Operation, len(c.Progs))
	r.run(func(g int, prog []Op) {
		for _, op := range prog {
			in := concIn{tree: int(mod(int64(op.T), int64(len(r.maps)))), op: op}
			call := r.clock.Add(1)
			out := r.do(in)
			ret := r.clock.Add(1)
			r.done.Add(1)
			hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: call, Output: out, Return: ret})
			if w.stopped() {
				return
			}
		}
	})
	w.settle()
	if w.viol != nil {
		return w
	}
	byTree := make([][]porcupine.Operation, len(r.maps))
	overlap := 0
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	for i := range all {
		in := all[i].Input.(concIn)
		byTree[in.tree] = append(byTree[in.tree], all[i])
		w.label("cop:" + in.op.K)
		w.ctr.ops++
		if all[i].Return > all[i].Call+1 {
			overlap++
		}
	}
	if overlap > 0 {
		w.label("conc:overlapping")
	}
	if r.limitsHistory(all); w.viol != nil {
		return w
	}
	for i := range byTree {
		// a last look at everything, after all calls
		var seq []kv
		r.final(i, &seq)
		if w.viol != nil {
			return w
		}
		now := r.clock.Add(2)
		byTree[i] = append(byTree[i], porcupine.Operation{ClientId: len(c.Progs), Input: concIn{tree: i, op: Op{K: "final"}}, Call: now - 1, Return: now, Output: concOut{seq: flat(seq)}})
		imgs := map[rootLoc]*Decoded{}
		if at := init[i].at; at != (rootLoc{}) {
			imgs[at] = w.image(r.trees[i], at, "Flush")
			if w.viol != nil {
				return w
			}
		}
		for _, o := range byTree[i] {
			out := o.Output.(concOut)
			k := o.Input.(concIn).op.K
			if out.err != nil && !(k == "purgef") {
				w.fail("err", "concurrent %s failed: %v", k, out.err)
				return w
			}
			if (k == "flush" || k == "flushp" || k == "floc") && out.at != (rootLoc{}) {
				if imgs[out.at] == nil {
					if imgs[out.at] = w.image(r.trees[i], out.at, k); w.viol != nil {
						return w
					}
				}
			} else if k == "flush" || k == "flushp" {
				w.fail("lin", "Flush returned an all-zero location")
				return w
			}
		}
		w.linearize(i, byTree[i], init[i], imgs, r.llrb != nil)
		if w.viol != nil {
			return w
		}
	}
	return w
}

func flat(s []kv) []int64 {
	out := make([]int64, 0, 2*len(s))
	for _, e := range s {
		out = append(out, e.k, e.v)
	}
	return out
}

func (w *World) stopped() bool {
	w.failMu.Lock()
	defer w.failMu.Unlock()
	return w.viol != nil
}

// final reads the whole map sequentially and, for a B+Tree, flushes, prunes
// and re-opens it.
func (r *concRun) final(i int, seq *[]kv) {
	w := r.w
	sut := r.maps[i]
	n, err := sut.Len()
	if err != nil {
		w.fail("err", "Len after concurrent use failed: %v", err)
		return
	}
	for x := 0; x < n; x++ {
		k, v, ok, err := sut.GetByIndex(x)
		if err != nil || !ok {
			w.fail("deep", "after concurrent use GetByIndex(%d) of %d items gives ok=%v (%v)", x, n, ok, err)
			return
		}
		o, okk := w.kk.ord(k, w.c.U)
		vid, okv := vidOf(w.c.Val, v)
		if !okk || !okv {
			w.fail("deep", "after concurrent use item %d is (%v, %v), never stored", x, k, v)
			return
		}
		if len(*seq) > 0 && (*seq)[len(*seq)-1].k >= o {
			w.fail("deep", "after concurrent use item %d (#%d) is out of order", x, o)
			return
		}
		*seq = append(*seq, kv{o, vid})
	}
	m := &Model{s: *seq}
	w.deepMap(sut, m, nil)
	if w.viol != nil {
		return
	}
	w.guard("Validate", func() { err = sut.Validate() })
	if err != nil {
		w.fail("validate", "Validate after concurrent use reports %v", err)
	}
	if w.viol != nil || r.llrb != nil {
		return
	}
	t := r.trees[i]
	var l rootLoc
	w.guard("Flush", func() { l.obj, l.off, l.ln, err = t.bt.Flush(w.c.Y%2 == 0) })
	if w.viol == nil && err != nil {
		w.fail("err", "Flush after concurrent use failed: %v", err)
	}
	if w.viol == nil {
		w.guard("Prune", func() { err = t.bt.Prune() })
	}
	if w.viol == nil && err != nil {
		w.fail("err", "Prune after concurrent use failed: %v", err)
	}
	if w.viol != nil {
		return
	}
	d, de := w.decode(l, t.cfg.Max)
	if de != nil {
		w.fail("lin", "the tree flushed after concurrent use is broken: %s", de.msg)
		return
	}
	if msg := diffKV(d.kv, m.s); msg != "" {
		w.fail("lin", "the tree flushed after concurrent use does not hold the map: %s", msg)
		return
	}
	for _, b := range w.all {
		if b.owner == t.id && !b.discarded && !d.reach[b] {
			w.fail("leak", "after concurrent use, Flush and Prune node (%d,%d) is neither discarded nor reachable", b.at.obj, b.at.off)
			return
		}
		if crc64.Checksum(b.data, crcTab) != b.sum {
			w.fail("rewrite", "stored bytes of node (%d,%d) changed after they were written", b.at.obj, b.at.off)
			return
		}
	}
	t.m = m
	t.checkVersion(&Version{at: l, m: m, dec: d, valid: true})
}

func (w *World) linearize(tree int, ops []porcupine.Operation, init *concState, imgs map[rootLoc]*Decoded, llrb bool) {
	max := uint64(0)
	if !llrb {
		max = w.c.Trees[tree].Max
	}
	pm := porcupine.Model{
		Init:  func() any { return init },
		Equal: func(a, b any) bool { return a.(*concState).equal(b.(*concState)) },
		Step: func(state, input, output any) (bool, any) {
			return w.concStep(state.(*concState), input.(concIn), output.(concOut), max, imgs, llrb)
		},
	}
	switch porcupine.CheckOperationsTimeout(pm, ops, 3*time.Second) {
	case porcupine.Illegal:
		w.fail("lin", "no order of the %d calls on map %d explains their results:\n%s", len(ops), tree, describeHist(ops, init))
	case porcupine.Unknown:
		w.label("conc:undecided")
	default:
		w.label("conc:linearized")
	}
}

// concStep: the map in state s may answer out to in, and is then in the state returned.
func (w *World) concStep(s *concState, in concIn, out concOut, max uint64, imgs map[rootLoc]*Decoded, llrb bool) (bool, *concState) {
	u, vm := w.c.U, w.c.Val
	n := len(s.s)
	switch in.op.K {
	case "put", "patk", "delk", "pati", "deli", "reset":
		m := &Model{append([]kv(nil), s.s...)}
		want, changed := m.apply(fixIdx(in.op, n), u, vm)
		if want != out.Res {
			return false, s
		}
		if !changed {
			return true, s
		}
		return true, &concState{s: m.s, dirty: true, at: s.at}
	case "getk", "geti", "bl", "br", "len":
		m := &Model{s.s}
		want, _ := m.apply(fixIdx(in.op, n), u, vm)
		return want == out.Res, s
	case "flush", "flushp":
		if !s.dirty {
			return out.at == s.at, s
		}
		if imgs != nil && diffKV(imgs[out.at].kv, s.s) != "" {
			return false, s
		}
		return true, &concState{s: s.s, at: out.at}
	case "floc":
		if !s.dirty {
			return out.at == s.at, s
		}
		return out.at == (rootLoc{}) || out.at == s.at, s
	case "purgef":
		// refused exactly while something is unflushed
		return (out.err != nil) == s.dirty, s
	case "touch":
		return true, &concState{s: s.s, dirty: true, at: s.at}
	case "ti":
		a := uint64(mod(in.op.A, concN+2))
		if a >= uint64(n) {
			return out.next == 0, s
		}
		if out.next <= a || out.next > uint64(n) {
			return false, s
		}
		return true, &concState{s: s.s, dirty: true, at: s.at}
	case "dims":
		return out.dims.Items == uint64(n) && out.dims.MaxKeysPerNode == max && out.dims.MinKeysPerNode == max/2 && int(out.dims.Height) <= heightBound(n, max) && int(out.dims.Height) >= heightFloor(n, max), s
	case "layout":
		if d := imgs[s.at]; !s.dirty && d != nil {
			return maps.Equal(map[uint64]uint64(out.rep), d.bytes), s
		}
		return true, s
	case "dump":
		if llrb {
			return llrbDumpFits(out.toks, s.s), s
		}
		if len(out.seq) != n || !dumpFits(out.toks, s.s) {
			return false, s
		}
		for i := range s.s {
			if s.s[i].v != out.seq[i] {
				return false, s
			}
		}
		return true, s
	case "final":
		if len(out.seq) != 2*n {
			return false, s
		}
		for i := range s.s {
			if s.s[i].k != out.seq[2*i] || s.s[i].v != out.seq[2*i+1] {
				return false, s
			}
		}
		return true, s
	}
	return true, s
}

// dumpFits: the key/value pairs a B+Tree's Dump printed are those of s.
func dumpFits(toks []string, s []kv) bool {
	i := 0
	for j, t := range toks {
		if t[0] != 'V' {
			continue
		}
		if i == len(s) || j == 0 || toks[j-1] != keyTok(s[i].k) || t[1:] != strconv.FormatInt(s[i].v, 10) {
			return false
		}
		i++
	}
	return i == len(s)
}

// llrbDumpFits: the listing names exactly the keys of s, and the drawing
// after it has each once, in descending order.
func llrbDumpFits(toks []string, s []kv) bool {
	n := len(s)
	if len(toks) < n {
		return false
	}
	for i, t := range toks[len(toks)-n:] {
		if t != keyTok(s[n-1-i].k) {
			return false
		}
	}
	seen := make(map[string]bool, n)
	for _, t := range toks[:len(toks)-n] {
		seen[t] = true
	}
	return len(seen) == n
}

func keyTok(k int64) string { return "K" + strconv.FormatInt(k, 10) }

// fixIdx: index operands were resolved against concN items when executed.
func fixIdx(op Op, n int) Op {
	switch op.K {
	case "geti", "pati", "deli":
		x := idxArg(concN, op.A, op.B)
		if x < 0 {
			return Op{K: op.K, A: 0, B: 1, V: op.V}
		}
		if x >= n {
			return Op{K: op.K, A: 0, B: 2, V: op.V}
		}
		return Op{K: op.K, A: int64(x), V: op.V}
	}
	return op
}

func describeHist(ops []porcupine.Operation, init *concState) string {
	s := fmt.Sprintf("initially %v\n", init.s)
	for _, o := range ops {
		in, out := o.Input.(concIn), o.Output.(concOut)
		s += fmt.Sprintf("  g%d [%d,%d] %s A=%d B=%d V=%d -> %+v at=%v seq=%v next=%d rep=%v err=%v\n", o.ClientId, o.Call, o.Return, in.op.K, in.op.A, in.op.B, in.op.V, out.Res, out.at, out.seq, out.next, out.rep, out.err)
		if len(s) > 6000 {
			return s + "  ..."
		}
	}
	return s
}

// runOwner: long programs. Goroutine g alone changes keys congruent g; every
// keyed answer about its own keys is then determined.
func runOwner(c *Case) *World {
	r := newConc(c)
	w := r.w
	if w.viol != nil {
		return w
	}
	n := int64(len(c.Progs))
	type flushRec struct {
		tree int
		at   rootLoc
		own  []kv
	}
	own := make([][]*Model, len(c.Progs))
	recs := make([][]flushRec, len(c.Progs))
	var kinds sync.Map
	reps := int(1 + c.Y%8)
	r.run(func(g int, prog []Op) {
		ms := make([]*Model, len(r.maps))
		for i := range ms {
			ms[i] = &Model{}
		}
		own[g] = ms
		for rep := 0; rep < reps; rep++ {
			for j, op := range prog {
				if w.stopped() {
					return
				}
				ti := int(mod(int64(op.T)+int64(rep), int64(len(r.maps))))
				one := func(o Op) bool {
					k := mod(o.A, c.U)
					if k = k - k%n + int64(g); k >= c.U {
						k = int64(g) % c.U
						if k%n != int64(g) {
							return true
						}
					}
					o.A = k
					res, err := w.callMap(r.maps[ti], o, concN)
					r.done.Add(1)
					if err != nil {
						w.fail("err", "concurrent %s failed: %v", w.opArgs(o, 0), err)
						return false
					}
					switch o.K {
					case "bl", "br":
						if _, have := ms[ti].find(k); have != res.OK {
							w.fail("lin", "concurrent %s by the only goroutine changing that key reports found=%v, want %v", w.opArgs(o, 0), res.OK, have)
							return false
						}
						return true
					}
					want, _ := ms[ti].apply(o, c.U, c.Val)
					if res != want {
						w.fail("lin", "concurrent %s by the only goroutine changing that key gave %+v, want %+v", w.opArgs(o, 0), res, want)
						return false
					}
					return true
				}
				kinds.Store(op.K, true)
				o := op
				o.A += int64(rep * 37)
				switch op.K {
				case "putrun", "delrun":
					k := "put"
					if op.K == "delrun" {
						k = "delk"
					}
					for i := int64(0); i < op.B%40; i++ {
						if !one(Op{K: k, A: o.A + i*n*(1+mod(op.V, 3)), V: op.V + i}) {
							return
						}
					}
				case "put", "getk", "patk", "delk", "bl", "br":
					one(o)
				case "geti":
					if res, err := w.callMap(r.maps[ti], o, concN*4); err != nil {
						w.fail("err", "concurrent GetByIndex failed: %v", err)
					} else if res.OK && res.Key%n == int64(g) {
						i, have := ms[ti].find(res.Key)
						if !have || ms[ti].s[i].v != res.Val {
							w.fail("lin", "concurrent GetByIndex gave key #%d with value %d, but the only goroutine changing that key has it otherwise", res.Key, res.Val)
						}
					}
				case "len":
					if res, err := w.callMap(r.maps[ti], o, 0); err != nil {
						w.fail("err", "concurrent Len failed: %v", err)
					} else if res.Count < len(ms[ti].s) {
						w.fail("lin", "concurrent Len gave %d, this goroutine alone has %d items in", res.Count, len(ms[ti].s))
					}
				case "pati", "deli", "reset":
				case "flush", "flushp":
					if r.llrb != nil {
						break
					}
					out := r.do(concIn{tree: ti, op: o})
					if out.err != nil {
						w.fail("err", "concurrent Flush failed: %v", out.err)
						return
					}
					if len(recs[g]) < 24 || j%7 == 0 && len(recs[g]) < 60 {
						recs[g] = append(recs[g], flushRec{ti, out.at, append([]kv(nil), ms[ti].s...)})
					}
				default:
					out := r.do(concIn{tree: ti, op: o})
					if out.err != nil && op.K != "purgef" {
						w.fail("err", "concurrent %s failed: %v", op.K, out.err)
						return
					}
				}
				r.done.Add(1)
				w.countOp()
			}
		}
	})
	w.settle()
	if w.viol != nil {
		return w
	}
	kinds.Range(func(k, _ any) bool { w.label("cop:" + k.(string)); return true })
	w.label("conc:owner")
	for i := range r.maps {
		var got []kv
		r.final(i, &got)
		if w.viol != nil {
			return w
		}
		m := &Model{}
		for g := range own {
			for _, e := range own[g][i].s {
				m.apply(Op{K: "put", A: e.k, V: e.v}, c.U, c.Val)
			}
		}
		if msg := diffKV(got, m.s); msg != "" {
			w.fail("lin", "after concurrent use map %d does not hold what its goroutines put there: %s", i, msg)
			return w
		}
		if len(m.s) > w.ctr.maxItems {
			w.ctr.maxItems = len(m.s)
		}
	}
	for g, rs := range recs {
		for _, rec := range rs {
			d := w.image(r.trees[rec.tree], rec.at, "flushed")
			if w.viol != nil {
				return w
			}
			var mine []kv
			for _, e := range d.kv {
				if e.k%n == int64(g) {
					mine = append(mine, e)
				}
			}
			if msg := diffKV(mine, rec.own); msg != "" {
				w.fail("lin", "the tree flushed at %v by goroutine %d does not hold that goroutine's own keys as it left them: %s", rec.at, g, msg)
				return w
			}
			w.label("conc:flush-image")
		}
	}
	if w.settle(); w.cache != nil && w.viol == nil {
		st := w.stats()
		if st.CleanLRUItems > max(st.EvictLowLimit, st.EvictHighLimit) {
			w.fail("cache", "after concurrent use at rest the cache holds %d clean nodes, limits are %d/%d", st.CleanLRUItems, st.EvictLowLimit, st.EvictHighLimit)
		}
	}
	return w
}

func (w *World) countOp() {
	w.mu.Lock()
	w.ctr.ops++
	w.mu.Unlock()
}

// runHammer: goroutines do nothing but change and read the limits of the
// shared cache while others make it evict. With X = 3 the trees are in memory,
// have a fixed shape and nothing is evicted: every Stats counts all the nodes.
func runHammer(c *Case) *World {
	r := newConc(c)
	w := r.w
	if w.viol != nil || w.cache == nil {
		return w
	}
	var set [64]atomic.Bool
	var side int64
	nodes := uint64(0)
	if c.X == 3 {
		side = -1
		w.cache.UpdateLimits(w.lo, 1<<33)
		w.hi = 1 << 33
		for i, t := range r.trees {
			m := &Model{}
			put := func(o Op) bool {
				_, err := w.callMap(t.bt, o, 0)
				m.apply(o, c.U, c.Val)
				if err != nil {
					w.fail("err", "Put failed: %v", err)
				}
				return w.viol == nil
			}
			expandRun(Op{K: "putrun", A: c.Y + int64(i), B: 5 + c.Z%400, V: 14 + c.Y%7}, m, c.U, put)
		}
		if w.viol != nil {
			return w
		}
		st := w.cache.Stats()
		nodes = st.CleanLRUItems + st.DirtyLRUItems
		w.label("conc:stable")
	}
	ok := func(l [2]uint64) bool {
		return l == [2]uint64{w.lo, w.hi} || l[0] < 64 && set[l[0]].Load() && l == concLimits(Op{A: int64(l[0]), B: side})
	}
	last := make([][2]uint64, len(c.Progs))
	r.run(func(g int, prog []Op) {
		for rep := 0; rep < int(4+c.Y%60); rep++ {
			for _, op := range prog {
				if w.stopped() {
					return
				}
				op.A += int64(rep)
				if op.K == "limits" {
					op.B = side
				}
				out := concOut{}
				switch op.K {
				case "stats", "limits":
					if op.K == "limits" {
						set[concLimits(op)[0]].Store(true)
						last[g] = concLimits(op)
					}
					out = r.do(concIn{op: op})
					if op.K == "stats" && !ok(out.lims) {
						w.fail("lin", "Stats reports limits %d/%d, which were never set", out.lims[0], out.lims[1])
						return
					}
					if op.K == "stats" && side < 0 && out.pop != nodes {
						w.fail("lin", "Stats counts %d nodes, but throughout its call there were %d in memory", out.pop, nodes)
						return
					}
				default:
					out = r.do(concIn{tree: int(mod(int64(op.T), int64(len(r.maps)))), op: op})
					if out.err != nil && op.K != "purgef" {
						w.fail("err", "concurrent %s failed: %v", op.K, out.err)
						return
					}
				}
				r.done.Add(1)
				w.countOp()
			}
		}
	})
	w.settle()
	if w.viol != nil {
		return w
	}
	w.label("conc:hammer")
	// each goroutine's last setting may be the final one; nothing else may
	st := w.cache.Stats()
	l := [2]uint64{st.EvictLowLimit, st.EvictHighLimit}
	found, any := false, false
	for g := range last {
		for _, op := range c.Progs[g] {
			if op.K == "limits" {
				any = true
				found = found || last[g] == l
				break
			}
		}
	}
	if any && !found || !any && l != [2]uint64{w.lo, w.hi} {
		w.fail("lin", "after all UpdateLimits calls returned Stats reports %d/%d, which was no goroutine's last setting", l[0], l[1])
		return w
	}
	if st.CleanLRUItems > max(l[0], l[1]) {
		w.fail("cache", "after concurrent use at rest the cache holds %d clean nodes, limits are %d/%d", st.CleanLRUItems, l[0], l[1])
		return w
	}
	for i := range r.maps {
		var got []kv
		if r.final(i, &got); w.viol != nil {
			return w
		}
	}
	return w
}
