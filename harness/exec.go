package main

import (
	"fmt"
	"maps"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	sm "github.com/NVIDIA/sortedmap"
)

// harnessError marks a defect of the harness itself: never a violation.
type harnessError struct{ msg string }

// progress is watched by the watchdog goroutine.
var progress struct {
	seq    atomic.Int64 // bumped at every library call boundary
	inCall atomic.Int32
	conc   atomic.Bool
}

func libFrame(line string) bool {
	return strings.HasPrefix(line, "github.com/NVIDIA/sortedmap.") || strings.HasPrefix(line, "github.com/NVIDIA/sortedmap/")
}

// panicInLibrary decides from a recovered panic's stack whose panic it was:
// the innermost non-runtime frame below the panic.
func panicInLibrary(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") && seen {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/") {
			continue
		}
		return libFrame(l) || strings.HasPrefix(l, "github.com/NVIDIA/cstruct") || strings.HasPrefix(l, "encoding/") || strings.HasPrefix(l, "reflect.") || strings.HasPrefix(l, "fmt.") || strings.HasPrefix(l, "strings.")
	}
	return false
}

// guard runs f, turning a library panic into a violation.
func (w *World) guard(what string, f func()) (ok bool) {
	defer func() {
		progress.inCall.Store(0)
		progress.seq.Add(1)
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !panicInLibrary(st) {
				panic(harnessError{fmt.Sprintf("%v\n%s", r, st)})
			}
			w.fail("panic", "%s panicked: %v", what, r)
			ok = false
		}
	}()
	progress.seq.Add(1)
	progress.inCall.Store(1)
	f()
	return true
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var quietGoroutines int

// quietBaseline returns the number of goroutines of this process when no
// library goroutine exists, after waiting for those of an earlier case to end.
func quietBaseline() int {
	n := runtime.NumGoroutine()
	if quietGoroutines == 0 || n < quietGoroutines {
		if quietGoroutines == 0 {
			for len(libGoroutines()) > 0 {
				time.Sleep(time.Millisecond)
			}
			n = runtime.NumGoroutine()
		}
		quietGoroutines = n
	}
	start := time.Now()
	for i := 0; runtime.NumGoroutine() > quietGoroutines; i++ {
		runtime.Gosched()
		if i > 2000 {
			time.Sleep(50 * time.Microsecond)
			if i%200 == 0 && time.Since(start) > time.Second {
				if len(libGoroutines()) == 0 {
					quietGoroutines = runtime.NumGoroutine()
				} else if time.Since(start) > 60*time.Second {
					panic(harnessError{"background eviction of an earlier case never ended (inconclusive)"})
				}
			}
		}
	}
	return quietGoroutines
}

// lingering: library goroutines of a failed case are still running, so the
// process is of no further use.
func lingering() bool {
	start := time.Now()
	for i := 0; runtime.NumGoroutine() > quietGoroutines; i++ {
		if i%50 == 49 && len(libGoroutines()) == 0 {
			return false
		}
		if time.Since(start) > 4*time.Second {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// settle waits until background eviction is at rest.
func (w *World) settle() {
	for i := 0; runtime.NumGoroutine() > w.baseline; i++ {
		runtime.Gosched()
		if i > 2000 {
			time.Sleep(50 * time.Microsecond)
		}
		if i == 4000 {
			w.settleSlow()
			return
		}
	}
}

func (w *World) settleSlow() {
	start, cpu0 := time.Now(), cpuTime()
	for runtime.NumGoroutine() > w.baseline {
		time.Sleep(2 * time.Millisecond)
		el := time.Since(start)
		if el > 5*time.Second {
			st := libGoroutines()
			if len(st) == 0 {
				panic(harnessError{fmt.Sprintf("%d goroutines never ended, none of them the library's", runtime.NumGoroutine()-w.baseline)})
			}
			if allBlocked(st) {
				w.fail("deadlock", "background eviction is blocked for ever with no call in progress:\n%s", st[0])
				panic(abandonWorker{})
			}
			if cpuTime()-cpu0 > 8*time.Second {
				w.fail("spin", "background eviction never comes to rest")
				panic(abandonWorker{})
			}
		}
		if el > 120*time.Second {
			panic(harnessError{"background eviction did not come to rest in 120s (inconclusive)"})
		}
	}
}

// abandonWorker ends the worker after a violation that leaves goroutines behind.
type abandonWorker struct{}

// libGoroutines returns the stacks of goroutines executing library code.
func libGoroutines() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if libFrame(l) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

// allBlocked: every one of these goroutines waits for a mutex.
func allBlocked(gs []string) bool {
	for _, g := range gs {
		head := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			head = g[:i]
		}
		if !strings.Contains(head, "Mutex.Lock") && !strings.Contains(head, "semacquire") {
			return false
		}
	}
	return len(gs) > 0
}

// begin opens a library call on tree t (nil: LLRB or cache).
func (w *World) begin(kind string, t *Tree) {
	if len(w.guards) > 200 {
		w.checkGuards()
	}
	// what GetNode, PackKey and PackValue returned is the client's again
	for _, b := range w.bufs {
		for i := range b {
			b[i] = 0xD6
		}
	}
	w.bufs = w.bufs[:0]
	w.cnt = [nCb]int{}
	w.gets, w.puts, w.discs = w.gets[:0], w.puts[:0], w.discs[:0]
	w.callKind, w.callTree = kind, -1
	if t != nil {
		w.callTree = t.id
	}
	w.vals = w.vals[:0]
	w.ctr.ops++
}

// heightFloor: no legal tree with n items is lower.
func heightFloor(n int, max uint64) int {
	h := 1
	for items := float64(max); float64(n) > items; items *= float64(max) + 1 {
		h++
	}
	return h
}

// heightBound: no legal tree with n items is higher.
func heightBound(n int, max uint64) int {
	m := float64(max / 2)
	h := 1
	for items := 2 * m; float64(n) >= items; items *= m + 1 {
		h++
	}
	return h
}

var lookups = map[string]bool{"getk": true, "geti": true, "bl": true, "br": true}
var mapOps = map[string]bool{"put": true, "getk": true, "geti": true, "patk": true, "pati": true, "delk": true, "deli": true, "bl": true, "br": true, "len": true, "reset": true}

// callMap performs a map call and normalises its result.
// reuse overwrites the buffer of a key the map was not asked to keep.
func reuse(key sm.Key) {
	if b, ok := key.([]byte); ok {
		for i := range b {
			b[i] = 0xE7
		}
	}
}

type boxAt struct {
	sut sm.SortedMap
	k   int64
}

// keepBox remembers the pointer the map holds for a key.
func (w *World) keepBox(sut sm.SortedMap, k int64, v sm.Value) {
	if p, ok := v.(*box); ok && w.c.Val == valBox && k >= 0 {
		if w.boxes == nil {
			w.boxes = map[boxAt]*box{}
		}
		w.boxes[boxAt{sut, k}] = p
	}
}

// patchVal gives the value to patch in: often the very pointer the map holds
// (or held before the node was read again), changed in place as a client
// would; undo takes the change back when the map refused the patch.
func (w *World) patchVal(sut sm.SortedMap, k, v int64) (sm.Value, func()) {
	var p *box
	if w.c.Val == valBox {
		p = w.boxes[boxAt{sut, k}]
	}
	if p == nil || v%4 == 3 {
		return w.val(v), func() {}
	}
	old := p.vid
	p.vid = v
	return p, func() { p.vid = old }
}

func (w *World) callMap(sut sm.SortedMap, op Op, n int) (r Res, err error) {
	k := mod(op.A, w.c.U)
	v := op.V
	if v < 0 {
		v = -v
	}
	if w.c.Val == valNil {
		v = 0
	}
	getVal := func(got sm.Value) int64 {
		vid, ok := vidOf(w.c.Val, got)
		if !ok {
			w.fail("result", "%s returned value %T %v which was never stored", op.K, got, got)
		}
		return vid
	}
	w.guard(op.K, func() {
		switch op.K {
		case "put":
			nv := w.val(v)
			key := w.key(k, op.V)
			r.OK, err = sut.Put(key, nv)
			if err == nil && r.OK {
				w.keepBox(sut, k, nv)
			} else {
				reuse(key)
			}
		case "getk":
			var got sm.Value
			key := w.key(k, op.V)
			got, r.OK, err = sut.GetByKey(key)
			reuse(key)
			if err == nil && r.OK {
				r.Val = getVal(got)
				w.keepBox(sut, k, got)
			} else if err == nil && got != nil {
				w.fail("result", "GetByKey of an absent key returned value %v", got)
			}
		case "patk":
			nv, undo := w.patchVal(sut, k, v)
			key := w.key(k, op.V+1)
			r.OK, err = sut.PatchByKey(key, nv)
			reuse(key)
			if err != nil || !r.OK {
				undo()
			} else {
				w.keepBox(sut, k, nv)
			}
		case "delk":
			key := w.key(k, op.V)
			r.OK, err = sut.DeleteByKey(key)
			reuse(key)
		case "bl":
			key := w.key(k, op.V)
			r.Idx, r.OK, err = sut.BisectLeft(key)
			reuse(key)
		case "br":
			key := w.key(k, op.V)
			r.Idx, r.OK, err = sut.BisectRight(key)
			reuse(key)
		case "len":
			r.Count, err = sut.Len()
		case "geti":
			var gk sm.Key
			var gv sm.Value
			gk, gv, r.OK, err = sut.GetByIndex(idxArg(n, op.A, op.B))
			if err == nil && r.OK {
				o, ok := w.kk.ord(gk, w.c.U)
				if !ok {
					w.fail("result", "GetByIndex returned key %T %v which was never stored", gk, gk)
				}
				r.Key, r.Val, r.HasKV = o, getVal(gv), true
				w.keepBox(sut, o, gv)
			}
		case "pati":
			i, at := idxArg(n, op.A, op.B), int64(-1)
			for _, t := range w.trees {
				if w.c.Val != valBox {
					break
				}
				if t.bt == sut && i >= 0 && i < len(t.m.s) {
					at = t.m.s[i].k
				}
			}
			nv, undo := w.patchVal(sut, at, v)
			r.OK, err = sut.PatchByIndex(i, nv)
			if err != nil || !r.OK {
				undo()
			} else {
				w.keepBox(sut, at, nv)
			}
		case "deli":
			r.OK, err = sut.DeleteByIndex(idxArg(n, op.A, op.B))
		case "reset":
			sut.(sm.LLRBTree).Reset()
		default:
			panic(harnessError{"callMap " + op.K})
		}
	})
	return
}

func (w *World) opArgs(op Op, n int) string {
	switch op.K {
	case "geti", "pati", "deli":
		return fmt.Sprintf("%s(index %d) with %d items", op.K, idxArg(n, op.A, op.B), n)
	case "len", "reset":
		return op.K
	}
	return fmt.Sprintf("%s(key #%d = %v) with %d items", op.K, mod(op.A, w.c.U), w.key(mod(op.A, w.c.U), 0), n)
}

// ---- LLRB --------------------------------------------------------------

func (w *World) newLLRB() sm.LLRBTree {
	t := &Tree{id: 0, w: w}
	t.cb = &treeCB{w: w, t: t}
	return sm.NewLLRBTree(w.compare, t.cb)
}

// deepMap compares everything a map can be asked against the model.
func (w *World) deepMap(sut sm.SortedMap, m *Model, each func()) {
	n := len(m.s)
	chk := func(op Op) bool {
		want, _ := (&Model{m.s}).apply(op, w.c.U, w.c.Val)
		if each != nil {
			each()
		}
		got, err := w.callMap(sut, op, n)
		if w.viol != nil {
			return false
		}
		if err != nil {
			w.fail("err", "full comparison: %s failed: %v", w.opArgs(op, n), err)
			return false
		}
		if got != want {
			w.fail("deep", "full comparison: %s gave %+v, want %+v", w.opArgs(op, n), got, want)
			return false
		}
		return true
	}
	if !chk(Op{K: "len"}) {
		return
	}
	step := 1
	if n > 400 {
		step = 1 + n/200
	}
	for i := 0; i < n; i += step {
		if !chk(Op{K: "geti", A: int64(i)}) || !chk(Op{K: "getk", A: m.s[i].k}) {
			return
		}
		for _, d := range []int64{0, 1} { // the key, and one just above it (often absent)
			if k := m.s[i].k + d; k < w.c.U {
				if !chk(Op{K: "bl", A: k}) || !chk(Op{K: "br", A: k}) {
					return
				}
				if d == 1 && !chk(Op{K: "getk", A: k}) {
					return
				}
			}
		}
	}
	for _, k := range []int64{0, w.c.U - 1, w.c.U / 2} {
		if !chk(Op{K: "bl", A: k}) || !chk(Op{K: "br", A: k}) || !chk(Op{K: "getk", A: k}) {
			return
		}
	}
	for b := int64(1); b <= 4; b++ {
		if !chk(Op{K: "geti", A: 0, B: b}) {
			return
		}
	}
}

func expandRun(op Op, m *Model, u int64, f func(Op) bool) {
	cnt := op.B
	if cnt < 0 {
		cnt = -cnt
	}
	switch op.K {
	case "putrun":
		stride := 1 + mod(op.V/2, 7)
		for i := int64(0); i < cnt; i++ {
			k := op.A + i*stride
			if op.V%2 != 0 {
				k = op.A - i*stride
			}
			if !f(Op{K: "put", T: op.T, A: mod(k, u), V: op.V + i}) {
				return
			}
		}
	case "delrun":
		for i := int64(0); i < cnt; i++ {
			n := int64(len(m.s))
			if n == 0 {
				return
			}
			var o Op
			at := mod(op.A, n)
			switch mod(op.V, 7) {
			case 0: // ascending by key from a point
				o = Op{K: "delk", A: m.s[at].k}
			case 1: // descending by key
				o = Op{K: "delk", A: m.s[mod(op.A-i, n)].k}
			case 2:
				o = Op{K: "deli", A: 0}
			case 3:
				o = Op{K: "deli", A: n - 1}
			case 4: // scattered
				o = Op{K: "deli", A: mod(op.A+i*7919, n)}
			case 5:
				o = Op{K: "delk", A: m.s[mod(op.A+i*104729, n)].k}
			case 6: // middle
				o = Op{K: "deli", A: n / 2}
			}
			o.T = op.T
			if !f(o) {
				return
			}
		}
	}
}

func (w *World) countCmp(n int, f func()) {
	clear(w.cmpKeys)
	w.cmpOn = true
	f()
	w.cmpOn = false
	got := len(w.cmpKeys)
	bound := int(2*math.Log2(float64(n+1))) + 3 // includes the searched key itself
	if got > bound {
		w.fail("cmpcount", "a lookup among %d items compared %d distinct keys, bound is %d", n, got, bound)
	}
}

func runLLRB(c *Case) *World {
	w := newWorld(c)
	tree := w.newLLRB()
	m := &Model{}
	one := func(op Op) bool {
		w.begin(op.K, nil)
		n := len(m.s)
		var got Res
		var err error
		if op.K == "getk" {
			w.countCmp(n, func() { got, err = w.callMap(tree, op, n) })
		} else {
			got, err = w.callMap(tree, op, n)
		}
		if w.viol != nil {
			return false
		}
		want, changed := m.apply(op, c.U, c.Val)
		if err != nil {
			w.fail("err", "%s failed: %v", w.opArgs(op, n), err)
			return false
		}
		if got != want {
			w.fail("result", "%s gave %+v, want %+v", w.opArgs(op, n), got, want)
			return false
		}
		if changed {
			w.ctr.okMods++
			if op.K == "delk" || op.K == "deli" {
				w.ctr.deletes++
			}
		}
		if len(m.s) > w.ctr.maxItems {
			w.ctr.maxItems = len(m.s)
		}
		return true
	}
	validate := func() {
		var err error
		w.guard("Validate", func() { err = tree.Validate() })
		if err != nil {
			w.fail("validate", "Validate reports %v", err)
		}
	}
	for i, op := range c.Ops {
		w.opIdx = i
		w.label("op:" + op.K)
		switch op.K {
		case "putrun", "delrun":
			expandRun(op, m, c.U, one)
		case "validate":
			validate()
		case "deep":
			w.deepMap(tree, m, nil)
		case "dump":
			w.llrbDump(tree, m, op)
		case "rej":
			w.reject(tree, m, op)
		case "rejp":
			w.rejectPart(tree, m, op, func() { w.begin("rej", nil) })
		case "lookall":
			for j := range m.s {
				if len(m.s) > 300 && j%7 != 0 {
					continue
				}
				if !one(Op{K: "getk", A: m.s[j].k}) {
					break
				}
			}
		default:
			one(op)
		}
		if w.viol != nil {
			return w
		}
	}
	w.opIdx = len(c.Ops)
	validate()
	if w.viol == nil {
		w.deepMap(tree, m, nil)
	}
	return w
}

// reject performs a keyed operation with a key the comparator rejects.
func (w *World) reject(sut sm.SortedMap, m *Model, op Op) (kind string) {
	bad := w.kk.bad(mod(op.B, 20))
	n := len(m.s)
	kind = []string{"put", "getk", "patk", "delk", "bl", "br"}[mod(op.A, 6)]
	var ok, isOK bool
	var err error
	w.guard(kind+" with a rejected key", func() {
		switch kind {
		case "put":
			ok, err = sut.Put(bad, w.val(0))
		case "getk":
			_, ok, err = sut.GetByKey(bad)
		case "patk":
			ok, err = sut.PatchByKey(bad, w.val(0))
		case "delk":
			ok, err = sut.DeleteByKey(bad)
		case "bl":
			_, ok, err = sut.BisectLeft(bad)
		case "br":
			_, ok, err = sut.BisectRight(bad)
		}
		isOK = true
	})
	if !isOK || w.viol != nil {
		return
	}
	w.label("reject:" + kind)
	if n == 0 {
		w.label("reject-on-empty:" + kind)
	}
	if err == nil && (n > 0 || kind == "put") {
		w.fail("reject", "%s with a key the comparator rejects (%T %v) on a map of %d items returned no error", kind, bad, bad, n)
		return
	}
	if ok {
		w.fail("reject", "%s with a key the comparator rejects (%T %v) on a map of %d items reported success (err %v)", kind, bad, bad, n, err)
	}
	return
}

// rejectPart performs a keyed operation with a good key that the comparator
// rejects only against some of the stored keys, among them those that a search
// for it cannot do without: the equal one or, if there is none, both neighbours.
func (w *World) rejectPart(sut sm.SortedMap, m *Model, op Op, begin func()) (changed, met bool) {
	n := len(m.s)
	k := mod(op.A, w.c.U)
	if n > 0 && op.V%2 == 0 {
		k = m.s[mod(op.A, int64(n))].k
	}
	rule := &rejRule{ord: k, mode: mod(op.B/24, 5)}
	if n > 0 {
		rule.thr = m.s[mod(op.A/7+op.V, int64(n))].k
	}
	at, present := m.find(k)
	if present {
		rule.dec = []int64{k}
	} else {
		if at > 0 {
			rule.dec = append(rule.dec, m.s[at-1].k)
		}
		if at < n {
			rule.dec = append(rule.dec, m.s[at].k)
		}
	}
	kind := []string{"put", "getk", "patk", "delk", "bl", "br"}[mod(op.B, 6)]
	try := func(kind string) (ok bool, err error, hit bool) {
		begin()
		rule.hits = 0
		w.rej = rule
		defer func() { w.rej = nil }()
		w.guard(kind+" with a partly rejected key", func() {
			key := w.key(k, op.V)
			switch kind {
			case "put":
				ok, err = sut.Put(key, w.val(op.V))
			case "getk":
				_, ok, err = sut.GetByKey(key)
			case "patk":
				ok, err = sut.PatchByKey(key, w.val(op.V))
			case "delk":
				ok, err = sut.DeleteByKey(key)
			case "bl":
				_, ok, err = sut.BisectLeft(key)
			case "br":
				_, ok, err = sut.BisectRight(key)
			}
		})
		met = met || rule.hits > 0
		return ok, err, rule.hits > 0
	}
	check := func(kind string, ok bool, err error) bool {
		if w.viol == nil && (err == nil || ok) {
			w.fail("reject", "the comparator rejected key #%d during %s on a map of %d items, which returned ok=%v, err=%v", k, kind, n, ok, err)
		}
		return w.viol == nil
	}
	w.label("reject-part:" + kind)
	if present {
		w.label("reject-part-present:" + kind)
	}
	ok, err, hit := try(kind)
	if w.viol == nil && !hit {
		if mut := kind == "put" && !present || kind == "delk" && present || kind == "patk" && present; mut {
			// decided without comparing: an ordinary call
			var want Res
			want, changed = m.apply(Op{K: kind, A: k, V: op.V}, w.c.U, w.c.Val)
			if err != nil || ok != want.OK {
				w.fail("result", "%s gave ok=%v err=%v, want %+v", kind, ok, err, want)
			}
		}
		return
	}
	check(kind, ok, err)
	return
}

// ---- dump --------------------------------------------------------------

var dumpFile *os.File // where os.Stdout of the tested code goes when captured
var devNull *os.File

func captureStart() {
	if dumpFile == nil {
		f, err := os.CreateTemp("", "vdump")
		if err != nil {
			panic(harnessError{err.Error()})
		}
		os.Remove(f.Name())
		dumpFile = f
	}
	dumpFile.Truncate(0)
	dumpFile.Seek(0, 0)
	os.Stdout = dumpFile
}

func captureEnd() string {
	os.Stdout = devNull
	n, _ := dumpFile.Seek(0, 1)
	buf := make([]byte, n)
	if _, err := dumpFile.ReadAt(buf, 0); err != nil && n > 0 {
		panic(harnessError{err.Error()})
	}
	return string(buf)
}

// tokens extracts <K..> and <V..> marks in order.
func tokens(s string) (out []string) {
	for {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			return
		}
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			return
		}
		if t := s[i+1 : i+j]; len(t) > 1 && (t[0] == 'K' || t[0] == 'V') {
			if _, err := strconv.ParseInt(t[1:], 10, 64); err == nil {
				out = append(out, t)
			}
		}
		s = s[i+1:]
	}
}

func (w *World) llrbDump(tree sm.LLRBTree, m *Model, op Op) {
	w.begin("dump", nil)
	if op.B > 0 { // with a failing DumpKey
		w.fault = &fault{mask: 1 << uint(cbDumpKey), nth: int(mod(op.A, int64(4*len(m.s)+1))), times: 1}
	}
	var err error
	captureStart()
	w.guard("Dump", func() { err = tree.Dump() })
	out := captureEnd()
	f := w.fault
	w.fault = nil
	if w.viol != nil {
		return
	}
	if f != nil && f.fired > 0 {
		w.ctr.faultsFired++
		w.label("dump:fault")
		if err == nil {
			w.fail("dump", "Dump returned no error although DumpKey failed at call %d", f.nth)
		}
		return
	}
	if err != nil {
		w.fail("dump", "Dump failed: %v", err)
		return
	}
	toks := tokens(out)
	seen := map[string]int{}
	for _, t := range toks {
		seen[t]++
	}
	for _, e := range m.s {
		if seen["K"+strconv.FormatInt(e.k, 10)] == 0 {
			w.fail("dump", "Dump of %d items does not show key #%d", len(m.s), e.k)
			return
		}
	}
	if len(seen) != len(m.s) {
		w.fail("dump", "Dump shows %d distinct keys, the map holds %d", len(seen), len(m.s))
		return
	}
	// the drawing lists every key once, in (descending) order
	n := len(m.s)
	if len(toks) < n {
		w.fail("dump", "Dump shows %d keys, the map holds %d", len(toks), n)
		return
	}
	for i, t := range toks[len(toks)-n:] {
		if t != "K"+strconv.FormatInt(m.s[n-1-i].k, 10) {
			w.fail("dump", "the drawing lists %s where key #%d belongs", t, m.s[n-1-i].k)
			return
		}
	}
	w.llrbStructure(out, m)
}

func (t *Tree) dump(op Op) {
	w := t.w
	var f *fault
	if op.B > 0 {
		mask := []uint{1 << uint(cbDumpKey), 1 << uint(cbDumpVal), 1 << uint(cbGet), 1<<uint(cbUnpackKey) | 1<<uint(cbUnpackVal), 1<<uint(cbDumpKey) | 1<<uint(cbDumpVal)}[mod(op.B, 5)]
		f = &fault{mask: mask, nth: int(mod(op.A, int64(2*len(t.m.s)+1))), times: 1}
	}
	var err error
	t.pre("dump")
	w.fault = f
	captureStart()
	w.guard("Dump", func() { err = t.bt.Dump() })
	out := captureEnd()
	w.fault = nil
	fired := f != nil && f.fired > 0
	if w.viol != nil {
		return
	}
	defer t.post("dump", err, fired)
	if fired {
		w.ctr.faultsFired++
		w.label("dump:fault")
		if err == nil {
			w.fail("dump", "Dump returned no error although a callback (%s) failed", faultKinds(f.mask))
		}
		return
	}
	if err != nil {
		w.fail("dump", "Dump failed: %v", err)
		return
	}
	toks := tokens(out)
	var ks []int64
	var vs []int64
	for i, tk := range toks {
		n, _ := strconv.ParseInt(tk[1:], 10, 64)
		if tk[0] == 'V' {
			vs = append(vs, n)
			if i == 0 || toks[i-1][0] != 'K' {
				w.fail("dump", "value #%d is printed without its key", n)
				return
			}
			k, _ := strconv.ParseInt(toks[i-1][1:], 10, 64)
			ks = append(ks, k)
		}
	}
	if len(vs) != len(t.m.s) {
		w.fail("dump", "Dump prints %d key/value pairs, the map holds %d", len(vs), len(t.m.s))
		return
	}
	for i, e := range t.m.s {
		if ks[i] != e.k || vs[i] != e.v {
			w.fail("dump", "Dump prints pair %d as (#%d, %d), the map has (#%d, %d)", i, ks[i], vs[i], e.k, e.v)
			return
		}
	}
	w.label("dump:ok")
	t.dumpStructure(out)
}

func faultKinds(mask uint) string {
	var s []string
	for k := cbKind(0); k < nCb; k++ {
		if mask&(1<<uint(k)) != 0 {
			s = append(s, cbNames[k])
		}
	}
	return strings.Join(s, "/")
}

// ---- B+Tree ------------------------------------------------------------

func (w *World) newTree(id int, cfg TreeCfg) *Tree {
	t := &Tree{id: id, w: w, cfg: cfg, m: &Model{}, resident: map[loc]bool{}, dirty: true, pruneValid: true}
	t.cb = &treeCB{w: w, t: t}
	w.construct(t)
	return t
}

func (w *World) theCache(cfg TreeCfg) sm.BPlusTreeCache {
	if cfg.Alt {
		if w.alt == nil {
			w.altLo, w.altHi = (w.c.Lo+w.c.Hi)%5, (w.c.Lo*3+w.c.Hi)%9
			w.alt = sm.NewBPlusTreeCache(w.altLo, w.altHi)
		}
		return w.alt
	}
	if !cfg.Cache {
		return nil
	}
	if w.cache == nil {
		w.cache = sm.NewBPlusTreeCache(w.lo, w.hi)
	}
	return w.cache
}

func (w *World) construct(t *Tree) {
	w.begin("new", t)
	w.guard("NewBPlusTree", func() {
		var cbs sm.BPlusTreeCallbacks
		if !t.cfg.NilCB {
			cbs = t.cb
		}
		t.bt = sm.NewBPlusTree(t.cfg.Max, w.compare, cbs, w.theCache(t.cfg))
	})
	if w.viol == nil && t.bt == nil {
		w.fail("err", "NewBPlusTree(%d) returned nil", t.cfg.Max)
	}
}

func (w *World) stats() *sm.BPlusTreeCacheStats {
	if w.cache == nil {
		return nil
	}
	st := w.cache.Stats()
	cp := *st
	*st = sm.BPlusTreeCacheStats{EvictLowLimit: 1, EvictHighLimit: 1, CleanLRUItems: 1 << 60} // the caller's to change
	return &cp
}

// pre/post bracket one library call on t.
func (t *Tree) pre(kind string) {
	w := t.w
	w.begin(kind, t)
	switch kind {
	case "flush", "flushp", "purge", "prune", "floc", "getk", "geti", "bl", "br", "len", "layout", "dims", "validate", "dump":
	default:
		t.pendLayout, t.pendHeight = nil, 0
	}
	if kind != "flush" && kind != "flushp" && kind != "purge" && kind != "purgef" && kind != "prune" && kind != "floc" {
		t.wasEmptied = t.emptied
		t.emptied = false
	}
	if (t.cfg.Cache || t.cfg.Alt) && w.c.Settle {
		w.settle()
	}
	t.w.preStats = w.stats()
	if w.alt != nil {
		w.preAlt = w.alt.Stats()
	}
}

func (t *Tree) height() int {
	if t.cur != nil && !t.dirty && !t.dirtyUnknown && t.cur.dec != nil {
		return t.cur.dec.height
	}
	return heightBound(len(t.m.s), t.cfg.Max)
}

func (t *Tree) post(kind string, err error, faulted bool) {
	w := t.w
	if w.viol != nil {
		return
	}
	if (t.cfg.Cache || t.cfg.Alt) && w.c.Settle {
		w.settle()
		if w.viol != nil {
			return
		}
	}
	// a node in memory is not read again
	if w.cache != nil {
		if p := w.preStats; p != nil {
			if p.CleanLRUItems+p.DirtyLRUItems+uint64(len(w.gets))+uint64(2*heightBound(len(t.m.s)+1, t.cfg.Max))+2 > w.hi {
				w.exceeded = true
			}
		}
	}
	evictable := t.cfg.Cache && w.exceeded || t.cfg.Alt
	seen := map[*blob]bool{}
	for _, b := range w.gets {
		if seen[b] && !faulted {
			w.fail("io-reread", "%s read node (%d,%d) twice", kind, b.at.obj, b.at.off)
			return
		}
		seen[b] = true
		if t.resident[b.at] {
			if !evictable && w.damage == nil {
				w.fail("io-reread", "%s read node (%d,%d,%d) again although it was still in memory", kind, b.at.obj, b.at.off, len(b.data))
				return
			}
			w.ctr.evictLoads++
		}
	}
	if err == nil && kind != "layout" {
		for _, b := range w.gets {
			t.resident[b.at] = true
		}
	}
	for _, b := range w.discs {
		delete(t.resident, b.at)
	}
	if kind == "flush" {
		for _, b := range w.puts {
			t.resident[b.at] = true
		}
	}
	if kind == "flushp" || kind == "purge" || kind == "purgef" || err != nil {
		clear(t.resident)
		t.visited = false
	}
	if lookups[kind] || kind == "len" || kind == "dims" || kind == "floc" {
		h := t.height()
		if len(w.gets) > h {
			w.fail("io-read", "%s read %d nodes, the tree has at most %d levels", kind, len(w.gets), h)
			return
		}
	}
	if mapOps[kind] && !lookups[kind] && kind != "len" && kind != "reset" || kind == "noop" || kind == "ti" {
		h := max(heightBound(len(t.m.s)+1, t.cfg.Max), t.height())
		if len(w.gets) > 3*h {
			w.fail("io-more", "%s read %d nodes, the tree has at most %d levels", kind, len(w.gets), h)
			return
		}
		if len(w.all) > 6*h {
			w.label("io:mod-reads-bounded")
		}
	}
	if t.wasEmptied && lookups[kind] && kind != "geti" && err == nil && !faulted && !t.dirty && !t.dirtyUnknown && t.cur != nil && len(w.gets) < t.height() {
		w.fail("io-more", "the first %s after the tree of %d levels was purged read only %d nodes", kind, t.height(), len(w.gets))
		return
	}
	if t.wasEmptied && kind != "flush" && kind != "flushp" && kind != "purge" && kind != "purgef" && kind != "prune" && kind != "floc" {
		t.wasEmptied = false
		if len(w.gets) > 1 {
			w.label("io:read-after-purge")
		}
	}
	if kind == "floc" && len(w.gets) > 0 {
		w.fail("io-read", "FetchLocation read %d nodes", len(w.gets))
	}
	t.cacheChecks(kind, err, faulted)
}

// altChecks: the second cache keeps its limits and minds its own trees.
func (w *World) altChecks(inAlt bool, kind string) {
	if w.alt == nil || w.preAlt == nil || !w.c.Settle || w.viol != nil {
		return
	}
	st := w.alt.Stats()
	switch {
	case st.EvictLowLimit != w.altLo || st.EvictHighLimit != w.altHi:
		w.fail("cache", "Stats of the second cache reports limits %d/%d, it was made with %d/%d", st.EvictLowLimit, st.EvictHighLimit, w.altLo, w.altHi)
	case !inAlt && *st != *w.preAlt:
		w.fail("cache", "%s outside the second cache changed its statistics from %+v to %+v", kind, *w.preAlt, *st)
	case st.CleanLRUItems > max(w.altLo, w.altHi):
		w.fail("cache", "after %s at rest the second cache holds %d clean nodes, limits are %d/%d", kind, st.CleanLRUItems, w.altLo, w.altHi)
	}
	if inAlt {
		w.label("cache2")
	}
}

func (t *Tree) cacheChecks(kind string, err error, faulted bool) {
	w := t.w
	w.altChecks(t.cfg.Alt, kind)
	if w.cache == nil || !w.c.Settle || w.preStats == nil || w.viol != nil {
		return
	}
	st := w.stats()
	p := w.preStats
	if st.EvictLowLimit != w.lo || st.EvictHighLimit != w.hi {
		w.fail("cache", "Stats reports limits %d/%d, last set were %d/%d", st.EvictLowLimit, st.EvictHighLimit, w.lo, w.hi)
		return
	}
	if st.CacheHits < p.CacheHits || st.CacheMisses < p.CacheMisses {
		w.fail("cache", "hit/miss counters went backwards during %s", kind)
		return
	}
	// (a failed constructor or orphaned tree never holds clean nodes here)
	lim := max(w.lo, w.hi)
	if st.CleanLRUItems > lim {
		w.fail("cache", "after %s at rest the cache holds %d clean nodes, limits are %d/%d", kind, st.CleanLRUItems, w.lo, w.hi)
		return
	}
	if !t.cfg.Cache {
		if *st != *p {
			w.fail("cache", "%s on a tree outside the cache changed its statistics from %+v to %+v", kind, *p, *st)
		}
		return
	}
	if err == nil && !faulted && mapOps[kind] && kind != "len" {
		hit, miss := st.CacheHits-p.CacheHits, st.CacheMisses-p.CacheMisses
		if miss != uint64(len(w.gets)) {
			w.fail("cache", "%s read %d nodes from storage, the count of misses rose by %d", kind, len(w.gets), miss)
			return
		}
		if h := t.height(); lookups[kind] && (hit+miss > uint64(h) || kind != "geti" && hit+miss == 0) {
			w.fail("cache", "%s in a tree of at most %d levels counted %d hits and %d misses", kind, h, hit, miss)
			return
		}
		if h := t.height(); lookups[kind] && kind != "geti" && !t.dirty && !t.dirtyUnknown && t.cur != nil && t.cur.dec != nil {
			if hit+miss != uint64(h) {
				w.fail("cache", "%s in a tree of %d levels counted %d hits and %d misses", kind, h, hit, miss)
				return
			}
			w.label("cache:exact-path")
		}
	}
	total := p.CleanLRUItems + p.DirtyLRUItems
	switch kind {
	case "flush", "flushp":
		if err == nil || faulted {
			if st.DirtyLRUItems+uint64(len(w.puts)) != p.DirtyLRUItems {
				w.fail("cache", "%s wrote %d nodes but the dirty count went from %d to %d", kind, len(w.puts), p.DirtyLRUItems, st.DirtyLRUItems)
				return
			}
		}
		if kind == "flush" && len(w.puts) > 0 && total > w.hi {
			if st.CleanLRUItems+st.DirtyLRUItems > w.lo && st.CleanLRUItems != 0 {
				w.fail("cache", "flush with %d nodes over the high limit %d came to rest at %d clean + %d dirty, low limit is %d", total, w.hi, st.CleanLRUItems, st.DirtyLRUItems, w.lo)
				return
			}
			w.label("cache:drained-by-flush")
		}
	case "purge", "purgef", "layout", "floc", "getk", "geti", "bl", "br", "len", "dims", "validate", "dump", "noop":
		if st.DirtyLRUItems != p.DirtyLRUItems {
			w.fail("cache", "%s changed the number of modified nodes from %d to %d", kind, p.DirtyLRUItems, st.DirtyLRUItems)
			return
		}
	}
	all, others := true, true
	nodes := 0
	for _, o := range w.trees {
		if !o.cfg.Cache || o.dead {
			continue
		}
		if !o.emptied {
			all = false
			if o != t {
				others = false
			}
		}
	}
	if kind == "purge" && err == nil && others && st.CleanLRUItems != 0 {
		w.fail("cache", "after Purge(false) of the only tree using the cache it holds %d clean nodes", st.CleanLRUItems)
		return
	}
	if all && (st.CleanLRUItems != 0 || st.DirtyLRUItems != 0) {
		w.fail("cache", "after %s every tree is purged or discarded, yet the cache holds %d clean and %d modified nodes", kind, st.CleanLRUItems, st.DirtyLRUItems)
		return
	}
	if !w.exceeded {
		ok := true
		for _, o := range w.trees {
			if !o.cfg.Cache || o.dead || o.emptied {
				continue
			}
			if !o.visited || o.dirty || o.dirtyUnknown || o.cur == nil {
				ok = false
				break
			}
			nodes += len(o.cur.dec.nodes)
		}
		if ok && st.CleanLRUItems+st.DirtyLRUItems != uint64(nodes) {
			w.fail("cache", "the trees have %d nodes, all visited with room to spare, yet the cache counts %d clean + %d modified", nodes, st.CleanLRUItems, st.DirtyLRUItems)
			return
		}
		if ok && nodes > 0 {
			w.label("cache:visited-count")
		}
	}
}

// resetTouch forgets what was touched or reshaped: the tree is a flushed version again.
func (t *Tree) resetTouch() {
	t.touched, t.touchedAny, t.touchedFrom = false, false, nil
	t.fullTouch, t.touches, t.mustMove, t.reshaped = false, 0, nil, false
}

// modified records a successful modification.
func (t *Tree) modified() {
	t.dirty = true
	t.mods++
	t.visited = false
	t.w.ctr.okMods++
}

// mapOp performs one map call on t against the model. With a fault armed it
// returns after checking that the call failed.
func (t *Tree) mapOp(op Op, f *fault) bool {
	w := t.w
	n := len(t.m.s)
	t.pre(op.K)
	w.fault = f
	var got Res
	var err error
	got, err = w.callMap(t.bt, op, n)
	w.fault = nil
	if w.viol != nil {
		return false
	}
	if f != nil && f.fired > 0 {
		w.ctr.faultsFired++
		if err == nil {
			w.fail("faultlost", "%s returned no error although %s failed during it", w.opArgs(op, n), faultKinds(f.mask))
			return false
		}
		t.dirtyUnknown = true
		t.post(op.K, err, true)
		return false
	}
	if w.damage != nil && w.damage.reads > 0 {
		if err == nil {
			w.fail("damage", "%s read a damaged node image (%s) and returned no error", w.opArgs(op, n), w.damage)
			return false
		}
		t.dirtyUnknown = true
		t.post(op.K, err, true)
		return false
	}
	want, changed := t.m.apply(op, w.c.U, w.c.Val)
	if err != nil {
		w.fail("err", "%s failed: %v", w.opArgs(op, n), err)
		return false
	}
	if got != want {
		w.fail("result", "%s gave %+v, want %+v", w.opArgs(op, n), got, want)
		return false
	}
	kind := op.K
	if !changed && !lookups[kind] && kind != "len" {
		kind = "noop"
	}
	if changed {
		t.modified()
		if op.K != "pati" && op.K != "patk" {
			t.reshaped = true
		}
		if op.K == "delk" || op.K == "deli" {
			w.ctr.deletes++
		}
	}
	if len(t.m.s) > w.ctr.maxItems {
		w.ctr.maxItems = len(t.m.s)
	}
	t.post(kind, nil, false)
	if w.viol != nil {
		return false
	}
	if lookups[op.K] && t.cfg.Cache && w.c.Settle && w.cache != nil && w.c.Prop == "C11" {
		st := w.stats()
		if w.lo >= st.DirtyLRUItems+uint64(t.height()) {
			// the path just visited must still be resident
			t.pre(op.K)
			_, err := w.callMap(t.bt, op, n)
			if w.viol == nil && err == nil && len(w.gets) > 0 {
				if w.fail("cachelru", "%s repeated at once read %d nodes again; low limit %d has room for %d modified nodes and %d levels", w.opArgs(op, n), len(w.gets), w.lo, st.DirtyLRUItems, t.height()); w.viol != nil {
					return false
				}
			}
			w.label("cache:lru-repeat")
			t.post(op.K, err, false)
		}
	}
	return w.viol == nil
}

func (d *damage) String() string {
	if d.trunc >= 0 {
		return fmt.Sprintf("truncated to %d of %d bytes", d.trunc, len(d.at.data))
	}
	return fmt.Sprintf("%d bytes followed by %d extra bytes", len(d.at.data), d.extra)
}

// checkErr handles the outcome of a non-map call: returns true when it succeeded.
func (t *Tree) checkErr(kind string, err error, f *fault) bool {
	w := t.w
	w.fault = nil
	if w.viol != nil {
		return false
	}
	if f != nil && f.fired > 0 {
		w.ctr.faultsFired++
		if err == nil {
			w.fail("faultlost", "%s returned no error although %s failed during it", kind, faultKinds(f.mask))
			return false
		}
		t.dirtyUnknown = true
		t.post(kind, err, true)
		return false
	}
	if w.damage != nil && w.damage.reads > 0 {
		if err == nil {
			w.fail("damage", "%s read a damaged node image (%s) and returned no error", kind, w.damage)
			return false
		}
		t.dirtyUnknown = true
		t.post(kind, err, true)
		return false
	}
	if err != nil {
		w.fail("err", "%s failed: %v", kind, err)
		return false
	}
	return true
}

func (t *Tree) flush(purge bool, f *fault) bool {
	w := t.w
	kind := "flush"
	if purge {
		kind = "flushp"
	}
	wasDirty, unknown := t.dirty, t.dirtyUnknown
	t.pre(kind)
	w.fault = f
	var l rootLoc
	var err error
	w.guard("Flush", func() { l.obj, l.off, l.ln, err = t.bt.Flush(purge) })
	if !t.checkErr(kind, err, f) {
		return false
	}
	w.ctr.flushes++
	if purge {
		t.emptied = true
	}
	b := w.store[loc{l.obj, l.off}]
	if b == nil || b.discarded || uint64(len(b.data)) != l.ln || b.owner != t.id || b.orphan {
		if w.fail("flushloc", "Flush returned location %v where no such node of this tree is stored", l); w.viol != nil {
			return false
		}
	}
	if !unknown {
		if !wasDirty && len(w.puts) > 0 {
			if w.fail("io-clean", "Flush wrote %d nodes although nothing was modified since the last Flush", len(w.puts)); w.viol != nil {
				return false
			}
		}
		if !wasDirty && t.cur != nil && l != t.cur.at {
			if w.fail("flushloc", "Flush of an unmodified tree moved it from %v to %v", t.cur.at, l); w.viol != nil {
				return false
			}
		}
		if wasDirty && len(w.puts) == 0 {
			if w.fail("flushlost", "Flush wrote nothing although the tree was modified"); w.viol != nil {
				return false
			}
		}
	}
	dec, de := w.decode(l, t.cfg.Max)
	broken := false
	if de != nil {
		if w.fail(de.class, "image flushed at %v: %s", l, de.msg); w.viol != nil {
			return false
		}
		// overlooked: what it means for the map is still to be seen
		broken = true
		dec = &Decoded{height: heightBound(len(t.m.s), t.cfg.Max), kv: t.m.s, reach: map[*blob]bool{}, bytes: map[uint64]uint64{}}
		for _, b := range w.all {
			if b.owner == t.id && !b.discarded {
				dec.reach[b] = true
			}
		}
		t.touched, t.mustMove, unknown = false, nil, true
	}
	if msg := diffKV(dec.kv, t.m.s); msg != "" {
		w.fail("flushcontent", "image flushed at %v does not hold the map: %s", l, msg)
		return false
	}
	if dec.height > w.ctr.maxHeight {
		w.ctr.maxHeight = dec.height
	}
	if dec.height > heightBound(len(t.m.s), t.cfg.Max) {
		if w.fail("depth", "tree of %d items with maximum %d keys per node has height %d", len(t.m.s), t.cfg.Max, dec.height); w.viol != nil {
			return false
		}
	}
	if t.touched && t.touchedFrom != nil {
		for b := range t.touchedFrom.dec.reach {
			if dec.reach[b] {
				if w.fail("touch", "after a full touch and Flush, node (%d,%d) of the previous version is still in use", b.at.obj, b.at.off); w.viol != nil {
					return false
				}
			}
		}
		w.label("touch:relocated")
		if len(dec.nodes) > 3 {
			w.label("touch:relocated-multi")
		}
	}
	for b := range t.mustMove {
		if dec.reach[b] {
			if w.fail("touch", "TouchItem marked node (%d,%d) and Flush did not move it", b.at.obj, b.at.off); w.viol != nil {
				return false
			}
		}
	}
	if m := t.mods + t.touches; m > 0 && !unknown && t.cur != nil && !t.fullTouch {
		h := max(dec.height, t.cur.dec.height)
		if len(w.puts) > 3*h*m {
			if w.fail("io-write", "%d modifications and %d calls of TouchItem on a tree of height %d (%d nodes) made Flush write %d nodes", t.mods, t.touches, h, len(dec.nodes), len(w.puts)); w.viol != nil {
				return false
			}
		}
		if len(dec.nodes) > 3*h*m {
			w.label("io:single-mod-flush")
		}
	}
	if t.pendLayout != nil && !unknown && !broken {
		kept := maps.Clone(dec.bytes)
		for _, b := range w.puts {
			if dec.reach[b] {
				if kept[b.at.obj] -= uint64(len(b.data)); kept[b.at.obj] == 0 {
					delete(kept, b.at.obj)
				}
			}
		}
		if !maps.Equal(kept, t.pendLayout) {
			if w.fail("layout", "layout report of the modified tree gave %v, the stored nodes it kept at the next Flush occupy %v", t.pendLayout, kept); w.viol != nil {
				return false
			}
		}
		w.label("layout:modified")
		if len(kept) > 0 {
			w.label("layout:modified-kept")
		}
	}
	if t.pendHeight != 0 && !unknown && !broken {
		if t.pendHeight != uint64(dec.height) {
			if w.fail("dims", "dimensions report of the modified tree gave height %d, the next Flush stored %d levels", t.pendHeight, dec.height); w.viol != nil {
				return false
			}
		}
		w.label("dims:modified")
	}
	t.pendLayout, t.pendHeight = nil, 0
	v := &Version{at: l, m: t.m.clone(), dec: dec, valid: true}
	t.resetTouch()
	t.dirty, t.dirtyUnknown, t.mods = false, broken, 0
	t.pruneValid = true
	if t.cur == nil || t.cur.at != l || len(w.puts) > 0 {
		t.versions = append(t.versions, v)
		if len(t.versions) > 12 {
			t.versions = t.versions[1:]
		}
		t.cur = v
	}
	if purge {
		t.visited = false
	} else if !wasDirty {
		// residency unchanged
	} else if !unknown && len(w.puts) == len(dec.nodes) {
		t.visited = true
	}
	t.post(kind, nil, false)
	if w.viol != nil {
		return false
	}
	return t.floc()
}

func (t *Tree) floc() bool {
	w := t.w
	t.pre("floc")
	var l rootLoc
	w.guard("FetchLocation", func() { l.obj, l.off, l.ln = t.bt.FetchLocation() })
	if w.viol != nil {
		return false
	}
	if t.cur != nil && !t.dirty && !t.dirtyUnknown && l != t.cur.at {
		if w.fail("flushloc", "FetchLocation gives %v, the last Flush returned %v and nothing changed since", l, t.cur.at); w.viol != nil {
			return false
		}
	}
	t.post("floc", nil, false)
	return w.viol == nil
}

func diffKV(got, want []kv) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("entry %d is (#%d,%d), want (#%d,%d)", i, got[i].k, got[i].v, want[i].k, want[i].v)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d entries, want %d", len(got), len(want))
	}
	return ""
}

// prune: op "prune".
func (t *Tree) prune(f *fault) bool {
	w := t.w
	if w.c.Proto && (t.dirty || t.dirtyUnknown || t.cur == nil) && f == nil {
		return true // the client protocol forbids it here
	}
	t.pre("prune")
	w.fault = f
	var err error
	w.guard("Prune", func() { err = t.bt.Prune() })
	if !t.checkErr("prune", err, f) {
		return false
	}
	w.ctr.prunes++
	if !t.dirty && !t.dirtyUnknown && t.cur != nil {
		w.leakCheck(t, "Flush and Prune")
	}
	t.post("prune", nil, false)
	return w.viol == nil
}

func (w *World) leakCheck(t *Tree, when string) {
	for _, b := range w.all {
		if b.owner != t.id || b.discarded || b.orphan {
			continue
		}
		if t.dead || !t.cur.dec.reach[b] {
			w.fail("leak", "after %s node (%d,%d,%d) of tree %d is neither discarded nor reachable", when, b.at.obj, b.at.off, len(b.data), t.id)
			return
		}
	}
	if !t.dead {
		for b := range t.cur.dec.reach {
			if b.discarded {
				w.fail("early", "after %s node (%d,%d) is discarded but reachable from the flushed root", when, b.at.obj, b.at.off)
				return
			}
		}
	}
}

// discard: the tree ends; a fresh empty one takes its place.
func (t *Tree) discard(f *fault) bool {
	w := t.w
	t.pre("discard")
	w.fault = f
	var err error
	w.guard("Discard", func() { err = t.bt.Discard() })
	if !t.checkErr("discard", err, f) {
		return false
	}
	t.dead = true
	w.leakCheck(t, "Discard")
	if w.viol == nil {
		t.post("discard", nil, false)
	}
	for _, v := range t.versions {
		v.valid = false
	}
	w.label("discarded")
	return w.viol == nil
}

func (w *World) replace(t *Tree) *Tree {
	nt := w.newTree(len(w.trees), t.cfg)
	w.trees = append(w.trees, nt)
	return nt
}

func (t *Tree) orphanize() {
	for _, b := range t.w.all {
		if b.owner == t.id && !b.discarded && !t.cur.dec.reach[b] {
			b.orphan = true
		}
	}
}

// open a tree object at version v.
func (t *Tree) open(v *Version, c sm.BPlusTreeCache, f *fault) (bt sm.BPlusTree, err error) {
	w := t.w
	w.fault = f
	w.guard("OldBPlusTree", func() {
		bt, err = sm.OldBPlusTree(v.at.obj, v.at.off, v.at.ln, w.compare, t.cb, c)
	})
	w.fault = nil
	return
}

// reopen: graceful (flush+purge, open again) or crash (abandon everything).
func (t *Tree) reopen(crash bool, pruneFirst bool) bool {
	w := t.w
	if crash {
		if t.cur == nil || !t.cur.valid {
			return true
		}
		w.ctr.crashes++
	} else {
		if !t.flush(true, nil) {
			return false
		}
		if pruneFirst && !t.prune(nil) {
			return false
		}
		w.ctr.reopens++
	}
	t.orphanize()
	clear(t.resident)
	t.m = t.cur.m.clone()
	t.dirty, t.dirtyUnknown, t.mods = false, false, 0
	t.resetTouch()
	t.emptied, t.visited = false, false
	t.pre("open")
	if crash {
		w.preStats = nil
	}
	bt, err := t.open(t.cur, w.theCache(t.cfg), nil)
	if w.viol != nil {
		return false
	}
	if err != nil {
		w.fail("reopen", "opening the flushed location %v failed: %v", t.cur.at, err)
		return false
	}
	t.bt = bt
	t.post("open", nil, false)
	if w.viol != nil {
		return false
	}
	return t.floc()
}

// snapCheck opens an old version with its own tree object and compares it.
func (t *Tree) snapCheck(op Op) bool {
	w := t.w
	var vs []*Version
	for _, v := range t.versions {
		if v.valid {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return true
	}
	v := vs[mod(op.A, int64(len(vs)))]
	if v != t.cur {
		w.label("snap:older")
	}
	return t.checkVersion(v)
}

func (t *Tree) checkVersion(v *Version) bool {
	w := t.w
	w.ctx = "snap"
	defer func() { w.ctx = "" }()
	w.begin("snap", t)
	bt, err := t.open(v, nil, nil)
	if w.viol != nil {
		return false
	}
	if err != nil {
		w.fail("reopen", "opening the stored version at %v failed: %v", v.at, err)
		return false
	}
	w.deepMap(bt, v.m, nil)
	if w.viol == nil {
		w.guard("Validate", func() { err = bt.Validate() })
		if err != nil {
			w.fail("validate", "Validate of the stored version at %v reports %v", v.at, err)
		}
	}
	if w.viol == nil {
		var d sm.DimensionsReport
		w.guard("FetchDimensionsReport", func() { d, err = bt.FetchDimensionsReport() })
		if w.viol == nil && (err != nil || d.MaxKeysPerNode != t.cfg.Max || d.Items != uint64(len(v.m.s))) {
			w.fail("reopen", "re-opened tree reports %+v (%v), flushed with maximum %d and %d items", d, err, t.cfg.Max, len(v.m.s))
		}
	}
	return w.viol == nil
}

func (t *Tree) layout(f *fault) bool {
	w := t.w
	t.pre("layout")
	w.fault = f
	var rep sm.LayoutReport
	var err error
	w.guard("FetchLayoutReport", func() { rep, err = t.bt.FetchLayoutReport() })
	if !t.checkErr("layout", err, f) {
		return false
	}
	if t.cur != nil && !t.dirty && !t.dirtyUnknown {
		want := t.cur.dec.bytes
		for o, n := range rep {
			if want[o] != n {
				if w.fail("layout", "layout report gives %d bytes in object %d, the tree occupies %d there", n, o, want[o]); w.viol != nil {
					return false
				}
			}
		}
		for o, n := range want {
			if _, ok := rep[o]; !ok {
				if w.fail("layout", "layout report omits object %d holding %d bytes of the tree", o, n); w.viol != nil {
					return false
				}
			}
		}
		w.label("layout:exact")
		if len(want) > 1 {
			w.label("layout:multi-object")
		}
	}
	if t.dirty && !t.dirtyUnknown {
		t.pendLayout = maps.Clone(rep)
	}
	for o := range rep { // the caller's to change
		rep[o] = 1 << 60
	}
	t.post("layout", nil, false)
	return w.viol == nil
}

func (t *Tree) dims(f *fault) bool {
	w := t.w
	t.pre("dims")
	w.fault = f
	var d sm.DimensionsReport
	var err error
	w.guard("FetchDimensionsReport", func() { d, err = t.bt.FetchDimensionsReport() })
	if !t.checkErr("dims", err, f) {
		return false
	}
	if d.Items != uint64(len(t.m.s)) || d.MaxKeysPerNode != t.cfg.Max || d.MinKeysPerNode != t.cfg.Max/2 {
		if w.fail("dims", "dimensions report %+v for a tree of %d items with maximum %d", d, len(t.m.s), t.cfg.Max); w.viol != nil {
			return false
		}
	}
	if t.cur != nil && !t.dirty && !t.dirtyUnknown {
		if d.Height != uint64(t.cur.dec.height) {
			if w.fail("dims", "dimensions report gives height %d, the stored tree has %d levels", d.Height, t.cur.dec.height); w.viol != nil {
				return false
			}
		}
		w.label("dims:exact")
	} else if int(d.Height) > heightBound(len(t.m.s), t.cfg.Max) || d.Height < 1 {
		if w.fail("dims", "dimensions report gives height %d for %d items with maximum %d", d.Height, len(t.m.s), t.cfg.Max); w.viol != nil {
			return false
		}
	} else if uint64(len(t.m.s)) > t.cfg.Max && d.Height < 2 {
		if w.fail("dims", "dimensions report gives height %d for %d items with maximum %d", d.Height, len(t.m.s), t.cfg.Max); w.viol != nil {
			return false
		}
	}
	if t.dirty && !t.dirtyUnknown {
		t.pendHeight = d.Height
	}
	t.post("dims", nil, false)
	return w.viol == nil
}

func (t *Tree) validate(f *fault) bool {
	w := t.w
	t.pre("validate")
	w.fault = f
	var err error
	w.guard("Validate", func() { err = t.bt.Validate() })
	w.fault = nil
	if w.viol != nil {
		return false
	}
	if (f != nil && f.fired > 0) || (w.damage != nil && w.damage.reads > 0) {
		return t.checkErr("validate", err, f)
	}
	if err != nil {
		w.fail("validate", "Validate reports %v", err)
		return false
	}
	t.visited = true
	t.post("validate", nil, false)
	return w.viol == nil
}

func (t *Tree) touch(f *fault) bool {
	w := t.w
	from := t.cur
	if t.dirty && !t.touched {
		// still relative to the last flushed version
	}
	t.pre("touch")
	w.fault = f
	var err error
	w.guard("Touch", func() { err = t.bt.Touch() })
	if !t.checkErr("touch", err, f) {
		return false
	}
	t.dirty, t.touched, t.touchedAny, t.touchedFrom = true, true, true, from
	t.fullTouch = true
	t.visited = true
	t.post("touch", nil, false)
	return w.viol == nil
}

// touchItem performs one TouchItem call and returns the next index.
func (t *Tree) touchItem(idx uint64, f *fault) (next uint64, ok bool) {
	w := t.w
	n := uint64(len(t.m.s))
	t.pre("ti")
	w.fault = f
	var err error
	w.guard("TouchItem", func() { next, err = t.bt.TouchItem(idx) })
	if !t.checkErr("ti", err, f) {
		return 0, false
	}
	if n == 0 || idx >= n {
		if next != 0 {
			w.fail("touchitem", "TouchItem(%d) on %d items returned %d, want 0", idx, n, next)
			return 0, false
		}
		t.post("noop", nil, false)
		return next, w.viol == nil
	}
	if next <= idx || next > n {
		w.fail("touchitem", "TouchItem(%d) on %d items returned %d: not progress within Len", idx, n, next)
		return 0, false
	}
	t.dirty, t.touchedAny = true, true
	t.touches++
	if !t.touchedLeaf(idx, next) {
		return 0, false
	}
	t.visited = false
	t.post("ti", nil, false)
	return next, w.viol == nil
}

// touchedLeaf: while the tree still has the shape of its last flushed version
// the leaf TouchItem marks is known: the index returned is the one just past
// it, and the next Flush must write it and every node above it anew.
func (t *Tree) touchedLeaf(idx, next uint64) bool {
	if t.reshaped || t.dirtyUnknown || t.cur == nil {
		return true
	}
	var at uint64
	for _, n := range t.cur.dec.nodes {
		if !n.leaf {
			continue
		}
		if at += n.items; idx >= at {
			continue
		}
		if next != at {
			t.w.fail("touchitem", "TouchItem(%d) returned %d; the leaf holding item %d ends at %d", idx, next, idx, at)
			return false
		}
		if t.mustMove == nil {
			t.mustMove = map[*blob]bool{}
		}
		for ; n != nil; n = n.up {
			t.mustMove[n.b] = true
		}
		t.w.label("touch:leaf-known")
		return true
	}
	return true
}

// touchCycle drives TouchItem from 0 until it wraps, with other calls between steps.
func (t *Tree) touchCycle(op Op, between func(step int64) bool) bool {
	w := t.w
	from := t.cur
	idx := uint64(0)
	n := len(t.m.s)
	for steps := int64(0); ; steps++ {
		if n := len(t.m.s); steps > int64(n)+2 {
			w.fail("touchitem", "a TouchItem cycle over %d items did not end", n)
			return false
		}
		next, ok := t.touchItem(idx, nil)
		if !ok {
			return false
		}
		if next == 0 {
			break
		}
		idx = next
		if between != nil && !between(steps) {
			return false
		}
	}
	if n > 0 && t.cur != nil && from != nil {
		if !t.dirty && t.cur != from {
			// flushed between the steps: compare right away
			for b := range from.dec.reach {
				if t.cur.dec.reach[b] {
					if w.fail("touch", "after a full TouchItem cycle with a Flush inside, node (%d,%d) of the version before the cycle is still in use", b.at.obj, b.at.off); w.viol != nil {
						return false
					}
				}
			}
		} else {
			t.touched, t.touchedAny, t.touchedFrom = true, true, from
		}
	}
	w.label("touch:cycle")
	return true
}

func (t *Tree) purge(full bool) bool {
	w := t.w
	kind := "purge"
	if full {
		kind = "purgef"
	}
	t.pre(kind)
	var err error
	w.guard("Purge", func() { err = t.bt.Purge(full) })
	if w.viol != nil {
		return false
	}
	if full && !t.dirtyUnknown {
		if t.dirty && err == nil {
			if w.fail("purge", "Purge(true) of a tree with unflushed modifications was not refused"); w.viol != nil {
				return false
			}
		}
		if !t.dirty && err != nil {
			if w.fail("purge", "Purge(true) of an unmodified tree failed: %v", err); w.viol != nil {
				return false
			}
		}
	}
	if !full && err != nil {
		w.fail("err", "Purge(false) failed: %v", err)
		return false
	}
	if err == nil && (full || !t.dirty && !t.dirtyUnknown) {
		t.emptied = true
	}
	clear(t.resident)
	t.visited = false
	t.post(kind, err, false)
	return w.viol == nil
}

func (w *World) setLimits(lo, hi uint64) bool {
	w.theCache(TreeCfg{Cache: true})
	if w.c.Settle {
		w.settle()
	}
	p := w.stats()
	if w.alt != nil {
		w.preAlt = w.alt.Stats()
	}
	w.begin("limits", nil)
	w.guard("UpdateLimits", func() { w.cache.UpdateLimits(lo, hi) })
	if w.viol != nil {
		return false
	}
	w.lo, w.hi = lo, hi
	if p.CleanLRUItems+p.DirtyLRUItems > hi {
		w.exceeded = true
	}
	if !w.c.Settle {
		return true
	}
	w.settle()
	if w.viol != nil {
		return false
	}
	if w.altChecks(false, "UpdateLimits"); w.viol != nil {
		return false
	}
	st := w.stats()
	if st.EvictLowLimit != lo || st.EvictHighLimit != hi {
		if w.fail("cache", "Stats reports limits %d/%d right after they were set to %d/%d", st.EvictLowLimit, st.EvictHighLimit, lo, hi); w.viol != nil {
			return false
		}
	}
	if st.DirtyLRUItems != p.DirtyLRUItems {
		if w.fail("cache", "changing the limits changed the number of modified nodes from %d to %d", p.DirtyLRUItems, st.DirtyLRUItems); w.viol != nil {
			return false
		}
	}
	if p.CleanLRUItems+p.DirtyLRUItems > hi && st.CleanLRUItems > 0 && st.CleanLRUItems+st.DirtyLRUItems > lo {
		if w.fail("cache", "limits lowered to %d/%d with %d nodes cached; at rest %d clean + %d modified remain", lo, hi, p.CleanLRUItems+p.DirtyLRUItems, st.CleanLRUItems, st.DirtyLRUItems); w.viol != nil {
			return false
		}
	}
	if p.CleanLRUItems+p.DirtyLRUItems > hi && p.CleanLRUItems > 0 {
		w.label("cache:drained-by-limits")
	}
	if p.CleanLRUItems+p.DirtyLRUItems <= hi && (st.CleanLRUItems != p.CleanLRUItems) {
		if w.fail("cache", "limits set to %d/%d with %d nodes cached evicted %d nodes below the high limit", lo, hi, p.CleanLRUItems+p.DirtyLRUItems, p.CleanLRUItems-st.CleanLRUItems); w.viol != nil {
			return false
		}
	}
	return true
}

// deep compares the live tree with its model through its own API.
func (t *Tree) deep() bool {
	w := t.w
	w.deepMap(t.bt, t.m, func() { w.begin("deep", t) })
	t.emptied = false
	t.visited = false
	clear(t.resident)
	if t.cfg.Cache {
		w.exceeded = true // loads not accounted here
		if w.c.Settle {
			w.settle()
		}
	} else if t.cfg.Alt && w.c.Settle {
		w.settle()
	}
	return w.viol == nil
}

func illegalMax(a int64) uint64 {
	switch mod(a, 6) {
	case 0:
		return uint64(mod(a/6, 4)) // 0..3
	case 1:
		return 5 + 2*uint64(mod(a/6, 50)) // odd
	case 2:
		return math.MaxUint64
	case 3:
		return 2
	case 4:
		return 1
	}
	return math.MaxUint64 - 2*uint64(mod(a/6, 9))
}

func (w *World) badNew(op Op, cfg TreeCfg) bool {
	m := illegalMax(op.A)
	w.begin("new", nil)
	var bt sm.BPlusTree
	refused := false
	func() {
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		bt = sm.NewBPlusTree(m, w.compare, nil, nil)
	}()
	if !refused && bt != nil {
		w.fail("badmax", "NewBPlusTree accepted %d as maximum keys per node", m)
	}
	return w.viol == nil
}

// step runs one op of a B+Tree case.
func (w *World) step(op Op) bool {
	live := w.liveTrees()
	t := live[mod(int64(op.T), int64(len(live)))]
	w.label("op:" + op.K)
	if t.cfg.NilCB {
		switch op.K {
		case "flush", "flushp", "reopen", "crash", "crashf", "crashp", "faulty", "open", "fprune", "dump", "discard", "prune", "snap", "layout", "purgef":
			return true
		}
	}
	switch op.K {
	case "putrun", "delrun":
		expandRun(op, t.m, w.c.U, func(o Op) bool { return t.mapOp(o, nil) })
	case "readrun":
		n := int64(len(t.m.s))
		for i := int64(0); i < op.B && n > 0; i++ {
			if !t.mapOp(Op{K: "geti", A: mod(op.A+i, n)}, nil) {
				break
			}
		}
	case "lookall":
		for j := range t.m.s {
			if len(t.m.s) > 300 && j%7 != 0 {
				continue
			}
			if !t.mapOp(Op{K: "getk", A: t.m.s[j].k}, nil) {
				break
			}
		}
	case "flush":
		t.flush(false, nil)
	case "flushp":
		t.flush(true, nil)
	case "purge":
		t.purge(false)
	case "purgef":
		t.purge(true)
	case "prune":
		t.prune(nil)
	case "fprune":
		if t.flush(op.A%2 == 0, nil) {
			t.prune(nil)
		}
	case "touch":
		t.touch(nil)
	case "ti":
		n := len(t.m.s)
		i := idxArg(n, op.A, op.B)
		t.touchItem(uint64(i), nil)
	case "ticycle":
		t.touchCycle(op, func(step int64) bool {
			what := mod(op.V+step*op.B, 17)
			if n := int64(len(t.m.s)); n > 1000 && step > 60 && what < 6 && step%(n/40) >= 17 {
				return true // each of these costs as much as the tree is large
			}
			switch what {
			case 1:
				return t.flush(op.A%2 == 0, nil)
			case 2:
				return t.purge(false)
			case 3:
				return t.mapOp(Op{K: "geti", A: op.A + step}, nil)
			case 4:
				return t.layout(nil)
			case 5:
				if !t.dirty {
					return t.prune(nil)
				}
			case 6:
				return t.mapOp(Op{K: "pati", A: op.A + step, V: step}, nil)
			case 7, 8, 9: // insertions must not make the cycle skip anything
				if step < 300 {
					return t.mapOp(Op{K: "put", A: op.A + step*(op.V+3), V: step}, nil)
				}
			}
			return true
		})
	case "reopen":
		t.reopen(false, op.A%2 == 0)
	case "crash":
		w.crashAll()
	case "snap":
		t.snapCheck(op)
	case "layout":
		t.layout(nil)
	case "dims":
		t.dims(nil)
	case "floc":
		t.floc()
	case "limits":
		lo, hi := uint64(op.A), uint64(op.B)
		if op.V > 0 && w.c.Settle && w.cache != nil {
			w.settle()
			st := w.stats()
			hi = uint64(max(0, int64(st.CleanLRUItems+st.DirtyLRUItems)+op.V-3))
			lo %= hi + 2
		}
		w.setLimits(lo, hi)
	case "dump":
		t.dump(op)
	case "discard":
		if t.discard(nil) {
			w.replace(t)
		}
	case "deep":
		t.deep()
	case "validate":
		t.validate(nil)
	case "open":
		if t.beforeOpen() {
			t.openF(nil)
		}
	case "crashf":
		w.crashMid(t, op, true)
	case "crashp":
		w.crashMid(t, op, false)
	case "faulty":
		inner := Op{K: []string{"put", "deli", "flush", "prune", "geti", "touch", "discard", "validate"}[mod(op.V, 8)], A: op.A, V: op.V}
		w.faultOp(t, inner, &fault{mask: faultMask(op.B), nth: int(mod(op.A, 6)), times: 1})
	case "badnew":
		w.badNew(op, t.cfg)
	case "rej":
		t.rejectOp(op)
	case "rejp":
		changed, met := w.rejectPart(t.bt, t.m, op, func() { t.pre("rej") })
		if changed {
			t.modified()
		}
		var err error
		if met {
			err = errReject // a node being loaded then is not in memory
		}
		t.post("rej", err, met)
	default:
		if !mapOps[op.K] || op.K == "reset" {
			panic(harnessError{"unknown op " + op.K})
		}
		t.mapOp(op, nil)
	}
	return w.viol == nil
}

func (t *Tree) rejectOp(op Op) {
	w := t.w
	t.pre("rej")
	w.reject(t.bt, t.m, op)
	t.post("rej", nil, false)
}

// crashAll: the client process dies. Every tree restarts from its last
// recorded version; trees never recorded start afresh.
func (w *World) crashAll() {
	live := w.liveTrees()
	for _, t := range live {
		if t.cur != nil && !t.cur.valid {
			return // the client destroyed its own recorded version; nothing to say
		}
	}
	w.settle()
	if w.viol != nil {
		return
	}
	w.cache, w.exceeded = nil, false
	for _, t := range live {
		if t.cur == nil {
			t.dead = true
			nt := w.replace(t)
			for _, b := range w.all {
				if b.owner == t.id {
					b.orphan = true
				}
			}
			_ = nt
			continue
		}
		if !t.reopen(true, false) {
			return
		}
	}
	for _, t := range w.liveTrees() {
		if t.cur != nil && !t.checkVersion(t.cur) {
			return
		}
	}
}

// crashMid: the client process dies at some callback inside Flush or Prune.
func (w *World) crashMid(t *Tree, op Op, flush bool) {
	f := &fault{mask: 1 << uint(cbPut), nth: int(mod(op.A, 9)), times: 1 << 30, after: op.B%2 == 0}
	kind := "flush"
	if !flush {
		kind = "prune"
		f.mask = 1 << uint(cbDiscard)
		if w.c.Proto && (t.dirty || t.dirtyUnknown || t.cur == nil) {
			return
		}
	} else if op.B%3 == 0 {
		kind = "flushp"
	}
	t.pre(kind)
	w.fault = f
	w.guard("a call cut short by a crash", func() {
		if flush {
			t.bt.Flush(kind == "flushp")
		} else {
			t.bt.Prune()
		}
	})
	w.fault = nil
	if w.viol != nil {
		return
	}
	if f.fired > 0 {
		w.label("crash:inside-" + kind)
	}
	w.crashAll()
}

func (w *World) liveTrees() []*Tree {
	var live []*Tree
	for _, t := range w.trees {
		if !t.dead {
			live = append(live, t)
		}
	}
	return live
}

func runBTree(c *Case) *World {
	w := newWorld(c)
	for i, cfg := range c.Trees {
		t := w.newTree(i, cfg)
		if w.viol != nil {
			return w
		}
		w.trees = append(w.trees, t)
	}
	for i, op := range c.Ops {
		w.opIdx = i
		if !w.step(op) && w.over() {
			return w
		}
	}
	w.opIdx = len(c.Ops)
	w.finish()
	return w
}

// finish: closing checks of every B+Tree case.
func (w *World) finish() {
	defer w.checkGuards()
	for _, t := range w.liveTrees() {
		if w.viol != nil {
			return
		}
		if !t.validate(nil) || !t.deep() {
			return
		}
		if t.cfg.NilCB {
			continue
		}
		switch w.c.Prop {
		case "C06", "C19":
			if !t.flush(w.c.Z%2 == 0, nil) || !t.prune(nil) || !t.checkVersion(t.cur) {
				return
			}
			if w.c.Z%3 == 0 && !t.discard(nil) {
				return
			}
		case "C09":
			if w.c.Z%3 == 0 {
				if !t.touch(nil) {
					return
				}
			} else if !t.touchCycle(Op{V: 3, B: w.c.Z % 5}, nil) {
				return
			}
			if !t.flush(w.c.Z%2 == 0, nil) || !t.prune(nil) || !t.checkVersion(t.cur) {
				return
			}
		case "C02", "C14", "C18", "C17":
			if w.c.X%2 == 0 && !t.flush(false, nil) {
				return
			}
		default:
			if !t.flush(w.c.Z%2 == 0, nil) || !t.checkVersion(t.cur) {
				return
			}
		}
	}
	w.verifyStore()
	w.settle()
}

func sortedLabels(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
