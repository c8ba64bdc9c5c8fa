package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var curWorld *World
var realStdout *os.File

// execCase runs one case; abandoned means goroutines were left behind and the
// process should not be used again.
func execCase(c *Case) (w *World, abandoned bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abandonWorker); ok {
				w, abandoned = curWorld, true
				return
			}
			panic(r)
		}
	}()
	progress.conc.Store(false)
	switch {
	case c.Prop == "C12":
		progress.conc.Store(true)
		w = runConc(c)
	case c.Kind == "iso":
		progress.conc.Store(true)
		w = runIso(c)
	case c.Kind == "llrb":
		w = runLLRB(c)
	case c.Kind == "btree":
		w = runBTree(c)
	case c.Kind == "image":
		w = runImage(c)
	case c.Kind == "forged":
		w = runForged(c)
	case c.Kind == "fault":
		w = runFault(c)
	case c.Kind == "storm":
		w = runStorm(c)
	case c.Kind == "damage":
		w = runDamage(c)
	case c.Kind == "cmp":
		w = runCmp(c)
	default:
		panic(harnessError{"unknown kind " + c.Kind})
	}
	return
}

func cloneCase(c *Case) *Case {
	b, _ := json.Marshal(c)
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(harnessError{err.Error()})
	}
	return &d
}

// ---- attribution ---------------------------------------------------------

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

const contentClasses = " result deep validate panic err uaf badlen spin deadlock hang image lost reopen flushcontent "

// own: classes that are breaches of the property by themselves.
// ctl: classes that are breaches unless the same history without the
// property's ingredient fails as well.
var own = map[string]map[string]bool{
	"C01": set(contentClasses),
	"C02": set(contentClasses + "badmax"),
	"C03": set("purge flushlost"),
	"C04": set("flushloc io-clean flushlost rewrite reopen flushcontent lost format"),
	"C05": set("early cbscope rewrite lost uaf dfree"),
	"C06": set("leak dfree uaf badlen foreign early lost"),
	"C07": set("faultlost"),
	"C08": set("damage forged"),
	"C09": set("touch touchitem"),
	"C10": set("layout dims"),
	"C11": set("cache cachelru"),
	"C12": set(contentClasses + "lin race leak rewrite dfree foreign cache seq"),
	"C13": set("fill depth cmpcount io-read validate"),
	"C14": set("io-clean io-read io-more io-reread io-write cbscope"),
	"C15": set("format lost fill depth image flushcontent rewrite"),
	"C16": set("cmp panic"),
	"C17": set("reject"),
	"C18": set("dump"),
	"C19": set("foreign crosstree"),
}

var anyClass = "*"
var ctl = map[string]string{
	"C03": contentClasses,
	"C04": contentClasses,
	"C05": contentClasses,
	"C06": "panic err spin deadlock hang reopen",
	"C07": anyClass,
	"C08": anyClass,
	"C09": contentClasses + " leak dfree early",
	"C10": contentClasses + " io-clean flushloc flushlost",
	"C11": contentClasses + " flushlost leak",
	"C13": "panic hang spin",
	"C14": "panic",
	"C15": contentClasses,
	"C17": contentClasses + " io-clean fill depth",
	"C18": contentClasses + " io-clean flushlost",
	"C19": contentClasses + " early dfree leak flushlost flushloc format cache io-clean",
}

func baseClass(class string) string {
	if i := strings.IndexByte(class, ':'); i >= 0 {
		return class[i+1:]
	}
	return class
}

func filterOps(c *Case, drop string) *Case {
	d := cloneCase(c)
	ds := set(drop)
	d.Ops = nil
	for _, o := range c.Ops {
		if !ds[o.K] {
			d.Ops = append(d.Ops, o)
		}
	}
	return d
}

// controls: the same history without what the property is about.
func controls(c *Case) []*Case {
	one := func(d *Case) []*Case { return []*Case{d} }
	switch c.Prop {
	case "C03", "C04", "C05":
		d := filterOps(c, "flush flushp purge purgef prune fprune touch ti ticycle layout dims validate floc limits dump readrun reopen crash crashf crashp snap")
		d.Prop = "C02"
		d.X = 1 // no closing flush
		for i := range d.Trees {
			d.Trees[i].Cache, d.Trees[i].Alt = false, false
		}
		return one(d)
	case "C06":
		d := filterOps(c, "prune fprune discard crash snap touch ti ticycle")
		d.Prop = "C02"
		d.X = 1
		return one(d)
	case "C07":
		d := cloneCase(c)
		d.Kind = "btree"
		d.Prop = "C06"
		return one(d)
	case "C08":
		if c.Kind == "forged" {
			return nil
		}
		d := cloneCase(c)
		d.Kind = "btree"
		if c.Image != nil {
			d.Kind = "image"
		}
		d.Prop = "C06"
		return one(d)
	case "C09":
		d := filterOps(c, "touch ti ticycle")
		d.Prop = "C06"
		return one(d)
	case "C10":
		return one(withProp(filterOps(c, "layout dims"), "C04"))
	case "C11":
		d := cloneCase(c)
		for i := range d.Trees {
			d.Trees[i].Cache, d.Trees[i].Alt = false, false
		}
		d.Prop = "C03"
		return one(d)
	case "C13":
		return one(withProp(filterOps(c, "lookall dims validate"), "C02"))
	case "C14":
		return one(withProp(filterOps(c, "flush flushp purge purgef validate layout dims floc prune dump reopen"), "C02"))
	case "C15":
		if c.Kind != "image" {
			return one(withProp(filterOps(c, "flush flushp reopen fprune purge purgef"), "C02"))
		}
		// the same contents put in by the library's own means
		d := cloneCase(c)
		d.Kind, d.Image, d.Prop = "btree", nil, "C04"
		root, _, u := c.Image.plan(c.Trees[0].Max)
		d.U = max(d.U, u)
		m := &Model{}
		root.contents(m)
		d.Ops = nil
		for _, e := range m.s {
			d.Ops = append(d.Ops, Op{K: "put", A: e.k, V: e.v})
		}
		d.Ops = append(d.Ops, Op{K: "flushp"})
		d.Ops = append(d.Ops, c.Ops...)
		return one(d)
	case "C17":
		return one(filterOps(c, "rej rejp"))
	case "C18":
		return one(filterOps(c, "dump"))
	case "C19":
		var ds []*Case
		if c.Kind == "iso" {
			for i := range min(len(c.Trees), len(c.Progs)) { // each tree on its own
				d := cloneCase(c)
				d.Trees, d.Progs, d.Z = c.Trees[i:i+1], c.Progs[i:i+1], 1
				ds = append(ds, d)
			}
			return ds
		}
		for i := range c.Trees {
			d := cloneCase(c)
			d.Trees = []TreeCfg{c.Trees[i]}
			d.Ops = nil
			d.Prop = "C06"
			for _, o := range c.Ops {
				// trees that replace discarded ones make this approximate; the
				// control only ever silences, never raises
				if mod(int64(o.T), int64(len(c.Trees))) == int64(i) || o.K == "limits" || strings.HasPrefix(o.K, "crash") {
					o.T = 0
					if o.K == "faulty" {
						continue
					}
					d.Ops = append(d.Ops, o)
				}
			}
			ds = append(ds, d)
		}
		return ds
	}
	return nil
}

func withProp(c *Case, p string) *Case { c.Prop = p; return c }

// alarm decides whether v, seen while running c, breaks c.Prop.
func alarm(c *Case, v *Violation) bool {
	if v == nil {
		return false
	}
	b := baseClass(v.Class)
	if strings.HasPrefix(v.Class, "snap:") && (c.Prop == "C05" || c.Prop == "C04") {
		// a stored version that does not read back
	} else if own[c.Prop][b] && !strings.HasPrefix(v.Class, "snap:") {
		return true
	} else if own[c.Prop][b] && (c.Prop == "C15" || c.Prop == "C12" || c.Prop == "C06") {
		return true
	} else if c.Kind == "iso" {
		// any breach, unless a tree on its own shows it too
	} else if ctl[c.Prop] != anyClass && !set(ctl[c.Prop])[b] {
		return false
	}
	for _, d := range controls(c) {
		w, abandoned := execCase(d)
		if w.viol != nil && (c.Prop != "C19" || baseClass(w.viol.Class) == b) {
			return false
		}
		if abandoned {
			return false
		}
	}
	return true
}

// soft: breaches a history can go on from without making later judgements moot.
var soft = set("format fill depth io-clean io-read io-more io-reread io-write cache cachelru leak early touch touchitem layout dims flushloc flushlost dfree cbscope foreign rewrite cmpcount purge dump reject crosstree")

// overlook: c ended with v, which is no breach of its property. The same
// history is followed past breaches of that kind: the consequences may be.
func overlook(c *Case, v *Violation) (*Case, *World) {
	for i := 0; i < 6; i++ {
		b := baseClass(v.Class)
		if !soft[b] || timing(c) || c.Kind == "forged" {
			return nil, nil
		}
		c = cloneCase(c)
		c.Soft = append(c.Soft, b)
		var w *World
		func() {
			defer func() { recover() }()
			var abandoned bool
			if w, abandoned = execCase(c); abandoned {
				w = nil
			}
		}()
		if w == nil || w.viol == nil || lingering() {
			return nil, nil
		}
		if v = w.viol; alarm(c, v) {
			return c, w
		}
	}
	return nil, nil
}

// ---- worker ----------------------------------------------------------------

type workerOut struct {
	Evaluations  int
	Nontrivial   int // not necessarily distinct
	Labels       map[string]int
	Foreign      map[string]int
	ForeignEx    map[string]string
	Counters     map[string]int
	Samples      []json.RawMessage
	Violation    *Violation
	Replay       *Case
	Incomplete   bool
	RapidProblem string
}

func (o *workerOut) add(w *World, nt bool) {
	o.Evaluations++
	if nt {
		o.Nontrivial++
	}
	for k, v := range w.labels {
		if v > 0 {
			o.Labels[k]++
		}
	}
	c := &w.ctr
	for k, v := range map[string]int{"calls": c.ops, "successful_modifications": c.okMods, "node_reads": c.gets, "node_writes": c.puts, "node_discards": c.discs, "faults_fired": c.faultsFired, "damaged_reads": c.damagedReads, "flushes": c.flushes, "prunes": c.prunes, "reopens": c.reopens, "crashes": c.crashes, "reloads_after_eviction": c.evictLoads} {
		o.Counters[k] += v
	}
	o.Counters["max_items"] = max(o.Counters["max_items"], c.maxItems)
	o.Counters["max_height"] = max(o.Counters["max_height"], c.maxHeight)
}

func caseHash(c *Case) uint64 {
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

type quietTB struct{ msg string }

type tbStop struct{}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Name() string              { return "case" }
func (q *quietTB) Logf(string, ...any)       {}
func (q *quietTB) Log(...any)                {}
func (q *quietTB) Skipf(f string, a ...any)  { q.msg = "skip " + fmt.Sprintf(f, a...); panic(tbStop{}) }
func (q *quietTB) Skip(a ...any)             { q.msg = "skip " + fmt.Sprint(a...); panic(tbStop{}) }
func (q *quietTB) SkipNow()                  { panic(tbStop{}) }
func (q *quietTB) Errorf(f string, a ...any) { q.msg += fmt.Sprintf(f, a...) }
func (q *quietTB) Error(a ...any)            { q.msg += fmt.Sprint(a...) }
func (q *quietTB) Fatalf(f string, a ...any) { q.msg += fmt.Sprintf(f, a...); panic(tbStop{}) }
func (q *quietTB) Fatal(a ...any)            { q.msg += fmt.Sprint(a...); panic(tbStop{}) }
func (q *quietTB) FailNow()                  { panic(tbStop{}) }
func (q *quietTB) Fail()                     {}
func (q *quietTB) Failed() bool              { return false }

func must(err error) {
	if err != nil {
		panic(harnessError{err.Error()})
	}
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path+".tmp", b, 0o644))
	must(os.Rename(path+".tmp", path))
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func silence() {
	var err error
	realStdout = os.Stdout
	devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = devNull
}

// worker: work <prop> <tier> <seed> <checks> <seconds> <outprefix>
func worker(args []string) {
	prop, tier := args[0], args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	checks := args[3]
	secs, _ := strconv.Atoi(args[4])
	prefix := args[5]
	silence()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	out := &workerOut{Labels: map[string]int{}, Foreign: map[string]int{}, ForeignEx: map[string]string{}, Counters: map[string]int{}}
	var hashes []byte
	finish := func(code int) {
		must(os.WriteFile(prefix+".hashes", hashes, 0o644))
		writeJSON(prefix+".json", out)
		os.Exit(code)
	}
	go watchdog(prefix)
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", checks)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "6s")
	noShrink := os.Getenv("VERIF_NOSHRINK") != "" // for campaigns over many changed trees
	if noShrink {
		flag.Set("rapid.shrinktime", "1ms")
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	var best *Case
	var bestV *Violation
	var hardStop time.Time
	consider := func(c *Case, w *World) {
		if best == nil || size(c) < size(best) {
			first := best == nil
			best, bestV = cloneCase(c), w.viol
			if first { // should this process not outlive the minimisation
				writeJSON(prefix+".found", replayFile{prop, bestV, best})
			}
		}
	}
	curFile, err := os.Create(prefix + ".cur")
	must(err)
	record := func(c *Case) {
		b, _ := json.Marshal(c)
		curFile.Truncate(0)
		curFile.WriteAt(b, 0)
	}
	fails := 0
	began := time.Now()
	var softTime time.Duration
	prop1 := func(t *rapid.T) {
		c := generate(t, prop, tier == "thorough")
		if best == nil && time.Now().After(deadline) {
			out.Incomplete = true
			return
		}
		if best != nil && time.Now().After(hardStop) {
			return
		}
		record(c)
		t0 := time.Now()
		w, abandoned := execCase(c)
		if dir := os.Getenv("VERIF_SLOW"); dir != "" && time.Since(t0) > 3*time.Second { // debugging aid
			writeJSON(fmt.Sprintf("%s/%s-%d-%016x.json", dir, c.Prop, int(time.Since(t0).Seconds()), caseHash(c)), replayFile{Property: c.Prop, Case: c})
		}
		if best == nil {
			nt := nontrivial(c, w)
			out.add(w, nt)
			if nt {
				hashes = binary.LittleEndian.AppendUint64(hashes, caseHash(c))
				if len(out.Samples) < 2 && w.viol == nil {
					b, _ := json.Marshal(c)
					if len(b) < 3000 {
						out.Samples = append(out.Samples, b)
					}
				}
			}
		}
		if w.viol == nil {
			return
		}
		if abandoned || lingering() {
			if alarmClassOnly(c, w.viol) {
				out.Violation, out.Replay = w.viol, cutAt(c, w.viol.OpIdx)
				finish(1)
			}
			out.Foreign[w.viol.Class]++
			out.ForeignEx[w.viol.Class] = w.viol.Msg
			finish(0)
		}
		v := w.viol
		bad := alarm(c, v)
		if !bad && (best == nil || len(best.Soft) > 0) && softTime < 5*time.Second+time.Since(began)/4 {
			t1 := time.Now()
			if c2, w2 := overlook(c, v); c2 != nil {
				c, w, v, bad = c2, w2, w2.viol, true
			}
			softTime += time.Since(t1)
			if lingering() {
				if best == nil {
					finish(0)
				}
				out.Replay, out.Violation = best, bestV
				finish(1)
			}
		}
		if best != nil && baseClass(bestV.Class) != baseClass(v.Class) {
			return
		}
		if !bad {
			if best == nil {
				out.Foreign[v.Class]++
				if dir := os.Getenv("VERIF_FOREIGN"); dir != "" { // debugging aid
					writeJSON(fmt.Sprintf("%s/%s-%016x.json", dir, c.Prop, caseHash(c)), map[string]any{"Property": c.Prop, "Violation": v, "Case": c})
				}
				if out.ForeignEx[v.Class] == "" {
					out.ForeignEx[v.Class] = trim(v.Msg, 300)
				}
			}
			return
		}
		if best == nil {
			hardStop = time.Now().Add(8 * time.Second)
			if noShrink {
				hardStop = time.Now()
			}
		}
		consider(c, w)
		fails++
		if timing(c) { // timing dependent: no use re-running under rapid
			panic(stopRapid{})
		}
		t.Fatalf("violation")
	}
	tb := &quietTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case tbStop, stopRapid:
				default:
					panic(r)
				}
			}
		}()
		rapid.Check(tb, prop1)
	}()
	if best == nil && tb.msg != "" {
		out.RapidProblem = tb.msg
	}
	if best != nil {
		out.Replay, out.Violation = best, bestV
		if !noShrink {
			out.Replay, out.Violation = shrink(best, bestV, record)
		}
		finish(1)
	}
	finish(0)
}

type stopRapid struct{}

// timing: the outcome depends on how goroutines are scheduled.
func timing(c *Case) bool { return c.Prop == "C12" || c.Kind == "iso" }

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func size(c *Case) int {
	n := len(c.Ops) * 1000
	for _, o := range c.Ops {
		if o.K == "putrun" || o.K == "delrun" || o.K == "readrun" {
			n += int(o.B)
		}
		n += 1
	}
	for _, p := range c.Progs {
		n += len(p)*1000 + 5000
	}
	for _, t := range c.Trees {
		n += int(min(t.Max, 5000)) + 500
	}
	return n
}

func cutAt(c *Case, idx int) *Case {
	d := cloneCase(c)
	if idx+1 < len(d.Ops) && !timing(c) {
		d.Ops = d.Ops[:idx+1]
	}
	return d
}

func alarmClassOnly(c *Case, v *Violation) bool {
	b := baseClass(v.Class)
	return own[c.Prop][b] || ctl[c.Prop] == anyClass || set(ctl[c.Prop])[b]
}

// shrink: delta debugging over the operations, then over the knobs.
func shrink(c *Case, v *Violation, record func(*Case)) (*Case, *Violation) {
	deadline := time.Now().Add(10 * time.Second)
	over := false
	try := func(d *Case) bool {
		if over || time.Now().After(deadline) {
			return false
		}
		record(d)
		n := 1
		if timing(c) {
			n = 5
		}
		for i := 0; i < n; i++ {
			w, abandoned := execCase(cloneCase(d))
			if abandoned || w.viol != nil && lingering() {
				over = true
				return false
			}
			if w.viol != nil && baseClass(w.viol.Class) == baseClass(v.Class) && alarm(d, w.viol) {
				c, v = d, w.viol
				return true
			}
		}
		return false
	}
	if d := cutAt(c, v.OpIdx); len(d.Ops) < len(c.Ops) {
		try(d)
	}
	again := true
	for again && time.Now().Before(deadline) {
		again = false
		for n := max(1, len(c.Ops)/2); n >= 1; n /= 2 {
			for i := 0; i+n <= len(c.Ops); {
				d := cloneCase(c)
				d.Ops = append(d.Ops[:i], d.Ops[i+n:]...)
				if c.Kind == "fault" && int(c.X) < len(c.Ops) && i < int(c.X) {
					d.X = c.X - int64(min(n, int(c.X)-i))
				}
				if try(d) {
					again = true
				} else {
					i += n
				}
			}
		}
		for g := 0; g < len(c.Progs); g++ {
			d := cloneCase(c)
			d.Progs = append(d.Progs[:g], d.Progs[g+1:]...)
			if len(d.Progs) > 1 && try(d) {
				again = true
				g--
				continue
			}
			for n := max(1, len(c.Progs[g])/2); n >= 1; n /= 2 {
				for i := 0; i+n <= len(c.Progs[g]); {
					d := cloneCase(c)
					d.Progs[g] = append(d.Progs[g][:i], d.Progs[g][i+n:]...)
					if try(d) {
						again = true
					} else {
						i += n
					}
				}
			}
		}
		for i := range c.Ops {
			for _, f := range []func(o *Op){func(o *Op) { o.B /= 2 }, func(o *Op) { o.B-- }, func(o *Op) { o.A = 0 }, func(o *Op) { o.A /= 2 }, func(o *Op) { o.V = 0 }} {
				d := cloneCase(c)
				f(&d.Ops[i])
				if d.Ops[i] != c.Ops[i] && d.Ops[i].B >= 0 && try(d) {
					again = true
				}
			}
		}
		for _, f := range []func(d *Case){
			func(d *Case) { d.Key = 0 }, func(d *Case) { d.Val = valInt }, func(d *Case) { d.KCod = 0 }, func(d *Case) { d.VCod = 0 }, func(d *Case) { d.Place = 0 }, func(d *Case) { d.Alias = false },
			func(d *Case) { d.Settle = false }, func(d *Case) {
				for i := range d.Trees {
					d.Trees[i].Cache, d.Trees[i].Alt = false, false
				}
			}, func(d *Case) {
				for i := range d.Trees {
					d.Trees[i].Max = 4
				}
			}, func(d *Case) {
				if len(d.Trees) > 1 {
					d.Trees = d.Trees[:len(d.Trees)-1]
				}
			},
		} {
			d := cloneCase(c)
			f(d)
			if caseHash(d) != caseHash(c) && try(d) {
				again = true
			}
		}
	}
	return c, v
}

// watchdog ends a worker whose call never returns.
func watchdog(prefix string) {
	limit := 8 * time.Second
	last, since, cpu := int64(-1), time.Now(), cpuTime()
	die := func(class, msg string) {
		writeJSON(prefix+".died", &Violation{Class: class, Msg: msg, OpIdx: -1})
		os.Exit(3)
	}
	for {
		time.Sleep(250 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			die("hang", "a call consumes memory without bound")
		}
		if progress.conc.Load() {
			last = -1
			continue
		}
		s := progress.seq.Load()
		if s != last || progress.inCall.Load() == 0 {
			last, since, cpu = s, time.Now(), cpuTime()
			continue
		}
		el := time.Since(since)
		if el < limit {
			continue
		}
		gs := libGoroutines()
		if allBlocked(gs) {
			time.Sleep(time.Second)
			if allBlocked(libGoroutines()) && progress.seq.Load() == last {
				die("deadlock", "a call is blocked for ever:\n"+trim(gs[0], 1500))
			}
			continue
		}
		if cpuTime()-cpu > 20*time.Second && len(gs) > 0 {
			die("hang", fmt.Sprintf("one call has used %v of processor time without returning:\n%s", cpuTime()-cpu, trim(gs[0], 1500)))
		}
		if el > 200*time.Second {
			fmt.Fprintln(os.Stderr, "harness: a call did not return in 200s (inconclusive)")
			os.Exit(4)
		}
	}
}

// ---- replay ----------------------------------------------------------------

type replayFile struct {
	Property  string
	Violation *Violation
	Case      *Case
}

// replay <file> [outprefix]: exit 1 when the violation shows.
func replay(args []string) {
	var rf replayFile
	must(readJSON(args[0], &rf))
	silence()
	debug.SetMaxStack(256 << 20)
	prefix := args[0] + fmt.Sprintf(".%d", os.Getpid())
	quiet := false
	if len(args) > 1 {
		prefix, quiet = args[1], true
	}
	go watchdog(prefix)
	n := 1
	end := time.Now().Add(20 * time.Second)
	if timing(rf.Case) {
		n = 300
	}
	for i := 0; i < n && time.Now().Before(end); i++ {
		c := cloneCase(rf.Case)
		w, abandoned := execCase(c)
		if w.viol == nil {
			continue
		}
		v := w.viol
		bad := false
		if abandoned || lingering() {
			bad = alarmClassOnly(c, v)
		} else {
			bad = alarm(c, v)
		}
		if quiet {
			writeJSON(prefix+".died", v)
		} else {
			fmt.Fprintf(realStdout, "%s: %s\n", rf.Case.Prop, v)
		}
		if bad {
			if !quiet {
				fmt.Fprintf(realStdout, "VIOLATION property=%s replay=%s\n", rf.Case.Prop, args[0])
			}
			os.Exit(1)
		}
		if !quiet {
			fmt.Fprintf(realStdout, "(not a violation of %s)\n", rf.Case.Prop)
		}
		os.Exit(0)
	}
	os.Exit(0)
}

// ---- driver ------------------------------------------------------------------

type driver struct {
	prop, tier, root, tmp, self string
	seed                        int64
	start                       time.Time
	mu                          sync.Mutex
	viol                        []replayFile
	problems                    []string
	outs                        []*workerOut
	hashes                      map[uint64]bool
	regress                     int
}

func (d *driver) env() []string {
	e := os.Environ()
	procs := "3"
	if d.prop == "C12" {
		procs = "4"
	}
	return append(e, "GOMAXPROCS="+procs, "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
}

// classifyDeath turns the remains of a dead process into a violation.
func classifyDeath(code int, prefix, stderr string) (*Violation, string) {
	var v Violation
	if code == 3 && readJSON(prefix+".died", &v) == nil {
		return &v, ""
	}
	if code == 66 || strings.Contains(stderr, "WARNING: DATA RACE") {
		lib, what := raceInLibrary(stderr)
		if lib {
			return &Violation{Class: "race", Msg: what, OpIdx: -1}, ""
		}
		return nil, "data race outside the library:\n" + trim(stderr, 3000)
	}
	if strings.Contains(stderr, "stack overflow") {
		if libFrameIn(stderr) {
			return &Violation{Class: "panic", Msg: "unbounded recursion: " + firstLines(stderr, 3), OpIdx: -1}, ""
		}
	}
	if i := strings.Index(stderr, "panic: "); i >= 0 && !strings.Contains(stderr, "harnessError") {
		if libFirst(stderr[i:]) {
			return &Violation{Class: "panic", Msg: "panic in a goroutine of the library: " + firstLines(stderr[i:], 6), OpIdx: -1}, ""
		}
	}
	if i := strings.Index(stderr, "fatal error: "); i >= 0 {
		if strings.Contains(stderr, "concurrent map") || strings.Contains(stderr, "unlock of unlocked") || strings.Contains(stderr, "all goroutines are asleep") {
			if libFirst(stderr[i:]) {
				return &Violation{Class: "panic", Msg: firstLines(stderr[i:], 6), OpIdx: -1}, ""
			}
		}
	}
	return nil, fmt.Sprintf("worker ended with code %d:\n%s", code, trim(stderr, 3000))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func libFrameIn(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if libFrame(strings.TrimSpace(l)) {
			return true
		}
	}
	return false
}

// libFirst: the first non-runtime frame of the first goroutine is the library's.
func libFirst(s string) bool {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(s[i+1:], "\n")[1:] {
		if l == "" {
			return false
		}
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/") {
			continue
		}
		return libFrame(l) || strings.HasPrefix(l, "created by github.com/NVIDIA/sortedmap")
	}
	return false
}

// raceInLibrary: both accesses of the report were made by library code, or
// one by it and the other by the harness reading what the library returned.
func raceInLibrary(s string) (bool, string) {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return false, ""
	}
	s = s[i:]
	if j := strings.Index(s[1:], "=================="); j > 0 {
		s = s[:j+1]
	}
	lib := 0
	var where []string
	lines := strings.Split(s, "\n")
	for k := 0; k < len(lines); k++ {
		l := strings.TrimSpace(lines[k])
		if !(strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine")) {
			continue
		}
		for k++; k < len(lines) && strings.TrimSpace(lines[k]) != ""; k++ {
			f := strings.TrimSpace(lines[k])
			if strings.HasPrefix(f, "/") || strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "sync") || strings.HasPrefix(f, "internal/") {
				continue
			}
			if libFrame(f) {
				lib++
				where = append(where, f)
			} else {
				where = append(where, f)
			}
			break
		}
	}
	return lib > 0, "data race: " + strings.Join(where, " / ")
}

func (d *driver) runProc(prefix string, timeout time.Duration, args ...string) (int, string) {
	errf, err := os.Create(prefix + ".stderr")
	must(err)
	defer errf.Close()
	cmd := exec.Command(d.self, args...)
	cmd.Env = d.env()
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	must(cmd.Start())
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	b, _ := os.ReadFile(prefix + ".stderr")
	if len(b) > 1<<20 {
		b = b[:1<<20]
	}
	return code, string(b)
}

func (d *driver) shard(i int, seed uint64, checks, secs int) {
	prefix := filepath.Join(d.tmp, fmt.Sprintf("w%d", i))
	code, stderr := d.runProc(prefix, time.Duration(secs+200)*time.Second, "work", d.prop, d.tier, fmt.Sprint(seed), fmt.Sprint(checks), fmt.Sprint(secs), prefix)
	d.mu.Lock()
	defer d.mu.Unlock()
	var out workerOut
	if code == 0 || code == 1 {
		if err := readJSON(prefix+".json", &out); err != nil {
			d.problems = append(d.problems, err.Error()+" "+trim(stderr, 2000))
			return
		}
		d.outs = append(d.outs, &out)
		if b, err := os.ReadFile(prefix + ".hashes"); err == nil {
			for len(b) >= 8 {
				d.hashes[binary.LittleEndian.Uint64(b)] = true
				b = b[8:]
			}
		}
		if out.RapidProblem != "" {
			d.problems = append(d.problems, "rapid: "+out.RapidProblem)
		}
		if out.Violation != nil {
			d.viol = append(d.viol, replayFile{d.prop, out.Violation, out.Replay})
		}
		return
	}
	var found replayFile
	if readJSON(prefix+".found", &found) == nil && found.Case != nil {
		d.viol = append(d.viol, found)
		return
	}
	v, problem := classifyDeath(code, prefix, stderr)
	if v == nil {
		d.problems = append(d.problems, problem)
		return
	}
	var c Case
	if err := readJSON(prefix+".cur", &c); err != nil {
		d.problems = append(d.problems, "no current case: "+err.Error())
		return
	}
	if !alarmClassOnly(&c, v) {
		d.outs = append(d.outs, &workerOut{Evaluations: 1, Foreign: map[string]int{v.Class: 1}, ForeignEx: map[string]string{v.Class: trim(v.Msg, 300)}})
		return
	}
	d.viol = append(d.viol, replayFile{d.prop, v, &c})
}

// tryCase runs a case in a process of its own.
func (d *driver) tryCase(c *Case, tag string, timeout time.Duration) (*Violation, string) {
	prefix := filepath.Join(d.tmp, "r"+tag)
	writeJSON(prefix+".case", replayFile{Property: c.Prop, Case: c})
	os.Remove(prefix + ".died")
	code, stderr := d.runProc(prefix, timeout, "replay", prefix+".case", prefix)
	if code == 0 {
		return nil, ""
	}
	if code == 1 {
		var v Violation
		if err := readJSON(prefix+".died", &v); err != nil {
			return nil, err.Error()
		}
		return &v, ""
	}
	return classifyDeath(code, prefix, stderr)
}

// shrinkDead minimises a case that kills its process.
func (d *driver) shrinkDead(rf replayFile) replayFile {
	if os.Getenv("VERIF_NOSHRINK") != "" {
		return rf
	}
	deadline := time.Now().Add(40 * time.Second)
	if rf.Violation.Class == "deadlock" || rf.Violation.Class == "hang" {
		deadline = time.Now().Add(90 * time.Second)
	}
	try := func(c *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		v, _ := d.tryCase(c, "shrink", 60*time.Second)
		if v != nil && v.Class == rf.Violation.Class {
			rf.Case, rf.Violation = c, v
			return true
		}
		return false
	}
	for n := max(1, len(rf.Case.Ops)/2); n >= 1; n /= 2 {
		for i := 0; i+n <= len(rf.Case.Ops); {
			c := cloneCase(rf.Case)
			c.Ops = append(c.Ops[:i], c.Ops[i+n:]...)
			if !try(c) {
				i += n
			}
			if time.Now().After(deadline) {
				return rf
			}
		}
	}
	for g := 0; g < len(rf.Case.Progs); g++ {
		c := cloneCase(rf.Case)
		c.Progs = append(c.Progs[:g], c.Progs[g+1:]...)
		if len(c.Progs) > 1 && try(c) {
			g--
		}
	}
	return rf
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

func check(args []string) {
	d := &driver{prop: args[0], tier: args[1], root: args[2], tmp: args[3], start: time.Now(), hashes: map[uint64]bool{}}
	d.self, _ = os.Executable()
	d.seed = int64(envInt("VERIF_SEED", 1))
	plan, ok := plans[d.prop]
	if !ok {
		fmt.Println("no such property", d.prop)
		os.Exit(2)
	}
	checks, secs := plan.quick, 110
	if d.tier == "thorough" {
		checks, secs = plan.quick*20, 600
	}
	checks = envInt("VERIF_CHECKS", checks)
	secs = envInt("VERIF_SECS", secs)
	shards := envInt("VERIF_SHARDS", plan.shards)

	// committed regressions first
	files, _ := filepath.Glob(filepath.Join(d.root, "regress", d.prop+"-*.json"))
	sort.Strings(files)
	known := 0
	for i, f := range files {
		var rf replayFile
		must(readJSON(f, &rf))
		v, problem := d.tryCase(rf.Case, fmt.Sprintf("reg%d", i), 120*time.Second)
		d.regress++
		if problem != "" {
			d.problems = append(d.problems, f+": "+problem)
		} else if v != nil {
			if d.knownFinding(filepath.Base(f)) {
				known++
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", d.prop, filepath.Base(f), trim(v.Msg, 200))
				continue
			}
			d.viol = append(d.viol, replayFile{d.prop, v, rf.Case})
		}
	}
	if len(d.viol) == 0 {
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			h := fnv.New64a()
			fmt.Fprintf(h, "%s/%s/%d/%d", d.prop, d.tier, d.seed, i)
			seed := h.Sum64() | 1
			wg.Add(1)
			go func() { defer wg.Done(); d.shard(i, seed, checks, secs) }()
		}
		wg.Wait()
	}
	exit := 0
	var best *replayFile
	for i := range d.viol {
		if best == nil || size(d.viol[i].Case) < size(best.Case) {
			best = &d.viol[i]
		}
	}
	var replayPath string
	if best != nil {
		exit = 1
		rf := *best
		if rf.Violation.OpIdx == -1 {
			rf = d.shrinkDead(rf)
		}
		rf.Property = d.prop
		dir := filepath.Join(d.root, "replays")
		must(os.MkdirAll(dir, 0o755))
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%016x.json", d.prop, caseHash(rf.Case)))
		b, _ := json.MarshalIndent(rf, "", " ")
		must(os.WriteFile(replayPath, b, 0o644))
		fmt.Printf("%s: %s\n", d.prop, trim(rf.Violation.String(), 4000))
		fmt.Printf("case: %s\n", trim(caseText(rf.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, replayPath)
	}
	d.evidence(plan, exit, replayPath, known)
	if exit == 0 && len(d.problems) > 0 {
		fmt.Printf("%s: inconclusive: %s\n", d.prop, trim(strings.Join(d.problems, "\n"), 6000))
		exit = 2
	}
	os.Exit(exit)
}

func caseText(c *Case) string {
	b, _ := json.Marshal(c)
	return string(b)
}

func (d *driver) knownFinding(name string) bool {
	b, _ := os.ReadFile(filepath.Join(d.root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding:") && strings.Contains(l, "property="+d.prop+" ") && strings.Contains(l, "case="+name+" ") {
			return true
		}
	}
	return false
}

func (d *driver) evidence(p plan, exit int, replayPath string, known int) {
	ev, nt := 0, 0
	labels, foreign, ctrs := map[string]int{}, map[string]int{}, map[string]int{}
	fex := map[string]string{}
	samples := []json.RawMessage{}
	incomplete := false
	for _, o := range d.outs {
		ev += o.Evaluations
		nt += o.Nontrivial
		for k, v := range o.Labels {
			labels[k] += v
		}
		for k, v := range o.Foreign {
			foreign[k] += v
			if fex[k] == "" {
				fex[k] = o.ForeignEx[k]
			}
		}
		for k, v := range o.Counters {
			if strings.HasPrefix(k, "max_") {
				ctrs[k] = max(ctrs[k], v)
			} else {
				ctrs[k] += v
			}
		}
		for _, s := range o.Samples {
			if len(samples) < 4 {
				samples = append(samples, s)
			}
		}
		incomplete = incomplete || o.Incomplete
	}
	level := "exploration"
	if d.prop == "C07" {
		level = "fault_enumeration"
	}
	cov := map[string]any{
		"evaluations":         ev,
		"distinct_nontrivial": len(d.hashes),
		"nontrivial":          nt,
		"rule":                p.rule,
		"samples":             samples,
		"cases_by_label":      labels,
		"totals":              ctrs,
		"regressions_run":     d.regress,
	}
	if len(foreign) > 0 {
		cov["cases_ended_by_breaches_of_other_properties"] = foreign
		cov["examples_of_those"] = fex
	}
	if incomplete {
		cov["stopped_early"] = true
	}
	if replayPath != "" {
		cov["violation"] = replayPath
	}
	if known > 0 {
		cov["known_findings_seen"] = known
	}
	if len(d.problems) > 0 {
		cov["problems"] = trim(strings.Join(d.problems, "\n"), 2000)
	}
	doc := map[string]any{"property": d.prop, "tier": d.tier, "seed": d.seed, "level": level, "coverage": cov, "wall_s": time.Since(d.start).Seconds()}
	dir := filepath.Join(d.root, "evidence")
	must(os.MkdirAll(dir, 0o755))
	b, err := json.MarshalIndent(doc, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(dir, d.prop+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1fs\n", d.prop, d.tier, ev, len(d.hashes), time.Since(d.start).Seconds())
	if len(foreign) > 0 {
		fmt.Printf("note: some cases ended early by breaches of other properties: %v\n", foreign)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: check|work|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "work":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	default:
		os.Exit(2)
	}
}
