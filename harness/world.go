package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc64"
	"runtime"
	"sync"

	sm "github.com/NVIDIA/sortedmap"
)

var errInjected = errors.New("injected callback failure")
var errNoBlob = errors.New("no such stored node")

type cbKind int

const (
	cbGet cbKind = iota
	cbPut
	cbDiscard
	cbPackKey
	cbPackVal
	cbUnpackKey
	cbUnpackVal
	cbDumpKey
	cbDumpVal
	nCb
)

var cbNames = [...]string{"GetNode", "PutNode", "DiscardNode", "PackKey", "PackValue", "UnpackKey", "UnpackValue", "DumpKey", "DumpValue"}

type loc struct{ obj, off uint64 }

type rootLoc struct{ obj, off, ln uint64 }

type blob struct {
	at        loc
	data      []byte // exactly the slice PutNode was given, never copied
	sum       uint64
	owner     int // tree id
	discarded bool
	orphan    bool // abandoned by a crash/reopen without prune: nobody's to free any more
}

// Violation is one observed breach of a property.
type Violation struct {
	Class string
	Msg   string
	OpIdx int
}

func (v *Violation) String() string { return fmt.Sprintf("[%s] op %d: %s", v.Class, v.OpIdx, v.Msg) }

// TreeCfg configures one tree of a case.
type TreeCfg struct {
	Max   uint64
	Cache bool // uses the shared node cache
	NilCB bool // in-memory tree without callbacks
	// Alt: uses a second node cache, whose small limits never change.
	Alt bool `json:",omitempty"`
}

// Op is one step of a history. Operands are resolved against the state at
// run time, so any sub-sequence of a case is again a case.
type Op struct {
	K    string
	T    int   `json:",omitempty"`
	A, B int64 `json:",omitempty"`
	V    int64 `json:",omitempty"`
}

// Case is everything a run depends on.
type Case struct {
	Prop  string
	Kind  string // llrb | btree | ...
	Key   int
	Val   int
	KCod  int `json:",omitempty"`
	VCod  int `json:",omitempty"`
	U     int64
	Place int    `json:",omitempty"` // store placement mode
	Seg   uint64 `json:",omitempty"`
	Trees []TreeCfg
	Lo    uint64 `json:",omitempty"`
	Hi    uint64 `json:",omitempty"`
	// Settle waits for background eviction to come to rest after every op.
	Settle bool `json:",omitempty"`
	// Proto: prune only between a recorded flush and the next modification.
	Proto bool `json:",omitempty"`
	// Soft: breaches (of other properties) to be overlooked.
	Soft []string `json:",omitempty"`
	// Alias: GetNode returns the stored slice itself instead of a copy.
	Alias bool `json:",omitempty"`
	Ops   []Op `json:",omitempty"`
	// Slow: every so many yields sleep while the library holds its locks, so
	// that waiters starve and locks are handed over at every release.
	Slow int64 `json:",omitempty"`
	X    int64 `json:",omitempty"` // property-specific knobs
	Y    int64 `json:",omitempty"`
	Z    int64 `json:",omitempty"`
	// conc programs
	Progs [][]Op     `json:",omitempty"`
	Image *ImageSpec `json:",omitempty"`
}

// World is the client side: one storage space, one cache, several trees.
type World struct {
	boxes  map[boxAt]*box // values the maps hold by reference
	c      *Case
	kk     *keyKind
	mu     sync.Mutex
	store  map[loc]*blob
	all    []*blob
	free   []loc
	next   uint64
	cum    map[uint64]uint64
	viol   *Violation
	failMu sync.Mutex
	ctx    string // prefix of violation classes while inside a nested check
	opIdx  int
	cache  sm.BPlusTreeCache
	lo     uint64
	hi     uint64
	trees  []*Tree
	// per-call state
	cnt      [nCb]int
	gets     []*blob
	guards   [][]byte
	bufs     [][]byte // lent to the library during the current call
	puts     []*blob
	discs    []*blob
	callKind string
	callTree int
	fault    *fault
	damage   *damage
	conc     bool
	yield    func()
	dumpLog  []string
	vals     []int64
	cmpKeys  map[int64]struct{}
	cmpOn    bool
	rej      *rejRule
	exceeded bool // cache population may have passed the high limit at some time
	labels   map[string]int
	baseline int
	preStats *sm.BPlusTreeCacheStats
	alt      sm.BPlusTreeCache
	altLo    uint64
	altHi    uint64
	preAlt   *sm.BPlusTreeCacheStats
	ctr      counters
}

type counters struct {
	ops, okMods, gets, puts, discs, evictLoads, faultsFired, damagedReads, flushes, prunes, reopens, crashes, maxItems, maxHeight, deletes int
}

type fault struct {
	mask  uint
	nth   int
	times int
	idx   int
	fired int
	after bool // PutNode stores before failing
}

type damage struct {
	at    *blob
	trunc int // keep this many bytes (if >=0)
	extra int // append this many bytes
	reads int
}

// Tree is one B+Tree with its reference model and bookkeeping.
type Tree struct {
	id   int
	w    *World
	cfg  TreeCfg
	bt   sm.BPlusTree
	m    *Model
	cb   *treeCB
	dead bool

	dirty        bool // modified (or touched) since last flush, or never flushed
	dirtyUnknown bool // a failed operation may have dirtied nodes
	cur          *Version
	versions     []*Version
	mods         int  // successful modifications since last flush
	touched      bool // everything dirtied since version touchedFrom
	touchedFrom  *Version
	touchedAny   bool
	fullTouch    bool            // Touch was called since the last flush
	touches      int             // TouchItem calls since the last flush
	reshaped     bool            // a Put or Delete changed the tree since version cur
	mustMove     map[*blob]bool  // nodes TouchItem has marked for rewriting
	pendLayout   sm.LayoutReport // reports on the tree as modified: the next flush shows whether they were right
	pendHeight   uint64
	resident     map[loc]bool
	emptied      bool
	wasEmptied   bool
	visited      bool
	pruneValid   bool // no prune happened with modifications pending
}

// Version is a flushed state.
type Version struct {
	at    rootLoc
	m     *Model
	dec   *Decoded
	valid bool
}

func (w *World) fail(class, format string, a ...any) {
	w.failMu.Lock()
	defer w.failMu.Unlock()
	for _, o := range w.c.Soft {
		if o == class {
			return
		}
	}
	if w.viol == nil {
		if w.ctx != "" {
			class = w.ctx + ":" + class
		}
		msg := fmt.Sprintf(format, a...)
		if len(msg) > 2000 {
			msg = fmt.Sprintf("%s ... %s (%d bytes)", msg[:1000], msg[len(msg)-900:], len(msg))
		}
		w.viol = &Violation{Class: class, Msg: msg, OpIdx: w.opIdx}
	}
}

// over: after a step that did not go through, the case ends, unless it went
// on past overlooked breaches.
func (w *World) over() bool { return w.viol != nil || len(w.c.Soft) == 0 }

func (w *World) label(l string) { w.labels[l]++ }

var crcTab = crc64.MakeTable(crc64.ECMA)

// alloc chooses where the client stores the next node.
func (w *World) alloc(n uint64) loc {
	seg := w.c.Seg
	if seg == 0 {
		seg = 300
	}
	switch w.c.Place {
	case 1: // log segments: objects hold several nodes back to back
		if w.next == 0 {
			w.next = 1
		}
		if w.cum[w.next] >= seg {
			w.next++
		}
		l := loc{w.next, w.cum[w.next]}
		w.cum[w.next] += n
		return l
	case 2: // huge numbers, descending objects, sparse offsets
		w.next++
		return loc{^uint64(0) - w.next*seg, (w.next % 7) << 58}
	case 3: // slots are re-used as soon as they are discarded
		if k := len(w.free); k > 0 {
			l := w.free[k-1]
			w.free = w.free[:k-1]
			return l
		}
		w.next++
		return loc{w.next, 0}
	case 4: // a single object
		l := loc{1, w.cum[1]}
		w.cum[1] += n
		return l
	case 5: // three objects round robin
		w.next++
		o := 1 + w.next%3
		l := loc{o, w.cum[o]}
		w.cum[o] += n
		return l
	case 6: // no bit of either number is spared
		w.next++
		return loc{mix64(w.next + seg), mix64(w.next*seg) >> 1}
	}
	w.next++
	return loc{w.next, 0}
}

const nPlaces = 7

// letEvictionIn: in every fourth case a background goroutine the library has
// started gets to run in the middle of the call, as far as its locks allow.
func (w *World) letEvictionIn() {
	if !w.conc && w.c.X%4 == 3 && w.cache != nil && runtime.NumGoroutine() > w.baseline {
		for range 5 {
			runtime.Gosched()
		}
	}
}

// enter counts a callback and decides whether it must fail.
func (w *World) enter(k cbKind) error {
	w.cnt[k]++
	if f := w.fault; f != nil && f.mask&(1<<uint(k)) != 0 {
		i := f.idx
		f.idx++
		if i >= f.nth && i < f.nth+f.times {
			f.fired++
			return errInjected
		}
	}
	return nil
}

type treeCB struct {
	j *journal
	w *World
	t *Tree
}

func (cb *treeCB) lock() {
	if cb.w.conc {
		if cb.w.yield != nil {
			cb.w.yield()
		}
		cb.w.mu.Lock()
	}
}
func (cb *treeCB) unlock() {
	if cb.w.conc {
		cb.w.mu.Unlock()
	}
}

func (cb *treeCB) scope(what string) {
	w := cb.w
	if !w.conc && w.callTree != cb.t.id {
		w.fail("crosstree", "%s called through tree %d during an operation (%s) on tree %d", what, cb.t.id, w.callKind, w.callTree)
	}
}

const (
	guardLen  = 24
	guardByte = 0xE7
)

// checkGuards looks at the client's memory behind the slices handed out.
func (w *World) checkGuards() {
	for _, g := range w.guards {
		for _, b := range g {
			if b != guardByte {
				w.fail("rewrite", "client memory behind a slice returned by GetNode was overwritten")
				w.guards = nil
				return
			}
		}
	}
	if len(w.guards) > 200 {
		w.guards = w.guards[:0]
	}
}

// lend notes memory the library may use until the current call returns.
func (w *World) lend(b []byte) []byte {
	if !w.conc && len(w.bufs) < 4096 {
		w.bufs = append(w.bufs, b)
	}
	return b
}

func (cb *treeCB) GetNode(obj, off, ln uint64) ([]byte, error) {
	cb.nest()
	cb.lock()
	defer cb.unlock()
	w := cb.w
	if err := w.enter(cbGet); err != nil {
		return nil, err
	}
	cb.scope("GetNode")
	b := w.store[loc{obj, off}]
	if b == nil {
		w.fail("uaf", "GetNode(%d,%d,%d): nothing was ever stored there", obj, off, ln)
		return nil, errNoBlob
	}
	if b.discarded {
		w.fail("uaf", "GetNode(%d,%d,%d): already discarded", obj, off, ln)
		return nil, errNoBlob
	}
	if uint64(len(b.data)) != ln {
		w.fail("badlen", "GetNode(%d,%d,%d): stored length is %d", obj, off, ln, len(b.data))
		return nil, errNoBlob
	}
	w.letEvictionIn()
	if b.owner != cb.t.id {
		w.fail("foreign", "tree %d GetNode(%d,%d,%d): that node was written by tree %d", cb.t.id, obj, off, ln, b.owner)
	}
	if !w.conc {
		w.gets = append(w.gets, b)
	}
	w.ctr.gets++
	d := b.data
	if !w.c.Alias || w.damage != nil {
		// room beyond the end of the slice belongs to the client
		n := len(b.data)
		d = append(make([]byte, 0, n+guardLen), b.data...)
		if !w.conc {
			g := d[n : n+guardLen]
			for i := range g {
				g[i] = guardByte
			}
			w.guards = append(w.guards, g)
			w.lend(d)
		}
		if w.damage != nil {
			d = append([]byte(nil), b.data...)
		}
	}
	if w.damage != nil && w.damage.at == b {
		w.damage.reads++
		w.ctr.damagedReads++
		if w.damage.trunc >= 0 {
			d = d[:w.damage.trunc]
		}
		for i := 0; i < w.damage.extra; i++ {
			d = append(d, byte(i*37))
		}
	}
	return d, nil
}

func (cb *treeCB) PutNode(data []byte) (uint64, uint64, error) {
	cb.nest()
	cb.lock()
	defer cb.unlock()
	w := cb.w
	ferr := w.enter(cbPut)
	if ferr != nil && !w.fault.after {
		return 0, 0, ferr
	}
	if !w.conc {
		switch w.callKind {
		case "flush", "flushp":
		default:
			w.fail("cbscope", "PutNode called during %s", w.callKind)
		}
		cb.scope("PutNode")
	}
	l := w.alloc(uint64(len(data)))
	b := &blob{at: l, data: data, sum: crc64.Checksum(data, crcTab), owner: cb.t.id, orphan: ferr != nil}
	w.store[l] = b
	w.all = append(w.all, b)
	if ferr != nil {
		return 0, 0, ferr
	}
	if !w.conc {
		w.puts = append(w.puts, b)
	}
	w.ctr.puts++
	return l.obj, l.off, nil
}

func (cb *treeCB) DiscardNode(obj, off, ln uint64) error {
	cb.nest()
	cb.lock()
	defer cb.unlock()
	w := cb.w
	if err := w.enter(cbDiscard); err != nil {
		return err
	}
	if !w.conc {
		switch w.callKind {
		case "prune", "discard":
		default:
			w.fail("cbscope", "DiscardNode called during %s", w.callKind)
		}
		cb.scope("DiscardNode")
	}
	b := w.store[loc{obj, off}]
	if b == nil {
		w.fail("dfree", "DiscardNode(%d,%d,%d): nothing was ever stored there", obj, off, ln)
		return nil
	}
	if b.discarded {
		w.fail("dfree", "DiscardNode(%d,%d,%d): already discarded", obj, off, ln)
		return nil
	}
	if uint64(len(b.data)) != ln {
		w.fail("badlen", "DiscardNode(%d,%d,%d): stored length is %d", obj, off, ln, len(b.data))
	}
	if b.owner != cb.t.id {
		w.fail("foreign", "tree %d DiscardNode(%d,%d,%d): that node was written by tree %d", cb.t.id, obj, off, ln, b.owner)
	}
	if b.orphan {
		w.fail("dfree", "DiscardNode(%d,%d,%d): the tree never owned that copy", obj, off, ln)
	}
	for _, t := range w.trees {
		for _, v := range t.versions {
			if v.valid && v.dec.reach[b] {
				if v == t.cur && (w.c.Proto || t != cb.t) && w.callKind != "discard" {
					w.fail("early", "DiscardNode(%d,%d,%d) during %s destroys the last recorded version of tree %d", obj, off, ln, w.callKind, t.id)
				}
				if v == t.cur && !t.dirty && !t.dirtyUnknown && w.callKind == "prune" {
					w.fail("early", "Prune of unmodified tree %d discards node (%d,%d,%d) which its flushed root still references", t.id, obj, off, ln)
				}
				v.valid = false
			}
		}
	}
	b.discarded = true
	if !w.conc {
		w.discs = append(w.discs, b)
	}
	w.ctr.discs++
	if w.c.Place == 3 {
		w.free = append(w.free, b.at)
	}
	return nil
}

func (cb *treeCB) PackKey(key sm.Key) ([]byte, error) {
	cb.nest()
	cb.lock()
	defer cb.unlock()
	if err := cb.w.enter(cbPackKey); err != nil {
		return nil, err
	}
	o, ok := cb.w.kk.ord(key, cb.w.c.U)
	if !ok {
		cb.w.fail("cbargs", "PackKey got %T %v, which is no key of this map", key, key)
		return nil, errBadType
	}
	return cb.w.lend(encNum(cb.w.c.KCod, o)), nil
}

func (cb *treeCB) UnpackKey(p []byte) (sm.Key, uint64, error) {
	cb.lock()
	defer cb.unlock()
	if err := cb.w.enter(cbUnpackKey); err != nil {
		return nil, 0, err
	}
	o, n, err := decNum(cb.w.c.KCod, p)
	if err != nil {
		return nil, 0, err
	}
	return cb.w.kk.mk(o, cb.w.c.U, 0), n, nil
}

func (cb *treeCB) PackValue(v sm.Value) ([]byte, error) {
	cb.lock()
	defer cb.unlock()
	if err := cb.w.enter(cbPackVal); err != nil {
		return nil, err
	}
	vid, ok := vidOf(cb.w.c.Val, v)
	if !ok {
		cb.w.fail("cbargs", "PackValue got %T %v, which is no value of this map", v, v)
		return nil, errBadType
	}
	if cb.w.c.Val == valNil {
		return nil, nil
	}
	return cb.w.lend(encNum(cb.w.c.VCod, vid)), nil
}

func (cb *treeCB) UnpackValue(p []byte) (sm.Value, uint64, error) {
	cb.nest()
	cb.lock()
	defer cb.unlock()
	if err := cb.w.enter(cbUnpackVal); err != nil {
		return nil, 0, err
	}
	if cb.w.c.Val == valNil {
		return nil, 0, nil
	}
	vid, n, err := decNum(cb.w.c.VCod, p)
	if err != nil {
		return nil, 0, err
	}
	return mkVal(cb.w.c.Val, vid), n, nil
}

func (cb *treeCB) DumpKey(key sm.Key) (string, error) {
	cb.lock()
	defer cb.unlock()
	if err := cb.w.enter(cbDumpKey); err != nil {
		return "", err
	}
	o, ok := cb.w.kk.ord(key, cb.w.c.U)
	if !ok {
		cb.w.fail("cbargs", "DumpKey got %T %v, which is no key of this map", key, key)
		return "", errBadType
	}
	return fmt.Sprintf("<K%d>", o), nil
}

func (cb *treeCB) DumpValue(v sm.Value) (string, error) {
	cb.lock()
	defer cb.unlock()
	if err := cb.w.enter(cbDumpVal); err != nil {
		return "", err
	}
	vid, ok := vidOf(cb.w.c.Val, v)
	if !ok {
		cb.w.fail("cbargs", "DumpValue got %T %v, which is no value of this map", v, v)
		return "", errBadType
	}
	cb.w.vals = append(cb.w.vals, vid)
	return fmt.Sprintf("<V%d>", vid), nil
}

// rejRule makes the comparator reject one key against some of the others, as a
// comparator does whose keys are comparable only in part.
type rejRule struct {
	ord, thr int64
	mode     int64
	dec      []int64 // always rejected
	hits     int
}

func (r *rejRule) rejects(y int64) bool {
	for _, d := range r.dec {
		if y == d {
			return true
		}
	}
	if y == r.ord {
		return false
	}
	switch r.mode {
	case 4:
		return false
	case 0:
		return y == r.thr
	case 1:
		return y < r.thr
	case 2:
		return y > r.thr
	}
	return mod(y+r.thr, 3) == 0
}

// compare is what the trees get: the real comparator, observed.
func (w *World) compare(a, b sm.Key) (int, error) {
	if w.conc {
		if w.yield != nil {
			w.yield()
		}
		return w.kk.cmp(a, b)
	}
	if r := w.rej; r != nil {
		x, ok1 := w.kk.ord(a, w.c.U)
		y, ok2 := w.kk.ord(b, w.c.U)
		if ok1 && ok2 && (x == r.ord && r.rejects(y) || y == r.ord && r.rejects(x)) {
			r.hits++
			return 0, errReject
		}
	}
	if w.cmpOn {
		for _, k := range []sm.Key{a, b} {
			if o, ok := w.kk.ord(k, w.c.U); ok {
				w.cmpKeys[o] = struct{}{}
			}
		}
	}
	return w.kk.cmp(a, b)
}

func (w *World) key(o, salt int64) sm.Key { return w.kk.mk(o, w.c.U, salt) }
func (w *World) val(vid int64) sm.Value   { return mkVal(w.c.Val, vid) }

func newWorld(c *Case) *World {
	w := &World{c: c, kk: keyKinds[c.Key%len(keyKinds)], store: map[loc]*blob{}, cum: map[uint64]uint64{}, labels: map[string]int{}, cmpKeys: map[int64]struct{}{}}
	w.lo, w.hi = c.Lo, c.Hi
	w.baseline = quietBaseline()
	curWorld = w
	return w
}

// ---- independent decoder -------------------------------------------------

type dref struct {
	at    rootLoc
	items uint64
}

type dnode struct {
	b     *blob
	items uint64
	root  bool
	leaf  bool
	max   uint64
	keys  []int64
	vals  []int64
	refs  []dref
	depth int
	up    *dnode
}

// Decoded is an independent reading of one stored tree.
type Decoded struct {
	nodes  []*dnode
	reach  map[*blob]bool
	kv     []kv
	height int
	max    uint64
	bytes  map[uint64]uint64
}

type decErr struct{ class, msg string }

func (e *decErr) Error() string { return e.msg }

func derr(class, f string, a ...any) *decErr { return &decErr{class, fmt.Sprintf(f, a...)} }

// decodeNode parses one node image by the documented layout.
func (w *World) decodeNode(b *blob) (*dnode, *decErr) {
	p := b.data
	n := &dnode{b: b}
	if len(p) < 10 {
		return nil, derr("format", "node image of %d bytes has no header", len(p))
	}
	n.items = binary.LittleEndian.Uint64(p)
	if p[8] > 1 || p[9] > 1 {
		return nil, derr("format", "flag bytes are %d,%d", p[8], p[9])
	}
	n.root, n.leaf = p[8] == 1, p[9] == 1
	p = p[10:]
	u64 := func() (uint64, bool) {
		if len(p) < 8 {
			return 0, false
		}
		v := binary.LittleEndian.Uint64(p)
		p = p[8:]
		return v, true
	}
	var ok bool
	if n.root {
		if n.max, ok = u64(); !ok {
			return nil, derr("format", "root payload too short for the maximum keys per node")
		}
	}
	cnt, ok := u64()
	if !ok {
		return nil, derr("format", "payload too short for its count")
	}
	if cnt > uint64(len(b.data)) && !(n.leaf && w.c.Val == valNil) || cnt > 1<<20 {
		return nil, derr("format", "count %d is absurd for a %d byte image", cnt, len(b.data))
	}
	for i := uint64(0); i < cnt; i++ {
		if n.leaf || i > 0 {
			o, used, err := decNum(w.c.KCod, p)
			if err != nil {
				return nil, derr("format", "entry %d: key does not decode", i)
			}
			p = p[used:]
			n.keys = append(n.keys, o)
		}
		if n.leaf {
			vid := int64(0)
			if w.c.Val != valNil {
				v, used, err := decNum(w.c.VCod, p)
				if err != nil {
					return nil, derr("format", "entry %d: value does not decode", i)
				}
				p = p[used:]
				vid = v
			}
			n.vals = append(n.vals, vid)
		} else {
			var r [4]uint64
			for j := range r {
				if r[j], ok = u64(); !ok {
					return nil, derr("format", "entry %d: reference truncated", i)
				}
			}
			n.refs = append(n.refs, dref{rootLoc{r[0], r[1], r[2]}, r[3]})
		}
	}
	if len(p) != 0 {
		return nil, derr("format", "%d trailing bytes", len(p))
	}
	return n, nil
}

// decode walks the tree stored at l.
func (w *World) decode(l rootLoc, max uint64) (*Decoded, *decErr) {
	d := &Decoded{reach: map[*blob]bool{}, bytes: map[uint64]uint64{}, max: max}
	leafDepth := -1
	var fillErr *decErr
	var walk func(l rootLoc, up *dnode, depth int, root bool) (lo, hi int64, items uint64, err *decErr)
	walk = func(l rootLoc, up *dnode, depth int, root bool) (lo, hi int64, items uint64, err *decErr) {
		lo, hi = -1, -1
		b := w.store[loc{l.obj, l.off}]
		if b == nil || b.discarded {
			return lo, hi, 0, derr("lost", "node (%d,%d,%d) is referenced but not in the store", l.obj, l.off, l.ln)
		}
		if uint64(len(b.data)) != l.ln {
			return lo, hi, 0, derr("format", "reference (%d,%d,%d) gives the wrong length, node has %d bytes", l.obj, l.off, l.ln, len(b.data))
		}
		if d.reach[b] {
			return lo, hi, 0, derr("format", "node (%d,%d,%d) is referenced twice", l.obj, l.off, l.ln)
		}
		if crc64.Checksum(b.data, crcTab) != b.sum {
			return lo, hi, 0, derr("rewrite", "stored bytes of node (%d,%d,%d) changed after they were written", l.obj, l.off, l.ln)
		}
		d.reach[b] = true
		d.bytes[l.obj] += l.ln
		n, err := w.decodeNode(b)
		if err != nil {
			err.msg = fmt.Sprintf("node (%d,%d,%d): %s", l.obj, l.off, l.ln, err.msg)
			return lo, hi, 0, err
		}
		n.depth, n.up = depth, up
		d.nodes = append(d.nodes, n)
		if depth+1 > d.height {
			d.height = depth + 1
		}
		if n.root != root {
			return lo, hi, 0, derr("format", "node at depth %d has root flag %v", depth, n.root)
		}
		if root && n.max != max {
			return lo, hi, 0, derr("format", "root records maximum keys per node %d, the tree was made with %d", n.max, max)
		}
		nk := uint64(len(n.keys))
		if nk > max && fillErr == nil {
			fillErr = derr("fill", "node at depth %d holds %d keys, maximum is %d", depth, nk, max)
		}
		if !root && nk < max/2 && fillErr == nil {
			fillErr = derr("fill", "non-root node at depth %d holds %d keys, minimum is %d", depth, nk, max/2)
		}
		if n.leaf {
			if leafDepth == -1 {
				leafDepth = depth
			} else if leafDepth != depth && fillErr == nil {
				fillErr = derr("depth", "leaves at depths %d and %d", leafDepth, depth)
			}
			for i, k := range n.keys {
				if i > 0 && k <= n.keys[i-1] {
					return lo, hi, 0, derr("format", "leaf keys out of order")
				}
				d.kv = append(d.kv, kv{k, n.vals[i]})
			}
			if n.items != nk {
				return lo, hi, 0, derr("format", "leaf records %d items and holds %d", n.items, nk)
			}
			if nk > 0 {
				lo, hi = n.keys[0], n.keys[nk-1]
			}
			return lo, hi, nk, nil
		}
		if len(n.refs) < 2 {
			return lo, hi, 0, derr("format", "interior node with %d children", len(n.refs))
		}
		for i, r := range n.refs {
			clo, chi, ci, err := walk(r.at, n, depth+1, false)
			if err != nil {
				return lo, hi, 0, err
			}
			if ci != r.items {
				return lo, hi, 0, derr("format", "interior node records %d items for a child that holds %d", r.items, ci)
			}
			items += ci
			if i == 0 {
				lo = clo
			} else {
				if hi >= n.keys[i-1] {
					return lo, hi, 0, derr("format", "separator %d not above the left neighbour's largest key %d", n.keys[i-1], hi)
				}
				if clo >= 0 && clo < n.keys[i-1] {
					return lo, hi, 0, derr("format", "separator %d above its own subtree's smallest key %d", n.keys[i-1], clo)
				}
			}
			if chi >= 0 {
				hi = chi
			}
		}
		if n.items != items {
			return lo, hi, 0, derr("format", "interior node records %d items and holds %d", n.items, items)
		}
		return lo, hi, items, nil
	}
	_, _, _, err := walk(l, nil, 0, true)
	if err != nil {
		return d, err
	}
	return d, fillErr
}

// verifyStore re-checks that no live stored bytes were ever modified.
func (w *World) verifyStore() {
	for _, b := range w.all {
		if !b.discarded && crc64.Checksum(b.data, crcTab) != b.sum {
			w.fail("rewrite", "stored bytes of node (%d,%d,%d) changed after they were written", b.at.obj, b.at.off, len(b.data))
			return
		}
	}
}
