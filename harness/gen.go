package main

import (
	"math"

	"pgregory.net/rapid"
)

type wt struct {
	k string
	w int
}

var mapW = []wt{{"put", 24}, {"delk", 12}, {"deli", 10}, {"patk", 6}, {"pati", 5}, {"getk", 7}, {"geti", 6}, {"bl", 4}, {"br", 4}, {"len", 1}, {"putrun", 6}, {"delrun", 5}}
var modW = []wt{{"put", 24}, {"delk", 14}, {"deli", 12}, {"patk", 5}, {"pati", 5}, {"getk", 3}, {"geti", 3}, {"bl", 1}, {"br", 1}, {"putrun", 7}, {"delrun", 6}}

func with(base []wt, extra ...wt) []wt { return append(append([]wt{}, base...), extra...) }

var profiles = map[string][]wt{
	"C01":     with(mapW, wt{"reset", 1}, wt{"validate", 1}, wt{"deep", 1}, wt{"lookall", 1}),
	"C02":     with(mapW, wt{"validate", 1}, wt{"deep", 1}, wt{"badnew", 1}, wt{"limits", 1}),
	"C03":     with(mapW, wt{"flush", 6}, wt{"flushp", 6}, wt{"purge", 6}, wt{"purgef", 5}, wt{"prune", 4}, wt{"touch", 2}, wt{"ti", 3}, wt{"ticycle", 1}, wt{"layout", 2}, wt{"dims", 2}, wt{"validate", 2}, wt{"floc", 1}, wt{"limits", 3}, wt{"deep", 1}, wt{"dump", 1}, wt{"readrun", 2}),
	"C04":     with(modW, wt{"flush", 5}, wt{"flushp", 4}, wt{"reopen", 9}, wt{"floc", 3}, wt{"snap", 3}, wt{"purge", 2}, wt{"purgef", 1}, wt{"prune", 2}, wt{"touch", 1}, wt{"crash", 1}, wt{"readrun", 1}),
	"C05":     with(modW, wt{"flush", 7}, wt{"flushp", 4}, wt{"prune", 5}, wt{"fprune", 6}, wt{"crash", 5}, wt{"crashf", 4}, wt{"crashp", 3}, wt{"snap", 6}, wt{"touch", 2}, wt{"ti", 2}, wt{"ticycle", 1}, wt{"purge", 2}, wt{"reopen", 2}, wt{"layout", 1}, wt{"dims", 1}, wt{"validate", 1}, wt{"purgef", 1}),
	"C06":     with(modW, wt{"flush", 8}, wt{"flushp", 6}, wt{"prune", 9}, wt{"fprune", 6}, wt{"touch", 3}, wt{"ti", 2}, wt{"ticycle", 1}, wt{"purge", 3}, wt{"purgef", 2}, wt{"reopen", 4}, wt{"discard", 2}, wt{"layout", 1}, wt{"snap", 1}, wt{"limits", 1}, wt{"crash", 1}),
	"C07":     with(mapW, wt{"flush", 9}, wt{"flushp", 9}, wt{"purge", 8}, wt{"purgef", 4}, wt{"prune", 7}, wt{"fprune", 2}, wt{"touch", 4}, wt{"ti", 3}, wt{"layout", 3}, wt{"dims", 1}, wt{"validate", 3}, wt{"dump", 2}, wt{"discard", 4}, wt{"open", 3}, wt{"limits", 1}),
	"C08":     with(mapW, wt{"flush", 6}, wt{"flushp", 6}, wt{"purge", 2}, wt{"touch", 3}, wt{"ti", 3}, wt{"layout", 3}, wt{"dims", 3}, wt{"validate", 4}, wt{"dump", 2}, wt{"discard", 3}, wt{"open", 3}, wt{"prune", 2}),
	"C09":     with(modW, wt{"flush", 6}, wt{"flushp", 4}, wt{"touch", 7}, wt{"ti", 10}, wt{"ticycle", 8}, wt{"fprune", 4}, wt{"purge", 3}, wt{"purgef", 2}, wt{"reopen", 2}, wt{"deep", 1}, wt{"limits", 1}),
	"C10":     with(modW, wt{"flush", 8}, wt{"flushp", 5}, wt{"layout", 14}, wt{"dims", 12}, wt{"purge", 4}, wt{"purgef", 3}, wt{"fprune", 3}, wt{"touch", 2}, wt{"reopen", 3}, wt{"readrun", 2}, wt{"limits", 2}),
	"C11":     with(mapW, wt{"flush", 9}, wt{"flushp", 4}, wt{"purge", 4}, wt{"purgef", 5}, wt{"touch", 2}, wt{"ti", 2}, wt{"validate", 6}, wt{"limits", 8}, wt{"reopen", 3}, wt{"discard", 2}, wt{"readrun", 5}, wt{"layout", 2}, wt{"dims", 2}, wt{"fprune", 2}),
	"C12":     nil,
	"C13":     with(modW, wt{"lookall", 2}, wt{"flush", 5}, wt{"flushp", 2}, wt{"dims", 5}, wt{"validate", 4}, wt{"getk", 6}, wt{"geti", 4}, wt{"putrun", 4}, wt{"delrun", 6}),
	"C14":     with(mapW, wt{"flush", 30}, wt{"flushp", 4}, wt{"purge", 3}, wt{"purgef", 2}, wt{"validate", 2}, wt{"layout", 2}, wt{"dims", 3}, wt{"floc", 2}, wt{"prune", 2}, wt{"patk", 8}, wt{"getk", 4}, wt{"readrun", 2}, wt{"dump", 1}, wt{"reopen", 2}),
	"C15":     with(mapW, wt{"flush", 8}, wt{"flushp", 6}, wt{"reopen", 3}, wt{"fprune", 2}, wt{"validate", 2}, wt{"purge", 2}, wt{"purgef", 2}, wt{"touch", 1}, wt{"deep", 1}, wt{"layout", 1}, wt{"dims", 1}),
	"C17":     with(mapW, wt{"rej", 20}, wt{"rejp", 20}, wt{"flush", 4}, wt{"flushp", 4}, wt{"purge", 3}, wt{"purgef", 2}, wt{"validate", 2}, wt{"reset", 1}),
	"C18":     with(mapW, wt{"dump", 24}, wt{"flush", 6}, wt{"flushp", 4}, wt{"purge", 4}, wt{"purgef", 3}, wt{"fprune", 1}, wt{"reset", 1}, wt{"validate", 1}, wt{"limits", 2}),
	"C19":     with(modW, wt{"flush", 6}, wt{"flushp", 4}, wt{"prune", 5}, wt{"fprune", 3}, wt{"purge", 3}, wt{"purgef", 3}, wt{"discard", 3}, wt{"touch", 2}, wt{"limits", 3}, wt{"readrun", 3}, wt{"reopen", 3}, wt{"getk", 5}, wt{"geti", 5}, wt{"crash", 1}, wt{"validate", 2}, wt{"layout", 1}, wt{"floc", 1}, wt{"faulty", 4}),
	"conc":    with(mapW, wt{"putrun", 0}, wt{"flush", 7}, wt{"flushp", 4}, wt{"floc", 6}, wt{"purge", 3}, wt{"purgef", 2}, wt{"prune", 3}, wt{"touch", 2}, wt{"ti", 2}, wt{"layout", 2}, wt{"dims", 3}, wt{"validate", 2}, wt{"stats", 3}, wt{"limits", 3}, wt{"dump", 3}, wt{"len", 4}, wt{"spawn", 1}),
	"concl":   with(mapW, wt{"len", 5}, wt{"validate", 3}, wt{"dump", 2}, wt{"reset", 4}),
	"concown": with(mapW, wt{"flush", 4}, wt{"flushp", 3}, wt{"floc", 4}, wt{"purge", 4}, wt{"purgef", 2}, wt{"prune", 3}, wt{"touch", 1}, wt{"ti", 2}, wt{"layout", 2}, wt{"dims", 2}, wt{"validate", 1}, wt{"stats", 4}, wt{"limits", 3}, wt{"dump", 2}, wt{"len", 2}, wt{"putrun", 8}, wt{"spawn", 1}),
}

type gen struct{ t *rapid.T }

func (g gen) raw() uint64              { return mix64(rapid.Uint64().Draw(g.t, "r")) }
func (g gen) n(k int64) int64          { return int64(g.raw() % uint64(k)) }
func (g gen) in(lo, hi int64) int64    { return lo + g.n(hi-lo+1) }
func (g gen) small(lo, hi int64) int64 { return rapid.Int64Range(lo, hi).Draw(g.t, "s") }
func (g gen) chance(pct int64) bool    { return g.n(100) >= 100-pct }
func (g gen) pick(v ...int64) int64    { return v[g.n(int64(len(v)))] }

func (g gen) op(prof []wt, c *Case) Op {
	total := 0
	for _, x := range prof {
		total += x.w
	}
	k := int(g.n(int64(total)))
	var op Op
	for _, x := range prof {
		if k < x.w {
			op.K = x.k
			break
		}
		k -= x.w
	}
	if len(c.Trees) > 1 {
		op.T = int(g.n(int64(len(c.Trees))))
	}
	switch op.K {
	case "put", "patk", "getk", "delk", "bl", "br":
		op.A, op.V = g.n(c.U), g.n(1000)
	case "geti", "pati", "deli":
		op.A, op.V = g.n(1<<20), g.n(1000)
		if r := g.n(10); r >= 7 {
			op.B = 1 + g.n(5)
		}
		if g.chance(15) {
			op.B = 5
		}
	case "putrun":
		op.A, op.V = g.n(c.U), g.n(1000)
		op.B = g.runLen(c)
	case "delrun":
		op.A, op.V = g.n(c.U), g.n(70)
		op.B = g.runLen(c)
	case "readrun":
		op.A, op.B = g.n(c.U), g.in(1, 30)
	case "limits":
		op.A, op.B = g.limits()
		if g.chance(45) { // around the population at that time
			op.V = g.in(1, 5)
		}
	case "ti":
		op.A = g.n(1 << 16)
		if g.chance(30) {
			op.B = g.pick(2, 3, 4, 5)
		}
	case "ticycle":
		op.A, op.B, op.V = g.n(1<<16), g.n(17), g.n(17)
		if g.chance(50) {
			op.B, op.V = 0, 0
		}
	case "rej", "rejp", "badnew", "dump", "crashf", "crashp", "faulty":
		op.A, op.B = g.n(1<<16), g.n(20)
		if op.K == "rejp" {
			op.B = g.n(120)
		}
		if op.K == "dump" && g.chance(60) {
			op.B = 0
		}
		op.V = g.n(1000)
	case "spawn":
		op.A, op.B, op.V = g.n(1<<16), g.n(1<<16), g.n(8)
	case "fprune", "reopen", "snap":
		op.A = g.n(64)
	}
	return op
}

func (g gen) runLen(c *Case) int64 {
	m := int64(8)
	if len(c.Trees) > 0 {
		m = int64(c.Trees[0].Max)
	}
	switch g.n(5) {
	case 0:
		return g.in(1, m/2+1)
	case 1:
		return g.in(m, 2*m+2)
	case 2:
		return g.in(1, 20)
	case 3:
		return min(g.in(3*m, 8*m), 400)
	}
	return min(g.in(8*m, 30*m), 500)
}

func (g gen) limits() (lo, hi int64) {
	switch g.n(6) {
	case 0:
		return 0, g.n(4)
	case 1:
		return g.n(6), g.in(6, 12)
	case 2:
		return g.in(4, 20), g.in(20, 40)
	case 3:
		return 1000, 2000
	case 4:
		lo = g.n(30)
		return lo, lo
	}
	if g.n(8) == 7 { // beyond 32 and 63 bits
		far := []int64{-1, 1<<31 + 1, 1 << 32, 1<<32 + 2, 1 << 62, -1 << 63}
		lo, hi = far[g.n(6)], far[g.n(6)]
		if g.chance(50) {
			lo = g.n(20)
		} else if g.chance(30) {
			hi = g.n(20)
		}
		return
	}
	return g.n(40), g.n(40) // possibly inverted
}

func (g gen) maxKeys() uint64 {
	switch g.n(12) {
	case 0, 1, 2, 3, 4:
		return 4
	case 5, 6:
		return 6
	case 7:
		return 8
	case 8:
		return uint64(g.pick(10, 12, 14, 16))
	case 9:
		return uint64(2 * g.in(2, 20))
	case 10:
		return uint64(g.pick(4, 4, 32, 64, 100))
	}
	return uint64(g.pick(4, 6, 4, 6, 200, 1000))
}

func (g gen) universe() int64 {
	switch g.n(5) {
	case 0:
		return g.in(2, 16)
	case 1, 2:
		return g.in(16, 120)
	case 3:
		return g.in(100, 600)
	}
	return g.in(300, 3000)
}

func (g gen) base(prop, kind string) *Case {
	c := &Case{Prop: prop, Kind: kind}
	c.Key = int(g.pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 4))
	c.Val = int(g.pick(valInt, valInt, valInt, valString, valBytes, valNil, valBox))
	c.KCod = int(g.n(nCodecs))
	c.VCod = int(g.n(nCodecs))
	if g.n(16) == 15 {
		c.VCod = codBulk
	}
	if g.n(40) == 39 {
		c.KCod = codBulk
	}
	c.U = g.universe()
	c.Place = int(g.n(nPlaces))
	c.Seg = uint64(g.pick(100, 300, 1000, 5000))
	c.Alias = g.chance(50)
	c.X, c.Y, c.Z = g.n(1<<16), g.n(1<<16), g.n(1<<16)
	return c
}

// trees adds n trees; cachePct: chance each uses the shared cache.
func (g gen) trees(c *Case, n int, cachePct, settlePct int64) {
	for i := 0; i < n; i++ {
		cfg := TreeCfg{Max: g.maxKeys(), Cache: g.chance(cachePct)}
		if cachePct > 0 && (n > 1 && g.n(6) == 5 || g.n(50) == 49) {
			cfg.Cache, cfg.Alt = false, true
		}
		c.Trees = append(c.Trees, cfg)
	}
	lo, hi := g.limits()
	c.Lo, c.Hi = uint64(lo), uint64(hi)
	c.Settle = g.chance(settlePct)
	// keep runs affordable and trees deep enough
	big := int64(0)
	for _, t := range c.Trees {
		big = max(big, int64(t.Max))
	}
	if big >= 32 && c.U < 4*big {
		c.U = g.in(4*big, 8*big)
	}
}

func (g gen) ops(c *Case, prof []wt, lo, hi int64, grow int64) {
	if g.chance(grow) {
		for i := range max(1, len(c.Trees)) {
			o := g.op([]wt{{"putrun", 1}}, c)
			if len(c.Trees) > 1 {
				o.T = i
			}
			o.B = max(o.B, g.runLen(c))
			c.Ops = append(c.Ops, o)
		}
	}
	n := g.small(lo, hi)
	if g.chance(50) {
		n = g.in(lo, hi)
	}
	for i := int64(0); i < n; i++ {
		c.Ops = append(c.Ops, g.op(prof, c))
	}
}

func (g gen) image(c *Case) {
	m := int64(c.Trees[0].Max)
	h := g.in(1, 3)
	switch {
	case m == 4 && g.chance(30):
		h = 4
	case m > 64:
		h = 1 + g.n(2)
		if m > 256 {
			h = 1
		}
	case m > 16:
		h = min(h, 2)
	}
	sp := &ImageSpec{Height: int(h), Empty: g.chance(3)}
	for i := int64(0); i < 6; i++ {
		sp.Shape = append(sp.Shape, g.n(1<<30))
	}
	c.Image = sp
	c.U = 2
}

// scaled properties have an occasional case with a large tree: thousands to
// more than a hundred thousand items, nodes with hundreds of children.
var scaled = set("C01 C02 C03 C04 C05 C06 C09 C10 C11 C13 C14 C15 C17 C18 C19")

// scale turns c into a large case.
func (g gen) scale(c *Case) {
	old := c.U
	max := g.pick(4, 8, 32, 64, 128, 256, 256, 512, 512, 1000, 2000)
	n := g.in(4000, 12000)
	dir := g.n(14) // even: ascending, odd: descending; stride 1+dir/2
	if g.chance(40) {
		dir = g.n(2)
	}
	switch {
	case max == 256 && g.chance(60):
		n, dir = g.in(33500, 45000), 0 // more than 256 half-full children
	case max == 512 && g.chance(60):
		n, dir = g.in(66000, 80000), 0
	case dir == 0 && g.chance(25):
		n = g.in(12000, 60000)
	}
	if g.n(20) == 19 { // children with more than 65536 items below them
		max, dir = g.pick(32, 512), 0
		n = g.in(135000, 170000)
	} else if g.n(25) == 24 { // one leaf of more than 65536 items
		max, dir = g.pick(100000, 1<<20), 0
		n = g.in(65000, 70000)
	}
	if c.Key%len(keyKinds) == 2 && n > 59000 {
		c.Key = 4 // 16-bit keys do not reach
	}
	c.U = n + g.n(n/20+2)
	if c.U%2 == 0 {
		c.U++
	}
	if c.Key%len(keyKinds) == 2 && c.U > 65000 {
		c.U = 64999
	}
	for i := range c.Trees {
		c.Trees[i].Max = uint64(max)
		c.Trees[i].Cache = c.Trees[i].Cache && i == 0
	}
	if g.chance(60) {
		c.Lo, c.Hi = uint64(g.n(200)), uint64(g.n(400))
	}
	ops := []Op{{K: "putrun", A: 0, B: n, V: dir}}
	if g.chance(50) && n < 100000 {
		ops[0].A = g.n(c.U)
	}
	for i, o := range c.Ops {
		if i >= 25 {
			break
		}
		switch o.K {
		case "put", "patk", "getk", "delk", "bl", "br", "putrun":
			o.A = o.A*(c.U/old) + g.n(c.U/old+1)
			if o.K == "putrun" {
				o.B = min(o.B, 3000)
			}
		case "delrun":
			o.B = g.pick(o.B, 5*o.B, 30*o.B)
			o.B = min(o.B, 8000)
		}
		ops = append(ops, o)
	}
	c.Ops = ops
}

// generate draws one case of a property.
func generate(t *rapid.T, prop string, thorough bool) *Case {
	c := generate1(t, prop, thorough)
	g := gen{t}
	if scaled[prop] && (c.Kind == "btree" || c.Kind == "llrb") && g.n(400) == 399 {
		g.scale(c)
	} else if scaled[prop] && c.Kind == "btree" && g.n(60) == 59 {
		// sizes no node ever reaches are legal too
		for i := range c.Trees {
			c.Trees[i].Max = []uint64{1 << 16, 1 << 20, 1<<31 - 2, 1 << 31, 1 << 32, 1<<63 - 2, 1 << 63, math.MaxUint64 - 1}[g.n(8)]
		}
	}
	return c
}

func generate1(t *rapid.T, prop string, thorough bool) *Case {
	g := gen{t}
	big := int64(1)
	if thorough && g.chance(25) {
		big = 3
	}
	prof := profiles[prop]
	switch prop {
	case "C01":
		c := g.base(prop, "llrb")
		g.ops(c, prof, 1, 120*big, 60)
		return c
	case "C02":
		c := g.base(prop, "btree")
		g.trees(c, 1, 40, 0)
		c.Trees[0].NilCB = g.chance(35)
		g.ops(c, prof, 1, 90*big, 75)
		return c
	case "C03":
		c := g.base(prop, "btree")
		g.trees(c, 1, 65, 30)
		g.ops(c, prof, 3, 70*big, 85)
		return c
	case "C04":
		c := g.base(prop, "btree")
		g.trees(c, int(g.pick(1, 1, 1, 2)), 40, 30)
		g.ops(c, prof, 2, 40*big, 80)
		return c
	case "C05":
		c := g.base(prop, "btree")
		c.Proto = true
		g.trees(c, int(g.pick(1, 1, 1, 2)), 40, 30)
		g.ops(c, prof, 3, 45*big, 85)
		return c
	case "C06":
		c := g.base(prop, "btree")
		g.trees(c, int(g.pick(1, 1, 2)), 40, 30)
		g.ops(c, prof, 3, 50*big, 85)
		return c
	case "C07":
		kind := "fault"
		if g.chance(45) {
			kind = "storm"
		}
		c := g.base(prop, kind)
		g.trees(c, 1, 40, 30)
		if c.Trees[0].Max > 40 {
			c.Trees[0].Max = 8
		}
		if kind == "storm" {
			g.ops(c, prof, 3, 40*big, 90)
			return c
		}
		g.ops(c, prof, 1, 12, 95)
		tgt := []wt{{"deli", 6}, {"delk", 6}, {"put", 4}, {"patk", 2}, {"pati", 2}, {"getk", 1}, {"geti", 1}, {"bl", 1}, {"br", 1}, {"len", 1}, {"flush", 5}, {"flushp", 5}, {"prune", 5}, {"touch", 3}, {"ti", 2}, {"layout", 2}, {"dims", 1}, {"validate", 2}, {"dump", 2}, {"discard", 5}, {"open", 3}}
		o := g.op(tgt, c)
		if g.chance(65) { // so that the operation has callbacks to make
			switch o.K {
			case "flush", "flushp", "touch", "discard", "open", "prune":
				c.Ops = append(c.Ops, Op{K: "putrun", A: g.n(c.U), B: g.in(1, 12), V: g.n(1000)})
				if o.K == "prune" || o.K == "discard" {
					c.Ops = append(c.Ops, Op{K: "flush"})
				}
			default:
				c.Ops = append(c.Ops, Op{K: "flushp"})
			}
		}
		if fits := map[string][]int64{"flush": {4, 7, 8}, "flushp": {4, 7, 8}, "prune": {5, 8}, "discard": {3, 5, 8}, "dump": {0, 3}}[o.K]; g.chance(60) {
			if fits == nil {
				fits = []int64{0, 3, 6}
			}
			c.Y = c.Y/9*9 + fits[g.n(int64(len(fits)))]
		}
		c.X = int64(len(c.Ops))
		c.Ops = append(c.Ops, o)
		for i := g.n(4); i > 0; i-- {
			c.Ops = append(c.Ops, g.op(prof, c))
		}
		return c
	case "C08":
		if g.chance(40) {
			c := g.base(prop, "forged")
			g.trees(c, 1, 30, 0)
			if c.Trees[0].Max > 40 {
				c.Trees[0].Max = 6
			}
			g.image(c)
			c.Image.Empty = false
			c.Image.Forge = int(1 + g.n(nForge-1))
			if c.Image.Forge != forgeLeafItems && c.Image.Forge != forgeLeafOver {
				c.Image.Height = max(c.Image.Height, 2)
			}
			if c.Image.Forge == forgeNodeUnder {
				c.Image.Height = max(c.Image.Height, 3)
				if c.Trees[0].Max > 16 {
					c.Trees[0].Max = 8
				}
			}
			c.Image.Node, c.Image.Delta = g.n(1<<20), g.n(1<<20)
			return c
		}
		c := g.base(prop, "damage")
		g.trees(c, 1, 40, 30)
		if g.chance(25) {
			g.image(c)
		}
		g.ops(c, prof, 3, 24*big, 90)
		c.X = g.n(6)
		return c
	case "C09":
		c := g.base(prop, "btree")
		g.trees(c, 1, 40, 30)
		g.ops(c, prof, 2, 30*big, 90)
		return c
	case "C10":
		c := g.base(prop, "btree")
		c.Place = int(g.pick(0, 1, 1, 1, 4, 5, 5, 2, 3, 6))
		g.trees(c, int(g.pick(1, 1, 2)), 40, 30)
		g.ops(c, prof, 2, 40*big, 85)
		return c
	case "C11":
		c := g.base(prop, "btree")
		g.trees(c, int(g.pick(1, 1, 2)), 95, 100)
		c.Trees[0].Cache, c.Trees[0].Alt = true, false
		g.ops(c, prof, 3, 45*big, 90)
		return c
	case "C12":
		return g.conc()
	case "C13":
		kind := "btree"
		if g.chance(40) {
			kind = "llrb"
		}
		c := g.base(prop, kind)
		if kind == "llrb" {
			c.U = g.in(20, 6000)
			g.ops(c, []wt{{"put", 10}, {"delk", 6}, {"deli", 6}, {"putrun", 10}, {"delrun", 8}, {"getk", 8}, {"lookall", 4}, {"validate", 1}}, 2, 50*big, 95)
			return c
		}
		g.trees(c, 1, 30, 0)
		c.Lo, c.Hi = 1000, 2000
		c.U = max(c.U, g.in(50, 3000))
		g.ops(c, prof, 2, 40*big, 95)
		return c
	case "C14":
		c := g.base(prop, "btree")
		g.trees(c, 1, 50, 30)
		if g.chance(60) {
			c.Lo, c.Hi = 100000, 200000
		}
		g.ops(c, prof, 3, 60*big, 90)
		return c
	case "C15":
		if g.chance(70) {
			c := g.base(prop, "image")
			g.trees(c, 1, 40, 30)
			g.image(c)
			for i := g.n(25 * big); i > 0; i-- {
				c.Ops = append(c.Ops, g.op(prof, c))
				c.Ops[len(c.Ops)-1].A = g.n(4096)
			}
			return c
		}
		c := g.base(prop, "btree")
		g.trees(c, 1, 40, 30)
		g.ops(c, prof, 2, 30*big, 85)
		return c
	case "C16":
		c := &Case{Prop: prop, Kind: "cmp", Key: int(g.n(int64(len(cmpKinds)))), U: 2}
		for i := g.in(1, 12); i > 0; i-- {
			c.Ops = append(c.Ops, Op{K: "triple", T: int(g.n(4)), A: int64(g.raw()), B: int64(g.raw()), V: int64(g.raw())})
			if op := &c.Ops[len(c.Ops)-1]; op.T > 1 && g.chance(15) {
				op.B |= 63
			}
		}
		return c
	case "C17":
		kind := "btree"
		if g.chance(35) {
			kind = "llrb"
		}
		c := g.base(prop, kind)
		if kind == "llrb" {
			prof = with(mapW, wt{"rej", 18}, wt{"rejp", 22}, wt{"reset", 2}, wt{"validate", 1})
		} else {
			prof = prof[:len(prof)-1]
			g.trees(c, 1, 40, 30)
			c.Trees[0].NilCB = g.chance(20)
		}
		g.ops(c, prof, 1, 40*big, 60)
		return c
	case "C18":
		kind := "btree"
		if g.chance(30) {
			kind = "llrb"
		}
		c := g.base(prop, kind)
		if kind == "llrb" {
			prof = with(mapW, wt{"dump", 20}, wt{"reset", 1}, wt{"validate", 1})
		} else {
			var p []wt
			for _, x := range prof {
				if x.k != "reset" {
					p = append(p, x)
				}
			}
			prof = p
			g.trees(c, 1, 50, 30)
		}
		g.ops(c, prof, 1, 22*big, 75)
		return c
	case "C19":
		if g.n(100) >= 93 {
			return g.iso()
		}
		c := g.base(prop, "btree")
		g.trees(c, int(g.in(2, 3)), 90, 40)
		g.ops(c, prof, 4, 55*big, 90)
		return c
	}
	panic(harnessError{"no generator for " + prop})
}

func (g gen) iso() *Case {
	c := g.base("C19", "iso")
	c.Place = int(g.pick(0, 1, 2, 4, 5, 6))
	c.Val = valInt
	c.U = g.in(20, 400)
	g.trees(c, int(g.in(2, 4)), 95, 0)
	if g.chance(30) {
		c.Slow = g.in(40, 300)
	}
	for i := range c.Trees {
		c.Trees[i].Alt = false
		c.Trees[i].NilCB = false
		var p []Op
		for j := g.in(4, 40); j > 0; j-- {
			p = append(p, g.op(profiles["concown"], c))
		}
		c.Progs = append(c.Progs, p)
	}
	if c.Hi > 200 || g.chance(50) {
		c.Lo, c.Hi = uint64(g.n(6)), uint64(g.n(8))
	}
	return c
}

func (g gen) conc() *Case {
	c := g.base("C12", "btree")
	c.Place = int(g.pick(0, 1, 2, 4, 5, 6))
	if g.chance(30) {
		c.Kind = "llrb"
	}
	own := g.chance(33)
	c.Val = valInt
	if g.chance(35) {
		c.Slow = g.in(2, 12)
		if own {
			c.Slow = g.in(60, 300)
		}
	}
	if g.chance(9) {
		c.Kind, c.X, c.Slow = "btree", g.pick(2, 2, 3), 0
		c.U = g.in(20, 200)
		g.trees(c, int(g.in(1, 3)), 0, 0)
		for i := range c.Trees {
			c.Trees[i].Cache, c.Trees[i].Alt = true, false
		}
		for i := g.in(4, 12); i > 0; i-- {
			prof := []wt{{"limits", 3}, {"stats", 4}}
			if c.X == 3 {
				prof = []wt{{"limits", 1}, {"stats", 8}}
				if g.chance(60) {
					prof = []wt{{"touch", 3}, {"flush", 3}, {"ti", 4}, {"patk", 6}, {"pati", 4}, {"getk", 3}, {"geti", 3}, {"layout", 1}, {"dims", 1}, {"validate", 1}, {"floc", 1}, {"prune", 1}, {"stats", 1}}
				}
			} else if g.chance(30) {
				prof = profiles["concown"]
			}
			var p []Op
			for j := g.in(3, 30); j > 0; j-- {
				o := g.op(prof, c)
				if o.K != "putrun" && o.K != "delrun" {
					p = append(p, o)
				}
			}
			c.Progs = append(c.Progs, p)
		}
	} else if own {
		c.X = 1
		c.U = g.in(40, 600)
		if c.Kind != "llrb" {
			g.trees(c, int(g.pick(1, 2, 2, 3)), 90, 0)
		}
		prof := profiles["concown"]
		if c.Kind == "llrb" {
			prof = with(mapW, wt{"len", 4}, wt{"validate", 1}, wt{"dump", 1})
		}
		for i := g.in(2, 6); i > 0; i-- {
			var p []Op
			for j := g.in(5, 50); j > 0; j-- {
				p = append(p, g.op(prof, c))
			}
			c.Progs = append(c.Progs, p)
		}
	} else {
		c.X = 0
		c.U = g.in(3, 30)
		if c.Kind != "llrb" {
			g.trees(c, int(g.pick(1, 1, 2)), 80, 0)
		}
		prof := profiles["conc"]
		if c.Kind == "llrb" {
			prof = profiles["concl"]
		}
		var p2 []wt
		for _, x := range prof {
			if x.k != "putrun" && x.k != "delrun" {
				p2 = append(p2, x)
			}
		}
		if g.chance(85) {
			for i := range max(1, len(c.Trees)) {
				c.Ops = append(c.Ops, Op{K: "putrun", T: i, A: g.n(c.U), B: g.in(2, c.U), V: g.n(1000)})
			}
			if c.Kind != "llrb" && g.chance(60) {
				c.Ops = append(c.Ops, Op{K: []string{"flush", "flushp", "purge"}[g.n(3)], T: int(g.n(3))})
			}
		}
		lo, hi := int64(2), int64(4)
		edge := g.chance(35)
		if edge { // few items, the last one contended
			c.U, lo, hi = g.in(2, 8), 3, 6
			for i := range c.Trees {
				c.Trees[i].Max = 4
			}
			p2 = append(append([]wt(nil), p2...), wt{"pati", 12}, wt{"deli", 8}, wt{"put", 14}, wt{"delk", 10}, wt{"geti", 6})
			if g.chance(60) { // one kind of call, against changes
				p2 = append(p2, wt{p2[g.n(int64(len(p2)))].k, 40})
			}
			if c.Slow > 0 || g.chance(50) {
				c.Slow = g.in(1, 4)
			}
		}
		for i := g.in(lo, hi); i > 0; i-- {
			var p []Op
			for j := g.in(2, 8); j > 0; j-- {
				o := g.op(p2, c)
				if edge {
					o.A %= c.U
				}
				p = append(p, o)
			}
			c.Progs = append(c.Progs, p)
		}
	}
	if c.Hi > 200 || g.chance(50) {
		c.Lo, c.Hi = uint64(g.n(6)), uint64(g.n(8))
	}
	return c
}
