package main

import "strings"

type plan struct {
	quick  int // cases per shard
	shards int
	rule   string
}

const gennote = "rapid draws key type, value type, codec, key universe, node size, cache limits, store placement and an operation sequence whose operands are resolved against the state; "

var plans = map[string]plan{
	"C01": {40000, 8, gennote + "non-trivial: at least 8 successful modifications, one deletion and 5 items at some time"},
	"C02": {30000, 8, gennote + "non-trivial: the tree outgrew one node and something was deleted"},
	"C03": {24000, 8, gennote + "non-trivial: multi-node tree, at least one flush or purge, and nodes read back afterwards"},
	"C04": {24000, 8, gennote + "non-trivial: a multi-node tree was re-opened or an older version was opened"},
	"C05": {30000, 8, gennote + "non-trivial: multi-node tree, a crash or a check of a stored version after later modifications"},
	"C06": {24000, 8, gennote + "non-trivial: multi-node tree and at least 3 nodes discarded"},
	"C07": {6000, 8, gennote + "one operation is repeated with a fault at every callback position (fault), or every operation is hit by a fault somewhere (storm); non-trivial: at least one fault fired on a tree of several nodes"},
	"C08": {30000, 8, gennote + "a stored node comes back truncated or extended, or a stored tree with one planted inconsistency is opened; non-trivial: the damaged node was actually read, or the inconsistency was planted"},
	"C09": {30000, 8, gennote + "non-trivial: a multi-node tree was fully touched and flushed"},
	"C10": {30000, 8, gennote + "non-trivial: an exact layout or dimensions report was compared on a multi-node tree"},
	"C11": {20000, 8, gennote + "non-trivial: eviction drained the cache, or nodes were read again after eviction, or the exact node count was compared"},
	"C12": {450, 14, "rapid draws per-goroutine programs; built with the race detector; non-trivial: calls overlapped in time (small programs, checked for linearizability) or several goroutines ran long programs on shared trees"},
	"C13": {20000, 8, gennote + "non-trivial: at least 30 items, one deletion"},
	"C14": {30000, 8, gennote + "non-trivial: multi-node tree, at least two flushes"},
	"C15": {24000, 8, gennote + "or a well-formed stored tree is laid out directly from the documented format; non-trivial: the tree has several nodes"},
	"C16": {100000, 8, "rapid draws triples of values of one key type (extremes, neighbours, far apart) and wrongly typed arguments; every ordered pair is compared with the natural order; every case is non-trivial"},
	"C17": {50000, 8, gennote + "non-trivial: a rejected key was given to an operation"},
	"C18": {30000, 8, gennote + "non-trivial: a Dump of at least 3 items was compared, or a callback failed during Dump"},
	"C19": {12000, 8, gennote + "non-trivial: at least two trees were modified and nodes were read back or discarded"},
}

func hasLabel(w *World, prefix string) bool {
	for k, v := range w.labels {
		if v > 0 && strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func nontrivial(c *Case, w *World) bool {
	t := &w.ctr
	multi := false
	for _, x := range c.Trees {
		if uint64(t.maxItems) > x.Max {
			multi = true
		}
	}
	switch c.Prop {
	case "C01":
		return t.okMods >= 8 && t.deletes >= 1 && t.maxItems >= 5
	case "C02":
		return multi && t.deletes >= 1
	case "C03":
		return multi && t.gets > 0 && (w.labels["op:flush"]+w.labels["op:flushp"]+w.labels["op:purge"]+w.labels["op:purgef"] > 0)
	case "C04":
		return multi && (t.reopens > 0 || hasLabel(w, "snap"))
	case "C05":
		return multi && (t.crashes > 0 || hasLabel(w, "snap"))
	case "C06":
		return multi && t.discs >= 3
	case "C07":
		return multi && t.faultsFired > 0
	case "C08":
		return t.damagedReads > 0
	case "C09":
		return hasLabel(w, "touch:relocated-multi")
	case "C10":
		return multi && (hasLabel(w, "layout:exact") || hasLabel(w, "dims:exact"))
	case "C11":
		return hasLabel(w, "cache:") || t.evictLoads > 0
	case "C12":
		return hasLabel(w, "conc:overlapping") || hasLabel(w, "conc:hammer") || hasLabel(w, "conc:owner")
	case "C13":
		return t.maxItems >= 30 && t.deletes > 0
	case "C14":
		return multi && t.flushes >= 2
	case "C15":
		return multi
	case "C16":
		return true
	case "C17":
		return hasLabel(w, "reject:")
	case "C18":
		return hasLabel(w, "dump:fault") || t.maxItems >= 3 && w.labels["op:dump"] > 0
	case "C19":
		return hasLabel(w, "iso:concurrent") || len(c.Trees) > 1 && t.okMods > 3 && t.gets+t.discs > 0
	}
	return true
}
