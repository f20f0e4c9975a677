package core

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC11(t *testing.T) {
	m := mon.Start(t, "C11")
	defer m.Done()
	m.Rule("search: statistics of searches with random filters, limits and buckets over live and foreign populations on virtual time, against counting; non-trivial: at least one trace held; distinct by population shape and buckets")
	m.Bubbles("search", mon.N(700, 80), c11Search)
	m.Rule("large: the statistics of a collector holding up to 12000 traces in several categories; distinct by size")
	m.Bubbles("large", mon.N(4, 4), c11Large)
	m.Rule("merge: a population split into parts, observed separately and merged in random order and nesting, also through JSON and into empty statistics; result equals observing all, rates are the sums, merged-in statistics stay as they were, also when the result is used further; distinct by population shape and merge order")
	m.Bubbles("merge", mon.N(900, 80), c11Merge)
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Max(1, math.Abs(a)+math.Abs(b)) }

// checkOverall checks the overall figures of statistics.
func checkOverall(c *mon.C, what string, ss *trc.SearchStats, sts []*trc.StaticTrace, buckets []time.Duration) {
	ref := mon.RefStatsOf(sts, buckets)
	sum := &mon.RefStats{Buckets: make([]int, len(buckets))}
	var names []string
	for name, s := range ref {
		names = append(names, name)
		sum.Events += s.Events
		sum.Active += s.Active
		sum.Errored += s.Errored
		sum.Total += s.Total
		for i := range s.Buckets {
			sum.Buckets[i] += s.Buckets[i]
		}
		if sum.Oldest.IsZero() || s.Oldest.Before(sum.Oldest) {
			sum.Oldest = s.Oldest
		}
		if sum.Newest.IsZero() || s.Newest.After(sum.Newest) {
			sum.Newest = s.Newest
		}
	}
	sort.Strings(names)
	before := mon.JSON(ss)
	overall := ss.Overall()
	if d := mon.DiffCategory("overall", overall, sum); d != "" {
		c.Violate("%s: overall figures: %s", what, d)
		return
	}
	all := ss.AllCategories()
	if len(all) != len(names)+1 {
		c.Violate("%s: %d categories listed, want %d and the overall", what, len(all), len(names))
		return
	}
	for i, name := range names {
		if all[i].Category != name {
			c.Violate("%s: category %d is %q, want %q", what, i, all[i].Category, name)
			return
		}
		if d := mon.DiffCategory(name, all[i], ref[name]); d != "" {
			c.Violate("%s: %s", what, d)
			return
		}
	}
	if d := mon.DiffCategory("overall", all[len(names)], sum); d != "" {
		c.Violate("%s: overall figures in the list: %s", what, d)
		return
	}
	if d := mon.DiffStats(ss, sts, buckets); d != "" {
		c.Violate("%s: after asking for the overall figures: %s", what, d)
	}
	if after := mon.JSON(ss); after != before {
		c.Violate("%s: asking for the overall figures changed the statistics from %s to %s", what, before, after)
	}
	var tr, er float64
	for _, name := range names {
		tr += ss.Categories[name].TraceRate()
		er += ss.Categories[name].EventRate()
	}
	if !near(overall.TraceRate(), tr) || !near(overall.EventRate(), er) {
		c.Violate("%s: overall rates %g, %g, sums over the categories %g, %g", what, overall.TraceRate(), overall.EventRate(), tr, er)
	}
}

// checkRates checks the rates of unmerged statistics.
func checkRates(c *mon.C, what string, ss *trc.SearchStats, sts []*trc.StaticTrace, buckets []time.Duration) {
	for name, ref := range mon.RefStatsOf(sts, buckets) {
		d := time.Since(ref.Oldest).Seconds()
		if d <= 0 {
			continue
		}
		cs := ss.Categories[name]
		if !near(cs.TraceRate(), float64(ref.Total)/d) || !near(cs.EventRate(), float64(ref.Events)/d) {
			c.Violate("%s: category %q: rates %g, %g, want %g, %g", what, name, cs.TraceRate(), cs.EventRate(), float64(ref.Total)/d, float64(ref.Events)/d)
		}
	}
}

func c11Search(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: "s"})
	var trs []trc.Trace
	var sts []*trc.StaticTrace
	live := mon.Chance(r, 0.5)
	if live {
		nc := mon.Range(r, 1, len(mon.Categories))
		for k := mon.Pick(r, 0, 1, 10, 40); k > 0; k-- {
			_, tr := coll.NewTrace(bg, mon.Categories[r.IntN(nc)])
			for j := r.IntN(4); j > 0; j-- {
				mt := r.IntN(2)
				if mon.Chance(r, 0.1) {
					mt = r.IntN(4)
				}
				mon.Call(tr, mt, "event")
			}
			time.Sleep(mon.Durations[r.IntN(len(mon.Durations))])
			if mon.Chance(r, 0.7) {
				tr.Finish()
			}
			trs = append(trs, tr)
		}
		for _, tr := range trs {
			sts = append(sts, mon.CopyTrace(tr))
		}
	} else {
		sts = population(r, mon.Pick(r, 0, 1, 5, 60, 300))
		mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return mon.NewForeign(st) })
	}
	time.Sleep(mon.Pick(r, 5*time.Second, time.Hour)) // all starts lie in the past
	for i, tr := range trs {
		sts[i].TraceDuration = tr.Duration()
	}
	for k := 3; k > 0 && !c.Failed(); k-- {
		req := request(r, sts)
		orig := copyRequest(req)
		given := append([]time.Duration{}, req.Bucketing...)
		res, err := coll.Search(bg, req)
		if err != nil {
			c.Violate("search: %v", err)
			return
		}
		buckets := mon.RefBuckets(given)
		if d := mon.DiffStats(res.Stats, sts, buckets); d != "" {
			c.Violate("search %s: %s", mon.JSON(orig), d)
			return
		}
		total := 0
		for _, cs := range res.Stats.Categories {
			total += cs.TotalCount()
		}
		if total != res.TotalCount {
			c.Violate("category totals add up to %d, total count is %d", total, res.TotalCount)
		}
		checkOverall(c, "search", res.Stats, sts, buckets)
		checkRates(c, "search", res.Stats, sts, buckets)
		c.Count("statistics", 1)
		if len(sts) > 0 {
			c.Seen(live, len(sts), fmt.Sprint(buckets))
		}
	}
	if d := trc.DefaultBucketing; len(d) != 9 || d[0] != 0 || d[8] != time.Second {
		c.Violate("the default buckets changed to %v", d)
	}
}

func c11Large(c *mon.C) {
	r := c.R
	n := mon.Pick(r, 2500, 6000, 12000)
	if mon.Race() {
		n = 2500
	}
	sts := population(r, n)
	coll := trc.NewCollector(trc.CollectorConfig{Source: "s"}).SetCategorySize(n)
	mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return st })
	time.Sleep(5 * time.Second)
	req := request(r, sts)
	buckets := mon.RefBuckets(req.Bucketing)
	res, err := coll.Search(bg, req)
	if err != nil {
		c.Violate("search: %v", err)
		return
	}
	if res.TotalCount != n {
		c.Violate("total count %d, want %d", res.TotalCount, n)
	}
	if d := mon.DiffStats(res.Stats, sts, buckets); d != "" {
		c.Violate("%d traces: %s", n, d)
		return
	}
	checkOverall(c, "search", res.Stats, sts, buckets)
	c.Count("statistics", 1)
	c.Seen(n, len(buckets))
}

func c11Merge(c *mon.C) {
	r := c.R
	sts := population(r, mon.Pick(r, 0, 1, 3, 12, 60))
	if mon.Chance(r, 0.02) { // many categories
		sts = population(r, mon.Pick(r, 200, 600))
		nc := mon.Pick(r, 40, 130, 300)
		for _, st := range sts {
			st.TraceCategory = fmt.Sprintf("category %d", r.IntN(nc))
		}
	}
	buckets := mon.RefBuckets(mon.AnyBuckets(r))
	given := append([]time.Duration{}, buckets...)
	time.Sleep(mon.Pick(r, 5*time.Second, time.Hour)) // so that all starts lie in the past
	nparts := mon.Range(r, 1, 5)
	type part struct {
		ss     *trc.SearchStats
		sts    []*trc.StaticTrace
		tr, er map[string]float64
	}
	parts := make([]*part, nparts)
	for i := range parts {
		parts[i] = &part{ss: trc.NewSearchStats(buckets), tr: map[string]float64{}, er: map[string]float64{}}
	}
	for _, st := range sts {
		p := parts[r.IntN(nparts)]
		p.sts = append(p.sts, st)
	}
	hist := ""
	for _, p := range parts {
		if mon.Chance(r, 0.5) {
			for _, st := range p.sts {
				p.ss.Observe(st)
			}
		} else {
			var trs []trc.Trace
			for _, st := range p.sts {
				trs = append(trs, mon.NewForeign(st))
			}
			p.ss.Observe(trs...)
		}
		if d := mon.DiffStats(p.ss, p.sts, buckets); d != "" {
			c.Violate("observed: %s", d)
			return
		}
		if mon.Chance(r, 0.3) {
			checkOverall(c, "observed", p.ss, p.sts, buckets)
		}
		for name := range p.ss.Categories {
			d := time.Since(mon.RefStatsOf(p.sts, buckets)[name].Oldest).Seconds()
			p.tr[name] = float64(p.ss.Categories[name].TotalCount()) / d
			p.er[name] = float64(p.ss.Categories[name].EventCount) / d
		}
		if mon.Chance(r, 0.4) {
			checkRates(c, "observed", p.ss, p.sts, buckets)
		}
		if mon.Chance(r, 0.3) {
			var cp trc.SearchStats
			if err := json.Unmarshal([]byte(mon.JSON(p.ss)), &cp); err != nil {
				c.Violate("statistics do not survive JSON: %v", err)
			}
			p.ss = &cp
			hist += "j"
		}
		hist += fmt.Sprint(len(p.sts), ",")
	}
	merge := func(a, b *part) *part {
		before := mon.JSON(b.ss)
		a.ss.Merge(b.ss)
		a.sts = append(a.sts[:len(a.sts):len(a.sts)], b.sts...)
		for k, v := range b.tr {
			a.tr[k] += v
		}
		for k, v := range b.er {
			a.er[k] += v
		}
		if after := mon.JSON(b.ss); after != before {
			c.Violate("merging changed the merged-in statistics from %s to %s", before, after)
		}
		if d := mon.DiffStats(a.ss, a.sts, buckets); d != "" {
			c.Violate("merged: %s", d)
		}
		c.Count("merges", 1)
		return a
	}
	type frozen struct {
		ss   *trc.SearchStats
		json string
	}
	var merged []frozen
	for len(parts) > 1 && !c.Failed() {
		i := r.IntN(len(parts))
		j := r.IntN(len(parts) - 1)
		if j >= i {
			j++
		}
		hist += fmt.Sprintf("%d<%d", i, j)
		a, b := parts[i], parts[j]
		switch r.IntN(5) {
		case 0: // into empty
			e := &part{ss: trc.NewSearchStats(buckets), tr: map[string]float64{}, er: map[string]float64{}}
			merge(e, a)
			merged = append(merged, frozen{a.ss, mon.JSON(a.ss)})
			a = e
			hist += "e"
		case 1: // into nothing at all
			e := &part{ss: &trc.SearchStats{}, tr: map[string]float64{}, er: map[string]float64{}}
			merge(e, a)
			merged = append(merged, frozen{a.ss, mon.JSON(a.ss)})
			a = e
			hist += "z"
		}
		if mon.Chance(r, 0.2) {
			a.ss.Merge(nil)
			a.ss.Merge(&trc.SearchStats{})
			a.ss.Merge(trc.NewSearchStats(buckets))
		}
		if mon.Chance(r, 0.3) {
			checkOverall(c, "before merging", a.ss, a.sts, buckets)
		}
		parts[i] = merge(a, b)
		merged = append(merged, frozen{b.ss, mon.JSON(b.ss)})
		parts = append(parts[:j:j], parts[j+1:]...)
	}
	if c.Failed() {
		return
	}
	p := parts[0]
	if len(p.sts) != len(sts) {
		panic("harness lost traces")
	}
	if d := mon.DiffStats(p.ss, sts, buckets); d != "" {
		c.Violate("all merged: %s", d)
		return
	}
	for name, cs := range p.ss.Categories {
		if !near(cs.TraceRate(), p.tr[name]) || !near(cs.EventRate(), p.er[name]) {
			c.Violate("all merged (%s): category %q: rates %g, %g, sums of the parts %g, %g", hist, name, cs.TraceRate(), cs.EventRate(), p.tr[name], p.er[name])
			return
		}
	}
	checkOverall(c, "all merged", p.ss, sts, buckets)
	// further use of the result does not reach what was merged in
	more := population(r, 5)
	for _, st := range more {
		p.ss.Observe(st)
	}
	if d := mon.DiffStats(p.ss, append(append([]*trc.StaticTrace{}, sts...), more...), buckets); d != "" {
		c.Violate("observing more after merging: %s", d)
	}
	for _, f := range merged {
		if now := mon.JSON(f.ss); now != f.json {
			c.Violate("statistics that were merged in before changed later from %s to %s", f.json, now)
			return
		}
	}
	for i := range given {
		if buckets[i] != given[i] {
			c.Violate("the given buckets changed")
		}
	}
	if len(sts) > 0 {
		c.Seen(hist, len(buckets))
	}
	c.Sample("%d traces, %d parts, merge order %s, buckets %v", len(sts), nparts, hist, buckets)
}
