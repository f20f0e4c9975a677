package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC09(t *testing.T) {
	m := mon.Start(t, "C09")
	defer m.Done()
	m.Rule("foreign: collectors holding 0-400 traces of other implementations (plain wrappers, or static traces which hand out their own memory) in several categories, searched repeatedly with random filters, limits, depths and buckets, against a reference search; the held traces are dumped before and after; non-trivial: something matched; distinct by population, filter and limit")
	m.Cases("foreign", mon.N(1500, 60), c09Foreign)
	m.Rule("scale: the same with 100 to 700 categories, or with categories of 1100 to 4000 traces, or traces of 1001 to 3000 events; distinct by population, filter and limit")
	m.Cases("scale", mon.N(12, 20), c09Scale)
	m.Rule("live: the same on core traces in every state on virtual time, with continued use between searches; distinct by population, filter and limit")
	m.Bubbles("live", mon.N(400, 60), c09Live)
	m.Rule("same: one request value searched concurrently and repeatedly while nothing changes: all answers are equal; distinct by request")
	m.Cases("same", mon.N(60, 60), c09Same)
	m.Rule("churn: traces with known events are created, written, finished and dropped all the time (sizes 1 to 200, also resized) while several searches with random filters run; every copy of a finished trace has exactly its events, duration and status, every other copy its first events; non-trivial: traces were dropped and finished copies returned; distinct by sizes and numbers")
	m.Cases("churn", mon.N(100, 100), churn)
}

var limits = []int{0, -1, -100, 1, 2, 3, 5, 9, 10, 11, 50, 249, 250, 251, 10000}
var depths = []int{0, 0, 0, -1, -1, -2, 1, 2, 3, 10, 15, 33, 100}
var badQueries = []string{"[", "(", "a(b", "*", "x{2,1}", "\\", "(?P<", "a**", "[z-a]"}

// request makes a search request.
func request(r *rand.Rand, sts []*trc.StaticTrace) *trc.SearchRequest {
	req := &trc.SearchRequest{
		Filter:     mon.AnyFilter(r, sts),
		Limit:      limits[r.IntN(len(limits))],
		StackDepth: depths[r.IntN(len(depths))],
		Bucketing:  mon.AnyBuckets(r),
	}
	if mon.Chance(r, 0.12) {
		req.Filter.Query = badQueries[r.IntN(len(badQueries))]
	}
	return req
}

func copyRequest(req *trc.SearchRequest) *trc.SearchRequest {
	cp := &trc.SearchRequest{Filter: mon.CopyFilter(req.Filter), Limit: req.Limit, StackDepth: req.StackDepth}
	cp.Bucketing = append(cp.Bucketing, req.Bucketing...)
	return cp
}

func isBadQuery(q string) bool {
	for _, b := range badQueries {
		if q == b {
			return true
		}
	}
	return false
}

// refSearch selects from the held traces.
func refSearch(held []*trc.StaticTrace, req *trc.SearchRequest) (want []*trc.StaticTrace, matches int) {
	for _, st := range held {
		if mon.RefAllow(req.Filter, st) {
			matches++
			cp := *st
			cp.TraceEvents = mon.RefTrim(st.TraceEvents, req.StackDepth)
			want = append(want, &cp)
		}
	}
	sort.SliceStable(want, func(i, j int) bool { return mon.Newer(want[i], want[j]) })
	if n := mon.RefLimit(req.Limit); len(want) > n {
		want = want[:n]
	}
	return want, matches
}

// checkSearch compares a response with the reference.
func checkSearch(c *mon.C, what string, res *trc.SearchResponse, err error, held []*trc.StaticTrace, req *trc.SearchRequest) int {
	if err != nil || res == nil {
		c.Violate("%s: %v, error %v", what, res, err)
		return 0
	}
	want, matches := refSearch(held, req)
	got := make([]string, len(res.Traces))
	for i := range res.Traces {
		got[i] = res.Traces[i].TraceID
	}
	if len(res.Traces) != len(want) {
		c.Violate("%s (%s): %d traces returned, want %d of %d matching of %d held: got %.300v", what, mon.JSON(req), len(res.Traces), len(want), matches, len(held), got)
		return 0
	}
	for i := range want {
		if d := mon.DiffTraces(res.Traces[i], want[i]); d != "" {
			c.Violate("%s (%s): position %d: %s", what, mon.JSON(req), i, d)
			return 0
		}
	}
	if res.TotalCount != len(held) {
		c.Violate("%s (%s): total count %d, %d held", what, mon.JSON(req), res.TotalCount, len(held))
	}
	if res.MatchCount < len(want) || res.MatchCount > matches {
		c.Violate("%s (%s): match count %d, returned %d, true matches %d", what, mon.JSON(req), res.MatchCount, len(want), matches)
	}
	if bad := isBadQuery(req.Filter.Query); bad && len(res.Problems) == 0 {
		c.Violate("%s: invalid query %q is not reported as a problem", what, req.Filter.Query)
	} else if !bad && len(res.Problems) > 0 {
		c.Violate("%s (%s): unexpected problems %q", what, mon.JSON(req), res.Problems)
	}
	c.Count("searches", 1)
	c.Count("traces_compared", len(want))
	return matches
}

// population makes traces, oldest first.
func population(r *rand.Rand, n int) []*trc.StaticTrace {
	now := time.Now().UTC().Add(-time.Duration(r.IntN(1e6)))
	nc := mon.Range(r, 1, len(mon.Categories))
	var sts []*trc.StaticTrace
	for i := 0; i < n; i++ {
		if mon.Chance(r, 0.7) {
			now = now.Add(time.Duration(mon.Pick(r, 1, 1000, 5e6)))
		}
		sts = append(sts, mon.Static(r, mon.Categories[r.IntN(nc)], mon.Pick(r, mon.Sources...), now))
	}
	return sts
}

func c09Foreign(c *mon.C) {
	r := c.R
	sts := population(r, mon.Pick(r, 0, 1, 2, 5, 10, 11, 30, 100, 260, 400))
	held := make([]*trc.StaticTrace, len(sts))
	for i, st := range sts {
		held[i] = mon.CopyTrace(st)
	}
	coll := trc.NewCollector(trc.CollectorConfig{Source: "self"})
	wrap := func(st *trc.StaticTrace) trc.Trace { return mon.NewForeign(st) }
	raw := mon.Chance(r, 0.5)
	if raw {
		wrap = func(st *trc.StaticTrace) trc.Trace { return st }
	}
	mon.Feed(coll, sts, wrap)
	for k := mon.Range(r, 1, 6); k > 0 && !c.Failed(); k-- {
		req := request(r, sts)
		orig := copyRequest(req)
		res, err := coll.Search(bg, req)
		n := checkSearch(c, "search", res, err, held, orig)
		if c.Failed() {
			return
		}
		if len(res.Sources) != 1 || res.Sources[0] != "self" {
			c.Violate("sources %q", res.Sources)
		}
		if mon.Chance(r, 0.3) { // a search may give up, but not give half an answer
			ctx, cancel := context.WithCancel(bg)
			cancel()
			res, err := coll.Search(ctx, copyRequest(orig))
			if err == nil {
				checkSearch(c, "search with a cancelled context", res, err, held, orig)
			}
			c.Count("searches_cancelled", 1)
		}
		again := copyRequest(orig)
		if mon.Chance(r, 0.5) && !isBadQuery(orig.Filter.Query) {
			again = req // as normalised by the first search
		}
		res2, err2 := coll.Search(bg, again)
		checkSearch(c, "repeated search", res2, err2, held, orig)
		for i := range sts {
			if d := mon.DiffTraces(mon.CopyTrace(sts[i]), held[i]); d != "" {
				c.Violate("a search changed a held trace: %s", d)
				return
			}
		}
		if n > 0 {
			c.Seen(len(sts), raw, mon.JSON(orig.Filter), orig.Limit, orig.StackDepth)
		}
		c.Sample("%d traces, request %s -> %d matching, %d returned", len(sts), mon.JSON(orig), n, len(res.Traces))
	}
}

func c09Scale(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: "self"})
	size := 5000
	coll.SetCategorySize(size)
	now := time.Now().UTC()
	var sts []*trc.StaticTrace
	shape := c.Index % 3
	switch shape {
	case 0: // many categories
		nc := mon.Pick(r, 100, 257, 300, 513, 700)
		for i := 0; i < nc*mon.Pick(r, 1, 2); i++ {
			sts = append(sts, mon.Static(r, fmt.Sprintf("category %d", i%nc), mon.Pick(r, mon.Sources...), now.Add(time.Duration(i))))
		}
	case 1: // many traces in few categories
		nc := mon.Range(r, 1, 2)
		for i := 0; i < mon.Pick(r, 1100, 2100, 4000); i++ {
			st := mon.Static(r, mon.Categories[i%nc], mon.Pick(r, mon.Sources...), now.Add(time.Duration(i)))
			st.TraceEvents = st.TraceEvents[:min(3, len(st.TraceEvents))]
			sts = append(sts, st)
		}
	case 2: // many events
		for i := mon.Range(r, 1, 5); i > 0; i-- {
			st := mon.Static(r, mon.Categories[r.IntN(2)], mon.Pick(r, mon.Sources...), now.Add(time.Duration(i)))
			st.TraceEvents = nil
			for k := mon.Pick(r, 1001, 1500, 3000); k > 0; k-- {
				st.TraceEvents = append(st.TraceEvents, trc.Event{When: now.Add(time.Duration(k)), What: fmt.Sprintf("event %d", k), IsError: mon.Chance(r, 0.1)})
			}
			sts = append(sts, st)
		}
		sort.SliceStable(sts, func(i, j int) bool { return sts[i].TraceStarted.Before(sts[j].TraceStarted) })
	}
	held := make([]*trc.StaticTrace, len(sts))
	for i, st := range sts {
		held[i] = mon.CopyTrace(st)
	}
	raw := mon.Chance(r, 0.5)
	mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace {
		if raw {
			return st
		}
		return mon.NewForeign(st)
	})
	for k := 0; k < 3 && !c.Failed(); k++ {
		req := request(r, sts)
		switch k {
		case 0:
			req.Filter, req.Limit = trc.Filter{}, 250
		case 1: // one of the oldest traces
			req.Filter = trc.Filter{IDs: []string{sts[r.IntN(1+len(sts)/8)].TraceID, sts[r.IntN(len(sts))].TraceID}}
		}
		orig := copyRequest(req)
		res, err := coll.Search(bg, req)
		n := checkSearch(c, "search", res, err, held, orig)
		if c.Failed() {
			return
		}
		if n > 0 {
			c.Seen(len(sts), raw, mon.JSON(orig.Filter), orig.Limit, orig.StackDepth)
		}
		if k == 2 {
			c.Sample("shape %d: %d traces, request %s -> %d matching, %d returned", shape, len(sts), mon.JSON(orig), n, len(res.Traces))
		}
	}
}

func c09Live(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: mon.Pick(r, mon.Sources...)})
	size := mon.Pick(r, 1000, 1, 5, 20)
	coll.SetCategorySize(size)
	if mon.Chance(r, 0.3) {
		coll.SetDecorators(trc.LogDecorator(discard{}), mon.Passthrough)
	}
	held := map[string][]trc.Trace{}
	nc := mon.Range(r, 1, len(mon.Categories))
	step := func() {
		switch op := r.IntN(10); {
		case op < 3:
			cat := mon.Categories[r.IntN(nc)]
			_, tr := coll.NewTrace(bg, cat)
			held[cat] = append(held[cat], tr)
			if n := len(held[cat]); n > size {
				held[cat] = held[cat][n-size:]
			}
		case op < 8:
			cat := mon.Categories[r.IntN(nc)]
			if n := len(held[cat]); n > 0 {
				tr := held[cat][r.IntN(n)]
				mt := r.IntN(2)
				if mon.Chance(r, 0.1) {
					mt = r.IntN(4)
				}
				recurse(r.IntN(4), func() {
					mon.Call(tr, mt, "%s %s %d", mon.Word(r), mon.Pick(r, "needle", "hay", "straw"), r.IntN(10))
				})
			}
		case op < 9:
			time.Sleep(mon.Durations[r.IntN(len(mon.Durations))])
		default:
			cat := mon.Categories[r.IntN(nc)]
			if n := len(held[cat]); n > 0 {
				held[cat][r.IntN(n)].Finish()
			}
		}
	}
	for k := mon.Range(r, 1, 5); k > 0 && !c.Failed(); k-- {
		for n := mon.Pick(r, 0, 3, 20, 150); n > 0; n-- {
			step()
		}
		dump := func() []*trc.StaticTrace {
			var sts []*trc.StaticTrace
			for _, trs := range held {
				for _, tr := range trs {
					sts = append(sts, mon.CopyTrace(tr))
				}
			}
			return sts
		}
		var before []*trc.StaticTrace
		if mon.Chance(r, 0.5) {
			before = dump() // otherwise the search is the first reader
		}
		req := request(r, dump0(before, held))
		if mon.Chance(r, 0.15) {
			req.Filter.Query = mon.Pick(r, "recurse", "c09Live", "core.recurse$", "c05_test.go:")
		}
		orig := copyRequest(req)
		res, err := coll.Search(bg, req)
		after := dump()
		if before != nil {
			byID := map[string]*trc.StaticTrace{}
			for _, st := range after {
				byID[st.TraceID] = st
			}
			for _, st := range before {
				if d := mon.DiffTraces(byID[st.TraceID], st); d != "" {
					c.Violate("a search changed a trace: %s", d)
				}
			}
		}
		n := checkSearch(c, "search", res, err, after, orig)
		res2, err2 := coll.Search(bg, copyRequest(orig))
		checkSearch(c, "repeated search", res2, err2, after, orig)
		if n > 0 {
			c.Seen(len(after), mon.JSON(orig.Filter), orig.Limit, orig.StackDepth)
		}
	}
}

// dump0 gives what is needed to make a request without reading events.
func dump0(before []*trc.StaticTrace, held map[string][]trc.Trace) []*trc.StaticTrace {
	if before != nil {
		return before
	}
	var cats []string
	for cat := range held {
		cats = append(cats, cat)
	}
	sort.Strings(cats)
	var sts []*trc.StaticTrace
	for _, cat := range cats {
		for _, tr := range held[cat] {
			sts = append(sts, &trc.StaticTrace{TraceID: tr.ID(), TraceSource: tr.Source(), TraceCategory: cat, TraceDuration: tr.Duration()})
		}
	}
	return sts
}

func c09Same(c *mon.C) {
	r := c.R
	sts := population(r, mon.Pick(r, 5, 60, 200))
	coll := trc.NewCollector(trc.CollectorConfig{Source: "self"})
	mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return st })
	held := make([]*trc.StaticTrace, len(sts))
	for i, st := range sts {
		held[i] = mon.CopyTrace(st)
	}
	orig := request(r, sts)
	var fns []func()
	for w := 0; w < 4; w++ {
		fns = append(fns, func() {
			for i := 0; i < 3; i++ {
				res, err := coll.Search(bg, copyRequest(orig))
				checkSearch(c, "concurrent search", res, err, held, orig)
				if res != nil && strings.Join(res.Sources, ",") != "self" {
					c.Violate("sources %q", res.Sources)
				}
			}
		})
	}
	parallel(fns...)
	c.Seen(fmt.Sprint(len(sts)), mon.JSON(orig))
}
