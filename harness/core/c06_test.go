package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC06(t *testing.T) {
	m := mon.Start(t, "C06")
	defer m.Done()
	m.Rule("conc: 2-16 goroutines create traces through every constructor at once; all IDs of the process are different, each start lies in its call, and whenever one creation returned before another began the later one has the larger ID, does not start earlier, and is listed first by a search; distinct by order of IDs between goroutines")
	m.Cases("conc", mon.N(120, 80), c06Concurrent)
	m.Rule("ties: sequential creation on virtual time with many traces in one instant and steps from 1ns over a millisecond to hours: IDs strictly increase and the search order is exactly the reverse order of creation; distinct by steps")
	m.Bubbles("ties", mon.N(250, 40), c06Ties)
	m.Rule("burst: 3000-140000 traces in one virtual instant or a few nanoseconds apart: IDs strictly increase, and the newest are the ones a search lists, newest first; distinct by number and step")
	m.Bubbles("burst", mon.N(4, 0), c06Burst)
	m.Rule("meta: traces with awkward sources and categories held through decorators, prefixes, regions, contexts, events, finish, drop and recycling by later traces; ID, source, category and start are re-read through every handle after each step and during concurrent use; distinct by history")
	m.Cases("meta", mon.N(300, 100), c06Meta)
}

var c06IDs sync.Map

type c06Rec struct {
	who        int
	tr         trc.Trace
	id         string
	started    time.Time
	start, end int64
	t0, t1     time.Time
	coll       int
}

func c06Create(r *rand.Rand, colls []*trc.Collector, who int) c06Rec {
	x := c06Rec{who: who, coll: -1}
	how := r.IntN(6)
	k := r.IntN(len(colls))
	ctx := bg
	if how == 1 {
		ctx = context.WithValue(bg, c06Key{}, "other value")
	}
	x.t0, x.start = time.Now(), mono()
	switch how {
	case 0:
		_, x.tr = trc.New(ctx, "s", "c")
	case 1:
		x.tr = trc.Get(ctx)
	case 2:
		_, x.tr = trc.New(ctx, "s", "c", mon.Passthrough)
	default:
		_, x.tr = colls[k].NewTrace(ctx, mon.Pick(r, "a", "b"))
		x.coll = k
	}
	x.end, x.t1 = mono(), time.Now()
	x.id, x.started = x.tr.ID(), x.tr.Started()
	return x
}

type c06Key struct{}

func c06Concurrent(c *mon.C) {
	r := c.R
	colls := []*trc.Collector{trc.NewDefaultCollector(), trc.NewCollector(trc.CollectorConfig{Source: "x"}).SetCategorySize(mon.Pick(r, 1, 3, 60))}
	workers := mon.Range(r, 2, 16)
	each := mon.Pick(r, 3, 20, 150, 300)
	if mon.Race() {
		each = mon.Pick(r, 3, 20, 60)
	}
	pause := mon.Chance(r, 0.4)
	res := make([][]c06Rec, workers)
	var fns []func()
	for w := 0; w < workers; w++ {
		rr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < each; i++ {
				x := c06Create(rr, colls, w)
				if mon.Chance(rr, 0.3) {
					x.tr.Tracef("hello")
					x.tr.Finish()
				}
				res[w] = append(res[w], x)
				if pause && mon.Chance(rr, 0.1) {
					time.Sleep(time.Duration(rr.IntN(400)) * time.Microsecond)
				}
			}
		})
	}
	parallel(fns...)
	var all []c06Rec
	for _, xs := range res {
		all = append(all, xs...)
	}
	index := map[string]*c06Rec{}
	for i := range all {
		x := &all[i]
		if _, dup := c06IDs.LoadOrStore(x.id, true); dup {
			c.Violate("ID %s was given to two traces", x.id)
			return
		}
		cp := *x
		index[x.id] = &cp
		if x.started.Before(x.t0) || x.started.After(x.t1) {
			c.Violate("trace %s: start %s outside its creation [%s,%s]", x.id, x.started, x.t0, x.t1)
		}
		if id := x.tr.ID(); id != x.id {
			c.Violate("ID read %s then %s", x.id, id)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	sig := ""
	switches := 0
	minEnd, minID, minStart := int64(1<<62), "", time.Time{}
	for i := len(all) - 1; i >= 0; i-- {
		x := &all[i]
		if i > 0 && x.who != all[i-1].who {
			switches++
		}
		if i < 60 {
			sig += fmt.Sprint(x.who, ",")
		}
		if minEnd < x.start {
			c.Violate("trace %s was created %dns after the creation of %s had returned, but has the smaller ID (starts %s and %s)", x.id, x.start-minEnd, minID, x.started.Format(time.StampNano), minStart.Format(time.StampNano))
			return
		}
		if x.end < minEnd {
			minEnd, minID, minStart = x.end, x.id, x.started
		}
	}
	for k, coll := range colls {
		sr, err := coll.Search(bg, &trc.SearchRequest{Limit: 250})
		if err != nil {
			c.Violate("search: %v", err)
			return
		}
		minEnd, minID = int64(1<<62), ""
		for _, st := range sr.Traces { // newest first
			x := index[st.TraceID]
			if x == nil || x.coll != k {
				c.Violate("search shows trace %s which was not created there", st.TraceID)
				return
			}
			if !st.TraceStarted.Equal(x.started) {
				c.Violate("trace %s: start %s in the search, was %s", x.id, st.TraceStarted, x.started)
			}
		}
		for i := 0; i < len(sr.Traces); i++ {
			x := index[sr.Traces[i].TraceID]
			// everything listed before must not have ended before x began
			if minEnd < x.start {
				c.Violate("trace %s was created after %s had been, but is listed as older", x.id, minID)
				return
			}
			if x.end < minEnd {
				minEnd, minID = x.end, x.id
			}
		}
	}
	c.Count("traces", len(all))
	c.Count("switches", switches)
	if switches > workers {
		c.Seen(sig, len(all))
	}
	c.Sample("%d workers x %d traces, %d switches between goroutines in ID order", workers, each, switches)
}

func c06Ties(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	var ids []string
	sig := ""
	nc := mon.Range(r, 1, 4)
	for k := mon.Range(r, 2, 120); k > 0; k-- {
		var tr trc.Trace
		before := time.Now()
		if mon.Chance(r, 0.1) {
			_, tr = trc.New(bg, "x", "y")
			tr.ID()
		}
		_, tr = coll.NewTrace(bg, fmt.Sprint("cat", r.IntN(nc)))
		if !tr.Started().Equal(before) {
			c.Violate("start %s, created at %s", tr.Started(), before)
		}
		if n := len(ids); n > 0 && ids[n-1] >= tr.ID() {
			c.Violate("trace %d has ID %s, the one before %s", n, tr.ID(), ids[n-1])
			return
		}
		ids = append(ids, tr.ID())
		if mon.Chance(r, 0.2) {
			tr.Finish()
		}
		if mon.Chance(r, 0.4) {
			d := mon.Pick(r, 1, 500*time.Microsecond, time.Millisecond-1, time.Millisecond, time.Millisecond+1, time.Second, time.Hour)
			time.Sleep(d)
			sig += fmt.Sprint(d, ",")
		} else {
			sig += "."
		}
	}
	res, err := coll.Search(bg, &trc.SearchRequest{Limit: 250})
	if err != nil || len(res.Traces) != len(ids) {
		c.Violate("search: %v, %d traces of %d", err, len(res.Traces), len(ids))
		return
	}
	for i, st := range res.Traces {
		if want := ids[len(ids)-1-i]; st.TraceID != want {
			c.Violate("search position %d has %s, want %s (created %d of %d)", i, st.TraceID, want, len(ids)-1-i, len(ids))
			return
		}
	}
	c.Count("traces", len(ids))
	c.Seen(sig, nc)
}

func c06Burst(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	n := mon.Pick(r, 3000, 9000, 70000, 140000)
	step := mon.Pick(r, 0, 0, 1, 13)
	if mon.Race() {
		n = min(n, 9000)
	}
	ids := make([]string, 0, n)
	for i := 0; i < n; i++ {
		_, tr := coll.NewTrace(bg, mon.Pick(r, "a", "b"))
		if i > 0 && ids[i-1] >= tr.ID() {
			c.Violate("trace %d of %d, %dns apart, has ID %s, the one before %s", i, n, step, tr.ID(), ids[i-1])
			return
		}
		ids = append(ids, tr.ID())
		if step > 0 {
			time.Sleep(time.Duration(step))
		}
	}
	res, err := coll.Search(bg, &trc.SearchRequest{Limit: 250})
	if err != nil || len(res.Traces) != 250 {
		c.Violate("search: %v, %d traces", err, len(res.Traces))
		return
	}
	for i, st := range res.Traces {
		if want := ids[n-1-i]; st.TraceID != want {
			c.Violate("search position %d has %s, want %s", i, st.TraceID, want)
			return
		}
	}
	c.Count("traces", n)
	c.Seen(n, step)
}

func c06Meta(c *mon.C) {
	r := c.R
	words := append(append([]string{" padded ", "\ttab", " ", "Upper", "a\nb"}, mon.Categories...), mon.Sources...)
	type held struct {
		handles              []trc.Trace
		id, source, category string
		started              time.Time
		ctx                  context.Context
	}
	src := mon.Pick(r, words...)
	cfg := trc.CollectorConfig{Source: src}
	if src == "" {
		src = "default"
	}
	coll := trc.NewCollector(cfg).SetCategorySize(mon.Range(r, 1, 3))
	if mon.Chance(r, 0.4) {
		if s := mon.Pick(r, words...); s != "" {
			src = s
			coll.SetSourceName(src)
		}
	}
	if mon.Chance(r, 0.5) {
		coll.SetDecorators(mon.Passthrough, trc.LogDecorator(discard{}))
	}
	var hs []*held
	check := func(h *held, c *mon.C) {
		for i, tr := range h.handles {
			if tr.ID() != h.id || tr.Source() != h.source || tr.Category() != h.category || !tr.Started().Equal(h.started) {
				c.Violate("handle %d (%T) of trace %s/%q/%q/%s reads %s/%q/%q/%s", i, tr, h.id, h.source, h.category, h.started, tr.ID(), tr.Source(), tr.Category(), tr.Started())
			}
		}
	}
	hist := ""
	for k := mon.Range(r, 5, 40); k > 0 && !c.Failed(); k-- {
		op := r.IntN(10)
		hist += fmt.Sprint(op)
		if op < 4 || len(hs) == 0 {
			h := &held{category: mon.Pick(r, words...)}
			var tr trc.Trace
			t0 := time.Now()
			switch r.IntN(4) {
			case 0:
				h.source = mon.Pick(r, words...)
				h.ctx, tr = trc.New(bg, h.source, h.category)
			case 1:
				h.source = mon.Pick(r, words...)
				h.ctx, tr = trc.New(bg, h.source, h.category, trc.LogDecorator(discard{}), mon.Passthrough)
			default:
				h.source = src
				h.ctx, tr = coll.NewTrace(bg, h.category)
			}
			t1 := time.Now()
			h.id, h.started = tr.ID(), tr.Started()
			if h.started.Before(t0) || h.started.After(t1) {
				c.Violate("start %s outside the call [%s,%s]", h.started, t0, t1)
			}
			if _, dup := c06IDs.LoadOrStore(h.id, true); dup {
				c.Violate("ID %s was given to two traces", h.id)
			}
			h.handles = append(h.handles, tr, trc.Get(h.ctx))
			hs = append(hs, h)
		}
		h := hs[r.IntN(len(hs))]
		switch {
		case op == 4:
			ctx, tr := trc.Prefix(h.ctx, "p%d", k)
			h.ctx = ctx
			h.handles = append(h.handles, tr, trc.Get(ctx))
		case op == 5:
			ctx, tr, fin := trc.Region(h.ctx, "reg")
			h.handles = append(h.handles, tr, trc.Get(ctx))
			fin()
		case op == 6:
			h.handles[0].Finish()
		case op == 7:
			mon.Call(h.handles[len(h.handles)-1], r.IntN(4), "event %d", k)
		case op == 8:
			coll.SetCategorySize(mon.Range(r, 1, 3))
		case op == 9:
			h.handles = append(h.handles, trc.NewSearchTrace(h.handles[0]), trc.NewStreamTrace(h.handles[0]))
			ctx, tr := coll.NewTrace(h.ctx, "reuse")
			h.handles = append(h.handles, tr, trc.Get(ctx))
		}
		if mon.Chance(r, 0.15) {
			var fns []func()
			for w := 0; w < 3; w++ {
				rr := sub(r)
				fns = append(fns, func() {
					for _, h := range hs {
						switch rr.IntN(3) {
						case 0:
							h.handles[0].Finish()
						case 1:
							h.handles[0].Errorf("x")
						case 2:
							_, tr := coll.NewTrace(bg, h.category)
							tr.Finish()
						}
						check(h, c)
					}
				})
			}
			parallel(fns...)
		}
		for _, h := range hs {
			check(h, c)
			c.Count("handle_checks", len(h.handles))
		}
	}
	c.Seen(hist, len(hs))
}
