package core

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC13(t *testing.T) {
	m := mon.Start(t, "C13")
	defer m.Done()
	m.Rule("steps: a trace that, at the k-th interface call made on it by a search or publication (all k in turn), suffers an event, an error event, its finish or a combination, for random filters, with and without the optional EventsDetail method; every returned copy is checked as returned and against the final state; non-trivial: the change happened during copying; distinct by operation, k, action and filter")
	m.Bubbles("steps", mon.N(160, 40), c13Steps)
	m.Rule("stress: writers and finishers on many traces, concurrent with searches and subscriptions under random filters; all copies are checked against the final state; distinct by numbers of copies in each state")
	m.Cases("stress", mon.N(150, 150), c13Stress)
	m.Rule("long: the same checks on copies of traces with 500 to 3000 events, active and finished, while they grow; distinct by number of events")
	m.Cases("long", mon.N(8, 10), c13Long)
	m.Rule("churn: traces with known events are created, written, finished and dropped all the time (sizes 1 to 200, also resized) while several searches with random filters run; every copy of a finished trace has exactly its events, duration and status, every other copy its first events; non-trivial: traces were dropped and finished copies returned; distinct by sizes and numbers")
	m.Cases("churn", mon.N(120, 120), churn)
}

// hooked runs a hook at the k-th call to any reading method.
type hooked struct {
	trc.Trace
	mtx   sync.Mutex
	calls int
	at    int
	after bool
	hook  func()
	fired bool
}

func (h *hooked) enter() func() {
	h.mtx.Lock()
	h.calls++
	now := h.calls == h.at && !h.fired
	if now {
		h.fired = true
	}
	h.mtx.Unlock()
	if now && !h.after {
		h.hook()
	}
	return func() {
		if now && h.after {
			h.hook()
		}
	}
}

func (h *hooked) ID() string              { defer h.enter()(); return h.Trace.ID() }
func (h *hooked) Source() string          { defer h.enter()(); return h.Trace.Source() }
func (h *hooked) Category() string        { defer h.enter()(); return h.Trace.Category() }
func (h *hooked) Started() time.Time      { defer h.enter()(); return h.Trace.Started() }
func (h *hooked) Duration() time.Duration { defer h.enter()(); return h.Trace.Duration() }
func (h *hooked) Finished() bool          { defer h.enter()(); return h.Trace.Finished() }
func (h *hooked) Errored() bool           { defer h.enter()(); return h.Trace.Errored() }
func (h *hooked) Events() []trc.Event     { defer h.enter()(); return h.Trace.Events() }

type hookedDetail struct{ *hooked }

func (h *hookedDetail) EventsDetail(n int, stacks bool) []trc.Event {
	defer h.enter()()
	return h.Trace.(interface {
		EventsDetail(int, bool) []trc.Event
	}).EventsDetail(n, stacks)
}

// checkCopy checks a copy on its own and against the finished trace.
func checkCopy(c *mon.C, what string, st *trc.StaticTrace, f trc.Filter, final *trc.StaticTrace, stream bool) {
	if !mon.RefAllow(f, st) {
		c.Violate("%s: a copy returned for filter %s does not satisfy it: %s", what, mon.JSON(f), mon.JSON(st))
	}
	hasErr := false
	for _, ev := range st.TraceEvents {
		hasErr = hasErr || ev.IsError
	}
	if hasErr && !st.TraceErrored {
		c.Violate("%s: a copy has an error event and is not marked errored: %s", what, mon.JSON(st))
	}
	if final == nil {
		return
	}
	evs := final.TraceEvents
	if stream {
		evs = noStacks(evs)
	}
	if st.TraceID != final.TraceID || st.TraceSource != final.TraceSource || st.TraceCategory != final.TraceCategory || !st.TraceStarted.Equal(final.TraceStarted) {
		c.Violate("%s: copy %s of trace %s", what, mon.JSON(st), mon.JSON(final))
	}
	if st.TraceFinished {
		if !final.TraceFinished {
			c.Violate("%s: a copy is marked finished, the trace is not", what)
		}
		if st.TraceDuration != final.TraceDuration || st.TraceErrored != final.TraceErrored {
			c.Violate("%s: a finished copy has duration %s, errored %v; the trace has %s, %v", what, st.TraceDuration, st.TraceErrored, final.TraceDuration, final.TraceErrored)
		}
		if d := mon.DiffEvents(st.TraceEvents, evs); d != "" {
			c.Violate("%s: a finished copy is not complete: %s", what, d)
		}
		return
	}
	if st.TraceErrored && !final.TraceErrored {
		c.Violate("%s: a copy is errored, the trace is not", what)
	}
	if stream {
		// some one event
		if len(st.TraceEvents) > 1 {
			c.Violate("%s: an active streamed copy has %d events", what, len(st.TraceEvents))
		}
		for _, ev := range st.TraceEvents {
			ok := false
			for _, x := range evs {
				ok = ok || x.What == ev.What && x.When.Equal(ev.When) && x.IsError == ev.IsError
			}
			if !ok {
				c.Violate("%s: a streamed copy has event %q which the trace does not have", what, ev.What)
			}
		}
		return
	}
	if len(st.TraceEvents) > len(evs) {
		c.Violate("%s: an active copy has %d events, in the end there are %d", what, len(st.TraceEvents), len(evs))
		return
	}
	if d := mon.DiffEvents(st.TraceEvents, evs[:len(st.TraceEvents)]); d != "" {
		c.Violate("%s: an active copy is no prefix of the trace: %s", what, d)
	}
}

func c13Filter(c *mon.C) trc.Filter {
	r := c.R
	var f trc.Filter
	switch r.IntN(8) {
	case 0:
		f.IsActive = true
	case 1:
		f.IsFinished = true
	case 2:
		f.IsSuccess = true
	case 3:
		f.IsErrored = true
	case 4:
		d := mon.Pick(r, 0, time.Millisecond, time.Second)
		f.MinDuration = &d
	case 5:
		f.Query = mon.Pick(r, "needle", "hay", "late")
	case 6:
		f = mon.AnyFilter(r, nil)
		f.Sources, f.IDs, f.Category = nil, nil, ""
		if f.Query != "" {
			f.Query = mon.Pick(r, "needle", "hay", "late")
		}
	}
	return f
}

func c13Steps(c *mon.C) {
	r := c.R
	f := c13Filter(c)
	detail := mon.Chance(r, 0.5)
	op := r.IntN(3) // search, publish, multi-search
	action := r.IntN(7)
	pre := r.IntN(4)
	preErr := mon.Chance(r, 0.3)
	after := mon.Chance(r, 0.5)
	sizeN := mon.Pick(r, 1, 3)
	for k := 1; k < 80 && !c.Failed(); k++ {
		_, tr := trc.New(bg, "src", "cat")
		for i := 0; i < pre; i++ {
			tr.Tracef("%s %d", mon.Pick(r, "needle", "hay"), i)
		}
		if preErr {
			tr.LazyErrorf("early error")
		}
		time.Sleep(time.Millisecond)
		h := &hooked{Trace: tr, at: k, after: after}
		h.hook = func() {
			time.Sleep(mon.Pick(r, 0, time.Microsecond, time.Second))
			switch action {
			case 0:
				tr.Tracef("late needle")
			case 1:
				tr.Errorf("late error")
			case 2:
				tr.Finish()
			case 3:
				tr.Tracef("late needle")
				tr.Finish()
			case 4:
				tr.LazyErrorf("late error")
				tr.Finish()
			case 5:
				tr.Tracef("late hay")
				tr.Tracef("late needle")
				tr.Errorf("late error")
			case 6:
				tr.Errorf("late error")
				time.Sleep(time.Second)
				tr.Tracef("late needle")
				tr.Finish()
			}
			time.Sleep(mon.Pick(r, 0, time.Second))
		}
		var x trc.Trace = h
		if detail {
			x = &hookedDetail{h}
		}
		var copies []*trc.StaticTrace
		g := mon.CopyFilter(f)
		switch op {
		case 0, 2:
			coll := trc.NewDefaultCollector()
			coll.SetNewTrace(func(ctx context.Context, _, _ string, _ ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				return trc.Put(ctx, x)
			})
			for i := 0; i < sizeN; i++ {
				if i > 0 {
					coll.SetNewTrace(trc.New)
				}
				coll.NewTrace(bg, "cat")
			}
			h.calls = 0
			var s trc.Searcher = coll
			if op == 2 {
				s = trc.MultiSearcher{coll}
			}
			res, err := s.Search(bg, &trc.SearchRequest{Filter: g})
			if err != nil {
				c.Violate("search: %v", err)
				return
			}
			for _, st := range res.Traces {
				if st.TraceID == tr.ID() {
					copies = append(copies, mon.CopyTrace(st))
				} else {
					checkCopy(c, "search", st, f, nil, false)
				}
			}
		case 1:
			b := trc.NewBroker()
			ctx, cancel := context.WithCancel(bg)
			ch := make(chan trc.Trace, 10)
			done := make(chan struct{})
			go func() { defer close(done); b.Stream(ctx, g, ch) }()
			for {
				if _, err := b.StreamStats(ctx, ch); err == nil {
					break
				}
				time.Sleep(time.Microsecond)
			}
			h.calls = 0
			b.Publish(bg, x)
			cancel()
			<-done
			copies = drain(ch)
		}
		tr.Finish()
		final := mon.CopyTrace(tr)
		for _, st := range copies {
			checkCopy(c, fmt.Sprintf("operation %d (EventsDetail %v), action %d at call %d", op, detail, action, k), st, f, final, op == 1)
			c.Count("copies", 1)
		}
		if !h.fired {
			c.Count("calls_covered", k-1)
			break
		}
		c.Seen(op, k, action, detail, after, mon.JSON(f))
	}
}

func c13Long(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	trc.SetTraceMaxEvents(4000)
	coll := trc.NewDefaultCollector()
	_, tr := coll.NewTrace(bg, "cat")
	n := mon.Pick(r, 500, 1100, 2100, 3000)
	type got struct {
		st      *trc.StaticTrace
		stream  bool
		minimum int
	}
	var gots []got
	take := func(i int) {
		if res, err := coll.Search(bg, &trc.SearchRequest{Filter: trc.Filter{Query: mon.Pick(r, "", "event [0-9]")}}); err != nil || len(res.Traces) != 1 {
			c.Violate("search for a trace with %d events: %v", i, err)
		} else {
			gots = append(gots, got{res.Traces[0], false, i})
		}
		gots = append(gots, got{trc.NewSearchTrace(tr), false, i}, got{trc.NewStreamTrace(tr), true, min(i, 1)})
	}
	for i := 1; i <= n && !c.Failed(); i++ {
		mon.Call(tr, r.IntN(4), "event %d", i)
		if i%(n/3) == 0 {
			take(i)
		}
	}
	tr.Finish()
	take(n)
	final := mon.CopyTrace(tr)
	if len(final.TraceEvents) != n {
		c.Violate("%d events, want %d", len(final.TraceEvents), n)
	}
	for _, g := range gots {
		checkCopy(c, fmt.Sprintf("a trace with %d events", n), g.st, trc.Filter{}, final, g.stream)
		if len(g.st.TraceEvents) < g.minimum {
			c.Violate("a copy of a trace with %d events has %d", g.minimum, len(g.st.TraceEvents))
		}
		c.Count("copies", 1)
	}
	c.Seen(n)
}

func c13Stress(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	n := mon.Range(r, 2, 8)
	trs := make([]trc.Trace, n)
	type got struct {
		st     *trc.StaticTrace
		f      trc.Filter
		stream bool
	}
	var mtx sync.Mutex
	var gots []got
	type subn struct {
		f    trc.Filter
		ch   chan trc.Trace
		stop func() (trc.StreamStats, error)
	}
	var subs []subn
	for k := mon.Range(r, 0, 2); k > 0; k-- {
		f := c13Filter(c)
		ch := make(chan trc.Trace, 5000)
		subs = append(subs, subn{f, ch, subscribe(coll, mon.CopyFilter(f), ch)})
	}
	for i := range trs {
		_, trs[i] = coll.NewTrace(bg, mon.Pick(r, "a", "b"))
	}
	var fns []func()
	for w := 0; w < 3; w++ {
		rr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < 60; i++ {
				tr := trs[rr.IntN(n)]
				switch x := rr.IntN(30); {
				case x < 20:
					mon.Call(tr, rr.IntN(2), "%s %d", mon.Pick(rr, "needle", "hay"), i)
				case x < 23:
					mon.Call(tr, 2+rr.IntN(2), "%s error", mon.Pick(rr, "needle", "hay"))
				case x < 25 && i > 10:
					tr.Finish()
				}
			}
		})
	}
	for w := 0; w < 3; w++ {
		var fs []trc.Filter
		for i := 0; i < 12; i++ {
			fs = append(fs, c13Filter(c))
		}
		fns = append(fns, func() {
			for _, f := range fs {
				res, err := coll.Search(bg, &trc.SearchRequest{Filter: mon.CopyFilter(f), Limit: 100})
				if err != nil {
					c.Violate("search: %v", err)
					return
				}
				mtx.Lock()
				for _, st := range res.Traces {
					gots = append(gots, got{st, f, false})
				}
				mtx.Unlock()
			}
		})
	}
	parallel(fns...)
	finals := map[string]*trc.StaticTrace{}
	for _, tr := range trs {
		tr.Finish()
		finals[tr.ID()] = mon.CopyTrace(tr)
	}
	for _, s := range subs {
		s.stop()
		for _, st := range drain(s.ch) {
			gots = append(gots, got{st, s.f, true})
		}
	}
	active, fin := 0, 0
	for _, g := range gots {
		final := finals[g.st.TraceID]
		if final == nil {
			c.Violate("a copy of an unknown trace")
			return
		}
		checkCopy(c, "stress", g.st, g.f, final, g.stream)
		if g.st.TraceFinished {
			fin++
		} else {
			active++
		}
	}
	c.Count("copies_active", active)
	c.Count("copies_finished", fin)
	c.Seen(active, fin)
}
