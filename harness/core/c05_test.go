package core

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC05(t *testing.T) {
	m := mon.Start(t, "C05")
	defer m.Done()
	m.Rule("seq: random histories of creating, writing, finishing, resizing and snapshotting in collectors that hold 1-4 traces per category, with all handles and snapshots retained and re-checked; late calls on dropped traces; distinct by history")
	m.Cases("seq", mon.N(300, 80), c05Sequential)
	m.Rule("hours: the same on virtual time with hours between the steps; distinct by history")
	m.Bubbles("hours", mon.N(300, 60), func(c *mon.C) { c05History(c, true) })
	m.Rule("conc: several goroutines do the same concurrently on each other's traces, with searches and a subscriber; every text carries the mark of its trace; distinct by number of drops and snapshots")
	m.Cases("conc", mon.N(120, 60), c05Concurrent)
}

type c05Handle struct {
	tr       trc.Trace
	mark     string
	meta     *trc.StaticTrace // ID, source, category, start
	events   []trc.Event      // own, in order
	finished bool
	errored  bool
	stacks   bool
	final    *trc.StaticTrace
}

type c05Snap struct {
	what string
	live []trc.Event
	st   *trc.StaticTrace
	copy []trc.Event
	stcp *trc.StaticTrace
}

func (s *c05Snap) check(c *mon.C) {
	if s.st != nil {
		if d := mon.DiffTraces(s.st, s.stcp); d != "" {
			c.Violate("%s obtained earlier changed: %s", s.what, d)
		}
		return
	}
	if d := mon.DiffEvents(s.live, s.copy); d != "" {
		c.Violate("%s obtained earlier changed: %s", s.what, d)
	}
}

func (h *c05Handle) check(c *mon.C) {
	tr := h.tr
	if tr.ID() != h.meta.TraceID || tr.Source() != h.meta.TraceSource || tr.Category() != h.meta.TraceCategory || !tr.Started().Equal(h.meta.TraceStarted) {
		c.Violate("a held trace %s/%s/%s now reads %s/%s/%s", h.meta.TraceID, h.meta.TraceSource, h.meta.TraceCategory, tr.ID(), tr.Source(), tr.Category())
	}
	if tr.Finished() != h.finished {
		c.Violate("trace %s: finished %v, want %v", h.mark, tr.Finished(), h.finished)
	}
	if tr.Errored() != h.errored {
		c.Violate("trace %s: errored %v, want %v", h.mark, tr.Errored(), h.errored)
	}
	if h.finished && tr.Duration() != h.final.TraceDuration {
		c.Violate("trace %s: duration %s, was %s", h.mark, tr.Duration(), h.final.TraceDuration)
	}
	evs := tr.Events()
	for _, ev := range evs {
		if !strings.Contains(ev.What, h.mark) {
			c.Violate("trace %s shows event %q of another trace", h.mark, ev.What)
		}
	}
	if !h.finished || len(evs) > 0 {
		// active: complete. finished: complete or, once dropped, given up.
		if len(evs) != len(h.events) {
			c.Violate("trace %s (finished %v): %d events, want %d", h.mark, h.finished, len(evs), len(h.events))
			return
		}
		for i := range evs {
			if evs[i].What != h.events[i].What || evs[i].IsError != h.events[i].IsError {
				c.Violate("trace %s: event %d is %q, want %q", h.mark, i, evs[i].What, h.events[i].What)
			}
		}
		if d := mon.DiffEvents(evs, h.events); d != "" {
			c.Violate("trace %s (stacks %v): %s", h.mark, h.stacks, d)
		}
	}
}

func c05Sequential(c *mon.C) { c05History(c, false) }

func c05History(c *mon.C, virtual bool) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: mon.Pick(r, "s1", "s2")})
	size := mon.Range(r, 1, 4)
	coll.SetCategorySize(size)
	switch r.IntN(3) {
	case 0:
		coll.SetDecorators(mon.Passthrough)
	case 1:
		coll.SetDecorators(trc.LogDecorator(discard{}))
	}
	ch := make(chan trc.Trace, 4000)
	if mon.Chance(r, 0.6) {
		stop := subscribe(coll, trc.Filter{}, ch)
		defer stop()
	}
	var hs []*c05Handle
	var snaps []*c05Snap
	byID := map[string]*c05Handle{}
	hist := fmt.Sprintf("size%d", size)
	deep := func(n int, fn func()) { recurse(n, fn) }
	heavy := c.Index%40 == 3 // many long traces
	if heavy {
		hist += "heavy"
	}
	for k := mon.Range(r, 20, 90); k > 0 && !c.Failed(); k-- {
		if virtual && mon.Chance(r, 0.2) {
			time.Sleep(mon.Pick(r, time.Minute, time.Duration(r.Int64N(int64(3*time.Hour))), 48*time.Hour))
			hist += "t"
		}
		switch op := r.IntN(20); {
		case op < 5 || len(hs) == 0:
			h := &c05Handle{mark: mon.Token("T"), stacks: mon.Chance(r, 0.75)}
			trc.SetTraceStacks(h.stacks)
			_, h.tr = coll.NewTrace(bg, mon.Pick(r, "x", "y"))
			trc.SetTraceStacks(true)
			h.meta = &trc.StaticTrace{TraceID: h.tr.ID(), TraceSource: h.tr.Source(), TraceCategory: h.tr.Category(), TraceStarted: h.tr.Started()}
			if byID[h.meta.TraceID] != nil {
				c.Violate("ID %s used twice", h.meta.TraceID)
			}
			byID[h.meta.TraceID] = h
			hs = append(hs, h)
			hist += "n"
		case op < 11:
			// recent or stale
			h := hs[len(hs)-1-r.IntN(min(len(hs), mon.Pick(r, 2, 5, 100)))]
			n := mon.Pick(r, 1, 1, 3, 8)
			if mon.Chance(r, 0.02) || heavy && mon.Chance(r, 0.5) {
				n = mon.Pick(r, 70, 200, 300)
				n = min(n, 990-len(h.events))
			}
			for i := 0; i < n; i++ {
				m := r.IntN(4)
				if !mon.Chance(r, 0.2) {
					m = r.IntN(2)
				}
				text := fmt.Sprintf("%s e%d", h.mark, len(h.events))
				if mon.Chance(r, 0.3) {
					text += strings.Repeat("x", r.IntN(200))
				}
				t0 := time.Now()
				deep(r.IntN(5), func() { mon.Call(h.tr, m, "%s", text) })
				t1 := time.Now()
				if !h.finished {
					h.errored = h.errored || mon.IsErr(m)
					want := trc.Event{What: text, IsError: mon.IsErr(m)}
					// The time and stack are taken from a read right after the
					// call, within what they can be.
					if evs := h.tr.Events(); len(evs) == len(h.events)+1 {
						last := mon.CopyEvents(evs[len(evs)-1:])[0]
						if last.When.Before(t0) || last.When.After(t1) {
							c.Violate("trace %s: event of %s has time %s", h.mark, t0, last.When)
						}
						if h.stacks != (len(last.Stack) > 0) || h.stacks && !strings.HasSuffix(last.Stack[0].Function, "mon.Call") {
							c.Violate("trace %s (stacks %v): event %q has stack %v", h.mark, h.stacks, text, last.Stack)
						}
						want.When, want.Stack = last.When, last.Stack
					} else {
						c.Violate("trace %s: %d events after adding one to %d", h.mark, len(evs), len(h.events))
					}
					h.events = append(h.events, want)
				}
			}
			hist += "e"
		case op < 14:
			h := hs[len(hs)-1-r.IntN(min(len(hs), 6))]
			h.tr.Finish()
			if !h.finished {
				h.finished = true
				h.final = mon.CopyTrace(h.tr)
			}
			hist += "f"
		case op < 16:
			h := hs[len(hs)-1-r.IntN(min(len(hs), 4))]
			switch r.IntN(4) {
			case 3: // what a reader does to its own list is its own business
				evs := mon.Pick(r, h.tr.Events(), trc.NewSearchTrace(h.tr).TraceEvents, trc.NewStreamTrace(h.tr).TraceEvents)
				for i := range evs {
					evs[i] = trc.Event{What: "scribbled", IsError: true}
				}
			case 0:
				evs := h.tr.Events()
				snaps = append(snaps, &c05Snap{what: "event list", live: evs, copy: mon.CopyEvents(evs)})
			case 1:
				st := trc.NewSearchTrace(h.tr)
				snaps = append(snaps, &c05Snap{what: "search copy", st: st, stcp: mon.CopyTrace(st)})
			default:
				st := trc.NewStreamTrace(h.tr)
				snaps = append(snaps, &c05Snap{what: "stream copy", st: st, stcp: mon.CopyTrace(st)})
			}
			hist += "s"
		case op < 18:
			res, err := coll.Search(bg, &trc.SearchRequest{Limit: 100, StackDepth: mon.Pick(r, 0, 0, 1, -1)})
			if err != nil {
				c.Violate("search: %v", err)
				break
			}
			for _, st := range res.Traces {
				snaps = append(snaps, &c05Snap{what: "search result", st: st, stcp: mon.CopyTrace(st)})
				h := byID[st.TraceID]
				if h == nil {
					c.Violate("search found trace %s, which nobody created", st.TraceID)
					continue
				}
				for _, ev := range st.TraceEvents {
					if !strings.Contains(ev.What, h.mark) {
						c.Violate("search result %s contains event %q of another trace", h.mark, ev.What)
					}
				}
				if len(st.TraceEvents) != len(h.events) {
					c.Violate("search result %s has %d events, want %d", h.mark, len(st.TraceEvents), len(h.events))
				}
			}
			hist += "q"
		case op < 19:
			size = mon.Range(r, 1, 5)
			coll.SetCategorySize(size)
			hist += fmt.Sprintf("r%d", size)
		default:
			for len(ch) > 0 {
				tr := <-ch
				st := tr.(*trc.StaticTrace)
				snaps = append(snaps, &c05Snap{what: "streamed trace", st: st, stcp: mon.CopyTrace(st)})
				if h := byID[st.TraceID]; h != nil {
					for _, ev := range st.TraceEvents {
						if !strings.Contains(ev.What, h.mark) {
							c.Violate("streamed trace %s contains event %q of another trace", h.mark, ev.What)
						}
					}
				}
			}
		}
		if mon.Chance(r, 0.2) {
			hs[r.IntN(len(hs))].check(c)
		}
	}
	for _, h := range hs {
		h.check(c)
	}
	for _, s := range snaps {
		s.check(c)
	}
	c.Count("traces_created", len(hs))
	c.Count("snapshots_rechecked", len(snaps))
	c.Seen(hist)
	c.Sample("%s: %d traces, %d snapshots", hist, len(hs), len(snaps))
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

//go:noinline
func recurse(n int, fn func()) {
	if n > 0 {
		recurse(n-1, fn)
		return
	}
	fn()
}

func c05Concurrent(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: "conc"}).SetCategorySize(mon.Range(r, 1, 4))
	ch := make(chan trc.Trace, 20000)
	stop := subscribe(coll, trc.Filter{}, ch)
	var mtx sync.Mutex
	marks := map[string]string{} // ID -> mark
	goroutines, rounds := mon.Range(r, 2, 5), mon.Range(r, 10, 30)
	exchange := make(chan *c05Handle, 64) // handles passed on to others
	snaps := make([][]*c05Snap, goroutines+1)
	var fns []func()
	for g := 0; g < goroutines; g++ {
		gr := sub(r)
		fns = append(fns, func() {
			var own []*c05Handle
			for i := 0; i < rounds; i++ {
				h := &c05Handle{mark: mon.Token("T")}
				_, h.tr = coll.NewTrace(bg, mon.Pick(gr, "x", "y"))
				h.meta = &trc.StaticTrace{TraceID: h.tr.ID(), TraceSource: h.tr.Source(), TraceCategory: h.tr.Category(), TraceStarted: h.tr.Started()}
				mtx.Lock()
				if marks[h.meta.TraceID] != "" {
					c.Violate("ID %s used twice", h.meta.TraceID)
				}
				marks[h.meta.TraceID] = h.mark
				mtx.Unlock()
				own = append(own, h)
				for k := gr.IntN(5); k > 0; k-- {
					mon.Call(h.tr, gr.IntN(4), "%s %d", h.mark, k)
				}
				if mon.Chance(gr, 0.3) {
					evs := h.tr.Events()
					snaps[g] = append(snaps[g], &c05Snap{what: "event list", live: evs, copy: mon.CopyEvents(evs)})
				}
				if mon.Chance(gr, 0.7) {
					h.tr.Finish()
				}
				select {
				case exchange <- h:
				default:
				}
				select {
				case o := <-exchange: // late calls on somebody's trace
					mon.Call(o.tr, gr.IntN(4), "%s late", o.mark)
					if mon.Chance(gr, 0.5) {
						o.tr.Finish()
					}
					mon.Call(o.tr, gr.IntN(4), "%s later", o.mark)
				default:
				}
				o := own[gr.IntN(len(own))]
				if o.tr.ID() != o.meta.TraceID || o.tr.Category() != o.meta.TraceCategory || !o.tr.Started().Equal(o.meta.TraceStarted) {
					c.Violate("a held trace changed its identity from %s to %s", o.meta.TraceID, o.tr.ID())
				}
				for _, ev := range o.tr.Events() {
					if !strings.Contains(ev.What, o.mark) {
						c.Violate("trace %s shows event %q of another trace", o.mark, ev.What)
					}
				}
			}
			for _, o := range own {
				for _, ev := range o.tr.Events() {
					if !strings.Contains(ev.What, o.mark) {
						c.Violate("trace %s shows event %q of another trace", o.mark, ev.What)
					}
				}
			}
		})
	}
	qr := sub(r)
	fns = append(fns, func() {
		for i := 0; i < 40; i++ {
			res, _ := coll.Search(bg, &trc.SearchRequest{Limit: 50})
			for _, st := range res.Traces {
				snaps[goroutines] = append(snaps[goroutines], &c05Snap{what: "search result", st: st, stcp: mon.CopyTrace(st)})
			}
			if mon.Chance(qr, 0.2) {
				coll.SetCategorySize(mon.Range(qr, 1, 4))
			}
		}
	})
	parallel(fns...)
	stop()
	close(ch)
	n := 0
	judge := func(what string, st *trc.StaticTrace) {
		mark, ok := marks[st.TraceID]
		if !ok {
			c.Violate("%s of trace %s, which nobody created", what, st.TraceID)
			return
		}
		for _, ev := range st.TraceEvents {
			n++
			if !strings.Contains(ev.What, mark) {
				c.Violate("%s of trace %s contains event %q of another trace", what, mark, ev.What)
			}
		}
	}
	msgs := 0
	for tr := range ch {
		msgs++
		judge("streamed copy", tr.(*trc.StaticTrace))
	}
	total := 0
	for _, ss := range snaps {
		for _, s := range ss {
			s.check(c)
			if s.st != nil {
				judge("search result", s.st)
			}
			total++
		}
	}
	c.Count("traces_created", len(marks))
	c.Count("snapshots_rechecked", total)
	c.Count("streamed_messages", msgs)
	c.Count("events_attributed", n)
	c.Seen(len(marks), total, msgs, n)
	c.Sample("%d goroutines: %d traces, %d snapshots re-checked, %d streamed messages, %d events attributed", goroutines, len(marks), total, msgs, n)
}
