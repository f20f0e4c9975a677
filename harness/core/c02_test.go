package core

import (
	"fmt"
	"regexp"
	"strconv"
	"sync/atomic"
	"testing"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

var numberRE = regexp.MustCompile(`[0-9]+`)

// statesCount tells whether the text contains the number, and no other.
func statesCount(text string, n int) bool {
	found := false
	for _, s := range numberRE.FindAllString(text, -1) {
		if v, err := strconv.Atoi(s); err != nil || v != n {
			return false
		}
		found = true
	}
	return found
}

func clampMax(n int) int {
	if n < 10 {
		return 10
	}
	if n > 10000 {
		return 10000
	}
	return n
}

func TestC02(t *testing.T) {
	m := mon.Start(t, "C02")
	defer m.Done()
	m.Rule("model: random histories of global limits, trace creation, per-trace limits, events, finishes and reads over recycled and fresh traces of every kind, against a model of kept events and dropped count; non-trivial: some trace got truncated; distinct by history")
	m.Cases("model", mon.N(400, 60), c02Model)
	m.Rule("clamp: every interesting requested limit, globally and per trace, filled to just below, at and above the clamped limit")
	m.Cases("clamp", mon.N(len(c02Limits)*2, len(c02Limits)*2), c02Clamp)
	m.Rule("conc: writers racing over the limit with concurrent readers; non-trivial: truncated; distinct by interleaving of kept events")
	m.Cases("conc", mon.N(200, 80), c02Concurrent)
}

var c02Limits = []int{-1 << 60, -10001, -1, 0, 1, 9, 10, 11, 12, 31, 100, 999, 1000, 1001, 9999, 10000, 10001, 1 << 31, 1<<32 + 50, 1 << 60}

type c02Trace struct {
	tr       trc.Trace
	limit    int
	kept     []trc.Event
	dropped  int
	errored  bool
	finished bool
}

func (x *c02Trace) add(method int, text string) {
	mon.Call(x.tr, method, "%s", text)
	if x.finished {
		return
	}
	if mon.IsErr(method) {
		x.errored = true
	}
	if len(x.kept) >= x.limit {
		x.dropped++
	} else {
		x.kept = append(x.kept, trc.Event{What: text, IsError: mon.IsErr(method)})
	}
}

func (x *c02Trace) check(c *mon.C, name string) {
	checkTruncated(c, name, x.tr.Events(), x.kept, x.dropped, x.limit)
	if got := x.tr.Errored(); got != x.errored {
		c.Violate("%s: errored %v, want %v (kept %d, dropped %d)", name, got, x.errored, len(x.kept), x.dropped)
	}
}

func checkTruncated(c *mon.C, name string, events, kept []trc.Event, dropped, limit int) {
	want := len(kept)
	if dropped > 0 {
		want++
	}
	if len(events) != want {
		c.Violate("%s: %d events visible, want %d (limit %d, kept %d, dropped %d)", name, len(events), want, limit, len(kept), dropped)
		return
	}
	for i := range kept {
		if events[i].What != kept[i].What || events[i].IsError != kept[i].IsError {
			c.Violate("%s: event %d is %q (error %v), want %q (error %v); limit %d, kept %d, dropped %d", name, i, events[i].What, events[i].IsError, kept[i].What, kept[i].IsError, limit, len(kept), dropped)
			return
		}
	}
	if dropped > 0 {
		last := events[len(events)-1]
		if last.IsError {
			c.Violate("%s: the final event about truncation is an error event", name)
		}
		if !statesCount(last.What, dropped) {
			c.Violate("%s: final event %q does not state that %d events were not kept", name, last.What, dropped)
		}
	}
	c.Count("truncation_checks", 1)
}

func c02Model(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	if mon.Chance(r, 0.7) {
		mon.Dirty(r)
	}
	s := mon.AnySetup(r)
	if mon.Chance(r, 0.4) {
		// only these have limits of their own
		s = &mon.Setup{Name: "New", Make: func(cat string) trc.Trace { _, tr := trc.New(bg, "src", cat); return tr }, Stop: func() {}}
	}
	defer s.Stop()
	global := 1000
	var trs []*c02Trace
	hist := s.Name
	truncated := false
	recycles := s.Name == "small collector" || s.Name == "collector+subscriber"
	for k := mon.Range(r, 10, 60); k > 0 && !c.Failed(); k-- {
		switch op := r.IntN(20); {
		case op < 3 || len(trs) == 0:
			if mon.Chance(r, 0.7) {
				global = mon.Pick(r, 5, 10, 11, 13, 20, 30, 1000)
				trc.SetTraceMaxEvents(global)
				global = clampMax(global)
			}
			trs = append(trs, &c02Trace{tr: s.Make("cat"), limit: global})
			hist += fmt.Sprintf(";new%d", global)
		case op < 5:
			global = clampMax(mon.Pick(r, 0, 10, 12, 15, 25))
			trc.SetTraceMaxEvents(global)
		case op < 7:
			x := trs[r.IntN(len(trs))]
			n := mon.Pick(r, -3, 0, 9, 10, 11, 14, 20, 40, len(x.kept)-1, len(x.kept), len(x.kept)+1, len(x.kept)+3, x.limit-1)
			got, ok := trc.SetMaxEvents(x.tr, n)
			if got != x.tr {
				c.Violate("SetMaxEvents returned another trace")
			}
			if !ok && s.Name == "New" {
				c.Violate("SetMaxEvents reports failure on a plain trace")
			}
			if ok {
				x.limit = clampMax(n)
				hist += fmt.Sprintf(";set%d", n)
			}
		case op < 8:
			x := trs[r.IntN(len(trs))]
			if !recycles {
				x.tr.Finish()
				x.finished = true
				hist += ";fin"
			}
		case op < 10:
			trs[r.IntN(len(trs))].check(c, s.Name)
		default:
			x := trs[r.IntN(len(trs))]
			n := mon.Pick(r, 1, 2, 5, 12)
			perr := 0.3
			if mon.Chance(r, 0.05) {
				n, perr = mon.Pick(r, 70, 130, 300), 0 // far beyond, without an error
			}
			for i := 0; i < n; i++ {
				m := mon.Tracef
				if perr > 0 && (mon.Chance(r, 0.1) || (len(x.kept) >= x.limit && mon.Chance(r, perr))) {
					m = mon.Errorf
				}
				m += r.IntN(2)
				x.add(m, mon.Token("t"))
				c.Count("event_calls", 1)
			}
			hist += fmt.Sprintf(";ev%d", n)
		}
	}
	for _, x := range trs {
		x.check(c, s.Name)
		st := trc.NewSearchTrace(x.tr)
		checkTruncated(c, s.Name+" search copy", st.TraceEvents, x.kept, x.dropped, x.limit)
		x.check(c, s.Name)
		truncated = truncated || x.dropped > 0
	}
	if truncated {
		c.Seen(hist)
		c.Sample("%s", hist)
	}
}

func c02Clamp(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	n := c02Limits[c.Index%len(c02Limits)]
	var tr trc.Trace
	perTrace := (c.Index/len(c02Limits))%2 == 1
	if perTrace {
		_, tr = trc.New(bg, "s", "c")
		if _, ok := trc.SetMaxEvents(tr, n); !ok {
			c.Violate("SetMaxEvents does not work on a plain trace")
		}
		// another trace is not affected
		_, other := trc.New(bg, "s", "c")
		x := &c02Trace{tr: other, limit: 1000}
		for i := 0; i < 1003; i++ {
			x.add(0, "other")
		}
		x.check(c, "other trace after a per-trace limit")
	} else {
		_, before := trc.New(bg, "s", "c")
		trc.SetTraceMaxEvents(n)
		_, tr = trc.New(bg, "s", "c")
		x := &c02Trace{tr: before, limit: 1000}
		for i := 0; i < 1002; i++ {
			x.add(0, "before")
		}
		x.check(c, "trace created before the global limit")
	}
	name := fmt.Sprintf("requested limit %d", n)
	x := &c02Trace{tr: tr, limit: clampMax(n)}
	for i := 0; i < x.limit+mon.Range(r, 2, 5); i++ {
		m := r.IntN(2)
		if i == x.limit+1 {
			m = mon.Errorf
		}
		x.add(m, fmt.Sprintf("event-%d", i))
		if i >= x.limit-2 && i <= x.limit+3 {
			x.check(c, name)
		}
	}
	x.check(c, name)
	if n == 12 || n == 1000 {
		_, tr := trc.New(bg, "s", "c") // has the global limit n, or gets its own
		if perTrace {
			trc.SetMaxEvents(tr, n)
		}
		y := &c02Trace{tr: tr, limit: n}
		for _, upTo := range []int{300, 1100, 33000, 66000, 131080} {
			for y.dropped < upTo {
				y.add(r.IntN(2), "far beyond")
			}
			y.check(c, name)
			c.Count("event_calls", upTo)
		}
		y.add(mon.LazyErrorf, "error far beyond")
		y.check(c, name)
		y.tr.Finish()
		y.finished = true
		y.add(mon.Errorf, "after the end")
		y.check(c, name)
	}
	c.Seen(n, perTrace)
	c.Sample("%s (per trace %v): %d kept, %d dropped", name, perTrace, len(x.kept), x.dropped)
}

func c02Concurrent(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	limit := mon.Range(r, 10, 40)
	trc.SetTraceMaxEvents(limit)
	s := mon.AnySetup(r)
	defer s.Stop()
	tr := s.Make("conc")
	trc.SetTraceMaxEvents(1000)
	writers := mon.Range(r, 2, 6)
	k := mon.Range(r, limit/writers-1, limit/writers+6)
	if k < 1 {
		k = 1
	}
	errAt := r.IntN(writers*k + 1)
	recs := make([][]rec, writers)
	reads := make([][]read, 2)
	var left atomic.Int32
	left.Store(int32(writers))
	var fns []func()
	for w := 0; w < writers; w++ {
		wr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < k; i++ {
				x := rec{who: w, text: mon.Token("e"), method: wr.IntN(2)}
				if w*k+i == errAt {
					x.method += 2
				}
				x.start = mono()
				mon.Call(tr, x.method, "%s", x.text)
				x.end = mono()
				recs[w] = append(recs[w], x)
			}
			left.Add(-1)
		})
	}
	for i := range reads {
		fns = append(fns, func() {
			for n := 0; n < 40 && left.Load() > 0; n++ {
				rd := read{start: mono()}
				rd.events = tr.Events()
				rd.end = mono()
				reads[i] = append(reads[i], rd)
			}
		})
	}
	parallel(fns...)
	var all []rec
	byText := map[string]rec{}
	for _, x := range recs {
		all = append(all, x...)
		for _, y := range x {
			byText[y.text] = y
		}
	}
	final := tr.Events()
	nkept, ndropped := len(all), 0
	if nkept > limit {
		nkept, ndropped = limit, len(all)-limit
	}
	want := nkept
	if ndropped > 0 {
		want++
	}
	if len(final) != want {
		c.Violate("%s: limit %d, %d concurrent events: %d visible, want %d", s.Name, limit, len(all), len(final), want)
		return
	}
	if ndropped > 0 && (final[nkept].IsError || !statesCount(final[nkept].What, ndropped)) {
		c.Violate("%s: final event %q (error %v), but %d of %d events were not kept", s.Name, final[nkept].What, final[nkept].IsError, ndropped, len(all))
	}
	kept := map[string]bool{}
	order := ""
	var lastStart int64
	for _, ev := range final[:nkept] {
		x, ok := byText[ev.What]
		if !ok || kept[ev.What] || ev.IsError != mon.IsErr(x.method) {
			c.Violate("%s: unexpected or repeated event %q", s.Name, ev.What)
			return
		}
		kept[ev.What] = true
		order += string(rune('a' + x.who))
		if x.start > lastStart {
			lastStart = x.start
		}
	}
	for _, x := range all {
		if !kept[x.text] && x.end < lastStart {
			c.Violate("%s: event %q was not kept although a later one was", s.Name, x.text)
		}
	}
	if wantErr := errAt < len(all); tr.Errored() != wantErr {
		c.Violate("%s: errored %v, want %v (kept %d, dropped %d)", s.Name, tr.Errored(), wantErr, nkept, ndropped)
	}
	for _, rs := range reads {
		for _, rd := range rs {
			n := len(rd.events)
			if n > limit {
				// truncated: its count must be consistent with the interval
				lo, hi := 0, 0
				for _, x := range all {
					if x.end < rd.start {
						lo++
					}
					if x.start <= rd.end {
						hi++
					}
				}
				ok := false
				for d := lo - limit; d <= hi-limit; d++ {
					ok = ok || (d > 0 && statesCount(rd.events[n-1].What, d))
				}
				if !ok {
					c.Violate("%s: a read states %q, but between %d and %d events had been added to a trace with limit %d", s.Name, rd.events[n-1].What, lo, hi, limit)
				}
				n = limit
			}
			for i := 0; i < n; i++ {
				if rd.events[i].What != final[i].What {
					c.Violate("%s: a read saw event %d as %q, in the end it is %q", s.Name, i, rd.events[i].What, final[i].What)
					break
				}
			}
		}
	}
	if ndropped > 0 {
		c.Seen(limit, order)
	}
	c.Count("event_calls", len(all))
	c.Count("concurrent_reads", len(reads[0])+len(reads[1]))
	c.Sample("%s: limit %d, %d events by %d writers, kept order %s", s.Name, limit, len(all), writers, order)
}
