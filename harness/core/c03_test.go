package core

import (
	"fmt"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC03(t *testing.T) {
	m := mon.Start(t, "C03")
	defer m.Done()
	m.Rule("seq: random programs before and after Finish on virtual time, on traces of every kind incl. recycled and truncated ones: exact duration, errored iff an error event was added before, everything unchanged by any later call or passing of time; distinct by program")
	m.Bubbles("seq", mon.N(400, 60), c03Sequential)
	m.Rule("conc: 1-4 writers and 1-4 finishers racing on one trace with readers: a linearization point of Finish must exist between included and excluded calls; non-trivial: some call was included and some excluded; distinct by included interleaving")
	m.Cases("conc", mon.N(400, 200), c03Concurrent)
}

func c03Sequential(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	if mon.Chance(r, 0.7) {
		mon.Dirty(r)
	}
	if mon.Chance(r, 0.4) {
		trc.SetTraceMaxEvents(10)
	}
	s := mon.AnySetup(r)
	defer s.Stop()
	start := time.Now()
	tr := s.Make("cat")
	prog := s.Name
	errored, n := false, 0
	step := func() {
		if mon.Chance(r, 0.6) {
			time.Sleep(mon.Pick(r, time.Duration(r.IntN(1000)), time.Duration(r.Int64N(int64(time.Hour))), 1))
		}
	}
	act := func(live bool) {
		switch op := r.IntN(12); {
		case op < 7:
			m := r.IntN(4)
			if !mon.Chance(r, 0.3) {
				m = r.IntN(2)
			}
			switch r.IntN(8) {
			case 0:
				mon.Call(tr, m, "")
			case 1:
				mon.Call(tr, m, "%s", "")
			case 2:
				mon.Call(tr, m, "no arguments")
			default:
				mon.Call(tr, m, "%s", mon.Token("e"))
			}
			if live {
				n++
				errored = errored || mon.IsErr(m)
			}
			prog += fmt.Sprintf(";%d", m)
		case op < 8:
			trc.SetMaxEvents(tr, mon.Pick(r, 1, 10, 20, 10000))
		case op < 9:
			tr.Events()
		case op < 10:
			trc.NewSearchTrace(tr)
		case op < 11:
			trc.NewStreamTrace(tr)
		default:
			if !live {
				tr.Finish()
				prog += ";fin"
			}
		}
	}
	k := r.IntN(25)
	if mon.Chance(r, 0.06) {
		k = mon.Pick(r, 150, 400) // a long one
	}
	for ; k > 0; k-- {
		step()
		act(true)
		if d := tr.Duration(); d != time.Since(start) {
			c.Violate("%s: active trace has duration %s after %s", s.Name, d, time.Since(start))
		}
		if tr.Finished() {
			c.Violate("%s: trace is finished before Finish", s.Name)
		}
		if tr.Errored() != errored {
			c.Violate("%s: active trace errored %v, want %v", s.Name, tr.Errored(), errored)
		}
	}
	step()
	prog += ";FINISH"
	before := mon.CopyEvents(tr.Events())
	tr.Finish()
	took := time.Since(start)
	step()
	want := mon.CopyTrace(tr)
	if want.TraceDuration != took {
		c.Violate("%s: finished after %s, but duration is %s", s.Name, took, want.TraceDuration)
	}
	if !want.TraceFinished {
		c.Violate("%s: not finished after Finish", s.Name)
	}
	if want.TraceErrored != errored {
		c.Violate("%s: errored %v after Finish, want %v", s.Name, want.TraceErrored, errored)
	}
	if d := mon.DiffEvents(want.TraceEvents, before); d != "" {
		c.Violate("%s: Finish changed the events: %s", s.Name, d)
	}
	for k := mon.Range(r, 3, 30); k > 0 && !c.Failed(); k-- {
		step()
		act(false)
		if mon.Chance(r, 0.4) {
			if d := mon.DiffTraces(mon.CopyTrace(tr), want); d != "" {
				c.Violate("%s: a finished trace changed: %s", s.Name, d)
			}
			c.Count("post_finish_comparisons", 1)
		}
	}
	if d := mon.DiffTraces(mon.CopyTrace(tr), want); d != "" {
		c.Violate("%s: a finished trace changed: %s", s.Name, d)
	}
	for _, cp := range []*trc.StaticTrace{trc.NewSearchTrace(tr)} {
		if d := mon.DiffTraces(cp, want); d != "" {
			c.Violate("%s: the search copy of a finished trace differs: %s", s.Name, d)
		}
	}
	c.Seen(prog)
	c.Sample("%s (took %s)", prog, took)
}

func c03Concurrent(c *mon.C) {
	r := c.R
	s := mon.AnySetup(r)
	defer s.Stop()
	before := mono()
	tr := s.Make("cat")
	created := mono()
	writers, finishers, readers := mon.Range(r, 1, 4), mon.Range(r, 1, 4), mon.Range(r, 1, 2)
	k := mon.Range(r, 3, 25)
	recs := make([][]rec, writers)
	type fin struct {
		start, end int64
		after      *trc.StaticTrace
	}
	fins := make([]fin, finishers)
	type obs struct {
		start, end int64
		finished   bool
		errored    bool
		errEvent   bool
		dur        time.Duration
		mid        int64
		n          int
	}
	seen := make([][]obs, readers)
	var fns []func()
	for w := 0; w < writers; w++ {
		wr := sub(r)
		errs := mon.Chance(wr, 0.5)
		fns = append(fns, func() {
			for i := 0; i < k; i++ {
				x := rec{who: w, text: mon.Token("e"), method: wr.IntN(2)}
				if errs && wr.IntN(4) == 0 {
					x.method += 2
				}
				x.start = mono()
				mon.Call(tr, x.method, "%s", x.text)
				x.end = mono()
				recs[w] = append(recs[w], x)
			}
		})
	}
	for i := range fins {
		spin := r.IntN(3000)
		fns = append(fns, func() {
			for b := mono(); mono()-b < int64(spin)*10; {
			}
			fins[i].start = mono()
			tr.Finish()
			fins[i].end = mono()
			fins[i].after = mon.CopyTrace(tr)
		})
	}
	for i := range seen {
		fns = append(fns, func() {
			for n := 0; n < 30; n++ {
				o := obs{start: mono()}
				o.finished = tr.Finished()
				o.mid = mono()
				o.dur = tr.Duration()
				evs := tr.Events()
				for _, ev := range evs {
					o.errEvent = o.errEvent || ev.IsError
				}
				o.n = len(evs)
				o.errored = tr.Errored()
				o.end = mono()
				seen[i] = append(seen[i], o)
			}
		})
	}
	parallel(fns...)
	final := mon.CopyTrace(tr)
	if !final.TraceFinished {
		c.Violate("%s: not finished", s.Name)
	}
	in := map[string]bool{}
	anyErr := false
	for _, ev := range final.TraceEvents {
		if in[ev.What] {
			c.Violate("%s: event %q twice", s.Name, ev.What)
		}
		in[ev.What] = true
		anyErr = anyErr || ev.IsError
	}
	if final.TraceErrored != anyErr {
		c.Violate("%s: errored %v, but an error event is included: %v", s.Name, final.TraceErrored, anyErr)
	}
	lo, hi := int64(1<<62), int64(1<<62)
	for _, f := range fins {
		lo, hi = min(lo, f.start), min(hi, f.end)
		if d := mon.DiffTraces(f.after, final); d != "" {
			c.Violate("%s: after a Finish had returned the trace changed: %s", s.Name, d)
		}
	}
	// the point of the first Finish lies in (p, q)
	p, q := lo, hi
	nin, nout := 0, 0
	order := ""
	for _, rs := range recs {
		for _, x := range rs {
			if in[x.text] {
				nin++
				p = max(p, x.start)
				if x.start > hi {
					c.Violate("%s: event %q was added %dns after Finish had returned, but is included", s.Name, x.text, x.start-hi)
				}
			} else {
				nout++
				q = min(q, x.end)
				if x.end < lo {
					c.Violate("%s: event %q was added %dns before the first Finish was called, but is missing", s.Name, x.text, lo-x.end)
				}
			}
		}
	}
	if p > q && !c.Failed() {
		c.Violate("%s: no single point in time at which the trace finished explains which events are included (%d) and which are not (%d)", s.Name, nin, nout)
	}
	if len(final.TraceEvents) != nin {
		c.Violate("%s: %d events, %d of them known", s.Name, len(final.TraceEvents), nin)
	}
	// duration between start of trace and first finish
	if d := int64(final.TraceDuration); d < p-created || d > q-before {
		c.Violate("%s: duration %dns, but it finished between %dns and %dns after its start", s.Name, d, p-created, q-before)
	}
	for _, os := range seen {
		was := false
		for _, o := range os {
			if was && !o.finished {
				c.Violate("%s: finished, then not finished", s.Name)
			}
			was = was || o.finished
			if o.finished && o.start < lo && o.end < lo {
				c.Violate("%s: finished before any Finish", s.Name)
			}
			if !o.finished && o.start > hi {
				c.Violate("%s: not finished after Finish returned", s.Name)
			}
			if o.finished && (o.dur != final.TraceDuration || o.n != len(final.TraceEvents) || o.errored != final.TraceErrored) {
				c.Violate("%s: read as finished with duration %s, %d events, errored %v; later %s, %d, %v", s.Name, o.dur, o.n, o.errored, final.TraceDuration, len(final.TraceEvents), final.TraceErrored)
			}
			if o.errEvent && !o.errored {
				c.Violate("%s: an error event was read, but the trace was not errored afterwards", s.Name)
			}
		}
	}
	for _, ev := range final.TraceEvents {
		for w := range recs {
			for _, x := range recs[w] {
				if x.text == ev.What {
					order += string(rune('a' + w))
				}
			}
		}
	}
	if nin > 0 && nout > 0 {
		c.Seen(order, nout)
	}
	c.Count("events_included", nin)
	c.Count("events_excluded", nout)
	c.Sample("%s: %d writers, %d finishers, included %s, %d calls excluded", s.Name, writers, finishers, order, nout)
}
