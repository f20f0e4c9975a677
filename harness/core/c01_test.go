package core

import (
	"fmt"
	"reflect"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC01(t *testing.T) {
	m := mon.Start(t, "C01")
	defer m.Done()

	m.Rule("seq: random programs of event calls (all methods, hostile formats and arguments) on 1-4 traces of every kind on virtual time; every read is compared with the model; non-trivial: at least 5 events; distinct by program")
	m.Bubbles("seq", mon.N(250, 40), c01Sequential)
	m.Rule("conc: 2-6 writers and 1-3 readers on one trace; non-trivial: the writers really interleaved; distinct by observed interleaving")
	m.Cases("conc", mon.N(250, 110), c01Concurrent)
	m.Rule("multi: goroutines with own and shared traces in a small collector that drops and recycles; distinct by observed interleaving of the shared trace")
	m.Cases("multi", mon.N(80, 40), c01Multi)
}

func c01Sequential(c *mon.C) {
	r := c.R
	if mon.Chance(r, 0.7) {
		mon.Dirty(r)
	}
	s := mon.AnySetup(r)
	defer s.Stop()
	n := mon.Range(r, 1, 4)
	trs := make([]trc.Trace, n)
	want := make([][]trc.Event, n)
	prog := s.Name
	for i := range trs {
		trs[i] = s.Make(mon.Pick(r, "a", "b"))
	}
	check := func(i int) {
		got := noStacks(trs[i].Events())
		if d := mon.DiffEvents(got, want[i]); d != "" {
			c.Violate("%s: trace %d: %s", s.Name, i, d)
		}
		c.Count("events_compared", len(got))
	}
	total := 0
	for k := mon.Range(r, 5, 60); k > 0 && !c.Failed(); k-- {
		i := r.IntN(n)
		if mon.Chance(r, 0.5) {
			time.Sleep(time.Duration(r.IntN(3000000)))
		}
		if mon.Chance(r, 0.15) {
			check(i)
			continue
		}
		method := r.IntN(4)
		format, args := mon.Format(r, mon.Chance(r, 0.3))
		if mon.Chance(r, 0.1) {
			// look-alikes of texts the library produces itself
			format, args = mon.Pick(r, "(truncated event count 3)", "(+ cat)", "start", "finished", "→ region", ""), nil
		}
		keep := append([]any{}, args...)
		full := args[:cap(args)]
		var spare []any
		if len(full) > len(args) {
			spare = append(spare, full[len(args):]...)
		}
		want[i] = append(want[i], trc.Event{When: time.Now(), What: fmt.Sprintf(format, args...), IsError: mon.IsErr(method)})
		mon.Call(trs[i], method, format, args...)
		if (len(args) > 0 && !reflect.DeepEqual(keep, args)) || (spare != nil && !reflect.DeepEqual(spare, full[len(args):])) {
			c.Violate("%s changed the caller's argument slice for %q", mon.MethodNames[method], format)
		}
		total++
		prog += fmt.Sprintf(";%d.%d%q", i, method, format)
	}
	for i := range trs {
		check(i)
		check(i)
	}
	if mon.Chance(r, 0.5) {
		for i := range trs {
			if s.Name == "small collector" || s.Name == "collector+subscriber" {
				break
			}
			trs[i].Finish()
			check(i)
		}
	}
	if total >= 5 {
		c.Seen(prog)
	}
	c.Count("event_calls", total)
	c.Sample("%s", prog)
}

func c01Concurrent(c *mon.C) {
	r := c.R
	if mon.Chance(r, 0.5) {
		mon.Dirty(r)
	}
	s := mon.AnySetup(r)
	defer s.Stop()
	tr := s.Make("conc")
	writers, readers, k := mon.Range(r, 2, 6), mon.Range(r, 1, 3), mon.Range(r, 5, 40)
	recs := make([][]rec, writers)
	reads := make([][]read, readers)
	var fns []func()
	var left atomic.Int32
	left.Store(int32(writers))
	for w := 0; w < writers; w++ {
		wr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < k; i++ {
				recs[w] = append(recs[w], write(wr, tr, w, "e"))
			}
			left.Add(-1)
		})
	}
	for i := 0; i < readers; i++ {
		fns = append(fns, func() {
			for n := 0; n < 60 && left.Load() > 0; n++ {
				rd := read{start: mono()}
				rd.events = tr.Events()
				rd.end = mono()
				reads[i] = append(reads[i], rd)
			}
		})
	}
	parallel(fns...)
	var all []rec
	for _, x := range recs {
		all = append(all, x...)
	}
	final := tr.Events()
	pos := checkFinal(c, s.Name, final, all, true)
	if pos == nil {
		return
	}
	nr := 0
	for _, rs := range reads {
		last := 0
		for _, rd := range rs {
			if len(rd.events) < last {
				c.Violate("a later read has %d events, an earlier one %d", len(rd.events), last)
			}
			last = len(rd.events)
		}
		checkReads(c, s.Name, final, all, pos, rs)
		nr += len(rs)
	}
	order, switches := "", 0
	who := map[string]int{}
	for _, x := range all {
		who[x.text] = x.who
	}
	for i, ev := range final {
		w := who[ev.What]
		if i > 0 && w != who[final[i-1].What] {
			switches++
		}
		order += string(rune('a' + w))
	}
	if switches >= writers {
		c.Seen(order)
	}
	c.Count("event_calls", len(all))
	c.Count("concurrent_reads", nr)
	c.Count("writer_switches", switches)
	c.Sample("%s, %d writers: order of writers in the final list %s, %d reads", s.Name, writers, order, nr)
}

func c01Multi(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: "multi"}).SetCategorySize(mon.Range(r, 1, 4))
	_, shared := coll.NewTrace(bg, "x")
	g, rounds := mon.Range(r, 2, 5), mon.Range(r, 5, 20)
	sharedRecs := make([][]rec, g)
	var fns []func()
	for w := 0; w < g; w++ {
		wr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < rounds; i++ {
				_, own := coll.NewTrace(bg, mon.Pick(wr, "x", "y"))
				var recs []rec
				for k := wr.IntN(8); k > 0; k-- {
					recs = append(recs, write(wr, own, w, "own"))
					if mon.Chance(wr, 0.3) {
						sharedRecs[w] = append(sharedRecs[w], write(wr, shared, w, "shared"))
					}
				}
				checkFinal(c, "own trace", own.Events(), recs, true)
				if mon.Chance(wr, 0.8) {
					own.Finish() // may be recycled from now on
				}
				c.Count("event_calls", len(recs))
			}
		})
	}
	parallel(fns...)
	var all []rec
	for _, x := range sharedRecs {
		all = append(all, x...)
	}
	final := shared.Events()
	if checkFinal(c, "shared trace", final, all, true) == nil {
		return
	}
	who := map[string]int{}
	for _, x := range all {
		who[x.text] = x.who
	}
	order := ""
	for _, ev := range final {
		order += string(rune('a' + who[ev.What]))
	}
	c.Seen(order)
	c.Count("event_calls", len(all))
	c.Sample("%d goroutines, %d traces dropped through a small collector, shared trace order %s", g, g*rounds, order)
}
