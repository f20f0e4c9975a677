package core

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC14(t *testing.T) {
	m := mon.Start(t, "C14")
	defer m.Done()
	m.Rule("model: random histories of subscribing (channels of capacity 0-6, with and without a waiting receiver, with cancelled contexts, twice on one channel), publishing traces of every kind, receiving, asking for statistics and cancelling, in a bubble, against a model of every subscription's queue and counters; non-trivial: sends, skips and drops all occurred; distinct by history")
	m.Bubbles("model", mon.N(900, 80), c14Model)
	m.Rule("many: up to 300 subscribers, or up to 200000 publications to a subscriber which does not receive: the counters stay exact; distinct by numbers")
	m.Bubbles("many", mon.N(12, 6), c14Many)
	m.Rule("conc: publishers, consumers of different speed and subscribers coming and going on real time; each subscription's counters add up to the publications of its lifetime, what was received is what was sent, in an order all subscribers agree on, and nothing comes after the subscription has returned; distinct by counters")
	m.Cases("conc", mon.N(150, 150), c14Concurrent)
}

type c14Sub struct {
	ch     chan trc.Trace
	f      trc.Filter
	cancel context.CancelFunc
	res    chan error
	stats  trc.StreamStats // final
	want   trc.StreamStats // model
	queue  []*trc.StaticTrace
	active bool
	recv   chan trc.Trace // hands over what a waiting receiver got
	cause  error
}

func c14Model(c *mon.C) {
	r := c.R
	b := trc.NewBroker()
	var subs []*c14Sub
	population := population(r, 10)
	var traces []trc.Trace
	for _, st := range population {
		traces = append(traces, mon.Pick[trc.Trace](r, st, mon.NewForeign(st)))
	}
	for i := 0; i < 3; i++ {
		_, tr := trc.New(bg, "src", mon.Pick(r, mon.Categories...))
		traces = append(traces, tr)
		_, tr = mon.NewSimple(bg, "src", mon.Pick(r, mon.Categories...))
		traces = append(traces, tr)
	}
	timed := false
	start := func(s *c14Sub) {
		ctx, cancel := context.WithCancel(bg)
		s.cause, s.cancel = context.Canceled, cancel
		if !timed && mon.Chance(r, 0.2) { // ends by its deadline instead; one at a time, as that takes time
			cancel()
			timed = true
			at := time.Now().Add(3e4 * time.Hour)
			ctx, cancel = context.WithDeadline(bg, at)
			s.cause, s.cancel = context.DeadlineExceeded, func() {
				time.Sleep(time.Until(at) + 1)
				cancel()
				timed = false
			}
		}
		s.res = make(chan error, 1)
		s.want, s.active = trc.StreamStats{}, true
		go func() {
			st, err := b.Stream(ctx, s.f, s.ch)
			s.stats = st
			s.res <- err
		}()
		synctest.Wait()
	}
	end := func(s *c14Sub) {
		s.cancel()
		synctest.Wait()
		select {
		case err := <-s.res:
			if !errors.Is(err, s.cause) {
				c.Violate("a subscription ended with error %v, want %v", err, s.cause)
			}
			if s.stats != s.want {
				c.Violate("a subscription ended with %v, want %v", s.stats, s.want)
			}
		default:
			c.Violate("a cancelled subscription did not return")
		}
		s.active = false
		if _, err := b.StreamStats(bg, s.ch); err == nil {
			c.Violate("an ended subscription still has statistics")
		}
	}
	var sends, skips, drops int
	hist := ""
	check := func(s *c14Sub) {
		st, err := b.StreamStats(bg, s.ch)
		if err != nil || st != s.want {
			c.Violate("statistics are %v (error %v), want %v", st, err, s.want)
		}
	}
	for k := mon.Range(r, 10, 80); k > 0 && !c.Failed(); k-- {
		op := r.IntN(20)
		hist += string(rune('a' + op))
		var s *c14Sub
		if len(subs) > 0 {
			s = subs[r.IntN(len(subs))]
		}
		switch {
		case op < 2 && len(subs) < 5 || s == nil:
			n := &c14Sub{ch: make(chan trc.Trace, mon.Pick(r, 0, 1, 2, 6, 50)), f: mon.AnyFilter(r, population)}
			if mon.Chance(r, 0.3) {
				n.f = trc.Filter{}
			}
			if mon.Chance(r, 0.3) {
				n.f.Normalize()
			}
			subs = append(subs, n)
			start(n)
			check(n)
		case op == 2: // again on the same channel
			if s.active {
				done := make(chan error, 1)
				ctx, cancel := context.WithCancel(bg)
				go func() {
					_, err := b.Stream(ctx, trc.Filter{}, s.ch)
					done <- err
				}()
				synctest.Wait()
				select {
				case err := <-done:
					if err == nil || errors.Is(err, context.Canceled) {
						c.Violate("a second subscription of a channel ended with %v", err)
					}
				default:
					c.Violate("a second subscription of a channel was not refused")
				}
				cancel()
				check(s)
			} else {
				if mon.Chance(r, 0.5) {
					s.f = mon.AnyFilter(r, population)
				}
				start(s)
			}
		case op == 3:
			if s.active {
				end(s)
			}
		case op == 4: // cancelled before it starts
			ctx, cancel := context.WithCancel(bg)
			cancel()
			ch := make(chan trc.Trace, 3)
			done := make(chan struct{})
			go func() {
				defer close(done)
				if st, err := b.Stream(ctx, trc.Filter{}, ch); !errors.Is(err, context.Canceled) || st != (trc.StreamStats{}) {
					c.Violate("a cancelled subscription returned %v, %v", st, err)
				}
			}()
			synctest.Wait()
			select {
			case <-done:
			default:
				c.Violate("a cancelled subscription did not return")
			}
			if _, err := b.StreamStats(bg, ch); err == nil {
				c.Violate("a cancelled subscription still has statistics")
			}
		case op == 5:
			if s.active {
				check(s)
			} else if _, err := b.StreamStats(bg, s.ch); err == nil {
				c.Violate("statistics for a channel that is not subscribed")
			}
		case op < 9: // receive
			for n := mon.Range(r, 1, 4); n > 0; n-- {
				select {
				case tr := <-s.ch:
					if len(s.queue) == 0 {
						c.Violate("received a trace that should not have been sent")
						return
					}
					want := s.queue[0]
					s.queue = s.queue[1:]
					if d := mon.DiffTraces(mon.CopyTrace(tr), want); d != "" {
						c.Violate("received: %s", d)
						return
					}
				default:
					if len(s.queue) > 0 {
						c.Violate("nothing to receive, although %d traces were sent", len(s.queue))
						return
					}
				}
			}
		case op == 9: // let a receiver wait
			if s.recv == nil && len(s.queue) == 0 {
				s.recv = make(chan trc.Trace, 1)
				ch, recv := s.ch, s.recv
				go func() { recv <- <-ch }()
				synctest.Wait()
			}
		case op == 10: // change a live trace
			tr := traces[10+r.IntN(len(traces)-10)]
			switch r.IntN(8) {
			case 0:
				tr.Finish()
			case 1:
				mon.Call(tr, 2+r.IntN(2), "needle %d", k)
			default:
				mon.Call(tr, r.IntN(2), "%s %d", mon.Pick(r, "needle", "hay"), k)
			}
			time.Sleep(mon.Durations[r.IntN(len(mon.Durations))])
		default: // publish
			tr := traces[r.IntN(len(traces))]
			before := mon.CopyTrace(tr)
			want := mon.RefStream(before)
			t0 := time.Now()
			ctx := context.Context(bg)
			if mon.Chance(r, 0.15) { // a trace may finish after its request is over
				gone, cancel := context.WithCancel(bg)
				cancel()
				ctx = gone
			}
			b.Publish(ctx, tr)
			synctest.Wait()
			if d := time.Since(t0); d != 0 {
				c.Violate("publishing took %s", d)
			}
			if d := mon.DiffTraces(mon.CopyTrace(tr), before); d != "" {
				c.Violate("publishing changed the trace: %s", d)
			}
			for _, s := range subs {
				if !s.active {
					continue
				}
				if !mon.RefAllow(s.f, want) {
					s.want.Skips++
					skips++
					continue
				}
				if s.recv != nil {
					s.want.Sends++
					sends++
					select {
					case got := <-s.recv:
						if d := mon.DiffTraces(mon.CopyTrace(got), want); d != "" {
							c.Violate("received by a waiting receiver: %s", d)
						}
					default:
						c.Violate("a waiting receiver got nothing")
					}
					s.recv = nil
					continue
				}
				if len(s.queue) < cap(s.ch) {
					s.queue = append(s.queue, want)
					s.want.Sends++
					sends++
				} else {
					s.want.Drops++
					drops++
				}
			}
			for _, s := range subs {
				if s.active {
					check(s)
				}
				if len(s.ch) != len(s.queue) {
					c.Violate("a channel holds %d traces, want %d", len(s.ch), len(s.queue))
				}
			}
			c.Count("publications", 1)
		}
	}
	for _, s := range subs {
		if s.active {
			end(s)
		}
		if s.recv != nil {
			s.ch <- nil // let the receiver go
			<-s.recv
		}
		for _, want := range s.queue {
			select {
			case got := <-s.ch:
				if d := mon.DiffTraces(mon.CopyTrace(got), want); d != "" {
					c.Violate("received at the end: %s", d)
				}
			default:
				c.Violate("a sent trace is missing")
			}
		}
	}
	b.Publish(bg, traces[0])
	for _, s := range subs {
		if len(s.ch) > 0 {
			c.Violate("something was sent after the subscription had ended")
		}
	}
	c.Count("sends", sends)
	c.Count("skips", skips)
	c.Count("drops", drops)
	if sends > 0 && skips > 0 && drops > 0 {
		c.Seen(hist)
	}
}

func c14Many(c *mon.C) {
	r := c.R
	b := trc.NewBroker()
	n, pubs := mon.Pick(r, 20, 70, 150, 300), mon.Range(r, 1, 20)
	if mon.Chance(r, 0.4) {
		n, pubs = mon.Range(r, 1, 3), mon.Pick(r, 40000, 70000, 200000)
		if mon.Race() {
			pubs = 5000
		}
	}
	ctx, cancel := context.WithCancel(bg)
	chans := make([]chan trc.Trace, n)
	skipper := make([]bool, n)
	res := make([]chan trc.StreamStats, n)
	for i := range chans {
		chans[i] = make(chan trc.Trace, mon.Pick(r, 0, 3, 100, pubs, pubs-1))
		res[i] = make(chan trc.StreamStats, 1)
		f := trc.Filter{}
		if skipper[i] = mon.Chance(r, 0.3); skipper[i] {
			f.Category = "other"
		}
		go func() {
			st, err := b.Stream(ctx, f, chans[i])
			if !errors.Is(err, context.Canceled) {
				c.Violate("subscription %d of %d ended with %v", i, n, err)
			}
			res[i] <- st
		}()
	}
	synctest.Wait()
	st := &trc.StaticTrace{TraceID: "x", TraceCategory: "cat"}
	for i := 0; i < pubs; i++ {
		b.Publish(bg, st)
	}
	var want []trc.StreamStats
	for i, ch := range chans {
		w := trc.StreamStats{Sends: min(pubs, cap(ch)), Drops: max(0, pubs-cap(ch))}
		if skipper[i] {
			w = trc.StreamStats{Skips: pubs}
		}
		want = append(want, w)
		if got, err := b.StreamStats(bg, ch); err != nil || got != w {
			c.Violate("subscriber %d of %d, after %d publications: %v (error %v), want %v", i, n, pubs, got, err, w)
			break
		}
		if len(ch) != w.Sends {
			c.Violate("subscriber %d of %d has %d traces, want %d", i, n, len(ch), w.Sends)
			break
		}
	}
	cancel()
	synctest.Wait()
	for i := range res {
		select {
		case got := <-res[i]:
			if !c.Failed() && got != want[i] {
				c.Violate("subscriber %d of %d ended with %v, want %v", i, n, got, want[i])
			}
		default:
			c.Violate("subscription %d of %d has not ended", i, n)
			return
		}
	}
	c.Count("publications", pubs)
	c.Seen(n, pubs)
}

func c14Concurrent(c *mon.C) {
	r := c.R
	b := trc.NewBroker()
	pubs := mon.Range(r, 1, 4)
	each := mon.Pick(r, 20, 100)
	type pub struct {
		start, end int64
		pass       [2]bool
	}
	filters := []trc.Filter{{}, {Category: "yes"}}
	recs := make([][]pub, pubs)
	type life struct {
		f                 int
		begun, subscribed int64 // stream call began; known active
		cancelled, ended  int64
		stats             trc.StreamStats
		got               []string
		capacity          int
		mid               []trc.StreamStats
		late              int
		err               error
	}
	var mtx sync.Mutex
	var lives []*life
	var fns []func()
	stopped := make(chan struct{})
	var pubWG sync.WaitGroup
	for w := 0; w < pubs; w++ {
		rr := sub(r)
		pubWG.Add(1)
		fns = append(fns, func() {
			defer pubWG.Done()
			for i := 0; i < each; i++ {
				st := &trc.StaticTrace{TraceID: fmt.Sprintf("%d/%d", w, i), TraceCategory: mon.Pick(rr, "yes", "no"), TraceEvents: []trc.Event{{What: "x"}}}
				p := pub{pass: [2]bool{true, st.TraceCategory == "yes"}}
				p.start = mono()
				b.Publish(bg, st)
				p.end = mono()
				recs[w] = append(recs[w], p)
				if mon.Chance(rr, 0.3) {
					runtime.Gosched()
				}
			}
		})
	}
	fns = append(fns, func() { pubWG.Wait(); close(stopped) })
	for w := 0; w < mon.Range(r, 1, 4); w++ {
		rr := sub(r)
		fns = append(fns, func() {
			ch := make(chan trc.Trace, mon.Pick(rr, 0, 1, 3, 20, 2000))
			for again := true; again; again = mon.Chance(rr, 0.6) {
				l := &life{f: rr.IntN(2), capacity: cap(ch)}
				ctx, cancel := context.WithCancel(bg)
				done := make(chan struct{})
				l.begun = mono()
				go func() {
					defer close(done)
					l.stats, l.err = b.Stream(ctx, filters[l.f], ch)
					l.ended = mono()
				}()
				for {
					if _, err := b.StreamStats(ctx, ch); err == nil {
						break
					}
					runtime.Gosched()
				}
				l.subscribed = mono()
				limit := mon.Pick(rr, 0, 5, 50, 100000)
				slow := mon.Chance(rr, 0.4)
			loop:
				for n := 0; n < limit; n++ {
					select {
					case tr := <-ch:
						l.got = append(l.got, tr.ID())
						if slow {
							time.Sleep(20 * time.Microsecond)
						}
					case <-stopped:
						break loop
					}
					if mon.Chance(rr, 0.1) {
						st, err := b.StreamStats(ctx, ch)
						if err != nil {
							c.Violate("no statistics for an active subscription: %v", err)
						}
						l.mid = append(l.mid, st)
					}
				}
				l.cancelled = mono()
				cancel()
				<-done
				// everything still in the channel was sent before
				n := len(ch)
				for i := 0; i < n; i++ {
					l.got = append(l.got, (<-ch).ID())
				}
				for i := 0; i < 5; i++ {
					runtime.Gosched()
				}
				l.late = len(ch)
				mtx.Lock()
				lives = append(lives, l)
				mtx.Unlock()
			}
		})
	}
	parallel(fns...)
	seqs := [][]string{}
	for _, l := range lives {
		if !errors.Is(l.err, context.Canceled) {
			c.Violate("a subscription ended with %v", l.err)
		}
		if l.late != 0 {
			c.Violate("%d traces were sent after the subscription had returned", l.late)
			return
		}
		if len(l.got) != l.stats.Sends {
			c.Violate("received %d traces, %d were counted as sent", len(l.got), l.stats.Sends)
		}
		lo, hi := 0, 0
		loSkip, hiSkip := 0, 0
		for _, ps := range recs {
			for _, p := range ps {
				in := p.start > l.subscribed && p.end < l.cancelled
				may := p.end > l.begun && p.start < l.ended
				if in {
					lo++
				}
				if may {
					hi++
				}
				if !p.pass[l.f] {
					if in {
						loSkip++
					}
					if may {
						hiSkip++
					}
				}
			}
		}
		if n := l.stats.Sends + l.stats.Skips + l.stats.Drops; n < lo || n > hi {
			c.Violate("a subscription counts %v, but between %d and %d traces were published in its lifetime", l.stats, lo, hi)
		}
		if l.stats.Skips < loSkip || l.stats.Skips > hiSkip {
			c.Violate("a subscription counts %v, but between %d and %d traces failing its filter were published", l.stats, loSkip, hiSkip)
		}
		if l.capacity == 2000 && l.stats.Drops > 0 {
			c.Violate("a subscription with room for everything dropped %d traces", l.stats.Drops)
		}
		prev := trc.StreamStats{}
		for _, st := range append(l.mid, l.stats) {
			if st.Sends < prev.Sends || st.Skips < prev.Skips || st.Drops < prev.Drops {
				c.Violate("statistics went from %v to %v", prev, st)
			}
			prev = st
		}
		last := map[int]int{}
		for _, id := range l.got {
			var w, i int
			fmt.Sscanf(id, "%d/%d", &w, &i)
			if n, ok := last[w]; ok && n >= i {
				c.Violate("publisher %d's trace %d was received after its trace %d", w, i, n)
			}
			last[w] = i
		}
		seqs = append(seqs, l.got)
		c.Count("sends", l.stats.Sends)
		c.Count("skips", l.stats.Skips)
		c.Count("drops", l.stats.Drops)
	}
	// all subscribers agree on the order
	for i := range seqs {
		at := map[string]int{}
		for k, id := range seqs[i] {
			at[id] = k
		}
		for j := range seqs[:i] {
			prev := -1
			for _, id := range seqs[j] {
				if k, ok := at[id]; ok {
					if k < prev {
						c.Violate("two subscribers received traces in different orders")
						return
					}
					prev = k
				}
			}
		}
	}
	c.Count("subscriptions", len(lives))
	sig := ""
	for _, l := range lives {
		sig += l.stats.String()
	}
	c.Seen(sig)
}
