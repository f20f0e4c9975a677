package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"regexp"
	"sync"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

var bg = context.Background()

var base = time.Now()

// mono is a real-time clock that adds no synchronisation between goroutines.
func mono() int64 { return int64(time.Since(base)) }

// rec is one recorded call.
type rec struct {
	who        int
	method     int
	text       string
	start, end int64
	t0, t1     time.Time
}

// write adds one event with a unique text and records the call.
func write(r *rand.Rand, tr trc.Trace, who int, name string) rec {
	x := rec{who: who, method: r.IntN(4)}
	tok := mon.Token(name)
	format, args := "%s", []any{tok}
	x.text = tok
	switch r.IntN(4) {
	case 0:
		n := r.IntN(1000)
		format, args = "%s n=%d", []any{tok, n}
		x.text = fmt.Sprintf("%s n=%d", tok, n)
	case 1:
		format, args = "pre %s %v post", []any{tok, []string{"a", "b"}}
		x.text = fmt.Sprintf("pre %s %v post", tok, []string{"a", "b"})
	case 2:
		format, args = tok, nil
	}
	x.t0 = time.Now()
	x.start = mono()
	mon.Call(tr, x.method, format, args...)
	x.end = mono()
	x.t1 = time.Now()
	return x
}

// read is one recorded read.
type read struct {
	start, end int64
	events     []trc.Event
	finished   bool // Finished() observed before Events()
	errored    bool // Errored() observed after Events()
}

// parallel starts all functions at once and waits for them.
func parallel(fns ...func()) {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for _, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			fn()
		}()
	}
	close(gate)
	wg.Wait()
}

func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewPCG(r.Uint64(), r.Uint64())) }

// checkFinal checks a final event list against the recorded calls, all of
// which must be included if complete. Returns positions by text.
func checkFinal(c *mon.C, name string, events []trc.Event, recs []rec, complete bool) map[string]int {
	byText := make(map[string]*rec, len(recs))
	for i := range recs {
		byText[recs[i].text] = &recs[i]
	}
	pos := make(map[string]int, len(events))
	order := make([]*rec, len(events))
	for i, ev := range events {
		x := byText[ev.What]
		if x == nil {
			c.Violate("%s: event %d has text %.200q, which nobody added to this trace", name, i, ev.What)
			return nil
		}
		if j, dup := pos[ev.What]; dup {
			c.Violate("%s: event %q appears twice, at %d and %d", name, ev.What, j, i)
			return nil
		}
		pos[ev.What] = i
		order[i] = x
		if ev.IsError != mon.IsErr(x.method) {
			c.Violate("%s: event %q by %s has error flag %v", name, ev.What, mon.MethodNames[x.method], ev.IsError)
		}
		if ev.When.Before(x.t0) || ev.When.After(x.t1) {
			c.Violate("%s: event %q has time %s outside its call [%s,%s]", name, ev.What, ev.When, x.t0, x.t1)
		}
		if i > 0 && ev.When.Before(events[i-1].When) {
			c.Violate("%s: time decreases from event %d (%s) to %d (%s)", name, i-1, events[i-1].When, i, ev.When)
		}
	}
	if complete {
		for _, x := range recs {
			if _, ok := pos[x.text]; !ok {
				c.Violate("%s: event %q by %s (goroutine %d) is missing; %d of %d events present", name, x.text, mon.MethodNames[x.method], x.who, len(events), len(recs))
				return nil
			}
		}
	}
	// real time order: nothing later in the list may have ended before an
	// earlier one began
	minEnd, minText := int64(1<<62), ""
	for i := len(order) - 1; i >= 0; i-- {
		if minEnd < order[i].start {
			c.Violate("%s: event %q is listed before %q, but its call began %dns after the other had returned", name, order[i].text, minText, order[i].start-minEnd)
			break
		}
		if order[i].end < minEnd {
			minEnd, minText = order[i].end, order[i].text
		}
	}
	return pos
}

// checkReads checks that each read is a prefix of the final list that contains
// every call completed before it and none begun after it.
func checkReads(c *mon.C, name string, final []trc.Event, recs []rec, pos map[string]int, reads []read) {
	for _, rd := range reads {
		if len(rd.events) > len(final) {
			c.Violate("%s: a read saw %d events, in the end there are %d", name, len(rd.events), len(final))
			return
		}
		for i := range rd.events {
			if rd.events[i].What != final[i].What || !rd.events[i].When.Equal(final[i].When) || rd.events[i].IsError != final[i].IsError {
				c.Violate("%s: a read saw event %d as %.200q at %s, in the end it is %.200q at %s", name, i, rd.events[i].What, rd.events[i].When, final[i].What, final[i].When)
				return
			}
		}
		for _, x := range recs {
			p, ok := pos[x.text]
			if !ok {
				continue
			}
			if x.end < rd.start && p >= len(rd.events) {
				c.Violate("%s: event %q was added %dns before a read which does not have it", name, x.text, rd.start-x.end)
				return
			}
			if x.start > rd.end && p < len(rd.events) {
				c.Violate("%s: event %q was read before it was added", name, x.text)
				return
			}
		}
	}
}

// noStacks is a deep copy without stacks.
func noStacks(evs []trc.Event) []trc.Event { return mon.RefTrim(evs, -1) }

// subscribe starts a stream and waits until it is active.
func subscribe(c *trc.Collector, f trc.Filter, ch chan trc.Trace) (stop func() (trc.StreamStats, error)) {
	ctx, cancel := context.WithCancel(bg)
	type result struct {
		s   trc.StreamStats
		err error
	}
	done := make(chan result, 1)
	go func() {
		s, err := c.Stream(ctx, f, ch)
		done <- result{s, err}
	}()
	for {
		if _, err := c.StreamStats(ctx, ch); err == nil {
			break
		}
		time.Sleep(10 * time.Microsecond)
	}
	return func() (trc.StreamStats, error) {
		cancel()
		x := <-done
		return x.s, x.err
	}
}

func drain(ch chan trc.Trace) []*trc.StaticTrace {
	var res []*trc.StaticTrace
	for {
		select {
		case tr := <-ch:
			res = append(res, mon.CopyTrace(tr))
		default:
			return res
		}
	}
}

func compile(q string) (*regexp.Regexp, error) { return regexp.Compile(q) }

// churn makes traces with known events in small categories, so that they are
// dropped all the time, while searches copy them. Every returned copy of a
// finished trace must have all of its events, and of an active one its first.
func churn(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	if mon.Chance(r, 0.3) {
		coll.SetDecorators(mon.Passthrough, trc.LogDecorator(discard{}))
	}
	size := mon.Pick(r, 1, 2, 5, 20, 60, 200)
	coll.SetCategorySize(size)
	cats := []string{"a", "b", "c"}[:mon.Range(r, 1, 3)]
	type made struct {
		tr    trc.Trace
		n     int
		isErr bool
	}
	var known sync.Map // ID -> made
	writers, each := mon.Range(r, 1, 4), mon.Pick(r, 50, 200, 400)
	if mon.Race() {
		each = min(each, 100)
	}
	stop := make(chan struct{})
	var running sync.WaitGroup
	var fns []func()
	for w := 0; w < writers; w++ {
		rr := sub(r)
		running.Add(1)
		fns = append(fns, func() {
			defer running.Done()
			for i := 0; i < each; i++ {
				m := made{n: rr.IntN(6), isErr: mon.Chance(rr, 0.2)}
				_, m.tr = coll.NewTrace(bg, mon.Pick(rr, cats...))
				id := m.tr.ID()
				known.Store(id, m)
				for k := 0; k < m.n; k++ {
					mon.Call(m.tr, rr.IntN(2), "%s %d", id, k)
				}
				if m.isErr {
					mon.Call(m.tr, 2+rr.IntN(2), "%s error", id)
				}
				if !mon.Chance(rr, 0.05) {
					m.tr.Finish()
				}
			}
		})
	}
	go func() { running.Wait(); close(stop) }()
	if mon.Chance(r, 0.3) {
		rr := sub(r)
		fns = append(fns, func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				coll.SetCategorySize(mon.Pick(rr, 1, 3, size, size+5))
				time.Sleep(time.Duration(rr.IntN(300)) * time.Microsecond)
			}
		})
	}
	copies := make([][]*trc.StaticTrace, 3)
	searches := make([]int, 3)
	for w := range copies {
		rr := sub(r)
		fns = append(fns, func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				req := &trc.SearchRequest{Limit: mon.Pick(rr, 1, 5, 50, 250), StackDepth: mon.Pick(rr, -1, -1, 1)}
				switch rr.IntN(8) {
				case 0:
					req.Filter.IsFinished = true
				case 1:
					req.Filter.Category = mon.Pick(rr, cats...)
				case 2:
					req.Filter.IsErrored = true
				case 3:
					req.Filter.Query = " [0-2]$"
				}
				res, err := coll.Search(bg, req)
				if err != nil {
					c.Violate("search: %v", err)
					return
				}
				searches[w]++
				if len(copies[w]) < 20000 {
					copies[w] = append(copies[w], res.Traces...)
				}
			}
		})
	}
	parallel(fns...)
	finished, dropped := 0, 0
	for _, sts := range copies {
		for _, st := range sts {
			x, ok := known.Load(st.TraceID)
			if !ok {
				c.Violate("a copy of an unknown trace %s", st.TraceID)
				return
			}
			m := x.(made)
			n := m.n
			if m.isErr {
				n++
			}
			if st.TraceFinished && len(st.TraceEvents) != n || len(st.TraceEvents) > n {
				c.Violate("a search while traces are dropped (size %d, %d writers) returned trace %s, finished %v, with %d events; it has %d", size, writers, st.TraceID, st.TraceFinished, len(st.TraceEvents), n)
				return
			}
			for k, ev := range st.TraceEvents {
				want, isErr := fmt.Sprintf("%s %d", st.TraceID, k), false
				if k == m.n {
					want, isErr = st.TraceID+" error", true
				}
				if ev.What != want || ev.IsError != isErr {
					c.Violate("a search while traces are dropped returned trace %s with event %d %q (error %v), want %q", st.TraceID, k, ev.What, ev.IsError, want)
					return
				}
			}
			if st.TraceFinished {
				finished++
				if st.TraceDuration != m.tr.Duration() || st.TraceErrored != m.isErr {
					c.Violate("a search while traces are dropped returned trace %s with duration %s, errored %v; it has %s, %v", st.TraceID, st.TraceDuration, st.TraceErrored, m.tr.Duration(), m.isErr)
					return
				}
			}
		}
	}
	res, _ := coll.Search(bg, &trc.SearchRequest{Limit: 1})
	dropped = writers*each - res.TotalCount
	c.Count("churn_copies_finished", finished)
	c.Count("churn_dropped", dropped)
	c.Count("churn_searches", searches[0]+searches[1]+searches[2])
	if finished > 0 && dropped > 0 {
		c.Seen(size, writers, each, len(cats), finished/50)
	}
}
