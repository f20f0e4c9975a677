package core

import (
	"context"
	"fmt"
	"regexp"
	"slices"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC15(t *testing.T) {
	m := mon.Start(t, "C15")
	defer m.Done()
	m.Rule("model: random histories of creating traces in one or two collectors (own or shared broker, decorators, other trace implementations, tiny categories that drop traces), adding events directly and through prefixes and regions, finishing, and calling finished traces, in a bubble, while subscribers come and go; every subscriber's messages are compared one by one, with exact times, with those of a model; non-trivial: creations, events and finishes were all received; distinct by history")
	m.Bubbles("model", mon.N(1500, 120), c15Model)
	m.Rule("long: a trace with 300 to 3500 events, some beyond the default limit; each event is one message, the finish has all of them; distinct by number of events and implementation")
	m.Cases("long", mon.N(8, 10), c15Long)
	m.Rule("full: traces with 10 to 30 events at most get up to three times as many; every event within the limit is one message with it, every one beyond is one message with nothing but the mark that counts the events left out, and the finish holds the events within the limit and the mark; distinct by limit, events and implementation")
	m.Cases("full", mon.N(200, 100), c15Full)
	m.Rule("conc: several goroutines write to the same traces while others finish them, create traces and so drop others, on real time; per trace the messages must be one creation, each event once in the order of the trace, and one finish with all events, and nothing else; distinct by number of events and position of the finish")
	m.Cases("conc", mon.N(250, 250), c15Concurrent)
}

type c15Trace struct {
	tr       trc.Trace
	ctx      context.Context
	base     trc.StaticTrace
	events   []trc.Event
	finished bool
	errored  bool
	took     time.Duration
	coll     int
}

func c15Model(c *mon.C) {
	r := c.R
	ncoll := mon.Pick(r, 1, 1, 2)
	var colls []*trc.Collector
	var brokers []int
	shared := mon.Chance(r, 0.5)
	broker := trc.NewBroker()
	for i := 0; i < ncoll; i++ {
		cfg := trc.CollectorConfig{Source: fmt.Sprintf("src%d", i)}
		if shared {
			cfg.Broker = broker
			brokers = append(brokers, 0)
		} else {
			brokers = append(brokers, i)
		}
		switch r.IntN(5) {
		case 0:
			cfg.NewTrace = mon.NewSimple
		case 1:
			cfg.NewTrace = func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
				return trc.New(ctx, source, category, append([]trc.DecoratorFunc{mon.Passthrough}, ds...)...)
			}
		}
		switch r.IntN(4) {
		case 0:
			cfg.Decorators = []trc.DecoratorFunc{trc.LogDecorator(discard{})}
		case 1:
			cfg.Decorators = []trc.DecoratorFunc{mon.Passthrough, trc.LogDecorator(discard{}), mon.Passthrough}
		}
		coll := trc.NewCollector(cfg)
		if mon.Chance(r, 0.7) {
			coll.SetCategorySize(mon.Range(r, 1, 3))
		}
		colls = append(colls, coll)
	}
	type sub struct {
		broker int
		ch     chan trc.Trace
		f      trc.Filter
		want   []*trc.StaticTrace
		stop   func() error
	}
	var subs []*sub
	subscribeTo := func(i int, f trc.Filter) {
		s := &sub{broker: brokers[i], ch: make(chan trc.Trace, 2000), f: f}
		ctx, cancel := context.WithCancel(bg)
		done := make(chan error, 1)
		go func() {
			_, err := colls[i].Stream(ctx, mon.CopyFilter(f), s.ch)
			done <- err
		}()
		synctest.Wait()
		s.stop = func() error { cancel(); return <-done }
		subs = append(subs, s)
	}
	late := mon.Chance(r, 0.3) // nobody subscribes before the first traces exist
	for i := range colls {
		if late {
			continue
		}
		subscribeTo(i, trc.Filter{})
		switch r.IntN(5) {
		case 0:
			subscribeTo(i, trc.Filter{IsFinished: true})
		case 1:
			subscribeTo(i, trc.Filter{IsErrored: true})
		case 2:
			subscribeTo(i, trc.Filter{IsActive: true, Query: mon.Pick(r, "a", "[0-9]", "ev")})
		case 3:
			d := time.Duration(r.IntN(1000)) * time.Millisecond
			subscribeTo(i, trc.Filter{MinDuration: &d})
		}
	}
	defer func() {
		for _, s := range subs {
			s.stop()
		}
	}()

	var traces []*c15Trace
	var creations, events, finishes int
	hist := ""
	publish := func(x *c15Trace) {
		st := x.base
		st.TraceFinished, st.TraceErrored = x.finished, x.errored
		st.TraceDuration = time.Since(st.TraceStarted)
		if x.finished {
			st.TraceDuration = x.took
		}
		st.TraceEvents = x.events
		if n := len(x.events); !x.finished && n > 1 {
			st.TraceEvents = x.events[n-1:]
		}
		st.TraceEvents = mon.CopyEvents(st.TraceEvents)
		for _, s := range subs {
			if s.broker == brokers[x.coll] && mon.RefAllow(s.f, &st) {
				s.want = append(s.want, &st)
			}
		}
	}
	step := func(what string) {
		synctest.Wait()
		for k, s := range subs {
			got := drain(s.ch)
			if len(got) != len(s.want) {
				c.Violate("%s: subscriber %d (filter %s) received %d messages, want %d: %.1500s", what, k, s.f.String(), len(got), len(s.want), mon.JSON(got))
				return
			}
			for i := range got {
				if d := mon.DiffTraces(got[i], s.want[i]); d != "" {
					c.Violate("%s: subscriber %d, message %d: %s", what, k, i, d)
				}
				if got[i].TraceDurationStr != got[i].TraceDuration.String() || got[i].TraceDurationSec != got[i].TraceDuration.Seconds() {
					c.Violate("%s: subscriber %d, message %d: duration %s is given as %q and %v s", what, k, i, got[i].TraceDuration, got[i].TraceDurationStr, got[i].TraceDurationSec)
				}
				for _, ev := range got[i].TraceEvents {
					if len(ev.Stack) > 0 {
						c.Violate("%s: subscriber %d, message %d has a stack", what, k, i)
					}
				}
			}
			s.want = nil
		}
	}
	event := func(x *c15Trace, text string, isErr bool) {
		if x.finished {
			return
		}
		x.errored = x.errored || isErr
		x.events = append(x.events, trc.Event{When: time.Now(), What: text, IsError: isErr})
		publish(x)
		events++
	}
	finish := func(x *c15Trace) {
		if x.finished {
			return
		}
		x.finished, x.took = true, time.Since(x.base.TraceStarted)
		publish(x)
		finishes++
	}
	cats := []string{"a", "b"}
	for k := mon.Range(r, 8, 60); k > 0 && !c.Failed(); k-- {
		time.Sleep(time.Duration(r.IntN(300)) * time.Millisecond)
		op := r.IntN(16)
		if len(traces) == 0 {
			op = 0
		}
		hist += string(rune('a' + op))
		what := ""
		if len(traces) > 0 && mon.Chance(r, 0.08) { // subscribers come and go
			if len(subs) > 0 && mon.Chance(r, 0.4) {
				i := r.IntN(len(subs))
				subs[i].stop()
				subs = append(subs[:i:i], subs[i+1:]...)
				hist += "-"
			} else if len(subs) < 6 {
				subscribeTo(r.IntN(len(colls)), mon.Pick(r, trc.Filter{}, trc.Filter{}, trc.Filter{IsFinished: true}, trc.Filter{IsErrored: true}))
				hist += "+"
			}
		}
		var x *c15Trace
		if len(traces) > 0 {
			x = traces[r.IntN(len(traces))]
			if mon.Chance(r, 0.6) {
				x = traces[max(0, len(traces)-1-r.IntN(4))]
			}
		}
		switch {
		case op < 3:
			i := r.IntN(len(colls))
			cat := mon.Pick(r, cats...)
			what = fmt.Sprintf("creating a trace in collector %d, category %q", i, cat)
			ctx, tr := colls[i].NewTrace(bg, cat)
			n := &c15Trace{tr: tr, ctx: ctx, coll: i}
			n.base = trc.StaticTrace{TraceID: tr.ID(), TraceSource: fmt.Sprintf("src%d", i), TraceCategory: cat, TraceStarted: time.Now()}
			traces = append(traces, n)
			publish(n)
			creations++
		case op < 9:
			format, args := mon.Format(r, mon.Chance(r, 0.2))
			method := r.IntN(4)
			what = fmt.Sprintf("%s(%.60q)", mon.MethodNames[method], format)
			mon.Call(x.tr, method, format, args...)
			event(x, fmt.Sprintf(format, args...), mon.IsErr(method))
		case op == 9:
			what = "an event through a prefix"
			_, ptr := trc.Prefix(x.ctx, "<%d>", k)
			method := r.IntN(4)
			mon.Call(ptr, method, "ev %d", k)
			event(x, fmt.Sprintf("<%d> ev %d", k, k), mon.IsErr(method))
		case op == 10:
			what = "creating a trace in a context that has one"
			i := r.IntN(len(colls))
			colls[i].NewTrace(x.ctx, "sub")
			event(x, "(+ sub)", false)
		case op == 11:
			what = "an event through the context"
			trc.Get(x.ctx).Errorf("ev %d", k)
			event(x, fmt.Sprintf("ev %d", k), true)
		case op < 14:
			what = "finishing a trace"
			if x.finished {
				what = "finishing a finished trace"
			}
			x.tr.Finish()
			finish(x)
		case op == 14: // reading and searching publish nothing
			what = "reading"
			x.tr.Events()
			x.tr.Duration()
			colls[x.coll].Search(bg, &trc.SearchRequest{})
		default:
			what = "resizing"
			colls[r.IntN(len(colls))].SetCategorySize(mon.Range(r, 1, 4))
		}
		step(what)
	}
	c.Count("creations", creations)
	c.Count("events", events)
	c.Count("finishes", finishes)
	if creations > 0 && events > 0 && finishes > 0 {
		c.Seen(hist, ncoll, shared)
		c.Sample("%d collectors (shared broker %v), %d subscribers: %d creations, %d events, %d finishes; history %s", ncoll, shared, len(subs), creations, events, finishes, hist)
	}
}

// c15Long streams a trace with many events.
func c15Long(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	n := mon.Pick(r, 300, 700, 1500, 3500)
	trc.SetTraceMaxEvents(mon.Pick(r, n, 5000))
	cfg := trc.CollectorConfig{Source: "src"}
	impl := r.IntN(3)
	switch impl {
	case 0:
		cfg.NewTrace = mon.NewSimple
	case 1:
		cfg.Decorators = []trc.DecoratorFunc{mon.Passthrough}
	}
	coll := trc.NewCollector(cfg)
	ch := make(chan trc.Trace, 2*n+100)
	stop := subscribe(coll, trc.Filter{}, ch)
	_, tr := coll.NewTrace(bg, "cat")
	var want []trc.Event
	for i := 0; i < n; i++ {
		m := r.IntN(4)
		mon.Call(tr, m, "event %d of %d", i, n)
		want = append(want, trc.Event{What: fmt.Sprintf("event %d of %d", i, n), IsError: mon.IsErr(m)})
	}
	tr.Finish()
	stop()
	got := drain(ch)
	if len(got) != n+2 {
		c.Violate("a trace with %d events: %d messages", n, len(got))
		return
	}
	same := func(what string, evs, want []trc.Event) {
		if len(evs) != len(want) {
			c.Violate("a trace with %d events: %s has %d events, want %d", n, what, len(evs), len(want))
			return
		}
		for i := range evs {
			if evs[i].What != want[i].What || evs[i].IsError != want[i].IsError {
				c.Violate("a trace with %d events: event %d of %s is %q (error %v), want %q (error %v)", n, i, what, evs[i].What, evs[i].IsError, want[i].What, want[i].IsError)
				return
			}
		}
	}
	same("the creation", got[0].TraceEvents, nil)
	for i := 0; i < n && !c.Failed(); i++ {
		same(fmt.Sprintf("message %d", i+1), got[i+1].TraceEvents, want[i:i+1])
	}
	same("the finish", got[n+1].TraceEvents, want)
	if !got[n+1].TraceFinished || got[n].TraceFinished {
		c.Violate("a trace with %d events: the last message is not the finish", n)
	}
	c.Count("events", n)
	c.Seen(n, impl)
}

func c15Full(c *mon.C) {
	r := c.R
	defer trc.SetTraceMaxEvents(1000)
	limit := mon.Range(r, 10, 30)
	n := mon.Range(r, limit-2, 3*limit)
	trc.SetTraceMaxEvents(limit)
	cfg := trc.CollectorConfig{Source: "src"}
	impl := r.IntN(3)
	if impl == 0 {
		cfg.Decorators = []trc.DecoratorFunc{mon.Passthrough}
	}
	coll := trc.NewCollector(cfg)
	ch := make(chan trc.Trace, n+100)
	stop := subscribe(coll, trc.Filter{}, ch)
	_, tr := coll.NewTrace(bg, "cat")
	var want []string
	for i := 0; i < n; i++ {
		m := r.IntN(4)
		mon.Call(tr, m, "event %d of %d", i, n)
		want = append(want, fmt.Sprintf("event %d of %d (error %v)", i, n, mon.IsErr(m)))
	}
	tr.Finish()
	stop()
	got := drain(ch)
	if len(got) != n+2 {
		c.Violate("a trace with at most %d events got %d: %d messages", limit, n, len(got))
		return
	}
	number := regexp.MustCompile("[0-9]+")
	texts := func(evs []trc.Event) (s []string) {
		for _, ev := range evs {
			what := ev.What
			if nums := number.FindAllString(what, -1); len(nums) == 1 { // whatever it says besides
				what = "mark " + nums[0]
			}
			s = append(s, fmt.Sprintf("%s (error %v)", what, ev.IsError))
		}
		return s
	}
	mark := func(i int) string { return fmt.Sprintf("mark %d (error false)", i+1-limit) }
	for i, st := range got {
		var exp []string
		what := fmt.Sprintf("message %d of %d", i, len(got))
		switch {
		case i == 0:
		case i <= n && i <= limit:
			exp = want[i-1 : i]
		case i <= n:
			exp = []string{mark(i - 1)}
		default:
			exp = want[:min(n, limit)]
			if n > limit {
				exp = append(slices.Clone(exp), mark(n-1))
			}
		}
		if g, w := fmt.Sprintf("%q", texts(st.TraceEvents)), fmt.Sprintf("%q", exp); g != w {
			c.Violate("a trace with at most %d events got %d: %s has %s, want %s", limit, n, what, g, w)
			return
		}
		if st.TraceFinished != (i == n+1) {
			c.Violate("a trace with at most %d events got %d: %s is finished: %v", limit, n, what, st.TraceFinished)
			return
		}
	}
	c.Count("events", n)
	c.Count("left-out", max(0, n-limit))
	c.Seen(limit, n, impl)
	c.Sample("at most %d events, %d added, %d messages", limit, n, len(got))
}

func c15Concurrent(c *mon.C) {
	r := c.R
	cfg := trc.CollectorConfig{Source: "src"}
	impl := r.IntN(4)
	switch impl {
	case 0:
		cfg.NewTrace = mon.NewSimple
	case 1:
		cfg.Decorators = []trc.DecoratorFunc{mon.Passthrough}
	}
	coll := trc.NewCollector(cfg).SetCategorySize(mon.Pick(r, 1, 2, 1000))
	ch := make(chan trc.Trace, 20000)
	fch := make(chan trc.Trace, 20000)
	stop := subscribe(coll, trc.Filter{}, ch)
	stopf := subscribe(coll, trc.Filter{IsFinished: true}, fch)
	if r.IntN(4) == 0 {
		mon.Dirty(r)
	}

	ntr := mon.Range(r, 1, 3)
	type state struct {
		mtx    sync.Mutex
		tr     trc.Trace
		ctx    context.Context
		recs   []rec
		f0, f1 int64 // earliest begin of a finish, earliest end of one
	}
	var sts []*state
	for i := 0; i < ntr; i++ {
		ctx, tr := coll.NewTrace(bg, "cat")
		sts = append(sts, &state{tr: tr, ctx: ctx, f0: 1 << 62, f1: 1 << 62})
	}
	var fns []func()
	nw := mon.Range(r, 2, 5)
	quota := mon.Range(r, 3, 40)
	for w := 0; w < nw; w++ {
		r := sub(r)
		fns = append(fns, func() {
			local := make([][]rec, ntr)
			for k := 0; k < quota; k++ {
				i := r.IntN(ntr)
				local[i] = append(local[i], write(r, sts[i].tr, w, "ev"))
			}
			for i, l := range local {
				sts[i].mtx.Lock()
				sts[i].recs = append(sts[i].recs, l...)
				sts[i].mtx.Unlock()
			}
		})
	}
	for k := mon.Range(r, 1, 2); k > 0; k-- { // concurrent finishers
		r := sub(r)
		fns = append(fns, func() {
			time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
			for i := range sts {
				a := mono()
				sts[i].tr.Finish()
				b := mono()
				sts[i].mtx.Lock()
				sts[i].f0, sts[i].f1 = min(sts[i].f0, a), min(sts[i].f1, b)
				sts[i].mtx.Unlock()
			}
		})
	}
	others := mon.Range(r, 0, 30)
	fns = append(fns, func() { // drops the traces above in a small category
		for k := 0; k < others; k++ {
			_, tr := coll.NewTrace(bg, "cat")
			tr.Tracef("other")
			tr.Finish()
		}
	})
	parallel(fns...)
	for i := range sts {
		sts[i].tr.Tracef("late")
		sts[i].tr.LazyErrorf("late")
		sts[i].tr.Finish()
	}
	stop()
	stopf()
	byID := map[string][]*trc.StaticTrace{}
	for _, st := range drain(ch) {
		byID[st.TraceID] = append(byID[st.TraceID], st)
	}
	fin := map[string][]*trc.StaticTrace{}
	for _, st := range drain(fch) {
		if !st.TraceFinished {
			c.Violate("the subscriber for finished traces received an active one")
		}
		fin[st.TraceID] = append(fin[st.TraceID], st)
	}
	if len(byID) != ntr+others {
		c.Violate("messages for %d traces, want %d", len(byID), ntr+others)
	}
	mine := map[string]bool{}
	for _, s := range sts {
		id := s.tr.ID()
		mine[id] = true
		msgs := byID[id]
		if len(msgs) < 2 {
			c.Violate("trace %s: only %d messages", id, len(msgs))
			continue
		}
		last := msgs[len(msgs)-1]
		if x := fin[id]; len(x) != 1 || mon.DiffTraces(x[0], last) != "" {
			c.Violate("trace %s: the subscriber for finished traces received %d messages", id, len(x))
		}
		if !last.TraceFinished {
			c.Violate("trace %s: the last message is not the finish", id)
			continue
		}
		pos := checkFinal(c, "finish message of "+id, last.TraceEvents, s.recs, false)
		if c.Failed() {
			return
		}
		for _, x := range s.recs {
			_, ok := pos[x.text]
			if x.end < s.f0 && !ok {
				c.Violate("trace %s: event %q, added before the trace was finished, is not in the finish message", id, x.text)
			}
			if x.start > s.f1 && ok {
				c.Violate("trace %s: event %q was added after the trace was finished", id, x.text)
			}
		}
		if len(msgs) != len(last.TraceEvents)+2 {
			c.Violate("trace %s: %d messages for %d events, want one per event, one creation and one finish", id, len(msgs), len(last.TraceEvents))
		}
		errored := false
		for i, msg := range msgs[:len(msgs)-1] {
			switch {
			case msg.TraceFinished:
				c.Violate("trace %s: message %d of %d is already the finish", id, i, len(msgs))
			case i == 0:
				if len(msg.TraceEvents) != 0 {
					c.Violate("trace %s: the creation message has events", id)
				}
			case len(msg.TraceEvents) != 1:
				c.Violate("trace %s: message %d has %d events", id, i, len(msg.TraceEvents))
			case i > len(last.TraceEvents):
				c.Violate("trace %s: too many messages", id)
			default:
				ev := msg.TraceEvents[0]
				errored = errored || ev.IsError
				if d := mon.DiffEvents(msg.TraceEvents, last.TraceEvents[i-1:i]); d != "" {
					c.Violate("trace %s: message %d is not for event %d of the trace: %s", id, i, i-1, d)
				}
				if msg.TraceErrored != errored {
					c.Violate("trace %s: message %d has status errored=%v, want %v", id, i, msg.TraceErrored, errored)
				}
			}
			if c.Failed() {
				return
			}
			if msg.TraceDuration > last.TraceDuration {
				c.Violate("trace %s: message %d has a duration longer than the final one", id, i)
			}
		}
		if last.TraceErrored != errored {
			c.Violate("trace %s: the finish message has status errored=%v, want %v", id, last.TraceErrored, errored)
		}
		if last.TraceDuration != s.tr.Duration() {
			c.Violate("trace %s: the finish message has duration %s, the trace %s", id, last.TraceDuration, s.tr.Duration())
		}
		c.Count("messages", len(msgs))
		c.Seen(len(last.TraceEvents), len(s.recs), nw, impl)
	}
	for id, msgs := range byID {
		if mine[id] {
			continue
		}
		if len(msgs) != 3 || len(msgs[0].TraceEvents) != 0 || len(msgs[1].TraceEvents) != 1 || !msgs[2].TraceFinished || len(msgs[2].TraceEvents) != 1 {
			c.Violate("trace %s: messages %.800s", id, mon.JSON(msgs))
		}
	}
	c.Sample("%d traces, %d writers x %d, %d other traces", ntr, nw, quota, others)
}
