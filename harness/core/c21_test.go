package core

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

// The workers of a storm share nothing of the harness but what is fixed before
// they start: anything else could order their accesses and hide a race.

func TestC21(t *testing.T) {
	m := mon.Start(t, "C21")
	defer m.Done()
	defer trc.SetTraceStacks(true)
	defer trc.SetTraceMaxEvents(1000)
	m.Rule("storm: up to ten goroutines run random programs over all operations of shared traces, contexts, collectors (with one or two slots per category, so that traces are dropped all the time), multi-searches, brokers, streams, filters, copies and global settings; monitors: race detector (with perturbed schedules), panics, progress; non-trivial: a trace was dropped, a search and a stream overlapped writers; distinct by programs")
	m.Cases("storm", mon.N(120, 260), c21Storm)
	m.Rule("pairs: two or three operations, drawn from the same list, are repeated by one goroutine each on the same objects; distinct by operations")
	m.Cases("pairs", mon.N(150, 700), c21Pairs)
	m.Rule("returns: every operation is called while another goroutine is inside a callback of the package (a log writer, a formatted argument, a custom trace) or while subscribers do not receive; each must return; distinct by operation and obstacle")
	m.Cases("returns", mon.N(200, 100), c21Returns)
}

// world is what the workers of a storm share; it is fixed before they start.
type world struct {
	broker  *trc.Broker
	colls   []*trc.Collector
	ctxs    []context.Context
	trs     []trc.Trace
	statics []*trc.StaticTrace
	filter  *trc.Filter // normalized
	event   trc.Event
	multi   trc.MultiSearcher
	ch      chan trc.Trace // subscribed all the time, nobody receives
	reqs    []*trc.SearchRequest
}

type discardWriter struct{}

func (discardWriter) Write(p []byte) (int, error) { return len(p), nil }

func newWorld(r *rand.Rand) (*world, func()) {
	w := &world{broker: trc.NewBroker(), ch: make(chan trc.Trace, mon.Pick(r, 0, 1, 10))}
	logger := log.New(io.Discard, "", 0)
	ds := []trc.DecoratorFunc{trc.LogDecorator(discardWriter{}), trc.LoggerDecorator(logger), mon.Passthrough}
	for i := mon.Range(r, 1, 3); i > 0; i-- {
		cfg := trc.CollectorConfig{Source: fmt.Sprint("src", i)}
		if mon.Chance(r, 0.6) {
			cfg.Broker = w.broker
		}
		for k := r.IntN(3); k > 0; k-- {
			cfg.Decorators = append(cfg.Decorators, ds[r.IntN(len(ds))])
		}
		c := trc.NewCollector(cfg)
		c.SetCategorySize(mon.Pick(r, 1, 1, 2, 5, 100))
		w.colls = append(w.colls, c)
		w.multi = append(w.multi, c)
	}
	w.multi = append(w.multi, failing{})
	for i := mon.Range(r, 2, 5); i > 0; i-- {
		c := w.colls[r.IntN(len(w.colls))]
		ctx, tr := c.NewTrace(bg, fmt.Sprint("cat", r.IntN(2)))
		switch r.IntN(4) {
		case 0:
			ctx, tr = trc.New(bg, "plain", "cat")
		case 1:
			trc.SetMaxEvents(tr, 20)
		}
		w.ctxs, w.trs = append(w.ctxs, ctx), append(w.trs, tr)
		if mon.Chance(r, 0.5) {
			ctx, tr = trc.Prefix(ctx, "pre %d", i)
			w.ctxs, w.trs = append(w.ctxs, ctx), append(w.trs, tr)
		}
		if mon.Chance(r, 0.3) {
			ctx, tr, _ = trc.Region(ctx, "region")
			w.ctxs, w.trs = append(w.ctxs, ctx), append(w.trs, tr)
		}
		tr.LazyTracef("lazy %d", i)
		tr.Errorf("eager %d", i)
		w.statics = append(w.statics, trc.NewSearchTrace(tr))
	}
	w.event = w.trs[0].Events()[0]
	f := mon.AnyFilter(r, w.statics)
	f.Normalize()
	w.filter = &f
	ctx, cancel := context.WithCancel(bg)
	done := make(chan struct{})
	go func() { defer close(done); w.colls[0].Stream(ctx, trc.Filter{}, w.ch) }()
	for {
		if _, err := w.colls[0].StreamStats(bg, w.ch); err == nil {
			break
		}
		time.Sleep(20 * time.Microsecond)
	}
	return w, func() { cancel(); <-done }
}

type failing struct{}

func (failing) Search(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
	return nil, errors.New("failed")
}

// op is an operation on the world, with what the worker has of its own.
type own struct {
	ctx context.Context
	tr  trc.Trace
	n   int
}

type op struct {
	name string
	do   func(w *world, r *rand.Rand, o *own)
}

func (w *world) coll(r *rand.Rand) *trc.Collector { return w.colls[r.IntN(len(w.colls))] }

func (w *world) trace(r *rand.Rand, o *own) trc.Trace {
	if o.tr != nil && mon.Chance(r, 0.2) {
		return o.tr
	}
	return w.trs[r.IntN(len(w.trs))]
}

func (w *world) ctx(r *rand.Rand, o *own) context.Context {
	if o.ctx != nil && mon.Chance(r, 0.2) {
		return o.ctx
	}
	return w.ctxs[r.IntN(len(w.ctxs))]
}

func look(st *trc.StaticTrace) {
	for _, ev := range st.Events() {
		_ = len(ev.What) + len(ev.Stack)
		for _, fr := range ev.Stack {
			_ = fr.CompactFileLine()
		}
	}
	_ = st.ID() + st.Source() + st.Category()
	_ = st.Duration() > 0 && st.Errored() && st.Finished()
}

var storage = []op{
	{"create", func(w *world, r *rand.Rand, o *own) {
		o.ctx, o.tr = w.coll(r).NewTrace(bg, fmt.Sprint("cat", r.IntN(3)))
	}},
	{"reuse", func(w *world, r *rand.Rand, o *own) { w.coll(r).NewTrace(w.ctx(r, o), "again") }},
	{"resize", func(w *world, r *rand.Rand, o *own) { w.coll(r).SetCategorySize(mon.Pick(r, -1, 0, 1, 2, 3, 20)) }},
	{"search", func(w *world, r *rand.Rand, o *own) {
		req := &trc.SearchRequest{Filter: mon.AnyFilter(r, w.statics), Limit: mon.Pick(r, 1, 5, 100), StackDepth: mon.Pick(r, 0, 1, -1)}
		res, err := w.coll(r).Search(mon.Pick(r, bg, w.ctx(r, o)), req)
		if err == nil {
			for _, st := range res.Traces {
				look(st)
			}
			res.Stats.Overall()
			_ = req.String()
		}
	}},
	{"multi", func(w *world, r *rand.Rand, o *own) {
		res, err := w.multi.Search(mon.Pick(r, bg, w.ctx(r, o)), &trc.SearchRequest{Filter: mon.AnyFilter(r, w.statics), Limit: mon.Pick(r, 1, 5)})
		if err == nil {
			for _, st := range res.Traces {
				look(st)
			}
			json.Marshal(res)
		}
	}},
}

var tracing = []op{
	{"Tracef", func(w *world, r *rand.Rand, o *own) { w.trace(r, o).Tracef("event %d", o.n) }},
	{"LazyTracef", func(w *world, r *rand.Rand, o *own) { w.trace(r, o).LazyTracef("event %d %s", o.n, "x") }},
	{"Errorf", func(w *world, r *rand.Rand, o *own) { w.trace(r, o).Errorf("event %d", o.n) }},
	{"LazyErrorf", func(w *world, r *rand.Rand, o *own) { w.trace(r, o).LazyErrorf("event %d %v", o.n, bg) }},
	{"read", func(w *world, r *rand.Rand, o *own) {
		tr := w.trace(r, o)
		for _, ev := range tr.Events() {
			_ = len(ev.What) + len(ev.Stack)
			for _, fr := range ev.Stack {
				_ = fr.FileLine + fr.Function
			}
		}
		_ = tr.ID() + tr.Source() + tr.Category()
		_ = tr.Started().IsZero() || tr.Duration() > 0 && tr.Errored() && tr.Finished()
	}},
	{"status", func(w *world, r *rand.Rand, o *own) {
		tr := w.trace(r, o)
		_ = tr.Finished() || tr.Errored() || tr.Duration() > 0
	}},
	{"finish", func(w *world, r *rand.Rand, o *own) {
		if o.tr != nil {
			o.tr.Finish()
			o.tr, o.ctx = nil, nil
		} else if mon.Chance(r, 0.05) {
			w.trace(r, o).Finish()
		}
	}},
	{"limit", func(w *world, r *rand.Rand, o *own) { trc.SetMaxEvents(w.trace(r, o), mon.Pick(r, 0, 10, 30, 5000)) }},
	{"prefix", func(w *world, r *rand.Rand, o *own) {
		_, tr := trc.Prefix(w.ctx(r, o), "p%d", o.n)
		tr.LazyTracef("in prefix %d", o.n)
		tr.Tracef("in prefix")
	}},
	{"region", func(w *world, r *rand.Rand, o *own) {
		ctx, tr, done := trc.Region(w.ctx(r, o), "reg")
		tr.Tracef("in region")
		trc.Get(ctx).LazyErrorf("in region %d", o.n)
		done()
	}},
	{"get", func(w *world, r *rand.Rand, o *own) {
		ctx := w.ctx(r, o)
		trc.MaybeGet(ctx)
		trc.Put(ctx, trc.Get(ctx))
		trc.Get(bg).Tracef("to nowhere")
	}},
	{"new", func(w *world, r *rand.Rand, o *own) {
		o.ctx, o.tr = trc.New(bg, "src", "cat", trc.LogDecorator(discardWriter{}))
	}},
	{"copy", func(w *world, r *rand.Rand, o *own) {
		tr := w.trace(r, o)
		look(trc.NewSearchTrace(tr).TrimStacks(mon.Pick(r, 0, 1, -1)))
		look(trc.NewStreamTrace(tr))
	}},
	{"json", func(w *world, r *rand.Rand, o *own) {
		st := trc.NewSearchTrace(w.trace(r, o))
		json.Marshal(st)
		json.Marshal(w.statics[r.IntN(len(w.statics))])
	}},
	{"static", func(w *world, r *rand.Rand, o *own) {
		st := w.statics[r.IntN(len(w.statics))]
		st.Tracef("x")
		st.LazyErrorf("x")
		st.Finish()
		look(st)
		trc.NewSearchTrace(st).TrimStacks(1)
		trc.NewStreamTrace(st)
	}},
	{"allow", func(w *world, r *rand.Rand, o *own) {
		w.filter.Allow(w.trace(r, o))
		w.filter.Allow(w.statics[r.IntN(len(w.statics))])
		_ = w.filter.String()
	}},
	{"observe", func(w *world, r *rand.Rand, o *own) {
		ss := trc.NewSearchStats(nil)
		ss.Observe(w.trace(r, o), w.statics[r.IntN(len(w.statics))])
		ss.Overall()
	}},
	{"stacks", func(w *world, r *rand.Rand, o *own) { trc.SetTraceStacks(mon.Chance(r, 0.6)) }},
	{"maxevents", func(w *world, r *rand.Rand, o *own) { trc.SetTraceMaxEvents(mon.Pick(r, 0, 10, 15, 200, 99999)) }},
}

var streaming = []op{
	{"publish", func(w *world, r *rand.Rand, o *own) { w.broker.Publish(w.ctx(r, o), w.trace(r, o)) }},
	{"publishStatic", func(w *world, r *rand.Rand, o *own) { w.broker.Publish(bg, w.statics[r.IntN(len(w.statics))]) }},
	{"stream", func(w *world, r *rand.Rand, o *own) {
		f := mon.AnyFilter(r, w.statics)
		ch := make(chan trc.Trace, mon.Pick(r, 0, 1, 50))
		ctx, cancel := context.WithCancel(bg)
		done := make(chan struct{})
		stream, stats := w.broker.Stream, w.broker.StreamStats
		if mon.Chance(r, 0.5) {
			c := w.coll(r)
			stream, stats = c.Stream, c.StreamStats
		}
		go func() {
			defer close(done)
			stream(ctx, f, ch)
		}()
		for k := r.IntN(6); k > 0; k-- {
			select {
			case tr := <-ch:
				_ = tr.ID()
				_ = len(tr.Events())
			case <-time.After(time.Duration(r.IntN(100)) * time.Microsecond):
			}
			if mon.Chance(r, 0.5) {
				s, err := stats(bg, ch)
				_, _ = s.String(), err
			}
		}
		cancel()
		<-done
	}},
	{"streamStats", func(w *world, r *rand.Rand, o *own) { w.coll(r).StreamStats(bg, w.ch); w.broker.StreamStats(bg, w.ch) }},
	{"streamTwice", func(w *world, r *rand.Rand, o *own) {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		w.colls[0].Stream(ctx, trc.Filter{}, w.ch) // is subscribed already
	}},
}

var allOps = append(append(append([]op{}, storage...), tracing...), streaming...)

func c21Storm(c *mon.C) {
	r := c.R
	w, stop := newWorld(r)
	workers := mon.Range(r, 2, 10)
	sigs := make([]string, workers)
	counts := make([]map[string]int, workers)
	var fns []func()
	for g := 0; g < workers; g++ {
		r := sub(r)
		// a worker has a few favourites
		ops := append([]op{}, allOps...)
		for k := r.IntN(30); k > 0; k-- {
			ops = append(ops, allOps[r.IntN(len(allOps))], tracing[r.IntN(6)])
		}
		fns = append(fns, func() {
			o, n := &own{}, map[string]int{}
			for i := mon.Range(r, 20, 80); i > 0; i-- {
				x := ops[r.IntN(len(ops))]
				o.n = i
				x.do(w, r, o)
				n[x.name]++
				sigs[g] += x.name[:2]
			}
			counts[g] = n
		})
	}
	parallel(fns...)
	stop()
	total := map[string]int{}
	for _, n := range counts {
		for k, v := range n {
			total[k] += v
			c.Count("op_"+k, v)
		}
	}
	if total["create"] > 2 && total["search"]+total["multi"] > 0 && total["stream"] > 0 {
		c.Seen(fmt.Sprint(sigs))
	}
	c.Sample("%d workers, %d collectors: %v", workers, len(w.colls), total)
}

func c21Pairs(c *mon.C) {
	r := c.R
	w, stop := newWorld(r)
	names := ""
	var fns []func()
	for k := mon.Pick(r, 2, 2, 3); k > 0; k-- {
		x := allOps[r.IntN(len(allOps))]
		names += " " + x.name
		r := sub(r)
		fns = append(fns, func() {
			o := &own{}
			for i := 15; i > 0; i-- {
				o.n = i
				x.do(w, r, o)
			}
		})
	}
	if mon.Chance(r, 0.5) { // with a writer
		rr := sub(r)
		fns = append(fns, func() {
			o := &own{}
			for i := 20; i > 0; i-- {
				tracing[rr.IntN(4)].do(w, rr, o)
			}
		})
	}
	parallel(fns...)
	stop()
	c.Count("pairs", 1)
	c.Seen(names)
	if c.Index < 4 {
		c.Sample("pair:%s", names)
	}
}

// c21Returns has one goroutine stuck in a callback and calls everything else.
func c21Returns(c *mon.C) {
	r := c.R
	enter, release := make(chan struct{}), make(chan struct{})
	var once sync.Once
	block := func() {
		once.Do(func() { close(enter); <-release })
	}
	kind := mon.Pick(r, "log writer", "argument", "other subscriber", "searcher")
	coll := trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{trc.LogDecorator(funcWriter(func() {
		if kind == "log writer" {
			block()
		}
	}))}})
	// nobody receives from this one
	idle := make(chan trc.Trace, mon.Pick(r, 0, 3))
	sctx, scancel := context.WithCancel(bg)
	sdone := make(chan struct{})
	go func() { defer close(sdone); coll.Stream(sctx, trc.Filter{}, idle) }()
	for {
		if _, err := coll.StreamStats(bg, idle); err == nil {
			break
		}
		time.Sleep(20 * time.Microsecond)
	}
	quiet := trc.NewCollector(trc.CollectorConfig{})
	ctx, tr := quiet.NewTrace(bg, "cat")
	stuck := make(chan struct{})
	go func() {
		defer close(stuck)
		switch kind {
		case "log writer":
			_, ltr := coll.NewTrace(bg, "logged")
			ltr.Tracef("x")
		case "argument":
			_, atr := trc.New(bg, "src", "cat")
			atr.Tracef("%v", funcStringer(func() string { block(); return "arg" }))
		case "other subscriber":
			block()
		case "searcher":
			trc.MultiSearcher{quiet, searcherFunc(block)}.Search(bg, &trc.SearchRequest{})
		}
	}()
	<-enter
	var calls []string
	call := func(name string, f func()) {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			c.Violate("%s has not returned after 30s while a goroutine is in a %s", name, kind)
		}
		calls = append(calls, name)
	}
	all := []func(){
		func() { call("create", func() { quiet.NewTrace(bg, "other") }) },
		func() { call("event", func() { tr.Tracef("x"); tr.LazyErrorf("y") }) },
		func() { call("read", func() { tr.Events(); tr.Duration(); tr.Finished() }) },
		func() { call("search", func() { quiet.Search(bg, &trc.SearchRequest{}) }) },
		func() { call("resize", func() { quiet.SetCategorySize(mon.Range(sub(c.R), 1, 9)) }) },
		func() { call("prefix", func() { _, p := trc.Prefix(ctx, "p"); p.Tracef("x") }) },
		func() { call("region", func() { _, _, f := trc.Region(ctx, "r"); f() }) },
		func() { call("settings", func() { trc.SetTraceStacks(true); trc.SetTraceMaxEvents(1000) }) },
		func() { call("streamStats", func() { coll.StreamStats(bg, idle) }) },
		func() {
			call("stream", func() {
				ctx, cancel := context.WithTimeout(bg, time.Millisecond)
				defer cancel()
				quiet.Stream(ctx, trc.Filter{}, make(chan trc.Trace))
			})
		},
		func() { call("finish", func() { tr.Finish(); tr.Finish() }) },
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, f := range all[:mon.Range(r, 3, len(all))] {
		if c.Failed() {
			break
		}
		f()
	}
	close(release)
	call("stuck", func() { <-stuck })
	scancel()
	call("end of stream", func() { <-sdone })
	c.Count("calls_returned", len(calls))
	c.Seen(kind, fmt.Sprint(calls))
	c.Sample("%s: %v", kind, calls)
}

type funcWriter func()

func (f funcWriter) Write(p []byte) (int, error) { f(); return len(p), nil }

type funcStringer func() string

func (f funcStringer) String() string { return f() }

type searcherFunc func()

func (f searcherFunc) Search(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
	f()
	return nil, errors.New("done")
}
