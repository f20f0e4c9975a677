package core

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	appez "verif.local/trcmon/eztrc"
	"verif.local/trcmon/mon"
	apptrc "verif.local/trcmon/trc"
)

func TestC20(t *testing.T) {
	m := mon.Start(t, "C20")
	defer m.Done()
	m.Rule("sites: events made from %d application call sites (functions, methods, closures, generics, deferred functions, callbacks, goroutines, helpers with names like the library's own) at random depth, directly, through the easy API, up to 3 nested prefixes or regions and decorators, with stacks enabled or disabled when the trace was created; an argument on the same line records the true stack and every event's stack must be a non-empty beginning of it, whoever reads it and however often; distinct by site, way, depth and frames", len(c20Sites))
	m.Cases("sites", mon.N(3000, 250), c20Program)
	m.Rule("conc: goroutines with different stacks write to shared traces of a small collector while others read, create and drop traces; distinct by sites and writers")
	m.Cases("conc", mon.N(150, 150), c20Concurrent)
	m.Rule("trim: trimming stacks of copies of arbitrary traces to depths -3..12, directly and by searching, against a reference; non-trivial: some stack was cut; distinct by depth and stack lengths")
	m.Cases("trim", mon.N(3000, 100), c20Trim)
}

// truth is the true stack of a call.
type truth struct {
	text   string
	frames []trc.Frame
	method int
	wraps  int
	none   bool // no stack expected
	way    string
	loose  bool // text is not known
}

func (t *truth) String() string { return t.text }

// at records the stack of its caller.
func at(t *truth) *truth { t.frames = capture(3); return t }

func atName(t *truth) string { t.frames = capture(3); return t.text }

func atFunc(t *truth, fn func()) func() { t.frames = capture(3); return fn }

//go:noinline
func capture(skip int) []trc.Frame {
	pcs := make([]uintptr, 64)
	pcs = pcs[:runtime.Callers(skip, pcs)]
	frames := runtime.CallersFrames(pcs)
	var res []trc.Frame
	for {
		fr, more := frames.Next()
		res = append(res, trc.Frame{Function: fr.Function, FileLine: fr.File + ":" + strconv.Itoa(fr.Line)})
		if !more {
			return res
		}
	}
}

// emit is how an application adds an event: the trace in ctx, or the easy API.
func c20Emit(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
	switch {
	case easy && t.method == 0:
		eztrc.Tracef(ctx, "%s", at(t))
	case easy && t.method == 1:
		eztrc.LazyTracef(ctx, "%s", at(t))
	case easy && t.method == 2:
		eztrc.Errorf(ctx, "%s", at(t))
	case easy:
		eztrc.LazyErrorf(ctx, "%s", at(t))
	case t.method == 0:
		tr.Tracef("%s", at(t))
	case t.method == 1:
		tr.LazyTracef("%s", at(t))
	case t.method == 2:
		tr.Errorf("%s", at(t))
	default:
		tr.LazyErrorf("%s", at(t))
	}
}

type c20App struct{ name string }

// names like the library's own
func (a *c20App) Tracef(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
	c20Emit(ctx, tr, easy, t)
}
func (a c20App) LazyErrorf(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
	tr.Tracef("%s", at(t))
}
func Region(ctx context.Context, tr trc.Trace, easy bool, t *truth) { tr.Errorf("%s", at(t)) }
func NewTrace(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
	tr.LazyTracef("%s", at(t))
}

type c20Iface interface {
	Tracef(ctx context.Context, tr trc.Trace, easy bool, t *truth)
}

func c20Generic[T any](v T, ctx context.Context, tr trc.Trace, easy bool, t *truth) {
	tr.Tracef("%s", at(t))
}

// recorder records the stack of its caller, when called.
func recorder(t *truth) func() any { return func() any { t.frames = capture(3); return t } }

type c20Site func(ctx context.Context, tr trc.Trace, easy bool, t *truth)

var c20Sites = []c20Site{
	c20Emit,
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { tr.Tracef("%s", at(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { tr.LazyTracef("%s", at(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { eztrc.Errorf(ctx, "%s", at(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { eztrc.LazyErrorf(ctx, "%s", at(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { trc.Get(ctx).Errorf("%s", at(t)) },
	(&c20App{}).Tracef,
	c20App{}.LazyErrorf,
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
		(&c20App{"x"}).Tracef(ctx, tr, easy, t)
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
		c20Iface(&c20App{"x"}).Tracef(ctx, tr, easy, t)
	},
	Region,
	NewTrace,
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { c20Generic(1, ctx, tr, easy, t) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { c20Generic("", ctx, tr, easy, t) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { // deferred
		defer func() { tr.Tracef("%s", at(t)) }()
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { // while panicking
		defer func() { recover(); c20Emit(ctx, tr, easy, t) }()
		panic("x")
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { // callback through the standard library
		var once sync.Once
		once.Do(func() { c20Emit(ctx, tr, easy, t) })
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { // another goroutine
		done := make(chan struct{})
		go func() { defer close(done); tr.LazyErrorf("%s", at(t)) }()
		<-done
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { // method value
		f := tr.Tracef
		f("%s", at(t))
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { // through an unprefixed inner function
		func() { func() { eztrc.Get(ctx).Tracef("%s", at(t)) }() }()
	},
	// packages with the library's names
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { appez.Tracef(tr, recorder(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { appez.Region(tr, recorder(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
		new(appez.Collector).NewTrace(tr, recorder(t))
	},
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { apptrc.Tracef(tr, recorder(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) { apptrc.Region(tr, recorder(t)) },
	func(ctx context.Context, tr trc.Trace, easy bool, t *truth) {
		new(apptrc.Collector).NewTrace(tr, recorder(t))
	},
}

func c20Check(c *mon.C, evs []trc.Event, truths []*truth, who string) bool {
	if len(evs) != len(truths) {
		c.Violate("%s: %d events, want %d", who, len(evs), len(truths))
		return false
	}
	for i, ev := range evs {
		t := truths[i]
		if !t.loose && !strings.HasSuffix(ev.What, t.text) {
			c.Violate("%s: event %d is %q, want %q", who, i, ev.What, t.text)
			return false
		}
		if !c20One(c, ev, t, who) {
			return false
		}
	}
	return true
}

func c20One(c *mon.C, ev trc.Event, t *truth, who string) bool {
	if t.none {
		if len(ev.Stack) != 0 {
			c.Violate("%s: event %q has a stack although stacks were disabled when the trace was created", who, ev.What)
			return false
		}
		return true
	}
	if len(ev.Stack) == 0 {
		c.Violate("%s: event %q (%s) has no stack, it was made at %v", who, ev.What, t.way, t.frames[0])
		return false
	}
	if t.wraps <= 2 && len(ev.Stack) < 2 && len(t.frames) > 3 {
		c.Violate("%s: event %q (%s) has only %d stack frames, truly there are %d", who, ev.What, t.way, len(ev.Stack), len(t.frames))
		return false
	}
	if len(ev.Stack) > len(t.frames) {
		c.Violate("%s: event %q (%s) has %d stack frames, truly there are %d: %v", who, ev.What, t.way, len(ev.Stack), len(t.frames), ev.Stack)
		return false
	}
	for j, fr := range ev.Stack {
		if fr != t.frames[j] {
			c.Violate("%s: event %q (%s): frame %d is %v, want %v\nstack %v", who, ev.What, t.way, j, fr, t.frames[j], ev.Stack)
			return false
		}
	}
	return true
}

func c20Make(r *rand.Rand) (ctx context.Context, tr trc.Trace, coll *trc.Collector, wraps int, way string) {
	switch r.IntN(6) {
	case 0:
		ctx, tr = trc.New(bg, "src", "cat")
		return ctx, tr, nil, 0, "New"
	case 1:
		ctx, tr = trc.New(bg, "src", "cat", trc.LogDecorator(discard{}))
		return ctx, tr, nil, 1, "New+log"
	case 2:
		coll = trc.NewDefaultCollector()
		ctx, tr = coll.NewTrace(bg, "cat")
		return ctx, tr, coll, 1, "collector"
	case 3:
		coll = trc.NewDefaultCollector().SetDecorators(trc.LogDecorator(discard{}), mon.Passthrough)
		ctx, tr = coll.NewTrace(bg, "cat")
		return ctx, tr, coll, 2, "collector+log"
	case 4:
		coll = trc.NewDefaultCollector().SetDecorators(mon.Passthrough)
		ctx, tr = coll.NewTrace(bg, "cat")
		return ctx, tr, coll, 1, "collector+passthrough"
	default:
		ctx, tr = eztrc.New(bg, "cat")
		return ctx, tr, eztrc.Collector(), 1, "eztrc"
	}
}

func c20Program(c *mon.C) {
	r := c.R
	defer trc.SetTraceStacks(true)
	if mon.Chance(r, 0.3) {
		mon.Dirty(r)
	}
	enabled := true
	type one struct {
		ctx    context.Context
		tr     trc.Trace
		coll   *trc.Collector
		wraps  int
		none   bool
		way    string
		truths []*truth
	}
	var traces []*one
	var sig []any
	for k := mon.Range(r, 3, 25); k > 0 && !c.Failed(); k-- {
		if mon.Chance(r, 0.15) {
			enabled = mon.Chance(r, 0.5)
			trc.SetTraceStacks(enabled)
		}
		if len(traces) == 0 || mon.Chance(r, 0.25) {
			x := &one{none: !enabled}
			x.ctx, x.tr, x.coll, x.wraps, x.way = c20Make(r)
			traces = append(traces, x)
		}
		x := traces[r.IntN(len(traces))]
		// wrap
		ctx, tr, wraps, way := x.ctx, x.tr, x.wraps, x.way
		var finishes []func()
		for n := r.IntN(4); n > 0 && wraps < 4; n-- {
			switch r.IntN(4) {
			case 0, 1:
				if r.IntN(2) == 0 {
					ctx, tr = trc.Prefix(ctx, "p%d", n)
				} else {
					ctx, tr = eztrc.Prefix(ctx, "p%d", n)
				}
				wraps++
				way += "+prefix"
			case 2: // regions have events of their own
				t := &truth{text: mon.Token("region"), none: x.none, wraps: wraps, way: way + " region entry"}
				u := &truth{text: t.text, none: x.none, wraps: wraps, way: way + " region exit", loose: true}
				var fin func()
				if r.IntN(2) == 0 || wraps >= 3 {
					ctx, tr, fin = trc.Region(ctx, atName(t))
				} else {
					t.wraps, t.way = t.wraps+1, t.way+" (eztrc)"
					ctx, tr, fin = eztrc.Region(ctx, atName(t))
				}
				x.truths = append(x.truths, t)
				finishes = append(finishes, func() {
					x.truths = append(x.truths, u)
					atFunc(u, fin)()
				})
				wraps++
				way += "+region"
			default: // a new trace in a context that has one
				coll := x.coll
				if coll == nil {
					coll = trc.NewDefaultCollector()
				}
				t := &truth{text: mon.Token("category"), none: x.none, loose: true, wraps: wraps + 1, way: way + " NewTrace"}
				if r.IntN(2) == 0 || wraps >= 3 {
					ctx, tr = coll.NewTrace(ctx, atName(t))
				} else {
					t.way += " (eztrc)"
					t.wraps++
					ctx, tr = eztrc.New(ctx, atName(t))
				}
				x.truths = append(x.truths, t)
			}
		}
		site := r.IntN(len(c20Sites))
		t := &truth{text: mon.Token("ev"), method: r.IntN(4), none: x.none, wraps: wraps + 1, way: fmt.Sprintf("site %d, %s", site, way)}
		depth := mon.Pick(r, 0, 0, 1, 3, 8, 20)
		x.truths = append(x.truths, t)
		recurse(depth, func() { c20Sites[site](ctx, tr, mon.Chance(r, 0.5), t) })
		for len(finishes) > 0 {
			finishes[len(finishes)-1]()
			finishes = finishes[:len(finishes)-1]
		}
		sig = append(sig, site, way, depth, x.none)
		c.Seen(site, way, depth, x.none)
		c.Count("events", 1)
		if mon.Chance(r, 0.3) {
			c20Check(c, x.tr.Events(), x.truths, "read")
		}
		if mon.Chance(r, 0.1) {
			c20Check(c, x.tr.Events(), x.truths, "read again")
			if x.coll != nil {
				res, err := x.coll.Search(bg, &trc.SearchRequest{Filter: trc.Filter{IDs: []string{x.tr.ID()}}})
				if err != nil || len(res.Traces) != 1 {
					c.Violate("search: %v", err)
					return
				}
				c20Check(c, res.Traces[0].Events(), x.truths, "search")
			}
		}
	}
	for _, x := range traces {
		x.tr.Finish()
		c20Check(c, x.tr.Events(), x.truths, "final read")
		c.Count("traces", 1)
	}
	c.Sample("%d traces, sites and ways %v", len(traces), sig[:min(len(sig), 8)])
}

func c20Concurrent(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector().SetCategorySize(mon.Pick(r, 1, 2, 10))
	var sts []trc.Trace
	var ctxs []context.Context
	for i := 0; i < 2; i++ {
		ctx, tr := coll.NewTrace(bg, "cat")
		sts, ctxs = append(sts, tr), append(ctxs, ctx)
	}
	var mtx sync.Mutex
	truths := map[string]*truth{}
	var fns []func()
	nw := mon.Range(r, 2, 6)
	var sites []int
	for w := 0; w < nw; w++ {
		r := sub(r)
		depth := r.IntN(6)
		site := r.IntN(len(c20Sites))
		sites = append(sites, site)
		fns = append(fns, func() {
			recurse(depth, func() {
				for k := 0; k < 20; k++ {
					i := r.IntN(2)
					t := &truth{text: mon.Token("ev"), method: r.IntN(4), wraps: 2, way: fmt.Sprint("site ", site)}
					c20Sites[site](ctxs[i], sts[i], false, t)
					mtx.Lock()
					truths[t.text] = t
					mtx.Unlock()
				}
			})
		})
	}
	var reads [][]trc.Event
	fns = append(fns, func() {
		for k := 0; k < 10; k++ {
			reads = append(reads, sts[k%2].Events())
		}
	}, func() {
		for k := 0; k < 30; k++ {
			_, tr := coll.NewTrace(bg, "cat")
			recurse(k%5, func() { tr.LazyTracef("other") })
			tr.Events()
			tr.Finish()
		}
	})
	parallel(fns...)
	reads = append(reads, sts[0].Events(), sts[1].Events())
	n := 0
	for _, evs := range reads {
		for _, ev := range evs {
			t := truths[ev.What]
			if t == nil {
				c.Violate("unknown event %q", ev.What)
				return
			}
			if !c20One(c, ev, t, "concurrent") {
				return
			}
			n++
		}
	}
	c.Count("stacks", n)
	c.Seen(sites)
	c.Sample("%d writers at sites %v, %d stacks checked", nw, sites, n)
}

func c20Trim(c *mon.C) {
	r := c.R
	sts := population(r, mon.Range(r, 1, 6))
	if mon.Chance(r, 0.5) {
		_, tr := trc.New(bg, "src", "cat")
		for k := r.IntN(5); k > 0; k-- {
			recurse(r.IntN(9), func() { tr.LazyTracef("deep") })
		}
		sts = append(sts, mon.CopyTrace(tr))
	}
	depth := r.IntN(16) - 3
	cut := ""
	for _, st := range sts {
		cp := mon.CopyTrace(st)
		want := mon.CopyTrace(st)
		want.TraceEvents = mon.RefTrim(st.TraceEvents, depth)
		for i, ev := range want.TraceEvents {
			if len(ev.Stack) < len(st.TraceEvents[i].Stack) {
				cut += fmt.Sprint(len(st.TraceEvents[i].Stack), ".")
			}
		}
		got := cp.TrimStacks(depth)
		if d := mon.DiffTraces(got, want); d != "" {
			c.Violate("TrimStacks(%d): %s", depth, d)
			return
		}
		// again: nothing more is cut
		if d := mon.DiffTraces(got.TrimStacks(depth), want); d != "" {
			c.Violate("TrimStacks(%d) again: %s", depth, d)
			return
		}
	}
	coll := trc.NewDefaultCollector()
	mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return mon.Pick[trc.Trace](r, st, mon.NewForeign(st)) })
	res, err := coll.Search(bg, &trc.SearchRequest{StackDepth: depth, Limit: 250})
	if err != nil || len(res.Traces) != len(sts) {
		c.Violate("search: %v", err)
		return
	}
	byID := map[string]*trc.StaticTrace{}
	for _, st := range sts {
		byID[st.TraceID] = st
	}
	for _, got := range res.Traces {
		st := byID[got.TraceID]
		if st == nil {
			c.Violate("search returned unknown trace %s", got.TraceID)
			return
		}
		if d := mon.DiffEvents(got.TraceEvents, mon.RefTrim(st.TraceEvents, depth)); d != "" {
			c.Violate("search with stack depth %d: %s", depth, d)
			return
		}
	}
	if cut != "" {
		c.Seen(depth, cut)
		c.Sample("depth %d cuts stacks of lengths %s", depth, cut)
	}
}
