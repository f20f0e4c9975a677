package mon

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/peterbourgon/trc"
)

// ContextAPI is a way to do things with traces in contexts.
type ContextAPI struct {
	Name     string
	Prefix   func(ctx context.Context, format string, args ...any) (context.Context, trc.Trace)
	Region   func(ctx context.Context, name string) (context.Context, trc.Trace, func())
	Get      func(ctx context.Context) trc.Trace
	MaybeGet func(ctx context.Context) (trc.Trace, bool)
	Event    func(ctx context.Context, method int, format string, args ...any)
	Create   func(ctx context.Context, category string) (context.Context, trc.Trace) // in a collector
}

// CoreAPI uses package trc on the given collector.
func CoreAPI(c *trc.Collector) *ContextAPI {
	return &ContextAPI{
		Name: "trc", Prefix: trc.Prefix, Region: trc.Region, Get: trc.Get, MaybeGet: trc.MaybeGet, Create: c.NewTrace,
		Event: func(ctx context.Context, method int, format string, args ...any) {
			Call(trc.Get(ctx), method, format, args...)
		},
	}
}

type wantEvent struct {
	text    string
	prefix  string // with contains: exact start
	contain string // instead of text
	exit    bool   // text is followed by " [duration]"
	took    time.Duration
	isErr   bool
}

func (w wantEvent) match(ev trc.Event) bool {
	if ev.IsError != w.isErr {
		return false
	}
	switch {
	case w.contain != "":
		return strings.HasPrefix(ev.What, w.prefix) && strings.Contains(ev.What[len(w.prefix):], w.contain)
	case w.exit:
		rest, ok := strings.CutPrefix(ev.What, w.text+" [")
		if !ok {
			return false
		}
		rest, ok = strings.CutSuffix(rest, "]")
		return ok && (w.took < 0 && validDuration(rest) || w.took >= 0 && Humanize(rest, w.took))
	}
	return ev.What == w.text
}

func validDuration(s string) bool { _, err := time.ParseDuration(s); return err == nil }

func (w wantEvent) String() string {
	switch {
	case w.contain != "":
		return fmt.Sprintf("%q followed by something naming %q (error %v)", w.prefix, w.contain, w.isErr)
	case w.exit:
		return fmt.Sprintf("%q with a duration of %s", w.text, w.took)
	}
	return fmt.Sprintf("%q (error %v)", w.text, w.isErr)
}

// modelTrace is what a trace should hold.
type modelTrace struct {
	mtx      sync.Mutex
	tr       trc.Trace // any handle to read it
	want     []wantEvent
	finished bool
	id       string
}

func (m *modelTrace) add(w wantEvent) {
	if !m.finished {
		m.want = append(m.want, w)
	}
}

func (m *modelTrace) check(c *C, where string) {
	evs := m.tr.Events()
	if len(evs) != len(m.want) {
		got := make([]string, len(evs))
		for i := range evs {
			got[i] = evs[i].What
		}
		c.Violate("%s: trace %s has %d events, want %d: %.500q, want %.500v", where, m.id, len(evs), len(m.want), got, m.want)
		return
	}
	for i, ev := range evs {
		if !m.want[i].match(ev) {
			c.Violate("%s: event %d is %.300q (error %v), want %.300s", where, i, ev.What, ev.IsError, m.want[i])
			return
		}
	}
}

type node struct {
	ctx    context.Context
	model  *modelTrace // nil: none
	handle trc.Trace   // what the context must carry
	render string      // prefixes rendered
}

var hostileNames = []string{"reg", "", "%d", "100%", "%s%v", "%!", "%[1]d %[2]d", "a\nb", "日本 [x]", "<b>", "x [1ms]", "%%", "% d", "·", " lead", "trail ", "\ttabs\t", "  ", "two  spaces", strings.Repeat("long", 3000)}

// ContextProgram runs a random program of context operations against a model.
// It must run in a bubble.
func ContextProgram(c *C, api *ContextAPI, plain func(ctx context.Context, category string) (context.Context, trc.Trace)) {
	r := c.R
	bg := context.Background()
	nodes := []*node{{ctx: bg}}
	var models []*modelTrace
	type region struct {
		parent *node
		name   string
		begin  time.Time
		finish func()
	}
	var regions []*region
	hist := ""
	depth, maxDepth := map[*node]int{}, 0
	type prefix struct {
		format string
		args   []any
	}
	prefixes := map[*node]prefix{}

	carry := func(what string, ctx context.Context, tr trc.Trace) bool {
		got, ok := api.MaybeGet(ctx)
		if !ok || got != tr || api.Get(ctx) != tr {
			c.Violate("%s: the context carries %p (ok %v), the trace returned with it is %p", what, got, ok, tr)
			return false
		}
		return true
	}
	newModel := func(tr trc.Trace) *modelTrace {
		m := &modelTrace{tr: tr, id: tr.ID()}
		for _, o := range models {
			if o.id == m.id {
				c.Violate("a new trace has the ID of another")
			}
		}
		models = append(models, m)
		return m
	}
	name := func() string {
		if Chance(r, 0.6) {
			return Pick(r, hostileNames...) + Token("R")
		}
		return Pick(r, hostileNames...)
	}

	steps := Range(r, 4, 45)
	deep := 0 // nested prefixes and regions for a start
	if Chance(r, 0.04) {
		deep = Pick(r, 7, 12, 20, 40)
		steps += deep
	}
	for i := 0; i < steps && !c.Failed(); i++ {
		n := nodes[len(nodes)-1-r.IntN(min(len(nodes), Pick(r, 1, 4, 100)))]
		op := r.IntN(20)
		if i < deep {
			n = nodes[len(nodes)-1]
			op = Pick(r, 4, 5, 6, 8)
			if i == 0 {
				op = Pick(r, 0, 2)
			}
		}
		hist += string(rune('a' + op))
		switch {
		case op == 0: // plain new, shadows
			cat := Pick(r, Categories...)
			ctx, tr := plain(n.ctx, cat)
			if !carry("New", ctx, tr) {
				return
			}
			nodes = append(nodes, &node{ctx: ctx, model: newModel(tr), handle: tr})
		case op <= 2: // collector: reuse or create
			cat := Pick(r, Categories...)
			ctx, tr := api.Create(n.ctx, cat)
			if !carry("NewTrace", ctx, tr) {
				return
			}
			if n.model == nil {
				if tr.Category() != cat {
					c.Violate("NewTrace: category %q, want %q", tr.Category(), cat)
				}
				nodes = append(nodes, &node{ctx: ctx, model: newModel(tr), handle: tr})
				break
			}
			if tr != n.handle {
				c.Violate("NewTrace in a context with a trace did not reuse it")
				return
			}
			if cat == "" {
				n.model.add(wantEvent{prefix: n.render, contain: "+"})
			} else {
				n.model.add(wantEvent{prefix: n.render, contain: cat})
			}
			nodes = append(nodes, &node{ctx: ctx, model: n.model, handle: tr, render: n.render})
			depth[nodes[len(nodes)-1]] = depth[n]
		case op == 3: // Put
			if len(nodes) < 2 {
				continue
			}
			o := nodes[1+r.IntN(len(nodes)-1)]
			if o.model == nil {
				continue
			}
			ctx, tr := trc.Put(n.ctx, o.handle)
			if tr != o.handle || !carry("Put", ctx, o.handle) {
				c.Violate("Put returned another trace")
				return
			}
			nodes = append(nodes, &node{ctx: ctx, model: o.model, handle: tr, render: o.render})
			depth[nodes[len(nodes)-1]] = depth[o]
		case op <= 7: // Prefix
			format, args := Format(r, false)
			switch r.IntN(8) {
			case 0:
				format, args = "", nil
			case 1:
				format, args = "  ", nil
			case 2:
				format = " " + format + "\t"
			}
			if strings.TrimSpace(format) == "" {
				args = nil
			}
			if last, ok := prefixes[n]; ok && Chance(r, 0.2) { // the very same again
				format, args = last.format, last.args
			}
			ctx, tr := api.Prefix(n.ctx, format, args...)
			if !carry("Prefix", ctx, tr) {
				return
			}
			k := &node{ctx: ctx, model: n.model, handle: tr, render: n.render}
			if f := strings.TrimSpace(format); f != "" {
				k.render += fmt.Sprintf(f, args...) + " "
			}
			if k.model == nil {
				k.model = newModel(tr)
			} else if tr.ID() != n.model.id {
				c.Violate("Prefix: the trace has ID %s, want %s", tr.ID(), n.model.id)
			}
			nodes = append(nodes, k)
			depth[k] = depth[n] + 1
			prefixes[k] = prefix{format, args}
		case op <= 9: // Region
			nm := name()
			ctx, tr, finish := api.Region(n.ctx, nm)
			if !carry("Region", ctx, tr) {
				return
			}
			k := &node{ctx: ctx, model: n.model, handle: tr, render: n.render + "· "}
			p := n
			if k.model == nil {
				k.model = newModel(tr)
				p = &node{model: k.model}
			}
			k.model.add(wantEvent{text: p.render + "→ " + nm})
			regions = append(regions, &region{p, nm, time.Now(), finish})
			nodes = append(nodes, k)
			depth[k] = depth[n] + 1
			if !k.model.finished {
				c.Count("regions", 1)
			}
		case op == 10: // end a region
			if len(regions) == 0 {
				continue
			}
			j := len(regions) - 1 - r.IntN(min(2, len(regions)))
			rg := regions[j]
			regions = append(regions[:j:j], regions[j+1:]...)
			rg.finish()
			rg.parent.model.add(wantEvent{text: rg.parent.render + "← " + rg.name, exit: true, took: time.Since(rg.begin)})
		case op == 11: // derived context
			ctx := n.ctx
			switch r.IntN(3) {
			case 0:
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
				if Chance(r, 0.5) {
					cancel()
				}
			case 1:
				ctx = context.WithValue(ctx, ctxKey{}, "v")
			case 2:
				ctx = context.WithoutCancel(ctx)
			}
			k := *n
			k.ctx = ctx
			nodes = append(nodes, &k)
			depth[&k] = depth[n]
		case op == 12:
			if Chance(r, 0.5) { // any magnitude
				time.Sleep(time.Duration(math.Exp(r.Float64() * math.Log(float64(30*24*time.Hour)))))
			} else {
				time.Sleep(Pick(r, 1, 1500, 3*time.Millisecond, 1234567*time.Microsecond, 90*time.Second, 130*time.Second, 119*time.Second, 90*time.Minute, 119*time.Minute, 30*24*time.Hour))
			}
		case op == 13 && Chance(r, 0.15):
			if n.model != nil {
				n.handle.Finish()
				n.model.finished = true
			}
		default: // event
			m := r.IntN(4)
			format, args := Format(r, Chance(r, 0.0))
			if Chance(r, 0.6) {
				format += Token(" ev")
			}
			text := fmt.Sprintf(format, args...)
			if n.model == nil {
				// lands in an orphan, nowhere else
				api.Event(n.ctx, m, format, args...)
				break
			}
			n.model.add(wantEvent{text: n.render + text, isErr: IsErr(m)})
			if Chance(r, 0.5) {
				api.Event(n.ctx, m, format, args...)
			} else {
				Call(n.handle, m, format, args...)
			}
			c.Count("events", 1)
			maxDepth = max(maxDepth, depth[n])
		}
		// contexts never change
		for _, k := range nodes {
			tr, ok := api.MaybeGet(k.ctx)
			if k.model == nil {
				if ok {
					c.Violate("a context without a trace now carries %s", tr.ID())
					return
				}
				a, b := api.Get(k.ctx), api.Get(k.ctx)
				if a == nil || b == nil || a.ID() == b.ID() {
					c.Violate("Get without a trace does not give fresh traces")
					return
				}
			} else if tr != k.handle {
				c.Violate("a context now carries another trace")
				return
			}
		}
		if Chance(r, 0.3) {
			for _, m := range models {
				m.check(c, "after a step")
			}
		}
	}
	for _, rg := range regions {
		rg.finish()
		rg.parent.model.add(wantEvent{text: rg.parent.render + "← " + rg.name, exit: true, took: time.Since(rg.begin)})
	}
	for _, m := range models {
		m.check(c, "at the end")
	}
	c.Count("traces", len(models))
	c.Count("contexts", len(nodes))
	if maxDepth > 0 && len(models) > 0 {
		c.Seen(api.Name, hist, maxDepth)
	}
	c.Sample("%s: steps %s, %d contexts, %d traces, %d prefixes deep", api.Name, hist, len(nodes), len(models), maxDepth)
}

type ctxKey struct{}

// ContextStorm lets goroutines share prefixed contexts; every event must land
// once in its trace with exactly its own prefixes and arguments.
func ContextStorm(c *C, api *ContextAPI) {
	r := c.R
	bg := context.Background()
	type shared struct {
		ctx    context.Context
		root   int
		render string
	}
	var pool []shared
	var roots []trc.Trace
	for k := Range(r, 1, 3); k > 0; k-- {
		ctx, tr := api.Create(bg, fmt.Sprint("root", k))
		roots = append(roots, tr)
		pool = append(pool, shared{ctx, len(roots) - 1, ""})
	}
	for k := Range(r, 1, 4); k > 0; k-- {
		p := pool[r.IntN(len(pool))]
		format, args := Format(r, false)
		spare := make([]any, len(args), len(args)+6)
		copy(spare, args)
		ctx, _ := api.Prefix(p.ctx, "P"+format, spare...)
		pool = append(pool, shared{ctx, p.root, p.render + strings.TrimRight(fmt.Sprintf(strings.TrimSpace("P"+format), args...), "") + " "})
	}
	workers := Range(r, 2, 6)
	type w struct {
		root int
		text string
		err  bool
		n    int
	}
	wants := make([][]w, workers)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := 0; g < workers; g++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for i := 0; i < 25; i++ {
				p := pool[rr.IntN(len(pool))]
				if Chance(rr, 0.3) {
					tok := Token("own")
					p.ctx, _ = api.Prefix(p.ctx, "%s", tok)
					p.render += tok + " "
				}
				var fin func()
				pre := p.render
				var nm string
				if Chance(rr, 0.15) {
					nm = Token("region")
					p.ctx, _, fin = api.Region(p.ctx, nm)
					p.render += "· "
					wants[g] = append(wants[g], w{p.root, pre + "→ " + nm, false, 0})
				}
				m := rr.IntN(4)
				a, b := rr.IntN(1000), Token("ev")
				api.Event(p.ctx, m, "%d-%s", a, b)
				wants[g] = append(wants[g], w{p.root, p.render + fmt.Sprintf("%d-%s", a, b), IsErr(m), 0})
				if fin != nil {
					fin()
					wants[g] = append(wants[g], w{p.root, pre + "← " + nm + " [", false, 1})
				}
				if Chance(rr, 0.1) {
					roots[p.root].Events()
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	order := ""
	for i, tr := range roots {
		left := map[string]int{}
		exits := map[string]int{}
		for g := range wants {
			for _, x := range wants[g] {
				if x.root != i {
					continue
				}
				key := fmt.Sprintf("%v|%s", x.err, x.text)
				if x.n == 1 {
					exits[key]++
				} else {
					left[key]++
				}
			}
		}
		for _, ev := range tr.Events() {
			key := fmt.Sprintf("%v|%s", ev.IsError, ev.What)
			if len(order) < 400 {
				order += key[len(key)-1:]
			}
			if left[key] > 0 {
				left[key]--
				continue
			}
			if at := strings.LastIndex(key, " ["); at >= 0 && exits[key[:at+2]] > 0 && strings.HasSuffix(key, "]") && validDuration(key[at+2:len(key)-1]) {
				exits[key[:at+2]]--
				continue
			}
			c.Violate("trace %d has event %q (error %v), which was not added or more often than added", i, ev.What, ev.IsError)
			return
		}
		for _, mm := range []map[string]int{left, exits} {
			for k, n := range mm {
				if n > 0 {
					c.Violate("trace %d lacks event %q", i, k)
					return
				}
			}
		}
		c.Count("events", len(tr.Events()))
	}
	c.Seen(order, workers, len(pool))
}
