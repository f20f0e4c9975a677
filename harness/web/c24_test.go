package web

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

func TestC24(t *testing.T) {
	m := mon.Start(t, "C24")
	defer m.Done()
	m.Rule("easy: random programs of New, Middleware, events, prefixes, regions, stray events and finishes with package eztrc, in one or several goroutines; every trace made must be found, complete, through the global collector, the handler's JSON, its page and a search client, events must have the text and kind of the function used, and a subscriber of the handler must see every trace finish; non-trivial: a trace with events was found; distinct by program")
	m.Cases("easy", mon.N(250, 80), c24Easy)
	m.Rule("same: every easy event function next to the trace method of the same name, with arguments that record when and how often they are formatted and that change afterwards; both must add the same event, and nothing without a trace in the context; distinct by methods, formats and changes")
	m.Cases("same", mon.N(1500, 150), c24Same)
	m.Rule("middleware: random requests and handlers behind 1-3 easy middlewares, some with a trace in the request's context already, next to the same behind trcweb's middlewares over a collector of its own; the response, the trace's category, status and events (but for times) must be equal; distinct by request, layers and response")
	m.Cases("middleware", mon.N(600, 150), c24Middleware)
}

// held lists the IDs in the global collector.
func held(c *mon.C) map[string]string {
	res, err := eztrc.Collector().Search(bg, &trc.SearchRequest{Limit: 250})
	if err != nil || len(res.Traces) != res.TotalCount {
		c.Violate("search of everything: %v of %v traces, %v", len(res.Traces), res.TotalCount, err)
		return nil
	}
	ids := map[string]string{}
	for _, st := range res.Traces {
		ids[st.TraceID] = fmt.Sprintf("%s (category %q)", st.TraceID, st.TraceCategory)
	}
	return ids
}

// probe is an argument that counts how often it is formatted.
type probe struct {
	n   atomic.Int64
	val atomic.Int64
}

func (p *probe) String() string { p.n.Add(1); return fmt.Sprint("value ", p.val.Load()) }

func c24Same(c *mon.C) {
	r := c.R
	eztrc.Collector().SetCategorySize(20)
	before := held(c)
	ctx, tr := eztrc.New(bg, "ezone")
	ctx2, tr2 := eztrc.New(bg, "eztwo")
	if mon.Chance(r, 0.5) {
		ctx, _ = eztrc.Prefix(ctx, "p%d", 7)
		ctx2, _ = eztrc.Prefix(ctx2, "p%d", 7)
	}
	finish := r.IntN(8)
	n := mon.Range(r, 1, 8)
	what := ""
	var mine, theirs []*probe
	for i := 0; i < n; i++ {
		if i == finish {
			eztrc.Get(ctx).Finish()
			eztrc.Get(ctx2).Finish()
			what += "!"
		}
		m := r.IntN(4)
		format := mon.Pick(r, "%s", "%v and %v", "%[2]v %[1]s", "none", "%d", "%", "")
		val := int64(r.IntN(100))
		a, b := &probe{}, &probe{}
		a.val.Store(val)
		b.val.Store(val)
		mine, theirs = append(mine, a), append(theirs, b)
		args := func(p *probe) []any {
			return mon.Pick(rand.New(rand.NewPCG(uint64(val), 1)), []any{p, i}, []any{p}, []any{i, p})
		}
		ezEvent(ctx, m, format, args(a)...)
		mon.Call(eztrc.Get(ctx2), m, format, args(b)...)
		if x, y := a.n.Load(), b.n.Load(); x != y {
			c.Violate("%s(%q): the easy function formats its argument %d times, the trace method %d times", mon.MethodNames[m], format, x, y)
		}
		if mon.Chance(r, 0.5) {
			a.val.Add(1000)
			b.val.Add(1000)
		}
		// to nowhere
		p := &probe{}
		ezEvent(bg, m, format, args(p)...)
		what += fmt.Sprint(m, format)
		if mon.Chance(r, 0.2) {
			nctx := bg
			if mon.Chance(r, 0.5) {
				rctx, tr, done := eztrc.Region(nctx, "nowhere")
				ezEvent(rctx, m, format, args(p)...)
				tr.Tracef("nothing")
				done()
				nctx = mon.Pick(r, nctx, rctx)
			} else {
				pctx, tr := eztrc.Prefix(nctx, "nowhere %d", i)
				ezEvent(pctx, m, format, args(p)...)
				tr.Tracef("nothing")
				nctx = mon.Pick(r, nctx, pctx)
			}
			ezEvent(nctx, m, format, args(p)...)
			if mon.Chance(r, 0.5) {
				eztrc.Get(nctx).Finish()
			}
			what += "~"
		}
		if mon.Chance(r, 0.2) { // a new trace where there is one: no new trace
			cat := mon.Pick(r, "ezone", "eztwo", "ezthree", "", "100%d")
			was, was2 := eztrc.Get(ctx), eztrc.Get(ctx2)
			nctx, ntr := eztrc.New(ctx, cat)
			nctx2, ntr2 := eztrc.Collector().NewTrace(ctx2, cat)
			if same, same2 := ntr == was, ntr2 == was2; same != same2 {
				c.Violate("%s: New(%q) with a trace in the context gives the same trace: %v; NewTrace: %v", what, cat, same, same2)
				return
			}
			if same, same2 := eztrc.Get(nctx) == ntr, eztrc.Get(nctx2) == ntr2; same != same2 {
				c.Violate("%s: New(%q) with a trace in the context gives a context with the returned trace: %v; NewTrace: %v", what, cat, same, same2)
				return
			}
			ctx, ctx2 = nctx, nctx2
			what += "+"
		}
	}
	evs, evs2 := tr.Events(), tr2.Events()
	if len(evs) != len(evs2) || tr.Errored() != tr2.Errored() || tr.Finished() != tr2.Finished() {
		c.Violate("%s: the easy functions make %d events (errored %v, finished %v), the trace methods %d (%v, %v)", what, len(evs), tr.Errored(), tr.Finished(), len(evs2), tr2.Errored(), tr2.Finished())
		return
	}
	for i := range evs {
		if evs[i].What != evs2[i].What || evs[i].IsError != evs2[i].IsError {
			c.Violate("%s: the easy function makes event %q (error %v), the trace method %q (error %v)", what, evs[i].What, evs[i].IsError, evs2[i].What, evs2[i].IsError)
			return
		}
	}
	for i := range mine {
		if x, y := mine[i].n.Load(), theirs[i].n.Load(); x != y {
			c.Violate("%s: event %d's argument is formatted %d times, %d times with the trace method", what, i, x, y)
		}
	}
	tr.Finish()
	tr2.Finish()
	// any category will do
	cat, extra := mon.Pick(r, "", " Ez One ", "a b&c=d", "日本"), ""
	if mon.Chance(r, 0.5) {
		_, tr := eztrc.New(bg, cat)
		extra = tr.ID()
		if got := tr.Category(); got != cat {
			c.Violate("New: a trace made for category %q has category %q", cat, got)
		}
	} else {
		eztrc.Middleware(func(*http.Request) string { return cat })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			extra = eztrc.Get(r.Context()).ID()
			if got := eztrc.Get(r.Context()).Category(); got != cat {
				c.Violate("Middleware: a trace made for category %q has category %q", cat, got)
			}
		})).ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "http://x.test/", nil))
	}
	for id, s := range held(c) {
		if _, ok := before[id]; !ok && id != tr.ID() && id != tr2.ID() && id != extra {
			c.Violate("%s: the global collector holds trace %s, which nobody made", what, s)
		}
	}
	c.Count("events", 2*n)
	c.Seen(what)
	c.Sample("%s: %d events", what, len(evs))
}

// c24Middleware compares the easy middleware with the one it stands for.
func c24Middleware(c *mon.C) {
	r := c.R
	eztrc.Collector().SetCategorySize(20)
	own := trc.NewDefaultCollector()
	layers := mon.Pick(r, 1, 1, 2, 3)
	inCtx := mon.Chance(r, 0.3)
	cats := []string{mon.Pick(r, "ezone", "a b", ""), mon.Pick(r, "ezone", "eztwo"), "third"}
	method := mon.Pick(r, "GET", "POST", "HEAD", "OPTIONS")
	target := mon.Pick(r, "/", "/a/b?c=d&e", "/%2Fx?%zz", "/a;b#f")
	code := mon.Pick(r, 0, 200, 201, 204, 304, 404, 500, 103)
	body := strings.Repeat("x", mon.Pick(r, 0, 1, 999, 1500, 20000))
	flush, panics := mon.Chance(r, 0.2), mon.Chance(r, 0.1)
	events := r.IntN(3)
	finish := mon.Chance(r, 0.1)
	headers := map[string]string{}
	for _, h := range []string{"User-Agent", "Accept", "Content-Type", "X-Other"} {
		if mon.Chance(r, 0.4) {
			headers[h] = mon.Pick(r, "text/html", "*/*; q=0.5", "100%d")
		}
	}
	run := func(mw func(string) func(http.Handler) http.Handler, make func(context.Context, string) (context.Context, trc.Trace)) (string, trc.Trace) {
		var tr trc.Trace
		var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			tr = trc.Get(r.Context())
			for i := 0; i < events; i++ {
				tr.Errorf("in the handler %d", i)
			}
			if finish {
				tr.Finish()
			}
			w.Header().Set("X-Given", "here")
			if code != 0 {
				w.WriteHeader(code)
			}
			if code != 204 && code != 304 {
				io.WriteString(w, body)
			}
			if f, ok := w.(http.Flusher); ok && flush {
				f.Flush()
			}
			if panics {
				panic(http.ErrAbortHandler)
			}
		})
		for i := layers - 1; i >= 0; i-- {
			h = mw(cats[i])(h)
		}
		req := httptest.NewRequest(method, "http://x.test/", nil)
		if u, err := url.Parse(target); err == nil {
			req.URL = u
		}
		for k, v := range headers {
			req.Header.Set(k, v)
		}
		if inCtx {
			ctx, _ := make(req.Context(), "outside")
			req = req.WithContext(ctx)
		}
		rec := httptest.NewRecorder()
		panicked := func() (p any) {
			defer func() { p = recover() }()
			h.ServeHTTP(rec, req)
			return nil
		}()
		return fmt.Sprint(rec.Code, rec.Header(), rec.Body.Len(), rec.Flushed, panicked), tr
	}
	gotRes, got := run(func(cat string) func(http.Handler) http.Handler {
		return eztrc.Middleware(func(*http.Request) string { return cat })
	}, eztrc.New)
	wantRes, want := run(func(cat string) func(http.Handler) http.Handler {
		return trcweb.Middleware(own.NewTrace, func(*http.Request) string { return cat })
	}, own.NewTrace)
	what := fmt.Sprintf("%s %s, %d layers %q, trace in the context %v, code %d, %d bytes, flush %v, panic %v, finish %v, %v", method, target, layers, cats[:layers], inCtx, code, len(body), flush, panics, finish, headers)
	if gotRes != wantRes {
		c.Violate("%s: the response is %s, with trcweb's middleware %s", what, gotRes, wantRes)
	}
	if got == nil || want == nil {
		c.Violate("%s: no trace in the handler: %v, %v", what, got, want)
		return
	}
	texts := func(tr trc.Trace) (s []string) {
		for _, ev := range tr.Events() {
			text := ev.What
			if strings.HasPrefix(text, "HTTP ") {
				text = text[:strings.LastIndex(text, ",")+1]
			}
			s = append(s, fmt.Sprintf("%s (error %v)", text, ev.IsError))
		}
		return s
	}
	if g, w := fmt.Sprintf("%q", texts(got)), fmt.Sprintf("%q", texts(want)); g != w {
		c.Violate("%s: the trace has the events %s, with trcweb's middleware %s", what, g, w)
	}
	if got.Category() != want.Category() || got.Finished() != want.Finished() || got.Errored() != want.Errored() {
		c.Violate("%s: the trace has category %q, finished %v, errored %v, with trcweb's middleware %q, %v, %v", what, got.Category(), got.Finished(), got.Errored(), want.Category(), want.Finished(), want.Errored())
	}
	if _, ok := held(c)[got.ID()]; !ok && !c.Failed() {
		c.Violate("%s: the trace is not in the global collector", what)
	}
	c.Count("requests", 2)
	c.Count("events", len(got.Events()))
	c.Seen(what)
	c.Sample("%s: %s, %d events", what, gotRes, len(got.Events()))
}

type ezTrace struct {
	id    string
	cat   string
	tr    trc.Trace
	texts []string
	errs  []bool
	done  bool
	web   bool
}

func c24Easy(c *mon.C) {
	r := c.R
	tag := "ez"
	eztrc.Collector().SetCategorySize(64) // more than a case makes
	before := held(c)
	ch := make(chan trc.Trace, 10000)
	sctx, cancel := context.WithCancel(bg)
	defer cancel()
	sdone := make(chan struct{})
	s, stop := loopback(c, eztrc.Handler())
	defer stop()
	subscribed := make(chan struct{})
	streamed := mon.Chance(r, 0.3)
	hellos := map[string]bool{}
	if streamed {
		sc := trcweb.NewStreamClient(s.URL)
		sc.SendBuffer = 10000
		init := false
		sc.OnRead = func(_ context.Context, typ string, _ []byte) {
			if !init {
				init = true
				close(subscribed)
			}
		}
		go func() { defer close(sdone); sc.Stream(sctx, trc.Filter{IsFinished: true}, ch) }()
		select {
		case <-subscribed:
		case <-giveUp(limit()):
			c.Violate("no stream from the handler after %s", patience)
			return
		}
		// the handler says hello before it subscribes: wait until something arrives
		if !await(func() bool {
			_, tr := eztrc.New(bg, tag+"hello")
			hellos[tr.ID()] = true
			tr.Finish()
			select {
			case <-ch:
				return true
			case <-time.After(time.Millisecond):
				return false
			}
		}) {
			c.Violate("no trace streamed by the handler after %s", patience)
			return
		}
	}

	workers := mon.Pick(r, 1, 1, 2, 4)
	made := make([][]*ezTrace, workers)
	progs := make([]string, workers)
	var fns []func()
	for g := 0; g < workers; g++ {
		r := sub(r)
		fns = append(fns, func() {
			event := func(ctx context.Context, x *ezTrace, pre string) {
				m := r.IntN(4)
				a := r.IntN(1000)
				switch {
				case mon.Chance(r, 0.7):
					ezEvent(ctx, m, "event %d", a)
				default:
					mon.Call(eztrc.Get(ctx), m, "event %d", a)
				}
				progs[g] += mon.MethodNames[m][:1]
				if x != nil {
					x.texts, x.errs = append(x.texts, pre+fmt.Sprintf("event %d", a)), append(x.errs, mon.IsErr(m))
				}
			}
			body := func(ctx context.Context, x *ezTrace) {
				pre := ""
				for k := r.IntN(6); k > 0; k-- {
					switch r.IntN(5) {
					case 0:
						ctx, _ = eztrc.Prefix(ctx, "p%d", k)
						pre += fmt.Sprintf("p%d ", k)
						progs[g] += "p"
					case 1:
						rctx, tr, done := eztrc.Region(ctx, "reg")
						if got, ok := eztrc.MaybeGet(rctx); !ok || got != tr {
							c.Violate("Region: the context does not carry the trace")
						}
						x.texts, x.errs = append(x.texts, pre+"→ reg"), append(x.errs, false)
						event(rctx, x, pre+"· ")
						done()
						x.texts, x.errs = append(x.texts, pre+"← reg ["), append(x.errs, false)
						progs[g] += "r"
					default:
						event(ctx, x, pre)
					}
				}
			}
			for k := mon.Range(r, 1, 4); k > 0; k-- {
				x := &ezTrace{cat: tag + mon.Pick(r, "one", "two")}
				switch r.IntN(4) {
				case 0:
					event(bg, nil, "") // to nowhere
					progs[g] += "w"
					x.web, x.done = true, true
					abort := mon.Chance(r, 0.1)
					method := mon.Pick(r, "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "QUERY")
					code := mon.Pick(r, 0, 200, 204, 301, 404, 500)
					h := eztrc.Middleware(func(*http.Request) string { return x.cat })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						x.tr, _ = eztrc.MaybeGet(r.Context())
						if x.tr == nil {
							c.Violate("the context of a %s request has no trace", r.Method)
							return
						}
						x.id = x.tr.ID()
						body(r.Context(), x)
						if code > 0 {
							w.WriteHeader(code)
						}
						if abort {
							panic(http.ErrAbortHandler)
						}
					}))
					func() {
						defer func() {
							if p := recover(); p != nil && p != http.ErrAbortHandler {
								panic(p)
							}
						}()
						h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(method, mon.Pick(r, "http://x.test/", "http://x.test/health", "http://x.test/traces?q=x", "http://x.test/favicon.ico"), nil))
					}()
					if x.tr == nil {
						return
					}
				default:
					progs[g] += "n"
					var ctx context.Context
					ctx, x.tr = eztrc.New(bg, x.cat)
					x.id = x.tr.ID()
					if got, ok := eztrc.MaybeGet(ctx); !ok || got != x.tr {
						c.Violate("New: the context does not carry the trace")
					}
					body(ctx, x)
					if x.done = mon.Chance(r, 0.8); x.done {
						x.tr.Finish()
					}
				}
				made[g] = append(made[g], x)
			}
		})
	}
	parallel(fns...)
	if c.Failed() {
		return
	}
	var all []*ezTrace
	byID := map[string]*ezTrace{}
	events, finished := 0, 0
	for _, xs := range made {
		for _, x := range xs {
			all = append(all, x)
			byID[x.id] = x
			events += len(x.texts)
			if x.done {
				finished++
			}
		}
	}
	if len(byID) != len(all) {
		c.Violate("%d traces have %d IDs", len(all), len(byID))
	}
	for id, s := range held(c) {
		if _, ok := before[id]; !ok && byID[id] == nil && !hellos[id] {
			c.Violate("the global collector holds trace %s, which nobody made", s)
		}
	}
	check := func(how string, res *trc.SearchResponse, err error, cat string) {
		if err != nil {
			c.Violate("%s: %v", how, err)
			return
		}
		want := 0
		for _, x := range all {
			if x.cat == cat {
				want++
			}
		}
		if len(res.Traces) != want {
			c.Violate("%s finds %d traces of category %s, made %d", how, len(res.Traces), cat, want)
			return
		}
		for _, st := range res.Traces {
			x := byID[st.TraceID]
			if x == nil {
				c.Violate("%s finds trace %s, which was not made", how, st.TraceID)
				return
			}
			if st.TraceFinished != x.done || st.TraceCategory != cat {
				c.Violate("%s: trace finished %v in category %s, want %v, %s", how, st.TraceFinished, st.TraceCategory, x.done, cat)
				return
			}
			evs := st.TraceEvents
			if x.web { // the middleware's own events come before and after
				for len(evs) > 0 && len(x.texts) > 0 && evs[0].What != x.texts[0] {
					evs = evs[1:]
				}
				if len(x.texts) == 0 {
					evs = nil
				}
				evs = evs[:min(len(evs), len(x.texts))]
			}
			if len(evs) != len(x.texts) {
				c.Violate("%s: trace has %d events, want %d: %s", how, len(evs), len(x.texts), mon.JSON(st))
				return
			}
			errored := false
			for i, ev := range evs {
				exit := strings.HasSuffix(x.texts[i], "[") && strings.HasPrefix(ev.What, x.texts[i])
				if ev.What != x.texts[i] && !exit || ev.IsError != x.errs[i] {
					c.Violate("%s: event %d is %q (error %v), want %q (%v)", how, i, ev.What, ev.IsError, x.texts[i], x.errs[i])
					return
				}
				errored = errored || ev.IsError
			}
			if st.TraceErrored != errored {
				c.Violate("%s: trace errored %v, want %v", how, st.TraceErrored, errored)
			}
			c.Count("traces_checked", 1)
		}
	}
	for _, cat := range []string{tag + "one", tag + "two"} {
		var ids []string
		for _, x := range all {
			ids = append(ids, x.id)
		}
		req := func() *trc.SearchRequest {
			return &trc.SearchRequest{Filter: trc.Filter{Category: cat, IDs: ids}, Limit: 250}
		}
		query := "?json&n=250&category=" + cat + "&id=" + strings.Join(ids, "&id=")
		res, err := eztrc.Collector().Search(bg, req())
		check("Collector", res, err, cat)
		res, err = trcweb.NewSearchClient(&local{h: eztrc.Handler(), c: c}, "http://x.test/").Search(bg, req())
		check("Handler", res, err, cat)
		hres, err := http.Get(s.URL + "/" + query)
		if err != nil {
			c.Violate("%v", err)
			return
		}
		data, err := decode(hres.Body)
		hres.Body.Close()
		if err != nil {
			c.Violate("JSON: %v", err)
			return
		}
		check("JSON", &data.Response, nil, cat)
		rec := httptest.NewRecorder()
		eztrc.Handler().ServeHTTP(rec, func() *http.Request {
			req := httptest.NewRequest("GET", "/"+strings.Replace(query, "json&", "", 1), nil)
			req.Header.Set("accept", "text/html")
			return req
		}())
		for _, x := range all {
			if x.cat == cat && !strings.Contains(rec.Body.String(), x.id) {
				c.Violate("the page lacks trace %s", x.id)
			}
		}
	}
	if streamed {
		n := 0
		timeout := giveUp(limit())
		seen := map[string]int{}
		for n < finished {
			select {
			case tr := <-ch:
				if x := byID[tr.ID()]; x != nil {
					if n++; !x.done || seen[x.id] > 0 {
						c.Violate("the handler streams trace %s (finished %v) %d times", x.id, x.done, seen[x.id]+1)
					}
					seen[x.id]++
				}
			case <-timeout:
				c.Violate("the handler has streamed %d of %d finished traces after %s", n, finished, patience)
				return
			}
		}
		cancel()
		select {
		case <-sdone:
		case <-giveUp(limit()):
			c.Violate("the stream has not ended")
		}
		c.Count("streamed", n)
	}
	c.Count("events", events)
	if events > 0 {
		c.Seen(fmt.Sprint(progs), streamed)
	}
	c.Sample("%d goroutines %v: %d traces, %d events, streamed %v", workers, progs, len(all), events, streamed)
}
