package web

import (
	"context"
	"fmt"
	"html/template"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

func TestC21(t *testing.T) {
	m := mon.Start(t, "C21")
	defer m.Done()
	defer trcweb.SetSourceLinkFunc(func(string) template.URL { return "" })
	m.Rule("web: goroutines run random programs of HTTP searches (clients, pages, JSON), streams, traced requests, the easy API, source links, trace writes and resizes against trace servers over shared collectors, which also hold the servers' own traces; monitors: race detector, panics, progress; non-trivial: a page, a client search and a stream overlapped writers; distinct by programs")
	m.Cases("web", mon.N(25, 60), c21Web)
}

type webWorld struct {
	coll   *trc.Collector
	server *trcweb.TraceServer // literal, over coll
	traced http.Handler        // the server's requests are traced in coll
	app    http.Handler        // traced application
	remote *httptest.Server    // over coll
	client *trcweb.SearchClient
	stream *trcweb.StreamClient // literal, or constructed
	ctxs   []context.Context
}

type webOp struct {
	name string
	do   func(w *webWorld, r *rand.Rand)
}

func (w *webWorld) get(r *rand.Rand, h http.Handler, accept string) {
	q := params(request(r, nil)).Encode()
	if mon.Chance(r, 0.3) {
		q = ""
	}
	req := httptest.NewRequest(mon.Pick(r, "GET", "POST"), "http://trc.test/traces?"+q, nil)
	req.Header.Set("accept", accept)
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	_ = rec.Body.Len()
}

func (w *webWorld) handler(r *rand.Rand) http.Handler {
	return mon.Pick[http.Handler](r, w.server, w.traced, eztrc.Handler(), trcweb.NewTraceServer(w.coll))
}

var webOps = []webOp{
	{"page", func(w *webWorld, r *rand.Rand) { w.get(r, w.handler(r), "text/html") }},
	{"json", func(w *webWorld, r *rand.Rand) { w.get(r, w.handler(r), "application/json") }},
	{"client", func(w *webWorld, r *rand.Rand) {
		res, err := w.client.Search(mon.Pick(r, bg, w.ctxs[r.IntN(len(w.ctxs))]), request(r, nil))
		if err == nil {
			_ = len(res.Traces)
		}
	}},
	{"multi", func(w *webWorld, r *rand.Rand) {
		trc.MultiSearcher{w.client, w.coll, w.client}.Search(bg, request(r, nil))
	}},
	{"stream", func(w *webWorld, r *rand.Rand) {
		ctx, cancel := context.WithTimeout(bg, time.Duration(r.IntN(20))*time.Millisecond)
		defer cancel()
		ch := make(chan trc.Trace, r.IntN(3))
		sc := w.stream
		if mon.Chance(r, 0.4) {
			sc = trcweb.NewStreamClient(w.remote.URL)
			sc.SendBuffer = mon.Pick(r, 0, 1, 100)
		}
		done := make(chan struct{})
		go func() { defer close(done); sc.Stream(ctx, streamFilter(r, nil), ch) }()
		for {
			select {
			case tr := <-ch:
				_ = len(tr.Events())
				continue
			case <-done:
			}
			break
		}
	}},
	{"rawstream", func(w *webWorld, r *rand.Rand) {
		ctx, cancel := context.WithTimeout(bg, time.Duration(r.IntN(10))*time.Millisecond)
		defer cancel()
		req, _ := http.NewRequestWithContext(ctx, "GET", w.remote.URL+"?"+mon.Pick(r, "", "sendbuf=1", "stats=1s", "q=("), nil)
		req.Header.Set("accept", "text/event-stream")
		res, err := http.DefaultClient.Do(req)
		if err == nil {
			io.Copy(io.Discard, res.Body)
			res.Body.Close()
		}
	}},
	{"request", func(w *webWorld, r *rand.Rand) {
		h := w.app
		if mon.Chance(r, 0.3) {
			h = eztrc.Middleware(trcweb.Categorize)(w.app)
		}
		req := httptest.NewRequest("GET", "http://app.test/"+mon.Pick(r, "a", "b", "c/d"), strings.NewReader("body"))
		h.ServeHTTP(httptest.NewRecorder(), req)
	}},
	{"easy", func(w *webWorld, r *rand.Rand) {
		ctx, tr := eztrc.New(bg, mon.Pick(r, "x", "y"))
		eztrc.Tracef(ctx, "event")
		ctx, _ = eztrc.Prefix(ctx, "p")
		_, _, done := eztrc.Region(ctx, "r")
		eztrc.LazyErrorf(ctx, "event %d", 1)
		done()
		tr.Finish()
	}},
	{"write", func(w *webWorld, r *rand.Rand) {
		tr := trc.Get(w.ctxs[r.IntN(len(w.ctxs))])
		for k := r.IntN(5); k > 0; k-- {
			mon.Call(tr, r.IntN(4), "event %d", k)
		}
	}},
	{"create", func(w *webWorld, r *rand.Rand) {
		_, tr := w.coll.NewTrace(bg, mon.Pick(r, "cat1", "cat2", "GET /a"))
		tr.LazyTracef("event %s", "x")
		if mon.Chance(r, 0.7) {
			tr.Finish()
		}
	}},
	{"resize", func(w *webWorld, r *rand.Rand) {
		mon.Pick(r, w.coll, eztrc.Collector()).SetCategorySize(mon.Pick(r, 1, 2, 5, 50))
	}},
	{"settings", func(w *webWorld, r *rand.Rand) {
		trcweb.SetSourceLinkFunc(mon.Pick[trcweb.SourceLinkFunc](r, trcweb.SourceLinkVSCode, func(s string) template.URL { return template.URL("x:" + s) }))
		trc.SetTraceStacks(mon.Chance(r, 0.8))
		trc.SetTraceMaxEvents(mon.Pick(r, 10, 100, 1000))
	}},
}

func c21Web(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector().SetCategorySize(mon.Pick(r, 1, 3, 20))
	w := &webWorld{coll: coll, server: &trcweb.TraceServer{Collector: coll}}
	mw := trcweb.Middleware(coll.NewTrace, trcweb.Categorize)
	w.traced = mw(w.server)
	w.app = mw(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		tr := trc.Get(r.Context())
		tr.Tracef("handling")
		io.Copy(rw, r.Body)
		rw.(http.Flusher).Flush()
		tr.LazyErrorf("handled %d", 1)
	}))
	for i := 0; i < 3; i++ {
		ctx, tr := coll.NewTrace(bg, fmt.Sprint("cat", i))
		tr.Errorf("start")
		w.ctxs = append(w.ctxs, ctx)
	}
	s, stop := loopback(c, mon.Pick[http.Handler](r, w.server, w.traced))
	w.remote = s
	tr := &http.Transport{}
	w.client = trcweb.NewSearchClient(&http.Client{Transport: tr}, s.URL)
	w.stream = mon.Pick(r, &trcweb.StreamClient{URI: s.URL}, &trcweb.StreamClient{URI: strings.TrimPrefix(s.URL, "http://"), SendBuffer: -1, RetryInterval: 1, StatsInterval: 1}, trcweb.NewStreamClient(s.URL))
	workers := mon.Range(r, 2, 8)
	sigs, counts := make([]string, workers), make([]map[string]int, workers)
	var fns []func()
	for g := 0; g < workers; g++ {
		r := sub(r)
		ops := append([]webOp{}, webOps...)
		for k := r.IntN(10); k > 0; k-- {
			ops = append(ops, webOps[r.IntN(len(webOps))])
		}
		fns = append(fns, func() {
			n := map[string]int{}
			for i := mon.Range(r, 10, 30); i > 0; i-- {
				x := ops[r.IntN(len(ops))]
				x.do(w, r)
				n[x.name]++
				sigs[g] += x.name[:2]
			}
			counts[g] = n
		})
	}
	parallel(fns...)
	tr.CloseIdleConnections()
	stop()
	total := map[string]int{}
	for _, n := range counts {
		for k, v := range n {
			total[k] += v
			c.Count("op_"+k, v)
		}
	}
	if total["page"] > 0 && total["client"] > 0 && total["stream"]+total["rawstream"] > 0 {
		c.Seen(fmt.Sprint(sigs))
	}
	c.Sample("%d workers: %v", workers, total)
}
