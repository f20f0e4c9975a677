package web

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

var bg = context.Background()

var badQueries = []string{"(", "a)", "[", "*a", "(?P<x", "\\", "a{2,1}", "x{1001}"}

var limits = []int{0, 1, 2, 3, 9, 10, 11, 50, 249, 250, 251, 100000, -1}

func population(r *rand.Rand, n int) []*trc.StaticTrace {
	now := time.Now().UTC().Add(-time.Duration(r.IntN(1e6)))
	nc := mon.Range(r, 1, len(mon.Categories))
	var sts []*trc.StaticTrace
	for i := 0; i < n; i++ {
		if mon.Chance(r, 0.7) {
			now = now.Add(time.Duration(mon.Pick(r, 1, 1000, 5e6)))
		}
		sts = append(sts, mon.Static(r, mon.Categories[r.IntN(nc)], mon.Pick(r, mon.Sources...), now))
	}
	return sts
}

func request(r *rand.Rand, sts []*trc.StaticTrace) *trc.SearchRequest {
	req := &trc.SearchRequest{
		Filter:     mon.AnyFilter(r, sts),
		Limit:      limits[r.IntN(len(limits))],
		StackDepth: mon.Pick(r, 0, 0, -1, 1, 2, 3, 10),
		Bucketing:  mon.AnyBuckets(r),
	}
	if mon.Chance(r, 0.12) {
		req.Filter.Query = badQueries[r.IntN(len(badQueries))]
	}
	if mon.Chance(r, 0.1) {
		req.Filter.Query = mon.Pick(r, "a b", "a+b", "a&b=c", "100%", "日本", "#x", "a;b", "\\d+ \\w", "<b>", "'\"")
	}
	return req
}

func copyRequest(req *trc.SearchRequest) *trc.SearchRequest {
	cp := &trc.SearchRequest{Filter: mon.CopyFilter(req.Filter), Limit: req.Limit, StackDepth: req.StackDepth}
	cp.Bucketing = append(cp.Bucketing, req.Bucketing...)
	return cp
}

// params are the URL parameters equivalent to a request, if there are any.
func params(req *trc.SearchRequest) url.Values {
	q := filterParams(req.Filter)
	if req.Limit > 0 {
		q.Set("n", strconv.Itoa(req.Limit))
	}
	if req.StackDepth != 0 {
		q.Set("stack", strconv.Itoa(req.StackDepth))
	}
	for _, b := range req.Bucketing {
		q.Add("b", b.String())
	}
	return q
}

func filterParams(f trc.Filter) url.Values {
	q := url.Values{}
	for _, s := range f.Sources {
		q.Add("source", s)
	}
	for _, s := range f.IDs {
		q.Add("id", s)
	}
	if f.Category != "" {
		q.Set("category", f.Category)
	}
	if f.IsActive {
		q.Set("active", "")
	}
	if f.IsFinished {
		q.Set("finished", "true")
	}
	if f.IsSuccess {
		q.Set("success", "1")
	}
	if f.IsErrored {
		q.Set("errored", "")
	}
	if f.MinDuration != nil {
		q.Set("min", f.MinDuration.String())
	}
	if f.Query != "" {
		q.Set("q", f.Query)
	}
	return q
}

// local serves requests in process.
type local struct {
	h   http.Handler
	c   *mon.C
	url string // the address requests must go to, if given

	slow bool // others run before a write is taken
}

// slowWriter takes what is written in small parts, after a while.
type slowWriter struct{ *httptest.ResponseRecorder }

func (w slowWriter) Write(p []byte) (n int, err error) {
	for n < len(p) {
		time.Sleep(20 * time.Microsecond)
		k, _ := w.ResponseRecorder.Write(p[n:min(len(p), n+max(len(p)/4, 1))])
		n += k
	}
	return n, nil
}

func (w slowWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (l *local) Do(req *http.Request) (_ *http.Response, err error) {
	if u, err := url.Parse(l.url); l.url != "" && (err != nil || u.Scheme != req.URL.Scheme || u.Host != req.URL.Host || u.Path != req.URL.Path) {
		l.c.Violate("a request for %s goes to %s", l.url, req.URL)
	}
	w := httptest.NewRecorder()
	var rw http.ResponseWriter = w
	if l.slow {
		rw = slowWriter{w}
	}
	r := req.Clone(req.Context())
	if r.Body == nil {
		r.Body = http.NoBody
	}
	r.RequestURI = r.URL.RequestURI()
	r.RemoteAddr = "192.0.2.1:1234"
	defer func() {
		if x := recover(); x != nil {
			l.c.Violate("the handler panicked on %s %s: %v", r.Method, r.URL, x)
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	l.h.ServeHTTP(rw, r)
	return w.Result(), nil
}

// serve makes a handler reachable, in process or over loopback.
func serve(c *mon.C, h http.Handler) (client trcweb.HTTPClient, uri string, stop func()) {
	if mon.Chance(c.R, 0.7) {
		return &local{h: h, c: c}, "http://trc.test/traces", func() {}
	}
	s := httptest.NewUnstartedServer(h)
	log := &panicLog{c: c}
	s.Config.ErrorLog = log.logger()
	if mon.Chance(c.R, 0.15) {
		s.StartTLS()
		return s.Client(), s.URL, s.Close
	}
	s.Start()
	tr := &http.Transport{}
	return &http.Client{Transport: tr}, s.URL, func() { tr.CloseIdleConnections(); s.Close() }
}

type failSearcher struct {
	res *trc.SearchResponse
	err error
}

func (f failSearcher) Search(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error) {
	return f.res, f.err
}

func sortedCopy(ss []string) []string {
	cp := append([]string{}, ss...)
	sort.Strings(cp)
	return cp
}

// diffResponses compares everything but durations and rates.
func diffResponses(got, want *trc.SearchResponse) string {
	switch {
	case got == nil:
		return "no response"
	case got.TotalCount != want.TotalCount:
		return fmt.Sprintf("total count %d, want %d", got.TotalCount, want.TotalCount)
	case got.MatchCount != want.MatchCount:
		return fmt.Sprintf("match count %d, want %d", got.MatchCount, want.MatchCount)
	case fmt.Sprint(got.Sources) != fmt.Sprint(want.Sources):
		return fmt.Sprintf("sources %q, want %q", got.Sources, want.Sources)
	case fmt.Sprintf("%q", sortedCopy(got.Problems)) != fmt.Sprintf("%q", sortedCopy(want.Problems)):
		return fmt.Sprintf("problems %q, want %q", got.Problems, want.Problems)
	case len(got.Traces) != len(want.Traces):
		return fmt.Sprintf("%d traces, want %d", len(got.Traces), len(want.Traces))
	}
	for i := range got.Traces {
		if d := mon.DiffTraces(got.Traces[i], want.Traces[i]); d != "" {
			return fmt.Sprintf("trace %d: %s", i, d)
		}
	}
	return diffSearchStats(got.Stats, want.Stats)
}

func diffSearchStats(got, want *trc.SearchStats) string {
	if got == nil || want == nil {
		if got != want {
			return fmt.Sprintf("statistics %v, want %v", got, want)
		}
		return ""
	}
	if fmt.Sprint(got.Bucketing) != fmt.Sprint(want.Bucketing) {
		return fmt.Sprintf("bucketing %v, want %v", got.Bucketing, want.Bucketing)
	}
	if len(got.Categories) != len(want.Categories) {
		return fmt.Sprintf("statistics of %d categories, want %d", len(got.Categories), len(want.Categories))
	}
	for name, w := range want.Categories {
		ref := &mon.RefStats{Events: w.EventCount, Active: w.ActiveCount, Errored: w.ErroredCount, Total: w.TotalCount(), Buckets: w.BucketCounts, Oldest: w.Oldest, Newest: w.Newest}
		if d := mon.DiffCategory(name, got.Categories[name], ref); d != "" {
			return d
		}
	}
	return ""
}

// panicLog turns handler panics logged by an HTTP server into violations.
type panicLog struct {
	c     *mon.C
	mtx   sync.Mutex
	allow bool
}

func (p *panicLog) Write(b []byte) (int, error) {
	p.mtx.Lock()
	defer p.mtx.Unlock()
	if !p.allow && bytes.Contains(b, []byte("panic serving")) {
		p.c.Violate("the server panicked: %.1500s", b)
	}
	return len(b), nil
}

func decode(body io.Reader) (*trcweb.SearchData, error) {
	var data trcweb.SearchData
	dec := json.NewDecoder(body)
	if err := dec.Decode(&data); err != nil {
		return nil, err
	}
	return &data, nil
}

func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewPCG(r.Uint64(), r.Uint64())) }

func parallel(fns ...func()) {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for _, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			fn()
		}()
	}
	close(gate)
	wg.Wait()
}
