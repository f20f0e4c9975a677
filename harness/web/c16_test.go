package web

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

func TestC16(t *testing.T) {
	m := mon.Start(t, "C16")
	defer m.Done()
	m.Rule("same: random requests (filters of all kinds, limits, stack depths, bucketings, invalid queries, awkward characters) against a server over a collector, a multi-searcher, or a chain of servers, in process and over loopback; the answers of the search client and of the equivalent URL parameters or JSON body are compared field by field with the direct answer; non-trivial: traces were returned or a problem reported; distinct by request and number of results")
	m.Cases("same", mon.N(2500, 150), c16Same)
	m.Rule("large: the same with several hundred traces in few categories, limits up to the maximum and answers of several, sometimes tens of, megabytes; distinct by request and number of results")
	m.Cases("large", mon.N(40, 6), c16Large)
	m.Rule("fail: the server's searcher fails, answers nothing, or answers partially; the client must get a valid response with the problem, and the page must render with it; distinct by failure and representation")
	m.Cases("fail", mon.N(300, 60), c16Fail)
	m.Rule("malformed: arbitrary methods, headers, parameters and bodies; every answer must be 200 with a well-formed body or 400; distinct by status and kind of request")
	m.Cases("malformed", mon.N(2500, 150), c16Malformed)
	m.Rule("conc: several clients search one server, which was given as a literal, while traces are created; distinct by number of clients")
	m.Cases("conc", mon.N(20, 10), c16Concurrent)
	m.Rule("many: several clients with different requests search one server, or servers of different contents, at the same time, some of them reading slowly; each answer is compared with the direct one; distinct by requests and number of results")
	m.Cases("many", mon.N(60, 25), c16Many)
}

// c16Server makes a server with some topology.
func c16Server(c *mon.C) (s *trcweb.TraceServer, direct trc.Searcher, sts []*trc.StaticTrace, kind string, stop func()) {
	r := c.R
	stop = func() {}
	mk := func(name string) *trc.Collector {
		coll := trc.NewCollector(trc.CollectorConfig{Source: name})
		ts := population(r, mon.Pick(r, 0, 1, 3, 12, 40))
		mon.Feed(coll, ts, func(st *trc.StaticTrace) trc.Trace { return mon.Pick[trc.Trace](r, st, mon.NewForeign(st)) })
		sts = append(sts, ts...)
		return coll
	}
	switch r.IntN(5) {
	case 0, 1:
		coll := mk("self")
		return trcweb.NewTraceServer(coll), coll, sts, "collector", stop
	case 2:
		coll := mk("self")
		return &trcweb.TraceServer{Collector: coll}, coll, sts, "literal", stop
	case 3:
		ms := trc.MultiSearcher{mk("one"), mk("two & more"), mk("three")}
		if mon.Chance(r, 0.3) {
			for k := mon.Pick(r, 1, 1, 12, 40); k > 0; k-- {
				ms = append(ms, failSearcher{nil, fmt.Errorf("no luck today, %d", k)})
			}
		}
		return &trcweb.TraceServer{Collector: mk("unused"), Searcher: ms}, ms, sts, "multi", stop
	default:
		coll := mk("far")
		client, uri, stop := serve(c, trcweb.NewTraceServer(coll))
		ms := trc.MultiSearcher{trcweb.NewSearchClient(client, uri), mk("near")}
		return &trcweb.TraceServer{Searcher: ms}, ms, sts, "chain", stop
	}
}

func c16Same(c *mon.C) {
	r := c.R
	s, direct, sts, kind, stop1 := c16Server(c)
	defer stop1()
	var h http.Handler = s
	if mon.Chance(r, 0.3) {
		h = trcweb.Middleware(trc.NewDefaultCollector().NewTrace, trcweb.Categorize)(s)
		kind += "+middleware"
	}
	if mon.Chance(r, 0.1) { // an address with a parameter of its own
		inner := h
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Query().Get("token") != "t&0k=en" {
				http.Error(w, "not allowed", http.StatusForbidden)
				return
			}
			inner.ServeHTTP(w, r)
		})
		kind += "+token"
	}
	client, uri, stop := serve(c, h)
	defer stop()
	if strings.HasSuffix(kind, "+token") {
		uri += "?token=t%260k%3Den"
	} else {
		uri += "?"
	}
	for k := mon.Range(r, 1, 4); k > 0 && !c.Failed(); k-- {
		req := request(r, sts)
		want, err := direct.Search(bg, copyRequest(req))
		if err != nil {
			c.Violate("direct search: %v", err)
			return
		}
		target := uri
		if mon.Chance(r, 0.2) {
			target = strings.TrimPrefix(uri, "http://")
			if l, ok := client.(*local); ok {
				target = strings.Replace(target, "trc.test", mon.Pick(r, "trc.test", "httpd.test", "https.test:8080", "http"), 1)
				l.url = "http://" + target
			}
		} else if l, ok := client.(*local); ok {
			target = strings.Replace(target, "trc.test", mon.Pick(r, "trc.test", "trc.test:81", "[::1]:7", "http.test"), 1)
			if mon.Chance(r, 0.2) {
				target = strings.Replace(target, "http:", "https:", 1)
			}
			l.url = target
		}
		orig := copyRequest(req)
		got, err := trcweb.NewSearchClient(client, target).Search(bg, req)
		if err != nil {
			c.Violate("%s: client search for %s: %v", kind, orig, err)
			return
		}
		if d := diffResponses(got, want); d != "" {
			c.Violate("%s: client search for %s: %s", kind, orig, d)
			return
		}
		if l, ok := client.(*local); ok {
			l.url = ""
		}
		if got.Request == nil {
			c.Violate("%s: the response has no request", kind)
		} else if a, b := mon.JSON(got.Request), mon.JSON(want.Request); a != b {
			c.Violate("%s: the response is for request %s, want %s", kind, a, b)
		}

		hreq, _ := http.NewRequest(mon.Pick(r, "GET", "GET", "POST", "HEAD"), uri+"&"+params(orig).Encode(), nil)
		if mon.Chance(r, 0.3) { // the request as a body
			hreq, _ = http.NewRequest(mon.Pick(r, "GET", "POST", "PUT"), uri, strings.NewReader(mon.JSON(orig)))
			hreq.Header.Set("content-type", mon.Pick(r, "application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"))
			c.Count("json_bodies", 1)
		}
		switch r.IntN(4) {
		case 0:
			hreq.Header.Set("accept", "application/json")
		case 1:
			hreq.Header.Set("accept", "text/html, application/json")
			hreq.URL.RawQuery += "&json"
		case 2:
			hreq.Header.Set("accept", "*/*")
		}
		res, err := client.Do(hreq)
		if err != nil {
			c.Violate("%s: %v", kind, err)
			return
		}
		body, _ := io.ReadAll(res.Body)
		res.Body.Close()
		if res.StatusCode != 200 {
			c.Violate("%s: %s %s gives status %d", kind, hreq.Method, hreq.URL.RawQuery, res.StatusCode)
			return
		}
		if hreq.Method == "HEAD" && len(body) == 0 {
			continue
		}
		data, err := decode(bytes.NewReader(body))
		if err != nil {
			c.Violate("%s: %s gives invalid JSON: %v", kind, hreq.URL.RawQuery, err)
			return
		}
		if d := diffResponses(&data.Response, want); d != "" {
			c.Violate("%s: parameters %s: %s", kind, hreq.URL.RawQuery, d)
			return
		}
		c.Count("comparisons", 2)
		if len(want.Traces) > 0 || len(want.Problems) > 0 {
			c.Seen(kind, orig.String(), len(want.Traces), len(want.Problems))
			c.Sample("%s: %s -> %d of %d traces, problems %q", kind, orig, len(want.Traces), want.TotalCount, want.Problems)
		}
	}
}

func c16Large(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: "self"})
	now := time.Now().UTC().Add(-time.Hour)
	var sts []*trc.StaticTrace
	n, long := mon.Range(r, 90, 400), mon.Pick(r, 10, 1000, 20000)
	nc := mon.Pick(r, 1, 1, 2, 5, 150)
	if mon.Chance(r, 0.1) {
		n, long = 250, 100000 // some twenty megabytes
	}
	if mon.Race() {
		n, long = min(n, 120), min(long, 1000)
	}
	for i := 0; i < n; i++ {
		now = now.Add(time.Duration(r.IntN(1000)) * time.Microsecond)
		st := mon.Static(r, mon.Pick(r, "many", mon.Categories[r.IntN(len(mon.Categories))], fmt.Sprint("cat", r.IntN(nc))), mon.Pick(r, mon.Sources...), now)
		for j := range st.TraceEvents {
			if mon.Chance(r, 0.5) {
				st.TraceEvents[j].What += strings.Repeat(mon.Word(r)+".", r.IntN(long)/5)
			}
		}
		sts = append(sts, st)
	}
	mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return st })
	client, uri, stop := serve(c, trcweb.NewTraceServer(coll))
	defer stop()
	for k := 0; k < 3 && !c.Failed(); k++ {
		req := request(r, sts)
		if mon.Chance(r, 0.7) {
			req.Filter = mon.Pick(r, trc.Filter{}, trc.Filter{Category: "many"}, trc.Filter{IsFinished: true}, trc.Filter{Query: "needle|hay"}, trc.Filter{IsErrored: true})
		}
		if mon.Chance(r, 0.3) {
			for i := mon.Range(r, 1, 200); i > 0; i-- {
				req.Filter.IDs = append(req.Filter.IDs, sts[r.IntN(len(sts))].TraceID)
			}
		}
		if mon.Chance(r, 0.2) {
			req.Bucketing = nil
			for i := mon.Range(r, 5, 40); i > 0; i-- {
				req.Bucketing = append(req.Bucketing, time.Duration(r.IntN(2000))*time.Millisecond)
			}
		}
		if mon.Chance(r, 0.1) { // a request of up to 900 kB
			for i := mon.Pick(r, 2000, 8000, 30000) / (1 + 9*b2i(mon.Race())); i > 0; i-- {
				req.Filter.IDs = append(req.Filter.IDs, fmt.Sprintf("ID%022d", r.IntN(1e9)))
			}
		}
		req.Limit = mon.Pick(r, mon.Range(r, 1, 260), 250, 249, 200, 101)
		want, err := coll.Search(bg, copyRequest(req))
		if err != nil {
			c.Violate("direct search: %v", err)
			return
		}
		got, err := trcweb.NewSearchClient(client, uri).Search(bg, copyRequest(req))
		if err != nil {
			c.Violate("client search for %.2000s with %d results: %v", req, len(want.Traces), err)
			return
		}
		if d := diffResponses(got, want); d != "" {
			c.Violate("client search for %.2000s: %s", req, d)
			return
		}
		c.Count("comparisons", 1)
		if len(req.Filter.IDs) > 5000 {
			continue
		}
		hreq, _ := http.NewRequest("GET", uri+"?"+params(req).Encode(), nil)
		res, err := client.Do(hreq)
		if err != nil {
			c.Violate("%v", err)
			return
		}
		body, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil || res.StatusCode != 200 {
			c.Violate("parameters %s: status %d, %v", hreq.URL.RawQuery, res.StatusCode, err)
			return
		}
		data, err := decode(bytes.NewReader(body))
		if err != nil {
			c.Violate("parameters %s: %v", hreq.URL.RawQuery, err)
			return
		}
		if d := diffResponses(&data.Response, want); d != "" {
			c.Violate("parameters %s: %s", hreq.URL.RawQuery, d)
			return
		}
		c.Count("bytes", len(body))
		c.Count("comparisons", 2)
		if len(want.Traces) > 0 {
			c.Seen("large", req.String(), len(want.Traces))
			c.Sample("large: %d of %d traces, %d bytes", len(want.Traces), n, len(body))
		}
	}
}

func c16Fail(c *mon.C) {
	r := c.R
	why := mon.Token("broken")
	part := &trc.SearchResponse{Sources: []string{"part"}, TotalCount: 1}
	broken := mon.Pick(r, errors.New(why), errors.New(why),
		fmt.Errorf("%s: %w", why, context.Canceled),
		fmt.Errorf("%s: %w", why, context.DeadlineExceeded),
		fmt.Errorf("%s: %w", why, io.ErrUnexpectedEOF),
		fmt.Errorf("%s: %w", why, http.ErrAbortHandler),
		errors.Join(errors.New("first"), errors.New(why)),
		errors.New(strings.Repeat("long ", 3000)+why),
	)
	f := mon.Pick(r,
		failSearcher{nil, broken},
		failSearcher{nil, nil},
		failSearcher{part, broken},
		failSearcher{part, nil},
	)
	s := &trcweb.TraceServer{Searcher: f}
	if mon.Chance(r, 0.5) {
		s.Collector = trc.NewDefaultCollector()
	}
	client, uri, stop := serve(c, s)
	defer stop()
	req := request(r, nil)
	orig := copyRequest(req)
	got, err := trcweb.NewSearchClient(client, uri).Search(bg, req)
	if err != nil || got == nil {
		c.Violate("searcher answers %v, %v: the client gets %v, %v", f.res, f.err, got, err)
		return
	}
	report := strings.Join(got.Problems, "\n")
	if f.err != nil && !strings.Contains(report, why) {
		c.Violate("searcher fails with %v: the client's problems are %q", f.err, got.Problems)
	}
	if f.err == nil && f.res == nil && len(got.Problems) == 0 {
		c.Violate("searcher answers nothing: the client gets no problem")
	}
	// the result can be used in a multi-search
	if res, err := (trc.MultiSearcher{trcweb.NewSearchClient(client, uri), trc.NewDefaultCollector()}).Search(bg, copyRequest(orig)); err != nil || res == nil {
		c.Violate("multi-search over a server whose searcher fails: %v", err)
	}
	hreq, _ := http.NewRequest("GET", uri+"?"+params(orig).Encode(), nil)
	hreq.Header.Set("accept", "text/html")
	res, err := client.Do(hreq)
	if err != nil {
		c.Violate("page: %v", err)
		return
	}
	body, _ := io.ReadAll(res.Body)
	res.Body.Close()
	if res.StatusCode != 200 || !strings.Contains(string(body), "</html>") || f.err != nil && !strings.Contains(string(body), why) {
		c.Violate("searcher answers %v, %v: the page has status %d: %.400s", f.res, f.err, res.StatusCode, body)
	}
	c.Seen(f.res == nil, f.err == nil, len(got.Problems))
	c.Sample("searcher answers (%v, %v): client gets problems %q", f.res != nil, f.err, got.Problems)
}

func c16Malformed(c *mon.C) {
	r := c.R
	s, _, sts, _, stop1 := c16Server(c)
	defer stop1()
	client, uri, stop := serve(c, s)
	defer stop()
	for k := mon.Range(r, 1, 5); k > 0 && !c.Failed(); k-- {
		body, kind := malformedBody(r, sts)
		hreq, err := http.NewRequest(mon.Pick(r, "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS"), uri, strings.NewReader(body))
		if err != nil {
			continue
		}
		hreq.URL.RawQuery = malformedQuery(r)
		if mon.Chance(r, 0.6) {
			hreq.Header.Set("content-type", mon.Pick(r, "application/json", "application/json; charset=utf-8", "text/plain", "application/jsonx", "multipart/form-data; boundary=x", "x; application/json"))
		}
		if mon.Chance(r, 0.6) {
			hreq.Header.Set("accept", mon.Pick(r, "text/html", "application/json", "*/*", "text/html;q=;", ",,,", "text/html, application/json;q=0.5", "image/png", "TEXT/HTML"))
		}
		res, err := client.Do(hreq)
		if err != nil {
			if c.Failed() {
				return
			}
			c.Violate("%s %s: %v", hreq.Method, hreq.URL.RawQuery, err)
			return
		}
		b, err := io.ReadAll(res.Body)
		res.Body.Close()
		if err != nil {
			c.Violate("reading the answer: %v", err)
			return
		}
		ctype := res.Header.Get("content-type")
		what := fmt.Sprintf("%s ?%s, content type %q, accept %q, body %.200q", hreq.Method, hreq.URL.RawQuery, hreq.Header.Get("content-type"), hreq.Header.Get("accept"), body)
		switch {
		case res.StatusCode == 400:
			if !strings.Contains(hreq.Header.Get("content-type"), "application/json") {
				c.Violate("status 400 for %s: %.300s", what, b)
			}
		case res.StatusCode != 200:
			c.Violate("status %d for %s: %.300s", res.StatusCode, what, b)
		case strings.HasPrefix(ctype, "application/json"):
			if data, err := decode(bytes.NewReader(b)); err != nil {
				c.Violate("invalid JSON for %s: %v", what, err)
			} else if n := data.Request.Limit; n < 1 || n > 250 {
				c.Violate("limit %d for %s", n, what)
			} else if len(data.Response.Traces) > n {
				c.Violate("%d traces with limit %d for %s", len(data.Response.Traces), n, what)
			}
		case strings.HasPrefix(ctype, "text/html"):
			if !strings.Contains(string(b), "</html>") {
				c.Violate("incomplete page for %s: %.300s", what, b)
			}
		default:
			c.Violate("content type %q for %s", ctype, what)
		}
		c.Seen(res.StatusCode, kind, hreq.Method, hreq.Header.Get("content-type"), hreq.Header.Get("accept"))
		c.Count(fmt.Sprint("status_", res.StatusCode), 1)
		c.Sample("%s -> %d", what, res.StatusCode)
	}
}

func malformedBody(r *rand.Rand, sts []*trc.StaticTrace) (string, string) {
	switch r.IntN(9) {
	case 0:
		return "", "empty"
	case 1:
		return mon.Pick(r, "null", "{}", "[]", "1", "\"x\"", "true", "{", "}", "{\"filter\":[]}", "{\"limit\":\"5\"}", "{\"limit\":1e400}", "\x00\xff", "{\"filter\":{\"query\":7}}"), "small"
	case 2:
		return mon.Pick(r, `{"bucketing":[5,-1,0,9223372036854775807,-9223372036854775808]}`, `{"bucketing":[-1]}`, `{"bucketing":[null]}`, `{"bucketing":[]}`, `{"bucketing":["1s"]}`), "bucketing"
	case 3:
		return mon.Pick(r, `{"limit":-5}`, `{"limit":99999999}`, `{"limit":0}`, `{"stack_depth":-9223372036854775808}`, `{"stack_depth":9223372036854775807}`, `{"stack_depth":-2}`), "numbers"
	case 4:
		return mon.Pick(r, `{"filter":{"query":"("}}`, `{"filter":{"query":"(a{1000}){1000}"}}`, `{"filter":{"min_duration":-1}}`, `{"filter":{"min_duration":null,"ids":[null,""],"sources":[]}}`, `{"filter":{"is_active":true,"is_finished":true}}`, `{"filter":{"is_active":"yes"}}`), "filter"
	case 5:
		return mon.JSON(request(r, sts)), "valid"
	case 6:
		s := mon.JSON(request(r, sts))
		return s[:r.IntN(len(s)+1)], "cut"
	case 7:
		b := []byte(mon.JSON(request(r, sts)))
		for k := mon.Range(r, 1, 4); k > 0; k-- {
			b[r.IntN(len(b))] = byte(r.IntN(256))
		}
		return string(b), "flipped"
	default:
		if mon.Chance(r, 0.2) {
			return `{"filter":{"query":"` + strings.Repeat("x", 1<<20+r.IntN(100)) + `"}}`, "huge"
		}
		return strings.Repeat("[", 5000), "nested"
	}
}

func malformedQuery(r *rand.Rand) string {
	var parts []string
	for k := r.IntN(6); k > 0; k-- {
		key := mon.Pick(r, "q", "n", "b", "stack", "min", "source", "id", "category", "active", "finished", "success", "errored", "json", "stats", "sendbuf", "", "%zz", "N")
		val := mon.Pick(r, "", "0", "-1", "1", "999999999999999999999", "1.5", "1s", "-5m", "1h1h", "(", "[a", "%", "%zz", "%00", "a;b", "a%26b", "%F0%28%8C%28", "true", "9223372036854775807", "2562047h47m16s", "2562048h", "<script>", strings.Repeat("z", 3000), "∞")
		if mon.Chance(r, 0.1) {
			parts = append(parts, key)
		} else {
			parts = append(parts, key+"="+val)
		}
	}
	return strings.Join(parts, mon.Pick(r, "&", "&", "&", ";", "&&"))
}

func c16Concurrent(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector().SetCategorySize(20)
	var h http.Handler = &trcweb.TraceServer{Collector: coll}
	if mon.Chance(r, 0.5) {
		h = trcweb.Middleware(coll.NewTrace, trcweb.Categorize)(h)
	}
	client, uri, stop := serve(c, h)
	defer stop()
	n := mon.Range(r, 2, 6)
	var fns []func()
	for i := 0; i < n; i++ {
		r, r2 := sub(r), sub(r)
		fns = append(fns, func() {
			for k := 0; k < 6; k++ {
				req := request(r, nil)
				lim := req.Limit
				res, err := trcweb.NewSearchClient(client, uri).Search(bg, req)
				switch {
				case err != nil:
					c.Violate("search: %v", err)
				case res.MatchCount < len(res.Traces) || lim > 0 && len(res.Traces) > lim || len(res.Traces) > 250:
					c.Violate("%d traces with limit %d, match count %d", len(res.Traces), lim, res.MatchCount)
				}
				hreq, _ := http.NewRequest("GET", uri+"?"+params(req).Encode(), nil)
				hreq.Header.Set("accept", "text/html")
				if res, err := client.Do(hreq); err != nil || res.StatusCode != 200 {
					c.Violate("page: %v %v", res, err)
				} else {
					io.Copy(io.Discard, res.Body)
					res.Body.Close()
				}
			}
		}, func() {
			for k := 0; k < 20; k++ {
				_, tr := coll.NewTrace(bg, mon.Pick(r2, mon.Categories...))
				tr.LazyErrorf("x %d", k)
				tr.Finish()
			}
		})
	}
	parallel(fns...)
	c.Seen(n, c.Index)
	c.Sample("%d clients", n)
}

func c16Many(c *mon.C) {
	r := c.R
	type target struct {
		s      *trcweb.TraceServer
		direct trc.Searcher
		sts    []*trc.StaticTrace
		kind   string
		client trcweb.HTTPClient
		uri    string
	}
	var targets []target
	for k := mon.Range(r, 1, 3); k > 0; k-- {
		var t target
		var stop1, stop2 func()
		t.s, t.direct, t.sts, t.kind, stop1 = c16Server(c)
		defer stop1()
		var h http.Handler = t.s
		if mon.Chance(r, 0.3) {
			h = trcweb.Middleware(trc.NewDefaultCollector().NewTrace, trcweb.Categorize)(t.s)
		}
		t.client, t.uri, stop2 = serve(c, h)
		defer stop2()
		if l, ok := t.client.(*local); ok {
			l.slow = mon.Chance(r, 0.7)
		}
		targets = append(targets, t)
	}
	var fns []func()
	var mtx sync.Mutex
	shape := []string{}
	for i := mon.Range(r, 2, 8); i > 0; i-- {
		r := sub(r)
		fns = append(fns, func() {
			for k := 0; k < 4 && !c.Failed(); k++ {
				t := mon.Pick(r, targets...)
				req := request(r, t.sts)
				want, err := t.direct.Search(bg, copyRequest(req))
				if err != nil {
					c.Violate("direct search: %v", err)
					return
				}
				var got *trc.SearchResponse
				if mon.Chance(r, 0.6) {
					got, err = trcweb.NewSearchClient(t.client, t.uri).Search(bg, copyRequest(req))
				} else {
					var res *http.Response
					var data *trcweb.SearchData
					if res, err = t.client.Do(must(http.NewRequest("GET", t.uri+"?"+params(req).Encode(), nil))); err == nil {
						data, err = decode(res.Body)
						io.Copy(io.Discard, res.Body)
						res.Body.Close()
						if err == nil {
							got = &data.Response
						}
					}
				}
				if err != nil {
					c.Violate("%s: one of several searches, for %s: %v", t.kind, req, err)
					return
				}
				if d := diffResponses(got, want); d != "" {
					c.Violate("%s: one of several searches, for %s: %s", t.kind, req, d)
					return
				}
				c.Count("concurrent_comparisons", 1)
				mtx.Lock()
				shape = append(shape, fmt.Sprint(req.String(), len(want.Traces)))
				mtx.Unlock()
			}
		})
	}
	n := len(fns)
	parallel(fns...)
	sort.Strings(shape)
	c.Seen(n, shape)
	c.Sample("%d clients of %d servers, %d answers", n, len(targets), len(shape))
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
