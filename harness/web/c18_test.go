package web

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

func TestC18(t *testing.T) {
	m := mon.Start(t, "C18")
	defer m.Done()
	m.Rule("program: random handler programs (status codes, informational and repeated headers, writes, copies, flushes, headers before and after, trailers, content lengths, panics) run over raw loopback connections with and without the middleware; the responses and what the handler observed are compared, and the trace with what was sent; non-trivial: the handler did something; distinct by program")
	m.Cases("program", mon.N(2500, 250), c18Program)
	m.Rule("stream: the handler flushes and waits for the client to confirm each part before going on; distinct by number of parts")
	m.Cases("stream", mon.N(150, 40), c18Stream)
	m.Rule("conc: many concurrent requests on one middleware; each has its own trace with its own events, also when the client goes away; distinct by number of requests")
	m.Cases("conc", mon.N(40, 25), c18Concurrent)
	m.Rule("direct: the middleware around handlers called directly with response writers that can or cannot flush, with contexts that carry values and cancellation; distinct by writer")
	m.Cases("direct", mon.N(500, 60), c18Direct)
}

// An op is one step of a handler.
type op struct {
	name string
	run  func(w http.ResponseWriter, r *http.Request) string // what the handler observes
}

type someReader struct{ io.Reader }

var errBoom = errors.New("boom")

func payload(r *rand.Rand) string {
	n := mon.Pick(r, 0, 1, 2, 10, 100, 511, 512, 513, 1000, 1023, 1024, 2047, 2048, 2049, 5000, 40000)
	if mon.Chance(r, 0.02) {
		n = 1100000
	}
	unit := mon.Pick(r, "x", "<html>hello</html>", "\x00\x01\x02", "{\"a\":1}", "日本語")
	return strings.Repeat(unit, n/len(unit)+1)[:n]
}

func program(r *rand.Rand) (ops []op, panics bool) {
	add := func(name string, run func(http.ResponseWriter, *http.Request) string) {
		ops = append(ops, op{name, run})
	}
	// how net/http copies beyond a declared length is its own business
	copied, declared := false, false
	for k := r.IntN(7); k > 0; k-- {
		switch r.IntN(16) {
		case 0, 1, 2:
			code := mon.Pick(r, 200, 200, 201, 202, 204, 301, 304, 400, 404, 418, 500, 503, 599, 999)
			add(fmt.Sprint("code ", code), func(w http.ResponseWriter, _ *http.Request) string { w.WriteHeader(code); return "" })
		case 3:
			code := mon.Pick(r, 100, 102, 103, 103, 199)
			add(fmt.Sprint("info ", code), func(w http.ResponseWriter, _ *http.Request) string { w.WriteHeader(code); return "" })
		case 4, 5, 6:
			s := payload(r)
			add(fmt.Sprint("write ", len(s)), func(w http.ResponseWriter, _ *http.Request) string {
				n, err := w.Write([]byte(s))
				return fmt.Sprint(n, err)
			})
		case 7:
			s := payload(r)
			add(fmt.Sprint("string ", len(s)), func(w http.ResponseWriter, _ *http.Request) string {
				n, err := io.WriteString(w, s)
				return fmt.Sprint(n, err)
			})
		case 8:
			if declared {
				continue
			}
			copied = true
			s := payload(r)
			add(fmt.Sprint("copy ", len(s)), func(w http.ResponseWriter, _ *http.Request) string {
				io.Copy(w, someReader{strings.NewReader(s)})
				return ""
			})
		case 9:
			add("flush", func(w http.ResponseWriter, _ *http.Request) string {
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
					return "ok"
				}
				return "no"
			})
		case 10:
			add("control flush", func(w http.ResponseWriter, _ *http.Request) string {
				return fmt.Sprint(http.NewResponseController(w).Flush())
			})
		case 11:
			k, v := mon.Pick(r, "X-A", "x-b", "Content-Type", "Cache-Control", "Set-Cookie", "ETag", "Content-Encoding"), mon.Pick(r, "1", "", "text/plain", "a; b=c", "gzip")
			add("header "+k+" "+v, func(w http.ResponseWriter, _ *http.Request) string {
				w.Header().Add(k, v)
				return fmt.Sprint(len(w.Header()))
			})
		case 12:
			if copied {
				continue
			}
			declared = true
			n := mon.Pick(r, 0, 3, 100, 5000)
			add(fmt.Sprint("length ", n), func(w http.ResponseWriter, _ *http.Request) string {
				w.Header().Set("Content-Length", strconv.Itoa(n))
				return ""
			})
		case 13:
			add("trailer", func(w http.ResponseWriter, _ *http.Request) string {
				w.Header().Set(http.TrailerPrefix+"X-Trailer", "last")
				return ""
			})
		case 14:
			add("read", func(_ http.ResponseWriter, r *http.Request) string {
				b, err := io.ReadAll(r.Body)
				return fmt.Sprint(string(b), err)
			})
		default:
			switch r.IntN(4) {
			case 0:
				add("error", func(w http.ResponseWriter, _ *http.Request) string { http.Error(w, "sorry", 502); return "" })
			case 1:
				add("redirect", func(w http.ResponseWriter, r *http.Request) string { http.Redirect(w, r, "/else", 307); return "" })
			case 2:
				add("url", func(_ http.ResponseWriter, r *http.Request) string {
					r.URL.Path = "/changed"
					return ""
				})
			default:
				add("request header", func(_ http.ResponseWriter, r *http.Request) string {
					r.Header.Set("User-Agent", "changed")
					return ""
				})
			}
		}
	}
	if mon.Chance(r, 0.12) {
		// what is still buffered may or may not be sent
		if len(ops) > 0 {
			add("flush", func(w http.ResponseWriter, _ *http.Request) string { w.(http.Flusher).Flush(); return "" })
		}
		v := mon.Pick[any](r, http.ErrAbortHandler, errBoom, "boom")
		add(fmt.Sprintf("panic %v", v), func(http.ResponseWriter, *http.Request) string { panic(v) })
		panics = true
	}
	return ops, panics
}

// reply is what a client got on the wire.
type reply struct {
	infos   []string
	status  int
	header  http.Header
	framing string
	body    []byte
	trailer http.Header
	err     string
}

func readReply(rd *bufio.Reader, method string) (rp reply) {
	for {
		res, err := http.ReadResponse(rd, &http.Request{Method: method})
		if err != nil {
			rp.err = err.Error()
			return rp
		}
		res.Header.Del("Date")
		if res.StatusCode < 200 {
			rp.infos = append(rp.infos, fmt.Sprint(res.StatusCode, " ", res.Header))
			continue
		}
		rp.status, rp.header = res.StatusCode, res.Header
		rp.framing = fmt.Sprint(res.ContentLength, res.TransferEncoding, res.Close)
		rp.body, err = io.ReadAll(res.Body)
		rp.trailer = res.Trailer
		if err != nil {
			rp.err = err.Error()
		}
		return rp
	}
}

func diffReplies(got, want reply) string {
	if strings.Contains(got.err, "connection reset") || strings.Contains(want.err, "connection reset") {
		// the server had not read all of the request: how much of the answer arrives is chance
		if n := min(len(got.body), len(want.body)); got.status != 0 && want.status != 0 && (got.status != want.status || !bytes.Equal(got.body[:n], want.body[:n])) {
			return fmt.Sprintf("status %d and body %.100q, want %d and %.100q", got.status, got.body, want.status, want.body)
		}
		return ""
	}
	switch {
	case fmt.Sprint(got.infos) != fmt.Sprint(want.infos):
		return fmt.Sprintf("informational responses %q, want %q", got.infos, want.infos)
	case got.status != want.status:
		return fmt.Sprintf("status %d, want %d", got.status, want.status)
	case got.err != want.err:
		return fmt.Sprintf("error %q, want %q", got.err, want.err)
	case !reflect.DeepEqual(got.header, want.header):
		return fmt.Sprintf("header %v, want %v", got.header, want.header)
	case got.framing != want.framing:
		return fmt.Sprintf("framing %s, want %s", got.framing, want.framing)
	case !bytes.Equal(got.body, want.body):
		return fmt.Sprintf("body of %d bytes %.100q, want %d bytes %.100q", len(got.body), got.body, len(want.body), want.body)
	case fmt.Sprint(got.trailer) != fmt.Sprint(want.trailer):
		return fmt.Sprintf("trailer %v, want %v", got.trailer, want.trailer)
	}
	return ""
}

var outcome = regexp.MustCompile(`HTTP (\d+), ([0-9.]+)(B|KB|MB), (\S+)`)

// checkOutcome checks the last event of a trace against what was sent.
func checkOutcome(c *mon.C, what string, events []trc.Event, code, n int) {
	if len(events) == 0 {
		c.Violate("%s: the trace has no events", what)
		return
	}
	var found []string
	for _, ev := range events {
		if m := outcome.FindStringSubmatch(ev.What); m != nil {
			found = m
		}
	}
	if found == nil {
		c.Violate("%s: no event of the trace tells the outcome: %q", what, texts(events))
		return
	}
	if code >= 0 && found[1] != strconv.Itoa(code) {
		c.Violate("%s: the trace says %q, status %d was sent", what, found[0], code)
	}
	if n >= 0 {
		v, _ := strconv.ParseFloat(found[2], 64)
		unit := map[string]float64{"B": 1, "KB": 1024, "MB": 1024 * 1024}[found[3]]
		tol := 0.06 * unit
		if n >= 100*1024 && unit == 1024 {
			tol = 0.51 * unit
		}
		if math.Abs(v*unit-float64(n)) > tol {
			c.Violate("%s: the trace says %q, %d bytes were sent", what, found[0], n)
		}
	}
	if _, err := time.ParseDuration(found[4]); err != nil {
		c.Violate("%s: the trace says %q, without a duration", what, found[0])
	}
}

func texts(evs []trc.Event) (ss []string) {
	for _, ev := range evs {
		ss = append(ss, ev.What)
	}
	return ss
}

func anyContains(evs []trc.Event, subs ...string) bool {
next:
	for _, ev := range evs {
		for _, s := range subs {
			if !strings.Contains(ev.What, s) {
				continue next
			}
		}
		return true
	}
	return false
}

// c18Middleware makes a middleware and tells the traces created in a category.
func c18Middleware(r *rand.Rand, category string) (mw func(http.Handler) http.Handler, coll *trc.Collector) {
	categorize := func(*http.Request) string { return category }
	if category != "" && mon.Chance(r, 0.2) {
		return eztrc.Middleware(categorize), eztrc.Collector()
	}
	coll = trc.NewDefaultCollector()
	if mon.Chance(r, 0.2) {
		coll.SetDecorators(mon.Passthrough)
	}
	return trcweb.Middleware(coll.NewTrace, categorize), coll
}

func tracesOf(coll *trc.Collector, category string) []*trc.StaticTrace {
	res, err := coll.Search(bg, &trc.SearchRequest{Filter: trc.Filter{Category: category}, Limit: 250})
	if err != nil {
		return nil
	}
	return res.Traces
}

// c18Requests writes a raw request.
type rawRequest struct {
	method, target, body string
	header               http.Header
}

func anyRequest(r *rand.Rand) rawRequest {
	q := rawRequest{method: mon.Pick(r, "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PROPFIND"), target: mon.Pick(r, "/", "/a/b", "/x?y=z&q=100%25", "/%E6%97%A5?b=<c>", "/a%2Fb?", "/?;", "/path?token="+mon.Token("t"), "http://other.test:81/x?y", "http://test/#"+mon.Token("f"), "/"+strings.Repeat("deep/", mon.Pick(r, 30, 120, 1000))+mon.Token("end")), header: http.Header{}}
	for _, k := range []string{"User-Agent", "Accept", "Content-Type"} {
		if mon.Chance(r, 0.6) {
			q.header.Set(k, mon.Pick(r, "text/html", "curl/8", "a%sb %d", "*/*", mon.Token("h"), strings.Repeat("Mozilla/5.0 ", mon.Pick(r, 8, 30, 100, 500))+mon.Token("end")))
		}
	}
	if mon.Chance(r, 0.2) {
		q.header.Add("Accept", "second/value")
	}
	if q.method != "GET" && q.method != "HEAD" && mon.Chance(r, 0.6) {
		q.body = mon.Pick(r, "hello", "{}", strings.Repeat("b", 3000))
	}
	return q
}

func (q rawRequest) send(addr net.Addr) (reply, error) {
	conn, err := net.Dial("tcp", addr.String())
	if err != nil {
		return reply{}, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(patience))
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: test\r\nConnection: close\r\nContent-Length: %d\r\n", q.method, q.target, len(q.body))
	q.header.Write(&b)
	fmt.Fprintf(&b, "\r\n%s", q.body)
	if _, err := io.WriteString(conn, b.String()); err != nil {
		return reply{}, err
	}
	return readReply(bufio.NewReader(conn), q.method), nil
}

func c18Program(c *mon.C) {
	r := c.R
	ops, panics := program(r)
	q := anyRequest(r)
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	what := fmt.Sprintf("%s %s %v, handler %q", q.method, q.target, q.header, names)
	category := mon.Pick(r, mon.Token("cat"), mon.Token("cat"), mon.Token("cat"), mon.Token("cat"), "", " "+mon.Token("c t&=% ")+"\n")
	mark := mon.Token("mark")

	type seen struct {
		mtx  sync.Mutex
		obs  []string
		pan  any
		id   string
		url  string
		done chan struct{}
	}
	handler := func(s *seen, inTrace bool) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s.mtx.Lock()
			s.url = r.URL.String()
			s.obs = append(s.obs, fmt.Sprint(r.Method, r.URL, r.Header, r.Host, r.ContentLength))
			if tr, ok := trc.MaybeGet(r.Context()); ok {
				s.id = tr.ID()
				tr.Tracef("%s", mark)
				if tr.Finished() {
					c.Violate("%s: the trace is finished while the handler runs", what)
				}
			}
			s.mtx.Unlock()
			for _, o := range ops {
				out := o.run(w, r)
				s.mtx.Lock()
				s.obs = append(s.obs, o.name+": "+out)
				s.mtx.Unlock()
			}
		})
	}
	outer := func(s *seen, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer close(s.done)
			defer func() {
				if x := recover(); x != nil {
					s.mtx.Lock()
					s.pan = x
					s.mtx.Unlock()
					panic(http.ErrAbortHandler)
				}
			}()
			h.ServeHTTP(w, r)
		})
	}
	run := func(s *seen, h http.Handler) (reply, bool) {
		s.done = make(chan struct{})
		srv := httptest.NewUnstartedServer(outer(s, h))
		srv.Config.ErrorLog = (&panicLog{c: c, allow: true}).logger()
		srv.Start()
		defer srv.Close()
		rp, err := q.send(srv.Listener.Addr())
		if err != nil {
			c.Violate("%s: %v", what, err)
			return rp, false
		}
		select {
		case <-s.done:
		case <-giveUp(limit()):
			c.Violate("%s: the handler has not ended", what)
			return rp, false
		}
		return rp, true
	}
	plain, traced := &seen{}, &seen{}
	want, ok1 := run(plain, handler(plain, false))
	mw, coll := c18Middleware(r, category)
	got, ok2 := run(traced, mw(handler(traced, true)))
	if !ok1 || !ok2 {
		return
	}
	if strings.Contains(what, "\"copy ") {
		// net/http may frame what it copies itself differently
		for _, rp := range []*reply{&got, &want} {
			rp.framing, rp.trailer = "", nil
			rp.header.Del("Content-Length")
		}
	}
	if d := diffReplies(got, want); d != "" {
		c.Violate("%s: %s", what, d)
	}
	if !reflect.DeepEqual(traced.obs, plain.obs) {
		c.Violate("%s: the handler observes %q, without the middleware %q", what, traced.obs, plain.obs)
	}
	if traced.pan != plain.pan {
		c.Violate("%s: the panic value is %v, without the middleware %v", what, traced.pan, plain.pan)
	}
	trs := tracesOf(coll, category)
	if len(trs) != 1 {
		c.Violate("%s: %d traces were created", what, len(trs))
		return
	}
	tr := trs[0]
	if traced.id != tr.TraceID {
		c.Violate("%s: the handler's context has trace %q, the collector %q", what, traced.id, tr.TraceID)
	}
	if !tr.TraceFinished {
		c.Violate("%s: the trace is not finished when the handler has ended", what)
	}
	if tr.TraceErrored {
		c.Violate("%s: the trace is errored: %q", what, texts(tr.TraceEvents))
	}
	if !anyContains(tr.TraceEvents, q.method, plain.url) {
		c.Violate("%s: no event has method and URL %q: %q", what, plain.url, texts(tr.TraceEvents))
	}
	for _, k := range []string{"User-Agent", "Accept", "Content-Type"} {
		if v := q.header.Get(k); v != "" && !anyContains(tr.TraceEvents, k, v) {
			c.Violate("%s: no event has the header %s: %q", what, k, texts(tr.TraceEvents))
		}
	}
	if !anyContains(tr.TraceEvents, mark) {
		c.Violate("%s: the handler's own event is missing: %q", what, texts(tr.TraceEvents))
	}
	code, n := want.status, len(want.body)
	if plain.pan != nil {
		n = -1 // what was not flushed is not sent
		if want.status == 0 {
			code = -1
		}
	}
	if q.method == "HEAD" {
		n = -1
	}
	checkOutcome(c, what, tr.TraceEvents, code, n)
	if len(ops) > 0 {
		c.Seen(q.method, names)
		c.Count(fmt.Sprint("status_", want.status), 1)
		c.Count("body_bytes", len(want.body))
		c.Sample("%s -> %d, %d bytes, panic %v; trace %q", what, want.status, len(want.body), plain.pan, texts(tr.TraceEvents))
	}
	_ = panics
}

func c18Stream(c *mon.C) {
	r := c.R
	category := mon.Pick(r, mon.Token("cat"), mon.Token("cat"), mon.Token("cat"), mon.Token("cat"), "", " "+mon.Token("c t&=% ")+"\n")
	mw, coll := c18Middleware(r, category)
	parts := mon.Range(r, 1, 8)
	confirm := make(chan struct{})
	gone := make(chan struct{})
	control := mon.Chance(r, 0.3)
	h := mw(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer close(gone)
		for i := 0; i < parts; i++ {
			fmt.Fprintf(w, "part %d\n", i)
			if control {
				http.NewResponseController(w).Flush()
			} else {
				w.(http.Flusher).Flush()
			}
			select {
			case <-confirm:
			case <-giveUp(limit()):
				c.Violate("part %d was flushed but does not arrive", i)
				return
			}
		}
		<-r.Context().Done() // the client goes away
	}))
	s, stop := loopback(c, h)
	defer stop()
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", s.URL, nil)
	tp := &http.Transport{}
	defer tp.CloseIdleConnections()
	res, err := (&http.Client{Transport: tp}).Do(req)
	if err != nil {
		c.Violate("stream: %v", err)
		return
	}
	defer res.Body.Close()
	rd := bufio.NewReader(res.Body)
	for i := 0; i < parts; i++ {
		line, err := rd.ReadString('\n')
		if err != nil || line != fmt.Sprintf("part %d\n", i) {
			c.Violate("part %d arrives as %q, %v", i, line, err)
			return
		}
		if trs := tracesOf(coll, category); len(trs) != 1 || trs[0].TraceFinished {
			c.Violate("while streaming there are %d traces, or it is finished", len(trs))
		}
		confirm <- struct{}{}
	}
	cancel()
	select {
	case <-gone:
	case <-giveUp(limit()):
		c.Violate("the handler's context is not done after the client went away")
		return
	}
	if !await(func() bool { trs := tracesOf(coll, category); return len(trs) == 1 && trs[0].TraceFinished }) {
		c.Violate("the trace is not finished after the handler has ended")
		return
	}
	checkOutcome(c, "stream", tracesOf(coll, category)[0].TraceEvents, 200, parts*7)
	c.Seen(parts, control)
	c.Sample("%d parts, each confirmed by the client before the next", parts)
}

func c18Concurrent(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	if mon.Chance(r, 0.3) {
		coll = trc.NewCollector(trc.CollectorConfig{Source: "conc", Decorators: []trc.DecoratorFunc{mon.Passthrough}})
	}
	mw := trcweb.Middleware(coll.NewTrace, func(r *http.Request) string { return r.URL.Path })
	h := mw(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n, _ := strconv.Atoi(r.URL.Query().Get("n"))
		code, _ := strconv.Atoi(r.URL.Query().Get("code"))
		tr := trc.Get(r.Context())
		for i := 0; i < 5; i++ {
			tr.LazyTracef("%s step %d", r.URL.Query().Get("token"), i)
		}
		w.WriteHeader(code)
		w.Write(make([]byte, n))
		if r.URL.Query().Has("panic") {
			panic(http.ErrAbortHandler)
		}
	}))
	s, stop := loopback(c, h)
	defer stop()
	tp := &http.Transport{DisableKeepAlives: true} // requests on kept connections may be retried
	client := &http.Client{Transport: tp}
	g, per := mon.Range(r, 2, 8), mon.Range(r, 3, 10)
	type call struct {
		token   string
		n, code int
		pan     bool
	}
	var mtx sync.Mutex
	calls := map[string]call{}
	var fns []func()
	for i := 0; i < g; i++ {
		r := sub(r)
		fns = append(fns, func() {
			for k := 0; k < per; k++ {
				x := call{mon.Token("tok"), r.IntN(1000), mon.Pick(r, 200, 201, 404, 500), mon.Chance(r, 0.1)}
				url := fmt.Sprintf("%s/%d?token=%s&n=%d&code=%d", s.URL, r.IntN(3), x.token, x.n, x.code)
				if x.pan {
					url += "&panic"
				}
				mtx.Lock()
				calls[x.token] = x
				mtx.Unlock()
				res, err := client.Get(url)
				if err != nil {
					if !x.pan {
						c.Violate("%s: %v", url, err)
					}
					continue
				}
				n, err := io.Copy(io.Discard, res.Body)
				res.Body.Close()
				if res.StatusCode != x.code || !x.pan && (err != nil || int(n) != x.n) {
					c.Violate("%s: status %d, %d bytes, %v", url, res.StatusCode, n, err)
				}
			}
		})
	}
	parallel(fns...)
	stop()
	found := 0
	for p := 0; p < 3; p++ {
		for _, tr := range tracesOf(coll, fmt.Sprintf("/%d", p)) {
			found++
			if !tr.TraceFinished {
				c.Violate("trace %s is not finished", tr.TraceID)
			}
			m := regexp.MustCompile(`token=([^&]*)`).FindStringSubmatch(strings.Join(texts(tr.TraceEvents), "\n"))
			if m == nil {
				c.Violate("trace %s has no token: %q", tr.TraceID, texts(tr.TraceEvents))
				continue
			}
			x, ok := calls[m[1]]
			if !ok {
				c.Violate("the request %s was traced twice, or never made", m[1])
				continue
			}
			delete(calls, m[1])
			for i := 0; i < 5; i++ {
				if !anyContains(tr.TraceEvents, fmt.Sprintf("%s step %d", x.token, i)) {
					c.Violate("trace of %s: event %d is missing: %q", x.token, i, texts(tr.TraceEvents))
				}
			}
			checkOutcome(c, x.token, tr.TraceEvents, x.code, x.n)
		}
	}
	if found != g*per {
		c.Violate("%d traces for %d requests", found, g*per)
	}
	c.Count("concurrent_requests", found)
	c.Seen(g, per)
	c.Sample("%d clients, %d requests each", g, per)
}

type plainWriter struct{ w *httptest.ResponseRecorder }

func (p plainWriter) Header() http.Header         { return p.w.Header() }
func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }
func (p plainWriter) WriteHeader(code int)        { p.w.WriteHeader(code) }

type failWriter struct {
	plainWriter
	after int
}

func (f *failWriter) Write(b []byte) (int, error) {
	if len(b) > f.after {
		n, _ := f.w.Write(b[:f.after])
		f.after = 0
		return n, errBoom
	}
	f.after -= len(b)
	return f.w.Write(b)
}

type ctxKey struct{}

func c18Direct(c *mon.C) {
	r := c.R
	category := mon.Pick(r, mon.Token("cat"), mon.Token("cat"), mon.Token("cat"), mon.Token("cat"), "", " "+mon.Token("c t&=% ")+"\n")
	mw, coll := c18Middleware(r, category)
	kind := mon.Pick(r, "flusher", "plain", "failing")
	rec := httptest.NewRecorder()
	var w http.ResponseWriter = rec
	limit := math.MaxInt
	switch kind {
	case "plain":
		w = plainWriter{rec}
	case "failing":
		limit = r.IntN(200)
		w = &failWriter{plainWriter{rec}, limit}
	}
	ctx, cancel := context.WithCancelCause(context.WithValue(bg, ctxKey{}, category))
	defer cancel(nil)
	body := "body"
	if mon.Chance(r, 0.05) {
		body = strings.Repeat("0123456789abcdef", mon.Pick(r, 100, 5000, 100000, 600000))
	}
	req := httptest.NewRequest(mon.Pick(r, "GET", "POST"), "/direct", strings.NewReader(body)).WithContext(ctx)
	code := mon.Pick(r, 0, 200, 404, 500)
	flush, flushFirst := mon.Chance(r, 0.5), mon.Chance(r, 0.3)
	sizes := []int{r.IntN(100), r.IntN(100), r.IntN(100)}
	if mon.Chance(r, 0.05) {
		sizes = append(sizes, mon.Pick(r, 70000, 1100000, 9000000))
	}
	pan := mon.Chance(r, 0.2)
	ran, sent := 0, 0
	func() {
		defer func() {
			if x := recover(); x != nil && x != errBoom {
				panic(x)
			} else if pan != (x != nil) {
				c.Violate("%s: handler panics: %v, the middleware %v", kind, pan, x)
			}
		}()
		mw(http.HandlerFunc(func(iw http.ResponseWriter, ir *http.Request) {
			ran++
			if ir.Context().Value(ctxKey{}) != category {
				c.Violate("%s: the context lost its values", kind)
			}
			if tr, ok := trc.MaybeGet(ir.Context()); !ok || tr.Finished() || tr.Category() != category {
				c.Violate("%s: the context has trace %v, %v", kind, tr, ok)
			}
			if got, err := io.ReadAll(ir.Body); err != nil || string(got) != body {
				c.Violate("%s: the handler reads %d bytes of the request body (error %v), want %d", kind, len(got), err, len(body))
			}
			if flushFirst && kind == "flusher" {
				iw.(http.Flusher).Flush()
			}
			if code > 0 {
				iw.WriteHeader(code)
			}
			for _, n := range sizes {
				k, err := iw.Write(make([]byte, n))
				wantN := n
				if sent+n > limit {
					wantN = limit - sent
				}
				if k != wantN || (err != nil) != (wantN < n) {
					c.Violate("%s: writing %d bytes gives %d, %v, want %d", kind, n, k, err, wantN)
				}
				sent += k
				if wantN < n {
					limit = sent
				}
				if f, ok := iw.(http.Flusher); ok && flush {
					f.Flush()
				}
			}
			cancel(errBoom)
			if context.Cause(ir.Context()) != errBoom {
				c.Violate("%s: the context is not cancelled with its parent", kind)
			}
			if pan {
				panic(errBoom)
			}
		})).ServeHTTP(w, req)
	}()
	if ran != 1 {
		c.Violate("%s: the handler ran %d times", kind, ran)
	}
	if flush && kind == "flusher" && !rec.Flushed {
		c.Violate("%s: a flush was lost", kind)
	}
	if rec.Body.Len() != sent {
		c.Violate("%s: %d bytes arrived, want %d", kind, rec.Body.Len(), sent)
	}
	trs := tracesOf(coll, category)
	if len(trs) != 1 || !trs[0].TraceFinished {
		c.Violate("%s: %d traces, or it is not finished (panic: %v)", kind, len(trs), pan)
		return
	}
	checkOutcome(c, fmt.Sprintf("%s, flushed first %v, code %d", kind, flushFirst, code), trs[0].TraceEvents, rec.Result().StatusCode, sent)
	c.Seen(kind, code, flush, flushFirst, pan, sizes)
	c.Sample("%s writer, code %d, sizes %v, panic %v", kind, code, sizes, pan)
}
