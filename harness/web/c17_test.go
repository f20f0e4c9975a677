package web

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bernerdschaefer/eventsource"
	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

func TestC17(t *testing.T) {
	m := mon.Start(t, "C17")
	defer m.Done()
	m.Rule("virtual: client and server over in-memory connections on virtual time; connections refused, broken, answered with 503, ended or cut at random; attempts, subscriptions, deliveries and statistics must come exactly when the intervals say, cancelling must end all at once; distinct by intervals, faults and filter")
	m.Bubbles("virtual", mon.N(600, 60), c17Virtual)
	m.Rule("cut: on virtual time, the connection is lost after any number of bytes, within a field, a character or a frame; what was received must be a beginning of what was sent, and the client must subscribe again and receive what is published then; distinct by position, length and failure")
	m.Bubbles("cut", mon.N(60, 20), c17CutAt)
	m.Rule("deliver: one to three stream clients with random filters on a loopback server over a broker that publishes random traces; every client must receive exactly the published traces its filter allows, in order and unchanged; non-trivial: something was received; distinct by filters and numbers of messages")
	m.Cases("deliver", mon.N(250, 60), c17Deliver)
	m.Rule("live: stream clients on a collector (also one that holds the server's own traces) whose traces are written by several goroutines; per trace, the messages must be those of a direct subscriber; distinct by workload")
	m.Cases("live", mon.N(100, 40), c17Live)
	m.Rule("tight: small send buffers and slow clients; what is received must be exactly as many messages as the server counted as sent, a subsequence of what was published; distinct by buffer and counts")
	m.Cases("tight", mon.N(60, 20), c17Tight)
	m.Rule("burst: the connection is blocked while as many matching traces are published as the send buffer holds; all must arrive once it is free again; distinct by buffer and filter")
	m.Cases("burst", mon.N(40, 6), c17Burst)
	m.Rule("cancel: several clients at once are cancelled before connecting, while the server does not answer or is unreachable, while waiting to retry, while the receiver is stuck, or while streaming; each stream call must return and its subscription end; distinct by kind and delay")
	m.Cases("cancel", mon.N(30, 12), c17Cancel)
	m.Rule("fault: the server cuts connections, answers with errors, or is unreachable for a while; subscriptions must end, clients reconnect with the same filter and no more often than the retry interval, and give up on unrecoverable answers; distinct by fault")
	m.Cases("fault", mon.N(4, 3), c17Fault)
	m.Rule("raw: raw stream requests with arbitrary parameters, headers and bodies; the answer must be 400 exactly for invalid queries, and otherwise a stream that delivers; closing the connection must end the subscription; distinct by parameters")
	m.Cases("raw", mon.N(500, 80), c17Raw)
}

// recorder is a streamer that records subscriptions.
type recorder struct {
	trcweb.Streamer
	publish func(tr trc.Trace)

	mtx  sync.Mutex
	subs []*subscription
}

type subscription struct {
	filter trc.Filter
	ch     chan<- trc.Trace
	done   chan struct{}
	stats  trc.StreamStats
	err    error
}

func (s *subscription) ended() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

func newRecorder() *recorder {
	b := trc.NewBroker()
	return &recorder{Streamer: b, publish: func(tr trc.Trace) { b.Publish(bg, tr) }}
}

func (rc *recorder) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s := &subscription{filter: f, ch: ch, done: make(chan struct{})}
	rc.mtx.Lock()
	rc.subs = append(rc.subs, s)
	rc.mtx.Unlock()
	defer close(s.done)
	s.stats, s.err = rc.Streamer.Stream(ctx, f, ch)
	return s.stats, s.err
}

// all subscriptions so far.
func (rc *recorder) all() []*subscription {
	rc.mtx.Lock()
	defer rc.mtx.Unlock()
	return append([]*subscription{}, rc.subs...)
}

// active counts the subscriptions that are known to the broker.
func (rc *recorder) active() int {
	n := 0
	for _, s := range rc.all() {
		if _, err := rc.StreamStats(bg, s.ch); err == nil && !s.ended() {
			n++
		}
	}
	return n
}

// settled tells whether every subscription has ended.
func (rc *recorder) settled() bool {
	for _, s := range rc.all() {
		if !s.ended() {
			return false
		}
		if _, err := rc.StreamStats(bg, s.ch); err == nil {
			return false
		}
	}
	return true
}

// patience is how long something that should happen soon may take; it is cut
// once something has not happened, so that a broken tree is reported in time.
const patience = 30 * time.Second

var impatient atomic.Bool

func limit() time.Duration {
	if impatient.Load() {
		return patience / 10
	}
	return patience
}

func giveUp(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	time.AfterFunc(d, func() { ch <- time.Now() })
	return ch
}

// await waits for a condition that is expected to come true soon.
func await(cond func() bool) bool {
	pause := 50 * time.Microsecond
	for deadline := time.Now().Add(limit()); !cond(); {
		if time.Now().After(deadline) {
			impatient.Store(true)
			return false
		}
		mon.Beat()
		time.Sleep(pause)
		if pause < 5*time.Millisecond {
			pause *= 2
		}
	}
	return true
}

// loopback serves a handler; stop fails the case if handlers don't end.
func loopback(c *mon.C, h http.Handler) (s *httptest.Server, stop func()) {
	s = httptest.NewUnstartedServer(h)
	s.Config.ErrorLog = (&panicLog{c: c}).logger()
	s.Start()
	return s, func() {
		done := make(chan struct{})
		go func() {
			s.CloseClientConnections()
			s.Close()
			close(done)
		}()
		select {
		case <-done:
		case <-giveUp(limit()):
			c.Violate("a handler has not ended %s after the server was closed", patience)
		}
	}
}

// inbox collects what a stream client receives.
type inbox struct {
	f      trc.Filter
	ch     chan trc.Trace
	cancel context.CancelFunc
	done   chan struct{}
	err    error
	reads  atomic.Int64

	mtx sync.Mutex
	got []*trc.StaticTrace
}

func (in *inbox) count() int {
	in.mtx.Lock()
	defer in.mtx.Unlock()
	return len(in.got)
}

func (in *inbox) list() []*trc.StaticTrace {
	in.mtx.Lock()
	defer in.mtx.Unlock()
	return append([]*trc.StaticTrace{}, in.got...)
}

// connect starts a stream client whose messages are collected.
func connect(sc *trcweb.StreamClient, f trc.Filter, buf int, slow func()) *inbox {
	ctx, cancel := context.WithCancel(bg)
	in := &inbox{f: f, ch: make(chan trc.Trace, buf), cancel: cancel, done: make(chan struct{})}
	if sc.OnRead == nil {
		sc.OnRead = func(_ context.Context, typ string, _ []byte) {
			if typ == "trace" {
				in.reads.Add(1)
			}
		}
	}
	go func() {
		defer close(in.done)
		in.err = sc.Stream(ctx, mon.CopyFilter(f), in.ch)
	}()
	go func() {
		take := func(tr trc.Trace) {
			st := mon.CopyTrace(tr)
			in.mtx.Lock()
			in.got = append(in.got, st)
			in.mtx.Unlock()
		}
		for {
			select {
			case tr := <-in.ch:
				if slow != nil {
					slow()
				}
				take(tr)
			case <-in.done:
				for {
					select {
					case tr := <-in.ch:
						take(tr)
					default:
						return
					}
				}
			}
		}
	}()
	return in
}

// finish cancels the client and checks that it returns.
func (in *inbox) finish(c *mon.C, what string) {
	in.cancel()
	select {
	case <-in.done:
		if in.err != nil {
			c.Violate("%s: the cancelled stream returned the error %v", what, in.err)
		}
	case <-giveUp(limit()):
		c.Violate("%s: the stream has not returned %s after its context was cancelled", what, patience)
	}
}

func streamFilter(r *rand.Rand, sts []*trc.StaticTrace) trc.Filter {
	if mon.Chance(r, 0.25) {
		return trc.Filter{IsFinished: mon.Chance(r, 0.5)}
	}
	f := mon.AnyFilter(r, sts)
	if mon.Chance(r, 0.1) {
		f.Query = mon.Pick(r, "a b", "a\\+b", "x=y&z=w", "100%", "日本", "a;b", "#", "\"quoted\"")
	}
	return f
}

// streamClient makes a client for the server, some of them with their own HTTP client.
func streamClient(r *rand.Rand, s *httptest.Server, buf int) (*trcweb.StreamClient, func()) {
	sc := trcweb.NewStreamClient(mon.Pick(r, s.URL, strings.TrimPrefix(s.URL, "http://"), s.URL+"/some/path?x=y"))
	stop := func() {}
	if mon.Chance(r, 0.3) {
		// reachable only under the right address, in clear or not
		uri := mon.Pick(r, "traces.test", "http://traces.test:81/traces", "httpd.test", "https.test:82/traces?x=y", "http", "https://traces.test", "https://http.test:444/traces")
		full := uri
		if !strings.Contains(uri, "://") {
			full = "http://" + uri
		}
		u, _ := url.Parse(full)
		want := u.Host
		if u.Port() == "" {
			want += map[string]string{"http": ":80", "https": ":443"}[u.Scheme]
		}
		dial := func(scheme string) func(ctx context.Context, network, addr string) (net.Conn, error) {
			return func(ctx context.Context, network, addr string) (net.Conn, error) {
				if scheme != u.Scheme || addr != want {
					return nil, fmt.Errorf("connecting to %s (%s) instead of %s", addr, scheme, full)
				}
				return (&net.Dialer{}).DialContext(ctx, "tcp", s.Listener.Addr().String())
			}
		}
		tr := &http.Transport{DialContext: dial("http"), DialTLSContext: dial("https")}
		sc = &trcweb.StreamClient{HTTPClient: &http.Client{Transport: tr}, URI: uri}
		stop = tr.CloseIdleConnections
	}
	sc.SendBuffer = buf
	sc.OnRead = nil
	sc.RetryInterval = time.Second
	sc.StatsInterval = mon.Pick(r, 0, time.Second, time.Minute)
	return sc, stop
}

// c17Handler wraps the trace server in the middleware, or not.
func c17Handler(r *rand.Rand, rc *recorder, coll *trc.Collector) http.Handler {
	var h http.Handler = &trcweb.TraceServer{Collector: coll, Streamer: rc}
	if mon.Chance(r, 0.4) {
		h = trcweb.Middleware(trc.NewDefaultCollector().NewTrace, trcweb.Categorize)(h)
	}
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/some/path" && r.URL.Query().Get("x") != "y" {
			http.Error(w, "the address has lost its parameter", http.StatusForbidden)
			return
		}
		h.ServeHTTP(w, r)
	})
}

func diffMessages(got, want []*trc.StaticTrace) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("message %d of %d is %s, want only %d", i, len(got), mon.JSON(got[i]), len(want))
		}
		if d := mon.DiffTraces(got[i], want[i]); d != "" {
			return fmt.Sprintf("message %d of %d is %s, want %s (%s)", i, len(got), mon.JSON(got[i]), mon.JSON(want[i]), d)
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d messages, want %d; the first missing is %s", len(got), len(want), mon.JSON(want[len(got)]))
	}
	return ""
}

func c17Deliver(c *mon.C) {
	r := c.R
	rc := newRecorder()
	s, stop := loopback(c, c17Handler(r, rc, nil))
	defer stop()
	n := mon.Pick(r, 1, 3, 20, 200)
	sts := population(r, n)
	k := mon.Range(r, 1, 3)
	var ins []*inbox
	for i := 0; i < k; i++ {
		sc, done := streamClient(r, s, mon.Pick(r, n+4, 2*n+100, 100000))
		defer done()
		var slow func()
		if mon.Chance(r, 0.1) {
			rs := sub(r)
			slow = func() { time.Sleep(time.Duration(rs.IntN(300)) * time.Microsecond) }
		}
		ins = append(ins, connect(sc, streamFilter(r, sts), mon.Pick(r, 0, 1, n), slow))
		defer ins[i].cancel()
		if !await(func() bool { return rc.active() == i+1 }) {
			c.Violate("client %d is not subscribed after %s (filter %s)", i, patience, ins[i].f)
			return
		}
		if d := diffFilters(rc.all()[i].filter, ins[i].f); d != "" {
			c.Violate("client %d subscribes %s", i, d)
			return
		}
	}
	want := make([][]*trc.StaticTrace, k)
	for _, st := range sts {
		rc.publish(mon.Pick[trc.Trace](r, st, mon.NewForeign(st)))
		str := mon.RefStream(st)
		for i, in := range ins {
			if mon.RefAllow(in.f, str) {
				want[i] = append(want[i], str)
			}
		}
	}
	// one more copy of something each client receives shows that nothing came twice before
	for _, in := range ins {
		for _, st := range sts {
			if mon.RefAllow(in.f, mon.RefStream(st)) {
				rc.publish(st)
				str := mon.RefStream(st)
				for i, in := range ins {
					if mon.RefAllow(in.f, str) {
						want[i] = append(want[i], str)
					}
				}
				break
			}
		}
	}
	total := 0
	for i, in := range ins {
		await2 := await(func() bool { return in.count() >= len(want[i]) })
		if d := diffMessages(in.list(), want[i]); d != "" {
			c.Violate("client %d with filter %s (all arrived: %v): %s", i, in.f, await2, d)
			return
		}
		total += len(want[i])
	}
	for i, in := range ins {
		in.finish(c, fmt.Sprintf("client %d", i))
		if n := in.reads.Load(); n != int64(len(want[i])) {
			c.Violate("client %d: OnRead was called for %d traces, want %d", i, n, len(want[i]))
		}
	}
	if !await(rc.settled) {
		c.Violate("a subscription has not ended %s after its client", patience)
	}
	c.Count("messages", total)
	if total > 0 {
		c.Seen(n, k, total, ins[0].f.String())
		c.Sample("%d clients, first filter %s, %d traces published, %d messages", k, ins[0].f, n, total)
	}
}

func diffFilters(got, want trc.Filter) string {
	got, want = mon.CopyFilter(got), mon.CopyFilter(want)
	got.Normalize()
	want.Normalize()
	if a, b := mon.JSON(mon.CopyFilter(got)), mon.JSON(mon.CopyFilter(want)); a != b {
		return fmt.Sprintf("with filter %s, want %s", a, b)
	}
	return ""
}

func c17Live(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector().SetCategorySize(mon.Pick(r, 1, 5, 1000))
	rc := &recorder{Streamer: coll}
	var h http.Handler = &trcweb.TraceServer{Collector: coll, Streamer: rc}
	own := mon.Chance(r, 0.5)
	if own {
		h = trcweb.Middleware(coll.NewTrace, trcweb.Categorize)(h)
	}
	s, stop := loopback(c, h)
	defer stop()
	cats := append([]string{"stream", "traces"}, mon.Categories...) // also those of the server's own traces
	sc, done := streamClient(r, s, 100000)
	defer done()
	f := mon.Pick(r, trc.Filter{}, trc.Filter{}, trc.Filter{IsFinished: true}, trc.Filter{IsActive: true}, trc.Filter{Category: cats[0]}, trc.Filter{Category: cats[2]}, trc.Filter{IsErrored: true}, trc.Filter{Query: "needle"})
	in := connect(sc, f, 0, nil)
	defer in.cancel()
	direct := make(chan trc.Trace, 100000)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("the client is not subscribed after %s", patience)
		return
	}
	dsub := &recorder{Streamer: coll}
	go dsub.Stream(ctx, mon.CopyFilter(f), direct)
	await(func() bool { return dsub.active() == 1 })
	g := mon.Range(r, 1, 4)
	var mtx sync.Mutex
	mine := map[string]bool{}
	var fns []func()
	for i := 0; i < g; i++ {
		r := sub(r)
		fns = append(fns, func() {
			for k := mon.Range(r, 1, 8); k > 0; k-- {
				_, tr := coll.NewTrace(bg, mon.Pick(r, cats...))
				mtx.Lock()
				mine[tr.ID()] = true
				mtx.Unlock()
				for e := r.IntN(6); e > 0; e-- {
					mon.Call(tr, r.IntN(4), "%s %s", mon.Word(r), mon.Pick(r, "needle", "hay"))
				}
				if mon.Chance(r, 0.8) {
					tr.Finish()
				}
			}
		})
	}
	parallel(fns...)
	cancel()
	await(dsub.settled)
	want := map[string][]*trc.StaticTrace{}
	n := 0
	for len(direct) > 0 {
		if tr := <-direct; mine[tr.ID()] {
			want[tr.ID()] = append(want[tr.ID()], mon.CopyTrace(tr))
			n++
		}
	}
	split := func() (got map[string][]*trc.StaticTrace, k int, other []*trc.StaticTrace) {
		got = map[string][]*trc.StaticTrace{}
		for _, st := range in.list() {
			if !mine[st.TraceID] {
				other = append(other, st)
				continue
			}
			got[st.TraceID] = append(got[st.TraceID], st)
			k++
		}
		return got, k, other
	}
	await(func() bool { _, k, _ := split(); return k >= n })
	in.finish(c, "the client")
	got, k, other := split()
	for id, w := range want {
		if d := diffMessages(got[id], w); d != "" {
			c.Violate("filter %s, trace %s: %s", f, id, d)
			return
		}
	}
	if k != n {
		c.Violate("filter %s: %d messages, want %d", f, k, n)
	}
	for _, st := range other {
		if !own || st.TraceCategory != "stream" && st.TraceCategory != "traces" {
			c.Violate("received a trace of nobody: %s", mon.JSON(st))
		} else if st.TraceCategory == "stream" {
			c.Violate("the client receives the trace of its own stream: %s", mon.JSON(st))
		}
	}
	if !await(rc.settled) {
		c.Violate("the subscription has not ended %s after its client", patience)
	}
	c.Count("messages", n)
	if n > 0 {
		c.Seen(f.String(), g, n, own)
		c.Sample("filter %s, %d goroutines, %d messages", f, g, n)
	}
}

// gateHandler blocks the writes of a handler on demand.
type gateHandler struct {
	http.Handler
	mtx     sync.RWMutex
	waiting atomic.Int64
}

type gateWriter struct {
	http.ResponseWriter
	g *gateHandler
}

func (w *gateWriter) Write(p []byte) (int, error) {
	w.g.waiting.Add(1)
	w.g.mtx.RLock()
	defer w.g.mtx.RUnlock()
	w.g.waiting.Add(-1)
	return w.ResponseWriter.Write(p)
}

func (w *gateWriter) Flush()                      { w.ResponseWriter.(http.Flusher).Flush() }
func (w *gateWriter) Unwrap() http.ResponseWriter { return w.ResponseWriter }
func (g *gateHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	g.Handler.ServeHTTP(&gateWriter{w, g}, r)
}

func c17Burst(c *mon.C) {
	r := c.R
	rc := newRecorder()
	g := &gateHandler{Handler: c17Handler(r, rc, nil)}
	s, stop := loopback(c, g)
	defer stop()
	n := mon.Pick(r, mon.Range(r, 1, 20), mon.Range(r, 90, 300), mon.Range(r, 900, 2500))
	if mon.Chance(r, 0.1) {
		n = mon.Range(r, 4000, 12000)
	}
	if c.Index == 1 && !mon.Race() {
		n = mon.Range(r, 10100, 12000)
	}
	pad := ""
	if mon.Chance(r, 0.08) { // some 20 MB
		n = mon.Range(r, 150, 200)
		pad = strings.Repeat("padding\n", 17000)
		if mon.Race() {
			pad = pad[:30000]
		}
	}
	sc, done := streamClient(r, s, n)
	defer done()
	sc.StatsInterval = time.Minute
	f := mon.Pick(r, trc.Filter{}, trc.Filter{IsFinished: true}, trc.Filter{Category: "cat"})
	in := connect(sc, f, mon.Pick(r, 0, n), nil)
	defer in.cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("the client is not subscribed after %s", patience)
		return
	}
	now := time.Now().UTC()
	var want []*trc.StaticTrace
	g.mtx.Lock()
	for i := 0; len(want) < n; i++ {
		st := mon.Static(r, mon.Pick(r, "cat", "cat", "cat", "dog"), "src", now)
		st.TraceEvents = st.TraceEvents[:min(len(st.TraceEvents), 2)]
		if len(st.TraceEvents) > 0 && pad != "" {
			st.TraceEvents[0].What += pad
			mon.Beat()
		}
		rc.publish(st)
		if str := mon.RefStream(st); mon.RefAllow(f, str) {
			want = append(want, str)
		}
		if i%100 == 0 {
			mon.Beat()
		}
	}
	g.mtx.Unlock()
	for last := -1; last != in.count(); {
		last = in.count()
		await(func() bool { return in.count() >= n || in.count() > last+200 })
	}
	if d := diffMessages(in.list(), want); d != "" {
		c.Violate("%d matching traces were published with a send buffer of %d, filter %s: %s", n, n, f, d)
		return
	}
	in.finish(c, "burst")
	if !await(rc.settled) {
		c.Violate("the subscription has not ended %s after its client", patience)
	}
	c.Count("messages", n)
	c.Seen("burst", n, f.String(), len(pad))
	c.Sample("burst of %d messages, filter %s", n, f)
}

func c17Tight(c *mon.C) {
	r := c.R
	rc := newRecorder()
	s, stop := loopback(c, c17Handler(r, rc, nil))
	defer stop()
	buf := mon.Pick(r, 1, 2, 10, 0)
	sc, done := streamClient(r, s, buf)
	defer done()
	if mon.Chance(r, 0.5) {
		sep := "?"
		if strings.Contains(sc.URI, "?") {
			sep = "&"
		}
		sc.URI += sep + mon.Pick(r, "sendbuf=0", "sendbuf=-7")
		sc.SendBuffer = 0
	}
	rs := sub(r)
	in := connect(sc, trc.Filter{}, 0, func() { time.Sleep(time.Duration(rs.IntN(50)) * time.Microsecond) })
	defer in.cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("the client is not subscribed after %s", patience)
		return
	}
	sts := population(r, mon.Pick(r, 5, 50, 300))
	for _, st := range sts {
		rc.publish(st)
		if mon.Chance(r, 0.2) {
			time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
		}
	}
	sub := rc.all()[0]
	stats, err := rc.StreamStats(bg, sub.ch)
	if err != nil || stats.Skips != 0 || stats.Sends+stats.Drops != len(sts) {
		c.Violate("statistics %v (%v) after publishing %d traces", stats, err, len(sts))
	}
	await(func() bool { return in.count() >= stats.Sends })
	in.finish(c, "the client")
	got := in.list()
	if len(got) != stats.Sends {
		c.Violate("received %d messages, sent %d", len(got), stats.Sends)
	}
	i := 0
	for _, g := range got {
		for i < len(sts) && sts[i].TraceID != g.TraceID {
			i++
		}
		if i == len(sts) {
			c.Violate("message %s is not among those published after the one before it", g.TraceID)
			break
		}
		if d := mon.DiffTraces(g, mon.RefStream(sts[i])); d != "" {
			c.Violate("message %s: %s", g.TraceID, d)
		}
		i++
	}
	if !await(rc.settled) {
		c.Violate("the subscription has not ended %s after its client", patience)
	}
	c.Count("dropped", stats.Drops)
	c.Count("messages", stats.Sends)
	c.Seen(buf, len(sts), stats.Sends)
	c.Sample("buffer %d: %d published, %d sent, %d dropped", buf, len(sts), stats.Sends, stats.Drops)
}

// silent accepts connections and never answers.
func silent() (net.Listener, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mtx sync.Mutex
	var conns []net.Conn
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			mtx.Lock()
			conns = append(conns, conn)
			mtx.Unlock()
		}
	}()
	return l, func() {
		l.Close()
		mtx.Lock()
		defer mtx.Unlock()
		for _, conn := range conns {
			conn.Close()
		}
	}
}

func c17Cancel(c *mon.C) {
	r := c.R
	rc := newRecorder()
	s, stop := loopback(c, c17Handler(r, rc, nil))
	defer stop()
	quiet, stopQuiet := silent()
	defer stopQuiet()
	dead, stopDead := silent()
	stopDead()
	failing, stopFailing := loopback(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { http.Error(w, "sorry", 503) }))
	defer stopFailing()
	stopPublishing := make(chan struct{})
	published := make(chan struct{})
	rp := sub(r)
	go func() {
		defer close(published)
		r := rp
		for _, st := range population(r, 50) {
			select {
			case <-stopPublishing:
				return
			case <-time.After(time.Duration(r.IntN(1000)) * time.Microsecond):
				rc.publish(st)
			}
		}
		<-stopPublishing
	}()
	kinds := []string{"before", "silent", "dead", "failing", "stuck", "streaming", "early"}
	var fns []func()
	for i := mon.Range(r, 4, 10); i > 0; i-- {
		r := sub(r)
		fns = append(fns, func() {
			kind := mon.Pick(r, kinds...)
			delay := time.Duration(mon.Pick(r, 0, 1, 300, 3000, 20000)) * time.Microsecond
			sc := &trcweb.StreamClient{URI: s.URL, SendBuffer: 100, RetryInterval: mon.Pick(r, 0, time.Minute, time.Second), StatsInterval: mon.Pick(r, 0, time.Second)}
			if mon.Chance(r, 0.5) {
				sc.HTTPClient = &http.Client{Transport: &http.Transport{}}
			}
			ch := make(chan trc.Trace, 1)
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			switch kind {
			case "before":
				cancel()
			case "silent":
				sc.URI = quiet.Addr().String()
			case "dead":
				sc.URI = dead.Addr().String()
			case "failing":
				sc.URI = failing.URL
			}
			done := make(chan error, 1)
			go func() { done <- sc.Stream(ctx, trc.Filter{}, ch) }()
			switch kind {
			case "stuck":
				await(func() bool { return len(ch) == 1 || rc.active() == 0 })
			case "streaming":
				for k := r.IntN(10); k > 0; k-- {
					select {
					case <-ch:
					case <-time.After(10 * time.Millisecond):
					}
				}
			}
			time.Sleep(delay)
			cancel()
			select {
			case err := <-done:
				if err != nil {
					c.Violate("%s: the cancelled stream returned the error %v", kind, err)
				}
			case <-giveUp(limit()):
				c.Violate("%s: the stream has not returned %s after its context was cancelled (delay %s)", kind, patience, delay)
			}
			c.Count("cancelled_"+kind, 1)
			c.Seen(kind, delay)
			c.Sample("%s, cancelled after %s", kind, delay)
		})
	}
	parallel(fns...)
	close(stopPublishing)
	<-published
	if !await(rc.settled) {
		c.Violate("a subscription has not ended %s after its client was cancelled", patience)
	}
}

func c17Fault(c *mon.C) {
	r := c.R
	// each fault takes a retry interval, so they run at once
	parallel(
		func(r *rand.Rand) func() { return func() { c17Ends(c, r) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17Cut(c, r) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17Cut(c, r) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17Unavailable(c, r) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17Refused(c, r, true) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17Refused(c, r, false) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17Unrecoverable(c, r) } }(sub(r)),
		func(r *rand.Rand) func() { return func() { c17ServerStops(c, r) } }(sub(r)),
	)
}

// c17Cut cuts all connections of the server.
func c17Cut(c *mon.C, r *rand.Rand) {
	rc := newRecorder()
	s, stop := loopback(c, c17Handler(r, rc, nil))
	defer stop()
	sts := population(r, 30)
	f := streamFilter(r, sts)
	f.IDs = append(f.IDs, "some & id")
	f.IDs = f.IDs[len(f.IDs)-1:]
	sts[0].TraceID = f.IDs[0]
	in := connect(&trcweb.StreamClient{URI: s.URL, SendBuffer: 1000, RetryInterval: time.Second}, f, 0, nil)
	defer in.cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("cut: not subscribed after %s", patience)
		return
	}
	begin := time.Now()
	s.CloseClientConnections()
	if !await(rc.all()[0].ended) {
		c.Violate("cut: the subscription has not ended %s after the connection was cut", patience)
		return
	}
	if !await(func() bool { return len(rc.all()) == 2 && rc.active() == 1 }) {
		c.Violate("cut: the client has not reconnected after %s (stream returned: %v)", patience, in.err)
		return
	}
	if took := time.Since(begin); took < 900*time.Millisecond {
		c.Violate("cut: the client reconnected after %s, the retry interval is 1s", took)
	}
	if d := diffFilters(rc.all()[1].filter, f); d != "" {
		c.Violate("cut: the client reconnects %s", d)
	}
	match := *sts[0]
	match.TraceSource, match.TraceCategory, match.TraceFinished, match.TraceErrored = "", f.Category, true, f.IsErrored
	if len(f.Sources) > 0 {
		match.TraceSource = f.Sources[0]
	}
	n := 0
	for _, st := range append(sts, &match) {
		if mon.RefAllow(f, mon.RefStream(st)) {
			n++
		}
		rc.publish(st)
	}
	if !await(func() bool { return in.count() >= n }) || in.count() != n {
		c.Violate("cut: received %d messages after reconnecting, want %d (filter %s)", in.count(), n, f)
	}
	in.finish(c, "cut")
	if !await(rc.settled) {
		c.Violate("cut: a subscription has not ended %s after its client", patience)
	}
	c.Count("reconnects", 1)
	c.Seen("cut", f.String(), n)
	c.Sample("connection cut, filter %s: reconnected, then %d messages", f, n)
}

// c17Ends ends responses in good order, as a server does that shuts down or a
// proxy that limits their duration.
func c17Ends(c *mon.C, r *rand.Rand) {
	rc := newRecorder()
	h := c17Handler(r, rc, nil)
	var mtx sync.Mutex
	var enders []context.CancelFunc
	var begins []time.Time
	s, stop := loopback(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ctx, cancel := context.WithCancel(r.Context())
		defer cancel()
		mtx.Lock()
		enders = append(enders, cancel)
		begins = append(begins, time.Now())
		mtx.Unlock()
		h.ServeHTTP(w, r.WithContext(ctx))
	}))
	defer stop()
	sts := population(r, 12)
	f := streamFilter(r, sts)
	in := connect(&trcweb.StreamClient{URI: s.URL, SendBuffer: 1000, RetryInterval: mon.Pick(r, time.Second, -1, time.Millisecond)}, f, 0, nil)
	defer in.cancel()
	n := 0
	for k := range 2 {
		if !await(func() bool { return len(rc.all()) == k+1 && rc.active() == 1 }) {
			c.Violate("end: subscribed %d times after %d ends and %s (stream returned: %v)", len(rc.all()), k, patience, in.err)
			return
		}
		if d := diffFilters(rc.all()[k].filter, f); d != "" {
			c.Violate("end: the client connects %s", d)
		}
		for _, st := range sts {
			if mon.RefAllow(f, mon.RefStream(st)) {
				n++
			}
			rc.publish(st)
		}
		if !await(func() bool { return in.count() >= n }) || in.count() != n {
			c.Violate("end: received %d messages in %d connections, want %d (filter %s)", in.count(), k+1, n, f)
		}
		if k == 0 {
			ended := time.Now()
			mtx.Lock()
			enders[0]()
			mtx.Unlock()
			if !await(func() bool { return len(rc.all()) == 2 }) {
				c.Violate("end: the client has not reconnected %s after the response ended (stream returned: %v)", patience, in.err)
				return
			}
			mtx.Lock()
			if took := begins[1].Sub(ended); took < 900*time.Millisecond {
				c.Violate("end: the client reconnected after %s, the retry interval is 1s", took)
			}
			mtx.Unlock()
		}
	}
	in.finish(c, "end")
	if !await(rc.settled) {
		c.Violate("end: a subscription has not ended %s after its client", patience)
	}
	c.Count("reconnects", 1)
	c.Seen("end", f.String(), n)
}

// c17Unavailable answers with server errors at first.
func c17Unavailable(c *mon.C, r *rand.Rand) {
	rc := newRecorder()
	var attempts atomic.Int64
	h := c17Handler(r, rc, nil)
	code := mon.Pick(r, 500, 502, 503, 504)
	s, stop := loopback(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if attempts.Add(1) == 1 {
			w.WriteHeader(code)
			return
		}
		h.ServeHTTP(w, r)
	}))
	defer stop()
	in := connect(&trcweb.StreamClient{URI: s.URL, SendBuffer: 1000, RetryInterval: time.Second}, trc.Filter{}, 0, nil)
	defer in.cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("unavailable: not subscribed %s after a %d", patience, code)
		return
	}
	st := population(r, 1)[0]
	rc.publish(st)
	if !await(func() bool { return in.count() == 1 }) {
		c.Violate("unavailable: nothing received after a %d", code)
	}
	in.finish(c, "unavailable")
	if !await(rc.settled) {
		c.Violate("unavailable: the subscription has not ended %s after its client", patience)
	}
	c.Seen("unavailable", code)
}

// c17Refused counts connection attempts to a server which cannot be used.
func c17Refused(c *mon.C, r *rand.Rand, answer bool) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	var attempts atomic.Int64
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			attempts.Add(1)
			if answer {
				go func() {
					io.ReadAtLeast(conn, make([]byte, 4096), 10)
					io.WriteString(conn, "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
					conn.Close()
				}()
			} else {
				conn.Close()
			}
		}
	}()
	begin := time.Now()
	in := connect(&trcweb.StreamClient{URI: l.Addr().String(), RetryInterval: time.Second}, trc.Filter{}, 0, nil)
	defer in.cancel()
	time.Sleep(1200 * time.Millisecond)
	in.finish(c, "refused")
	took := time.Since(begin)
	if n, max := attempts.Load(), int64(2*(took.Seconds()+1)); n > max || n == 0 {
		c.Violate("refused: %d connection attempts in %s, the retry interval is 1s (server answers 503: %v)", n, took, answer)
	}
	c.Seen("refused", answer)
}

// c17Unrecoverable answers with something that is not a stream.
func c17Unrecoverable(c *mon.C, r *rand.Rand) {
	code := mon.Pick(r, 400, 401, 403, 404, 418, 200)
	s, stop := loopback(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("content-type", "application/json")
		w.WriteHeader(code)
		io.WriteString(w, "{}")
	}))
	defer stop()
	in := connect(&trcweb.StreamClient{URI: s.URL, RetryInterval: time.Second}, trc.Filter{}, 0, nil)
	defer in.cancel()
	select {
	case <-in.done:
		if in.err == nil {
			c.Violate("unrecoverable: the stream ended without error after a %d that is not a stream", code)
		}
	case <-giveUp(limit()):
		c.Violate("unrecoverable: the stream goes on %s after a %d that is not a stream", patience, code)
	}
	// a filter with an invalid query
	rc := newRecorder()
	s2, stop2 := loopback(c, c17Handler(r, rc, nil))
	defer stop2()
	q := badQueries[r.IntN(len(badQueries))]
	in = connect(&trcweb.StreamClient{URI: s2.URL, RetryInterval: time.Second}, trc.Filter{Query: q}, 0, nil)
	defer in.cancel()
	select {
	case <-in.done:
		if in.err == nil {
			c.Violate("unrecoverable: streaming with the invalid query %q ended without error", q)
		}
	case <-giveUp(limit()):
		c.Violate("unrecoverable: streaming with the invalid query %q goes on", q)
	}
	c.Seen("unrecoverable", code, q)
}

// c17ServerStops closes the server for good.
func c17ServerStops(c *mon.C, r *rand.Rand) {
	rc := newRecorder()
	s, stop := loopback(c, c17Handler(r, rc, nil))
	in := connect(&trcweb.StreamClient{URI: s.URL, RetryInterval: time.Second}, trc.Filter{}, 0, nil)
	defer in.cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("stop: not subscribed after %s", patience)
	}
	stop()
	if !await(rc.settled) {
		c.Violate("stop: a subscription has not ended %s after the server was closed", patience)
	}
	time.Sleep(time.Duration(r.IntN(1200)) * time.Millisecond)
	in.finish(c, "stop")
	c.Seen("stop")
}

func c17Raw(c *mon.C) {
	r := c.R
	rc := newRecorder()
	s, stop := loopback(c, c17Handler(r, rc, nil))
	defer stop()
	sts := population(r, 12)
	f := streamFilter(r, sts)
	q := url.Values{}
	hreq, _ := http.NewRequest(mon.Pick(r, "GET", "GET", "POST"), s.URL, nil)
	hreq.Header.Set("accept", mon.Pick(r, "text/event-stream", "text/event-stream", "text/event-stream;q=0.9", "application/json, text/event-stream", "text/html,text/event-stream ,*/*", "Text/Event-Stream"))
	bad, exact := false, true
	switch r.IntN(5) {
	case 0:
		f.Query = badQueries[r.IntN(len(badQueries))]
		bad = true
		q = filterParams(f)
	case 1:
		hreq.Header.Set("content-type", mon.Pick(r, "application/json", "application/json; charset=utf-8"))
		if mon.Chance(r, 0.2) {
			f.Query = badQueries[r.IntN(len(badQueries))]
			bad = true
		}
		hreq.Body = io.NopCloser(strings.NewReader(mon.JSON(f)))
		q = filterParams(streamFilter(r, sts)) // not used
		q.Del("q")
	case 2:
		hreq.Header.Set("content-type", "application/json")
		hreq.Body = io.NopCloser(strings.NewReader(mon.Pick(r, "", "null", "[]", "7", "{", "\xff", strings.Repeat("[", 20000), strings.Repeat(" ", 300<<10))))
		f = trc.Filter{}
	case 3:
		hreq.URL.RawQuery = malformedQuery(r)
		exact = false
		if _, err := regexp.Compile(hreq.URL.Query().Get("q")); err != nil {
			bad = true
		}
	default:
		q = filterParams(f)
	}
	if mon.Chance(r, 0.7) {
		q.Set("stats", mon.Pick(r, "0", "0s", "-5s", "-1ns", "abc", "", "1ms", "1h", "5", "2562047h47m16s"))
	}
	sendbuf := mon.Pick(r, "1000", "1000", "", "0", "-1", "99999999999999999999", "200000", "x", "1e9")
	if mon.Chance(r, 0.7) {
		q.Set("sendbuf", sendbuf)
	} else {
		sendbuf = ""
	}
	if exact {
		hreq.URL.RawQuery = q.Encode()
	} else {
		hreq.URL.RawQuery += "&" + q.Encode()
	}
	what := fmt.Sprintf("%s ?%s, accept %q, content type %q", hreq.Method, hreq.URL.RawQuery, hreq.Header.Get("accept"), hreq.Header.Get("content-type"))
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	tr := &http.Transport{}
	defer tr.CloseIdleConnections()
	answer := make(chan *http.Response, 1)
	go func() {
		res, err := (&http.Client{Transport: tr}).Do(hreq.WithContext(ctx))
		if err != nil && !c.Failed() {
			c.Violate("%s: %v", what, err)
		}
		answer <- res
	}()
	var res *http.Response
	select {
	case res = <-answer:
	case <-giveUp(limit()):
		c.Violate("%s: no answer after %s", what, patience)
		return
	}
	if res == nil {
		return
	}
	defer res.Body.Close()
	c.Count(fmt.Sprint("status_", res.StatusCode), 1)
	c.Seen(res.StatusCode, bad, q.Get("stats"), q.Get("sendbuf"), hreq.Header.Get("content-type"), exact)
	c.Sample("%s -> %d", what, res.StatusCode)
	if bad {
		if res.StatusCode != 400 {
			c.Violate("%s: status %d for an invalid query", what, res.StatusCode)
		}
		return
	}
	if res.StatusCode != 200 || !strings.HasPrefix(res.Header.Get("content-type"), "text/event-stream") {
		c.Violate("%s: status %d, content type %q", what, res.StatusCode, res.Header.Get("content-type"))
		return
	}
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("%s: not subscribed after %s", what, patience)
		return
	}
	if exact {
		if d := diffFilters(rc.all()[0].filter, f); d != "" {
			c.Violate("%s: subscribed %s", what, d)
		}
	} else {
		f = rc.all()[0].filter
	}
	// read in the background
	var mtx sync.Mutex
	var got []*trc.StaticTrace
	var seen []trc.StreamStats
	closed := make(chan struct{})
	go func() {
		defer close(closed)
		dec := eventsource.NewDecoder(res.Body)
		for {
			var ev eventsource.Event
			if err := dec.Decode(&ev); err != nil {
				return
			}
			mtx.Lock()
			switch ev.Type {
			case "trace":
				var st trc.StaticTrace
				if err := json.Unmarshal(ev.Data, &st); err != nil {
					c.Violate("%s: event %.200q: %v", what, ev.Data, err)
				}
				got = append(got, &st)
			case "stats":
				var st trc.StreamStats
				if err := json.Unmarshal(ev.Data, &st); err != nil {
					c.Violate("%s: event %.200q: %v", what, ev.Data, err)
				}
				seen = append(seen, st)
			default:
				if !json.Valid(bytes.TrimSpace(ev.Data)) {
					c.Violate("%s: event %q has data %.200q", what, ev.Type, ev.Data)
				}
			}
			mtx.Unlock()
		}
	}()
	have := func() int { mtx.Lock(); defer mtx.Unlock(); return len(got) }
	var want []*trc.StaticTrace
	for _, st := range sts {
		str := mon.RefStream(st)
		ok := mon.RefAllow(f, str)
		if sendbuf == "0" || sendbuf == "-1" || !exact {
			// little or nothing is buffered: publish until the handler is there to take it
			before, _ := rc.StreamStats(bg, rc.all()[0].ch)
			if !await(func() bool {
				rc.publish(st)
				now, _ := rc.StreamStats(bg, rc.all()[0].ch)
				return !ok || now.Sends > before.Sends
			}) {
				c.Violate("%s: nothing is ever sent", what)
			}
		} else {
			rc.publish(st)
		}
		if ok {
			want = append(want, str)
		}
	}
	await(func() bool { return have() >= len(want) })
	if mon.Chance(r, 0.3) && q.Get("stats") == "1ms" {
		await(func() bool { mtx.Lock(); defer mtx.Unlock(); return len(seen) > 0 })
	}
	mtx.Lock()
	if d := diffMessages(got, want); d != "" {
		c.Violate("%s: %s", what, d)
	}
	last := trc.StreamStats{}
	for _, st := range seen {
		if st.Skips < last.Skips || st.Sends < last.Sends || st.Drops < last.Drops {
			c.Violate("%s: statistics decrease from %v to %v", what, last, st)
		}
		last = st
	}
	final, _ := rc.StreamStats(bg, rc.all()[0].ch)
	if last.Skips > final.Skips || last.Sends > final.Sends || last.Drops > final.Drops {
		c.Violate("%s: statistics %v, in the end %v", what, last, final)
	}
	c.Count("stats_events", len(seen))
	mtx.Unlock()
	c.Count("messages", len(want))
	// go away, in different ways
	if mon.Chance(r, 0.5) {
		cancel()
	} else {
		res.Body.Close()
	}
	<-closed
	if !await(rc.settled) {
		c.Violate("%s: the subscription has not ended %s after the client went away", what, patience)
	}
}
