package web

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"testing/synctest"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

// pipes is a listener for in-memory connections, which work on virtual time.
type pipes struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipes() *pipes { return &pipes{ch: make(chan net.Conn), done: make(chan struct{})} }

func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.ch:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

func (p *pipes) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipes) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)} }

func (p *pipes) dial(ctx context.Context) (net.Conn, net.Conn, error) {
	a, b := net.Pipe()
	select {
	case p.ch <- b:
		return a, b, nil
	case <-p.done:
		return nil, nil, net.ErrClosed
	case <-ctx.Done():
		return nil, nil, ctx.Err()
	}
}

// interval interval of a stream client, as documented.
func interval(d, def time.Duration) time.Duration {
	switch {
	case d == 0:
		return def
	case d < time.Second:
		return time.Second
	case d > time.Minute:
		return time.Minute
	}
	return d
}

// c17Virtual runs a stream client and a server over in-memory connections on
// virtual time, with exact times of what they do.
func c17Virtual(c *mon.C) {
	r := c.R
	rc := newRecorder()
	h := c17Handler(r, rc, nil)

	var (
		mtx      sync.Mutex
		attempts []time.Time
		mode     string // what the next attempt meets
		end      context.CancelFunc
		conn     net.Conn
	)
	modes := []string{"refused", "unavailable", "broken", "cut", "end", "cut", "end", "endinit"}
	p := newPipes()
	srv := &http.Server{ErrorLog: (&panicLog{c: c}).logger(), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mtx.Lock()
		how := mode
		ctx, cancel := context.WithCancel(r.Context())
		end = cancel
		mtx.Unlock()
		defer cancel()
		switch how {
		case "unavailable":
			w.WriteHeader(503)
			io.WriteString(w, "try again later")
			return
		case "endinit":
			cancel()
		}
		h.ServeHTTP(w, r.WithContext(ctx))
	})}
	served := make(chan struct{})
	go func() { srv.Serve(p); close(served) }()

	transport := &http.Transport{DisableKeepAlives: mon.Chance(r, 0.7)}
	if !transport.DisableKeepAlives {
		modes = []string{"unavailable", "cut", "end", "endinit"} // there may be nothing to dial
	}
	transport.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		mtx.Lock()
		how := mode
		mtx.Unlock()
		if how == "refused" {
			return nil, errors.New("connection refused")
		}
		a, b, err := p.dial(ctx)
		if err != nil {
			return nil, err
		}
		mtx.Lock()
		conn = b
		mtx.Unlock()
		if how == "broken" {
			b.Close()
		}
		return a, nil
	}
	type read struct {
		typ  string
		when time.Time
		data []byte
	}
	var reads []read
	intervals := []time.Duration{0, 0, time.Second, 2 * time.Second, 60 * time.Second, 30 * time.Second, time.Duration(r.Int64N(60e9)), 61 * time.Second, time.Hour, 1, time.Millisecond, -time.Second}
	sc := &trcweb.StreamClient{
		HTTPClient: doer(func(req *http.Request) (*http.Response, error) {
			mtx.Lock()
			attempts = append(attempts, time.Now())
			mtx.Unlock()
			return (&http.Client{Transport: transport}).Do(req)
		}),
		URI:           "traces.test/traces",
		SendBuffer:    1000,
		RetryInterval: intervals[r.IntN(len(intervals))],
		StatsInterval: intervals[r.IntN(len(intervals))],
		OnRead: func(_ context.Context, typ string, data []byte) {
			mtx.Lock()
			defer mtx.Unlock()
			reads = append(reads, read{typ, time.Now(), append([]byte{}, data...)})
		},
	}
	retry, stats := interval(sc.RetryInterval, 3*time.Second), interval(sc.StatsInterval, 10*time.Second)

	sts := population(r, 10)
	f := streamFilter(r, sts)
	match := 0
	for _, st := range sts {
		if mon.RefAllow(f, mon.RefStream(st)) {
			match++
		}
	}
	mode = modes[r.IntN(len(modes))]
	// a receiver that is slow must still get everything
	var slow time.Duration
	var slowly func()
	if mon.Chance(r, 0.3) {
		slow = mon.Pick(r, 10*time.Millisecond, time.Second, time.Minute, time.Hour)
		slowly = func() { time.Sleep(slow) }
	}
	in := connect(sc, f, mon.Pick(r, 0, 0, 1, 5), slowly)
	shape := fmt.Sprintf("retry %s stats %s slow %s:", sc.RetryInterval, sc.StatsInterval, slow)
	total, connections := 0, 0
	rounds := mon.Range(r, 1, 5)
	for k := 0; k < rounds && !c.Failed(); k++ {
		synctest.Wait()
		mtx.Lock()
		how, n := mode, len(attempts)
		mtx.Unlock()
		shape += " " + how
		if n != k+1 {
			c.Violate("%s: %d connection attempts, want %d (stream returned: %v)", shape, n, k+1, in.err)
			break
		}
		last := attempts[k]
		if how == "cut" || how == "end" {
			connections++
			if rc.active() != 1 {
				c.Violate("%s: %d subscriptions are active while connected", shape, rc.active())
				break
			}
			if d := diffFilters(rc.all()[len(rc.all())-1].filter, f); d != "" {
				c.Violate("%s: the client subscribes %s", shape, d)
			}
			// publish, and watch the statistics for a while
			mtx.Lock()
			reads = nil
			mtx.Unlock()
			for _, st := range sts {
				rc.publish(st)
			}
			ticks := r.IntN(4)
			type pub struct {
				when time.Time
				ok   bool
			}
			var pubs []pub
			if slow == 0 && len(sts) > 0 && mon.Chance(r, 0.5) { // traces keep coming
				until := time.Now().Add(time.Duration(ticks)*stats + stats/2)
				step := time.Duration(mon.Pick(r, 0.27, 0.71) * float64(stats))
				for time.Now().Add(step).Before(until) {
					time.Sleep(step)
					st := sts[r.IntN(len(sts))]
					rc.publish(st)
					ok := mon.RefAllow(f, mon.RefStream(st))
					pubs = append(pubs, pub{time.Now(), ok})
					if ok {
						total++
					}
				}
				time.Sleep(time.Until(until))
			} else if slow == 0 {
				time.Sleep(time.Duration(ticks)*stats + stats/2)
			} else {
				time.Sleep(time.Duration(match+1) * slow)
			}
			synctest.Wait()
			total += match
			if in.count() != total {
				c.Violate("%s: %d traces received in %d connections, want %d", shape, in.count(), connections, total)
			}
			mtx.Lock()
			got := 0
			for _, rd := range reads {
				if rd.typ != "stats" {
					continue
				}
				if got++; slow > 0 {
					continue // the client reads when its receiver lets it
				}
				if want := last.Add(time.Duration(got) * stats); rd.when.Before(want.Add(-stats/10)) || rd.when.After(want.Add(stats/10)) {
					c.Violate("%s: statistics %d arrived %s after connecting, want every %s", shape, got, rd.when.Sub(last), stats)
				}
				var ss trc.StreamStats
				if err := json.Unmarshal(rd.data, &ss); err != nil {
					c.Violate("%s: statistics %q: %v", shape, rd.data, err)
					continue
				}
				// those published at about the same time may or may not be counted
				minSends, maxSends, minSkips, maxSkips := match, match, len(sts)-match, len(sts)-match
				for _, p := range pubs {
					before, after := p.when.Before(rd.when.Add(-stats/10)), p.when.After(rd.when.Add(stats/10))
					switch {
					case p.ok && before:
						minSends++
						maxSends++
					case p.ok && !after:
						maxSends++
					case !p.ok && before:
						minSkips++
						maxSkips++
					case !p.ok && !after:
						maxSkips++
					}
				}
				if ss.Sends < minSends || ss.Sends > maxSends || ss.Skips < minSkips || ss.Skips > maxSkips || ss.Drops != 0 {
					c.Violate("%s: statistics are %q after %d to %d matching and %d to %d other traces", shape, rd.data, minSends, maxSends, minSkips, maxSkips)
				}
			}
			mtx.Unlock()
			if got != ticks && slow == 0 {
				c.Violate("%s: %d statistics in %d intervals of %s", shape, got, ticks, stats)
			}
			c.Count("statistics", got)
		}
		// what the next attempt meets
		mtx.Lock()
		mode = modes[r.IntN(len(modes))]
		begin := time.Now()
		fin, cn := end, conn
		mtx.Unlock()
		switch how {
		case "cut":
			cn.Close()
		case "end":
			fin()
		}
		synctest.Wait()
		if rc.active() != 0 {
			c.Violate("%s: the subscription goes on after the connection ended", shape)
		}
		if k == rounds-1 {
			break
		}
		// nothing happens before the interval is over, and then it does
		time.Sleep(retry - 1)
		synctest.Wait()
		mtx.Lock()
		n = len(attempts)
		mtx.Unlock()
		if n != k+1 {
			c.Violate("%s: reconnected within %s, the retry interval is %s", shape, attempts[k+1].Sub(begin), retry)
			break
		}
		time.Sleep(1)
		c.Count("retries", 1)
	}
	if mon.Chance(r, 0.3) {
		time.Sleep(time.Duration(r.Int64N(int64(retry))))
	}
	begin := time.Now()
	in.cancel()
	<-in.done
	if in.err != nil {
		c.Violate("%s: the cancelled stream returned %v", shape, in.err)
	}
	if took := time.Since(begin); took > 0 {
		c.Violate("%s: the stream returned %s after it was cancelled", shape, took)
	}
	synctest.Wait()
	time.Sleep(slow)
	if !rc.settled() {
		c.Violate("%s: a subscription goes on after its client has ended", shape)
	}
	srv.Close()
	p.Close()
	<-served
	transport.CloseIdleConnections()
	c.Seen(shape, f.String())
	c.Sample("%s: %d connections, %d traces", shape, connections, total)
}

type doer func(req *http.Request) (*http.Response, error)

func (d doer) Do(req *http.Request) (*http.Response, error) { return d(req) }

// cutConn reads at most so many bytes, and then fails.
type cutConn struct {
	net.Conn
	left int
	err  error
}

func (cc *cutConn) Read(p []byte) (int, error) {
	if cc.left <= 0 {
		cc.Conn.Close()
		return 0, cc.err
	}
	n, err := cc.Conn.Read(p[:min(len(p), cc.left)])
	cc.left -= n
	return n, err
}

// c17CutAt loses the connection after some number of bytes, anywhere within the
// stream.
func c17CutAt(c *mon.C) {
	r := c.R
	rc := newRecorder()
	h := c17Handler(r, rc, nil)
	p := newPipes()
	srv := &http.Server{ErrorLog: (&panicLog{c: c}).logger(), Handler: h}
	served := make(chan struct{})
	go func() { srv.Serve(p); close(served) }()
	// where to cut, relative to what is sent for a trace, so that all parts of
	// it are hit
	var (
		mtx      sync.Mutex
		attempts int
		limit    = -1
		conns    []*cutConn
	)
	failure := mon.Pick(r, io.EOF, io.ErrUnexpectedEOF, error(&net.OpError{Op: "read", Err: errors.New("connection reset by peer")}))
	transport := &http.Transport{DisableKeepAlives: true}
	transport.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, _, err := p.dial(ctx)
		if err != nil {
			return nil, err
		}
		mtx.Lock()
		defer mtx.Unlock()
		attempts++
		cc := &cutConn{Conn: a, left: 1 << 40, err: failure}
		if limit >= 0 {
			cc.left = limit
		}
		conns = append(conns, cc)
		return cc, nil
	}
	sc := &trcweb.StreamClient{HTTPClient: &http.Client{Transport: transport}, URI: "http://traces.test/traces", SendBuffer: 1000, RetryInterval: time.Second, StatsInterval: time.Minute}
	f := trc.Filter{}
	now := time.Now().UTC()
	var sts, want []*trc.StaticTrace
	for k := mon.Range(r, 1, 3); k > 0; k-- {
		st := mon.Static(r, "日本 cat", "src é", now)
		st.TraceEvents = append(st.TraceEvents[:min(len(st.TraceEvents), 2)], trc.Event{When: now, What: "événement 日本 " + mon.Token("e")})
		sts = append(sts, st)
		want = append(want, mon.RefStream(st))
	}
	// the length of a whole stream
	in := connect(sc, f, 10, nil)
	synctest.Wait()
	for _, st := range sts {
		rc.publish(st)
	}
	synctest.Wait()
	if d := diffMessages(in.list(), want); d != "" {
		c.Violate("an undisturbed stream: %s", d)
	}
	in.cancel()
	<-in.done
	synctest.Wait()
	mtx.Lock()
	whole := 1<<40 - conns[0].left
	mtx.Unlock()
	shape := ""
	cuts := 0
	for k := 0; k < 12 && !c.Failed(); k++ {
		at := r.IntN(whole + 1)
		if mon.Chance(r, 0.5) { // near the end
			at = max(0, whole-r.IntN(min(whole, 200)))
		}
		mtx.Lock()
		limit, attempts = at, 0
		mtx.Unlock()
		before := len(rc.all())
		in := connect(sc, f, 10, nil)
		synctest.Wait()
		for _, st := range sts {
			if rc.active() > 0 {
				rc.publish(st)
			}
			synctest.Wait()
		}
		// whatever arrived is a beginning of what was sent
		got := in.list()
		if len(got) > len(want) {
			c.Violate("cut after %d of %d bytes: %d traces received, %d sent", at, whole, len(got), len(want))
			break
		}
		if d := diffMessages(got, want[:len(got)]); d != "" {
			c.Violate("cut after %d of %d bytes: %s", at, whole, d)
			break
		}
		mtx.Lock()
		limit = -1
		cut := conns[len(conns)-1].left <= 0
		mtx.Unlock()
		if !cut { // the server writes no more: the connection is idle
			mtx.Lock()
			conns[len(conns)-1].Conn.Close()
			mtx.Unlock()
		}
		cuts++
		time.Sleep(1500 * time.Millisecond)
		synctest.Wait()
		select {
		case <-in.done:
			c.Violate("cut after %d of %d bytes (%v): the stream returned %v", at, whole, failure, in.err)
		default:
		}
		if c.Failed() {
			break
		}
		mtx.Lock()
		n := attempts
		mtx.Unlock()
		if n != 2 || rc.active() != 1 {
			c.Violate("cut after %d of %d bytes (%v): %d connections in one and a half retry intervals, want 2; %d active subscriptions, want 1", at, whole, failure, n, rc.active())
			break
		}
		if d := diffFilters(rc.all()[len(rc.all())-1].filter, f); d != "" {
			c.Violate("cut after %d of %d bytes: the client subscribes again %s", at, whole, d)
		}
		for _, st := range sts {
			rc.publish(st)
		}
		synctest.Wait()
		if d := diffMessages(in.list()[len(got):], want); d != "" {
			c.Violate("cut after %d of %d bytes: after subscribing again: %s", at, whole, d)
		}
		in.cancel()
		<-in.done
		synctest.Wait()
		if in.err != nil || !rc.settled() {
			c.Violate("cut after %d of %d bytes: the cancelled stream returned %v", at, whole, in.err)
		}
		shape += fmt.Sprintf(" %d/%d", len(got), len(rc.all())-before)
		c.Seen("cut", at, whole, failure.Error())
	}
	srv.Close()
	p.Close()
	<-served
	transport.CloseIdleConnections()
	c.Count("cuts", cuts)
	c.Sample("a stream of %d bytes, cut %d times: %s", whole, cuts, shape)
}
