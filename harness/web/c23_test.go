package web

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"verif.local/trcmon/mon"
)

func TestC23(t *testing.T) {
	m := mon.Start(t, "C23")
	defer m.Done()
	m.Rule("search: the built command searches one to four servers, some of them dead, refusing or answering nonsense, with random filters, limits, stack depths and output formats, given as long or short flags or environment variables; its output must be one JSON document equal to the direct multi-search, with a problem for each failing server; non-trivial: traces or problems were printed; distinct by flags and numbers of results")
	m.Cases("search", mon.N(400, 80), c23Search)
	m.Rule("stream: the built command streams from one to three servers, some dead, while traces are published; it must print, per server, exactly the matching traces (with the events flag also those that are not finished), once each and in order, and end with status 0 on interrupt; distinct by flags and numbers of messages")
	m.Cases("stream", mon.N(90, 25), c23Stream)
	m.Rule("live: the same on a live collector, against a direct subscriber; distinct by workload")
	m.Cases("live", mon.N(30, 12), c23Live)
	m.Rule("cut: connections are cut, or the server is not there yet; the command must connect again and print what is published afterwards; distinct by fault")
	m.Cases("cut", mon.N(6, 3), c23Cut)
	m.Rule("refuse: one server answers with an error, something that is not a stream, or nonsense for a while, and then works; the command must try again, no sooner than after the retry interval, must meanwhile and afterwards print what the servers publish, and must end on interrupt also when it waits for a long retry interval; distinct by answer")
	m.Cases("refuse", mon.N(6, 2), c23Refuse)
	m.Rule("invalid: invalid flags of both commands; the command must exit with a non-zero status and an error message; distinct by flags")
	m.Cases("invalid", mon.N(150, 25), c23Invalid)
	m.Rule("edge: flags with extreme but parsable values; the command must either work or exit with an error message, and never crash; distinct by flags")
	m.Cases("edge", mon.N(40, 12), c23Edge)
}

// command runs the built command line tool.
type command struct {
	cmd    *exec.Cmd
	args   []string
	cancel context.CancelFunc
	done   chan struct{}
	err    error

	mtx    sync.Mutex
	stdout bytes.Buffer
	stderr bytes.Buffer
}

type lockedWriter struct {
	mtx *sync.Mutex
	buf *bytes.Buffer
}

func (w *lockedWriter) Write(p []byte) (int, error) {
	w.mtx.Lock()
	defer w.mtx.Unlock()
	return w.buf.Write(p)
}

func (k *command) out() string { k.mtx.Lock(); defer k.mtx.Unlock(); return k.stdout.String() }
func (k *command) log() string { k.mtx.Lock(); defer k.mtx.Unlock(); return k.stderr.String() }

func (k *command) String() string { return fmt.Sprintf("trc %q", k.args) }

// start starts the tool with the arguments and environment.
func start(c *mon.C, args, env []string) *command {
	ctx, cancel := context.WithCancel(bg)
	k := &command{args: args, cancel: cancel, done: make(chan struct{})}
	k.cmd = exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), args...)
	for _, e := range os.Environ() {
		if name, _, _ := strings.Cut(e, "="); !strings.HasPrefix(name, "TRC_") && !strings.HasSuffix(strings.ToLower(name), "_proxy") {
			k.cmd.Env = append(k.cmd.Env, e)
		}
	}
	k.cmd.Env = append(k.cmd.Env, env...)
	k.cmd.Stdout = &lockedWriter{&k.mtx, &k.stdout}
	k.cmd.Stderr = &lockedWriter{&k.mtx, &k.stderr}
	k.cmd.WaitDelay = time.Second
	if err := k.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		defer close(k.done)
		k.err = k.cmd.Wait()
	}()
	return k
}

// wait waits for the tool to end.
func (k *command) wait(c *mon.C) bool {
	timeout := giveUp(limit())
	for {
		select {
		case <-k.done:
			if s := k.log(); strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
				c.Violate("%v crashed: %.1500s", k, s)
				return false
			}
			return true
		case <-timeout:
			impatient.Store(true)
			c.Violate("%v has not ended after %s; output %.500q, messages %.500q", k, patience, k.out(), k.log())
			k.cancel()
			<-k.done
			return false
		case <-time.After(time.Second):
			mon.Beat()
		}
	}
}

func (k *command) code() int { return k.cmd.ProcessState.ExitCode() }

// interrupt ends a stream command.
func (k *command) interrupt(c *mon.C) bool {
	k.cmd.Process.Signal(syscall.SIGINT)
	if !k.wait(c) {
		return false
	}
	if k.code() != 0 {
		c.Violate("%v was interrupted and ends with status %d: %.500q", k, k.code(), k.log())
		return false
	}
	return true
}

// flags gives the filter's flags in one of their forms.
func flags(r *rand.Rand, f trc.Filter) (args, env []string) {
	val := func(short, long, value string, single bool) {
		switch x := r.IntN(4); {
		case x == 0 && short != "":
			args = append(args, "-"+short, value)
		case x == 1:
			args = append(args, "--"+long, value)
		case x == 2 && single && len(env) < 2 && value != "":
			env = append(env, "TRC_"+strings.ToUpper(long)+"="+value)
		default:
			args = append(args, "--"+long+"="+value)
		}
	}
	flag := func(short, long string) {
		switch x := r.IntN(4); {
		case x == 0 && short != "":
			args = append(args, "-"+short)
		case x == 1:
			args = append(args, "--"+long+"=true")
		case x == 2 && len(env) < 2:
			env = append(env, "TRC_"+strings.ToUpper(long)+"=true")
		default:
			args = append(args, "--"+long)
		}
	}
	for _, s := range f.Sources {
		val("", "source", s, false)
	}
	for _, s := range f.IDs {
		val("i", "id", s, false)
	}
	if f.Category != "" {
		val("c", "category", f.Category, true)
	}
	if f.Query != "" {
		val("q", "query", f.Query, true)
	}
	if f.MinDuration != nil {
		args = append(args, "--duration="+f.MinDuration.String())
	}
	if f.IsActive {
		flag("a", "active")
	}
	if f.IsFinished {
		flag("f", "finished")
	}
	if f.IsSuccess {
		flag("", "success")
	}
	if f.IsErrored {
		flag("", "errored")
	}
	return args, env
}

func unique(ss []string) (out []string) {
	for _, s := range ss {
		if !slices.Contains(out, s) {
			out = append(out, s)
		}
	}
	return out
}

var deadSeq atomic.Int64

// deadURI is an address where nothing listens, nor will.
func deadURI() string {
	n := deadSeq.Add(1) % 60000
	return fmt.Sprintf("http://127.66.%d.%d:9", 1+n/250, 1+n%250)
}

func uriFlag(r *rand.Rand, uri string) []string {
	switch r.IntN(4) {
	case 0:
		return []string{"-u", uri}
	case 1:
		return []string{"--uri", strings.TrimPrefix(uri, "http://")}
	case 2:
		return []string{"--uri=" + uri}
	default:
		return []string{"-u", strings.TrimPrefix(uri, "http://")}
	}
}

func c23Search(c *mon.C) {
	r := c.R
	var (
		direct trc.MultiSearcher
		sts    []*trc.StaticTrace
		uris   []string
		dead   int
	)
	path := mon.Pick(r, "", "", "/traces", "/some/where")
	servers := mon.Range(r, 1, 4)
	if mon.Chance(r, 0.05) {
		servers = mon.Range(r, 9, 20)
	}
	for k := servers; k > 0; k-- {
		switch r.IntN(8) {
		case 0:
			uris = append(uris, deadURI())
			dead++
			continue
		case 1, 2:
			fail := r.IntN(5)
			s, stop := loopback(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				switch fail {
				case 0:
					http.Error(w, "not today", http.StatusInternalServerError)
				case 1:
					w.WriteHeader(http.StatusNotFound)
				case 2:
					io.WriteString(w, "<html>not JSON")
				case 3:
					panic(http.ErrAbortHandler)
				case 4:
					w.Header().Set("content-length", "1000")
					io.WriteString(w, `{"request":{},"response":{`)
				}
			}))
			defer stop()
			uris = append(uris, s.URL)
			dead++
			continue
		}
		coll := trc.NewCollector(trc.CollectorConfig{Source: mon.Token("server")})
		ts := population(r, mon.Pick(r, 0, 1, 5, 30, mon.Pick(r, 20, 250, 400)))
		mon.Feed(coll, ts, func(st *trc.StaticTrace) trc.Trace { return st })
		sts = append(sts, ts...)
		var h http.Handler = trcweb.NewTraceServer(coll)
		if path != "" {
			mux := http.NewServeMux()
			mux.Handle(path, h)
			h = mux
		}
		s, stop := loopback(c, h)
		defer stop()
		uris = append(uris, s.URL)
		direct = append(direct, coll)
	}
	req := request(r, sts)
	req.Bucketing = nil
	req.Filter.Sources, req.Filter.IDs = unique(req.Filter.Sources), unique(req.Filter.IDs)
	args, env := flags(r, req.Filter)
	if len(sts) > 200 && mon.Chance(r, 0.6) {
		req.Filter, req.Limit = trc.Filter{IsFinished: mon.Chance(r, 0.3)}, mon.Pick(r, 201, 250, 1000)
		args, env = flags(r, req.Filter)
	}
	viaPath := path != "" && mon.Chance(r, 0.6)
	for _, u := range uris {
		if path != "" && !viaPath {
			u += path
		}
		if viaPath {
			u += mon.Pick(r, "", "", "/", "/elsewhere", "/traces/")
		}
		args = append(args, uriFlag(r, u)...)
	}
	if mon.Chance(r, 0.1) {
		u := uris[0]
		if path != "" && !viaPath {
			u += path
		}
		i := -1
		for j, a := range args {
			if strings.Contains(a, strings.TrimPrefix(u, "http://")) {
				i = j
				break
			}
		}
		if strings.HasPrefix(args[i], "--uri=") { // the same server, given twice
			args = append(args, args[i])
		} else {
			args = append(args, "-u", args[i])
		}
	}
	if viaPath {
		args = append(args, "--uri-path="+path)
	}
	if req.Limit != 0 || mon.Chance(r, 0.5) {
		args = append(args, mon.Pick(r, "-n", "--limit"), strconv.Itoa(req.Limit))
	} else {
		req.Limit = 10
	}
	if req.StackDepth != 0 || mon.Chance(r, 0.3) {
		args = append(args, "--stack-depth="+strconv.Itoa(req.StackDepth))
	}
	if req.StackDepth == 0 {
		req.StackDepth = -1
	}
	inclReq, inclStats := mon.Chance(r, 0.4), mon.Chance(r, 0.4)
	if inclReq {
		args = append(args, "--include-request")
	}
	if inclStats {
		args = append(args, "--include-stats")
	}
	format := mon.Pick(r, "", "ndjson", "prettyjson")
	if format != "" {
		args = append(args, mon.Pick(r, "-o", "--output"), format)
	}
	if mon.Chance(r, 0.5) {
		args = append(args, mon.Pick(r, "-l", "--log"), mon.Pick(r, "i", "info", "d", "debug", "t", "trace", "n", "none"))
	}

	want, err := direct.Search(bg, copyRequest(req))
	if err != nil {
		c.Violate("direct search: %v", err)
		return
	}
	k := start(c, append([]string{"search"}, args...), env)
	if !k.wait(c) {
		return
	}
	what := fmt.Sprintf("%v %q (%d servers, %d of them failing)", k, env, len(uris), dead)
	if k.code() != 0 {
		c.Violate("%s ends with status %d: %.800q", what, k.code(), k.log())
		return
	}
	out := k.out()
	dec := json.NewDecoder(strings.NewReader(out))
	got := &trc.SearchResponse{}
	if err := dec.Decode(got); err != nil {
		c.Violate("%s prints %.500q: %v", what, out, err)
		return
	}
	if rest, _ := io.ReadAll(io.MultiReader(dec.Buffered(), strings.NewReader(""))); strings.TrimSpace(string(rest)) != "" {
		c.Violate("%s prints more than one document: %.500q", what, rest)
		return
	}
	if lines := strings.Count(strings.TrimSpace(out), "\n") + 1; (format == "ndjson" || format == "") && lines != 1 || format == "prettyjson" && lines < 3 {
		c.Violate("%s prints %d lines", what, lines)
	}
	if inclReq != (got.Request != nil) {
		c.Violate("%s prints the request %v", what, got.Request)
	}
	if inclStats != (got.Stats != nil) {
		c.Violate("%s prints the statistics %v", what, got.Stats)
	}
	if got.Request != nil {
		if a, b := mon.JSON(got.Request), mon.JSON(want.Request); a != b {
			c.Violate("%s prints request %s, want %s", what, a, b)
		}
	}
	if len(got.Problems) < len(want.Problems)+dead || len(got.Problems) > 0 && len(want.Problems)+dead == 0 {
		c.Violate("%s prints problems %q, want %q and %d more", what, got.Problems, want.Problems, dead)
	}
	// the reference normalises the query once more for each server
	want.Problems = got.Problems
	if !inclStats {
		want.Stats = nil
	}
	if d := diffResponses(got, want); d != "" {
		c.Violate("%s prints %s", what, d)
		return
	}
	c.Count("searches", 1)
	c.Count("failing_servers", dead)
	c.Count("traces_printed", len(got.Traces))
	if len(got.Traces) > 0 || len(got.Problems) > 0 {
		c.Seen(len(uris), dead, req.String(), len(got.Traces), len(got.Problems), format)
		c.Sample("%s -> %d of %d traces, problems %.200q", what, len(got.Traces), got.TotalCount, got.Problems)
	}
}

// printed decodes what a stream command has printed so far.
func printed(out string) (sts []*trc.StaticTrace, err error) {
	dec := json.NewDecoder(strings.NewReader(out))
	for {
		st := &trc.StaticTrace{}
		err := dec.Decode(st)
		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
			return sts, nil
		}
		if err != nil {
			return sts, err
		}
		sts = append(sts, st)
	}
}

// streamArgs adds flags which are specific to streaming.
func streamArgs(r *rand.Rand) (args []string, events bool, format string) {
	args = append(args, "--send-buffer=100000")
	if events = mon.Chance(r, 0.5); events {
		args = append(args, mon.Pick(r, "-e", "--events", "--events=true"))
	}
	if format = mon.Pick(r, "", "ndjson", "prettyjson"); format != "" {
		args = append(args, "--output="+format)
	}
	if mon.Chance(r, 0.3) {
		args = append(args, "--recv-buffer="+mon.Pick(r, "0", "1", "1000"))
	}
	if mon.Chance(r, 0.3) {
		args = append(args, "--stats-interval="+mon.Pick(r, "1s", "10ms", "1h", "1ns"))
	}
	if mon.Chance(r, 0.3) {
		args = append(args, "--retry-interval="+mon.Pick(r, "1s", "10ms", "1h"))
	}
	if mon.Chance(r, 0.5) {
		args = append(args, "--log="+mon.Pick(r, "i", "debug", "t", "none"))
	}
	return args, events, format
}

// effective is what the stream command's filter comes to.
func effective(f trc.Filter, events bool) trc.Filter {
	f = mon.CopyFilter(f)
	f.IsActive, f.IsFinished = false, !events
	return f
}

func diffPrinted(got, want []*trc.StaticTrace, source func(*trc.StaticTrace) int, n int) string {
	g, w := make([][]*trc.StaticTrace, n+1), make([][]*trc.StaticTrace, n+1)
	for _, st := range got {
		g[source(st)] = append(g[source(st)], st)
	}
	for _, st := range want {
		w[source(st)] = append(w[source(st)], st)
	}
	for i := range g {
		if d := diffMessages(g[i], w[i]); d != "" {
			return fmt.Sprintf("of server %d: %s", i, d)
		}
	}
	return ""
}

func checkFormat(out, format string, n int) string {
	lines := strings.Count(out, "\n")
	if (format == "" || format == "ndjson") && lines != n {
		return fmt.Sprintf("%d lines for %d messages", lines, n)
	}
	if format == "prettyjson" && n > 0 && lines < 3*n {
		return fmt.Sprintf("%d lines for %d messages", lines, n)
	}
	return ""
}

func c23Stream(c *mon.C) {
	r := c.R
	n := mon.Range(r, 1, 3)
	if mon.Chance(r, 0.1) {
		n = mon.Range(r, 5, 12)
	}
	var rcs []*recorder
	var uris []string
	for i := 0; i < n; i++ {
		rc := newRecorder()
		s, stop := loopback(c, c17Handler(r, rc, nil))
		defer stop()
		rcs = append(rcs, rc)
		uris = append(uris, s.URL)
	}
	if mon.Chance(r, 0.3) {
		uris = append(uris, deadURI())
	}
	sts := population(r, mon.Pick(r, 1, 5, 40, 90))
	f := streamFilter(r, sts)
	args, env := flags(r, f)
	more, events, format := streamArgs(r)
	args = append(args, more...)
	for _, u := range uris {
		args = append(args, uriFlag(r, u)...)
	}
	k := start(c, append([]string{"stream"}, args...), env)
	defer k.cancel()
	ended := func() bool {
		select {
		case <-k.done:
			return true
		default:
			return false
		}
	}
	for i, rc := range rcs {
		if !await(func() bool { return rc.active() == 1 || ended() }) || ended() {
			c.Violate("%v %q: not subscribed to server %d of %d (ended: %v): %.500q", k, env, i, n, ended(), k.log())
			return
		}
	}
	ef := effective(f, events)
	where := map[string]int{}
	var want []*trc.StaticTrace
	for _, st := range sts {
		i := r.IntN(n)
		where[st.TraceID] = i
		st = mon.CopyTrace(st)
		for e := mon.Range(r, 1, 2); e > 0; e-- { // the same trace changes again
			rcs[i].publish(st)
			str := mon.RefStream(st)
			if mon.RefAllow(ef, str) {
				want = append(want, str)
			}
			st = mon.CopyTrace(st)
			st.TraceDuration++
		}
	}
	await(func() bool { got, err := printed(k.out()); return err != nil || len(got) >= len(want) || ended() })
	if mon.Chance(r, 0.1) {
		time.Sleep(20 * time.Millisecond) // something more may come
	}
	if !k.interrupt(c) {
		return
	}
	got, err := printed(k.out())
	if err != nil {
		c.Violate("%v %q prints %.500q: %v", k, env, k.out(), err)
		return
	}
	if d := diffPrinted(got, want, func(st *trc.StaticTrace) int {
		if i, ok := where[st.TraceID]; ok {
			return i
		}
		return n
	}, n); d != "" {
		c.Violate("%v %q prints %s", k, env, d)
		return
	}
	if d := checkFormat(k.out(), format, len(got)); d != "" {
		c.Violate("%v %q prints %s", k, env, d)
	}
	for i, rc := range rcs {
		if !await(rc.settled) {
			c.Violate("%v: the subscription to server %d has not ended", k, i)
		}
	}
	c.Count("streams", n)
	c.Count("messages_printed", len(got))
	c.Seen(n, f.String(), events, format, len(got))
	c.Sample("%v %q: %d of %d traces printed", k, env, len(got), len(sts))
}

func c23Live(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	rc := &recorder{Streamer: coll}
	var h http.Handler = &trcweb.TraceServer{Collector: coll, Streamer: rc}
	if mon.Chance(r, 0.5) {
		h = trcweb.Middleware(trc.NewDefaultCollector().NewTrace, trcweb.Categorize)(h)
	}
	s, stop := loopback(c, h)
	defer stop()
	f := mon.Pick(r, trc.Filter{}, trc.Filter{}, trc.Filter{IsErrored: true}, trc.Filter{Query: "needle"}, trc.Filter{Category: "cat1"}, trc.Filter{IsActive: true})
	args, env := flags(r, f)
	more, events, format := streamArgs(r)
	args = append(append(args, more...), uriFlag(r, s.URL)...)
	k := start(c, append([]string{"stream"}, args...), env)
	defer k.cancel()
	if !await(func() bool { return rc.active() == 1 }) {
		c.Violate("%v %q: not subscribed: %.500q", k, env, k.log())
		return
	}
	ef := effective(f, events)
	ctx, cancel := context.WithCancel(bg)
	direct := make(chan trc.Trace, 10000)
	gone := make(chan struct{})
	go func() { defer close(gone); coll.Stream(ctx, ef, direct) }()
	if !await(func() bool { _, err := coll.StreamStats(bg, direct); return err == nil }) {
		cancel()
		c.Violate("direct subscription failed")
		return
	}
	writers := mon.Range(r, 1, 4)
	var fns []func()
	for w := 0; w < writers; w++ {
		r := sub(r)
		fns = append(fns, func() {
			for t := mon.Range(r, 1, 4); t > 0; t-- {
				_, tr := coll.NewTrace(bg, mon.Pick(r, "cat1", "cat2"))
				for e := r.IntN(6); e > 0; e-- {
					mon.Call(tr, r.IntN(4), "%s %d", mon.Pick(r, "needle", "hay"), e)
				}
				if mon.Chance(r, 0.8) {
					tr.Finish()
				}
			}
		})
	}
	parallel(fns...)
	cancel()
	<-gone
	close(direct)
	byID := map[string][]*trc.StaticTrace{}
	n := 0
	for tr := range direct {
		st := mon.CopyTrace(tr)
		byID[st.TraceID] = append(byID[st.TraceID], st)
		n++
	}
	await(func() bool { got, err := printed(k.out()); return err != nil || len(got) >= n })
	if !k.interrupt(c) {
		return
	}
	got, err := printed(k.out())
	if err != nil || len(got) != n {
		c.Violate("%v %q prints %d messages (%v), want %d", k, env, len(got), err, n)
		return
	}
	gotID := map[string][]*trc.StaticTrace{}
	for _, st := range got {
		gotID[st.TraceID] = append(gotID[st.TraceID], st)
	}
	for id, want := range byID {
		// the two subscribers copy an active trace at different times
		for i := range want {
			if i < len(gotID[id]) && !want[i].TraceFinished && !gotID[id][i].TraceFinished {
				want[i].TraceDuration = gotID[id][i].TraceDuration
			}
		}
		if d := diffMessages(gotID[id], want); d != "" {
			c.Violate("%v %q prints of trace %s: %s", k, env, id, d)
			return
		}
	}
	if d := checkFormat(k.out(), format, len(got)); d != "" {
		c.Violate("%v %q prints %s", k, env, d)
	}
	c.Count("messages_printed", len(got))
	c.Seen("live", f.String(), events, writers, n)
	c.Sample("%v %q: %d messages from %d writers", k, env, n, writers)
}

func c23Cut(c *mon.C) {
	r := c.R
	var fns []func()
	for i := 0; i < 4; i++ {
		r := sub(r)
		fns = append(fns, func() { c23CutOne(c, r, i%2 == 0) })
	}
	parallel(fns...)
}

// c23CutOne cuts the connection, or starts the server late.
func c23CutOne(c *mon.C, r *rand.Rand, late bool) {
	rc := newRecorder()
	h := c17Handler(r, rc, nil)
	// an address of its own, so that nobody takes the port in between
	n := deadSeq.Add(1) % 60000
	l, err := net.Listen("tcp", fmt.Sprintf("127.67.%d.%d:0", 1+n/250, 1+n%250))
	if err != nil {
		c.Violate("%v", err)
		return
	}
	addr := l.Addr().String()
	other := newRecorder()
	o, stopOther := loopback(c, c17Handler(r, other, nil))
	defer stopOther()
	k := start(c, []string{"stream", "--uri=" + addr, "--uri=" + o.URL, "--retry-interval=1s", "--send-buffer=1000", "--log=debug"}, nil)
	defer k.cancel()
	if late {
		l.Close()
		if !await(func() bool { return other.active() == 1 }) {
			c.Violate("%v: not subscribed next to a dead server: %.500q", k, k.log())
			return
		}
		time.Sleep(time.Duration(r.IntN(1200)) * time.Millisecond)
		if l, err = net.Listen("tcp", addr); err != nil {
			k.interrupt(c)
			return // someone else has the port
		}
	}
	s := httptest.NewUnstartedServer(h)
	s.Listener.Close()
	s.Listener = l
	s.Start()
	defer func() { s.CloseClientConnections(); s.Close() }()
	if !await(func() bool { return rc.active() == 1 && other.active() == 1 }) {
		c.Violate("%v: not subscribed (server started late: %v): %.500q", k, late, k.log())
		return
	}
	sts := population(r, 20)
	var want []*trc.StaticTrace
	where := map[string]int{}
	publish := func(sts []*trc.StaticTrace) {
		for _, st := range sts {
			i := r.IntN(2)
			where[st.TraceID] = i
			[]*recorder{rc, other}[i].publish(st)
			if st.TraceFinished {
				want = append(want, mon.RefStream(st))
			}
		}
	}
	complete := func() bool { got, err := printed(k.out()); return err != nil || len(got) >= len(want) }
	publish(sts[:10])
	await(complete)
	if !late {
		s.CloseClientConnections()
		if !await(func() bool { return len(rc.all()) == 2 && rc.active() == 1 }) {
			c.Violate("%v: not subscribed again after the connection was cut: %.500q", k, k.log())
			return
		}
	}
	publish(sts[10:])
	await(complete)
	if !k.interrupt(c) {
		return
	}
	got, err := printed(k.out())
	if err != nil {
		c.Violate("%v prints %.500q: %v", k, k.out(), err)
		return
	}
	if d := diffPrinted(got, want, func(st *trc.StaticTrace) int { return where[st.TraceID] }, 2); d != "" {
		c.Violate("%v (late %v) prints %s", k, late, d)
	}
	if n := len(other.all()); n != 1 {
		c.Violate("%v: %d subscriptions to the server that was there all the time", k, n)
	}
	c.Count("reconnects", 1)
	c.Seen("cut", late, len(want))
	c.Sample("%v: late %v, %d messages", k, late, len(got))
}

func c23Refuse(c *mon.C) {
	r := c.R
	var fns []func()
	for i := 0; i < 6; i++ {
		r := sub(r)
		fns = append(fns, func() { c23RefuseOne(c, r, i == 0) })
	}
	parallel(fns...)
}

// c23RefuseOne has a server answer with an error for a while, or for good.
func c23RefuseOne(c *mon.C, r *rand.Rand, forGood bool) {
	rc, other := newRecorder(), newRecorder()
	kind := r.IntN(8)
	var mtx sync.Mutex
	var attempts []time.Time
	var open atomic.Bool
	working := c17Handler(r, rc, nil)
	s, stop := loopback(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mtx.Lock()
		attempts = append(attempts, time.Now())
		mtx.Unlock()
		if open.Load() {
			working.ServeHTTP(w, r)
			return
		}
		switch kind {
		case 0:
			http.Error(w, "not found", 404)
		case 1:
			http.Error(w, "bad", 400)
		case 2:
			http.Error(w, "who are you", 403)
		case 3:
			http.Error(w, "slow down", 429)
		case 4:
			w.WriteHeader(204)
		case 5:
			http.Error(w, "not a stream", 200)
		case 6:
			w.Header().Set("content-type", "text/event-stream")
			fmt.Fprint(w, "event: init\ndata: {}\n\nevent: trace\ndata: nonsense\n\n")
		case 7:
			http.Error(w, "later", 503)
		}
	}))
	defer stop()
	seen := func() []time.Time { mtx.Lock(); defer mtx.Unlock(); return slices.Clone(attempts) }
	o, stopOther := loopback(c, c17Handler(r, other, nil))
	defer stopOther()
	retry := mon.Pick(r, 1000*time.Millisecond, 1500*time.Millisecond)
	if forGood {
		retry = mon.Pick(r, 10*time.Minute, time.Hour)
	}
	k := start(c, []string{"stream", "--uri=" + s.URL, "--uri=" + o.URL, "--retry-interval=" + retry.String(), "--send-buffer=1000", "--log=debug"}, nil)
	defer k.cancel()
	tries := mon.Range(r, 2, 3)
	if forGood {
		tries = 1
	}
	if !await(func() bool { return len(seen()) >= tries && other.active() == 1 }) {
		c.Violate("%v: %d attempts at a server that gives answer %d, want %d; and %d subscriptions to the other server: %.500q", k, len(seen()), kind, tries, other.active(), k.log())
		return
	}
	sts := population(r, 20)
	var want []*trc.StaticTrace
	where := map[string]int{}
	publish := func(sts []*trc.StaticTrace, n int) {
		for _, st := range sts {
			i := r.IntN(n)
			where[st.TraceID] = i
			[]*recorder{other, rc}[i].publish(st)
			if st.TraceFinished {
				want = append(want, mon.RefStream(st))
			}
		}
	}
	complete := func() bool { got, err := printed(k.out()); return err != nil || len(got) >= len(want) }
	publish(sts[:10], 1)
	await(complete)
	if !forGood {
		open.Store(true)
		if !await(func() bool { return rc.active() == 1 }) {
			c.Violate("%v: not subscribed to a server that first gave answer %d and works now: %.500q", k, kind, k.log())
			return
		}
		publish(sts[10:], 2)
		await(complete)
	} else {
		time.Sleep(time.Duration(r.IntN(100)) * time.Millisecond)
	}
	if !k.interrupt(c) {
		return
	}
	got, err := printed(k.out())
	if err != nil {
		c.Violate("%v prints %.500q: %v", k, k.out(), err)
		return
	}
	if d := diffPrinted(got, want, func(st *trc.StaticTrace) int { return where[st.TraceID] }, 2); d != "" {
		c.Violate("%v (answer %d) prints %s", k, kind, d)
	}
	if n := len(other.all()); n != 1 {
		c.Violate("%v: %d subscriptions to the server that was there all the time", k, n)
	}
	// an attempt is recorded before it is answered, so that the command cannot wait too short
	ts := seen()
	for i := 1; i < len(ts); i++ {
		if d := ts[i].Sub(ts[i-1]); d < min(retry, time.Minute)*9/10 {
			c.Violate("%v: attempt %d comes %s after answer %d to the one before", k, i, d, kind)
			break
		}
	}
	c.Count("refused_attempts", len(ts))
	c.Seen("refuse", kind, forGood, len(want))
	c.Sample("%v: answer %d, %d attempts, %d messages", k, kind, len(ts), len(got))
}

func c23Invalid(c *mon.C) {
	r := c.R
	s, stop := loopback(c, trcweb.NewTraceServer(trc.NewDefaultCollector()))
	defer stop()
	uri := "--uri=" + s.URL
	cmd := mon.Pick(r, "search", "stream")
	bad := [][]string{
		{},
		{uri, "--duration=abc"}, {uri, "-d", "5"}, {uri, "--duration", ""},
		{uri, "--log=loud"}, {uri, "-l", "5"},
		{uri, "--output=xml"}, {uri, "-o", "json5"},
		{uri, "--nosuch"}, {uri, "-z"}, {uri, "--nosuch=1"},
		{uri, "--active=maybe"}, {uri, "--errored=2"}, {uri, "--success=ja"}, {uri, "--finished=x"},
		{uri, "--category"}, {uri, "-q"}, {uri, "--id"},
		{"--uri=http://%zz"}, {"--uri=http://[::1"}, {"--uri=http://a b/"}, {uri, "--uri=http://%zz"}, {"--uri=127.0.0.1:%zz"},
	}
	if cmd == "search" {
		bad = append(bad, []string{uri, "-n", "ten"}, []string{uri, "--limit=1.5"}, []string{uri, "--limit="}, []string{uri, "--stack-depth=all"}, []string{uri, "--include-stats=perhaps"}, []string{uri, "--events"})
	} else {
		bad = append(bad, []string{uri, "--send-buffer=big"}, []string{uri, "--recv-buffer=1e3"}, []string{uri, "--stats-interval=10"}, []string{uri, "--retry-interval=soon"}, []string{uri, "--events=?"}, []string{uri, "--limit=3"},
			[]string{uri, "--query=("}, []string{uri, "-q", "["}, []string{uri, "-e", "--query=a{2,1}"})
	}
	b := bad[r.IntN(len(bad))]
	args := append([]string{cmd}, b...)
	if mon.Chance(r, 0.5) {
		args = append(args, mon.Pick(r, "--active", "--category=x", "--source=y"))
		if len(b) > 0 && !strings.Contains(b[len(b)-1], "=") {
			args = append([]string{cmd, args[len(args)-1]}, b...)
		}
	}
	k := start(c, args, nil)
	if !k.wait(c) {
		return
	}
	switch {
	case k.code() == 0:
		c.Violate("%v ends with status 0: output %.500q, messages %.500q", k, k.out(), k.log())
	case strings.TrimSpace(k.log()) == "":
		c.Violate("%v ends with status %d and no message", k, k.code())
	case !strings.Contains(strings.ToLower(k.log()), "error"):
		c.Violate("%v ends with status %d and no error message: %.500q", k, k.code(), k.log())
	case strings.TrimSpace(k.out()) != "":
		c.Violate("%v ends with status %d and output %.500q", k, k.code(), k.out())
	}
	c.Count("invalid_flags", 1)
	c.Seen(fmt.Sprint(strings.ReplaceAll(fmt.Sprint(args), s.URL, "URL")))
	c.Sample("%v: status %d, %.100q", k, k.code(), k.log())
}

func c23Edge(c *mon.C) {
	r := c.R
	rc := newRecorder()
	coll := trc.NewDefaultCollector()
	_, tr := coll.NewTrace(bg, "cat")
	tr.Finish()
	s, stop := loopback(c, &trcweb.TraceServer{Collector: coll, Streamer: rc})
	defer stop()
	if mon.Chance(r, 0.3) {
		args := []string{"search", "--uri=" + s.URL, mon.Pick(r, "--limit=0", "--limit=-5", "--limit=9223372036854775807", "--stack-depth=-9", "--stack-depth=1000000", "--duration=0s", "--duration=-1h", "--id=", "--query=")}
		k := start(c, args, nil)
		if !k.wait(c) {
			return
		}
		if k.code() == 0 {
			got := &trc.SearchResponse{}
			if err := json.Unmarshal([]byte(k.out()), got); err != nil || len(got.Traces) != 1 {
				c.Violate("%v prints %.500q (%v), want the one trace", k, k.out(), err)
			}
		} else if !strings.Contains(k.log(), "error") {
			c.Violate("%v ends with status %d and no error message: %.500q", k, k.code(), k.log())
		}
		c.Seen(args[2])
		c.Sample("%v: status %d", k, k.code())
		return
	}
	args := []string{"stream", "--uri=" + s.URL, mon.Pick(r, "--send-buffer=-1", "--send-buffer=99999999", "--send-buffer=1", "--recv-buffer=-1", "--recv-buffer=0", "--stats-interval=0s", "--stats-interval=-5s", "--stats-interval=100h", "--retry-interval=0s", "--retry-interval=-5s", "--retry-interval=100h", "--duration=0s", "--duration=-1h")}
	k := start(c, args, nil)
	defer k.cancel()
	ended := func() bool {
		select {
		case <-k.done:
			return true
		default:
			return false
		}
	}
	if !await(func() bool { return ended() || rc.active() == 1 }) {
		c.Violate("%v: neither subscribed nor ended: %.500q", k, k.log())
		return
	}
	if ended() {
		if k.wait(c) && (k.code() == 0 || !strings.Contains(k.log(), "error")) {
			c.Violate("%v ends with status %d: %.500q", k, k.code(), k.log())
		}
	} else {
		st := mon.Static(r, "cat", "src", time.Now().UTC())
		st.TraceFinished = true
		st.TraceDuration = time.Hour
		rc.publish(st)
		await(func() bool { got, err := printed(k.out()); return err != nil || len(got) > 0 || ended() })
		if !k.interrupt(c) {
			return
		}
		if got, err := printed(k.out()); err != nil || diffMessages(got, []*trc.StaticTrace{mon.RefStream(st)}) != "" {
			c.Violate("%v prints %.500q (%v), want trace %s", k, k.out(), err, st.TraceID)
		}
	}
	c.Seen(args[2])
	c.Sample("%v: status %d", k, k.code())
}
