package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC12(t *testing.T) {
	m := mon.Start(t, "C12")
	defer m.Done()
	m.Rule("union: a population split over 0-6 searchers (collectors, wrapped ones that answer late, fail, answer nothing, or answer with an error, nested multi-searchers) on virtual time, some answering in no order, compared with a reference search over the union of the answering ones; repeated with other delays; time taken must be the longest delay; the searchers keep their answers, which must not change; non-trivial: at least two searchers; distinct by shape, delays and request")
	m.Bubbles("union", mon.N(1500, 150), c12Union)
	m.Rule("cancel: the same with the caller's context cancelled after a random virtual time; every searcher must have seen the context's value and deadline, and the search must end with its slowest searcher, given that some give up when cancelled; non-trivial: a searcher gave up; distinct by shape, delays and time")
	m.Bubbles("cancel", mon.N(500, 150), c12Cancel)
	m.Rule("conc: the same on real time with several multi-searches at once, for the race detector; distinct by shape and request")
	m.Cases("conc", mon.N(60, 100), c12Concurrent)
}

type c12Searcher struct {
	name     string
	under    trc.Searcher
	delay    time.Duration
	mode     int // 0 answer, 1 error, 2 nothing, 3 answer with error, 4 answer without statistics, 5 answer with problems, 6 answer with problems and an error
	err      error
	probs    []string
	raw      bool // the collector itself is used
	scramble bool // answers in no order
	mtx      sync.Mutex
	kept     []*trc.SearchResponse // what was answered, and copies of it
	copies   []string
	cancel   bool // gives up when the context is cancelled
	ctxs     []context.Context
}

func (s *c12Searcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	s.mtx.Lock()
	s.ctxs = append(s.ctxs, ctx)
	s.mtx.Unlock()
	if s.delay > 0 {
		if s.cancel {
			select {
			case <-time.After(s.delay):
			case <-ctx.Done():
				return nil, ctx.Err()
			}
		} else {
			time.Sleep(s.delay)
		}
	}
	switch s.mode {
	case 1:
		return nil, s.err
	case 2:
		return nil, nil
	}
	res, err := s.under.Search(ctx, req)
	if err != nil {
		return res, err
	}
	defer func() {
		r := rand.New(rand.NewPCG(uint64(len(res.Traces)), 1))
		if s.scramble { // nobody said that a searcher's answer is in order
			r.Shuffle(len(res.Traces), func(i, j int) { res.Traces[i], res.Traces[j] = res.Traces[j], res.Traces[i] })
		}
		s.mtx.Lock()
		defer s.mtx.Unlock()
		s.kept = append(s.kept, res)
		s.copies = append(s.copies, mon.JSON(res))
	}()
	res.Problems = append(res.Problems, s.probs...)
	if s.mode == 3 || s.mode == 6 {
		return res, s.err
	}
	if s.mode == 4 {
		res.Stats = nil
	}
	return res, nil
}

type c12World struct {
	leaves   []*c12Searcher
	held     [][]*trc.StaticTrace
	top      trc.MultiSearcher
	sources  []string
	problems []string
	shape    string
}

func c12Make(r *rand.Rand, slow bool) *c12World {
	w := &c12World{}
	n := mon.Pick(r, 0, 1, 2, 2, 3, 4, 6)
	if mon.Chance(r, 0.02) {
		n = mon.Pick(r, 20, 70, 150)
	}
	all := population(r, mon.Pick(r, 0, 3, 20, 80, 300))
	parts := make([][]*trc.StaticTrace, n)
	if n > 0 {
		for _, st := range all {
			i := r.IntN(n)
			parts[i] = append(parts[i], st)
		}
	}
	var nodes []trc.Searcher
	for i := 0; i < n; i++ {
		src := mon.Pick(r, "one", "two", mon.Sources[r.IntN(len(mon.Sources))])
		coll := trc.NewCollector(trc.CollectorConfig{Source: src})
		if mon.Chance(r, 0.05) {
			src = ""
			coll.SetSourceName(src)
		}
		mon.Feed(coll, parts[i], func(st *trc.StaticTrace) trc.Trace {
			if i%2 == 0 {
				return st
			}
			return mon.NewForeign(st)
		})
		leaf := &c12Searcher{name: src, under: coll, scramble: mon.Chance(r, 0.2)}
		if slow {
			leaf.delay = mon.Pick(r, 0, 0, time.Millisecond, time.Second, time.Duration(r.Int64N(1e10)))
			leaf.cancel = mon.Chance(r, 0.3)
		}
		if mon.Chance(r, 0.35) {
			leaf.mode = mon.Range(r, 1, 6)
			text := mon.Token("failure")
			leaf.err = mon.Pick(r, errors.New(text), errors.New(text),
				fmt.Errorf("%s: %w", text, context.Canceled),
				fmt.Errorf("%s: %w", text, context.DeadlineExceeded),
				fmt.Errorf("%s: %w", text, io.EOF),
				fmt.Errorf("first line\n%s", text),
				errors.New(strings.Repeat("long ", 2000)+text),
				errors.Join(errors.New(text), errors.New("second")),
			)
			if len(w.leaves) > 0 && mon.Chance(r, 0.3) { // failing like another
				if other := w.leaves[r.IntN(len(w.leaves))]; other.err != nil {
					leaf.err = mon.Pick(r, other.err, errors.New(other.err.Error()))
				}
			}
			if leaf.mode >= 5 {
				for k := mon.Range(r, 1, 3); k > 0; k-- {
					leaf.probs = append(leaf.probs, mon.Token("problem"))
				}
			}
		}
		w.leaves = append(w.leaves, leaf)
		w.held = append(w.held, parts[i])
		w.shape += fmt.Sprintf("%d:%d ", leaf.mode, len(parts[i]))
		if leaf.mode == 0 && leaf.delay == 0 && !leaf.scramble && mon.Chance(r, 0.5) {
			leaf.raw = true
			nodes = append(nodes, coll)
		} else {
			nodes = append(nodes, leaf)
		}
		if leaf.mode != 1 && leaf.mode != 2 {
			w.sources = append(w.sources, src)
		}
	}
	// nest some
	for len(nodes) > 2 && mon.Chance(r, 0.3) {
		k := mon.Range(r, 0, len(nodes)-2)
		nodes = append(append(nodes[:k:k], trc.MultiSearcher{nodes[k], nodes[k+1]}), nodes[k+2:]...)
		w.shape += "n"
	}
	w.top = trc.MultiSearcher(nodes)
	return w
}

// unchanged checks that nobody wrote to what the searchers answered.
func (w *c12World) unchanged(c *mon.C) {
	n := 0
	for _, leaf := range w.leaves {
		for i, res := range leaf.kept {
			n++
			if got := mon.JSON(res); got != leaf.copies[i] {
				c.Violate("a multi-search changed what a searcher answered from %.300s to %.300s", leaf.copies[i], got)
				return
			}
		}
	}
	c.Count("answers_rechecked", n)
}

// check a response against the union of the answers.
func (w *c12World) check(c *mon.C, what string, res *trc.SearchResponse, err error, req *trc.SearchRequest) {
	if err != nil || res == nil {
		c.Violate("%s: response %v, error %v", what, res, err)
		return
	}
	var union, counted []*trc.StaticTrace
	matchHi := 0
	for i, leaf := range w.leaves {
		if leaf.mode == 1 || leaf.mode == 2 {
			continue
		}
		union = append(union, w.held[i]...)
		if leaf.mode != 4 {
			counted = append(counted, w.held[i]...)
		}
		_, n := refSearch(w.held[i], req)
		matchHi += n
	}
	want, _ := refSearch(union, req)
	if len(res.Traces) != len(want) {
		c.Violate("%s: %d traces, want %d", what, len(res.Traces), len(want))
		return
	}
	for i := range want {
		if d := mon.DiffTraces(res.Traces[i], want[i]); d != "" {
			c.Violate("%s: position %d: %s", what, i, d)
			return
		}
	}
	if res.TotalCount != len(union) {
		c.Violate("%s: total count %d, want %d", what, res.TotalCount, len(union))
	}
	if res.MatchCount < len(want) || res.MatchCount > matchHi {
		c.Violate("%s: match count %d outside %d..%d", what, res.MatchCount, len(want), matchHi)
	}
	buckets := mon.RefBuckets(req.Bucketing)
	if d := mon.DiffStats(res.Stats, counted, buckets); d != "" {
		c.Violate("%s: %s", what, d)
		return
	}
	wantSources := map[string]bool{}
	for _, s := range w.sources {
		wantSources[s] = true
	}
	var sources []string
	for s := range wantSources {
		sources = append(sources, s)
	}
	sort.Strings(sources)
	if strings.Join(res.Sources, "\x00") != strings.Join(sources, "\x00") || len(res.Sources) != len(sources) {
		c.Violate("%s: sources %q, want %q", what, res.Sources, sources)
	}
	fails := 0
	for _, leaf := range w.leaves {
		for _, text := range leaf.probs {
			fails++
			n := 0
			for _, p := range res.Problems {
				if strings.Contains(p, text) {
					n++
				}
			}
			if n != 1 {
				c.Violate("%s: problem %q is reported %d times in %q", what, text, n, res.Problems)
			}
		}
		switch leaf.mode {
		case 1, 3, 6:
			fails++
			n, same := 0, 0
			for _, p := range res.Problems {
				if strings.Contains(p, leaf.err.Error()) {
					n++
				}
			}
			for _, l := range w.leaves {
				if (l.mode == 1 || l.mode == 3 || l.mode == 6) && l.err.Error() == leaf.err.Error() {
					same++
				}
			}
			if n != same {
				c.Violate("%s: failure %q of %d searchers is reported %d times in %q", what, leaf.err, same, n, res.Problems)
			}
		case 2:
			fails++
		}
	}
	if bad := isBadQuery(req.Filter.Query); !bad && len(res.Problems) != fails {
		c.Violate("%s: %d failures and problems, reported are %q", what, fails, res.Problems)
	} else if bad && len(res.Problems) < fails+1 {
		c.Violate("%s: %d searchers failed and the query is invalid, problems are %q", what, fails, res.Problems)
	}
}

func c12Union(c *mon.C) {
	r := c.R
	w := c12Make(r, true)
	var all []*trc.StaticTrace
	var dumps []*trc.StaticTrace
	for _, h := range w.held {
		all = append(all, h...)
	}
	for _, st := range all {
		dumps = append(dumps, mon.CopyTrace(st))
	}
	req := request(r, all)
	orig := copyRequest(req)
	var first *trc.SearchResponse
	for k := 0; k < 3 && !c.Failed(); k++ {
		longest := time.Duration(0)
		for _, l := range w.leaves {
			longest = max(longest, l.delay)
		}
		ctx := context.Context(bg)
		if mon.Chance(r, 0.5) {
			ctx, _ = trc.New(bg, "x", "search")
		}
		begin := time.Now()
		res, err := w.top.Search(ctx, copyRequest(orig))
		if took := time.Since(begin); took != longest {
			c.Violate("the search took %s, the slowest searcher %s", took, longest)
		}
		w.check(c, fmt.Sprintf("search %s over %s", mon.JSON(orig), w.shape), res, err, orig)
		if c.Failed() {
			return
		}
		if first == nil {
			first = res
		} else if res.MatchCount != first.MatchCount {
			c.Violate("match count %d after another order of answers, was %d", res.MatchCount, first.MatchCount)
		}
		// other delays next time
		r.Shuffle(len(w.leaves), func(i, j int) {
			if !w.leaves[i].raw && !w.leaves[j].raw {
				w.leaves[i].delay, w.leaves[j].delay = w.leaves[j].delay, w.leaves[i].delay
			}
		})
		for i := range dumps {
			if d := mon.DiffTraces(mon.CopyTrace(all[i]), dumps[i]); d != "" {
				c.Violate("a multi-search changed a held trace: %s", d)
				return
			}
		}
		// the caller may reuse the request as it was left
		if k == 1 && !isBadQuery(orig.Filter.Query) {
			w.top.Search(ctx, req)
			res, err := w.top.Search(ctx, req)
			w.check(c, "reused request", res, err, orig)
		}
		c.Count("searches", 1)
	}
	w.unchanged(c)
	if len(w.leaves) > 1 {
		c.Seen(w.shape, mon.JSON(orig))
	}
	c.Sample("searchers (mode:traces) %s request %s", w.shape, mon.JSON(orig))
}

type c12Key struct{}

func c12Cancel(c *mon.C) {
	r := c.R
	w := c12Make(r, true)
	at := mon.Pick(r, 1, time.Millisecond+1, time.Duration(1+r.Int64N(2e10)))
	value := mon.Token("value")
	parent := context.WithValue(bg, c12Key{}, value)
	if mon.Chance(r, 0.5) {
		parent, _ = trc.New(parent, "x", "search")
	}
	var ctx context.Context
	var cancel context.CancelFunc
	timed := mon.Chance(r, 0.5)
	if timed {
		ctx, cancel = context.WithTimeout(parent, at)
	} else {
		ctx, cancel = context.WithCancel(parent)
		defer time.AfterFunc(at, cancel).Stop()
	}
	defer cancel()
	longest, gaveUp, shape := time.Duration(0), 0, ""
	for _, l := range w.leaves {
		d := l.delay
		if l.raw {
			d = 0
		}
		if l.cancel && d > at {
			d = at
			gaveUp++
		}
		longest = max(longest, d)
		shape += fmt.Sprint(l.cancel, l.delay, " ")
	}
	begin := time.Now()
	res, err := w.top.Search(ctx, request(r, nil))
	if took := time.Since(begin); took > longest {
		c.Violate("a search cancelled after %s took %s, although its slowest searcher answered or gave up after %s", at, took, longest)
	}
	if err == nil && res == nil {
		c.Violate("a cancelled search answered nothing")
	}
	for _, l := range w.leaves {
		l.mtx.Lock()
		for _, got := range l.ctxs {
			if v, _ := got.Value(c12Key{}).(string); v != value {
				c.Violate("a searcher got a context without the value of the caller's")
			}
			want, ok := ctx.Deadline()
			if d, has := got.Deadline(); ok && (!has || d.After(want)) {
				c.Violate("a searcher got a context with deadline %v (%v), the caller's was %v", d, has, want)
			}
		}
		l.mtx.Unlock()
	}
	c.Count("gave-up", gaveUp)
	if gaveUp > 0 {
		c.Seen(w.shape, shape, at.String())
		c.Sample("searchers %s, delays %s, cancelled after %s (by timeout: %v)", w.shape, shape, at, timed)
	}
}

func c12Concurrent(c *mon.C) {
	r := c.R
	w := c12Make(r, false)
	var all []*trc.StaticTrace
	for _, h := range w.held {
		all = append(all, h...)
	}
	var fns []func()
	for k := 0; k < 3; k++ {
		orig := request(r, all)
		if mon.Chance(r, 0.3) {
			orig.Bucketing = []time.Duration{-5, 3, -1, 0, 7}
		}
		fns = append(fns, func() {
			res, err := w.top.Search(bg, copyRequest(orig))
			w.check(c, fmt.Sprintf("search %s over %s", mon.JSON(orig), w.shape), res, err, orig)
		})
		c.Seen(w.shape, mon.JSON(orig))
	}
	parallel(fns...)
	w.unchanged(c)
	c.Count("searches", 3)
}
