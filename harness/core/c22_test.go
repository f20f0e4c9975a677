package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC22(t *testing.T) {
	m := mon.Start(t, "C22")
	defer m.Done()
	m.Rule("model: random histories of creating traces (in a collector or directly) with 0-4 decorators that record every call, write logs (to a writer or a logger) or change what is read (some logs report errors after taking a line), adding events of any single-line text, finishing, and replacing the decorators; the log of every decorator is compared call by call and write by write with what was done, and every trace with its undecorated twin; non-trivial: creations, events and finishes were logged; distinct by history and decorators")
	m.Cases("model", mon.N(3000, 150), c22Model)
	m.Rule("conc: goroutines share traces and log writers; every write must be one whole line, each call has exactly one, and each goroutine's come in its order; distinct by writers and lines")
	m.Cases("conc", mon.N(150, 150), c22Concurrent)
}

// lines records each write. If fail is not 0, every fail-th one is taken in
// full and then reported as an error: the log's trouble is not the trace's.
type lines struct {
	mtx  sync.Mutex
	got  []string
	n    int
	fail int
}

func (l *lines) Write(p []byte) (int, error) {
	l.mtx.Lock()
	defer l.mtx.Unlock()
	l.got = append(l.got, string(p))
	l.n++
	if l.fail > 0 && l.n%l.fail == 0 {
		return len(p), errors.New("log write failed late")
	}
	return len(p), nil
}

func (l *lines) take() []string {
	l.mtx.Lock()
	defer l.mtx.Unlock()
	g := l.got
	l.got = nil
	return g
}

// calls records the calls that pass through a decorator.
type calls struct {
	log *[]string
	n   int
}

type callTrace struct {
	trc.Trace
	c *calls
}

func (c *calls) decorate(tr trc.Trace) trc.Trace {
	*c.log = append(*c.log, fmt.Sprintf("%d:decorate", c.n))
	return &callTrace{tr, c}
}

func (t *callTrace) note(s string) { *t.c.log = append(*t.c.log, fmt.Sprintf("%d:%s", t.c.n, s)) }

func (t *callTrace) Tracef(f string, a ...any)     { t.note("Tracef"); t.Trace.Tracef(f, a...) }
func (t *callTrace) LazyTracef(f string, a ...any) { t.note("LazyTracef"); t.Trace.LazyTracef(f, a...) }
func (t *callTrace) Errorf(f string, a ...any)     { t.note("Errorf"); t.Trace.Errorf(f, a...) }
func (t *callTrace) LazyErrorf(f string, a ...any) { t.note("LazyErrorf"); t.Trace.LazyErrorf(f, a...) }
func (t *callTrace) Finish()                       { t.note("Finish"); t.Trace.Finish() }

// markTrace changes what is read.
type markTrace struct {
	trc.Trace
	mark string
}

func (t *markTrace) Events() []trc.Event {
	evs := mon.CopyEvents(t.Trace.Events())
	for i := range evs {
		evs[i].What += t.mark
	}
	return evs
}

type c22Dec struct {
	kind  string // calls, log, logger, mark
	fn    trc.DecoratorFunc
	lines *lines
	mark  string
	n     int
}

func c22Decs(r *rand.Rand, callLog *[]string) []*c22Dec {
	var ds []*c22Dec
	for k := r.IntN(5); k > 0; k-- {
		d := &c22Dec{n: len(ds)}
		switch r.IntN(5) {
		case 0, 1:
			d.kind, d.lines = "log", &lines{}
			d.lines.fail = mon.Pick(r, 0, 0, 1, 2, 3)
			d.fn = trc.LogDecorator(d.lines)
		case 2:
			d.kind, d.lines = "logger", &lines{}
			d.lines.fail = mon.Pick(r, 0, 0, 1, 2, 3)
			d.fn = trc.LoggerDecorator(log.New(d.lines, "", 0))
		case 3:
			d.kind, d.mark = "mark", fmt.Sprintf("#%d", len(ds))
			mark := d.mark
			d.fn = func(tr trc.Trace) trc.Trace { return &markTrace{tr, mark} }
		default:
			d.kind = "calls"
			d.fn = (&calls{callLog, len(ds)}).decorate
		}
		ds = append(ds, d)
	}
	return ds
}

func c22Fns(ds []*c22Dec) []trc.DecoratorFunc {
	var fns []trc.DecoratorFunc
	for _, d := range ds {
		fns = append(fns, d.fn)
	}
	return fns
}

// checkLine checks one log write.
func checkLine(c *mon.C, what, line, id, text string, isErr, isEvent bool) {
	multi := strings.Contains(text, "\n")
	text = strings.TrimRight(text, "\n")
	switch {
	case !strings.HasPrefix(line, id):
		c.Violate("%s: the log line %.300q does not start with the trace's ID %s", what, line, id)
	case !strings.HasSuffix(line, "\n") || strings.Count(line, "\n") != 1 && !multi:
		c.Violate("%s: the log write %.300q is not one line", what, line)
	case isEvent && !strings.Contains(line[len(id):], text):
		c.Violate("%s: the log line %.300q does not contain the text %.200q", what, line, text)
	case isEvent && isErr != strings.Contains(strings.Replace(line[len(id):], text, "", 1), "ERROR"):
		c.Violate("%s: the log line %.300q of an event with error flag %v", what, line, isErr)
	}
}

type c22Trace struct {
	ctx    context.Context
	tr     trc.Trace
	decs   []*c22Dec
	twin   trc.Trace
	done   bool
	inColl bool
}

func c22Model(c *mon.C) {
	r := c.R
	callLog := &[]string{}
	decs := c22Decs(r, callLog)
	cfg := trc.CollectorConfig{Source: mon.Pick(r, "src", "100%", "a b")}
	source := cfg.Source
	viaSet := mon.Chance(r, 0.5)
	fns := c22Fns(decs)
	if !viaSet {
		cfg.Decorators = fns
	}
	simple := mon.Chance(r, 0.3)
	simpleSet := mon.Chance(r, 0.5)
	if simple && !simpleSet {
		cfg.NewTrace = mon.NewSimple
	}
	coll := trc.NewCollector(cfg)
	if viaSet {
		coll.SetDecorators(fns...)
	}
	if simple && simpleSet {
		coll.SetNewTrace(mon.NewSimple)
	}
	otherDecs := decs // another collector with the same ones
	other := trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: fns})
	var all []*c22Dec
	all = append(all, decs...)
	var traces []*c22Trace
	hist, creations, events, finishes := "", 0, 0, 0

	// expect checks that exactly the decorators of x saw exactly one step
	expect := func(what string, x *c22Trace, step, text string, isErr, isEvent bool) {
		var want []string
		if x != nil {
			if step == "decorate" {
				for _, d := range x.decs {
					if d.kind == "calls" {
						want = append(want, fmt.Sprintf("%d:decorate", d.n))
					}
				}
			} else {
				for i := len(x.decs) - 1; i >= 0; i-- {
					if x.decs[i].kind == "calls" {
						want = append(want, fmt.Sprintf("%d:%s", x.decs[i].n, step))
					}
				}
			}
		}
		if fmt.Sprint(want) != fmt.Sprint(*callLog) {
			c.Violate("%s: the decorators were called as %v, want %v", what, *callLog, want)
		}
		*callLog = (*callLog)[:0]
		for _, d := range all {
			if d.lines == nil {
				continue
			}
			got := d.lines.take()
			mine := false
			if x != nil {
				for _, e := range x.decs {
					mine = mine || e == d
				}
			}
			if !mine {
				if len(got) != 0 {
					c.Violate("%s: another log got %.300q", what, got)
				}
				continue
			}
			if len(got) != 1 {
				c.Violate("%s: %d log writes, want 1: %.500q", what, len(got), got)
				continue
			}
			checkLine(c, what, got[0], x.tr.ID(), text, isErr, isEvent)
		}
	}
	same := func(what string, x *c22Trace) {
		got, want := mon.CopyTrace(x.tr), mon.CopyTrace(x.twin)
		mark := ""
		for _, d := range x.decs {
			mark += d.mark
		}
		if len(got.TraceEvents) != len(want.TraceEvents) || got.TraceErrored != want.TraceErrored || got.TraceFinished != want.TraceFinished || got.TraceCategory != want.TraceCategory {
			c.Violate("%s: decorated trace has %d events, errored %v, finished %v, category %q; without decorators %d, %v, %v, %q", what, len(got.TraceEvents), got.TraceErrored, got.TraceFinished, got.TraceCategory, len(want.TraceEvents), want.TraceErrored, want.TraceFinished, want.TraceCategory)
			return
		}
		for i := range got.TraceEvents {
			if got.TraceEvents[i].What != want.TraceEvents[i].What+mark || got.TraceEvents[i].IsError != want.TraceEvents[i].IsError {
				c.Violate("%s: event %d is %q (error %v), without decorators %q (error %v), marked %q", what, i, got.TraceEvents[i].What, got.TraceEvents[i].IsError, want.TraceEvents[i].What, want.TraceEvents[i].IsError, mark)
				return
			}
		}
		if x.inColl {
			res, err := coll.Search(bg, &trc.SearchRequest{Filter: trc.Filter{IDs: []string{x.tr.ID()}}})
			if err != nil || len(res.Traces) != 1 {
				c.Violate("%s: search: %v", what, err)
				return
			}
			if d := mon.DiffEvents(noStacks(res.Traces[0].TraceEvents), noStacks(got.TraceEvents)); d != "" {
				c.Violate("%s: search for a decorated trace: %s", what, d)
			}
		}
	}
	kinds := func(ds []*c22Dec) (s string) {
		for _, d := range ds {
			s += d.kind + " "
		}
		return s
	}
	for k := mon.Range(r, 5, 40); k > 0 && !c.Failed(); k-- {
		op := r.IntN(12)
		var x *c22Trace
		if len(traces) == 0 {
			op = 0
		} else {
			x = traces[r.IntN(len(traces))]
		}
		hist += string(rune('a' + op))
		switch {
		case op < 2:
			cat := mon.Pick(r, "cat", "100%d", "%s%s", "a 'quoted' one")
			n := &c22Trace{decs: decs, inColl: mon.Chance(r, 0.8)}
			if n.inColl {
				n.ctx, n.tr = coll.NewTrace(bg, cat)
				if simple != strings.HasPrefix(n.tr.ID(), "SIMPLE") {
					c.Violate("the collector's own function to create traces: %v; it created a trace with ID %s", simple, n.tr.ID())
				}
			} else if mon.Chance(r, 0.4) {
				n.decs = otherDecs
				n.ctx, n.tr = other.NewTrace(bg, cat)
			} else {
				n.decs = append(c22Decs(r, callLog), decs...)
				for i, d := range n.decs { // renumber the new ones
					if i < len(n.decs)-len(decs) {
						d.n += 10
						if d.kind == "calls" {
							d.fn = (&calls{callLog, d.n}).decorate
						}
						all = append(all, d)
					}
				}
				n.ctx, n.tr = trc.New(bg, source, cat, c22Fns(n.decs)...)
			}
			_, n.twin = trc.New(bg, source, cat)
			if n.tr.Source() != source || n.tr.Category() != cat {
				c.Violate("a decorated trace has source %q and category %q, want %q and %q", n.tr.Source(), n.tr.Category(), source, cat)
			}
			traces = append(traces, n)
			expect("creation with "+kinds(n.decs), n, "decorate", "", false, false)
			creations++
			if mon.Chance(r, 0.1) { // more than the collector's default does not fit in a line
				same("creation", n)
			}
		case op < 8:
			if x.done {
				continue
			}
			format, args := mon.Format(r, mon.Chance(r, 0.2))
			if mon.Chance(r, 0.1) {
				format += "\n"
			}
			text := strings.TrimSuffix(fmt.Sprintf(format, args...), "\n")
			if mon.Chance(r, 0.1) { // more lines, which are still one write
				format = "first\n" + format
				text = "first\n" + text
			}
			if strings.Contains(text, "ERROR") {
				continue
			}
			tr := x.tr
			if mon.Chance(r, 0.3) {
				tr = trc.Get(x.ctx)
			}
			if mon.Chance(r, 0.2) {
				_, tr = trc.Prefix(x.ctx, "in %s", "prefix")
				format = "in %s " + format
				args = append([]any{"prefix"}, args...)
				text = fmt.Sprintf(format, args...)
				full := text
				text = strings.TrimSuffix(text, "\n")
				format, args = format[len("in %s "):], args[1:]
				if strings.Contains(format, "[1]") {
					continue
				}
				method := r.IntN(4)
				mon.Call(tr, method, format, args...)
				mon.Call(x.twin, method, "%s", full)
				expect("a prefixed event", x, mon.MethodNames[method], text, mon.IsErr(method), true)
				events++
				continue
			}
			method := r.IntN(4)
			mon.Call(tr, method, format, args...)
			mon.Call(x.twin, method, format, args...)
			expect(fmt.Sprintf("%s(%.100q)", mon.MethodNames[method], format), x, mon.MethodNames[method], text, mon.IsErr(method), true)
			events++
		case op == 8:
			if x.done {
				continue
			}
			x.tr.Finish()
			x.twin.Finish()
			x.done = true
			expect("finish", x, "Finish", "", false, false)
			same("finish", x)
			finishes++
		case op == 9: // no new trace: an event
			if x.done {
				continue
			}
			coll.NewTrace(x.ctx, "again")
			x.twin.LazyTracef("(+ again)")
			got := *callLog
			for _, g := range got {
				if strings.HasSuffix(g, "decorate") {
					c.Violate("a trace was decorated although none was created")
				}
			}
			step := "LazyTracef"
			if len(got) > 0 && strings.HasSuffix(got[0], ":Tracef") {
				step = "Tracef"
			}
			expect("creation in a context with a trace", x, step, "again", false, true)
			events++
		case op == 10: // reading
			same("read", x)
			expect("read", nil, "", "", false, false)
		default:
			decs = c22Decs(r, callLog)
			for i, d := range decs {
				d.n = i + 100*len(all)
				if d.kind == "calls" {
					d.fn = (&calls{callLog, d.n}).decorate
				}
			}
			all = append(all, decs...)
			coll.SetDecorators(c22Fns(decs)...)
			expect("replacing the decorators", nil, "", "", false, false)
		}
	}
	for _, x := range traces {
		if !c.Failed() {
			same("end", x)
		}
	}
	c.Count("creations", creations)
	c.Count("events", events)
	c.Count("finishes", finishes)
	if creations > 0 && events > 0 && finishes > 0 {
		c.Seen(hist, kinds(all))
		c.Sample("decorators %s: %d creations, %d events, %d finishes", kinds(all), creations, events, finishes)
	}
}

func c22Concurrent(c *mon.C) {
	r := c.R
	out := &lines{fail: mon.Pick(r, 0, 0, 5)}
	out2 := &lines{fail: mon.Pick(r, 0, 0, 5)}
	var buf bytes.Buffer
	coll := trc.NewDefaultCollector().SetDecorators(trc.LogDecorator(out), trc.LoggerDecorator(log.New(out2, "", 0)), trc.LoggerDecorator(log.New(&buf, "", 0)))
	type job struct {
		who  int
		id   string
		text string
		err  bool
		kind int // 0 event 1 creation or finish
	}
	nw := mon.Range(r, 2, 6)
	quota := mon.Range(r, 5, 40)
	ctx, shared := coll.NewTrace(bg, "shared")
	_ = ctx
	jobs := make([][]job, nw+1)
	jobs[nw] = append(jobs[nw], job{nw, shared.ID(), "", false, 1})
	var fns []func()
	for w := 0; w < nw; w++ {
		r := sub(r)
		fns = append(fns, func() {
			var own trc.Trace
			for k := 0; k < quota; k++ {
				switch {
				case own == nil || r.IntN(8) == 0:
					if own != nil {
						own.Finish()
						jobs[w] = append(jobs[w], job{w, own.ID(), "", false, 1})
					}
					_, own = coll.NewTrace(bg, "own")
					jobs[w] = append(jobs[w], job{w, own.ID(), "", false, 1})
				default:
					tr := own
					if r.IntN(2) == 0 {
						tr = shared
					}
					x := write(r, tr, w, fmt.Sprintf("w%d", w))
					jobs[w] = append(jobs[w], job{w, tr.ID(), x.text, mon.IsErr(x.method), 0})
				}
				if r.IntN(20) == 0 {
					time.Sleep(time.Microsecond)
				}
			}
		})
	}
	parallel(fns...)
	total := 0
	for _, js := range jobs {
		total += len(js)
	}
	for _, l := range []*lines{out, out2, {got: splitLines(buf.String())}} {
		if len(l.got) != total {
			c.Violate("%d log writes for %d calls", len(l.got), total)
			return
		}
		// each goroutine's lines are a subsequence, and everything is consumed:
		// match every line to its goroutine by trace (own) or text
		next := make([]int, len(jobs))
		for _, line := range l.got {
			found := false
			for w := range jobs {
				if next[w] >= len(jobs[w]) {
					continue
				}
				j := jobs[w][next[w]]
				if strings.HasPrefix(line, j.id+" ") && (j.kind == 1 && j.id != shared.ID() || strings.Contains(line, j.text)) {
					if j.kind == 1 && strings.Contains(line, "~") {
						continue // an event's line
					}
					checkLine(c, "concurrent", line, j.id, j.text, j.err, j.kind == 0)
					next[w]++
					found = true
					break
				}
			}
			if !found {
				c.Violate("the log line %.300q is not the next of any goroutine", line)
				return
			}
		}
	}
	c.Count("lines", 3*total)
	c.Seen(nw, quota, total)
	c.Sample("%d goroutines, %d lines in each of 3 logs", nw, total)
}

func splitLines(s string) []string {
	var res []string
	for _, l := range strings.SplitAfter(s, "\n") {
		if l != "" {
			res = append(res, l)
		}
	}
	return res
}
