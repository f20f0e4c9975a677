package core

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC10(t *testing.T) {
	m := mon.Start(t, "C10")
	defer m.Done()
	m.Rule("allow: random filters (each also with every single condition removed, and reused with a changed query) against random static, wrapped and live traces, compared with a reference; non-trivial: both answers occurred; distinct by filter")
	m.Bubbles("allow", mon.N(1500, 100), c10Allow)
	m.Rule("query: queries aimed at text, functions, full and compact file lines, anchors, flags and invalid ones; distinct by query")
	m.Cases("query", mon.N(400, 40), c10Query)
	m.Rule("long: traces with up to 6000 events, texts up to 200 kB and stacks of up to 90 frames, where only one place matches; distinct by place")
	m.Cases("long", mon.N(30, 20), c10Long)
	m.Rule("string: the string form contains every value that is set, changes with every flag, and the empty filter allows everything; distinct by filter")
	m.Cases("string", mon.N(800, 40), c10String)
	m.Rule("conc: a normalised filter used from several goroutines; distinct by filter")
	m.Cases("conc", mon.N(60, 80), c10Concurrent)
}

func c10Traces(c *mon.C) []trc.Trace {
	r := c.R
	var trs []trc.Trace
	for _, st := range population(r, 12) {
		if mon.Chance(r, 0.5) {
			trs = append(trs, st)
		} else {
			trs = append(trs, mon.NewForeign(st))
		}
	}
	return trs
}

func c10Live(c *mon.C) []trc.Trace {
	r := c.R
	var trs []trc.Trace
	s := mon.AnySetup(r)
	defer s.Stop()
	for k := 6; k > 0; k-- {
		tr := s.Make(mon.Pick(r, mon.Categories...))
		for j := r.IntN(4); j > 0; j-- {
			mt := r.IntN(2)
			if mon.Chance(r, 0.15) {
				mt = r.IntN(4)
			}
			if mon.Chance(r, 0.1) {
				mon.Call(tr, mt, mon.Pick(r, "", "%s", "\n"), mon.Pick(r, "", " "))
				continue
			}
			recurse(r.IntN(3), func() { mon.Call(tr, mt, "%s %d", mon.Pick(r, "needle", "hay"), r.IntN(10)) })
		}
		time.Sleep(mon.Durations[r.IntN(len(mon.Durations))])
		if mon.Chance(r, 0.6) {
			tr.Finish()
		}
		trs = append(trs, tr)
	}
	return trs
}

func c10Allow(c *mon.C) {
	r := c.R
	trs := append(c10Traces(c), c10Live(c)...)
	var sts []*trc.StaticTrace
	for _, tr := range trs {
		sts = append(sts, mon.CopyTrace(tr))
	}
	yes, no := 0, 0
	check := func(what string, f *trc.Filter, ref trc.Filter) {
		for i, tr := range trs {
			want := mon.RefAllow(ref, sts[i])
			if got := f.Allow(tr); got != want {
				c.Violate("%s: filter %s on %s says %v, want %v", what, mon.JSON(ref), mon.JSON(sts[i]), got, want)
				return
			}
			if want {
				yes++
			} else {
				no++
			}
		}
		c.Count("verdicts", len(trs))
	}
	for k := 4; k > 0 && !c.Failed(); k-- {
		f := mon.AnyFilter(r, sts)
		if mon.Chance(r, 0.1) {
			f.Query = badQueries[r.IntN(len(badQueries))]
		}
		ref := mon.CopyFilter(f)
		if mon.Chance(r, 0.6) {
			errs := f.Normalize()
			if bad := isBadQuery(ref.Query); bad != (len(errs) > 0) {
				c.Violate("normalising %q gives %v", ref.Query, errs)
			}
		}
		check("filter", &f, ref)
		// without one of its conditions each
		for _, drop := range []func(*trc.Filter){
			func(f *trc.Filter) { f.Sources = nil },
			func(f *trc.Filter) { f.IDs = nil },
			func(f *trc.Filter) { f.Category = "" },
			func(f *trc.Filter) { f.IsActive = false },
			func(f *trc.Filter) { f.IsFinished = false },
			func(f *trc.Filter) { f.IsSuccess = false },
			func(f *trc.Filter) { f.IsErrored = false },
			func(f *trc.Filter) { f.MinDuration = nil },
			func(f *trc.Filter) { f.Query = "" },
		} {
			g := mon.CopyFilter(ref)
			drop(&g)
			ref2 := mon.CopyFilter(g)
			check("reduced filter", &g, ref2)
		}
		// the used filter, copied and reused with another query
		for _, q := range []string{mon.Pick(r, "needle", "hay", "nomatchatall", "^straw"), ""} {
			g := f
			g.Query = q
			ref2 := mon.CopyFilter(ref)
			ref2.Query = q
			if mon.Chance(r, 0.5) {
				if errs := g.Normalize(); len(errs) > 0 {
					c.Violate("normalising a reused filter: %v", errs)
				}
			}
			check("reused filter", &g, ref2)
		}
		for i := range trs {
			if d := mon.DiffTraces(mon.CopyTrace(trs[i]), sts[i]); d != "" {
				c.Violate("filtering changed a trace: %s", d)
			}
		}
		if yes > 0 && no > 0 {
			c.Seen(mon.JSON(ref))
		}
	}
	var empty trc.Filter
	for _, tr := range trs {
		if !empty.Allow(tr) {
			c.Violate("the empty filter rejects %s", mon.JSON(mon.CopyTrace(tr)))
		}
	}
	c.Count("allowed", yes)
	c.Count("rejected", no)
}

func c10Query(c *mon.C) {
	r := c.R
	fn := mon.Pick(r, "example.com/app/pkg.(*T).Method", "main.main", "github.com/x/y.z.func1", "pkg.F", "")
	file := mon.Pick(r, "/home/u/src/app/pkg/file.go:123", "/a/b.go:7", "file.go:1", "C:/x/y/z.go:9", "")
	fr := trc.Frame{Function: fn, FileLine: file}
	st := &trc.StaticTrace{TraceID: "id", TraceCategory: "cat", TraceSource: "src", TraceFinished: true, TraceEvents: []trc.Event{
		{What: "first"},
		{What: "Some text " + mon.Word(r), Stack: []trc.Frame{{Function: "other.fn", FileLine: "/q/w/e.go:5"}, fr}},
		{What: "line1\nline2 last"},
	}}
	qs := append([]string{"first$", "^first$", "some", "(?i)some", "^Some text", "text.*", "line2", "(?m)^line2", "^line2", "other\\.fn", "^other", "e\\.go:5$", "w/e", "q/w/e", "^w/e\\.go:5$", "Method$", "pkg", "file\\.go", ":123$", "src/app", "pkg/file.go:123", "example.com", "example.com/app/pkg/file", "cat", "src", "id", "main", "func1", "first.*Some", "first\nSome", "", " ", ".", "$^", "x{1001}", "a{1000}"}, badQueries...)
	for _, q := range qs {
		f := trc.Filter{Query: q}
		ref := mon.CopyFilter(f)
		want := mon.RefAllow(ref, st)
		norm := mon.Chance(r, 0.5)
		if norm {
			errs := f.Normalize()
			if _, err := compile(q); (err != nil) != (len(errs) > 0) {
				c.Violate("normalising %q gives %v", q, errs)
			} else if err != nil && f.Query != "" {
				c.Violate("an invalid query stays in the normalised filter: %q", f.Query)
			}
		}
		if got := f.Allow(st); got != want {
			c.Violate("query %q (normalised %v) on %s says %v, want %v", q, norm, mon.JSON(st), got, want)
		}
		if got := f.Allow(mon.NewForeign(st)); got != want {
			c.Violate("query %q, second use: %v, want %v", q, got, want)
		}
		c.Count("verdicts", 2)
		c.Seen(q, fn, file)
	}
}

func c10Long(c *mon.C) {
	r := c.R
	n := mon.Pick(r, 1, 40, 130, 1100, 6000)
	frames := mon.Pick(r, 0, 1, 12, 35, 90)
	if mon.Race() {
		n = min(n, 130)
	}
	if n > 100 {
		frames = min(frames, 12)
	}
	st := &trc.StaticTrace{TraceID: "id", TraceCategory: "cat", TraceSource: "src", TraceFinished: true}
	for i := 0; i < n; i++ {
		ev := trc.Event{What: fmt.Sprint("event ", i)}
		for k := 0; k < frames; k++ {
			ev.Stack = append(ev.Stack, trc.Frame{Function: fmt.Sprintf("pkg.f%d", k), FileLine: fmt.Sprintf("/src/pkg/f%d.go:%d", k, i)})
		}
		st.TraceEvents = append(st.TraceEvents, ev)
	}
	absent := trc.Filter{Query: "n33dle"}
	if absent.Allow(st) {
		c.Violate("a trace of %d events matches a query for what it does not contain", n)
	}
	at := mon.Pick(r, 0, n-1, r.IntN(n))
	ev := &st.TraceEvents[at]
	where := r.IntN(3)
	if frames == 0 {
		where = 0
	}
	fr := 0
	switch where {
	case 0:
		ev.What = strings.Repeat(mon.Pick(r, "x", "long text\n", "é "), mon.Pick(r, 0, 10, 500, 20000)) + "n33dle"
	case 1:
		fr = mon.Pick(r, frames-1, r.IntN(frames))
		ev.Stack[fr].Function = "pkg.n33dle"
	case 2:
		fr = mon.Pick(r, frames-1, r.IntN(frames))
		ev.Stack[fr].FileLine = "/src/pkg/n33dle.go:7"
	}
	for _, q := range []string{"n33dle", "n33+dle", "(?i)N33DLE"} {
		f := trc.Filter{Query: q}
		if mon.Chance(r, 0.5) {
			f.Normalize()
		}
		if !f.Allow(st) || !f.Allow(mon.NewForeign(st)) {
			c.Violate("query %q does not find event %d of %d (place %d, frame %d of %d, %d bytes)", q, at, n, where, fr, frames, len(ev.What))
			return
		}
	}
	f := trc.Filter{Query: "event"}
	if want := mon.RefAllow(f, st); f.Allow(st) != want {
		c.Violate("query %q says %v", f.Query, !want)
	}
	c.Count("verdicts", 8)
	c.Seen(n, at, where, fr, frames)
}

func c10String(c *mon.C) {
	r := c.R
	f := mon.AnyFilter(r, population(r, 6))
	if mon.Chance(r, 0.1) {
		f = trc.Filter{}
	}
	s := f.String()
	names := func(what, v string) {
		if !strings.Contains(s, v) {
			c.Violate("the string form %q of %s does not name %s %q", s, mon.JSON(f), what, v)
		}
	}
	for _, x := range f.Sources {
		names("source", x)
	}
	for _, x := range f.IDs {
		names("ID", x)
	}
	if f.Category != "" {
		names("category", f.Category)
	}
	if f.MinDuration != nil {
		names("minimum duration", f.MinDuration.String())
	}
	if f.Query != "" {
		names("query", f.Query)
	}
	flag := func(name string, set func(*trc.Filter, bool), on bool) {
		g := mon.CopyFilter(f)
		set(&g, !on)
		if g.String() == s {
			c.Violate("the string form %q is the same with and without %s", s, name)
		}
		with := s
		if !on {
			with = g.String()
		}
		if !strings.Contains(strings.ToLower(with), name) {
			c.Violate("the string form %q does not name %s", with, name)
		}
	}
	flag("active", func(f *trc.Filter, b bool) { f.IsActive = b }, f.IsActive)
	flag("finished", func(f *trc.Filter, b bool) { f.IsFinished = b }, f.IsFinished)
	flag("success", func(f *trc.Filter, b bool) { f.IsSuccess = b }, f.IsSuccess)
	flag("errored", func(f *trc.Filter, b bool) { f.IsErrored = b }, f.IsErrored)
	if fmt.Sprint(f) != s {
		c.Violate("fmt prints %q, String gives %q", fmt.Sprint(f), s)
	}
	c.Seen(s)
}

func c10Concurrent(c *mon.C) {
	r := c.R
	sts := population(r, 20)
	f := mon.AnyFilter(r, sts)
	if f.Query == "" {
		f.Query = "needle"
	}
	if mon.Chance(r, 0.1) {
		f.Query = "["
	}
	ref := mon.CopyFilter(f)
	f.Normalize()
	var fns []func()
	for w := 0; w < 4; w++ {
		fns = append(fns, func() {
			g := &f
			for _, st := range sts {
				want := mon.RefAllow(ref, st)
				if got := g.Allow(st); got != want {
					c.Violate("filter %s on %s says %v, want %v", mon.JSON(ref), mon.JSON(st), got, want)
				}
				_ = g.String()
			}
		})
	}
	parallel(fns...)
	c.Count("verdicts", 4*len(sts))
	c.Seen(mon.JSON(ref))
}
