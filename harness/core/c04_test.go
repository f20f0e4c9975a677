package core

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"verif.local/trcmon/mon"
)

// probe counts its evaluations and changes with every one.
type probe struct {
	n    atomic.Int64
	name string
}

func (p *probe) next() string { return fmt.Sprintf("%s#%d", p.name, p.n.Add(1)) }

type probeStringer struct{ *probe }

func (p probeStringer) String() string { return p.next() }

type probeError struct{ *probe }

func (p probeError) Error() string { return p.next() }

type probeFormatter struct{ *probe }

func (p probeFormatter) Format(s fmt.State, verb rune) { fmt.Fprint(s, p.next()) }

type probeGo struct{ *probe }

func (p probeGo) GoString() string { return p.next() }

// arg makes an argument with its verb.
func (p *probe) arg(kind int) (verb string, arg any) {
	switch kind % 4 {
	case 0:
		return "%s", probeStringer{p}
	case 1:
		return "%v", probeError{p}
	case 2:
		return "%v", probeFormatter{p}
	default:
		return "%#v", probeGo{p}
	}
}

// c04Name is unique and sometimes long.
func c04Name(r interface{ IntN(int) int }, what string) string {
	name := mon.Token(what)
	if r.IntN(20) == 0 {
		name += strings.Repeat("x", []int{300, 1200, 5000, 70000}[r.IntN(4)])
	}
	return name
}

type box struct{ V int }

// emit adds an event to the trace, which is that of the context.
func emit(easy bool, ctx context.Context, tr trc.Trace, method int, format string, args ...any) {
	if !easy {
		mon.Call(tr, method, format, args...)
		return
	}
	switch method {
	case mon.Tracef:
		eztrc.Tracef(ctx, format, args...)
	case mon.LazyTracef:
		eztrc.LazyTracef(ctx, format, args...)
	case mon.Errorf:
		eztrc.Errorf(ctx, format, args...)
	case mon.LazyErrorf:
		eztrc.LazyErrorf(ctx, format, args...)
	}
}

func TestC04(t *testing.T) {
	m := mon.Start(t, "C04")
	defer m.Done()
	m.Rule("seq: events with arguments that count and change at each evaluation, or are mutated between call and reads, through plain, collected and decorated traces, prefixes and regions; reads by Events, search, search copy, stream copy; distinct by program")
	m.Cases("seq", mon.N(500, 80), c04Sequential)
	m.Rule("conc: several concurrent first readers of unread lazy events: one evaluation, one text; distinct by program")
	m.Cases("conc", mon.N(250, 150), c04Concurrent)
	m.Rule("texts: plain and lazy events side by side with formats without arguments, empty texts, texts that change to or from empty, and arguments that panic, all read again and again by several readers; distinct by program")
	m.Cases("texts", mon.N(400, 100), c04Texts)
}

// script gives its texts one after the other.
type script struct {
	texts []string
	n     atomic.Int64
}

func (s *script) String() string {
	text := s.texts[min(int(s.n.Add(1))-1, len(s.texts)-1)]
	if text == "PANIC" {
		panic("argument panics")
	}
	return text
}

func c04Texts(c *mon.C) {
	r := c.R
	if mon.Chance(r, 0.5) {
		mon.Dirty(r)
	}
	coll, ctx, prog := c04Setup(r)
	base := trc.Get(ctx)
	tr := base
	prefix := ""
	if mon.Chance(r, 0.25) {
		_, tr = trc.Prefix(ctx, "p%d", 1)
		prefix = "p1 "
		prog += ";prefix"
	}
	type ev struct {
		s     *script // nil: no counted argument
		lazy  bool
		what  string // text of the first evaluation
		shown bool
	}
	var evs []*ev
	read := func(got []trc.Event, how string) {
		if len(got) != len(evs) {
			c.Violate("%s: %s shows %d events, want %d", prog, how, len(got), len(evs))
			return
		}
		for i, x := range evs {
			if got[i].What != x.what {
				c.Violate("%s: %s shows event %d (lazy %v) as %q, want %.200q", prog, how, i, x.lazy, got[i].What, x.what)
			}
			x.shown = true
			if x.s != nil && x.s.n.Load() != 1 {
				c.Violate("%s: argument of event %d (lazy %v, text %q) was evaluated %d times", prog, i, x.lazy, x.what, x.s.n.Load())
			}
			c.Count("texts_compared", 1)
		}
	}
	for k := mon.Range(r, 2, 14); k > 0 && !c.Failed(); k-- {
		if mon.Chance(r, 0.25) {
			switch how := r.IntN(4); {
			case how == 0 && coll != nil:
				res, err := coll.Search(bg, &trc.SearchRequest{})
				if err != nil || len(res.Traces) != 1 {
					c.Violate("search: %v", err)
					return
				}
				read(res.Traces[0].TraceEvents, "a search")
			case how == 1:
				read(trc.NewSearchTrace(base).TraceEvents, "a copy")
			default:
				read(base.Events(), "a read")
			}
			prog += ";read"
			continue
		}
		method := r.IntN(4)
		x := &ev{lazy: method == mon.LazyTracef || method == mon.LazyErrorf}
		switch r.IntN(4) {
		case 3: // many arguments; the last one counts
			n := mon.Pick(r, 1, 3, 8, 11, 17, 40, 300)
			x.s = &script{texts: []string{"last", "again"}}
			var verbs, want []string
			var args []any
			for i := 0; i < n; i++ {
				verbs, want, args = append(verbs, mon.Pick(r, "%d", "%v")), append(want, fmt.Sprint(i*i)), append(args, i*i)
			}
			verbs, want, args = append(verbs, "%s"), append(want, "last"), append(args, x.s)
			x.what = prefix + strings.Join(want, " ")
			mon.Call(tr, method, strings.Join(verbs, " "), args...)
			prog += fmt.Sprintf(";%s/%d args", mon.MethodNames[method], n+1)
		case 0: // no counted argument: the same text for every method
			format, args := mon.Pick(r, "", "%%", "100%% done", "50%", "%d", "plain", "%!", "a%%b%%c", " ", "%s"), []any{}
			if mon.Chance(r, 0.2) {
				args = append(args, mon.Pick[any](r, nil, "", 0, []any{}))
			}
			x.what = prefix + fmt.Sprintf(format, args...)
			mon.Call(tr, method, format, args...)
			prog += fmt.Sprintf(";%s(%q,%v)", mon.MethodNames[method], format, args)
		case 1:
			x.s = &script{texts: mon.Pick(r, []string{"", "later"}, []string{"first", ""}, []string{"", "", "late"}, []string{"0", "1"}, []string{"%d", "x"}, []string{" ", "y"})}
			x.what = prefix + x.s.texts[0]
			mon.Call(tr, method, "%s", x.s)
			prog += fmt.Sprintf(";%s%q", mon.MethodNames[method], x.s.texts)
		case 2:
			x.s = &script{texts: []string{"PANIC", "later"}}
			x.what = prefix + fmt.Sprintf("%s", &script{texts: x.s.texts})
			mon.Call(tr, method, "%s", x.s)
			prog += fmt.Sprintf(";%s(panics)", mon.MethodNames[method])
		}
		if x.s != nil {
			if n := x.s.n.Load(); x.lazy && n != 0 || !x.lazy && n != 1 {
				c.Violate("%s: the call evaluated its argument %d times", prog, n)
			}
		}
		evs = append(evs, x)
	}
	if mon.Chance(r, 0.5) {
		base.Finish()
	}
	for k := 0; k < 3; k++ {
		read(base.Events(), "a final read")
	}
	trc.NewStreamTrace(base)
	read(trc.NewSearchTrace(base).TraceEvents, "a final copy")
	c.Seen(prog)
	c.Sample("%s", prog)
}

type c04Event struct {
	lazy    bool
	p, pre  *probe // event and prefix arguments
	boxes   *box
	what    string // expected, once known
	known   bool
	atCall  int
	preBase int64
}

func c04Setup(r interface{ IntN(int) int }) (*trc.Collector, context.Context, string) {
	switch r.IntN(4) {
	case 0:
		ctx, _ := trc.New(bg, "src", "cat")
		return nil, ctx, "New"
	case 1:
		c := trc.NewCollector(trc.CollectorConfig{Decorators: []trc.DecoratorFunc{mon.Passthrough}})
		ctx, _ := c.NewTrace(bg, "cat")
		return c, ctx, "collector+decorator"
	case 2:
		ctx, tr := trc.New(bg, "src", "cat")
		ctx, _ = trc.Put(ctx, mon.Passthrough(tr))
		return nil, ctx, "New+decorator"
	default:
		c := trc.NewCollector(trc.CollectorConfig{})
		ctx, _ := c.NewTrace(bg, "cat")
		return c, ctx, "collector"
	}
}

func c04Sequential(c *mon.C) {
	r := c.R
	if mon.Chance(r, 0.5) {
		mon.Dirty(r)
	}
	coll, ctx, name := c04Setup(r)
	base := trc.Get(ctx)
	tr := base
	prog := name
	var pre *probe // of the innermost prefix
	preText := func(n int64) string { return "" }
	marks := ""
	for k := mon.Pick(r, 0, 0, 1, 2); k > 0; k-- {
		switch {
		case pre == nil && mon.Chance(r, 0.7):
			pre = &probe{name: c04Name(r, "pre")}
			verb, arg := pre.arg(r.IntN(4))
			if mon.Chance(r, 0.3) {
				ctx, tr = trc.Prefix(ctx, "["+verb+"]", append(make([]any, 0, 4), arg)...)
			} else {
				ctx, tr = trc.Prefix(ctx, "["+verb+"]", arg)
			}
			m, p := marks, pre
			preText = func(n int64) string { return fmt.Sprintf("%s[%s#%d] ", m, p.name, n) }
			marks = ""
			prog += ";prefix"
		default:
			ctx, tr = trc.Prefix(ctx, "plain")
			marks += "plain "
			prog += ";plain"
		}
	}
	mk := func(pn int64, rest string) string {
		if pre == nil {
			return marks + rest
		}
		return preText(pn) + marks + rest
	}
	var evs []*c04Event
	read := func() {
		var got []trc.Event
		how := r.IntN(4)
		prog += fmt.Sprintf(";read%d", how)
		switch {
		case how == 1 && coll != nil:
			req := &trc.SearchRequest{Filter: trc.Filter{Query: mon.Pick(r, "", ".", "#1")}}
			res, err := coll.Search(bg, req)
			if err != nil || len(res.Traces) > 1 {
				c.Violate("search: %v", err)
				return
			}
			if len(res.Traces) == 1 {
				got = res.Traces[0].TraceEvents
			} else {
				got = base.Events()
			}
		case how == 2:
			got = trc.NewSearchTrace(base).TraceEvents
		default:
			got = base.Events()
		}
		if len(got) != len(evs) {
			c.Violate("%d events, want %d", len(got), len(evs))
			return
		}
		for i, x := range evs {
			if !x.known {
				// first read of a lazy event: now the arguments count
				x.known = true
				if x.boxes != nil {
					x.what = mk(0, fmt.Sprintf("box %d", x.boxes.V))
				} else {
					if n := x.p.n.Load(); n != 1 {
						c.Violate("%s: argument of a lazy event was evaluated %d times by its first read", prog, n)
					}
					if pre != nil {
						// which evaluation of the prefix this event got depends
						// on the order of reading: accept any, but fix it
						x.what = got[i].What
						ok := false
						for n := int64(1); n <= pre.n.Load(); n++ {
							ok = ok || got[i].What == mk(n, x.p.name+"#1")
						}
						if !ok {
							c.Violate("%s: lazy event reads %.200q", prog, got[i].What)
						}
					} else {
						x.what = mk(0, x.p.name+"#1")
					}
				}
				if x.boxes != nil && pre != nil {
					x.what = got[i].What
					ok := false
					for n := int64(1); n <= pre.n.Load(); n++ {
						ok = ok || got[i].What == mk(n, fmt.Sprintf("box %d", x.boxes.V))
					}
					if !ok {
						c.Violate("%s: lazy event reads %.200q with box %d", prog, got[i].What, x.boxes.V)
					}
				}
			}
			if got[i].What != x.what {
				c.Violate("%s: event %d (lazy %v) reads %.200q, want %.200q", prog, i, x.lazy, got[i].What, x.what)
				return
			}
			c.Count("texts_compared", 1)
		}
	}
	lazies := 0
	for k := mon.Range(r, 3, 20); k > 0 && !c.Failed(); k-- {
		switch op := r.IntN(10); {
		case op < 2:
			read()
		case op < 3:
			for _, x := range evs {
				if x.boxes != nil {
					x.boxes.V++
				}
			}
		default:
			x := &c04Event{p: &probe{name: c04Name(r, "arg")}}
			method := r.IntN(4)
			x.lazy = method == mon.LazyTracef || method == mon.LazyErrorf
			prog += fmt.Sprintf(";%s", mon.MethodNames[method])
			if x.lazy {
				lazies++
			}
			var preBefore int64
			if pre != nil {
				preBefore = pre.n.Load()
			}
			if mon.Chance(r, 0.3) {
				x.boxes = &box{V: r.IntN(100)}
				var arg any = x.boxes
				format := "box %d"
				emit(r.IntN(3) == 0, ctx, tr, method, format, boxArg(arg, x.boxes))
			} else {
				verb, arg := x.p.arg(r.IntN(4))
				emit(r.IntN(3) == 0, ctx, tr, method, verb, arg)
			}
			if x.lazy {
				if n := x.p.n.Load(); n != 0 {
					c.Violate("%s: the call evaluated its lazy argument %d times", prog, n)
				}
				if pre != nil && pre.n.Load() != preBefore {
					c.Violate("%s: a lazy call evaluated the prefix arguments", prog)
				}
			} else {
				x.known = true
				var pn int64
				if pre != nil {
					pn = pre.n.Load()
					if pn == preBefore {
						c.Violate("%s: an immediate call did not evaluate the prefix arguments", prog)
					}
				}
				if x.boxes != nil {
					x.what = mk(pn, fmt.Sprintf("box %d", x.boxes.V))
					x.boxes.V++
				} else {
					n := x.p.n.Load()
					if n == 0 {
						c.Violate("%s: an immediate call returned without evaluating its arguments", prog)
					}
					x.what = mk(pn, fmt.Sprintf("%s#%d", x.p.name, n))
				}
			}
			evs = append(evs, x)
		}
	}
	if mon.Chance(r, 0.5) {
		base.Finish()
		prog += ";finish"
		for _, x := range evs {
			if x.lazy && !x.known && x.p.n.Load() != 0 {
				c.Violate("%s: Finish evaluated a lazy argument", prog)
			}
		}
	}
	read()
	var counts []int64
	for _, x := range evs {
		counts = append(counts, x.p.n.Load())
	}
	if pre != nil {
		counts = append(counts, pre.n.Load())
	}
	for _, x := range evs {
		if x.boxes != nil {
			x.boxes.V += 7
		}
	}
	read()
	read()
	trc.NewStreamTrace(base)
	for i, x := range evs {
		if x.p.n.Load() != counts[i] {
			c.Violate("%s: argument evaluated again by a later read (lazy %v)", prog, x.lazy)
		}
	}
	if pre != nil && pre.n.Load() != counts[len(counts)-1] {
		c.Violate("%s: prefix argument evaluated again by a later read", prog)
	}
	c.Count("lazy_events", lazies)
	c.Seen(prog)
	c.Sample("%s", prog)
}

// boxArg makes an argument that formats the current content of the box.
func boxArg(_ any, b *box) any { return boxFormatter{b} }

type boxFormatter struct{ b *box }

func (x boxFormatter) Format(s fmt.State, verb rune) { fmt.Fprint(s, x.b.V) }

func c04Concurrent(c *mon.C) {
	r := c.R
	coll, ctx, name := c04Setup(r)
	base := trc.Get(ctx)
	tr := base
	var pre *probe
	if mon.Chance(r, 0.4) {
		pre = &probe{name: "pre"}
		_, tr = trc.Prefix(ctx, "<%s>", probeStringer{pre})
	}
	n := mon.Range(r, 1, 12)
	probes := make([]*probe, n)
	for i := range probes {
		probes[i] = &probe{name: c04Name(r, "lazy")}
		verb, arg := probes[i].arg(r.IntN(4))
		mon.Call(tr, mon.Pick(r, mon.LazyTracef, mon.LazyErrorf), verb, arg)
	}
	if mon.Chance(r, 0.5) {
		base.Finish()
	}
	readers := mon.Range(r, 2, 6)
	got := make([][][]trc.Event, readers)
	var fns []func()
	for i := 0; i < readers; i++ {
		how := r.IntN(4)
		fns = append(fns, func() {
			for k := 0; k < 3; k++ {
				switch {
				case how == 0 && coll != nil:
					res, _ := coll.Search(bg, &trc.SearchRequest{Filter: trc.Filter{Query: "lazy"}})
					if len(res.Traces) > 0 {
						got[i] = append(got[i], res.Traces[0].TraceEvents)
					}
				case how == 1:
					got[i] = append(got[i], trc.NewSearchTrace(base).TraceEvents)
				default:
					got[i] = append(got[i], base.Events())
				}
			}
		})
	}
	parallel(fns...)
	final := base.Events()
	if len(final) != n {
		c.Violate("%d events, want %d", len(final), n)
		return
	}
	for i, p := range probes {
		if k := p.n.Load(); k != 1 {
			c.Violate("%s: %d concurrent readers evaluated a lazy argument %d times", name, readers, k)
		}
		_ = i
	}
	if pre != nil && pre.n.Load() != int64(n) {
		c.Violate("%s: prefix argument evaluated %d times for %d lazy events", name, pre.n.Load(), n)
	}
	for _, reads := range got {
		for _, evs := range reads {
			for i := range evs {
				if evs[i].What != final[i].What {
					c.Violate("%s: readers saw different texts %.200q and %.200q", name, evs[i].What, final[i].What)
				}
				c.Count("texts_compared", 1)
			}
		}
	}
	c.Seen(name, n, readers, pre != nil, c.Index)
	c.Sample("%s, %d lazy events, %d concurrent first readers: one evaluation each, e.g. %.100q", name, n, readers, final[0].What)
}
