package mon

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/peterbourgon/trc"
)

// The four event methods.
const (
	Tracef = iota
	LazyTracef
	Errorf
	LazyErrorf
)

// MethodNames of the event methods.
var MethodNames = []string{"Tracef", "LazyTracef", "Errorf", "LazyErrorf"}

// IsErr tells whether the method adds an error event.
func IsErr(method int) bool { return method == Errorf || method == LazyErrorf }

// Call an event method.
func Call(tr trc.Trace, method int, format string, args ...any) {
	switch method {
	case Tracef:
		tr.Tracef(format, args...)
	case LazyTracef:
		tr.LazyTracef(format, args...)
	case Errorf:
		tr.Errorf(format, args...)
	default:
		tr.LazyErrorf(format, args...)
	}
}

var tokenSeq atomic.Int64

// Token returns a process-wide unique word.
func Token(what string) string { return fmt.Sprintf("%s~%d~", what, tokenSeq.Add(1)) }

var words = []string{"alpha", "beta", "", " ", "πρ", "日本語", "a,b;c", "x=y&z=w", "<b>bold</b>", "\"quoted\"", "'single'", "tab\there", "%d", "100%", "%!", "back\\slash", "{{.}}", "null", "0", "-1", "a/b/c.go:12", "end\x00nul", "\u2028", "👍🏽", "  lead", "trail  ", " two  spaces ", "MiXeD", "ÉTÉ", "a:b", "...", "(", "[x", "~", "null", "true", "<script>", strings.Repeat("long", 100)}

// Word returns a plain or awkward word.
func Word(r *rand.Rand) string {
	if Chance(r, 0.5) {
		return fmt.Sprintf("w%d", r.IntN(50))
	}
	return words[r.IntN(len(words))]
}

type stringerArg struct{ s string }

func (s stringerArg) String() string { return s.s }

// Format returns a format with its arguments, none of which changes later. The
// format uses its arguments in sequence unless wild.
func Format(r *rand.Rand, wild bool) (string, []any) {
	var b strings.Builder
	args := []any{}
	n := r.IntN(5)
	if Chance(r, 0.02) {
		n = Pick(r, 17, 40, 120) // more arguments than anyone would expect
	}
	for ; n >= 0; n-- {
		switch r.IntN(15) {
		case 14:
			b.WriteString(Pick(r, "%v", "%p", "%+v", "%s"))
			s, i := Word(r), r.IntN(100)
			args = append(args, Pick[any](r, &s, &i, &struct{ A int }{i}, &[]string{s}, (*int)(nil)))
		case 0:
			b.WriteString("%d")
			args = append(args, r.IntN(1000)-500)
		case 1:
			b.WriteString("%s")
			args = append(args, Word(r))
		case 2:
			b.WriteString("%v")
			args = append(args, []int{r.IntN(9), r.IntN(9)})
		case 3:
			b.WriteString("%+v")
			args = append(args, struct {
				A int
				B string
			}{r.IntN(9), Word(r)})
		case 4:
			b.WriteString("%q")
			args = append(args, Word(r))
		case 5:
			b.WriteString("%v")
			args = append(args, errors.New(Word(r)))
		case 6:
			b.WriteString("%s")
			args = append(args, stringerArg{Word(r)})
		case 7:
			b.WriteString("%v")
			args = append(args, nil)
		case 8:
			b.WriteString("%%")
		case 9:
			b.WriteString("%*d")
			args = append(args, r.IntN(7), r.IntN(100))
		case 10:
			b.WriteString("%v")
			args = append(args, time.Duration(r.Int64N(1e10)))
		default:
			b.WriteString(strings.ReplaceAll(Word(r), "%", "%%"))
		}
		if Chance(r, 0.5) {
			b.WriteString(" ")
		}
	}
	if wild {
		switch r.IntN(8) {
		case 6:
			b.WriteString("\xff%s\xc3")
			args = append(args, "\xed\xa0\x80 not UTF-8 \xfe")
		case 7:
			b.WriteString("%s")
			args = append(args, strings.Repeat("x\n", Pick(r, 3, 600, 9000, 40000)))
		case 0:
			b.WriteString("%d") // missing
		case 1:
			args = append(args, Word(r)) // extra
		case 2:
			b.WriteString("%") // no verb
		case 3:
			b.WriteString("%[1]v")
		case 4:
			b.WriteString(strings.Repeat("long ", Pick(r, 10, 1000, 20000)))
		case 5:
			if len(args) > 0 {
				args[0] = struct{}{}
			}
		}
	}
	if Chance(r, 0.3) {
		// spare capacity behind the arguments
		spare := make([]any, len(args), len(args)+8)
		copy(spare, args)
		args = spare
	}
	return b.String(), args
}

// Dirty fills the library's pools, if it has any, with used objects in all
// kinds of states, by creating and dropping traces.
func Dirty(r *rand.Rand) {
	c := trc.NewCollector(trc.CollectorConfig{Source: "dirty"}).SetCategorySize(2)
	defer trc.SetTraceStacks(true)
	defer trc.SetTraceMaxEvents(1000)
	n := Range(r, 2, 10)
	for i := 0; i < n; i++ {
		trc.SetTraceStacks(Chance(r, 0.7))
		trc.SetTraceMaxEvents(Pick(r, 10, 12, 1000))
		_, tr := c.NewTrace(context.Background(), "dirty")
		k := Pick(r, 0, 1, 3, 15, 30)
		for j := 0; j < k; j++ {
			Call(tr, r.IntN(4), "dirt %d of %s", j, "dirty trace")
		}
		if Chance(r, 0.5) {
			tr.Events()
		}
		if Chance(r, 0.9) {
			tr.Finish()
		}
	}
}

// Setup is a way to make a trace.
type Setup struct {
	Name string
	Make func(category string) trc.Trace
	Stop func()
}

// AnySetup picks a way to make traces: plain, in a collector of some size, with
// decorators, with a subscriber.
func AnySetup(r *rand.Rand) *Setup {
	nop := func() {}
	bg := context.Background()
	mk := func(c *trc.Collector) func(string) trc.Trace {
		return func(cat string) trc.Trace { _, tr := c.NewTrace(bg, cat); return tr }
	}
	switch r.IntN(6) {
	case 0:
		return &Setup{"New", func(cat string) trc.Trace { _, tr := trc.New(bg, "src", cat); return tr }, nop}
	case 1:
		return &Setup{"New+log", func(cat string) trc.Trace {
			_, tr := trc.New(bg, "src", cat, trc.LogDecorator(io.Discard))
			return tr
		}, nop}
	case 2:
		return &Setup{"collector", mk(trc.NewCollector(trc.CollectorConfig{Source: "src"})), nop}
	case 3:
		return &Setup{"collector+decorators", mk(trc.NewCollector(trc.CollectorConfig{Source: "src", Decorators: []trc.DecoratorFunc{trc.LogDecorator(io.Discard), Passthrough}})), nop}
	case 4:
		return &Setup{"small collector", mk(trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1 + r.IntN(3))), nop}
	default:
		c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1 + r.IntN(5))
		ctx, cancel := context.WithCancel(bg)
		ch := make(chan trc.Trace, 8)
		done := make(chan struct{})
		go func() { defer close(done); c.Stream(ctx, trc.Filter{}, ch) }()
		for {
			if _, err := c.StreamStats(ctx, ch); err == nil {
				break
			}
			time.Sleep(10 * time.Microsecond)
		}
		return &Setup{"collector+subscriber", mk(c), func() { cancel(); <-done }}
	}
}

type passTrace struct{ trc.Trace }

// Passthrough is a decorator of another implementation.
func Passthrough(tr trc.Trace) trc.Trace { return &passTrace{tr} }

func (p *passTrace) Free() {
	if f, ok := p.Trace.(interface{ Free() }); ok {
		f.Free()
	}
}

//
// Reference semantics.
//

// CopyEvents makes a deep copy.
func CopyEvents(evs []trc.Event) []trc.Event {
	res := make([]trc.Event, len(evs))
	for i, ev := range evs {
		res[i] = ev
		res[i].What = strings.Clone(ev.What)
		if ev.Stack != nil {
			res[i].Stack = append([]trc.Frame{}, ev.Stack...)
			for j, f := range res[i].Stack {
				res[i].Stack[j] = trc.Frame{Function: strings.Clone(f.Function), FileLine: strings.Clone(f.FileLine)}
			}
		}
	}
	return res
}

// CopyTrace copies what can be read from a trace.
func CopyTrace(tr trc.Trace) *trc.StaticTrace {
	st := &trc.StaticTrace{
		TraceSource:   strings.Clone(tr.Source()),
		TraceID:       strings.Clone(tr.ID()),
		TraceCategory: strings.Clone(tr.Category()),
		TraceStarted:  tr.Started(),
		TraceDuration: tr.Duration(),
		TraceFinished: tr.Finished(),
		TraceErrored:  tr.Errored(),
		TraceEvents:   CopyEvents(tr.Events()),
	}
	if x, ok := tr.(*trc.StaticTrace); ok {
		st.TraceDurationStr, st.TraceDurationSec = x.TraceDurationStr, x.TraceDurationSec
	}
	return st
}

// DiffEvents compares two event lists.
func DiffEvents(got, want []trc.Event) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d events, want %d", len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if g.What != w.What {
			return fmt.Sprintf("event %d: text %.200q, want %.200q", i, g.What, w.What)
		}
		if g.IsError != w.IsError {
			return fmt.Sprintf("event %d (%.60q): error flag %v, want %v", i, g.What, g.IsError, w.IsError)
		}
		if !g.When.Equal(w.When) {
			return fmt.Sprintf("event %d (%.60q): time %s, want %s", i, g.What, g.When, w.When)
		}
		if len(g.Stack) != len(w.Stack) {
			return fmt.Sprintf("event %d (%.60q): %d stack frames, want %d", i, g.What, len(g.Stack), len(w.Stack))
		}
		for j := range g.Stack {
			if g.Stack[j] != w.Stack[j] {
				return fmt.Sprintf("event %d (%.60q): frame %d is %v, want %v", i, g.What, j, g.Stack[j], w.Stack[j])
			}
		}
	}
	return ""
}

// DiffTraces compares two traces.
func DiffTraces(got, want *trc.StaticTrace) string {
	switch {
	case got.TraceID != want.TraceID:
		return fmt.Sprintf("ID %s, want %s", got.TraceID, want.TraceID)
	case got.TraceSource != want.TraceSource:
		return fmt.Sprintf("%s: source %q, want %q", want.TraceID, got.TraceSource, want.TraceSource)
	case got.TraceCategory != want.TraceCategory:
		return fmt.Sprintf("%s: category %q, want %q", want.TraceID, got.TraceCategory, want.TraceCategory)
	case !got.TraceStarted.Equal(want.TraceStarted):
		return fmt.Sprintf("%s: started %s, want %s", want.TraceID, got.TraceStarted, want.TraceStarted)
	case got.TraceDuration != want.TraceDuration:
		return fmt.Sprintf("%s: duration %s, want %s", want.TraceID, got.TraceDuration, want.TraceDuration)
	case got.TraceFinished != want.TraceFinished:
		return fmt.Sprintf("%s: finished %v, want %v", want.TraceID, got.TraceFinished, want.TraceFinished)
	case got.TraceErrored != want.TraceErrored:
		return fmt.Sprintf("%s: errored %v, want %v", want.TraceID, got.TraceErrored, want.TraceErrored)
	}
	if d := DiffEvents(got.TraceEvents, want.TraceEvents); d != "" {
		return want.TraceID + ": " + d
	}
	return ""
}

// RefAllow is the reference filter, on a copy of a trace.
func RefAllow(f trc.Filter, st *trc.StaticTrace) bool {
	in := func(list []string, s string) bool {
		for _, x := range list {
			if x == s {
				return true
			}
		}
		return len(list) == 0
	}
	if !in(f.Sources, st.TraceSource) || !in(f.IDs, st.TraceID) {
		return false
	}
	if f.Category != "" && f.Category != st.TraceCategory {
		return false
	}
	if f.IsActive && st.TraceFinished || f.IsFinished && !st.TraceFinished {
		return false
	}
	if f.IsSuccess && st.TraceErrored || f.IsErrored && !st.TraceErrored {
		return false
	}
	if f.MinDuration != nil && (!st.TraceFinished || st.TraceDuration < *f.MinDuration) {
		return false
	}
	if f.Query == "" {
		return true
	}
	re, err := regexp.Compile(f.Query)
	if err != nil {
		return true
	}
	for _, ev := range st.TraceEvents {
		if re.MatchString(ev.What) {
			return true
		}
		for _, fr := range ev.Stack {
			if re.MatchString(fr.Function) || re.MatchString(RefCompact(fr)) {
				return true
			}
		}
	}
	return false
}

// RefCompact is the reference compact file and line: the function's package
// path up to its last element, the last directory and file, and the line.
func RefCompact(fr trc.Frame) string {
	file, line := fr.FileLine, ""
	if i := strings.Index(file, ":"); i >= 0 {
		file, line = file[:i], file[i+1:]
	}
	parts := strings.Split(file, "/")
	if n := len(parts); n > 2 {
		parts = parts[n-2:]
	}
	file = strings.Join(parts, "/")
	if i := strings.LastIndex(fr.Function, "/"); i >= 0 {
		file = fr.Function[:i] + "/" + file
	}
	return file + ":" + line
}

// RefLimit is the reference limit.
func RefLimit(n int) int {
	switch {
	case n <= 0:
		return 10
	case n > 250:
		return 250
	}
	return n
}

// Newer is the reference order.
func Newer(a, b *trc.StaticTrace) bool {
	if !a.TraceStarted.Equal(b.TraceStarted) {
		return a.TraceStarted.After(b.TraceStarted)
	}
	return a.TraceID > b.TraceID
}

// RefTrim trims stacks.
func RefTrim(evs []trc.Event, depth int) []trc.Event {
	res := CopyEvents(evs)
	for i := range res {
		switch {
		case depth < 0:
			res[i].Stack = nil
		case depth > 0 && len(res[i].Stack) > depth:
			res[i].Stack = res[i].Stack[:depth]
		}
	}
	return res
}

// RefBuckets is the reference bucketing.
func RefBuckets(bs []time.Duration) []time.Duration {
	if len(bs) == 0 {
		return append([]time.Duration{}, trc.DefaultBucketing...)
	}
	res := []time.Duration{}
	for _, b := range bs {
		if b >= 0 {
			res = append(res, b)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	if len(res) == 0 || res[0] != 0 {
		res = append([]time.Duration{0}, res...)
	}
	return res
}

// RefStats are statistics of a category.
type RefStats struct {
	Events, Active, Errored, Total int
	Buckets                        []int
	Oldest, Newest                 time.Time
}

// RefStatsOf computes reference statistics by category.
func RefStatsOf(trs []*trc.StaticTrace, buckets []time.Duration) map[string]*RefStats {
	res := map[string]*RefStats{}
	for _, tr := range trs {
		s := res[tr.TraceCategory]
		if s == nil {
			s = &RefStats{Buckets: make([]int, len(buckets))}
			res[tr.TraceCategory] = s
		}
		s.Total++
		s.Events += len(tr.TraceEvents)
		switch {
		case !tr.TraceFinished:
			s.Active++
		case tr.TraceErrored:
			s.Errored++
		default:
			for i, b := range buckets {
				if tr.TraceDuration >= b {
					s.Buckets[i]++
				}
			}
		}
		if s.Oldest.IsZero() || tr.TraceStarted.Before(s.Oldest) {
			s.Oldest = tr.TraceStarted
		}
		if s.Newest.IsZero() || tr.TraceStarted.After(s.Newest) {
			s.Newest = tr.TraceStarted
		}
	}
	return res
}

// DiffCategory compares a category's statistics with the reference.
func DiffCategory(name string, cs *trc.CategoryStats, ref *RefStats) string {
	switch {
	case cs == nil:
		return fmt.Sprintf("category %q missing", name)
	case cs.EventCount != ref.Events:
		return fmt.Sprintf("category %q: event count %d, want %d", name, cs.EventCount, ref.Events)
	case cs.ActiveCount != ref.Active:
		return fmt.Sprintf("category %q: active count %d, want %d", name, cs.ActiveCount, ref.Active)
	case cs.ErroredCount != ref.Errored:
		return fmt.Sprintf("category %q: errored count %d, want %d", name, cs.ErroredCount, ref.Errored)
	case !reflect.DeepEqual(append([]int{}, cs.BucketCounts...), append([]int{}, ref.Buckets...)):
		return fmt.Sprintf("category %q: buckets %v, want %v", name, cs.BucketCounts, ref.Buckets)
	case !cs.Oldest.Equal(ref.Oldest):
		return fmt.Sprintf("category %q: oldest %s, want %s", name, cs.Oldest, ref.Oldest)
	case !cs.Newest.Equal(ref.Newest):
		return fmt.Sprintf("category %q: newest %s, want %s", name, cs.Newest, ref.Newest)
	case cs.TotalCount() != ref.Total:
		return fmt.Sprintf("category %q: total %d, want %d", name, cs.TotalCount(), ref.Total)
	}
	return ""
}

// DiffStats compares statistics with the reference.
func DiffStats(ss *trc.SearchStats, trs []*trc.StaticTrace, buckets []time.Duration) string {
	if ss == nil {
		return "no statistics"
	}
	if len(ss.Bucketing) != len(buckets) {
		return fmt.Sprintf("bucketing %v, want %v", ss.Bucketing, buckets)
	}
	for i := range buckets {
		if ss.Bucketing[i] != buckets[i] {
			return fmt.Sprintf("bucketing %v, want %v", ss.Bucketing, buckets)
		}
	}
	ref := RefStatsOf(trs, buckets)
	for name, r := range ref {
		if d := DiffCategory(name, ss.Categories[name], r); d != "" {
			return d
		}
		if got := ss.Categories[name].Category; got != name {
			return fmt.Sprintf("category %q is named %q", name, got)
		}
	}
	for name, cs := range ss.Categories {
		if ref[name] == nil && cs.TotalCount() != 0 {
			return fmt.Sprintf("unexpected category %q with %d traces", name, cs.TotalCount())
		}
	}
	return ""
}

// JSON of anything.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "marshal: " + err.Error()
	}
	return string(b)
}

//
// Populations.
//

// Durations near the boundaries that matter.
var Durations = []time.Duration{0, 1, 99 * time.Microsecond, 100 * time.Microsecond, 100*time.Microsecond + 1, time.Millisecond - 1, time.Millisecond, 5 * time.Millisecond, 10 * time.Millisecond, 25*time.Millisecond - 1, 25 * time.Millisecond, 50 * time.Millisecond, 100 * time.Millisecond, 999 * time.Millisecond, time.Second, time.Second + 1, time.Minute, 3 * time.Hour}

// Categories with awkward members.
var Categories = []string{"cat", "cat2", "", "overall", "a b&c=d", "日本", "<i>x</i>", "cat/%2F", "Cat", " cat", "cat ", "\tcat\n", "CAT", "cat,cat2", "a;b", "q\"uo'te", "+", "..", "a#b?c", strings.Repeat("category", 40)}

// Sources with awkward members.
var Sources = []string{"src", "src2", "a&b=c d", "源", "<u>s</u>", "100%", " src", "src ", "SRC", "src,src2", "s;t", "q\"'", "+", "host:8080/x?y#z", strings.Repeat("source", 50)}

var foreignSeq atomic.Int64

// Static makes a static trace with plausible content; started is given.
func Static(r *rand.Rand, category, source string, started time.Time) *trc.StaticTrace {
	n := foreignSeq.Add(1)
	st := &trc.StaticTrace{
		TraceID:       fmt.Sprintf("ID%02d%012d", (started.UnixNano()>>3*7919+started.UnixNano())%97, n), // in order only among those of the same time
		TraceSource:   source,
		TraceCategory: category,
		TraceStarted:  started,
		TraceDuration: Durations[r.IntN(len(Durations))],
		TraceFinished: Chance(r, 0.75),
	}
	when := started
	k := Pick(r, 0, 1, 2, 5)
	if Chance(r, 0.004) {
		k = Pick(r, 120, 300, 1100) // a long trace
	}
	for ; k > 0; k-- {
		when = when.Add(time.Duration(r.IntN(1000)))
		ev := trc.Event{When: when, What: fmt.Sprintf("%s %s %d", Word(r), Pick(r, "needle", "hay", "straw"), r.IntN(10)), IsError: Chance(r, 0.15)}
		if Chance(r, 0.03) {
			ev.What = Pick(r, "needle", "hay", "line one") + "\n" + ev.What + Pick(r, "", "\nhay", "\nlast line 9")
		}
		if Chance(r, 0.002) {
			ev.What += strings.Repeat(" more", Pick(r, 60, 300, 2000, 15000)) + " end"
		}
		if Chance(r, 0.03) {
			ev.What = Pick(r, "", "", " ", "\n")
		}
		if ev.IsError {
			st.TraceErrored = true
		}
		d := r.IntN(5)
		if Chance(r, 0.01) {
			d = Pick(r, 12, 34, 70) // a deep one
		}
		for ; d > 0; d-- {
			ev.Stack = append(ev.Stack, trc.Frame{Function: fmt.Sprintf("example.com/%s/pkg%d.(*T).fn%d", Pick(r, "app", "lib"), r.IntN(4), r.IntN(4)), FileLine: fmt.Sprintf("/src/%s/file%d.go:%d", Pick(r, "app", "lib"), r.IntN(4), r.IntN(90))})
			if Chance(r, 0.05) { // unusual ones
				ev.Stack[len(ev.Stack)-1] = Pick(r,
					trc.Frame{Function: "main.main", FileLine: "main.go:7"},
					trc.Frame{Function: "example.com/a&b.Fn[...]", FileLine: "/src/a&b/it's <x>.go:12"},
					trc.Frame{Function: "runtime.goexit", FileLine: "asm.s:9"},
					trc.Frame{Function: "github.com/a/b/v2.(*T[go.shape.int]).M·f", FileLine: "/root/été/x y/%d.go:100000"},
					trc.Frame{Function: "noslash", FileLine: "/top.go:1"})
			}
		}
		st.TraceEvents = append(st.TraceEvents, ev)
		if Chance(r, 0.03) { // the very same once more
			st.TraceEvents = append(st.TraceEvents, CopyEvents([]trc.Event{ev})...)
		}
	}
	return st
}

// Foreign is a trace of another implementation: a static copy behind the
// interface, optionally without any optional methods.
type Foreign struct{ st *trc.StaticTrace }

// NewForeign wraps the static trace; events are returned as copies.
func NewForeign(st *trc.StaticTrace) *Foreign { return &Foreign{st} }

func (f *Foreign) ID() string                { return f.st.TraceID }
func (f *Foreign) Source() string            { return f.st.TraceSource }
func (f *Foreign) Category() string          { return f.st.TraceCategory }
func (f *Foreign) Started() time.Time        { return f.st.TraceStarted }
func (f *Foreign) Duration() time.Duration   { return f.st.TraceDuration }
func (f *Foreign) Tracef(string, ...any)     {}
func (f *Foreign) LazyTracef(string, ...any) {}
func (f *Foreign) Errorf(string, ...any)     {}
func (f *Foreign) LazyErrorf(string, ...any) {}
func (f *Foreign) Finish()                   {}
func (f *Foreign) Finished() bool            { return f.st.TraceFinished }
func (f *Foreign) Errored() bool             { return f.st.TraceErrored }
func (f *Foreign) Events() []trc.Event       { return CopyEvents(f.st.TraceEvents) }

// Feed makes a collector which holds the given traces, in order of creation.
func Feed(c *trc.Collector, sts []*trc.StaticTrace, wrap func(*trc.StaticTrace) trc.Trace) {
	i := 0
	c.SetNewTrace(func(ctx context.Context, source, category string, _ ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		return trc.Put(ctx, wrap(sts[i]))
	})
	for ; i < len(sts); i++ {
		c.NewTrace(context.Background(), sts[i].TraceCategory)
	}
}

// AnyFilter makes a filter that has a fair chance to match some of the traces.
func AnyFilter(r *rand.Rand, sts []*trc.StaticTrace) trc.Filter {
	var f trc.Filter
	some := func() *trc.StaticTrace {
		if len(sts) == 0 {
			return &trc.StaticTrace{TraceID: "none", TraceSource: "none", TraceCategory: "none"}
		}
		return sts[r.IntN(len(sts))]
	}
	if Chance(r, 0.2) {
		k := Range(r, 1, 3)
		if Chance(r, 0.06) {
			k = 1
			for n := Pick(r, 17, 60, 300); n > 0; n-- {
				f.Sources = append(f.Sources, fmt.Sprint("other source ", n))
			}
		}
		for ; k > 0; k-- {
			f.Sources = append(f.Sources, Pick(r, some().TraceSource, some().TraceSource, nearMiss(r, some().TraceSource), "nosuch"))
		}
	}
	if Chance(r, 0.15) {
		k := Range(r, 1, 6)
		if Chance(r, 0.1) {
			for n := Pick(r, 17, 60, 260, 1100); n > 0; n-- {
				f.IDs = append(f.IDs, fmt.Sprint("OTHERID", n))
			}
		}
		for ; k > 0; k-- {
			f.IDs = append(f.IDs, Pick(r, some().TraceID, some().TraceID, some().TraceID, nearMiss(r, some().TraceID), "nosuch"))
		}
	}
	if Chance(r, 0.3) {
		f.Category = Pick(r, some().TraceCategory, some().TraceCategory, some().TraceCategory, nearMiss(r, some().TraceCategory), "nosuch")
	}
	if Chance(r, 0.12) {
		f.IsActive = true
	}
	if Chance(r, 0.12) {
		f.IsFinished = true
	}
	if Chance(r, 0.12) {
		f.IsSuccess = true
	}
	if Chance(r, 0.12) {
		f.IsErrored = true
	}
	if Chance(r, 0.25) {
		d := Pick(r, some().TraceDuration, some().TraceDuration+1, some().TraceDuration-1, Durations[r.IntN(len(Durations))], 0, -1)
		f.MinDuration = &d
	}
	if Chance(r, 0.35) {
		f.Query = Pick(r, "needle", "hay [0-4]", "^straw", "fn[12]$", "app/pkg2", "file3\\.go:", "(?i)NEEDLE", "x*", "nomatchatall", "needle 7$", "a|b", "example\\.com/lib", "[0-9]+", ".", "^$", "NEEDLE", " needle", "hay ", "  ", "\\d$", "^.*straw.*$", "(?s).", "(needle|hay) [57]", "\\.go:[0-9]+$", "w1", "^w\\d+ hay", "lib/file", "needle$", "hay$", "9$", "(?m)needle$", "(?m)^hay$", "^line", "\n", "\\(\\*T\\)", "src/app", "^example", "^example\\.com/app/app/file", "/src/")
		if Chance(r, 0.08) { // a long one
			for n := Pick(r, 3, 40, 400); n > 0; n-- {
				f.Query = fmt.Sprintf("nosuchword%d|", r.IntN(1000)) + f.Query
			}
		}
	}
	return f
}

// nearMiss makes a string that is almost the given one.
func nearMiss(r *rand.Rand, s string) string {
	switch r.IntN(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return " " + s
	case 3:
		return s + " "
	case 4:
		if len(s) > 1 && s[len(s)-1] < 0x80 {
			return s[:len(s)-1]
		}
		return s + "x"
	default:
		return strings.TrimSpace(s)
	}
}

// CopyFilter deep-copies a filter's exported fields.
func CopyFilter(f trc.Filter) trc.Filter {
	g := trc.Filter{Category: f.Category, IsActive: f.IsActive, IsFinished: f.IsFinished, IsSuccess: f.IsSuccess, IsErrored: f.IsErrored, Query: f.Query}
	g.Sources = append(g.Sources, f.Sources...)
	g.IDs = append(g.IDs, f.IDs...)
	if f.MinDuration != nil {
		d := *f.MinDuration
		g.MinDuration = &d
	}
	return g
}

// AnyBuckets makes a bucketing.
func AnyBuckets(r *rand.Rand) []time.Duration {
	if Chance(r, 0.4) {
		return nil
	}
	var bs []time.Duration
	for k := r.IntN(7); k > 0; k-- {
		bs = append(bs, Pick(r, Durations[r.IntN(len(Durations))], time.Duration(r.Int64N(2e9)), 0))
	}
	if Chance(r, 0.04) {
		for k := Pick(r, 33, 70, 150); k > 0; k-- {
			bs = append(bs, time.Duration(r.Int64N(Pick[int64](r, 1e6, 1e9, 1e11))))
		}
	}
	if Chance(r, 0.1) {
		bs = append(bs, -time.Duration(r.Int64N(1e9)), 0)
		r.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	}
	if Chance(r, 0.3) {
		sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	}
	return bs
}

// Humanize tolerantly compares a humanized duration with the truth.
func Humanize(s string, d time.Duration) bool {
	p, err := time.ParseDuration(s)
	if err != nil || p > d {
		return false
	}
	if d >= 10*time.Microsecond {
		return d-p <= d/8
	}
	return d-p <= d/2
}
