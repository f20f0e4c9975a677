package mon

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/peterbourgon/trc"
)

// Simple is another live implementation of a trace, without optional methods.
type Simple struct {
	mtx             sync.Mutex
	id, source, cat string
	started         time.Time
	events          []trc.Event
	errored, done   bool
	took            time.Duration
}

// NewSimple is a trc.NewTraceFunc.
func NewSimple(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
	var tr trc.Trace = &Simple{id: fmt.Sprintf("SIMPLE%012d", foreignSeq.Add(1)), source: source, cat: category, started: time.Now().UTC()}
	for _, d := range ds {
		tr = d(tr)
	}
	return trc.Put(ctx, tr)
}

func (s *Simple) add(isErr bool, format string, args ...any) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if s.done {
		return
	}
	s.errored = s.errored || isErr
	s.events = append(s.events, trc.Event{When: time.Now().UTC(), What: fmt.Sprintf(format, args...), IsError: isErr,
		Stack: []trc.Frame{{Function: "simple.fn", FileLine: "/s/simple.go:1"}, {Function: "simple.main", FileLine: "/s/simple.go:2"}}})
}

func (s *Simple) ID() string                    { return s.id }
func (s *Simple) Source() string                { return s.source }
func (s *Simple) Category() string              { return s.cat }
func (s *Simple) Started() time.Time            { return s.started }
func (s *Simple) Tracef(f string, a ...any)     { s.add(false, f, a...) }
func (s *Simple) LazyTracef(f string, a ...any) { s.add(false, f, a...) }
func (s *Simple) Errorf(f string, a ...any)     { s.add(true, f, a...) }
func (s *Simple) LazyErrorf(f string, a ...any) { s.add(true, f, a...) }

// Finish implements trc.Trace.
func (s *Simple) Finish() {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if !s.done {
		s.done, s.took = true, time.Since(s.started)
	}
}

// Finished implements trc.Trace.
func (s *Simple) Finished() bool { s.mtx.Lock(); defer s.mtx.Unlock(); return s.done }

// Errored implements trc.Trace.
func (s *Simple) Errored() bool { s.mtx.Lock(); defer s.mtx.Unlock(); return s.errored }

// Duration implements trc.Trace.
func (s *Simple) Duration() time.Duration {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if s.done {
		return s.took
	}
	return time.Since(s.started)
}

// Events implements trc.Trace; it returns its own memory.
func (s *Simple) Events() []trc.Event {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return s.events[:len(s.events):len(s.events)]
}

// RefStream is the reference streamed form of a trace's copy.
func RefStream(st *trc.StaticTrace) *trc.StaticTrace {
	cp := *st
	cp.TraceEvents = RefTrim(st.TraceEvents, -1)
	if n := len(cp.TraceEvents); !st.TraceFinished && n > 1 {
		cp.TraceEvents = cp.TraceEvents[n-1:]
	}
	return &cp
}
