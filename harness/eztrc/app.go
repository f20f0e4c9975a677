// Package eztrc is part of an application, although its name is one of the
// library's.
package eztrc

import "github.com/peterbourgon/trc"

// Tracef adds an event made of the record's string.
func Tracef(tr trc.Trace, record func() any) { tr.Tracef("%s", record()) }

// Region adds an error.
func Region(tr trc.Trace, record func() any) { tr.LazyErrorf("%s", record()) }

// Collector adds events.
type Collector struct{}

// NewTrace adds an event.
func (*Collector) NewTrace(tr trc.Trace, record func() any) { tr.LazyTracef("%s", record()) }
