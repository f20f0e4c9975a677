package web

import (
	"context"
	"testing"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	"verif.local/trcmon/mon"
)

// ezEvent adds an event with the easy API.
func ezEvent(ctx context.Context, method int, format string, args ...any) {
	switch method {
	case mon.Tracef:
		eztrc.Tracef(ctx, format, args...)
	case mon.LazyTracef:
		eztrc.LazyTracef(ctx, format, args...)
	case mon.Errorf:
		eztrc.Errorf(ctx, format, args...)
	case mon.LazyErrorf:
		eztrc.LazyErrorf(ctx, format, args...)
	}
}

func ezAPI() *mon.ContextAPI {
	return &mon.ContextAPI{Name: "eztrc", Prefix: eztrc.Prefix, Region: eztrc.Region, Get: eztrc.Get, MaybeGet: eztrc.MaybeGet, Event: ezEvent, Create: eztrc.New}
}

func TestC07(t *testing.T) {
	m := mon.Start(t, "C07")
	defer m.Done()
	m.Rule("ezprog: the random programs with package eztrc and its global collector; distinct by program")
	m.Bubbles("ezprog", mon.N(700, 80), func(c *mon.C) {
		mon.ContextProgram(c, ezAPI(), func(ctx context.Context, cat string) (context.Context, trc.Trace) { return trc.New(ctx, "src", cat) })
	})
	m.Rule("ezstorm: the concurrent programs with package eztrc; distinct by order of events")
	m.Cases("ezstorm", mon.N(60, 50), func(c *mon.C) { mon.ContextStorm(c, ezAPI()) })
}
