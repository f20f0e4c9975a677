package core

import (
	"context"
	"testing"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC07(t *testing.T) {
	m := mon.Start(t, "C07")
	defer m.Done()
	m.Rule("prog: random programs of New, NewTrace, Put, Prefix, Region, derived contexts, events, finishes and passing time over a growing tree of contexts, with awkward names, formats and argument slices with spare capacity, against a model that renders every event; after each step every context must still carry its trace; non-trivial: an event went through a prefix or region; distinct by program")
	m.Bubbles("prog", mon.N(1500, 150), func(c *mon.C) {
		coll := c07Collector(c)
		mon.ContextProgram(c, mon.CoreAPI(coll), func(ctx context.Context, cat string) (context.Context, trc.Trace) {
			if mon.Chance(c.R, 0.3) {
				return trc.New(ctx, "src", cat, trc.LogDecorator(discard{}))
			}
			return trc.New(ctx, "src", cat)
		})
	})
	m.Rule("storm: goroutines share prefixed contexts, add their own prefixes, regions and uniquely marked events; distinct by order of events")
	m.Cases("storm", mon.N(150, 120), func(c *mon.C) { mon.ContextStorm(c, mon.CoreAPI(c07Collector(c))) })
}

func c07Collector(c *mon.C) *trc.Collector {
	coll := trc.NewDefaultCollector()
	switch c.R.IntN(4) {
	case 0:
		coll.SetDecorators(mon.Passthrough, trc.LogDecorator(discard{}))
	case 1:
		coll.SetNewTrace(func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			return trc.New(ctx, source, category, append(ds[:len(ds):len(ds)], mon.Passthrough)...)
		})
	}
	return coll
}
