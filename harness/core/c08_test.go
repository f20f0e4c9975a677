package core

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"verif.local/trcmon/mon"
)

func TestC08(t *testing.T) {
	m := mon.Start(t, "C08")
	defer m.Done()
	m.Rule("model: random histories of creations in 1-6 categories, finishes and resizes (also to the same, to larger, to non-positive sizes), compared after every few steps with a model that keeps the newest of each category; non-trivial: something was displaced; distinct by history")
	m.Cases("model", mon.N(3000, 100), c08Model)
	m.Rule("default: fills a fresh collector around its default size of 1000 and checks which traces can be found by ID; distinct by excess")
	m.Cases("default", mon.N(12, 0), c08Default)
	m.Rule("many: 100-1500 categories, also long ones which differ only in their last bytes or in case, or sizes up to 6000; every category keeps exactly its newest traces; distinct by numbers")
	m.Cases("many", mon.N(24, 10), c08Many)
	m.Rule("conc: creators, a resizer and searchers run concurrently on a few categories; every search must be an unbroken run of each category's creation history consistent with real time, show everything created before it that cannot have been displaced, and afterwards each category must hold exactly its size; distinct by sequence of observed result sizes")
	m.Cases("conc", mon.N(800, 150), c08Concurrent)
	m.Rule("resizers: several goroutines resize one collector to different sizes, while traces are created, also in new categories; afterwards all categories, old and new, have the same size, which is that of a resize nothing came after, and keep exactly that many of the newest; non-trivial: resizes overlapped; distinct by sizes and outcome")
	m.Cases("resizers", mon.N(400, 150), c08Resizers)
}

func c08Resizers(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	coll.SetCategorySize(mon.Pick(r, 1, 5, 20))
	cats := []string{}
	for i := mon.Pick(r, 1, 4, 12, 40); i > 0; i-- {
		cats = append(cats, fmt.Sprint("cat", i))
	}
	for i := r.IntN(60); i > 0; i-- {
		_, tr := coll.NewTrace(bg, mon.Pick(r, cats...))
		tr.Finish()
	}
	n := mon.Range(r, 2, 5)
	resizes := make([][]c08Resize, n)
	var fns []func()
	for w := 0; w < n; w++ {
		rr := sub(r)
		fns = append(fns, func() {
			for i := mon.Range(rr, 1, 6); i > 0; i-- {
				x := c08Resize{size: 1 + w + n*rr.IntN(5)}
				x.start = mono()
				coll.SetCategorySize(x.size)
				x.end = mono()
				resizes[w] = append(resizes[w], x)
			}
		})
	}
	for w := r.IntN(3); w > 0; w-- {
		rr, cats := sub(r), append(cats[:len(cats):len(cats)], "x", "y")
		fns = append(fns, func() {
			for i := 0; i < 20; i++ {
				_, tr := coll.NewTrace(bg, mon.Pick(rr, cats...))
				if mon.Chance(rr, 0.5) {
					tr.Finish()
				}
			}
		})
	}
	parallel(fns...)
	possible, overlaps := map[int]bool{}, 0
	var all []c08Resize
	for _, xs := range resizes {
		all = append(all, xs...)
	}
	for _, x := range all {
		last := true
		for _, y := range all {
			if y.start > x.end {
				last = false
			}
			if y.start < x.end && x.start < y.end && y != x {
				overlaps++
			}
		}
		if last {
			possible[x.size] = true
		}
	}
	cats = append(cats, "x", "y", "new1", "new2")
	size := 0
	for _, cat := range cats {
		var ids []string
		for i := 0; i < 30; i++ {
			_, tr := coll.NewTrace(bg, cat)
			tr.Finish()
			ids = append(ids, tr.ID())
		}
		_, got := c08Find(c, coll, trc.Filter{Category: cat})
		if size == 0 {
			size = len(got)
		}
		if len(got) != size || !possible[size] {
			c.Violate("after concurrent resizes %v category %q holds %d traces, another one %d; possible sizes are %v", all, cat, len(got), size, possible)
			return
		}
		for i := range got {
			if got[i] != ids[len(ids)-1-i] {
				c.Violate("after concurrent resizes category %q has %s at position %d, want %s", cat, got[i], i, ids[len(ids)-1-i])
				return
			}
		}
	}
	c.Count("resizes_overlapping", overlaps/2)
	if overlaps > 0 {
		c.Seen(fmt.Sprint(possible), size, len(all), len(cats))
	}
}

func c08Find(c *mon.C, coll *trc.Collector, f trc.Filter) (*trc.SearchResponse, []string) {
	res, err := coll.Search(bg, &trc.SearchRequest{Filter: f, Limit: 250, StackDepth: -1})
	if err != nil {
		c.Violate("search: %v", err)
		return &trc.SearchResponse{}, nil
	}
	var ids []string
	seen := map[string]bool{}
	for i, st := range res.Traces {
		ids = append(ids, st.TraceID)
		if seen[st.TraceID] {
			c.Violate("trace %s is returned twice", st.TraceID)
		}
		seen[st.TraceID] = true
		if i > 0 && !mon.Newer(res.Traces[i-1], st) {
			c.Violate("position %d (%s, %s) is not older than the one before (%s, %s)", i, st.TraceID, st.TraceStarted, res.Traces[i-1].TraceID, res.Traces[i-1].TraceStarted)
		}
	}
	return res, ids
}

func c08Model(c *mon.C) {
	r := c.R
	size := 1000
	coll := trc.NewDefaultCollector()
	if mon.Chance(r, 0.9) {
		size = mon.Pick(r, 1, 2, 3, 7, 20)
		coll.SetCategorySize(size)
	}
	if mon.Chance(r, 0.3) {
		coll.SetDecorators(mon.Passthrough)
	}
	cats := []string{"a", "b"}
	for k := r.IntN(5); k > 0; k-- {
		cats = append(cats, mon.Pick(r, mon.Categories...))
	}
	want := map[string][]string{} // oldest first
	byID := map[string]trc.Trace{}
	drops := 0
	trim := func(cat string) {
		if n := len(want[cat]) - size; n > 0 {
			want[cat] = want[cat][n:]
			drops += n
		}
	}
	hist := fmt.Sprint(size, ":")
	check := func() {
		total := 0
		for cat, ids := range want {
			total += len(ids)
			f := trc.Filter{Category: cat}
			if cat == "" {
				continue // cannot be selected by category
			}
			_, got := c08Find(c, coll, f)
			if len(got) != min(len(ids), 250) {
				c.Violate("category %q holds %d traces, want the newest %d (size %d)", cat, len(got), len(ids), size)
				return
			}
			for i := range got {
				if got[i] != ids[len(ids)-1-i] {
					c.Violate("category %q: position %d is %s, want %s", cat, i, got[i], ids[len(ids)-1-i])
					return
				}
			}
		}
		res, got := c08Find(c, coll, trc.Filter{})
		if res.TotalCount != total {
			c.Violate("the collector holds %d traces, want %d", res.TotalCount, total)
			return
		}
		var all []string
		for _, ids := range want {
			all = append(all, ids...)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(all)))
		for i := range got {
			if got[i] != all[i] {
				c.Violate("overall position %d is %s (category %q), want %s", i, got[i], byID[got[i]].Category(), all[i])
				return
			}
		}
		for cat, ids := range want {
			if cs := res.Stats.Categories[cat]; cs == nil || cs.TotalCount() != len(ids) {
				c.Violate("category %q is counted with %v, want %d", cat, cs, len(ids))
				return
			}
		}
		c.Count("full_checks", 1)
	}
	for k := mon.Range(r, 3, 90); k > 0 && !c.Failed(); k-- {
		switch op := r.IntN(12); {
		case op < 7:
			n := mon.Pick(r, 1, 1, 2, size+1, 5)
			if n > 60 {
				n = 60
			}
			cat := mon.Pick(r, cats...)
			hist += fmt.Sprintf("c%d%s", n, cat)
			for ; n > 0; n-- {
				_, tr := coll.NewTrace(bg, cat)
				byID[tr.ID()] = tr
				want[cat] = append(want[cat], tr.ID())
				trim(cat)
				if mon.Chance(r, 0.7) {
					tr.Tracef("x")
					tr.Finish()
				}
			}
		case op < 8:
			for _, ids := range want {
				if len(ids) > 0 && mon.Chance(r, 0.5) {
					byID[ids[r.IntN(len(ids))]].Finish()
				}
			}
		case op < 10:
			n := mon.Pick(r, 0, -1, -1000, size, size+1, size-1, 1, 2, 5, 12, 100, size*2)
			hist += fmt.Sprintf("r%d", n)
			if coll.SetCategorySize(n) != coll {
				c.Violate("SetCategorySize returned another collector")
			}
			if n > 0 {
				size = n
				for cat := range want {
					trim(cat)
				}
			}
		default:
			check()
		}
	}
	check()
	if drops > 0 {
		c.Seen(hist)
	}
	c.Count("drops", drops)
	c.Count("traces", len(byID))
	c.Sample("history %s, %d displaced", hist, drops)
}

func c08Default(c *mon.C) {
	coll := trc.NewCollector(trc.CollectorConfig{Source: "d"})
	excess := mon.Pick(c.R, 0, 1, 17, 300, 1000, -1)
	var ids []string
	for i := 0; i < 1000+excess; i++ {
		_, tr := coll.NewTrace(bg, "cat")
		ids = append(ids, tr.ID())
		if i%3 != 0 {
			tr.Finish()
		}
	}
	held := map[string]bool{}
	var res *trc.SearchResponse
	for at := 0; at < len(ids); at += 250 {
		part := ids[at:min(at+250, len(ids))]
		var got []string
		res, got = c08Find(c, coll, trc.Filter{IDs: part})
		for _, id := range got {
			held[id] = true
		}
	}
	for i, id := range ids {
		if want := i >= len(ids)-1000; held[id] != want {
			c.Violate("trace %d of %d: found %v, want %v", i, len(ids), held[id], want)
			return
		}
	}
	if want := min(1000, len(ids)); res.TotalCount != want {
		c.Violate("total %d, want %d", res.TotalCount, want)
	}
	c.Seen(excess)
}

func c08Many(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	n, size := mon.Pick(r, 100, 300, 700, 1500), mon.Pick(r, 1, 2, 3)
	form := mon.Pick(r, "cat%d", strings.Repeat("x", mon.Pick(r, 70, 150, 300, 1100))+"%d", "%d"+strings.Repeat("é", 80), "/a/%d", " %d ")
	name := func(i int) string { return fmt.Sprintf(form, i) }
	if mon.Chance(r, 0.3) {
		n, size = mon.Pick(r, 1, 2), mon.Pick(r, 1100, 2500, 6000)
	} else if mon.Chance(r, 0.2) {
		n = 64
		name = func(i int) string { // differ in case only
			b := []byte("abcdef")
			for k := range b {
				if i&(1<<k) != 0 {
					b[k] -= 'a' - 'A'
				}
			}
			return string(b)
		}
	}
	if mon.Race() {
		n, size = min(n, 100), min(size, 1100)
	}
	early := mon.Chance(r, 0.5)
	if early {
		coll.SetCategorySize(size)
	}
	want := make([][]string, n)
	for k := 0; k < n*size+mon.Pick(r, 0, 1, n/2, n*2); k++ {
		i := k % n
		if mon.Chance(r, 0.2) {
			i = r.IntN(n)
		}
		_, tr := coll.NewTrace(bg, name(i))
		if tr.Category() != name(i) {
			c.Violate("category %.400q of a trace created in %.400q", tr.Category(), name(i))
			return
		}
		want[i] = append(want[i], tr.ID())
		lim := 1000
		if early {
			lim = size
		}
		if m := len(want[i]); m > lim {
			want[i] = want[i][m-lim:]
		}
		if k%3 == 0 {
			tr.Finish()
		}
	}
	if !early {
		coll.SetCategorySize(size)
		for i := range want {
			if m := len(want[i]); m > size {
				want[i] = want[i][m-size:]
			}
		}
	}
	var all []string
	for _, ids := range want {
		all = append(all, ids...)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(all)))
	res, got := c08Find(c, coll, trc.Filter{})
	if res.TotalCount != len(all) || len(got) != min(250, len(all)) {
		c.Violate("%d categories of size %d: %d traces held, %d returned, want %d", n, size, res.TotalCount, len(got), len(all))
		return
	}
	for i := range got {
		if got[i] != all[i] {
			c.Violate("%d categories of size %d: position %d is %s, want %s", n, size, i, got[i], all[i])
			return
		}
	}
	for k := 0; k < 40; k++ {
		i := r.IntN(n)
		if k == 0 {
			i = n - 1
		}
		if cs := res.Stats.Categories[name(i)]; len(want[i]) > 0 && (cs == nil || cs.TotalCount() != len(want[i])) {
			c.Violate("category %.400q is counted with %v, want %d", name(i), cs, len(want[i]))
			return
		}
		_, got := c08Find(c, coll, trc.Filter{Category: name(i)})
		if len(got) != min(250, len(want[i])) {
			c.Violate("category %.400q returns %d traces, want %d", name(i), len(got), len(want[i]))
			return
		}
		for j := range got {
			if got[j] != want[i][len(want[i])-1-j] {
				c.Violate("category %.400q: position %d is %s, want %s", name(i), j, got[j], want[i][len(want[i])-1-j])
				return
			}
		}
	}
	// the oldest of the largest, by ID
	for k := 0; k < 4; k++ {
		i := r.IntN(n)
		if len(want[i]) == 0 {
			continue
		}
		old := want[i][0]
		if _, got := c08Find(c, coll, trc.Filter{IDs: []string{old}}); len(got) != 1 || got[0] != old {
			c.Violate("the oldest of %d traces in category %.400q is not found", len(want[i]), name(i))
			return
		}
	}
	c.Count("traces", len(all))
	c.Seen(n, size, len(form), early)
}

type c08Rec struct {
	id, cat    string
	start, end int64
}

type c08Resize struct {
	start, end int64
	size       int
}

type c08Search struct {
	cat        string // "" is all
	start, end int64
	ids        map[string]bool
}

func c08Concurrent(c *mon.C) {
	r := c.R
	coll := trc.NewDefaultCollector()
	first := mon.Pick(r, 1, 3, 8, 20)
	coll.SetCategorySize(first)
	cats := []string{"a", "b", "c", "d", "e", "f"}[:mon.Range(r, 1, 6)]
	creators, each := mon.Range(r, 1, 5), mon.Pick(r, 5, 20, 40)
	recs := make([][]c08Rec, creators)
	searches := make([][]c08Search, 3)
	resizes := []c08Resize{{-2, -1, first}}
	held := make([][]trc.Trace, creators)
	var fns []func()
	for w := 0; w < creators; w++ {
		rr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < each; i++ {
				x := c08Rec{cat: mon.Pick(rr, cats...)}
				x.start = mono()
				_, tr := coll.NewTrace(bg, x.cat)
				x.end = mono()
				x.id = tr.ID()
				held[w] = append(held[w], tr)
				recs[w] = append(recs[w], x)
				if mon.Chance(rr, 0.5) {
					tr.Tracef("e")
					tr.Finish()
				}
				if mon.Chance(rr, 0.1) {
					time.Sleep(time.Duration(rr.IntN(100)) * time.Microsecond)
				}
				if mon.Chance(rr, 0.15) {
					// findable as soon as creation has returned
					s := c08Search{cat: x.cat, start: mono(), ids: map[string]bool{}}
					_, ids := c08Find(c, coll, trc.Filter{Category: x.cat})
					s.end = mono()
					for _, id := range ids {
						s.ids[id] = true
					}
					searches[2] = append(searches[2][:len(searches[2]):len(searches[2])], s)
				}
			}
		})
		if w > 0 { // only the first creator may use the shared slot
			fns[w] = c08NoSearch(coll, cats, sub(r), each, &recs[w], &held[w])
		}
	}
	if mon.Chance(r, 0.7) {
		rr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < 12; i++ {
				x := c08Resize{size: mon.Pick(rr, 1, 2, 5, 10, 30, 0, -5)}
				x.start = mono()
				coll.SetCategorySize(x.size)
				x.end = mono()
				if x.size > 0 {
					resizes = append(resizes, x)
				}
				if mon.Chance(rr, 0.5) {
					time.Sleep(time.Duration(rr.IntN(200)) * time.Microsecond)
				}
			}
		})
	}
	for w := 0; w < 2; w++ {
		rr := sub(r)
		fns = append(fns, func() {
			for i := 0; i < 25; i++ {
				s := c08Search{ids: map[string]bool{}}
				if mon.Chance(rr, 0.7) {
					s.cat = mon.Pick(rr, cats...)
				}
				s.start = mono()
				_, ids := c08Find(c, coll, trc.Filter{Category: s.cat})
				s.end = mono()
				for _, id := range ids {
					s.ids[id] = true
				}
				searches[w] = append(searches[w], s)
			}
		})
	}
	parallel(fns...)
	byCat := map[string][]c08Rec{}
	known := map[string]c08Rec{}
	for _, xs := range recs {
		for _, x := range xs {
			byCat[x.cat] = append(byCat[x.cat], x)
			known[x.id] = x
		}
	}
	sig := ""
	verify := func(s c08Search, what string) {
		for id := range s.ids {
			x, ok := known[id]
			if !ok || s.cat != "" && x.cat != s.cat {
				c.Violate("%s: returns trace %s, which was not created in category %q", what, id, s.cat)
				return
			}
			if x.start > s.end {
				c.Violate("%s: returns a trace created later", what)
				return
			}
		}
		for _, cat := range cats {
			if s.cat != "" && s.cat != cat {
				continue
			}
			xs := byCat[cat]
			// the oldest returned, by the end of its creation
			oldest := int64(1 << 62)
			n := 0
			for _, x := range xs {
				if s.ids[x.id] {
					n++
					oldest = min(oldest, x.end)
				}
			}
			for _, y := range xs {
				if s.ids[y.id] || y.end >= s.start {
					continue
				}
				if y.start > oldest {
					c.Violate("%s: category %q is not an unbroken run: %s is missing although an older trace is returned", what, cat, y.id)
					return
				}
				// can it have been displaced?
				others := 0
				for _, z := range xs {
					if z.id != y.id && z.end > y.start && z.start < s.end {
						others++
					}
				}
				least := 1 << 30
				for i, rz := range resizes {
					if rz.start > s.end || i+1 < len(resizes) && resizes[i+1].end < y.start {
						continue
					}
					least = min(least, rz.size)
				}
				if others < least {
					c.Violate("%s: trace %s of category %q is missing, although at most %d traces can have been added after it and the size was never below %d", what, y.id, cat, others, least)
					return
				}
			}
			if len(sig) < 300 {
				sig += fmt.Sprint(n, ",")
			}
		}
	}
	for w := range searches {
		for i, s := range searches[w] {
			verify(s, fmt.Sprintf("search %d.%d", w, i))
		}
		c.Count("searches", len(searches[w]))
	}
	// quiescent
	size := resizes[len(resizes)-1].size
	for _, cat := range cats {
		s := c08Search{cat: cat, start: mono(), ids: map[string]bool{}}
		res, ids := c08Find(c, coll, trc.Filter{Category: cat})
		s.end = mono()
		for _, id := range ids {
			s.ids[id] = true
		}
		verify(s, "afterwards")
		if len(ids) > size {
			c.Violate("category %q holds %d traces, more than its size %d", cat, len(ids), size)
		}
		if cs := res.Stats.Categories[cat]; cs != nil && cs.TotalCount() != len(ids) {
			c.Violate("category %q counts %d traces and returns %d", cat, cs.TotalCount(), len(ids))
		}
		var newer []string
		for i := 0; i < size+2; i++ {
			_, tr := coll.NewTrace(bg, cat)
			newer = append(newer, tr.ID())
			_, ids2 := c08Find(c, coll, trc.Filter{Category: cat})
			if want := min(size, len(ids)+i+1); len(ids2) != want || ids2[0] != tr.ID() {
				c.Violate("category %q holds %d traces after %d more creations, want %d (size %d)", cat, len(ids2), i+1, want, size)
				return
			}
		}
		_ = newer
	}
	c.Count("creations", len(known))
	c.Count("resizes", len(resizes)-1)
	c.Seen(sig)
	c.Sample("%d creators x %d in %d categories, %d resizes, result sizes %s", creators, each, len(cats), len(resizes)-1, sig)
}

func c08NoSearch(coll *trc.Collector, cats []string, r interface{ IntN(int) int }, each int, recs *[]c08Rec, held *[]trc.Trace) func() {
	return func() {
		for i := 0; i < each; i++ {
			x := c08Rec{cat: cats[r.IntN(len(cats))]}
			x.start = mono()
			_, tr := coll.NewTrace(context.Background(), x.cat)
			x.end = mono()
			x.id = tr.ID()
			*held = append(*held, tr)
			*recs = append(*recs, x)
			if r.IntN(2) == 0 {
				tr.Tracef("e")
				tr.Finish()
			}
		}
	}
}
