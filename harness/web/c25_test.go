package web

import (
	"errors"
	"fmt"
	"html/template"
	"math/rand/v2"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"verif.local/trcmon/mon"
)

func TestC25(t *testing.T) {
	time.Local = time.FixedZone("here", -(3*60+30)*60) // pages are in the traces' own time zone
	trcweb.SetSourceLinkFunc(func(s string) template.URL { return template.URL(sourceLink(s)) })
	m := mon.Start(t, "C25")
	defer m.Done()
	m.Rule("numbers: pages over random traces and filters are parsed; the summary's rows must be the categories of the direct search and one for all of them, with its numbers; total, matched, shown, sources and problems must be those of the direct search; every number's link must request what the number counts; non-trivial: there was a category; distinct by request and numbers")
	m.Cases("numbers", mon.N(900, 60), c25Numbers)
	m.Rule("traces: the traces shown must be those of the direct search in its order, each with its start, its events with times, deltas, error marks and stacks with links to the source, whether it is active or finished, and its duration; distinct by request and traces")
	m.Cases("traces", mon.N(900, 60), c25Traces)
	m.Rule("form: submitting the page's search form, as it is or with another query or limit, must request the same as the page otherwise; distinct by request and change")
	m.Cases("form", mon.N(700, 60), c25Form)
	m.Rule("many: several pages over different traces are fetched at the same time by clients which read slowly; each is checked like those of numbers and traces; distinct as there")
	m.Cases("many", mon.N(40, 15), c25Many)
}

// sourceLink links about half of the lines.
func sourceLink(fileline string) string {
	if fileline[len(fileline)-1]%2 == 0 {
		return ""
	}
	return "https://src.test/?at=" + url.QueryEscape(fileline)
}

func classes(n *html.Node) []string {
	s, _ := attr(n, "class")
	return strings.Fields(s)
}

func isA(n *html.Node, tag atom.Atom, class string) bool {
	return n.DataAtom == tag && (class == "" || slices.Contains(classes(n), class))
}

// all lists the elements below n.
func all(n *html.Node, tag atom.Atom, class string) (ns []*html.Node) {
	walk(n, func(x *html.Node) {
		if isA(x, tag, class) {
			ns = append(ns, x)
		}
	})
	return ns
}

func withID(n *html.Node, id string) (found *html.Node) {
	walk(n, func(x *html.Node) {
		if v, ok := attr(x, "id"); ok && v == id && found == nil {
			found = x
		}
	})
	return found
}

// words is the text with its white space normalized.
func words(n *html.Node) string { return strings.Join(strings.Fields(textOf(n)), " ") }

// c25World makes traces and a request with more filters than the other pages have.
func c25World(c *mon.C) *world {
	r := c.R
	w := anyWorld(r)
	for _, k := range []string{"active", "finished", "errored", "success"} {
		if mon.Chance(r, 0.15) {
			w.badQ.Set(k, "true")
		}
	}
	if mon.Chance(r, 0.15) {
		w.badQ.Set("min", mon.Pick(r, "0s", "1ms", "50ms", "1.5s", "1m0.5s", "10us"))
	}
	if mon.Chance(r, 0.3) {
		w.badQ["source"] = []string{mon.Pick(r, w.colls...).bad}
	}
	if mon.Chance(r, 0.2) { // more problems
		ms := w.badS.(trc.MultiSearcher)
		for k := mon.Range(r, 1, 2); k > 0; k-- {
			ms = slices.Insert(ms, r.IntN(len(ms)+1), trc.Searcher(failSearcher{nil, errors.New(anyTwin(r, "problem").bad)}))
		}
		w.badS = ms
	}
	if mon.Chance(r, 0.1) {
		w.badQ.Set("n", fmt.Sprint(r.IntN(260)))
	}
	return w
}

// direct is the direct answer to the page's request.
func (w *world) direct(c *mon.C) (*trc.SearchRequest, *trc.SearchResponse) {
	req := pageRequest(w.badQ)
	raw := copyRequest(req)
	if q := w.badQ.Get("q"); !valid(q) {
		raw.Filter.Query = q // it is a problem
	}
	res, err := w.badS.Search(bg, raw)
	if err != nil {
		c.Violate("direct search: %v", err)
		return nil, nil
	}
	return req, res
}

func c25Numbers(c *mon.C) {
	w := c25World(c)
	if doc, _ := fetch(c, w.badS, w.badQ); doc != nil {
		c25NumbersOn(c, w, doc)
	}
}

func c25NumbersOn(c *mon.C, w *world, doc *html.Node) {
	req, res := w.direct(c)
	if req == nil {
		return
	}
	page := w.badQ.Encode()
	bad := func(format string, args ...any) { c.Violate("the page for %s %s", page, fmt.Sprintf(format, args...)) }

	// the line above the traces
	for id, want := range map[string]string{
		"topline-search-total":   fmt.Sprintf("total=%d", res.TotalCount),
		"topline-search-matched": fmt.Sprintf("matched=%d", res.MatchCount),
		"topline-search-shown":   fmt.Sprintf("shown=%d", len(res.Traces)),
	} {
		if n := withID(doc, id); n == nil || words(n) != want {
			got := "nothing"
			if n != nil {
				got = words(n)
			}
			bad("shows %q, want %q", got, want)
		}
	}
	if n := withID(doc, "topline-search-sources"); n == nil {
		if len(res.Sources) > 0 {
			bad("does not show the sources %q", res.Sources)
		}
	} else {
		text := textOf(n)
		if !strings.Contains(text, fmt.Sprintf("sources=%d", len(res.Sources))) {
			bad("shows sources %.200q, want %d", words(n), len(res.Sources))
		}
		for _, s := range res.Sources {
			if !strings.Contains(text, normal(s)) {
				bad("shows sources %.200q and not %q", text, s)
			}
		}
	}
	if n := withID(doc, "topline-search-problems"); n == nil {
		if len(res.Problems) > 0 || !valid(w.badQ.Get("q")) {
			bad("shows no problems, want %q", res.Problems)
		}
	} else {
		c.Count("problems", len(res.Problems))
		for _, p := range res.Problems {
			if !strings.Contains(textOf(n), normal(p)) {
				bad("shows problems %.300q and not %q", textOf(n), p)
			}
		}
		if len(res.Problems) == 0 {
			bad("shows problems %.300q where there are none", textOf(n))
		}
	}

	// the summary
	table := withID(doc, "summary")
	if table == nil {
		bad("has no summary")
		return
	}
	rows := all(table, atom.Tr, "category")
	if len(rows) != len(res.Stats.Categories)+1 {
		bad("has %d rows for %d categories", len(rows), len(res.Stats.Categories))
		return
	}
	link := func(what string, n *html.Node, want trc.Filter) {
		as := all(n, atom.A, "")
		if len(as) != 1 {
			bad("has %d links for %s", len(as), what)
			return
		}
		href, _ := attr(as[0], "href")
		u, err := url.Parse("http://trc.test/traces")
		if err == nil {
			u, err = u.Parse(href)
		}
		if err != nil {
			bad("has link %q for %s: %v", href, what, err)
			return
		}
		want.Query, want.Sources = req.Filter.Query, req.Filter.Sources
		got := pageRequest(u.Query())
		if a, b := mon.JSON(got.Filter), mon.JSON(want); a != b {
			bad("has link %q for %s, which requests %s, want %s", href, what, a, b)
		}
		if got.Limit != req.Limit || mon.JSON(got.Bucketing) != mon.JSON(req.Bucketing) {
			bad("has link %q for %s, which requests limit %d and buckets %v", href, what, got.Limit, got.Bucketing)
		}
		c.Count("links", 1)
	}
	one := func(tr *html.Node, tag atom.Atom, class string, n int) []*html.Node {
		var cells []*html.Node
		for _, x := range all(tr, tag, class) {
			cells = append(cells, x)
		}
		if len(cells) != n {
			bad("has %d cells %s in a row, want %d", len(cells), class, n)
			return nil
		}
		return cells
	}
	header := all(table, atom.Tr, "header")
	if len(header) != 1 {
		bad("has %d headers", len(header))
		return
	}
	if h := one(header[0], atom.Th, "active", 1); h != nil {
		link("active traces", h[0], trc.Filter{IsActive: true})
	}
	if h := one(header[0], atom.Th, "errored", 1); h != nil {
		link("errored traces", h[0], trc.Filter{IsErrored: true})
	}
	buckets := one(header[0], atom.Th, "bucket", len(req.Bucketing))
	for i, h := range buckets {
		if want := "≥" + req.Bucketing[i].String(); words(h) != want {
			bad("has bucket %q, want %q", words(h), want)
		}
		d := req.Bucketing[i]
		link("bucket "+d.String(), h, trc.Filter{MinDuration: &d})
	}
	cats := keysOf(res.Stats.Categories)
	overall := &trc.CategoryStats{BucketCounts: make([]int, len(req.Bucketing))}
	seen := map[string]bool{}
	for i, tr := range rows {
		f := trc.Filter{}
		cs := overall
		if i < len(rows)-1 {
			name := ""
			if n := one(tr, atom.Td, "category", 1); n != nil && len(all(n[0], atom.A, "")) == 1 {
				name = textOf(all(n[0], atom.A, "")[0])
			}
			at := slices.IndexFunc(cats, func(s string) bool { return normal(s) == name && !seen[s] })
			if at < 0 {
				bad("has a row for category %q; there are %q", name, cats)
				return
			}
			cs = res.Stats.Categories[cats[at]]
			seen[cats[at]] = true
			f.Category = cats[at]
			overall.ActiveCount += cs.ActiveCount
			overall.ErroredCount += cs.ErroredCount
			for i := range cs.BucketCounts {
				overall.BucketCounts[i] += cs.BucketCounts[i]
			}
			if overall.Oldest.IsZero() || cs.Oldest.Before(overall.Oldest) {
				overall.Oldest = cs.Oldest
			}
			if cs.Newest.After(overall.Newest) {
				overall.Newest = cs.Newest
			}
		}
		what := fmt.Sprintf("category %q", f.Category)
		if i == len(rows)-1 {
			what = "all categories"
		}
		total := cs.ActiveCount + cs.BucketCounts[0] + cs.ErroredCount
		number := func(kind string, n *html.Node, want int, f trc.Filter) {
			if got := words(n); got != strconv.Itoa(want) {
				bad("shows %q %s traces of %s, want %d", got, kind, what, want)
			}
			title, _ := attr(n, "title")
			if kind == "total" {
				if !strings.HasPrefix(title, fmt.Sprintf("%d ", total)) {
					bad("shows %q for the %s of %s, want %d", title, kind, what, want)
				}
				return
			}
			if !strings.HasPrefix(title, fmt.Sprintf("%d of %d,", want, total)) {
				bad("shows %q for the %s traces of %s, want %d of %d", title, kind, what, want, total)
			}
			link(kind+" traces of "+what, n, f)
			c.Count("numbers", 1)
		}
		if n := one(tr, atom.Td, "category", 1); n != nil {
			link(what, n[0], f)
		}
		if n := one(tr, atom.Td, "active", 1); n != nil {
			f := f
			f.IsActive = true
			number("active", n[0], cs.ActiveCount, f)
		}
		if n := one(tr, atom.Td, "errored", 1); n != nil {
			f := f
			f.IsErrored = true
			number("errored", n[0], cs.ErroredCount, f)
		}
		for i, n := range one(tr, atom.Td, "bucket", len(req.Bucketing)) {
			f := f
			d := req.Bucketing[i]
			f.MinDuration = &d
			number("≥"+d.String(), n, cs.BucketCounts[i], f)
		}
		if n := one(tr, atom.Td, "total", 1); n != nil {
			number("total", n[0], total, f)
		}
		for kind, when := range map[string]time.Time{"oldest": cs.Oldest, "newest": cs.Newest} {
			if n := one(tr, atom.Td, kind, 1); n != nil {
				if title, _ := attr(n[0], "title"); title != when.String() {
					bad("shows %s trace of %s at %q, want %q", kind, what, title, when)
				}
				if (words(n[0]) == "n/a") != when.IsZero() {
					bad("shows %s trace of %s as %q, it was at %s", kind, what, words(n[0]), when)
				}
			}
		}
		if c.Failed() {
			return
		}
	}
	if len(rows) > 1 {
		c.Seen(page, res.TotalCount, res.MatchCount, len(rows))
		c.Sample("page for %s: %d rows, %d of %d traces", page, len(rows), len(res.Traces), res.TotalCount)
	}
}

func valid(re string) bool { _, err := regexp.Compile(re); return err == nil }

func keysOf[T any](m map[string]T) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func c25Traces(c *mon.C) {
	w := c25World(c)
	if doc, _ := fetch(c, w.badS, w.badQ); doc != nil {
		c25TracesOn(c, w, doc)
	}
}

// c25Many fetches several pages at once.
func c25Many(c *mon.C) {
	r := c.R
	type page struct {
		w   *world
		r   *rand.Rand
		doc *html.Node
	}
	var pages []*page
	for k := mon.Range(r, 2, 5); k > 0; k-- {
		w := c25World(c)
		for i := mon.Range(r, 1, 2); i > 0; i-- {
			pages = append(pages, &page{w: w, r: sub(r)})
		}
	}
	var fns []func()
	for _, p := range pages {
		fns = append(fns, func() {
			for k := 0; k < 2; k++ {
				p.doc, _ = fetchWith(c, p.r, p.w.badS, p.w.badQ, true)
			}
		})
	}
	parallel(fns...)
	for _, p := range pages {
		if p.doc != nil && !c.Failed() {
			c25TracesOn(c, p.w, p.doc)
		}
		if p.doc != nil && !c.Failed() {
			c25NumbersOn(c, p.w, p.doc)
		}
	}
	c.Count("pages_at_once", len(pages))
}

func c25TracesOn(c *mon.C, w *world, doc *html.Node) {
	req, res := w.direct(c)
	if req == nil {
		return
	}
	page := w.badQ.Encode()
	divs := all(doc, atom.Div, "trace")
	if len(divs) != len(res.Traces) {
		c.Violate("the page for %s shows %d traces, want %d", page, len(divs), len(res.Traces))
		return
	}
	events := 0
	for i, st := range res.Traces {
		bad := func(format string, args ...any) {
			c.Violate("the page for %s: trace %d (%q): %s", page, i, st.TraceID, fmt.Sprintf(format, args...))
		}
		div := divs[i]
		if as := all(div, atom.A, ""); len(as) == 0 || textOf(as[0]) != normal(st.TraceID) {
			bad("is not shown where it belongs")
			return
		}
		var rows []*html.Node
		var sum *html.Node
		for _, row := range all(div, atom.Div, "event") {
			if slices.Contains(classes(row), "summary") {
				sum = row
			} else {
				rows = append(rows, row)
			}
		}
		if len(rows) != len(st.TraceEvents)+2 {
			bad("%d lines for %d events", len(rows), len(st.TraceEvents))
			return
		}
		prev := st.TraceStarted
		for k, row := range rows {
			when := st.TraceStarted
			var ev trc.Event
			switch {
			case k == len(rows)-1:
				when = st.TraceStarted.Add(st.TraceDuration)
			case k > 0:
				ev = st.TraceEvents[k-1]
				when = ev.When
			}
			if n := all(row, atom.Div, "timestamp"); len(n) != 1 || words(n[0]) != when.Format("15:04:05.000000") {
				bad("line %d does not show time %s, but %q", k, when, words(row))
				return
			}
			want := fmt.Sprintf("+%s = %s, ", when.Sub(prev), when.Sub(st.TraceStarted))
			if n := all(row, atom.Div, "delta"); len(n) != 1 {
				bad("line %d shows %d deltas", k, len(n))
				return
			} else if title, _ := attr(n[0], "title"); !strings.HasPrefix(title, want) {
				bad("line %d shows delta %q, want %q", k, title, want)
				return
			}
			prev = when
			what := all(row, atom.Div, "what")
			if len(what) != 1 {
				bad("line %d shows %d texts", k, len(what))
				return
			}
			if got := slices.Contains(classes(what[0]), "error"); got != ev.IsError {
				bad("line %d, %q, is shown as an error: %v, want %v", k, words(what[0]), got, ev.IsError)
				return
			}
			text := textOf(what[0])
			switch {
			case k == 0:
				if !strings.Contains(text, "start") {
					bad("starts with %q", text)
				}
			case k == len(rows)-1:
				if strings.Contains(text, "finished") != st.TraceFinished || strings.Contains(text, "active") == st.TraceFinished {
					bad("ends with %q, finished: %v", text, st.TraceFinished)
				}
			default:
				if n := all(what[0], atom.Span, "searchable"); len(n) != 1 || textOf(n[0]) != normal(ev.What) {
					bad("line %d shows %q, want %q", k, text, ev.What)
				}
				var fns, lines, links []string
				for _, d := range all(row, atom.Details, "stack-details") {
					walk(d, func(n *html.Node) {
						if slices.Contains(classes(n), "searchable") {
							if fn, ok := attr(n, "title"); ok {
								fns = append(fns, fn)
							} else {
								lines = append(lines, textOf(n))
								href, _ := attr(n, "href")
								links = append(links, href)
							}
						}
					})
				}
				if len(fns) != len(ev.Stack) || len(lines) != len(ev.Stack) {
					bad("line %d shows %d and %d stack frames, want %d", k, len(fns), len(lines), len(ev.Stack))
					return
				}
				for j, fr := range ev.Stack {
					if fns[j] != normal(fr.Function) || lines[j] != normal(mon.RefCompact(fr)) {
						bad("line %d shows stack frame %d as %q, %q, want %q, %q", k, j, fns[j], lines[j], fr.Function, mon.RefCompact(fr))
						return
					}
					if want := sourceLink(fr.FileLine); links[j] != want {
						bad("line %d links stack frame %d, %q, to %q, want %q", k, j, fr.FileLine, links[j], want)
						return
					}
				}
				c.Count("frames", len(ev.Stack))
			}
			events++
		}
		if sum == nil {
			bad("no duration")
			return
		}
		if n := all(sum, atom.Div, "duration"); len(n) != 1 {
			bad("%d durations", len(n))
		} else if title, _ := attr(n[0], "title"); title != st.TraceDuration.String() {
			bad("duration %q, want %s", title, st.TraceDuration)
		}
		if c.Failed() {
			return
		}
	}
	c.Count("traces", len(divs))
	c.Count("lines", events)
	if len(divs) > 0 {
		c.Seen(page, len(divs), events)
		c.Sample("page for %s: %d traces with %d lines", page, len(divs), events)
	}
}

func c25Form(c *mon.C) {
	r := c.R
	w := c25World(c)
	doc, _ := fetch(c, w.badS, w.badQ)
	if doc == nil {
		return
	}
	req, res := w.direct(c)
	if req == nil {
		return
	}
	page := w.badQ.Encode()
	form := withID(doc, "search-form")
	if form == nil {
		c.Violate("the page for %s has no search form", page)
		return
	}
	want := trc.SearchRequest{Filter: mon.CopyFilter(req.Filter), Limit: req.Limit}
	change := mon.Pick(r, "", "", "q", "n", "source")
	if strings.ContainsAny(req.Filter.Query, "\r\n\x00") {
		change = "q" // browsers do not keep these in a text box
	}
	offered := []string{}
	vals := url.Values{}
	walk(form, func(n *html.Node) {
		name, _ := attr(n, "name")
		typ, _ := attr(n, "type")
		if _, disabled := attr(n, "disabled"); disabled || name == "" || typ == "submit" || typ == "button" {
			return
		}
		switch n.DataAtom {
		case atom.Input:
			v, _ := attr(n, "value")
			if name == change && name == "q" {
				v = mon.Pick(r, "other", "", "a&b=c", "x+y z", "日本")
				want.Filter.Query = v
			}
			if v != "" {
				vals.Add(name, v)
			}
		case atom.Select:
			opts := all(n, atom.Option, "")
			value := func(o *html.Node) string {
				if v, ok := attr(o, "value"); ok {
					return v
				}
				return words(o)
			}
			at := 0
			for i, o := range opts {
				if _, ok := attr(o, "selected"); ok {
					at = i
				}
				if name == "source" {
					offered = append(offered, value(o))
				}
			}
			if name == change && len(opts) > 0 {
				at = r.IntN(len(opts))
				if v := value(opts[at]); name == "n" {
					want.Limit, _ = strconv.Atoi(v)
				} else if want.Filter.Sources = nil; v != "" {
					want.Filter.Sources = []string{v}
				}
			}
			if len(opts) > 0 && value(opts[at]) != "" {
				vals.Add(name, value(opts[at]))
			}
		}
	})
	got := pageRequest(vals)
	// the form has no place for IDs, and for one source of those that have been searched
	want.Filter.IDs = nil
	if s := want.Filter.Sources; len(s) > 1 || len(s) == 1 && !slices.Contains(offered, s[0]) {
		want.Filter.Sources = got.Filter.Sources
	}
	if len(res.Sources) > 1 {
		for _, s := range res.Sources {
			if !slices.Contains(offered, normal(s)) {
				c.Violate("the form of the page for %s does not offer source %q", page, s)
			}
		}
	}
	if a, b := mon.JSON(got.Filter), mon.JSON(want.Filter); a != b {
		c.Violate("the form of the page for %s (changed: %q) requests %s, want %s", page, change, a, b)
	}
	if got.Limit != want.Limit {
		c.Violate("the form of the page for %s (changed: %q) requests limit %d, want %d", page, change, got.Limit, want.Limit)
	}
	c.Count("forms", 1)
	c.Seen(page, change)
	c.Sample("form of the page for %s, changed %q: %s", page, change, vals.Encode())
}
