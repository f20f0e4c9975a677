package web

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/trcweb"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"verif.local/trcmon/mon"
)

func TestC19(t *testing.T) {
	m := mon.Start(t, "C19")
	defer m.Done()
	m.Rule("page: pages over random traces whose event texts, stacks, IDs, categories, sources, queries and problems are hostile strings, with random filters; each page is parsed and compared, element by element, attribute by attribute and script by script, with the page over the same traces with harmless strings, and the texts of all events must be there in full and in order; non-trivial: a trace was shown; distinct by request and strings")
	m.Cases("page", mon.N(700, 40), c19Page)
	m.Rule("links: every link on such a page is followed; what it requests must be exactly the category, source, ID, query and sources it stands for; distinct by strings")
	m.Cases("links", mon.N(400, 25), c19Links)
	m.Rule("highlight: the page's script that highlights matches runs against recording elements; what it makes of an event's text must have the same text and no elements but marks; distinct by text and query")
	m.Cases("highlight", mon.N(60, 3), c19Highlight)
	m.Rule("render: pages over arbitrary collector content (no traces, no events, odd durations and times, traces that are being written) and malformed parameters; each must be rendered; distinct by kind")
	m.Cases("render", mon.N(600, 60), c19Render)
}

var hostile = []string{
	`<script>evil%s()</script>`, `"><img src=x onerror=evil%s()>`, `' onmouseover='evil%s()`, `" onclick="evil%s()" x="`, `</script><b>%s</b>`, `</style><i>%s</i>`, `<!-- %s -->`, `--><u>%s`,
	`javascript:evil%s()`, `&lt;%s&gt;`, `&amp;%s`, `%s&x=y`, `%s#frag`, `%s%%41%%zz`, `%s+plus plus`, `%s;semi;colon,comma`, `%s?q=1/2\3`, "%s`${evil()}`", `%s\u003cb\u003e`, `%s\"\'`, `{{.Secret}}%s`, `日本%s👍🏽`,
	"%s\ttab\nline", "%s\u2028sep\u2029", `a%%20b%s`, `=%s==`, `%s <a href=javascript:1>x</a>`, `%s]]>`, `*/ %s /*`, `<svg onload=evil%s>`, `%s%%`, `:%s`, `//%s`, `%s\`, `-%s-`,
}

// A twin is a hostile string and its harmless counterpart.
type twin struct{ bad, good string }

func anyTwin(r *rand.Rand, what string) twin {
	tok := strings.ReplaceAll(mon.Token(what), "~", "z")
	if mon.Chance(r, 0.15) {
		return twin{tok, tok}
	}
	s := fmt.Sprintf(hostile[r.IntN(len(hostile))], tok)
	if mon.Chance(r, 0.2) {
		s = strings.TrimSpace(s + fmt.Sprintf(hostile[r.IntN(len(hostile))], "2"))
	}
	return twin{s, tok}
}

type world struct {
	cats, srcs, colls []twin
	bad, good         []*trc.StaticTrace
	badS, goodS       trc.Searcher
	badQ, goodQ       url.Values
	problem           twin
}

func anyWorld(r *rand.Rand) *world {
	w := &world{}
	for k := mon.Range(r, 1, 5); k > 0; k-- {
		w.cats = append(w.cats, anyTwin(r, "cat"))
	}
	if mon.Chance(r, 0.15) { // the name of the page's own row for all categories
		w.cats[0].bad = "overall"
	}
	for k := mon.Range(r, 1, 4); k > 0; k-- {
		w.srcs = append(w.srcs, anyTwin(r, "src"))
	}
	now := time.Now().UTC().Add(-time.Hour)
	var badMS, goodMS trc.MultiSearcher
	var ids []twin
	for k := mon.Range(r, 1, 3); k > 0; k-- {
		name := anyTwin(r, "coll")
		w.colls = append(w.colls, name)
		var bad, good []*trc.StaticTrace
		for n := r.IntN(8); n > 0; n-- {
			now = now.Add(time.Duration(1+r.IntN(1000)) * time.Millisecond)
			cat, src := mon.Pick(r, w.cats...), mon.Pick(r, w.srcs...)
			g := mon.Static(r, cat.good, src.good, now)
			if len(g.TraceEvents) > 0 && mon.Chance(r, 0.01) { // a long trace
				for k := mon.Pick(r, 60, 250, 1100); k > 0; k-- {
					g.TraceEvents = append(g.TraceEvents, trc.Event{When: g.TraceEvents[len(g.TraceEvents)-1].When.Add(1), IsError: g.TraceErrored && mon.Chance(r, 0.1)})
				}
			}
			b := *g
			b.TraceCategory, b.TraceSource = cat.bad, src.bad
			id := twin{g.TraceID, g.TraceID}
			if mon.Chance(r, 0.3) {
				id = anyTwin(r, "id")
			}
			ids = append(ids, id)
			g.TraceID, b.TraceID = id.good, id.bad
			b.TraceEvents = mon.CopyEvents(g.TraceEvents)
			for i := range g.TraceEvents {
				t := anyTwin(r, "ev")
				if mon.Chance(r, 0.004) { // a long one
					long := strings.Repeat(" word", mon.Pick(r, 100, 500, 2000, 15000))
					t = twin{t.bad + long + t.bad, t.good + long + t.good}
				}
				g.TraceEvents[i].What, b.TraceEvents[i].What = t.good, t.bad
				if i > 0 && mon.Chance(r, 0.06) { // the same text again, at the same time
					g.TraceEvents[i].What, b.TraceEvents[i].What = g.TraceEvents[i-1].What, b.TraceEvents[i-1].What
					g.TraceEvents[i].When = g.TraceEvents[i-1].When
					b.TraceEvents[i].When = g.TraceEvents[i-1].When
				}
				for j := range g.TraceEvents[i].Stack {
					if mon.Chance(r, 0.4) {
						f, l := anyTwin(r, "fn"), anyTwin(r, "fl")
						g.TraceEvents[i].Stack[j] = trc.Frame{Function: f.good, FileLine: l.good + ":1"}
						b.TraceEvents[i].Stack[j] = trc.Frame{Function: f.bad, FileLine: l.bad + ":1"}
					}
				}
			}
			bad, good = append(bad, &b), append(good, g)
		}
		mk := func(name string, sts []*trc.StaticTrace) trc.Searcher {
			coll := trc.NewCollector(trc.CollectorConfig{Source: name})
			mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return mon.NewForeign(st) })
			return coll
		}
		badMS, goodMS = append(badMS, mk(name.bad, bad)), append(goodMS, mk(name.good, good))
		w.bad, w.good = append(w.bad, bad...), append(w.good, good...)
	}
	if mon.Chance(r, 0.3) {
		w.problem = anyTwin(r, "problem")
		badMS, goodMS = append(badMS, failSearcher{nil, errors.New(w.problem.bad)}), append(goodMS, failSearcher{nil, errors.New(w.problem.good)})
	}
	w.badS, w.goodS = badMS, goodMS
	w.badQ, w.goodQ = url.Values{}, url.Values{}
	add := func(k string, t twin) { w.badQ.Add(k, t.bad); w.goodQ.Add(k, t.good) }
	same := func(k, v string) { add(k, twin{v, v}) }
	if mon.Chance(r, 0.3) {
		add("category", mon.Pick(r, append(w.cats, anyTwin(r, "nocat"))...))
	}
	if mon.Chance(r, 0.3) {
		for _, s := range w.srcs {
			if mon.Chance(r, 0.8) {
				add("source", s)
			}
		}
	}
	if mon.Chance(r, 0.15) && len(ids) > 0 {
		for k := mon.Range(r, 1, 4); k > 0; k-- {
			add("id", mon.Pick(r, ids...))
		}
	}
	if mon.Chance(r, 0.5) {
		t := anyTwin(r, "query")
		switch r.IntN(4) {
		case 0:
			add("q", twin{"(" + t.bad, "(" + t.good})
		case 1:
			add("q", twin{"(?s).*|" + regexp.QuoteMeta(t.bad), "(?s).*|" + t.good})
		default:
			if _, err := regexp.Compile(".*|" + t.bad); err == nil {
				add("q", twin{".*|" + t.bad, ".*|" + t.good})
			}
		}
	}
	for _, k := range []string{"active", "finished", "errored", "success"} {
		if mon.Chance(r, 0.07) {
			same(k, "true")
		}
	}
	if mon.Chance(r, 0.15) {
		same("min", mon.Pick(r, "0s", "1ms", "1.5s", "1m0.5s"))
	}
	if mon.Chance(r, 0.6) {
		same("n", mon.Pick(r, "1", "10", "25", "100", "7"))
	}
	if mon.Chance(r, 0.4) {
		for _, b := range mon.Pick(r, []string{"1ms", "1s"}, []string{"100µs", "1.5s", "1h"}, []string{"0s"}, []string{"1.234567ms", "1m30.5s", "25h0m0.000000001s"}, []string{"1ns", "999.999µs", "1.234567891s", "100h"}) {
			same("b", b)
		}
	}
	if mon.Chance(r, 0.3) {
		same("stack", mon.Pick(r, "1", "-1", "2"))
	}
	return w
}

// fetch a page.
func fetch(c *mon.C, s trc.Searcher, q url.Values) (doc *html.Node, raw string) {
	return fetchWith(c, c.R, s, q, false)
}

func fetchWith(c *mon.C, r *rand.Rand, s trc.Searcher, q url.Values, slow bool) (doc *html.Node, raw string) {
	client := &local{h: &trcweb.TraceServer{Searcher: s}, c: c, slow: slow}
	req, _ := http.NewRequest("GET", "http://trc.test/traces?"+q.Encode(), nil)
	req.Header.Set("accept", mon.Pick(r, "text/html", "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", "text/html;q=0.8", "text/html; charset=utf-8", "application/xhtml+xml, text/html;q=0.9, image/webp, */*;q=0.1", "text/html;level=1, text/html;level=2;q=0.4", "text/html,*/*"))
	res, err := client.Do(req)
	if err != nil {
		return nil, ""
	}
	b, _ := io.ReadAll(res.Body)
	raw = string(b)
	if res.StatusCode != 200 || !strings.HasPrefix(res.Header.Get("content-type"), "text/html") || !strings.Contains(raw, "</html>") {
		c.Violate("the page for %s has status %d, content type %q: %.1000s", q.Encode(), res.StatusCode, res.Header.Get("content-type"), raw)
		return nil, raw
	}
	doc, err = html.Parse(strings.NewReader(raw))
	if err != nil {
		c.Violate("the page for %s cannot be parsed: %v", q.Encode(), err)
		return nil, raw
	}
	return doc, raw
}

func walk(n *html.Node, f func(*html.Node)) {
	f(n)
	for ch := n.FirstChild; ch != nil; ch = ch.NextSibling {
		walk(ch, f)
	}
}

// textOf is the text content, scripts and styles aside.
func textOf(n *html.Node) string {
	var b strings.Builder
	var rec func(*html.Node)
	rec = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		if n.DataAtom == atom.Script || n.DataAtom == atom.Style {
			return
		}
		for ch := n.FirstChild; ch != nil; ch = ch.NextSibling {
			rec(ch)
		}
	}
	rec(n)
	return b.String()
}

func attr(n *html.Node, key string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val, true
		}
	}
	return "", false
}

var (
	literals = regexp.MustCompile("\"(?:\\\\.|[^\"\\\\])*\"|'(?:\\\\.|[^'\\\\])*'|`(?:\\\\.|[^`\\\\])*`")
	hashes   = regexp.MustCompile(`[0-9a-f]{64}`)
	digits   = regexp.MustCompile(`[0-9.+eE-]*[0-9]`)
)

func code(s string) string { return digits.ReplaceAllString(literals.ReplaceAllString(s, "STR"), "#") }

// shape lists everything of a page that data must not influence.
func shape(doc *html.Node) (lines []string) {
	var rec func(*html.Node, int)
	rec = func(n *html.Node, depth int) {
		switch {
		case n.Type == html.CommentNode:
			lines = append(lines, fmt.Sprint(depth, " comment"))
		case n.Type == html.ElementNode && n.DataAtom == atom.Wbr:
			return
		case n.Type == html.ElementNode:
			var as []string
			for _, a := range n.Attr {
				switch {
				case a.Key == "selected":
				case strings.HasPrefix(a.Key, "on"):
					as = append(as, a.Key+"="+code(a.Val))
				case a.Key == "style" || a.Key == "class":
					as = append(as, a.Key+"="+strings.Join(strings.Fields(digits.ReplaceAllString(hashes.ReplaceAllString(a.Val, "HASH"), "#")), " "))
				case a.Key == "href":
					scheme := "?"
					if !strings.HasPrefix(a.Val, "?") {
						scheme, _, _ = strings.Cut(a.Val, "/")
					}
					as = append(as, "href="+scheme)
				default:
					as = append(as, a.Key)
				}
			}
			sort.Strings(as)
			lines = append(lines, fmt.Sprintf("%d <%s %s>", depth, n.Data, strings.Join(as, " ")))
			if n.DataAtom == atom.Script || n.DataAtom == atom.Style {
				for ch := n.FirstChild; ch != nil; ch = ch.NextSibling {
					lines = append(lines, code(hashes.ReplaceAllString(ch.Data, "HASH")))
				}
				return
			}
		}
		for ch := n.FirstChild; ch != nil; ch = ch.NextSibling {
			rec(ch, depth+1)
		}
	}
	rec(doc, 0)
	return lines
}

func normal(s string) string {
	return strings.NewReplacer("\x00", "\ufffd", "\r\n", "\n", "\r", "\n").Replace(s)
}

func pageRequest(q url.Values) *trc.SearchRequest {
	// what the server makes of the parameters is C16's business
	r, _ := http.NewRequest("GET", "http://trc.test/traces?"+q.Encode(), nil)
	r.Header.Set("accept", "application/json")
	var data *trcweb.SearchData
	res, err := (&local{h: &trcweb.TraceServer{Searcher: trc.MultiSearcher{trc.NewDefaultCollector()}}, c: nil}).Do(r)
	if err == nil {
		data, err = decode(res.Body)
	}
	if err != nil {
		panic(err)
	}
	return &data.Request
}

func c19Page(c *mon.C) {
	r := c.R
	if mon.Chance(r, 0.4) {
		trcweb.SetSourceLinkFunc(trcweb.SourceLinkVSCode)
		defer trcweb.SetSourceLinkFunc(func(string) (u templateURL) { return "" })
	}
	w := anyWorld(r)
	bad, _ := fetch(c, w.badS, w.badQ)
	good, _ := fetch(c, w.goodS, w.goodQ)
	if bad == nil || good == nil {
		return
	}
	a, b := shape(bad), shape(good)
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			ref := "nothing"
			if i < len(b) {
				ref = b[i]
			}
			c.Violate("the page for %s differs at %.300q from the page with harmless strings, %.300q (categories %q, sources %q)", w.badQ.Encode(), a[i], ref, w.cats, w.srcs)
			return
		}
	}
	if len(a) != len(b) {
		c.Violate("the page for %s lacks %.300q of the page with harmless strings", w.badQ.Encode(), b[len(a)])
		return
	}
	res, err := w.badS.Search(bg, pageRequest(w.badQ))
	if err != nil {
		c.Violate("direct search: %v", err)
		return
	}
	text, pos, n := textOf(bad), 0, 0
	for _, tr := range res.Traces {
		for _, ev := range tr.TraceEvents {
			i := strings.Index(text[pos:], normal(ev.What))
			if i < 0 {
				c.Violate("the page for %s does not show the text %q of an event of trace %s, or not in order", w.badQ.Encode(), ev.What, tr.TraceID)
				return
			}
			pos += i + len(normal(ev.What))
			n++
		}
	}
	for _, tr := range res.Traces {
		for _, s := range []string{tr.TraceID, tr.TraceCategory, tr.TraceSource} {
			if !strings.Contains(text, normal(s)) {
				c.Violate("the page for %s does not show %q of trace %s", w.badQ.Encode(), s, tr.TraceID)
				return
			}
		}
	}
	if w.problem.bad != "" && !strings.Contains(text, normal(w.problem.bad)) {
		c.Violate("the page for %s does not show the problem %q", w.badQ.Encode(), w.problem.bad)
	}
	if q := w.badQ.Get("q"); q != "" && !strings.HasPrefix(q, "(") {
		found := false
		walk(bad, func(n *html.Node) {
			if name, _ := attr(n, "name"); n.DataAtom == atom.Input && name == "q" {
				v, _ := attr(n, "value")
				found = v == normal(q)
			}
		})
		c.Check(found, "the page for %s does not show the query %q in its search box", w.badQ.Encode(), q)
	}
	c.Count("events_shown", n)
	c.Count("page_nodes", len(a))
	if n > 0 {
		c.Seen(w.badQ.Encode(), n)
		c.Sample("page for %s: %d nodes, %d events as text, e.g. %q", w.badQ.Encode(), len(a), n, w.bad[0].TraceCategory)
	}
}

func c19Links(c *mon.C) {
	r := c.R
	w := anyWorld(r)
	doc, _ := fetch(c, w.badS, w.badQ)
	if doc == nil {
		return
	}
	req := pageRequest(w.badQ)
	res, err := w.badS.Search(bg, copyRequest(req))
	if err != nil {
		c.Violate("direct search: %v", err)
		return
	}
	page, _ := url.Parse("http://trc.test/traces?" + w.badQ.Encode())
	srv := &trcweb.TraceServer{Searcher: w.badS}
	client := &local{h: srv, c: c}
	known := map[string]bool{}
	for name := range res.Stats.Categories {
		known[name] = true
	}
	byText := map[string][]trc.Filter{}
	followed := map[string]trc.SearchRequest{}
	n := 0
	walk(doc, func(a *html.Node) {
		href, ok := attr(a, "href")
		if a.DataAtom != atom.A || !ok || !strings.HasPrefix(href, "?") || c.Failed() {
			return
		}
		to, done := followed[href]
		if !done {
			u, err := page.Parse(href)
			if err != nil {
				c.Violate("link %q cannot be followed: %v", href, err)
				return
			}
			hreq, err := http.NewRequest("GET", u.String(), nil)
			if err != nil {
				c.Violate("link %q cannot be followed: %v", href, err)
				return
			}
			hreq.Header.Set("accept", "application/json")
			hres, err := client.Do(hreq)
			if err != nil {
				return
			}
			data, err := decode(hres.Body)
			if err != nil {
				c.Violate("link %q: %v", href, err)
				return
			}
			to = data.Request
			followed[href] = to
			n++
			// what a link asks for is something the page is about
			f := to.Filter
			if f.Category != "" && !known[f.Category] {
				c.Violate("the page for %s links to %q, which requests the category %q; there are %q", page, href, f.Category, keys(known))
			}
			if len(f.IDs) > 0 {
				if len(f.IDs) != 1 || f.Category != "" || f.Query != "" || len(f.Sources) > 0 {
					c.Violate("the page for %s links to %q, which requests %s", page, href, f)
				}
			} else if strings.Contains(href, "n=") {
				if f.Query != req.Filter.Query || fmt.Sprintf("%q", f.Sources) != fmt.Sprintf("%q", req.Filter.Sources) {
					c.Violate("the page for %s links to %q, which requests query %q and sources %q", page, href, f.Query, f.Sources)
				}
				if to.Limit != req.Limit || fmt.Sprint(to.Bucketing) != fmt.Sprint(req.Bucketing) {
					c.Violate("the page for %s links to %q, which requests limit %d and buckets %v", page, href, to.Limit, to.Bucketing)
				}
			}
		}
		byText[textOf(a)] = append(byText[textOf(a)], to.Filter)
	})
	if c.Failed() {
		return
	}
	has := func(text string, ok func(trc.Filter) bool) bool {
		for _, f := range byText[normal(text)] {
			if ok(f) {
				return true
			}
		}
		return false
	}
	for name := range known {
		if !has(name, func(f trc.Filter) bool { return f.Category == name }) {
			c.Violate("the page for %s has no link for the category %q, but %v", page, name, byText[normal(name)])
			return
		}
	}
	if known["overall"] { // a row of its own
		links := 0
		for _, f := range byText["overall"] {
			if f.Category == "overall" {
				links++
			}
		}
		for _, tr := range res.Traces {
			if tr.TraceCategory == "overall" {
				links--
			}
		}
		if links < 1 {
			c.Violate("the page for %s has no link for the category \"overall\" itself, but %v", page, byText["overall"])
		}
	}
	for _, tr := range res.Traces {
		switch {
		case !has(tr.TraceID, func(f trc.Filter) bool { return len(f.IDs) == 1 && f.IDs[0] == tr.TraceID }):
			c.Violate("the page for %s has no link for the ID %q, but %v", page, tr.TraceID, byText[normal(tr.TraceID)])
		case !has(tr.TraceSource, func(f trc.Filter) bool { return len(f.Sources) == 1 && f.Sources[0] == tr.TraceSource }):
			c.Violate("the page for %s has no link for the source %q, but %v", page, tr.TraceSource, byText[normal(tr.TraceSource)])
		case !has(tr.TraceCategory, func(f trc.Filter) bool { return f.Category == tr.TraceCategory && f.Query == "" && len(f.Sources) == 0 }):
			c.Violate("the page for %s has no link for the category %q of a trace, but %v", page, tr.TraceCategory, byText[normal(tr.TraceCategory)])
		}
	}
	// every text that is a link leads to what it names and nothing else
	for _, t := range w.cats {
		for _, f := range byText[normal(t.bad)] {
			if f.Category != t.bad && (t.bad != "overall" || f.Category != "") {
				c.Violate("the page for %s has a link %q which requests %s", page, t.bad, f)
			}
		}
	}
	for _, t := range w.srcs {
		for _, f := range byText[normal(t.bad)] {
			if len(f.Sources) != 1 || f.Sources[0] != t.bad {
				c.Violate("the page for %s has a link %q which requests %s", page, t.bad, f)
			}
		}
	}
	c.Count("links_followed", n)
	if len(known) > 0 {
		c.Seen(page.RawQuery, n)
		c.Sample("page for %s: %d different links followed, categories %q", page, n, keys(known))
	}
}

func keys(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// highlighter runs the page's script in node, with recording elements.
const highlighter = `
const vm = require("vm"), fs = require("fs");
const {script, texts} = JSON.parse(fs.readFileSync(0, "utf8"));
const esc = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&#34;");
function node(tag, text) {
	const n = {tag, kids: [], attrs: {}, raw: null, style: {}, open: false, dataset: {}, parentNode: null,
		classList: {add() {}, remove() {}, toggle() {}, contains() { return false; }},
		closest() { return {open: false, setAttribute() {}}; },
		setAttribute(k, v) { n.attrs[k] = v; }, getAttribute(k) { return n.attrs[k]; }, hasAttribute(k) { return k in n.attrs; },
		addEventListener() {}, querySelectorAll() { return []; }, querySelector() { return null; }, getElementsByTagName() { return []; },
		append(...xs) { for (const x of xs) n.kids.push(typeof x === "string" ? node("#text", x) : x); },
		appendChild(x) { n.kids.push(x); return x; },
		replaceChildren(...xs) { n.raw = null; n.kids = []; n.append(...xs); },
		insertAdjacentHTML(_, s) { n.raw = (n.raw === null ? n.innerHTML : n.raw) + s; },
		normalize() {},
	};
	if (tag === "#text") { n.text = text; n.nodeType = 3; return n; }
	n.nodeType = 1;
	if (text !== undefined) n.kids = [node("#text", text)];
	const html = x => x.tag === "#text" ? esc(x.text) : "<" + x.tag + ">" + inner(x) + "</" + x.tag + ">";
	const inner = x => x.raw !== null && x.raw !== undefined ? x.raw : x.kids.map(html).join("");
	const txt = x => x.tag === "#text" ? x.text : x.raw !== null && x.raw !== undefined ? x.raw.replace(/<[^>]*>/g, "") : x.kids.map(txt).join("");
	Object.defineProperty(n, "innerHTML", {get() { return inner(n); }, set(v) { n.kids = []; n.raw = String(v); }});
	Object.defineProperty(n, "textContent", {get() { return txt(n); }, set(v) { n.raw = null; n.kids = [node("#text", String(v))]; }});
	Object.defineProperty(n, "innerText", {get() { return txt(n); }, set(v) { n.raw = null; n.kids = [node("#text", String(v))]; }});
	Object.defineProperty(n, "firstChild", {get() { return n.kids[0] || null; }});
	Object.defineProperty(n, "childNodes", {get() { return n.kids; }});
	n.removeChild = x => { n.kids = n.kids.filter(y => y !== x); return x; };
	return n;
}
const elems = texts.map(t => node("span", t));
const root = {querySelectorAll() { return elems; }, getElementsByClassName() { return elems; }};
const document = {getElementById() { return root; }, querySelectorAll() { return elems; }, getElementsByClassName() { return elems; }, querySelector() { return root; },
	createElement(t) { return node(t); }, createTextNode(t) { return node("#text", String(t)); }, addEventListener() {}, body: {addEventListener() {}},
	createDocumentFragment() { return node("fragment"); }};
const out = {};
try {
	const sandbox = {document, window: {}, setInterval() {}, setTimeout() {}, console: {log() {}, error() {}}};
	vm.createContext(sandbox);
	vm.runInContext(script + "\nhighlightQuery();", sandbox, {timeout: 5000});
	out.html = elems.map(e => e.innerHTML);
} catch (e) { out.error = String(e); }
process.stdout.write(JSON.stringify(out));
`

func c19Highlight(c *mon.C) {
	r := c.R
	node, err := exec.LookPath("node")
	if err != nil {
		c.Count("no_node", 1)
		return
	}
	w := anyWorld(r)
	q := mon.Pick(r, "evil", "z[0-9]+z", "e", "<", "script|img", "ev")
	w.badQ = url.Values{"q": {q}, "n": {"100"}}
	doc, _ := fetch(c, w.badS, w.badQ)
	if doc == nil {
		return
	}
	var in struct {
		Script string   `json:"script"`
		Texts  []string `json:"texts"`
	}
	walk(doc, func(n *html.Node) {
		if n.DataAtom == atom.Script && n.FirstChild != nil && strings.Contains(n.FirstChild.Data, "function highlightQuery") {
			in.Script = n.FirstChild.Data
		}
	})
	for _, st := range w.bad {
		for _, ev := range st.TraceEvents {
			in.Texts = append(in.Texts, ev.What)
		}
	}
	if in.Script == "" || len(in.Texts) == 0 {
		c.Count("nothing_to_highlight", 1)
		return
	}
	b, _ := json.Marshal(in)
	cmd := exec.Command(node, "-e", highlighter)
	cmd.Stdin = strings.NewReader(string(b))
	ob, err := cmd.Output()
	var out struct {
		HTML  []string `json:"html"`
		Error string   `json:"error"`
	}
	if err != nil || json.Unmarshal(ob, &out) != nil || out.Error != "" || len(out.HTML) != len(in.Texts) {
		c.Count("script_not_runnable", 1) // not against our elements, anyway
		c.Sample("script not runnable: %v %s", err, out.Error)
		return
	}
	marked := 0
	for i, h := range out.HTML {
		nodes, err := html.ParseFragment(strings.NewReader(h), &html.Node{Type: html.ElementNode, Data: "span", DataAtom: atom.Span})
		if err != nil {
			continue
		}
		text := ""
		for _, n := range nodes {
			text += textOf(n)
			walk(n, func(n *html.Node) {
				if n.Type == html.ElementNode && n.DataAtom == atom.Mark {
					marked++
				}
				if n.Type == html.CommentNode || n.Type == html.ElementNode && n.DataAtom != atom.Mark && n.DataAtom != atom.Wbr {
					c.Violate("highlighting %q makes of the event text %q the markup %q", q, in.Texts[i], h)
				}
			})
		}
		if !c.Failed() && text != normal(in.Texts[i]) {
			c.Violate("highlighting %q makes of the event text %q the text %q", q, in.Texts[i], text)
		}
		if c.Failed() {
			return
		}
	}
	c.Count("texts_highlighted", len(in.Texts))
	c.Count("marks", marked)
	if marked > 0 {
		c.Seen(q, in.Texts[0])
		c.Sample("query %q: %d texts, %d marks", q, len(in.Texts), marked)
	}
}

func c19Render(c *mon.C) {
	r := c.R
	coll := trc.NewCollector(trc.CollectorConfig{Source: mon.Pick(r, "", "s", "<s>")})
	kind := mon.Pick(r, "empty", "odd", "live", "literal")
	var sts []*trc.StaticTrace
	var s trc.Searcher = coll
	switch kind {
	case "odd":
		for i, n := 0, mon.Range(r, 1, 6); i < n; i++ {
			st := mon.Static(r, mon.Pick(r, mon.Categories...), mon.Pick(r, mon.Sources...), mon.Pick(r, time.Time{}, time.Now(), time.Now().Add(time.Hour), time.Unix(0, 0), time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)))
			st.TraceDuration = mon.Pick(r, 0, -1, -time.Hour, 1, 1<<62, time.Duration(-1<<63))
			for i := range st.TraceEvents {
				st.TraceEvents[i].When = mon.Pick(r, st.TraceEvents[i].When, time.Time{}, time.Now())
				st.TraceEvents[i].What = mon.Pick(r, st.TraceEvents[i].What, "", "\x00", "\xff\xfe", strings.Repeat("long ", 20000))
			}
			sts = append(sts, st)
		}
		mon.Feed(coll, sts, func(st *trc.StaticTrace) trc.Trace { return mon.NewForeign(st) })
	case "live":
		for k := r.IntN(20); k > 0; k-- {
			_, tr := coll.NewTrace(bg, mon.Pick(r, mon.Categories...))
			for e := r.IntN(5); e > 0; e-- {
				mon.Call(tr, r.IntN(4), "%s", mon.Word(r))
			}
			if mon.Chance(r, 0.5) {
				tr.Finish()
			} else {
				done := make(chan struct{})
				defer func() { <-done }()
				go func() {
					defer close(done)
					for i := 0; i < 50; i++ {
						tr.LazyTracef("event %d", i)
					}
					tr.Finish()
				}()
			}
		}
	case "literal":
		for k := r.IntN(130); k > 0; k-- {
			coll.NewTrace(bg, fmt.Sprint("cat", k))
		}
	}
	client := &local{h: &trcweb.TraceServer{Searcher: s}, c: c}
	req, _ := http.NewRequest("GET", "http://trc.test/traces", nil)
	req.URL.RawQuery = malformedQuery(r)
	if req.URL.Query().Has("json") {
		req.URL.RawQuery = ""
	}
	req.Header.Set("accept", "text/html")
	res, err := client.Do(req)
	if err != nil {
		return
	}
	b, _ := io.ReadAll(res.Body)
	if res.StatusCode != 200 || !strings.Contains(string(b), "</html>") {
		c.Violate("%s: the page for %q has status %d: %.500s", kind, req.URL.RawQuery, res.StatusCode, b)
		return
	}
	if _, err := html.Parse(strings.NewReader(string(b))); err != nil {
		c.Violate("%s: the page for %q cannot be parsed: %v", kind, req.URL.RawQuery, err)
	}
	c.Seen(kind, req.URL.RawQuery)
	c.Count("pages", 1)
	c.Sample("%s: page for %q, %d bytes", kind, req.URL.RawQuery, len(b))
}
