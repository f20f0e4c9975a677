// Package mon runs seeded cases against the real code and records what the
// monitors observed.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Environment given by check.py.
var (
	Seed     = envInt("VERIF_SEED", 1)
	Tier     = envStr("VERIF_TIER", "quick")
	Mode     = envStr("VERIF_MODE", "plain") // plain | race
	report   = os.Getenv("VERIF_REPORT")
	replay   = os.Getenv("VERIF_REPLAY") // family:index
	hangSecs = envInt("VERIF_HANG", 120)
	failFast = os.Getenv("VERIF_FAILFAST") != ""
)

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

func envStr(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return Tier == "thorough" }

// Race tells whether this is the race-and-perturbation mode.
func Race() bool { return Mode == "race" }

// Violation is one observed violation.
type Violation struct {
	Family  string `json:"family"`
	Index   int    `json:"index"`
	Seed    int    `json:"seed"`
	Mode    string `json:"mode"`
	Message string `json:"message"`
}

// Report is what a run writes.
type Report struct {
	Property    string           `json:"property"`
	Mode        string           `json:"mode"`
	Evaluations int              `json:"evaluations"`
	Families    map[string]int   `json:"families"`
	Hashes      []uint64         `json:"hashes"`
	Counters    map[string]int64 `json:"counters"`
	Rules       []string         `json:"rules"`
	Samples     []string         `json:"samples"`
	Known       []string         `json:"known"`
	Violations  []Violation      `json:"violations"`
	Done        bool             `json:"done"`
	Hang        string           `json:"hang,omitempty"`
}

// M is one property's monitor run.
type M struct {
	T      *testing.T
	mtx    sync.Mutex
	rep    Report
	hashes map[uint64]struct{}
	first  time.Time // when a violation was first noticed
}

var (
	current  atomic.Pointer[M]
	progress atomic.Int64
	watching atomic.Bool
	curCase  atomic.Value
)

// Beat tells the watchdog that the run makes progress.
func Beat() { progress.Add(1) }

func watchdog() {
	last, lastAt := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if p := progress.Load(); p != last {
			last, lastAt = p, time.Now()
			continue
		}
		if time.Since(lastAt) < time.Duration(hangSecs)*time.Second {
			continue
		}
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if m := current.Load(); m != nil && m.mtx.TryLock() {
			m.rep.Hang = fmt.Sprintf("no progress for %ds in case %v\n%s", hangSecs, curCase.Load(), buf)
			m.write()
		}
		os.Stderr.Write(buf)
		os.Exit(3)
	}
}

// Start a run for the property.
func Start(t *testing.T, property string) *M {
	m := &M{T: t, hashes: map[uint64]struct{}{}}
	m.rep.Property = property
	m.rep.Mode = Mode
	m.rep.Families = map[string]int{}
	m.rep.Counters = map[string]int64{}
	current.Store(m)
	curCase.Store("start")
	if watching.CompareAndSwap(false, true) {
		go watchdog()
	}
	m.flush()
	return m
}

// Done finishes the run.
func (m *M) Done() {
	m.mtx.Lock()
	m.rep.Done = true
	m.mtx.Unlock()
	m.flush()
	if n := len(m.rep.Violations); n > 0 {
		m.T.Errorf("%d violations, first: %s", n, m.rep.Violations[0].Message)
	}
	current.Store(nil)
	Beat()
}

func (m *M) flush() {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	m.write()
}

func (m *M) write() {
	if report == "" {
		return
	}
	m.rep.Hashes = m.rep.Hashes[:0]
	for h := range m.hashes {
		m.rep.Hashes = append(m.rep.Hashes, h)
		if len(m.rep.Hashes) >= 200000 {
			break
		}
	}
	b, err := json.Marshal(&m.rep)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(report+".tmp", b, 0o644); err == nil {
		os.Rename(report+".tmp", report)
	}
}

// Rule documents how a family makes cases and what makes one non-trivial.
func (m *M) Rule(format string, args ...any) {
	m.rep.Rules = append(m.rep.Rules, fmt.Sprintf(format, args...))
}

// Known reports a known finding that was observed.
func (m *M) Known(s string) {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	for _, k := range m.rep.Known {
		if k == s {
			return
		}
	}
	m.rep.Known = append(m.rep.Known, s)
}

// N picks a case count: base for quick in plain mode, a fraction under race
// mode, more in thorough.
func N(quick, raceQuick int) int {
	n := quick
	if Race() {
		n = raceQuick
	}
	if Thorough() {
		n *= envInt("VERIF_SCALE", 12)
	}
	return n
}

// C is one case.
type C struct {
	M      *M
	Family string
	Index  int
	R      *rand.Rand
	failed atomic.Int32
	nontr  bool
}

func seedFor(family string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", Seed, family, index)
	return h.Sum64()
}

// Cases runs n cases one after another.
func (m *M) Cases(family string, n int, f func(c *C)) {
	m.cases(family, n, f, false)
}

// Bubbles runs n cases one after another, each in a bubble with virtual time.
func (m *M) Bubbles(family string, n int, f func(c *C)) {
	m.cases(family, n, f, true)
}

func (m *M) cases(family string, n int, f func(c *C), bubble bool) {
	lo, hi := 0, n
	if replay != "" {
		fam, idx, ok := strings.Cut(replay, ":")
		if fam != family {
			return
		}
		if ok {
			if i, err := strconv.Atoi(idx); err == nil {
				lo, hi = i, i+1
			}
		}
	}
	begin := time.Now()
	for i := lo; i < hi && !m.enough(); i++ {
		c := &C{M: m, Family: family, Index: i, R: rand.New(rand.NewPCG(seedFor(family, i), uint64(i)))}
		curCase.Store(family + ":" + strconv.Itoa(i))
		m.note(family, i)
		if bubble {
			ok := m.T.Run(family+strconv.Itoa(i), func(t *testing.T) {
				synctest.Test(t, func(*testing.T) { c.run(f) })
			})
			if !ok && c.failed.Load() == 0 {
				c.Violate("case failed inside its bubble")
			}
		} else {
			c.run(f)
		}
		Beat()
		m.mtx.Lock()
		m.rep.Evaluations++
		m.rep.Families[family]++
		m.mtx.Unlock()
	}
	m.Add("ms_"+family, time.Since(begin).Milliseconds())
	m.flush()
}

// enough violations were found, or some were found a while ago.
func (m *M) enough() bool {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	switch n := len(m.rep.Violations); {
	case n == 0:
		return false
	case m.first.IsZero():
		m.first = time.Now()
	}
	return len(m.rep.Violations) >= 12 || failFast || time.Since(m.first) > time.Minute
}

// note the running case so that a crash can be attributed.
func (m *M) note(family string, i int) {
	if report == "" {
		return
	}
	if f, err := os.OpenFile(report+".case", os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
		f.WriteAt([]byte(fmt.Sprintf("%-40s", family+":"+strconv.Itoa(i))), 0)
		f.Close()
	}
}

func (c *C) run(f func(c *C)) {
	defer func() {
		if x := recover(); x != nil {
			c.Violate("panic: %v\n%s", x, debug.Stack())
		}
	}()
	f(c)
}

// Violate records a violation.
func (c *C) Violate(format string, args ...any) {
	if c.failed.Add(1) > 3 {
		return
	}
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "…"
	}
	m := c.M
	m.mtx.Lock()
	m.rep.Violations = append(m.rep.Violations, Violation{Family: c.Family, Index: c.Index, Seed: Seed, Mode: Mode, Message: msg})
	m.write()
	m.mtx.Unlock()
	fmt.Fprintf(os.Stderr, "violation in %s:%d: %s\n", c.Family, c.Index, msg)
}

// Failed tells whether the case has recorded a violation.
func (c *C) Failed() bool { return c.failed.Load() > 0 }

// Check records a violation if cond is false, and returns cond.
func (c *C) Check(cond bool, format string, args ...any) bool {
	if !cond {
		c.Violate(format, args...)
	}
	return cond
}

// Seen records a distinct non-trivial case or observation by its signature.
func (c *C) Seen(sig ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, c.Family)
	for _, s := range sig {
		fmt.Fprintf(h, "|%v", s)
	}
	c.M.mtx.Lock()
	c.M.hashes[h.Sum64()] = struct{}{}
	c.M.mtx.Unlock()
}

// Add to a counter.
func (m *M) Add(key string, n int64) {
	m.mtx.Lock()
	m.rep.Counters[key] += n
	m.mtx.Unlock()
}

// Count adds to a counter.
func (c *C) Count(key string, n int) { c.M.Add(key, int64(n)) }

// Sample keeps a few written out cases.
func (c *C) Sample(format string, args ...any) {
	c.M.mtx.Lock()
	defer c.M.mtx.Unlock()
	n := 0
	for _, s := range c.M.rep.Samples {
		if strings.HasPrefix(s, c.Family+":") {
			n++
		}
	}
	if n >= 2 {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	c.M.rep.Samples = append(c.M.rep.Samples, fmt.Sprintf("%s:%d %s", c.Family, c.Index, s))
}

// Pick one of the values.
func Pick[T any](r *rand.Rand, vs ...T) T { return vs[r.IntN(len(vs))] }

// Chance is true with probability p.
func Chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// Range returns a value in [lo,hi].
func Range(r *rand.Rand, lo, hi int) int { return lo + r.IntN(hi-lo+1) }
