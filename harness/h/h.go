// Package h is the small framework every property check is written on: it runs a
// generated-input property through rapid (which shrinks failures), counts the cases, decides
// which of them are distinct and non-trivial, keeps samples, and watches for hangs.
package h

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	stdlog "log"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ThinkiumGroup/go-common/log"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// ---- environment -------------------------------------------------------------------------

func envInt(name string, def int64) int64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return v
		}
	}
	return def
}

var (
	seedBase = envInt("VERIF_SEED", 1)
	shard    = envInt("VERIF_SHARD", 0)
	shards   = envInt("VERIF_SHARDS", 1)
	statsDir = os.Getenv("VERIF_STATS")
	scale    = envFloat("VERIF_SCALE", 1)
	hangSecs = envInt("VERIF_HANG_S", 120)
)

func envFloat(name string, def float64) float64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil && v > 0 {
			return v
		}
	}
	return def
}

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough reports whether the deep tier is running.
func Thorough() bool { return Tier() == "thorough" }

// Shard0 is true in exactly one of the parallel processes: enumerations run there.
func Shard0() bool { return shard == 0 }

// MyShare reports whether item i of an enumeration belongs to this process.
func MyShare(i int) bool { return int64(i)%shards == shard }

// Seed gives a reproducible non-zero seed for this (check, shard).
func Seed(name string) uint64 {
	f := fnv.New64a()
	_, _ = f.Write([]byte(name))
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], uint64(seedBase))
	binary.LittleEndian.PutUint64(b[8:], uint64(shard))
	_, _ = f.Write(b[:])
	s := f.Sum64() & 0x7fffffffffffffff
	if s == 0 {
		s = 1
	}
	return s
}

// ---- statistics --------------------------------------------------------------------------

type stat struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int64          `json:"evaluations"`
	Nontrivial  int64          `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
	digests     map[[8]byte]struct{}
	mu          sync.Mutex
}

var (
	statsMu sync.Mutex
	stats   = map[string]*stat{}
)

func getStat(name, rule string) *stat {
	statsMu.Lock()
	defer statsMu.Unlock()
	s := stats[name]
	if s == nil {
		s = &stat{Name: name, Rule: rule, Classes: map[string]int{}, digests: map[[8]byte]struct{}{}}
		stats[name] = s
	}
	return s
}

// Flush writes the statistics of this process; called from TestMain.
func Flush() {
	if statsDir == "" {
		return
	}
	statsMu.Lock()
	defer statsMu.Unlock()
	var out []map[string]interface{}
	names := make([]string, 0, len(stats))
	for n := range stats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := stats[n]
		ds := make([]string, 0, len(s.digests))
		for d := range s.digests {
			ds = append(ds, fmt.Sprintf("%x", d[:]))
		}
		out = append(out, map[string]interface{}{
			"name": s.Name, "rule": s.Rule, "evaluations": s.Evaluations, "nontrivial": s.Nontrivial,
			"classes": s.Classes, "samples": s.Samples, "digests": ds, "exhaustive": s.Exhaustive,
		})
	}
	bs, _ := json.Marshal(out)
	_ = os.WriteFile(filepath.Join(statsDir, fmt.Sprintf("stats.%d.json", shard)), bs, 0o644)
}

// Main is the TestMain of every harness package.
func Main(m *testing.M) {
	flag.Parse()
	if l, ok := log.WithField().(*logrus.Logger); ok && l != nil {
		l.SetOutput(io.Discard)
		l.SetLevel(logrus.PanicLevel)
	}
	stdlog.SetOutput(io.Discard)
	go watchdog()
	code := m.Run()
	Flush()
	os.Exit(code)
}

// ---- hang watchdog -----------------------------------------------------------------------

var (
	curMu    sync.Mutex
	curName  string
	curC     *C
	curStart time.Time
	curSeed  uint64
	busy     int32
)

func watchdog() {
	for {
		time.Sleep(time.Second)
		if atomic.LoadInt32(&busy) == 0 {
			continue
		}
		curMu.Lock()
		if curName != "" && time.Since(curStart) > time.Duration(hangSecs)*time.Second {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			msg := fmt.Sprintf("HANG: check %s (rapid seed %d, shard %d): one case ran for more than %d s\n\ncase so far:\n%s\n\nstacks:\n%s\n",
				curName, curSeed, shard, hangSecs, curC.Trace(), buf[:n])
			if statsDir != "" {
				_ = os.WriteFile(filepath.Join(statsDir, fmt.Sprintf("hang.%d.txt", shard)), []byte(msg), 0o644)
			}
			fmt.Fprintln(os.Stderr, msg)
			os.Exit(3)
		}
		curMu.Unlock()
	}
}

func enter(name string, c *C, seed uint64) {
	curMu.Lock()
	curName, curC, curStart, curSeed = name, c, time.Now(), seed
	curMu.Unlock()
	atomic.StoreInt32(&busy, 1)
}

func leave() {
	atomic.StoreInt32(&busy, 0)
	curMu.Lock()
	curName, curC = "", nil
	curMu.Unlock()
}

// ---- one case ----------------------------------------------------------------------------

// C describes one generated case: its trace (a written-out form), its classes, and whether it
// is non-trivial by the rule of the check.
type C struct {
	mu       sync.Mutex
	trace    strings.Builder
	n        int
	classes  []string
	nontriv  bool
	extraKey []byte
	lent     [][]byte
}

const (
	roomBefore = 5
	roomAfter  = 40
	canary     = 0xC5
)

// Roomy copies b into the middle of a larger array, so that the copy has spare capacity. What
// lies around the copy is not the business of the code it is given to: that it is left alone is
// seen to at the end of the case.
func (c *C) Roomy(b []byte) []byte {
	if b == nil {
		return nil
	}
	all := make([]byte, roomBefore+len(b)+roomAfter)
	for i := range all {
		all[i] = canary
	}
	copy(all[roomBefore:], b)
	c.mu.Lock()
	if len(c.lent) < 2000 {
		c.lent = append(c.lent, all)
	}
	c.mu.Unlock()
	return all[roomBefore : roomBefore+len(b)]
}

// Roomy is C.Roomy of the case under way.
func Roomy(b []byte) []byte {
	curMu.Lock()
	c := curC
	curMu.Unlock()
	if c == nil {
		return b
	}
	return c.Roomy(b)
}

// spilled is a slice that was written around, or nil.
func (c *C) spilled() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, all := range c.lent {
		for i, x := range all {
			if (i < roomBefore || i >= len(all)-roomAfter) && x != canary {
				return all
			}
		}
	}
	return nil
}

// Op adds one line to the written-out case.
func (c *C) Op(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	if c.trace.Len() < 6000 {
		if c.trace.Len() > 0 {
			c.trace.WriteString("; ")
		}
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			c.key([]byte(s))
			s = s[:600] + "..."
		}
		c.trace.WriteString(s)
	} else {
		c.key([]byte(fmt.Sprintf(format, args...)))
	}
}

func (c *C) key(b []byte) {
	d := sha256.Sum256(append(c.extraKey, b...))
	c.extraKey = d[:8]
}

// Key mixes bytes into the identity of the case without printing them.
func (c *C) Key(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.key(b)
}

// Class counts the case under a label (once per call).
func (c *C) Class(l string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.classes = append(c.classes, l)
}

// NonTrivial marks the case as satisfying the check's rule.
func (c *C) NonTrivial(b bool) {
	if b {
		c.mu.Lock()
		c.nontriv = true
		c.mu.Unlock()
	}
}

// Trace is the written-out case.
func (c *C) Trace() string {
	if c == nil {
		return ""
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.trace.String()
}

func (s *stat) add(c *C) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evaluations++
	seen := map[string]bool{}
	for _, l := range c.classes {
		if !seen[l] {
			seen[l] = true
			s.Classes[l]++
		}
	}
	if !c.nontriv {
		return
	}
	s.Nontrivial++
	d := sha256.Sum256(append([]byte(c.Trace()), c.extraKey...))
	var k [8]byte
	copy(k[:], d[:8])
	if _, ok := s.digests[k]; ok {
		return
	}
	if len(s.digests) < 2000000 {
		s.digests[k] = struct{}{}
	}
	if len(s.Samples) < 3 {
		t := c.Trace()
		if len(t) > 1200 {
			t = t[:1200] + "..."
		}
		s.Samples = append(s.Samples, t)
	}
}

// N is how many cases to run, over all shards together.
type N struct{ Quick, Thorough int }

func (n N) here() int {
	v := n.Quick
	if Thorough() {
		v = n.Thorough
		if v == 0 {
			v = n.Quick * 20
		}
	}
	v = int(float64(v) * scale)
	v = (v + int(shards) - 1) / int(shards)
	if v < 1 {
		v = 1
	}
	return v
}

// Check runs the property fn over n generated cases. rule says what makes a case non-trivial.
func Check(t *testing.T, rule string, n N, fn func(t *rapid.T, c *C)) {
	t.Helper()
	name := t.Name()
	st := getStat(name, rule)
	seed := Seed(name)
	if s := os.Getenv("VERIF_RAPID_SEED"); s != "" {
		seed, _ = strconv.ParseUint(s, 10, 64)
	}
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(n.here()))
	_ = flag.Set("rapid.shrinktime", "20s")
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{}
		enter(name, c, seed)
		ok := false
		defer func() {
			leave()
			if !ok {
				failed = true
				rt.Logf("CASE %s", c.Trace())
			} else if !failed {
				st.add(c)
			}
		}()
		fn(rt, c)
		if all := c.spilled(); all != nil {
			rt.Fatalf("the memory around the bytes %x given by the caller was written: %x", all[roomBefore:len(all)-roomAfter], all)
		}
		ok = !rt.Failed()
	})
}

// Enum runs fn over a fixed list of n cases (split over the shards); every case counts.
func Enum(t *testing.T, rule string, n int, exhaustive bool, fn func(t *testing.T, c *C, i int)) {
	t.Helper()
	enum(t, rule, n, exhaustive, MyShare, fn)
}

// EnumAll is Enum for cases which differ between the shards: every shard runs all of its own.
func EnumAll(t *testing.T, rule string, n int, fn func(t *testing.T, c *C, i int)) {
	t.Helper()
	enum(t, rule, n, false, func(int) bool { return true }, fn)
}

func enum(t *testing.T, rule string, n int, exhaustive bool, mine func(int) bool, fn func(t *testing.T, c *C, i int)) {
	t.Helper()
	name := t.Name()
	st := getStat(name, rule)
	st.Exhaustive = exhaustive
	for i := 0; i < n; i++ {
		if !mine(i) {
			continue
		}
		c := &C{}
		enter(name, c, uint64(i))
		func() {
			defer func() {
				leave()
				if r := recover(); r != nil {
					t.Fatalf("panic in enumerated case %d (%s): %v", i, c.Trace(), r)
				}
				if t.Failed() {
					t.Logf("CASE %d: %s", i, c.Trace())
				} else {
					st.add(c)
				}
			}()
			fn(t, c, i)
			if all := c.spilled(); all != nil {
				t.Errorf("the memory around the bytes %x given by the caller was written: %x", all[roomBefore:len(all)-roomAfter], all)
			}
		}()
		if t.Failed() {
			return
		}
	}
}

// ---- helpers -----------------------------------------------------------------------------

// Bytes draws a byte slice of the given length range.
func Bytes(t *rapid.T, min, max int, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), min, max).Draw(t, label)
}

// Int draws an int in [min,max].
func Int(t *rapid.T, min, max int, label string) int {
	return rapid.IntRange(min, max).Draw(t, label)
}

// Len draws a length in [0,max], and now and then one at the edge of what code might hold small.
func Len(t *rapid.T, max int, label string) int {
	if OneIn(t, 30, label+"Many") {
		return rapid.SampledFrom([]int{16, 17, 32, 33, 64, 65, 100, 130, 256, 257, 300}).Draw(t, label)
	}
	return Int(t, 0, max, label)
}

// Bool draws a boolean.
func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// OneIn is true in about one of n cases.
func OneIn(t *rapid.T, n int, label string) bool { return rapid.IntRange(0, n-1).Draw(t, label) == n-1 }

// NoPanic runs f and reports a panic as an error value.
func NoPanic(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			buf := make([]byte, 1<<14)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return nil, ""
}
