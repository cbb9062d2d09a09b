// Package props holds one test per property of /verif/properties.jsonl. Each draws cases
// with rapid and decides them with an oracle over package ref. A case is plain data: the
// shrunk failing case is written out as JSON and can be replayed without rapid.
package props

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Environment, set by /verif/check:
//
//	VERIF_SEED    base seed
//	VERIF_TIER    quick or thorough
//	VERIF_STATS   file the counters go to
//	VERIF_FAIL    file the failing case goes to
//	VERIF_CURRENT file the case being run goes to, for checks that can take the process down
//	VERIF_REPLAY  case file to replay instead of generating
//	VERIF_SHARD   "i/n": this process is one of n that split a thorough run
//	VERIF_FUZZ    "C07/deframe": the phase coverage-guided fuzzing drives (see fuzz_test.go)
var (
	envSeed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	thorough   = os.Getenv("VERIF_TIER") == "thorough"
	scale, _   = strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64)
	shardI     int
	shardN     = 1
)

// Hex is a byte string that reads as hex in JSON.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) (err error) {
	var s string
	if err = json.Unmarshal(b, &s); err != nil {
		return err
	}
	*h, err = hex.DecodeString(s)
	return err
}

// Info collects what a case was like.
type Info struct {
	labels     []string
	nontrivial bool
}

func (i *Info) Label(format string, a ...any) {
	i.labels = append(i.labels, fmt.Sprintf(format, a...))
}

// NonTrivial marks the case as non-trivial if cond holds.
func (i *Info) NonTrivial(cond bool) {
	if cond {
		i.nontrivial = true
	}
}

type failFile struct {
	Property string          `json:"property"`
	Phase    string          `json:"phase"`
	Kind     string          `json:"kind"` // fail, hang, crash
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type stats struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Hashes      []uint64       `json:"hashes"` // of the distinct non-trivial cases
	seen        map[uint64]bool
}

// Suite is one property's run: several phases share its counters.
type Suite struct {
	t        *testing.T
	id       string
	st       stats
	crashy   bool
	replayed bool
}

// NewSuite starts the run of a property. crashy: failures may kill the process, so the
// case being run is kept in VERIF_CURRENT.
func NewSuite(t *testing.T, id string, crashy bool) *Suite {
	s := &Suite{t: t, id: id, crashy: crashy}
	s.st = stats{Property: id, Labels: map[string]int{}, seen: map[uint64]bool{}}
	t.Cleanup(s.finish)
	return s
}

func (s *Suite) finish() {
	if fuzz != nil {
		return
	}
	if replay != nil {
		if !s.replayed {
			fmt.Fprintf(realStdout, "REPLAY-NOPHASE\n")
			os.Exit(4)
		}
		return
	}
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		var ls []string
		for l, n := range s.st.Labels {
			ls = append(ls, fmt.Sprintf("%s=%d", l, n))
		}
		sort.Strings(ls)
		fmt.Fprintf(realStdout, "%s: %d cases, %d non-trivial (%d distinct): %s\n", s.id, s.st.Evaluations, s.st.NonTrivial, len(s.st.seen), strings.Join(ls, " "))
		return
	}
	for h := range s.st.seen {
		s.st.Hashes = append(s.st.Hashes, h)
	}
	b, err := json.Marshal(&s.st)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "stats:", err)
		os.Exit(3)
	}
}

var (
	replay     *failFile
	realStdout = os.Stdout
	// what the watchdog looks at
	running atomic.Pointer[runningCase]
)

type runningCase struct {
	id, phase string
	c         any
	since     time.Time
}

// hangAfter is how long one case may take. Cases take micro- or milliseconds; a case that
// hits this limit is replayed by the driver before anything is reported.
const hangAfter = 30 * time.Second

// limit is how long the case may take.
func (r *runningCase) limit() time.Duration {
	if c, ok := r.c.(interface{ idle() time.Duration }); ok {
		return hangAfter + c.idle()
	}
	return hangAfter
}

// maxHeap is far beyond what any case needs; it keeps a case that allocates without end
// from taking the machine down.
const maxHeap = 3 << 30

func TestMain(m *testing.M) {
	flag.Parse()
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err == nil {
			replay = new(failFile)
			err = json.Unmarshal(b, replay)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(3)
		}
	}
	if sh := os.Getenv("VERIF_SHARD"); sh != "" {
		fmt.Sscanf(sh, "%d/%d", &shardI, &shardN)
	}
	if envSeed == 0 {
		envSeed = 1
	}
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "15s"))
	// The library reports invalid frames on standard output.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	go watchdog()
	code := m.Run()
	os.Exit(code)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func watchdog() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		r := running.Load()
		if r == nil {
			continue
		}
		metrics.Read(heap)
		why := ""
		switch {
		case heap[0].Value.Uint64() > maxHeap:
			why = fmt.Sprintf("more than %d MB allocated", maxHeap>>20)
		case time.Since(r.since) >= r.limit():
			why = fmt.Sprintf("no result after %v", r.limit())
		default:
			continue
		}
		writeFail(os.Getenv("VERIF_FAIL"), r.id, r.phase, "hang", why, r.c)
		debug.SetTraceback("all")
		fmt.Fprintf(os.Stderr, "HANG %s/%s\n", r.id, r.phase)
		os.Exit(7)
	}
}

func writeFail(path, id, phase, kind, msg string, c any) {
	if path == "" {
		b, _ := json.Marshal(c)
		fmt.Fprintf(os.Stderr, "%s/%s %s: %s\ncase: %s\n", id, phase, kind, msg, b)
		return
	}
	cb, err := json.Marshal(c)
	must(err)
	b, err := json.MarshalIndent(failFile{id, phase, kind, msg, cb}, "", " ")
	must(err)
	tmp := fmt.Sprintf("%s.%d", path, os.Getpid()) // fuzzing has several processes
	must(os.WriteFile(tmp, append(b, '\n'), 0o644))
	must(os.Rename(tmp, path))
}

func seedFor(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, envSeed, "/", shardI)
	for _, p := range parts {
		fmt.Fprint(h, "/", p)
	}
	if v := h.Sum64() & 0x7fffffffffffffff; v != 0 {
		return v
	}
	return 1
}

// N is the number of cases of a phase: quick in the quick tier, thor (per shard) in the thorough one.
func N(quick, thor int) int {
	n := quick
	if thorough {
		n = thor
	}
	if scale > 0 { // for experiments
		n = max(20, int(float64(n)*scale))
	}
	return n
}

// Phase generates n cases and checks each. check returns an error when the property is broken.
func Phase[C any](s *Suite, phase string, n int, gen func(*rapid.T) C, check func(C, *Info) error) {
	s.t.Helper()
	if replay != nil {
		if replay.Phase != phase || replay.Property != s.id {
			return
		}
		s.replayed = true
		var c C
		if err := json.Unmarshal(replay.Case, &c); err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(3)
		}
		if err := s.run(phase, c, func(i *Info) error { return check(c, i) }, &Info{}); err != nil {
			fmt.Fprintf(realStdout, "REPLAY-FAIL %s/%s: %v\n", s.id, phase, err)
			os.Exit(1)
		}
		fmt.Fprintf(realStdout, "REPLAY-OK %s/%s\n", s.id, phase)
		return
	}
	if fuzz != nil {
		if fuzz.property == s.id && fuzz.phase == phase {
			c := gen(nil) // generators draw through bits, between and byteSlice only
			if err := s.run(phase, c, func(i *Info) error { return check(c, i) }, &Info{}); err != nil {
				writeFail(os.Getenv("VERIF_FAIL"), s.id, phase, "fail", err.Error(), c)
				s.t.Fatalf("%s/%s: %v", s.id, phase, err)
			}
		}
		return
	}
	must(flag.Set("rapid.seed", strconv.FormatUint(seedFor(s.id, phase), 10)))
	must(flag.Set("rapid.checks", strconv.Itoa(n)))

	var last any
	var lastErr error
	defer func() {
		if lastErr != nil {
			writeFail(os.Getenv("VERIF_FAIL"), s.id, phase, "fail", lastErr.Error(), last)
		}
	}()
	rapid.Check(s.t, func(t *rapid.T) {
		c := gen(t)
		info := &Info{}
		err := s.run(phase, c, func(i *Info) error { return check(c, i) }, info)
		s.count(phase, c, info)
		if err != nil {
			last, lastErr = c, err
			t.Fatalf("%s/%s: %v", s.id, phase, err)
		}
	})
}

func (s *Suite) run(phase string, c any, f func(*Info) error, info *Info) (err error) {
	if s.crashy {
		if p := os.Getenv("VERIF_CURRENT"); p != "" {
			if fuzz != nil {
				p += fmt.Sprintf("-%d", os.Getpid())
			}
			writeFail(p, s.id, phase, "crash", "the process died while this case ran", c)
		}
	}
	running.Store(&runningCase{s.id, phase, c, time.Now()})
	defer running.Store(nil)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	err = f(info)
	var inf infraError
	if errors.As(err, &inf) {
		fmt.Fprintln(os.Stderr, "INFRA:", err)
		os.Exit(3)
	}
	return err
}

// trimStack keeps the part of a stack that matters for a report.
func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") && (strings.Contains(l, "/repo/") || strings.Contains(l, "/props/")) {
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

const (
	maxSamples = 6
	// beyond this, distinct cases are not told apart any more (the count is a lower bound)
	maxSeen = 1000000
)

func (s *Suite) count(phase string, c any, info *Info) {
	s.st.Evaluations++
	s.st.Labels["phase:"+phase]++
	for _, l := range info.labels {
		s.st.Labels[l]++
	}
	if !info.nontrivial {
		return
	}
	s.st.NonTrivial++
	b, err := json.Marshal(c)
	must(err)
	h := fnv.New64a()
	h.Write([]byte(phase))
	h.Write(b)
	if k := h.Sum64(); !s.st.seen[k] && len(s.st.seen) < maxSeen {
		s.st.seen[k] = true
		// keep a few samples spread over the run, small ones
		if len(s.st.Samples) < maxSamples && len(b) < 1500 && len(s.st.seen)%17 == 1 {
			s.st.Samples = append(s.st.Samples, map[string]any{"phase": phase, "case": json.RawMessage(b)})
		}
	}
}
