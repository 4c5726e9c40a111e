// Package fw is the small framework every property check is written in.
//
// A check is a generator of cases (drawn with pgregory.net/rapid, so that
// shrinking works) and a pure function from a case to an error.  Cases are plain
// JSON-serialisable values: the shrunk failing case, written as JSON, is the
// replay file, and replaying it does not involve rapid at all.
package fw

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to a check function for one case.
type Ctx struct {
	nontrivial bool
	classes    []string
	discard    bool
}

// NonTrivial marks the case as non-trivial (see the check's Rule).
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Class counts the case under a label in the evidence file.
func (c *Ctx) Class(format string, args ...interface{}) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	c.classes = append(c.classes, s)
}

// Known is an exact case that is recorded as a genuine, unrepaired defect.
type Known struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Case     json.RawMessage `json:"case"`
	What     string          `json:"what"`
}

// Result of one check in one worker process.
type Result struct {
	Property    string            `json:"property"`
	Check       string            `json:"check"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      bool              `json:"failed"`
	Inconcl     string            `json:"inconclusive,omitempty"`
	Message     string            `json:"message,omitempty"`
	Case        json.RawMessage   `json:"case,omitempty"`
	WallS       float64           `json:"wall_s"`
}

// Check is one registered check.
type Check struct {
	Property string
	Name     string
	Rule     string
	Quick    int
	Thorough int
	run      func(ck *Check, n int, seed uint64, cur *os.File, known map[string]bool) *Result
	replay   func(raw json.RawMessage) error
	guided   func(ck *Check, known map[string]bool, rec *Recorder) func(*testing.T, []byte)
}

// Replaying is set while a recorded case is replayed.
var Replaying bool

// All registered checks, in registration order.
var All []*Check

// scale is how many times the number of cases its registration names a check
// runs: messages take longest, checks that wait or race are not repeated more.
func scale(property, name string) int {
	switch property {
	case "C34", "C37", "C38":
		return 1
	case "C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C21", "C36":
		return 4
	}
	switch name {
	case "pinned", "long", "growth", "clock":
		return 1
	}
	if property == "C03" {
		return 3
	}
	return 8
}

// Add registers a check.
func Add[C any](property, name, rule string, quick, thorough int, gen func(t *rapid.T) C, f func(x *Ctx, c C) error) {
	k := scale(property, name)
	ck := &Check{Property: property, Name: name, Rule: rule, Quick: quick * k, Thorough: thorough * k}
	ck.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("bad replay file: %w", err)
		}
		return protect(&Ctx{}, c, f)
	}
	ck.run = func(ck *Check, n int, seed uint64, cur *os.File, known map[string]bool) *Result {
		return runRapid(ck, n, seed, cur, known, gen, f)
	}
	ck.guided = func(ck *Check, known map[string]bool, rec *Recorder) func(*testing.T, []byte) {
		return rapid.MakeFuzz(func(rt *rapid.T) {
			c := gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(fmt.Sprintf("harness: cannot serialise the case: %v", err))
			}
			if known[string(raw)] {
				return
			}
			rec.Begin(raw)
			x := &Ctx{}
			err = protect(x, c, f)
			rec.End(x.nontrivial)
			if err != nil {
				rec.Fail(raw)
				rt.Fatalf("%v", err)
			}
		})
	}
	All = append(All, ck)
}

// ErrPanic is wrapped by errors that stand for a panic of the code under test.
var ErrPanic = errors.New("panic")

func protect[C any](x *Ctx, c C, f func(*Ctx, C) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v at %s", ErrPanic, r, panicSite())
		}
	}()
	return f(x, c)
}

// Try runs f and returns its panic, if any, as an error.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%w: %v at %s", ErrPanic, r, panicSite())
		}
	}()
	f()
	return nil
}

func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.File, "/repo/") || strings.Contains(f.Function, "use-go/gosips") {
			i := strings.LastIndex(f.File, "/")
			out = append(out, fmt.Sprintf("%s:%d", f.File[i+1:], f.Line))
			if len(out) == 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, " < ")
}

type tb struct {
	name   string
	failed bool
	log    []string
}

type failNow struct{}

func (t *tb) Helper()                           {}
func (t *tb) Name() string                      { return t.name }
func (t *tb) Logf(f string, a ...interface{})   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...interface{})              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...interface{})  { panic("skip") }
func (t *tb) Skip(a ...interface{})             { panic("skip") }
func (t *tb) SkipNow()                          { panic("skip") }
func (t *tb) Errorf(f string, a ...interface{}) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...interface{})            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...interface{})            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                          { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

// HangCPU is the processor time one case may use before it counts as not
// terminating; every case takes well under 0.1 s of it when the code is sound.
const HangCPU = 20 * time.Second

// HangWall is the same for a case that blocks without using the processor.
const HangWall = 180 * time.Second

// MaxHeap is the heap one case may grow to; inputs are a few kilobytes.
const MaxHeap = 3 << 30

// Exit codes of a worker.
const (
	ExitHang = 91
	ExitMem  = 92
)

// CPUTime is the processor time this process has used.
func CPUTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type progress struct {
	mu    chan struct{}
	seq   int64
	busy  bool
	since time.Time
	cpu   time.Duration
}

var prog = &progress{mu: make(chan struct{}, 1)}

func (p *progress) begin() {
	p.mu <- struct{}{}
	p.seq++
	p.busy = true
	p.since = time.Time{}
	<-p.mu
}
func (p *progress) end() {
	p.mu <- struct{}{}
	p.busy = false
	<-p.mu
}

// Watchdog ends the process when the case being run does not terminate or
// eats memory without bound.
func Watchdog() {
	go func() {
		var seq int64
		var since time.Time
		var cpu time.Duration
		for {
			time.Sleep(200 * time.Millisecond)
			prog.mu <- struct{}{}
			s, busy := prog.seq, prog.busy
			<-prog.mu
			if !busy || s != seq {
				seq, since, cpu = s, time.Now(), CPUTime()
				continue
			}
			if CPUTime()-cpu > HangCPU || time.Since(since) > HangWall {
				fmt.Fprintln(os.Stderr, "watchdog: case does not terminate")
				os.Exit(ExitHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > MaxHeap {
				fmt.Fprintln(os.Stderr, "watchdog: case eats memory without bound")
				os.Exit(ExitMem)
			}
		}
	}()
}

func runRapid[C any](ck *Check, n int, seed uint64, cur *os.File, known map[string]bool, gen func(t *rapid.T) C, f func(*Ctx, C) error) *Result {
	res := &Result{Property: ck.Property, Check: ck.Name, Rule: ck.Rule, Classes: map[string]int{}}
	start := time.Now()
	seen := map[[16]byte]bool{}
	var lastFail json.RawMessage
	var lastMsg string
	failing := false
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.nofailfile", "true")
	shrink := os.Getenv("VERIF_SHRINK") // by hand only: "0s" for campaigns that need no small case
	if shrink == "" {
		shrink = "20s"
	}
	flag.Set("rapid.shrinktime", shrink)
	t := &tb{name: "verif/" + ck.Property + "/" + ck.Name}
	sampleAt := map[int]bool{1: true, 2: true}
	for i := 5; i < 100000000; i *= 5 {
		sampleAt[i] = true
	}
	nontrivialSeen := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			c := gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(fmt.Sprintf("harness: cannot serialise the case: %v", err))
			}
			if known[string(raw)] {
				return
			}
			if cur != nil {
				hdr := fmt.Sprintf("%-20d\n", len(raw))
				cur.WriteAt(append([]byte(hdr), raw...), 0)
			}
			x := &Ctx{}
			prog.begin()
			err = protect(x, c, f)
			prog.end()
			if !failing {
				res.Evaluations++
				for _, cl := range x.classes {
					res.Classes[cl]++
				}
				if x.nontrivial {
					h := sha256.Sum256(raw)
					var k [16]byte
					copy(k[:], h[:])
					if !seen[k] {
						seen[k] = true
						nontrivialSeen++
						if sampleAt[nontrivialSeen] && len(res.Samples) < 6 && len(raw) < 4000 {
							res.Samples = append(res.Samples, append(json.RawMessage{}, raw...))
						}
					}
				}
			}
			if err != nil {
				failing = true
				lastFail = append(json.RawMessage{}, raw...)
				lastMsg = err.Error()
				rt.Fatalf("%v", err)
			}
		})
	}()
	res.Distinct = len(seen)
	res.WallS = time.Since(start).Seconds()
	if t.failed {
		if lastFail == nil {
			res.Inconcl = strings.Join(t.log, "\n")
		} else {
			res.Failed = true
			res.Case = lastFail
			res.Message = lastMsg
		}
	}
	return res
}

// Seed derives the generator seed of a check from VERIF_SEED; never 0.
func Seed(vseed int64, ck *Check, round int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", vseed, ck.Property, ck.Name, round)
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

// RunCheck runs one check in this process.
func RunCheck(ck *Check, n int, seed uint64, curPath string, known []Known) *Result {
	debug.SetMaxStack(256 << 20)
	Watchdog()
	var cur *os.File
	if curPath != "" {
		var err error
		if cur, err = os.OpenFile(curPath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600); err != nil {
			cur = nil
		}
	}
	km := map[string]bool{}
	for _, k := range known {
		if k.Property == ck.Property && k.Check == ck.Name {
			km[Compact(k.Case)] = true
		}
	}
	return ck.run(ck, n, seed, cur, km)
}

// Compact renders JSON without insignificant space.
func Compact(raw json.RawMessage) string {
	var o bytes.Buffer
	if err := json.Compact(&o, raw); err != nil {
		return string(raw)
	}
	return o.String()
}

// ReplayCase replays one case of a check in this process.
func ReplayCase(ck *Check, raw json.RawMessage) error {
	debug.SetMaxStack(256 << 20)
	Watchdog()
	prog.begin()
	defer prog.end()
	return ck.replay(raw)
}

// Find looks a check up.
func Find(property, name string) *Check {
	for _, c := range All {
		if c.Property == property && c.Name == name {
			return c
		}
	}
	return nil
}

// Properties lists the properties that have checks.
func Properties() []string {
	m := map[string]bool{}
	for _, c := range All {
		m[c.Property] = true
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Hash is a short name for a case.
func Hash(raw []byte) string {
	h := sha256.Sum256(raw)
	return hex.EncodeToString(h[:6])
}
