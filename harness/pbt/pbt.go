// Package pbt drives rapid: it runs each property in rounds seeded from
// VERIF_SEED, counts what was generated, records the trace of the case being
// run and writes a result file that check.py turns into the evidence.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable statement of a property.
type Prop struct {
	Name            string
	Quick, Thorough int // cases per tier
	Round           int // cases per rapid round, if not roundSize
	F               func(c *C)
}

// C is one generated case.
type C struct {
	*rapid.T
	r     *runner
	trace []string
	quiet int // steps to keep when only the last ones are recorded
	keys  []string
}

type runner struct {
	id       string
	dir      string
	prop     string
	evals    int64
	distinct map[uint64]bool
	classes  map[string]int64
	samples  []map[string]any
	perProp  map[string]int64
	short    map[string]int
	seeds    []uint64
	failing  bool // a failure was seen: stop counting, rapid is shrinking
	failAt   time.Time
	last     *failure
	mu       sync.Mutex
	traceF   *os.File
	round    int
	caseNo   int64
}

type failure struct {
	Prop    string   `json:"check"`
	Message string   `json:"message"`
	Trace   []string `json:"trace"`
	Seed    uint64   `json:"rapid_seed"`
	Fail    string   `json:"rapid_failfile,omitempty"`
	Stack   string   `json:"stack,omitempty"`
}

// Result is what the check process leaves behind.
type Result struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int              `json:"distinct_nontrivial"`
	Rule       string           `json:"rule"`
	Classes    map[string]int64 `json:"classes"`
	PerCheck   map[string]int64 `json:"per_check"`
	Short      map[string]int   `json:"cut_short,omitempty"` // cases not run for lack of time
	Samples    []map[string]any `json:"samples"`
	Exhaustive []string         `json:"exhaustive,omitempty"`
	Violation  *failure         `json:"violation,omitempty"`
	Error      string           `json:"error,omitempty"`
	Done       bool             `json:"done"`
}

// real time, also inside a synctest bubble
func RealNow() time.Time {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, tv.Usec*1000)
}

// Progress is bumped by every step; the watchdog looks at it.
var Progress atomic.Int64

// Watch starts the real-time watchdog. Call it outside any bubble. A process
// that makes no step for the given time, or whose memory grows past any bound
// the generated cases can explain, is reported as hanging (exit 3).
func Watch(d time.Duration) {
	die := func(format string, args ...any) {
		fmt.Fprintf(os.Stderr, "VERIF-HANG: "+format+"\n", args...)
		buf := make([]byte, 1<<22)
		n := stackAll(buf)
		os.Stderr.Write(buf[:n])
		os.Exit(3)
	}
	go func() {
		last, since := Progress.Load(), time.Now()
		for {
			time.Sleep(100 * time.Millisecond)
			if m := resident(); m > memLimit {
				die("%d MB of memory in use", m>>20)
			}
			if p := Progress.Load(); p != last {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > d {
				die("no step for %v", d)
			}
		}
	}()
}

const memLimit = 3 << 30

func resident() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func OutDir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = "/tmp/verif-out"
	}
	_ = os.MkdirAll(d, 0o755)
	return d
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func Seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

// Quiet keeps only the last steps recorded during f.
func (c *C) Quiet(f func()) {
	c.quiet = len(c.trace) + 1
	f()
	c.quiet = 0
}

// Tracef records a step of the case. Steps are flushed to disk so that a
// process crash leaves the history that led to it.
func (c *C) Tracef(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	Progress.Add(1)
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if c.quiet > 0 && len(c.trace) > c.quiet+60 {
		c.trace = append(c.trace[:c.quiet], c.trace[c.quiet+30:]...)
	}
	c.trace = append(c.trace, s)
	if c.r.traceF != nil {
		fmt.Fprintln(c.r.traceF, s)
	}
}

// Class counts the case in a named class.
func (c *C) Class(name string) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if !c.r.failing {
		c.r.classes[c.r.prop+"/"+name]++
	}
}

// Classf is Class when cond holds.
func (c *C) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

// NonTrivial marks the case non-trivial; key identifies it among all others.
func (c *C) NonTrivial(format string, args ...any) {
	c.keys = append(c.keys, fmt.Sprintf(format, args...))
}

type unjudged struct{}

// Skip ends the case without a verdict (too slow a machine, an address that is
// taken): it counts as evaluated, never as non-trivial.
func (c *C) Skip(why ...any) {
	c.Class("not judged: " + fmt.Sprint(why...))
	panic(unjudged{})
}

// Name-less exhaustive part: counts n evaluations at once.
func (c *C) Count(n int) { atomic.AddInt64(&c.r.evals, int64(n-1)) }

type tb struct {
	r      *runner
	name   string
	failed bool
	log    []string
}

type stop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) add(s string) {
	if len(t.log) < 4000 {
		t.log = append(t.log, s)
	}
}
func (t *tb) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.add(fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(stop{}) }
func (t *tb) Skip(a ...any)             { panic(stop{}) }
func (t *tb) SkipNow()                  { panic(stop{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Error(a ...any)            { t.failed = true; t.add(fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(stop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(stop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func (r *runner) once(rt *rapid.T, p Prop) {
	if r.failing && RealNow().Sub(r.failAt) > shrinkBudget {
		return // stop shrinking: every further candidate is "smaller but fine"
	}
	c := &C{T: rt, r: r}
	r.mu.Lock()
	r.caseNo++
	if r.traceF != nil {
		_ = r.traceF.Truncate(0)
		_, _ = r.traceF.Seek(0, 0)
		fmt.Fprintf(r.traceF, "check %s, rapid round %d, case %d\n", p.Name, r.round, r.caseNo)
	}
	r.mu.Unlock()
	Progress.Add(1)
	done := false
	defer func() {
		x := recover()
		if _, ok := x.(unjudged); ok && !rt.Failed() {
			c.keys = nil
			r.ok(c, p)
			return
		}
		if x == nil && done && !rt.Failed() {
			r.ok(c, p)
			return
		}
		msg := fmt.Sprint(x)
		if x == nil {
			msg = "failed"
		}
		if !isInvalid(x) {
			if !r.failing {
				r.failing = true
				r.failAt = RealNow()
			}
			f := &failure{Prop: p.Name, Message: msg, Trace: append([]string{}, c.trace...)}
			if !isStop(x) {
				f.Stack = string(debug.Stack())
			}
			r.last = f
		}
		if x != nil {
			panic(x)
		}
	}()
	p.F(c)
	done = true
}

func isInvalid(x any) bool { return fmt.Sprintf("%T", x) == "rapid.invalidData" }
func isStop(x any) bool    { return fmt.Sprintf("%T", x) == "rapid.stopTest" }

// shrinkBudget bounds the minimisation of a failing case.
var shrinkBudget = func() time.Duration {
	if n := envInt("VERIF_SHRINK"); n > 0 {
		return time.Duration(n) * time.Second
	}
	return 40 * time.Second
}()

func (r *runner) ok(c *C, p Prop) {
	if r.failing {
		return
	}
	r.evals++
	r.perProp[p.Name]++
	if len(c.keys) == 0 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(p.Name))
	for _, k := range c.keys {
		h.Write([]byte(k))
		h.Write([]byte{0})
	}
	n := r.perProp[p.Name]
	isNew := !r.distinct[h.Sum64()]
	r.distinct[h.Sum64()] = true
	if isNew && (n == 3 || n == 40 || n == 400) {
		tr := c.trace
		if len(tr) > 30 {
			tr = append(append([]string{}, tr[:30]...), fmt.Sprintf("... %d more steps", len(c.trace)-30))
		}
		s := map[string]any{"check": p.Name, "key": trunc(strings.Join(c.keys, " | "), 400)}
		if len(tr) > 0 {
			s["steps"] = tr
		}
		r.samples = append(r.samples, s)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Run runs all the property's checks and writes the result file. It returns
// false if a violation was found.
func Run(id, rule string, exhaustive []string, props ...Prop) bool {
	dir := OutDir()
	_ = os.Chdir(dir)
	r := &runner{id: id, dir: dir, distinct: map[uint64]bool{}, classes: map[string]int64{}, perProp: map[string]int64{}, short: map[string]int{}}
	tf, err := os.Create(filepath.Join(dir, "current-case.txt"))
	if err == nil {
		r.traceF = tf
	}
	_ = flag.Set("rapid.shrinktime", "20h")
	if os.Getenv("VERIF_REPLAY") == "" {
		_ = os.RemoveAll(filepath.Join(dir, "testdata"))
	}
	only := os.Getenv("VERIF_ONLY")
	began := RealNow()
	for i, p := range props {
		if only != "" && p.Name != only {
			continue
		}
		n := p.Quick
		if Thorough() {
			n = p.Thorough
		}
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			f, _ := strconv.ParseFloat(s, 64)
			n = int(float64(n)*f) + 1
		}
		if sh := envInt("VERIF_SHARDS"); sh > 1 {
			n = (n + sh - 1) / sh
		}
		r.prop = p.Name
		share := timeBudget() * time.Duration(i+1) / time.Duration(len(props))
		if fail := r.run(p, uint64(i), n, began, share); fail {
			r.write(rule, exhaustive)
			return false
		}
	}
	r.write(rule, exhaustive)
	return true
}

// rounds keep rapid's size and seed schedules short and its deadline (measured
// on the bubble's clock) far away
const roundSize = 200

// timeBudget is the real time a process may spend; on a slow machine the cases
// left over are reported, not run.
func timeBudget() time.Duration {
	if n := envInt("VERIF_BUDGET"); n > 0 {
		return time.Duration(n) * time.Second
	}
	if Thorough() {
		return 150 * time.Minute
	}
	return 5 * time.Minute
}

func (r *runner) run(p Prop, idx uint64, n int, began time.Time, share time.Duration) bool {
	for done, round := 0, 0; done < n; round++ {
		k := min(roundSize, n-done)
		if p.Round > 0 {
			k = min(p.Round, n-done)
		}
		seed := mix(Seed()*64+uint64(envInt("VERIF_SHARD")), idx, uint64(round))
		r.round = round
		_ = flag.Set("rapid.checks", strconv.Itoa(k))
		_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		if ff := os.Getenv("VERIF_REPLAY"); ff != "" {
			_ = flag.Set("rapid.failfile", ff)
		}
		t := &tb{r: r, name: r.id + "-" + p.Name}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(stop); !ok {
						panic(x)
					}
				}
			}()
			rapid.Check(t, func(rt *rapid.T) { r.once(rt, p) })
		}()
		if t.failed {
			if r.last == nil {
				r.last = &failure{Prop: p.Name, Message: "HARNESS: " + strings.Join(t.log, "\n")}
			}
			r.last.Seed = seed
			for _, l := range t.log {
				if strings.Contains(l, "[rapid]") {
					if strings.Contains(l, "only generated") {
						r.last.Message = "HARNESS: " + l
					}
				}
			}
			if m, _ := filepath.Glob(filepath.Join(r.dir, "testdata/rapid/*/*.fail")); len(m) > 0 {
				sort.Strings(m)
				r.last.Fail = m[len(m)-1]
			}
			return true
		}
		done += k
		if os.Getenv("VERIF_REPLAY") != "" {
			return false
		}
		if done < n && RealNow().Sub(began) > share { // slow machine: report what was explored
			r.short[p.Name] = n - done
			return false
		}
	}
	return false
}

func (r *runner) write(rule string, exhaustive []string) {
	res := Result{Property: r.id, Evals: r.evals, Distinct: len(r.distinct), Rule: rule, Classes: r.classes,
		PerCheck: r.perProp, Short: r.short, Samples: r.samples, Exhaustive: exhaustive, Violation: r.last, Done: true}
	b, _ := json.MarshalIndent(res, "", " ")
	var hb []byte
	for h := range r.distinct {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	_ = os.WriteFile(filepath.Join(r.dir, "hashes.bin"), hb, 0o644)
	_ = os.WriteFile(filepath.Join(r.dir, "result.json"), b, 0o644)
}

func mix(a, b, c uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 + b*0xbf58476d1ce4e5b9 + c*0x94d049bb133111eb + 1
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x
}

func envInt(k string) int {
	n, _ := strconv.Atoi(os.Getenv(k))
	return n
}

// Shard is the index of this process among Shards.
func Shard() int  { return envInt("VERIF_SHARD") }
func Shards() int { return max(1, envInt("VERIF_SHARDS")) }

// Trace is what was recorded so far.
func (c *C) Trace() []string { return c.trace }
