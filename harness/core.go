// Package harness drives the real dddfirework code and judges what it does.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Violation is one monitor report.
type Violation struct {
	Prop     string   `json:"prop"`
	Sig      string   `json:"sig"` // short, stable class of the failure
	Msg      string   `json:"msg"`
	Workload string   `json:"workload"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Log      []string `json:"log,omitempty"`
}

// Out is what a shard reports back to the supervisor.
type Out struct {
	Evaluations int              `json:"evaluations"`
	Distinct    []string         `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Incon       []string         `json:"inconclusive"`
	Done        bool             `json:"done"`
	Next        map[string]int   `json:"next"`
}

// Workload is a family of cases, case i being fully determined by (seed, name, i).
type Workload struct {
	Name            string
	Quick, Thorough int
	Bubble          bool // run every case in a synctest bubble (virtual time)
	Leaky           bool // goroutines may be left when a case's bubble ends: its time stands still then
	Long            bool // run all cases in one bubble, left by os.Exit (components whose goroutines never end)
	CPU             time.Duration
	Fn              func(c *C)
}

// C is the context of one case.
type C struct {
	T        *testing.T
	R        *rand.Rand
	Prop     string
	WL       string
	Index    int
	Seed     int64
	Tier     string
	mu       sync.Mutex
	log      []string
	nviol    int
	s        *shard
	distinct map[string]bool
}

type shard struct {
	mu       sync.Mutex
	out      Out
	distinct map[string]bool
	sigs     map[string]int
	listed   int // reports of findings, which do not end the run
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Logf records a step of the case; it is part of the replay file.
func (c *C) Logf(format string, a ...any) {
	c.mu.Lock()
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Violate reports a violation of prop; only the property being checked counts.
func (c *C) Violate(prop, sig, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	c.mu.Lock()
	lg := append([]string(nil), c.log...)
	c.mu.Unlock()
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.s.out.Counters == nil {
		c.s.out.Counters = map[string]int64{}
	}
	if prop != c.Prop {
		if os.Getenv("VERIF_ALL") == "" {
			c.s.out.Counters["other_property_reports"]++
			return
		}
	}
	c.nviol++
	k := prop + "|" + sig
	c.s.sigs[k]++
	if c.s.sigs[k] > 3 {
		return
	}
	c.s.out.Violations = append(c.s.out.Violations, Violation{Prop: prop, Sig: sig, Msg: msg,
		Workload: c.WL, Index: c.Index, Seed: c.Seed, Tier: c.Tier, Log: lg})
}

// Listed is Violate for a listed finding: it does not end the run early.
func (c *C) Listed(prop, sig, format string, a ...any) {
	c.s.mu.Lock()
	n := len(c.s.out.Violations)
	c.s.mu.Unlock()
	c.Violate(prop, sig, format, a...)
	c.s.mu.Lock()
	c.s.listed += len(c.s.out.Violations) - n
	c.s.mu.Unlock()
}

// Count adds to an evidence counter.
func (c *C) Count(name string, n int) {
	c.s.mu.Lock()
	if c.s.out.Counters == nil {
		c.s.out.Counters = map[string]int64{}
	}
	c.s.out.Counters[name] += int64(n)
	c.s.mu.Unlock()
}

// Distinct records a non-trivial case class that was observed.
func (c *C) Distinct(format string, a ...any) {
	k := strconv.FormatUint(hash64(c.WL, fmt.Sprintf(format, a...)), 36)
	c.s.mu.Lock()
	c.s.distinct[k] = true
	c.s.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence.
func (c *C) Sample(format string, a ...any) {
	c.s.mu.Lock()
	if len(c.s.out.Samples) < 3 {
		m := fmt.Sprintf(format, a...)
		if len(m) > 1200 {
			m = m[:1200] + "..."
		}
		c.s.out.Samples = append(c.s.out.Samples, c.WL+"#"+strconv.Itoa(c.Index)+": "+m)
	}
	c.s.mu.Unlock()
}

// Inconclusive marks a case the oracle could not decide.
func (c *C) Inconclusive(format string, a ...any) {
	c.s.mu.Lock()
	if len(c.s.out.Incon) < 20 {
		c.s.out.Incon = append(c.s.out.Incon, c.WL+"#"+strconv.Itoa(c.Index)+": "+fmt.Sprintf(format, a...))
	}
	c.s.mu.Unlock()
}

var registry = map[string][]Workload{}

// Register adds workloads to the check of a property.
func Register(prop string, wls ...Workload) { registry[prop] = append(registry[prop], wls...) }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const modPath = "github.com/bytedance/dddfirework"

// frames of the code under test in a stack dump
func repoFrames(stack string) []string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, modPath) {
			f := l
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			out = append(out, f)
		}
	}
	return out
}

// caseStart is used by the watchdog (real time, outside every bubble).
var curCase struct {
	sync.Mutex
	c     *C
	cpu   time.Duration
	limit time.Duration
	n     int64
}

var wallNow = func() time.Duration { // real monotonic time even inside a bubble
	var ts syscall.Timespec
	_, _, _ = syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptrOf(&ts)), 0)
	return time.Duration(ts.Nano())
}

var caseWall atomic.Int64

// watchdog turns a case that makes no progress into a verdict: code under test
// burning processor time or blocked for good is reported, anything else is
// inconclusive. It works on consumed CPU time and stacks, not on deadlines.
func watchdog(s *shard, flush func()) {
	var last int64
	blockedSince := map[int64]int{}
	for {
		time.Sleep(time.Second)
		curCase.Lock()
		c, n, cpu0, limit := curCase.c, curCase.n, curCase.cpu, curCase.limit
		curCase.Unlock()
		if c == nil {
			continue
		}
		if n != last {
			last = n
			blockedSince = map[int64]int{}
			continue
		}
		wall := wallNow() - time.Duration(caseWall.Load())
		cpu := cpuTime() - cpu0
		blockedSince[n]++
		if cpu > limit {
			st := allStacks()
			fr := runnableRepoFrames(st)
			if len(fr) > 0 {
				c.Violate(c.Prop, "no-progress", "the code under test used %v of processor time without finishing the case; running in %s", cpu.Round(time.Second), strings.Join(fr, " < "))
			} else {
				c.Inconclusive("case used %v CPU without finishing\n%s", cpu, cut(st, 4000))
			}
			flush()
			os.Exit(3)
		}
		if wall > 100*time.Second && cpu < limit/2 {
			st := allStacks()
			fr := blockedRepoFrames(st)
			if len(fr) > 0 {
				c.Violate(c.Prop, "blocked", "the code under test is blocked for good in %s", strings.Join(fr, " < "))
			} else {
				c.Inconclusive("case blocked outside the code under test\n%s", cut(st, 4000))
			}
			flush()
			os.Exit(3)
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func allStacks() string {
	b := make([]byte, 4<<20)
	return string(b[:runtime.Stack(b, true)])
}

func allStacksSelf() string { return string(debug.Stack()) }

func runnableRepoFrames(st string) []string {
	for _, g := range strings.Split(st, "\n\n") {
		h, _, _ := strings.Cut(g, "\n")
		if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[syscall") || strings.Contains(h, "[sleep") {
			if fr := repoFrames(g); len(fr) > 0 {
				return fr
			}
		}
	}
	// a loop that was not caught on a processor: any goroutine of the case in repo code
	for _, g := range strings.Split(st, "\n\n") {
		if fr := repoFrames(g); len(fr) > 0 {
			return fr
		}
	}
	return nil
}

func blockedRepoFrames(st string) []string {
	for _, g := range strings.Split(st, "\n\n") {
		h, _, _ := strings.Cut(g, "\n")
		if strings.Contains(h, "[chan ") || strings.Contains(h, "[select") || strings.Contains(h, "[sync.") || strings.Contains(h, "[semacquire") {
			if fr := repoFrames(g); len(fr) > 0 {
				return fr
			}
		}
	}
	return nil
}

// injected marks panics thrown on purpose by harness code.
type injected struct{ what string }

func (i injected) String() string { return "injected:" + i.what }

func (s *shard) runCase(t *testing.T, prop string, w Workload, idx int, seed int64, tier string) (c *C) {
	c = &C{T: t, Prop: prop, WL: w.Name, Index: idx, Seed: seed, Tier: tier, s: s}
	c.R = rand.New(rand.NewSource(int64(hash64(fmt.Sprint(seed), w.Name, fmt.Sprint(idx)))))
	limit := w.CPU
	if limit == 0 {
		limit = 60 * time.Second
	}
	curCase.Lock()
	curCase.c, curCase.cpu, curCase.limit = c, cpuTime(), limit
	curCase.n++
	curCase.Unlock()
	caseWall.Store(int64(wallNow()))
	fin := false
	body := func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if _, ok := r.(injected); ok {
					c.Violate(prop, "panic-escaped", "an injected panic escaped to the top of the case: %v", r)
					return
				}
				fr := repoFrames(st)
				if len(fr) > 0 {
					c.Violate(prop, "panic:"+cut(fr[0], 120), "unexpected panic in the code under test: %v\n%s", r, cut(st, 2500))
				} else {
					c.Inconclusive("harness panic: %v\n%s", r, cut(st, 2500))
				}
			}
		}()
		w.Fn(c)
		fin = true
	}
	if w.Bubble {
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if w.Leaky && fin && strings.Contains(msg, "deadlock") {
						return
					}
					st := allStacks()
					fr := blockedRepoFrames(st)
					if strings.Contains(msg, "deadlock") && len(fr) > 0 {
						c.Violate(prop, "deadlock", "all goroutines blocked for good: %v; code under test in %s", msg, strings.Join(fr, " < "))
						return
					}
					c.Inconclusive("bubble: %v", msg)
				}
			}()
			synctest.Test(t, func(*testing.T) { body() })
		}()
	} else {
		body()
	}
	curCase.Lock()
	curCase.c = nil
	curCase.Unlock()
	return c
}

// RunChild is the body of a shard process.
func RunChild(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	seed := int64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	si, sn := envInt("VERIF_SHARD", 0), envInt("VERIF_NSHARDS", 1)
	outPath := os.Getenv("VERIF_OUT")
	only, onlyIdx := os.Getenv("VERIF_WORKLOAD"), envInt("VERIF_INDEX", -1)
	scale := envInt("VERIF_SCALE", 100)
	resume := map[string]int{}
	_ = json.Unmarshal([]byte(os.Getenv("VERIF_RESUME")), &resume)

	s := &shard{distinct: map[string]bool{}, sigs: map[string]int{}}
	s.out.Next = map[string]int{}
	s.out.Counters = map[string]int64{}
	flush := func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.out.Distinct = s.out.Distinct[:0]
		for k := range s.distinct {
			s.out.Distinct = append(s.out.Distinct, k)
		}
		sort.Strings(s.out.Distinct)
		b, _ := json.Marshal(s.out)
		if outPath != "" {
			_ = os.WriteFile(outPath+".tmp", b, 0o644)
			_ = os.Rename(outPath+".tmp", outPath)
		} else {
			fmt.Println(string(b))
		}
	}
	if os.Getenv("VERIF_NOWATCH") == "" {
		go watchdog(s, flush)
	}
	wls := registry[prop]
	if len(wls) == 0 {
		t.Fatalf("no workload for %s", prop)
	}
	var curF *os.File
	if outPath != "" {
		curF, _ = os.Create(outPath + ".cur")
	}
	finish := func() {
		s.mu.Lock()
		s.out.Done = true
		s.mu.Unlock()
		flush()
		// goroutines of stopped components cannot be joined: leave at once
		os.Exit(0)
	}
	long := false
	for _, w := range wls {
		long = long || w.Long && (only == "" || w.Name == only)
	}
	lastFlush := wallNow()
	begin, budget := wallNow(), time.Duration(envInt("VERIF_BUDGET", 1<<20))*time.Second
	// workloads with bubbles of their own (or none) first, then those of the long bubble
	loop := func(inLong bool) {
		for wi, w := range wls {
			if w.Long != inLong {
				continue
			}
			stop := begin + budget*time.Duration(wi+1)/time.Duration(len(wls))
			if only != "" && w.Name != only {
				continue
			}
			n := w.Quick
			if tier == "thorough" {
				n = w.Thorough
				if n == 0 {
					n = w.Quick * 8
				}
			}
			n = n * scale / 100
			if n == 0 {
				n = 1
			}
			lo, hi := 0, n
			if onlyIdx >= 0 {
				lo, hi = onlyIdx, onlyIdx+1
			}
			for i := lo; i < hi; i++ {
				if onlyIdx < 0 && i%sn != si {
					continue
				}
				if i < resume[w.Name] {
					continue
				}
				if onlyIdx < 0 && wallNow() > stop {
					s.mu.Lock()
					s.out.Counters["cases_skipped_for_time"] += int64((hi - i + sn - 1) / sn)
					s.mu.Unlock()
					break
				}
				s.mu.Lock()
				s.out.Next[w.Name] = i + 1
				s.mu.Unlock()
				if curF != nil {
					_, _ = curF.WriteAt([]byte(fmt.Sprintf("%-30s %10d\n", w.Name, i)), 0)
				}
				c := s.runCase(t, prop, w, i, seed, tier)
				s.mu.Lock()
				s.out.Evaluations++
				nv := len(s.out.Violations) - s.listed
				s.mu.Unlock()
				if onlyIdx >= 0 && os.Getenv("VERIF_SHOW") != "" {
					for _, l := range c.log {
						fmt.Println("  ", l)
					}
				}
				if nv >= 12 {
					break
				}
				if now := wallNow(); now-lastFlush > 2*time.Second {
					flush()
					lastFlush = now
				}
			}
			s.mu.Lock()
			s.out.Next[w.Name] = 1 << 30
			s.mu.Unlock()
		}
	}
	loop(false)
	if !long {
		finish()
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			fr := blockedRepoFrames(allStacks())
			curCase.Lock()
			c := curCase.c
			curCase.Unlock()
			if c != nil && strings.Contains(msg, "deadlock") && len(fr) > 0 {
				c.Violate(prop, "deadlock", "all goroutines blocked for good: %v; code under test in %s", msg, strings.Join(fr, " < "))
			} else if c != nil {
				c.Inconclusive("bubble: %v\n%s", msg, cut(allStacks(), 4000))
			}
			flush()
			os.Exit(3)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		loop(true)
		finish()
	})
}

func newRand(seed int64, n int) *rand.Rand {
	return rand.New(rand.NewSource(int64(hash64(fmt.Sprint(seed), fmt.Sprint(n)))))
}
