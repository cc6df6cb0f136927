package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	timersql "github.com/bytedance/dddfirework/d_timer/sql"
	"github.com/go-logr/logr"
	"github.com/robfig/cron"
)

// tmReg is one call that registers a timer.
type tmReg struct {
	expr      string // "" for a one-shot
	at        time.Time
	data      string
	call, ret time.Time
	err       error
	died      bool
	inst      *tmInst
}

func (g *tmReg) String() string {
	w := g.expr
	if w == "" {
		w = "at " + g.at.Format("15:04:05.000000")
	}
	return fmt.Sprintf("%s data %q by %s %s-%s: %v", w, g.data, g.inst.name, g.call.Format("15:04:05.000"), g.ret.Format("15:04:05.000"), g.err)
}

// tmEpoch is a key from its registration to its cancellation.
type tmEpoch struct {
	svc      *tmSvc
	key      string
	once     bool
	regs     []*tmReg // any of these may be the timer
	late     []*tmReg // registered while it was there already
	c0, c1   time.Time
	x0, x1   time.Time // cancellation: first call, successful return
	foreign  []time.Time
	refused  bool // must not have been scheduled
	calls    []*tmCall
	reopened bool
}

type tmCall struct {
	inst       *tmInst
	key, cron  string
	data       string
	start, end time.Time
	out        string
}

func (k *tmCall) String() string {
	return fmt.Sprintf("%s-%s on %s (%s)", k.start.Format("15:04:05.000000"), k.end.Format("05.000000"), k.inst.name, k.out)
}

type tmSvc struct {
	name  string
	insts []*tmInst
	poll  time.Duration
}

type tmInst struct {
	svc      *tmSvc
	name     string
	in       *simInst
	t        *timersql.DBTimer
	up, down time.Time // polling with a handler since, killed at
	bad      []time.Time
	calls    []*tmCall
}

type tmWorld struct {
	c       *C
	db      *simDB
	mu      sync.Mutex
	rnd     *rand.Rand
	svcs    []*tmSvc
	eps     []*tmEpoch
	unit    time.Duration
	maxLat  time.Duration
	prob    float64
	kinds   []simFault
	faultOn bool
	nkeys   int
	hostile int
	slow    bool
	stray   []*tmCall
	others  map[string]*tmReg // accepted registrations of a key another service has
	fired   map[string]int    // their firings
	nv      int
	nfault  int
	self    func(*tmCall, *tmInst)
}

func (w *tmWorld) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

func (w *tmWorld) dur(d time.Duration) time.Duration {
	return time.Duration(w.intn(int(d/time.Microsecond)+1)) * time.Microsecond
}

func (w *tmWorld) violate(p, sig, f string, a ...any) {
	if w.nv++; w.nv <= 6 {
		w.c.Violate(p, sig, f, a...)
	}
}

func (w *tmWorld) slack() time.Duration {
	n := 0
	for _, s := range w.svcs {
		n += len(s.insts)
	}
	return 10*time.Millisecond + time.Duration(w.nkeys*(2+n)*5)*w.maxLat
}

func (w *tmWorld) newInst(s *tmSvc) *tmInst {
	i := &tmInst{svc: s, name: fmt.Sprintf("%s.%d", s.name, len(s.insts)+1)}
	i.in = w.db.newInstCfg(i.name, w.intn(2) == 0)
	i.t = timersql.NewDBTimer(s.name, i.in.g, func(o *timersql.Options) { o.RunInterval, o.Logger = s.poll, logr.Discard() })
	h := func(ctx context.Context, key, cronExp string, data []byte) error {
		return w.fire(i, key, cronExp, string(data))
	}
	switch w.intn(4) {
	case 0: // polls before its handler is registered
		i.t.Start(context.Background())
		i.up = time.Now().Add(w.dur(2 * s.poll))
		time.AfterFunc(i.up.Sub(time.Now()), func() { i.t.RegisterTimerHandler(h) })
	default:
		i.t.RegisterTimerHandler(h)
		i.t.Start(context.Background())
		if w.intn(3) == 0 {
			i.t.Start(context.Background())
		}
		i.up = time.Now()
	}
	w.mu.Lock()
	s.insts = append(s.insts, i)
	w.mu.Unlock()
	return i
}

func (w *tmWorld) fire(i *tmInst, key, cronExp, data string) error {
	if i.in.isDead.Load() {
		return nil // the process is dead, nobody would see this
	}
	w.mu.Lock()
	k := &tmCall{inst: i, key: key, cron: cronExp, data: data, start: time.Now()}
	i.calls = append(i.calls, k)
	if strings.HasPrefix(data, "other!") {
		w.fired[data]++
		k.end, k.out = k.start, "ok"
		w.mu.Unlock()
		return nil
	}
	var ep *tmEpoch
	for _, e := range w.eps {
		if e.key == key && !e.c0.IsZero() {
			ep = e
		}
	}
	if ep == nil {
		w.stray = append(w.stray, k)
	} else {
		// a timer that is being set up anew may still fire as the former one
		if ep.c1.IsZero() && ep.reopened {
			for _, e := range w.eps {
				if e != ep && e.key == key {
					_ = e
				}
			}
		}
		ep.calls = append(ep.calls, k)
	}
	x := w.rnd.Intn(100)
	d := time.Duration(0)
	if w.slow {
		switch w.rnd.Intn(12) {
		case 0:
			d = time.Duration(w.rnd.Int63n(int64(3 * w.unit)))
		case 1:
			d = time.Duration(w.rnd.Int63n(int64(w.unit / 5)))
		}
	}
	k.out = "ok"
	if x < w.hostile {
		k.out = []string{"error", "panic"}[x%2]
	}
	self := w.self
	w.mu.Unlock()
	defer func() { w.mu.Lock(); k.end = time.Now(); w.mu.Unlock() }()
	if self != nil {
		self(k, i)
	}
	time.Sleep(d)
	switch k.out {
	case "error":
		return errors.New("timer handler failed")
	case "panic":
		panic(injected{"timer handler"})
	}
	return nil
}

// onInst runs f as the instance; it reports whether the instance died in it.
func (w *tmWorld) onInst(i *tmInst, f func()) (died bool) {
	ch := make(chan bool, 1)
	go func() {
		fin := false
		defer func() {
			if r := recover(); r != nil {
				w.mu.Lock()
				w.violate(w.c.Prop, "panic", "a call of the timer panicked: %v\n%s", r, cut(allStacksSelf(), 1500))
				w.mu.Unlock()
				fin = true
			}
			ch <- !fin
		}()
		f()
		fin = true
	}()
	return <-ch
}

func (w *tmWorld) live(s *tmSvc) *tmInst {
	w.mu.Lock()
	defer w.mu.Unlock()
	var l []*tmInst
	for _, i := range s.insts {
		if !i.in.isDead.Load() {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.rnd.Intn(len(l))]
}

func (w *tmWorld) call(i *tmInst, key string, g *tmReg) *tmReg {
	g.inst, g.call = i, time.Now()
	g.err = errors.New("not returned")
	g.died = w.onInst(i, func() {
		if g.expr != "" {
			g.err = i.t.RunCron(key, g.expr, []byte(g.data))
		} else {
			g.err = i.t.RunOnce(key, g.at, []byte(g.data))
		}
	})
	g.ret = time.Now()
	return g
}

func (w *tmWorld) exprs() []string {
	switch {
	case w.unit == time.Second:
		return []string{"* * * * * *", "*/2 * * * * *", "0/3 * * * * ?", "*/5 * * * * *", "1,4,30-40/2 * * * * *", "@every 2s", "@every 3s"}
	case w.unit == time.Minute:
		return []string{"0 * * * * *", "30 */2 * * * *", "0 0/3 * * * ?", "@every 2m", "15 1-59/2 * * * *", "59 * * * * *"}
	}
	return []string{"0 0 * * * *", "0 15 */2 * * *", "@hourly", "59 59 * * * *", "@every 2h", "@every 1h30m", "0 0,30 1-23 * * *"}
}

var badExprs = []string{"not a cron", "* * *", "61 * * * * *", "* * * * * * * *", "@sometimes", "0 0 0 32 1 ?"}

// script plays one key: it is registered, perhaps again, perhaps cancelled,
// perhaps set up anew.
func (w *tmWorld) script(s *tmSvc, key string, span time.Duration) {
	end := time.Now().Add(span)
	n := 0
	shared := false
	fresh := func(g *tmReg) *tmReg {
		n++
		g.data = fmt.Sprintf("%s#%d", key, n)
		if w.intn(6) == 0 {
			g.data = ""
		}
		return g
	}
	for round := 0; round < 4; round++ {
		time.Sleep(w.dur(2 * w.unit))
		if !time.Now().Before(end) {
			return
		}
		e := &tmEpoch{svc: s, key: key, once: w.intn(3) == 0, reopened: round > 0}
		w.mu.Lock()
		w.eps = append(w.eps, e)
		w.mu.Unlock()
		ex := w.exprs()
		mk := func() *tmReg {
			g := fresh(&tmReg{})
			if e.once {
				g.at = time.Now().Add(w.dur(6*w.unit) + time.Millisecond)
				if w.intn(4) == 0 {
					g.at = g.at.Truncate(time.Second).Add(time.Second)
				}
			} else {
				g.expr = ex[w.intn(len(ex))]
			}
			return g
		}
		if w.intn(8) == 0 {
			// refused: must leave nothing behind
			e.refused = true
			g := mk()
			if e.once {
				g.at = time.Now().Add(-w.dur(time.Minute) - time.Millisecond)
			} else {
				g.expr = badExprs[w.intn(len(badExprs))]
			}
			if i := w.live(s); i != nil {
				e.c0 = time.Now()
				w.call(i, key, g)
				e.regs = append(e.regs, g)
				w.mu.Lock()
				if g.err == nil {
					w.violate(map[bool]string{true: "T02", false: "T03"}[e.once], "accepted", "registering %q as %v was accepted", key, g)
				}
				w.mu.Unlock()
				w.c.Count("registrations_rejected", 1)
				time.Sleep(3*w.unit + 2*s.poll)
			}
			w.mu.Lock()
			e.x0, e.x1 = time.Now(), time.Now()
			if len(e.calls) > 0 {
				w.violate(map[bool]string{true: "T02", false: "T03"}[e.once], "rejected-fired", "%q was rejected and fired: %v", key, e.calls[0])
			}
			// forget it: nothing is scheduled
			for k := range w.eps {
				if w.eps[k] == e {
					w.eps = append(w.eps[:k:k], w.eps[k+1:]...)
					break
				}
			}
			w.mu.Unlock()
			continue
		}
		// one or more instances register it at the same time
		e.c0 = time.Now()
		for try := 0; ; try++ {
			var wg sync.WaitGroup
			k := 1
			if w.intn(2) == 0 {
				k = 2 + w.intn(3)
			}
			ok := false
			var mu sync.Mutex
			var tried []*tmReg
			for j := 0; j < k; j++ {
				i := w.live(s)
				if i == nil {
					continue
				}
				g := mk()
				w.mu.Lock()
				e.regs = append(e.regs, g)
				w.mu.Unlock()
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.call(i, key, g)
					mu.Lock()
					ok = ok || g.err == nil
					tried = append(tried, g)
					mu.Unlock()
				}()
			}
			wg.Wait()
			w.c.Count("registrations", len(tried))
			if len(tried) > 1 {
				w.c.Count("registered_concurrently", 1)
			}
			for _, g := range tried {
				w.c.Logf("register %q %v", key, g)
				if g.err != nil && !g.died && !errors.Is(g.err, timersql.ErrTimerOverdue) && !w.touched(g.call, g.ret) {
					w.mu.Lock()
					w.violate("T03", "register-error", "registering %q (%d at once) failed: %v", key, len(tried), g)
					w.mu.Unlock()
				}
			}
			if ok {
				break
			}
			time.Sleep(w.unit / 3)
		}
		w.mu.Lock()
		e.c1 = time.Now()
		w.mu.Unlock()
		// it lives for a while; others register it again or cancel keys of other services
		stay := w.dur(12 * w.unit)
		if w.intn(4) == 0 {
			stay = end.Sub(time.Now())
		}
		until := time.Now().Add(stay)
		for {
			d := w.dur(4 * w.unit)
			if time.Now().Add(d).After(until) {
				if r := until.Sub(time.Now()); r > 0 {
					time.Sleep(r)
				}
				break
			}
			time.Sleep(d)
			if w.intn(3) == 0 {
				// a different service does not own this key
				o := w.svcs[w.intn(len(w.svcs))]
				if i := w.live(o); o != s && i != nil && (shared || w.intn(4) == 0) {
					if !shared && w.intn(2) == 0 || until.Sub(time.Now()) < w.unit {
						continue
					}
					// refused or scheduled, but not forgotten
					shared = true
					n++
					g := w.call(i, key, &tmReg{at: time.Now().Add(w.dur(w.unit/2) + time.Millisecond), data: fmt.Sprintf("other!%s#%d", key, n)})
					w.c.Count("registered_by_other", 1)
					if g.err == nil {
						w.mu.Lock()
						w.others[g.data] = g
						w.mu.Unlock()
					}
				} else if o != s && i != nil {
					w.mu.Lock()
					e.foreign = append(e.foreign, time.Now())
					w.mu.Unlock()
					w.onInst(i, func() { _ = i.t.Cancel(key) })
					w.c.Count("foreign_cancels", 1)
				}
				continue
			}
			g := fresh(&tmReg{})
			if e.once {
				w.mu.Lock()
				min := time.Time{}
				for _, x := range e.regs {
					if min.IsZero() || x.at.Before(min) {
						min = x.at
					}
				}
				w.mu.Unlock()
				if time.Now().Add(w.unit / 5).After(min) {
					continue // whether a fired key may be scheduled again is left open
				}
				g.at = time.Now().Add(w.dur(3*w.unit) + time.Millisecond)
			} else {
				g.expr = ex[w.intn(len(ex))]
			}
			if w.intn(5) == 0 && !e.once {
				g.expr = badExprs[w.intn(len(badExprs))]
			}
			if i := w.live(s); i != nil {
				w.call(i, key, g)
				w.c.Logf("again %q %v", key, g)
				w.c.Count("registered_again", 1)
				w.mu.Lock()
				e.late = append(e.late, g)
				if bad := strings.Join(badExprs, "|"); g.err != nil && !g.died && !strings.Contains(bad, g.expr) && !errors.Is(g.err, timersql.ErrTimerOverdue) && !w.touchedL(g.call, g.ret) {
					w.violate("T03", "register-error", "registering %q again failed: %v", key, g)
				}
				w.mu.Unlock()
			}
		}
		if w.intn(4) == 0 && round < 3 || !time.Now().Before(end) {
			return
		}
		w.cancel(s, e)
	}
}

func (w *tmWorld) cancel(s *tmSvc, e *tmEpoch) {
	w.mu.Lock()
	e.x0 = time.Now()
	w.mu.Unlock()
	for {
		i := w.live(s)
		if i == nil {
			time.Sleep(w.unit)
			continue
		}
		t0 := time.Now()
		err := errors.New("died")
		died := w.onInst(i, func() { err = i.t.Cancel(e.key) })
		w.c.Logf("%s cancel %q on %s: %v died %v", t0.Format("15:04:05.000"), e.key, i.name, err, died)
		if err == nil && !died {
			break
		}
		if !died && !w.touched(t0, time.Now()) && time.Since(t0) < lockWaitTimeout {
			w.mu.Lock()
			w.violate("T03", "cancel-error", "cancelling %q failed: %v", e.key, err)
			w.mu.Unlock()
		}
		time.Sleep(w.unit / 4)
	}
	w.mu.Lock()
	e.x1 = time.Now()
	w.mu.Unlock()
	w.c.Count("cancellations", 1)
}

// touched: some statement failed or some instance died then
func (w *tmWorld) touched(a, b time.Time) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.touchedL(a, b)
}

func (w *tmWorld) touchedL(a, b time.Time) bool {
	sl := w.slack()
	for _, s := range w.svcs {
		for _, i := range s.insts {
			if !i.down.IsZero() && !i.down.Before(a.Add(-sl)) && !i.down.After(b.Add(sl)) {
				return true
			}
			for _, t := range i.bad {
				if !t.Before(a.Add(-sl)) && !t.After(b.Add(sl)) {
					return true
				}
			}
		}
	}
	return false
}

func (w *tmWorld) setup(c *C) {
	w.c, w.rnd = c, newRand(c.Seed, c.Index*2+1)
	w.others, w.fired = map[string]*tmReg{}, map[string]int{}
	w.db = newSimDB()
	w.db.tracing = false
	byNum := func(in *simInst) *tmInst {
		for _, s := range w.svcs {
			for _, i := range s.insts {
				if i.in == in {
					return i
				}
			}
		}
		return nil
	}
	w.db.onStmt = func(st *simStmt) simFault {
		w.mu.Lock()
		defer w.mu.Unlock()
		if !w.faultOn || w.rnd.Float64() >= w.prob {
			return fNone
		}
		f := w.kinds[w.rnd.Intn(len(w.kinds))]
		w.nfault++
		if i := byNum(st.Inst); i != nil {
			i.bad = append(i.bad, time.Now())
			if f == fDieBefore || f == fDieAfter {
				i.down = time.Now()
			}
		}
		return f
	}
	w.db.onDone = func(st *simStmt) {
		if st.Err != nil {
			w.mu.Lock()
			if i := byNum(st.Inst); i != nil && !strings.Contains(st.Err.Error(), "3572") && !errors.Is(st.Err, context.Canceled) && !strings.Contains(st.Err.Error(), "UNIQUE") {
				i.bad = append(i.bad, time.Now())
			}
			w.mu.Unlock()
		}
	}
	w.db.lat = func(st *simStmt) time.Duration {
		if w.maxLat == 0 {
			return 0
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		return time.Duration(w.rnd.Int63n(int64(w.maxLat)))
	}
}

func timerCase(c *C) {
	r := c.R
	w := &tmWorld{}
	w.setup(c)
	defer w.db.close()
	w.unit = []time.Duration{time.Second, time.Second, time.Minute, time.Hour}[r.Intn(4)]
	mode := c.Index % 4 // 0,1 calm  2 faults  3 deaths and faults
	if r.Intn(2) == 0 {
		w.maxLat = time.Duration(1+r.Intn(4)) * time.Millisecond
	}
	if mode >= 2 {
		w.prob = []float64{0.003, 0.01, 0.05}[r.Intn(3)]
		w.kinds = []simFault{fBefore, fAfter}
		if mode == 3 {
			w.kinds = append(w.kinds, fDieBefore, fDieAfter)
		}
	}
	w.hostile = []int{0, 30, 70}[r.Intn(3)]
	w.slow = r.Intn(2) == 0
	time.Sleep(time.Duration(r.Int63n(int64(w.unit))))
	nsvc := 1 + r.Intn(2)
	for k := 0; k < nsvc; k++ {
		s := &tmSvc{name: fmt.Sprintf("svc%d", k+1), poll: []time.Duration{w.unit / 5, w.unit, w.unit * 3 / 2}[r.Intn(3)]}
		w.svcs = append(w.svcs, s)
	}
	nk := 1 + r.Intn(3)
	w.nkeys = nk * nsvc
	for _, s := range w.svcs {
		for k, n := 0, 1+r.Intn(3); k < n; k++ {
			w.newInst(s)
		}
	}
	span := time.Duration(10+r.Intn(25)) * w.unit
	c.Logf("mode %d unit %v latency %v hostile %d slow %v services %d keys %d span %v poll %v", mode, w.unit, w.maxLat, w.hostile, w.slow, nsvc, nk, span, w.svcs[0].poll)
	w.mu.Lock()
	w.faultOn = mode >= 2
	w.mu.Unlock()
	var wg sync.WaitGroup
	for si, s := range w.svcs {
		for k := 0; k < nk; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.script(s, fmt.Sprintf("timer.%d.%d", si, k), span)
			}()
		}
	}
	// instances are killed, others start
	stop := make(chan struct{})
	var kw sync.WaitGroup
	kw.Add(1)
	go func() {
		defer kw.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(w.unit + w.dur(8*w.unit)):
			}
			for _, s := range w.svcs {
				if mode == 3 && w.intn(3) == 0 {
					if i := w.live(s); i != nil {
						w.mu.Lock()
						i.down = time.Now()
						w.mu.Unlock()
						i.in.die()
						w.c.Count("instances_killed", 1)
					}
				}
				if w.live(s) == nil || w.intn(8) == 0 && len(s.insts) < 6 {
					w.restart(s)
				}
			}
		}
	}()
	wg.Wait()
	close(stop)
	kw.Wait()
	// quiet end: everything due must fire
	w.mu.Lock()
	w.faultOn = false
	w.mu.Unlock()
	for _, s := range w.svcs {
		if w.live(s) == nil || w.intn(2) == 0 {
			w.restart(s)
		}
	}
	time.Sleep(12*w.unit + 4*w.svcs[0].poll + 2*lockWaitTimeout)
	w.judge()
}

// restart adds an instance; starting it is not disturbed
func (w *tmWorld) restart(s *tmSvc) {
	w.mu.Lock()
	on := w.faultOn
	w.faultOn = false
	w.mu.Unlock()
	w.newInst(s)
	w.mu.Lock()
	w.faultOn = on
	w.mu.Unlock()
}

type span struct{ a, b time.Time }

// idle finds a time of length n within (lo, hi) in which some instance polled
// undisturbed.
func (w *tmWorld) idle(s *tmSvc, lo, hi time.Time, n, sl time.Duration) (time.Time, *tmInst) {
	for _, i := range s.insts {
		var bad []span
		for _, k := range i.calls {
			e := k.end
			if e.IsZero() {
				e = hi
			}
			bad = append(bad, span{k.start.Add(-sl), e.Add(sl)})
		}
		for _, t := range i.bad {
			bad = append(bad, span{t.Add(-sl), t.Add(sl)})
		}
		a, b := lo, hi
		if u := i.up.Add(sl); u.After(a) {
			a = u
		}
		if !i.down.IsZero() && i.down.Add(-sl).Before(b) {
			b = i.down.Add(-sl)
		}
		// others that fail or die may hold the row for a moment
		for _, o := range s.insts {
			if o == i {
				continue
			}
			for _, t := range o.bad {
				bad = append(bad, span{t.Add(-sl), t.Add(sl)})
			}
			if !o.down.IsZero() {
				bad = append(bad, span{o.down.Add(-sl), o.down.Add(sl)})
			}
			// or still be busy with it after they died: their locks are gone
		}
		sort.Slice(bad, func(x, y int) bool { return bad[x].a.Before(bad[y].a) })
		for _, x := range bad {
			if x.a.Sub(a) >= n && !x.a.After(b) {
				return a, i
			}
			if x.b.After(a) {
				a = x.b
			}
		}
		if b.Sub(a) >= n {
			return a, i
		}
	}
	return time.Time{}, nil
}

func (w *tmWorld) judge() {
	w.mu.Lock()
	defer w.mu.Unlock()
	c, now := w.c, time.Now()
	sl := w.slack()
	const tol = time.Millisecond
	for _, k := range w.stray {
		w.violate("T03", "stray", "%q fired %v, but it was not registered", k.key, k)
	}
	for d, g := range w.others {
		if w.fired[d] == 0 && !w.touchedL(g.call, g.ret) {
			w.violate("T03", "accepted-not-scheduled", "a service registered a key another service has: accepted, but it never fired: %v", g)
			break
		}
	}
	shape := []string{}
	for _, e := range w.eps {
		p := "T01"
		if e.once {
			p = "T02"
		}
		name := fmt.Sprintf("%q (registered %s-%s by %v, again %v, cancelled %s-%s, foreign cancellations %v, firings %v)", e.key, e.c0.Format("15:04:05.000000"), e.c1.Format("05.000000"), e.regs, e.late, e.x0.Format("15:04:05.000000"), e.x1.Format("05.000000"), e.foreign, e.calls)
		shape = append(shape, fmt.Sprintf("%v%d/%d", e.once, len(e.calls), len(e.regs)))
		if e.c1.IsZero() {
			continue
		}
		c.Count("timers", 1)
		// which registration it is
		var cand []*tmReg
		for _, g := range e.regs {
			if len(e.calls) == 0 || g.data == e.calls[0].data && g.expr == e.calls[0].cron {
				cand = append(cand, g)
			}
		}
		if len(cand) == 0 {
			late := false
			for _, g := range e.late {
				late = late || g.data == e.calls[0].data && g.expr == e.calls[0].cron
			}
			if late {
				w.violate("T03", "replaced", "%s: it fired with the expression and data of a later registration: %q %q", name, e.calls[0].cron, e.calls[0].data)
			} else {
				w.violate(p, "arguments", "%s: it fired with expression %q and data %q", name, e.calls[0].cron, e.calls[0].data)
			}
			continue
		}
		for _, k := range e.calls {
			if k.data != e.calls[0].data || k.cron != e.calls[0].cron {
				w.violate("T03", "changed", "%s: it fired with %q %q, then with %q %q", name, e.calls[0].cron, e.calls[0].data, k.cron, k.data)
				break
			}
			if !e.x1.IsZero() && k.start.After(e.x1) {
				w.violate("T03", "fired-after-cancel", "%s: it fired %v after its cancellation", name, k)
			}
		}
		// when
		next := func(t time.Time, max bool) time.Time {
			var r time.Time
			for _, g := range cand {
				n := g.at
				if !e.once {
					sc, err := cron.Parse(g.expr)
					if err != nil {
						continue
					}
					n = sc.Next(t)
				}
				if r.IsZero() || (n.Before(r) != max) {
					r = n
				}
			}
			return r
		}
		c.Count("firings", len(e.calls))
		var prev *tmCall
		for j := 0; j <= len(e.calls); j++ {
			var k *tmCall
			if j < len(e.calls) {
				k = e.calls[j]
			}
			excused := prev != nil && w.excused(prev, sl)
			if k != nil {
				switch {
				case prev == nil:
					if n := next(e.c0, false); k.start.Before(n.Add(-tol)) {
						w.violate(p, "early", "%s: it first fired %v, due at %v", name, k, n)
					}
				case excused:
					c.Count("repeated_after_fault", 1)
				case e.once:
					w.violate("T02", "repeated", "%s: it fired again, %v", name, k)
				default:
					if n := next(prev.start, false); k.start.Before(n) {
						w.violate("T01", "early", "%s: it fired %v after %v, due at %v", name, k, prev, n)
						if len(e.regs)+len(e.late) > 1 {
							w.violate("T03", "second-timer", "%s: it fired %v after %v, due at %v", name, k, prev, n)
						}
					} else if k.start.Before(prev.end) {
						w.violate("T01", "overlap", "%s: it fired %v while the handler was running, %v", name, k, prev)
					}
				}
			}
			// not missed: between the latest instant it was due and its firing nobody was idle for a poll
			if prev != nil && (prev.end.IsZero() || e.once && !excused) {
				prev = k
				continue
			}
			if prev != nil && e.once {
				prev = k
				continue // whether the failed firing counts is open
			}
			lo := next(e.c1, true)
			if e.once && lo.Before(e.c1) {
				lo = e.c1
			}
			if prev != nil {
				lo = next(prev.end.Add(sl), true)
			}
			hi := now
			if k != nil {
				hi = k.start
			} else if !e.x0.IsZero() && e.x0.Before(hi) {
				hi = e.x0
			}
			need := e.svc.poll + 2*sl
			if lo.Add(need).Before(hi) {
				if at, i := w.idle(e.svc, lo, hi, need, sl); i != nil {
					w.violate(p, "missed", "%s: due by %v (after %v), not fired until %v, although %s was idle from %v (poll %v)", name, lo, prev, hi, i.name, at, e.svc.poll)
					for _, f := range e.foreign {
						if f.Before(hi) {
							w.violate("T03", "cancelled-by-other", "%s: due by %v, not fired until %v after another service cancelled its own timer of that key", name, lo, hi)
							break
						}
					}
					if len(e.late) > 0 || e.reopened || len(e.regs) > 1 {
						w.violate("T03", "missed", "%s: due by %v, not fired until %v", name, lo, hi)
					}
				}
			}
			if k != nil && k.start.Sub(lo) > 0 {
				c.Count("waits_judged", 1)
			}
			prev = k
		}
	}
	c.Count("faults_injected", w.nfault)
	sort.Strings(shape)
	c.Distinct("%v %v %s", w.unit, w.hostile, strings.Join(shape, " "))
	c.Sample("unit %v latency %v: %s", w.unit, w.maxLat, strings.Join(shape, " "))
}

// excused: the instance failed to store that it fired
func (w *tmWorld) excused(k *tmCall, sl time.Duration) bool {
	i := k.inst
	in := func(t time.Time) bool {
		return !t.Before(k.start.Add(-sl)) && (k.end.IsZero() || !t.After(k.end.Add(sl+lockWaitTimeout)))
	}
	for _, t := range i.bad {
		if in(t) {
			return true
		}
	}
	return !i.down.IsZero() && in(i.down)
}

// selfCancelCase: a handler cancels its own timer.
func selfCancelCase(c *C) {
	r := c.R
	w := &tmWorld{nkeys: 1}
	w.setup(c)
	defer w.db.close()
	w.unit = time.Second
	time.Sleep(time.Duration(r.Int63n(int64(w.unit))))
	s := &tmSvc{name: "svc1", poll: time.Duration(100+r.Intn(900)) * time.Millisecond}
	w.svcs = []*tmSvc{s}
	for k, n := 0, 1+r.Intn(2); k < n; k++ {
		w.newInst(s)
	}
	var took time.Duration
	var cerr error
	calls, done := 0, false
	w.self = func(k *tmCall, i *tmInst) {
		w.mu.Lock()
		calls++
		first := calls == 1
		w.mu.Unlock()
		if first {
			t := time.Now()
			err := i.t.Cancel(k.key)
			w.mu.Lock()
			cerr, took, done = err, time.Since(t), true
			w.mu.Unlock()
		}
	}
	i := w.live(s)
	g := w.call(i, "job", &tmReg{expr: "* * * * * *", data: "x"})
	time.Sleep(3 * time.Minute)
	w.mu.Lock()
	defer w.mu.Unlock()
	c.Count("self_cancellations", 1)
	if g.err == nil && (!done || cerr != nil || calls > 1) {
		w.violate("T03", "cancel-in-handler", "a handler cancelled its own timer: returned %v after %v: %v; the timer fired %d times", done, took, cerr, calls)
	}
	c.Distinct("%v %v", s.poll, cerr)
}

func init() {
	for _, p := range []string{"T01", "T02", "T03"} {
		Register(p, Workload{Name: "timer", Quick: 2000, Thorough: 60000, Bubble: true, Leaky: true, Fn: timerCase})
	}
	Register("T03", Workload{Name: "selfcancel", Quick: 16, Thorough: 64, Bubble: true, Leaky: true, Fn: selfCancelCase})
}
