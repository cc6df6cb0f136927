package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	dblock "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
)

// lkOp is one use of a lock: Lock (and its releases) or Run.
type lkOp struct {
	cl        *lkClient
	run       bool
	key       string
	call, ret time.Time
	done      bool
	err       error
	locker    string
	rels      []*lkRel
	exempt    bool // its own context ended, the outcome is open

	// Run
	fnCalls     int
	fnStart     time.Time
	fnEnd       time.Time
	cancelAt    time.Time // when the context of the function was seen cancelled
	parentAt    time.Time // when the context given to Run was cancelled
	cause       error
	panics      bool
	escaped     any
	sameValue   bool
	waitsCancel bool
}

type lkRel struct {
	call, ret time.Time
	err       error
}

type lkClient struct {
	n     int
	in    *simInst
	l     *dblock.DBLock
	mu    *sync.Mutex
	retry bool
	fails []time.Time // failed statements
}

type lkRow struct {
	Seq       int64
	Op        string
	Resource  string
	OldLocker string
	Locker    string
	OldUpd    time.Time
	Upd       time.Time
	At        int64
	Inst      int
	at        time.Time
}

func (r lkRow) String() string {
	return fmt.Sprintf("%s %s %q %s->%s upd %s->%s inst %d", r.at.Format("15:04:05.000000"), r.Op, r.Resource, r.OldLocker, r.Locker, r.OldUpd.Format("05.000000"), r.Upd.Format("05.000000"), r.Inst)
}

type lkWorld struct {
	c          *C
	db         *simDB
	mu         sync.Mutex
	ops        []*lkOp
	ttl, renew time.Duration
	safe       bool // renewals always arrive in time
	faulty     bool
	maxLat     time.Duration
	rnd        *rand.Rand
	nviol      int
	nstmt      int
	runs       int // going on
	cancels    []func()
}

type lkKey struct{}

func (w *lkWorld) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

func (w *lkWorld) violate(p, sig, f string, a ...any) {
	if w.nviol++; w.nviol > 6 {
		return
	}
	w.c.Violate(p, sig, f, a...)
}

var lkKeys = []string{"order:1", "order:12", "k", "实体 锁", strings.Repeat("x", 200), "a b'c\"d`e"}

func lockCase(c *C) {
	r := c.R
	w := &lkWorld{c: c, rnd: newRand(c.Seed, c.Index*2+1)}
	w.db = newSimDB()
	w.db.tracing = false
	defer w.db.close()
	mode := r.Intn(5) // 0,1 plain  2 latency  3 latency and tight renewals  4 faults
	w.renew = []time.Duration{100, 300, 1000, 2000}[r.Intn(4)] * time.Millisecond
	if mode >= 2 {
		w.maxLat = []time.Duration{2, 20, 80}[r.Intn(3)] * time.Millisecond
	}
	switch {
	case mode == 3:
		w.ttl = w.renew + time.Duration(r.Intn(60))*time.Millisecond
	default:
		w.safe = true
		w.ttl = w.renew*time.Duration(2+r.Intn(4)) + 6*w.maxLat + 20*time.Millisecond
	}
	w.faulty = mode == 4
	if w.maxLat > 0 {
		w.db.lat = func(*simStmt) time.Duration {
			if w.intn(3) == 0 {
				return 0
			}
			return time.Duration(w.intn(int(w.maxLat)))
		}
	}
	faultOn := w.faulty
	cls := map[*simInst]*lkClient{}
	if w.faulty {
		p := 5 + r.Intn(40)
		w.db.onStmt = func(st *simStmt) simFault {
			w.mu.Lock()
			defer w.mu.Unlock()
			if !faultOn || w.rnd.Intn(100) >= p {
				return fNone
			}
			if cl := cls[st.Inst]; cl != nil && st.Kind != "rollback" {
				cl.fails = append(cl.fails, time.Now())
			}
			return []simFault{fBefore, fAfter}[w.rnd.Intn(2)]
		}
		faultOn = false
	}
	w.db.onDone = func(st *simStmt) {
		if st.Kind == "exec" || st.Kind == "query" {
			w.mu.Lock()
			w.nstmt++
			w.mu.Unlock()
		}
		if st.Err != nil && st.Kind != "rollback" {
			w.mu.Lock()
			if cl := cls[st.Inst]; cl != nil {
				cl.fails = append(cl.fails, time.Now())
			}
			w.mu.Unlock()
		}
	}
	keys := append([]string(nil), lkKeys...)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	keys = keys[:1+r.Intn(3)]
	n := 2 + r.Intn(5)
	var clients []*lkClient
	for i := 0; i < n; i++ {
		cl := &lkClient{n: i, retry: r.Intn(3) == 0, mu: &sync.Mutex{}}
		if i > 0 && r.Intn(4) == 0 && clients[i-1].mu != nil { // several goroutines on one lock object
			o := clients[i-1]
			cl.in, cl.l, cl.retry = o.in, o.l, o.retry
			o.mu, cl.mu = nil, nil
		} else {
			cl.in = w.db.newInstCfg(fmt.Sprintf("client%d", i), r.Intn(2) == 0)
			cl.l = dblock.NewDBLock(cl.in.g, w.ttl, func(o *dblock.Options) {
				o.RenewInterval, o.Retry, o.Logger = w.renew, cl.retry, logr.Discard()
			})
			cls[cl.in] = cl
		}
		clients = append(clients, cl)
	}
	faultOn = w.faulty
	base := time.Now()
	var wg sync.WaitGroup
	theft := mode != 3 && r.Intn(3) == 0
	stop := make(chan struct{})
	if theft { // leases get lost: somebody else, or an operator, replaced the row
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(w.ttl/2 + time.Duration(w.intn(int(w.ttl*2)))):
				}
				k := keys[w.intn(len(keys))]
				if w.intn(2) == 0 {
					w.db.mon.g.Exec("update resource_lock set locker_id = ?, updated_at = ? where resource = ?", fmt.Sprintf("thief%d", w.intn(1<<30)), time.Now(), k)
				} else {
					w.db.mon.g.Exec("delete from resource_lock where resource = ?", k)
				}
				c.Count("leases_taken_away", 1)
			}
		}()
	}
	var cw sync.WaitGroup
	nops := 3 + r.Intn(8)
	for _, cl := range clients {
		cw.Add(1)
		cl := cl
		cr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer cw.Done()
			for j := 0; j < nops; j++ {
				key := keys[cr.Intn(len(keys))]
				w.pause(cr, base, key)
				if cl.mu != nil && cr.Intn(5) < 2 {
					w.doRun(cl, cr, key)
				} else {
					w.doLock(cl, cr, key)
				}
			}
		}()
	}
	cw.Wait()
	close(stop)
	wg.Wait()
	w.mu.Lock()
	faultOn = false
	w.mu.Unlock()
	end := time.Now()
	w.mu.Lock()
	before := w.nstmt
	w.mu.Unlock()
	time.Sleep(3*w.renew + 10*w.maxLat)
	// nothing of a finished run goes on
	w.mu.Lock()
	after := w.nstmt
	w.mu.Unlock()
	if after != before {
		w.violate("L03", "activity-after-return", "%d statements were sent after every use of the lock had returned (renew interval %v)", after-before, w.renew)
	}
	w.mu.Lock()
	for _, f := range w.cancels {
		defer f()
	}
	w.mu.Unlock()
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, modPath+"/lock/db.") {
			w.violate("L03", "goroutine-left", "after every use of the lock returned a goroutine of it is left:\n%s", cut(g, 800))
			break
		}
	}
	// a free or expired key can be had by everybody
	time.Sleep(w.ttl + 5*w.maxLat + time.Millisecond)
	for _, k := range keys {
		cl := clients[r.Intn(len(clients))]
		op := &lkOp{cl: cl, key: k, call: time.Now()}
		kl, err := cl.l.Lock(context.Background(), k)
		op.ret, op.err, op.done = time.Now(), err, true
		if err != nil {
			w.violate("L02", "not-recoverable", "key %q cannot be acquired although every lease ended at the latest at %v: %v", k, end, err)
		}
		w.took(op, kl)
		w.mu.Lock()
		w.ops = append(w.ops, op)
		w.mu.Unlock()
	}
	w.judge()
	out := map[string]int{}
	for _, o := range w.ops {
		k := "lock"
		if o.run {
			k = "run"
		}
		switch {
		case o.err == nil:
			k += "-ok"
		case errors.Is(o.err, ddd.ErrEntityLocked):
			k += "-locked"
		default:
			k += "-error"
		}
		out[k]++
		c.Count(k, 1)
	}
	c.Count("statements", int(w.db.nstmt))
	c.Count("faults_injected", int(w.db.nfault))
	c.Distinct("%d %v %d %d %v", mode, out, len(keys), n, w.nviol)
	c.Sample("mode %d: %d clients, %d keys, ttl %v, renewal every %v: %v", mode, n, len(keys), w.ttl, w.renew, out)
}

// pause waits for the next moment of interest: common instants of all clients,
// the end of the current lease, or any.
func (w *lkWorld) pause(r *rand.Rand, base time.Time, key string) {
	switch x := r.Intn(10); {
	case x < 4:
		q := w.ttl / 2
		time.Sleep(q - time.Since(base)%q)
	case x < 7:
		var row dblock.ResourceLock
		w.db.mon.g.Raw("select * from resource_lock where resource = ?", key).Scan(&row)
		if row.LockerID != "" {
			d := time.Until(row.UpdatedAt.Add(w.ttl)) + []time.Duration{-2 * time.Millisecond, -time.Microsecond, 0, time.Microsecond, -w.maxLat, -w.maxLat / 2}[r.Intn(6)]
			time.Sleep(d)
		}
	case x < 9:
		time.Sleep(time.Duration(r.Int63n(int64(w.ttl))))
	}
}

func (w *lkWorld) took(op *lkOp, kl any) {
	if op.err != nil {
		return
	}
	l, ok := kl.(*dblock.ResourceLock)
	if !ok || l == nil {
		w.violate("L01", "no-lock-returned", "a successful acquisition returned %#v", kl)
		op.locker = "?"
		return
	}
	op.locker = l.LockerID
	if l.Resource != op.key {
		w.violate("L01", "wrong-lock-returned", "the acquisition of %q returned the lock of %q", op.key, l.Resource)
	}
}

func (w *lkWorld) add(op *lkOp) {
	w.mu.Lock()
	w.ops = append(w.ops, op)
	w.mu.Unlock()
}

func (w *lkWorld) doLock(cl *lkClient, r *rand.Rand, key string) {
	op := &lkOp{cl: cl, key: key, call: time.Now()}
	w.add(op)
	ctx := context.Background()
	if w.maxLat > 0 && r.Intn(12) == 0 {
		c, cancel := context.WithTimeout(ctx, time.Duration(r.Int63n(int64(2*w.maxLat))))
		defer cancel()
		ctx, op.exempt = c, true
	}
	kl, err := cl.l.Lock(ctx, key)
	op.err, op.ret = err, time.Now()
	w.took(op, kl)
	op.done = true
	w.c.Logf("%s client%d lock %q: %v (%s)", op.call.Format("15:04:05.000000"), cl.n, cut(key, 20), err, op.locker)
	if err != nil {
		return
	}
	switch r.Intn(6) {
	case 0: // held past its lease
		time.Sleep(w.ttl + time.Duration(r.Int63n(int64(w.ttl))))
	case 1:
		time.Sleep(w.ttl + time.Duration(r.Intn(4)-2)*time.Millisecond)
	case 2:
	default:
		time.Sleep(time.Duration(r.Int63n(int64(w.ttl))))
	}
	n := []int{0, 1, 1, 1, 1, 2}[r.Intn(6)]
	for i := 0; i < n; i++ {
		rel := &lkRel{call: time.Now()}
		op.rels = append(op.rels, rel)
		rel.err = cl.l.UnLock(context.Background(), kl)
		rel.ret = time.Now()
		w.c.Logf("%s client%d unlock %q: %v (%s)", rel.call.Format("15:04:05.000000"), cl.n, cut(key, 20), rel.err, op.locker)
		if i+1 < n {
			time.Sleep(time.Duration(r.Int63n(int64(w.ttl * 2))))
		}
	}
}

func (w *lkWorld) doRun(cl *lkClient, r *rand.Rand, key string) {
	op := &lkOp{cl: cl, key: key, run: true, call: time.Now()}
	w.add(op)
	parent, cancel := context.WithCancel(context.WithValue(context.Background(), lkKey{}, op))
	if r.Intn(2) == 0 {
		defer cancel()
	} else { // the caller's context outlives the run
		w.mu.Lock()
		w.cancels = append(w.cancels, cancel)
		w.mu.Unlock()
	}
	w.mu.Lock()
	w.runs++
	w.mu.Unlock()
	dur := []time.Duration{0, w.renew / 2, w.renew, w.renew * 3, w.ttl * 2, w.ttl * 4}[r.Intn(6)]
	if dur > 0 {
		dur += time.Duration(r.Int63n(int64(dur)))
	}
	obey := r.Intn(2) == 0 // returns when cancelled
	op.panics = r.Intn(6) == 0
	if r.Intn(5) == 0 {
		after := time.Duration(r.Int63n(int64(w.ttl * 2)))
		t := time.AfterFunc(after, func() {
			w.mu.Lock()
			op.parentAt = time.Now()
			w.mu.Unlock()
			cancel()
		})
		defer t.Stop()
	}
	func() {
		defer func() { op.escaped = recover() }()
		op.err = cl.l.Run(parent, key, func(ctx context.Context) {
			op.fnCalls++
			op.fnStart = time.Now()
			op.sameValue = ctx.Value(lkKey{}) == any(op)
			defer func() { op.fnEnd = time.Now() }()
			t := time.NewTimer(dur)
			defer t.Stop()
			select {
			case <-t.C:
			case <-ctx.Done():
				op.cancelAt, op.cause = time.Now(), ctx.Err()
				if !obey {
					<-t.C
				}
			}
			if op.panics {
				panic(injected{"run"})
			}
		})
	}()
	op.ret, op.done = time.Now(), true
	w.mu.Lock()
	w.runs--
	w.mu.Unlock()
	if r.Intn(3) == 0 {
		time.Sleep(1) // until whatever can run has run
		w.mu.Lock()
		quiet := w.runs == 0
		for _, g := range strings.Split(allStacks(), "\n\n") {
			if quiet && strings.Contains(g, modPath+"/lock/db.(*DBLock).Run") {
				defer w.violate("L03", "goroutine-left", "a run returned at %v, no other is going on, and a goroutine of it is left:\n%s", op.ret, cut(g, 800))
				break
			}
		}
		if quiet {
			w.c.Count("returns_inspected", 1)
		}
		w.mu.Unlock()
	}
	w.mu.Lock()
	if !op.parentAt.IsZero() && (op.fnCalls == 0 || op.parentAt.Before(op.ret)) {
		op.exempt = op.fnCalls == 0
	}
	w.mu.Unlock()
	w.c.Logf("%s client%d run %q: %v fn %d %s..%s cancelled %s parent %s panic %v, returned %s", op.call.Format("15:04:05.000000"), cl.n, cut(key, 20), op.err, op.fnCalls,
		op.fnStart.Format("05.000000"), op.fnEnd.Format("05.000000"), op.cancelAt.Format("05.000000"), op.parentAt.Format("05.000000"), op.escaped, op.ret.Format("15:04:05.000000"))
}

// span is a time in which the row of a key is a live lease of one holder.
type lkSpan struct {
	from, to, until time.Time // until: when the holder is replaced, removed or the case ends
	upd             time.Time
	locker          string
	lost            bool // replaced or removed while the holder did not release it
	mon             bool
}

func (w *lkWorld) judge() {
	const tol = time.Millisecond
	c := w.c
	var rows []*lkRow
	w.db.mon.g.Raw("select * from sim_lock order by seq").Scan(&rows)
	spans := map[string][]*lkSpan{} // by key
	acq := map[string]*lkRow{}      // by locker
	dels := map[string][]*lkRow{}
	lost := map[string]time.Time{}
	byKey := map[string][]*lkRow{}
	for _, r := range rows {
		r.at = time.Unix(0, r.At).UTC()
		c.Logf("row %s", r)
		byKey[r.Resource] = append(byKey[r.Resource], r)
		if (r.Op == "insert" || r.Op == "update" && r.Locker != r.OldLocker) && r.Inst != 0 {
			if acq[r.Locker] != nil {
				w.violate("L01", "locker-reused", "two leases of %q and %q carry the same owner %s", r.Resource, acq[r.Locker].Resource, r.Locker)
			}
			acq[r.Locker] = r
		}
	}
	// attribute leases to Run calls, whose owner is not returned
	byLocker := map[string]*lkOp{}
	w.mu.Lock()
	ops := append([]*lkOp(nil), w.ops...)
	w.mu.Unlock()
	for _, op := range ops {
		if !op.run && op.err == nil {
			byLocker[op.locker] = op
		}
	}
	for _, ran := range []bool{true, false} {
		for _, op := range ops {
			if !op.run || ran != (op.fnCalls > 0) {
				continue
			}
			for _, r := range rows {
				if r.Inst == op.cl.in.num && r.Resource == op.key && acq[r.Locker] == r && byLocker[r.Locker] == nil && !r.at.Before(op.call) && !r.at.After(op.ret) && (op.fnCalls == 0 || !r.at.After(op.fnStart)) {
					op.locker = r.Locker
					byLocker[r.Locker] = op
					break
				}
			}
		}
	}
	now := time.Now()
	for key, rs := range byKey {
		var cur *lkSpan
		for _, r := range rs {
			owner := byLocker[r.OldLocker]
			switch {
			case r.Op == "insert":
				cur = nil
			case r.Op == "update" && r.Locker == r.OldLocker:
				c.Count("renewals", 1)
				if r.Upd.Before(r.OldUpd) {
					w.violate("L03", "lease-shortened", "a renewal of %q moves the lease back from %v to %v", key, r.OldUpd, r.Upd)
				}
				if owner == nil || !owner.run || owner.cl.in.num != r.Inst {
					w.violate("L01", "renewed-by-stranger", "%v: not renewed by a run that holds it", r)
				} else if r.at.After(owner.ret) || owner.fnCalls == 0 {
					w.violate("L03", "renewed-after-return", "%v: the run returned at %v", r, owner.ret)
				}
				if r.at.Sub(r.Upd) > 4*w.maxLat+tol || r.Upd.Sub(r.at) > tol {
					w.violate("L03", "lease-time", "%v: the renewed lease is counted from %v", r, r.Upd)
				}
			case r.Op == "update":
				c.Count("takeovers", 1)
				if r.Inst != 0 && r.at.Sub(r.OldUpd) < w.ttl-tol {
					w.violate("L01", "taken-from-live-holder", "the lease of %s on %q was taken over %v after its last renewal, the lease time is %v", r.OldLocker, key, r.at.Sub(r.OldUpd), w.ttl)
				}
				if r.Inst != 0 && r.at.Sub(r.OldUpd) < w.ttl+w.ttl/50 {
					c.Count("takeovers_at_the_limit", 1)
				}
				lost[r.OldLocker] = r.at
			case r.Op == "delete":
				if r.Inst == 0 {
					lost[r.OldLocker] = r.at
					break
				}
				dels[r.OldLocker] = append(dels[r.OldLocker], r)
				ok := false
				if owner != nil && owner.cl.in.num == r.Inst {
					for _, rel := range owner.rels {
						ok = ok || !r.at.Before(rel.call) && (rel.ret.IsZero() || !r.at.After(rel.ret))
					}
					if owner.run && (owner.fnCalls == 0 || !r.at.Before(owner.fnEnd)) && !r.at.After(owner.ret) {
						ok = true
					}
				}
				if !ok {
					if owner != nil && owner.run && owner.cl.in.num == r.Inst {
						w.violate("L03", "released-early", "%v: the function ran from %v to %v", r, owner.fnStart, owner.fnEnd)
					} else {
						w.violate("L02", "removed-by-stranger", "%v: nobody who holds it released it", r)
					}
				}
			}
			if cur != nil {
				cur.until = r.at
				if cur.to.After(r.at) {
					cur.to = r.at
				}
			}
			cur = nil
			if r.Op != "delete" {
				cur = &lkSpan{from: r.at, to: r.Upd.Add(w.ttl), until: now, upd: r.Upd, locker: r.Locker, mon: r.Inst == 0}
				spans[key] = append(spans[key], cur)
			}
		}
	}
	// every lease belongs to somebody who was told
	if !w.faulty {
		for l, r := range acq {
			if byLocker[l] == nil {
				ex := false
				for _, op := range ops {
					ex = ex || op.exempt && op.cl.in == w.db.insts[r.Inst]
				}
				if !ex {
					w.violate("L01", "change-by-failed-attempt", "%v: no successful acquisition got this lease", r)
				}
			}
		}
	}
	live := func(key string, a, b time.Time) bool { // held, or taken by somebody, between a and b
		for _, s := range spans[key] {
			// a row appears and disappears at the commit, a few round trips after it was written
			if !s.from.After(b) && !s.to.Add(4*w.maxLat).Before(a) {
				return true
			}
		}
		for _, r := range byKey[key] { // an attempt that meets a release or takeover may lose
			if !r.at.After(b) && !r.at.Add(4*w.maxLat).Before(a) {
				return true
			}
		}
		return false
	}
	for _, op := range ops {
		who := fmt.Sprintf("client%d %q", op.cl.n, cut(op.key, 20))
		if !op.done {
			continue
		}
		limit := 5*time.Second + 40*w.maxLat
		if op.run && op.fnCalls > 0 {
			if d := op.fnStart.Sub(op.call); d > limit {
				w.violate("L03", "slow", "%s: acquired after %v", who, d)
			}
			if d := op.ret.Sub(op.fnEnd); d > w.renew+limit {
				w.violate("L03", "slow", "%s: released after %v", who, d)
			}
		} else if d := op.ret.Sub(op.call); d > limit {
			w.violate("L01", "slow", "%s: answered after %v", who, d)
		}
		prop := "L01"
		if op.run {
			prop = "L03"
			if op.fnCalls > 1 {
				w.violate("L03", "fn-repeated", "%s: the function ran %d times", who, op.fnCalls)
			}
		}
		got := op.err == nil && !op.run || op.fnCalls > 0
		if got {
			c.Count("acquisitions", 1)
			a := acq[op.locker]
			hold := op.ret
			if op.run {
				hold = op.fnStart
			}
			switch {
			case a == nil || a.Inst != op.cl.in.num || a.Resource != op.key || a.at.Before(op.call) || a.at.After(hold):
				w.violate("L01", "no-lease", "%s acquired between %v and %v, but no lease was written for it then (%v)", who, op.call, hold, a)
			case a.Upd.Before(op.call.Add(-tol)):
				w.violate("L01", "lease-time", "%s: its lease is counted from %v, it asked at %v", who, a.Upd, op.call)
			case a.Upd.After(hold.Add(tol)):
				w.violate("L02", "lease-time", "%s: its lease is counted from %v, it was acquired at %v", who, a.Upd, hold)
			}
		} else if errors.Is(op.err, ddd.ErrEntityLocked) {
			c.Count("refusals", 1)
			if !live(op.key, op.call, op.ret) {
				w.violate("L02", "refused-free-key", "%s was refused between %v and %v as locked, but nobody held the key then", who, op.call, op.ret)
			} else if op.cl.retry && w.maxLat == 0 && !w.faulty {
				if op.ret.Sub(op.call) < time.Millisecond {
					w.violate("L02", "not-retried", "%s, configured to retry, gave up at once, %v after it asked", who, op.ret.Sub(op.call))
				}
				// with retries a key that stays free for longer than their pause is acquired
				at := op.call
				for _, s := range spans[op.key] {
					if s.from.After(at) && s.from.Before(op.ret) && s.from.Sub(at) > 150*time.Millisecond && s.from.Sub(at) < time.Hour {
						w.violate("L02", "free-key-missed", "%s kept asking between %v and %v, but did not take the key, free from %v to %v", who, op.call, op.ret, at, s.from)
					}
					if s.to.After(at) && s.from.Before(op.ret) {
						at = s.to
					}
				}
				if op.ret.Sub(at) > 150*time.Millisecond {
					w.violate("L02", "free-key-missed", "%s kept asking between %v and %v, but did not take the key, free since %v", who, op.call, op.ret, at)
				}
			}
		} else if !w.faulty && !op.exempt {
			w.violate(prop, "unexpected-error", "%s: %v", who, op.err)
		}
		if op.run {
			w.judgeRun(op, who, lost, dels[op.locker])
			continue
		}
		for i, rel := range op.rels {
			var d *lkRow
			for _, x := range dels[op.locker] {
				if !x.at.Before(rel.call) && !x.at.After(rel.ret) {
					d = x
				}
			}
			c.Count("releases", 1)
			if rel.err == nil && d == nil {
				w.violate("L02", "phantom-release", "%s: release %d of %s at %v reported success, but it did not hold the lock", who, i+1, op.locker, rel.call)
			}
			if rel.err != nil {
				c.Count("releases_refused", 1)
				if d != nil && !w.faulty {
					w.violate("L02", "released-with-error", "%s: the release of %s at %v removed the lock and reported %v", who, op.locker, rel.call, rel.err)
				}
				if !w.faulty && d == nil {
					for _, s := range spans[op.key] {
						if s.locker == op.locker && !s.from.After(rel.call) && s.to.After(rel.ret) {
							w.violate("L02", "release-refused", "%s: the holder cannot release: %v", who, rel.err)
						}
					}
				}
			}
		}
	}
}

func (w *lkWorld) judgeRun(op *lkOp, who string, lost map[string]time.Time, dels []*lkRow) {
	const tol = time.Millisecond
	c := w.c
	if op.fnCalls == 0 {
		if op.err == nil && op.escaped == nil {
			w.violate("L03", "not-run", "%s: the function was not run and no error was returned", who)
		}
		if op.escaped != nil {
			w.violate("L03", "panic", "%s: the run panicked without calling the function: %v", who, op.escaped)
		}
		return
	}
	c.Count("runs", 1)
	if op.err != nil && op.escaped == nil {
		w.violate("L03", "error-after-run", "%s: the function ran to its end and the run returned %v", who, op.err)
	}
	if !op.sameValue {
		w.violate("L03", "context", "%s: the function does not see the values of the caller's context", who)
	}
	// when the lease was lost, or a statement failed
	var due time.Time
	if t, ok := lost[op.locker]; ok && !t.After(op.fnEnd) {
		due = t
		if w.safe && !w.faulty {
			c.Count("runs_lost", 1)
		}
	}
	w.mu.Lock()
	for _, f := range op.cl.fails {
		if f.After(op.fnStart) && !f.After(op.fnEnd) && (due.IsZero() || f.Before(due)) {
			due = f
		}
	}
	pa := op.parentAt
	w.mu.Unlock()
	if !pa.IsZero() && pa.Before(op.fnEnd.Add(-tol)) && op.fnEnd.Sub(op.fnStart) > tol {
		if op.cancelAt.IsZero() || op.cancelAt.Sub(pa) > tol && op.cancelAt.After(op.fnStart) {
			w.violate("L03", "cancel-not-passed-on", "%s: the caller's context was cancelled at %v, the function's at %v", who, pa, op.cancelAt)
		}
		c.Count("runs_cancelled_by_caller", 1)
	}
	slack := w.renew + 3*w.maxLat + tol
	if !due.IsZero() && op.fnEnd.Sub(due) > slack {
		c.Count("losses_judged", 1)
		if op.cancelAt.IsZero() || op.cancelAt.Sub(due) > slack {
			w.violate("L03", "loss-unnoticed", "%s: the lease of %s was lost or its renewal failed at %v, the function ran until %v and its context was cancelled at %v (renewal every %v)", who, op.locker, due, op.fnEnd, op.cancelAt, w.renew)
		}
	}
	if !op.cancelAt.IsZero() {
		why := !pa.IsZero() && !pa.After(op.cancelAt) || !due.IsZero() && !due.After(op.cancelAt)
		if !why {
			w.violate("L03", "cancelled-without-cause", "%s: the context of the function was cancelled at %v (%v), but its lease was neither lost nor did a renewal fail", who, op.cancelAt, op.cause)
		}
	}
	if t, ok := lost[op.locker]; ok && w.safe && !w.faulty && t.Before(op.fnEnd) {
		// taken by another client although it was renewed in time?
		var rows []lkRow
		w.db.mon.g.Raw("select * from sim_lock where old_locker = ? and at = ? and inst > 0 and op = 'update' and locker <> old_locker", op.locker, t.UnixNano()).Scan(&rows)
		if len(rows) > 0 && (pa.IsZero() || pa.After(t)) {
			w.violate("L03", "not-kept", "%s: another client took the lease of %s at %v while the function ran from %v to %v (ttl %v, renewal every %v)", who, op.locker, t, op.fnStart, op.fnEnd, w.ttl, w.renew)
		}
	}
	// released exactly once, unless it was lost before
	if t, ok := lost[op.locker]; len(dels) == 0 && !w.faulty && !(ok && !t.After(op.ret)) {
		w.violate("L03", "not-released", "%s: the function ended at %v (panic %v, caller's context cancelled at %v), the run at %v, and the lock was not released", who, op.fnEnd, op.panics, pa, op.ret)
	}
}

func init() {
	_ = sort.Strings
	for _, p := range []string{"L01", "L02", "L03"} {
		Register(p, Workload{Name: "lock", Quick: 2400, Thorough: 60000, Long: true, Fn: lockCase})
	}
}
