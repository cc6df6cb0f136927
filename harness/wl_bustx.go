package harness

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
)

// busTx is a transactional message and what its publisher does with it.
type busTx struct {
	n        int
	evs      []*busEv
	inst     *busInst
	commit   bool // whether the publisher's own transaction committed
	never    bool // the checker never gives an answer
	answers  []string
	timeout  time.Duration
	begun    time.Time
	beginErr bool
	released bool // the publisher or the checker asked for publication
	resolved bool // a commit or rollback call returned without error
	asked    int
}

func (w *busWorld) txHandled(tx *busTx, ev *busEv) {
	w.mu.Lock()
	rel := tx.released
	w.mu.Unlock()
	if !rel {
		w.violate("B07", "published-unasked", "event %s of transactional message %d is delivered although nobody committed the message", ev.e.ID, tx.n)
	}
	w.txState(tx)
}

// txState checks that a message is at any time either prepared, published as a
// whole or gone.
func (w *busWorld) txState(tx *busTx) (prepared, published int) {
	// one snapshot: the counts must not straddle a commit
	var r struct{ P, E, N int }
	ids := make([]string, len(tx.evs))
	for k, e := range tx.evs {
		ids[k] = e.e.ID
	}
	if err := w.db.mon.g.Raw("select (select count(*) from ddd_event_transaction where events like ?) as p, (select count(*) from ddd_domain_event where event_id in ?) as e, (select count(distinct event_id) from ddd_domain_event where event_id in ?) as n",
		`%"`+tx.evs[0].e.ID+`"%`, ids, ids).Scan(&r).Error; err != nil {
		panic(err)
	}
	w.c.Count("message_states", 1)
	switch {
	case r.E > r.N:
		w.violate("B07", "published-twice", "transactional message %d of %d events: %d event rows stored", tx.n, len(ids), r.E)
	case r.N != 0 && r.N != len(ids):
		w.violate("B07", "published-partly", "transactional message %d of %d events: only %d are stored", tx.n, len(ids), r.N)
	case r.P > 1:
		w.violate("B07", "prepared-twice", "transactional message %d has %d records", tx.n, r.P)
	case r.P == 1 && r.E > 0:
		w.violate("B07", "record-left", "transactional message %d is published while its record is still there", tx.n)
	}
	w.mu.Lock()
	rel := tx.released
	w.mu.Unlock()
	if r.E > 0 && !rel {
		w.violate("B07", "published-unasked", "transactional message %d is stored as published although nobody committed it", tx.n)
	}
	return r.P, r.N
}

// check is the status checker of every instance.
func (w *busWorld) check(i *busInst, e *ddd.DomainEvent) ddd.TXStatus {
	if i.in.isDead.Load() {
		runtime.Goexit()
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(injected); !ok {
				w.c.Inconclusive("harness panic in a checker: %v\n%s", r, cut(allStacksSelf(), 2500))
			}
			panic(r)
		}
	}()
	w.mu.Lock()
	tx := w.txs[e.ID]
	var ans string
	var dur time.Duration
	if tx != nil {
		tx.asked++
		k := tx.asked - 1
		if k < len(tx.answers) {
			ans = tx.answers[k]
		} else if tx.never {
			ans = tx.answers[k%len(tx.answers)]
		} else if tx.commit {
			ans = "commit"
		} else {
			ans = "rollback"
		}
		if w.rnd.Intn(4) == 0 {
			dur = time.Duration(w.rnd.Intn(3000)) * time.Millisecond
		}
	}
	w.mu.Unlock()
	w.c.Count("status_checks", 1)
	if tx == nil {
		w.violate("B07", "unknown-message", "the checker of service %s is asked about an event that is no transactional message: %+v", i.svc.name, *e)
		return ddd.TXRollBack
	}
	o := tx.evs[0].e
	if e.ID != o.ID || e.Type != o.Type || e.Sender != o.Sender || e.SendType != o.SendType || string(e.Payload) != string(o.Payload) {
		w.violate("B07", "message-altered", "the checker is asked about %+v, prepared as %+v", *e, *o)
	}
	if i.svc != tx.inst.svc {
		w.violate("B07", "foreign-check", "service %s is asked about a message of service %s", i.svc.name, tx.inst.svc.name)
	}
	if d := tx.begun.Add(tx.timeout).Sub(time.Now()); d > time.Millisecond {
		w.violate("B07", "asked-early", "the checker is asked about message %d %v before its timeout of %v", tx.n, d, tx.timeout)
	}
	p, _ := w.txState(tx)
	w.mu.Lock()
	faulty := w.faulty
	w.mu.Unlock()
	if p == 0 && !faulty { // a scan whose connection broke may ask in vain
		w.violate("B07", "asked-after-outcome", "the checker is asked about message %d, which has no record any more", tx.n)
	}
	w.c.Logf("%s %s is asked about message %d: %s after %v", time.Now().Format("15:04:05.000"), i.name, tx.n, ans, dur)
	if dur > 0 {
		t := time.NewTimer(dur)
		select {
		case <-t.C:
		case <-i.in.dead:
			t.Stop()
		}
	}
	if i.in.isDead.Load() {
		runtime.Goexit()
	}
	switch ans {
	case "commit":
		w.mu.Lock()
		tx.released = true
		w.mu.Unlock()
		return ddd.TXCommit
	case "rollback":
		return ddd.TXRollBack
	case "panic":
		panic(injected{"checker"})
	}
	return ddd.TXUnknown
}

// message prepares a transactional message and carries it to the end its
// publisher has in mind: commit, rollback, or nothing.
func (w *busWorld) message(i *busInst, r interface{ Intn(int) int }, timeout time.Duration) *busTx {
	tx := &busTx{inst: i, timeout: timeout, commit: r.Intn(3) > 0}
	for k, n := 0, 1+r.Intn(3); k < n; k++ {
		ev := w.newEvent(fmt.Sprintf("tx%d", r.Intn(3)), ddd.SendTypeTransaction)
		tx.evs = append(tx.evs, ev)
	}
	for k, n := 0, r.Intn(4); k < n; k++ {
		tx.answers = append(tx.answers, []string{"unknown", "unknown", "panic"}[r.Intn(3)])
	}
	if r.Intn(8) == 0 {
		tx.never = true
		tx.answers = append(tx.answers, "unknown")
	}
	w.mu.Lock()
	tx.n = len(w.msgs)
	w.msgs = append(w.msgs, tx)
	for _, e := range tx.evs {
		w.txs[e.e.ID] = tx
	}
	w.mu.Unlock()
	return tx
}

func (w *busWorld) runMessage(tx *busTx, act string, pause time.Duration, again bool) {
	i := tx.inst
	var ctx context.Context
	var err error
	must := w.services()
	w.mu.Lock()
	tx.begun = time.Now()
	for _, e := range tx.evs {
		e.must = must
	}
	w.mu.Unlock()
	if w.onInst(i.in, func() { ctx, err = i.bus.DispatchBegin(context.Background(), domain(tx.evs)...) }) || err != nil {
		// the publisher gives up: its transaction does not commit
		w.mu.Lock()
		tx.beginErr, tx.commit = true, false
		w.mu.Unlock()
		w.c.Logf("message %d on %s: prepare failed: %v", tx.n, i.name, err)
		w.c.Count("prepare_failed", 1)
		w.txState(tx)
		return
	}
	w.c.Count("prepared", 1)
	if p, e := w.txState(tx); (p != 1 || e != 0) && tx.asked == 0 {
		w.violate("B07", "not-prepared", "after preparing message %d there are %d records and %d events", tx.n, p, e)
	}
	if pause > 0 {
		time.Sleep(pause)
	}
	if i.in.isDead.Load() || act == "abandon" {
		w.c.Logf("message %d on %s: left alone (commit=%v)", tx.n, i.name, tx.commit)
		w.c.Count("abandoned", 1)
		return
	}
	if w.armed != nil {
		w.armed()
	}
	for k := 0; k < 3; k++ {
		died := false
		if tx.commit {
			w.mu.Lock()
			tx.released = true
			w.mu.Unlock()
			died = w.onInst(i.in, func() { err = i.bus.Commit(ctx) })
		} else {
			died = w.onInst(i.in, func() { err = i.bus.Rollback(ctx) })
		}
		w.c.Logf("%s message %d on %s: commit=%v call %d: %v died=%v", time.Now().Format("15:04:05.000"), tx.n, i.name, tx.commit, k+1, err, died)
		p, e := w.txState(tx)
		if err == nil && !died {
			w.mu.Lock()
			tx.resolved = true
			w.mu.Unlock()
			if p != 0 {
				w.violate("B07", "record-left", "message %d: the outcome (commit=%v) was accepted but its record is left", tx.n, tx.commit)
			}
			if tx.commit && e != len(tx.evs) {
				w.violate("B07", "commit-lost", "message %d: commit returned nil but %d of %d events are stored", tx.n, e, len(tx.evs))
			}
			if !tx.commit && e != 0 {
				w.violate("B07", "rollback-published", "message %d: rolled back but %d events are stored", tx.n, e)
			}
			w.c.Count("resolved_by_publisher", 1)
			return
		}
		if died || !again {
			return
		}
	}
}

// txEnd judges every message after everything settled.
func (w *busWorld) txEnd() {
	for _, tx := range w.msgs {
		p, e := w.txState(tx)
		desc := fmt.Sprintf("message %d of %d events (publisher's transaction committed: %v, prepared with error: %v, asked %d times, checker never answers: %v)", tx.n, len(tx.evs), tx.commit, tx.beginErr, tx.asked, tx.never)
		switch {
		case tx.never && !tx.resolved && p == 1:
			w.c.Count("left_unknown", 1)
			continue
		case p != 0:
			w.violate("B07", "undecided", "%s still has its record", desc)
		case tx.commit && e != len(tx.evs):
			w.violate("B07", "commit-lost", "%s: %d events stored", desc, e)
		case !tx.commit && e != 0:
			w.violate("B07", "rollback-published", "%s: %d events stored", desc, e)
		}
		if e > 0 {
			ids := []string{}
			may := w.services()
			for _, x := range tx.evs {
				ids = append(ids, x.e.ID)
			}
			w.checkStored(ids, tx.evs[0].must, may, true, false, desc)
			w.c.Count("messages_published", 1)
		} else {
			w.c.Count("messages_discarded", 1)
		}
	}
}

// txOpen tells how many messages still have to be decided by a checker.
func (w *busWorld) txOpen() (open []int) {
	for _, tx := range w.msgs {
		if p, _ := w.txState(tx); p > 0 && !(tx.never && !tx.resolved) {
			open = append(open, tx.n)
		}
	}
	return
}

func (w *busWorld) txSettle(svcs []*busSvc) {
	b := 30 * time.Second
	for _, s := range svcs {
		if s.txTimeout+20*s.runEvery > b {
			b = s.txTimeout + 20*s.runEvery
		}
	}
	for _, tx := range w.msgs {
		b += time.Duration(len(tx.answers)+2) * 6 * time.Second
	}
	b += 2 * lockWaitTimeout
	limit := time.Now().Add(b)
	for {
		time.Sleep(500 * time.Millisecond)
		open := w.txOpen()
		if len(open) == 0 {
			return
		}
		if time.Now().After(limit) {
			w.violate("B07", "undecided", "%v after faults ended, with live instances, messages %v are still undecided", b, open)
			return
		}
	}
}

func busTxCase(c *C) {
	alignHour()
	r := c.R
	w := newBusWorld(c)
	defer w.finish()
	mode := c.Index % 4
	if mode >= 1 && r.Intn(2) == 0 {
		w.maxLat = time.Duration(1+r.Intn(40)) * time.Millisecond
	}
	if mode >= 2 {
		w.prob = []float64{0.02, 0.05, 0.15}[r.Intn(3)]
		w.kinds = []simFault{fBefore, fAfter}
		if mode == 3 {
			w.kinds = append(w.kinds, fDieBefore, fDieAfter)
			w.prob /= 2
		}
	}
	var svcs []*busSvc
	for k, n := 0, 1+r.Intn(2); k < n; k++ {
		s := w.newSvc(fmt.Sprintf("svc%d", k+1))
		w.planFor(s, []int{0, 0, 20}[r.Intn(3)])
		s.txTimeout = []time.Duration{time.Second, 5 * time.Second, 20 * time.Second}[r.Intn(3)]
		prev := s.opts
		s.opts = func(o *ebmysql.Options) {
			prev(o)
			o.TXCheckTimeout = s.txTimeout
		}
		svcs = append(svcs, s)
		for j, m := 0, 1+r.Intn(3); j < m; j++ {
			w.newInst(s, j == 0 || r.Intn(3) > 0)
		}
	}
	setFault := func(on bool) {
		w.mu.Lock()
		w.faultOn = on
		w.mu.Unlock()
	}
	setFault(mode >= 2)
	shape := ""
	done := make(chan struct{}, 100)
	running := 0
	for k, n := 0, 4+r.Intn(12); k < n; k++ {
		s := svcs[r.Intn(len(svcs))]
		l := w.live(s)
		if len(l) == 0 {
			setFault(false)
			w.newInst(s, true)
			setFault(mode >= 2)
			l = w.live(s)
		}
		i := l[r.Intn(len(l))]
		tx := w.message(i, r, s.txTimeout)
		act := []string{"go", "go", "abandon"}[r.Intn(3)]
		var pause time.Duration
		switch r.Intn(4) {
		case 0:
			pause = time.Duration(r.Intn(300)) * time.Millisecond
		case 1:
			pause = time.Duration(r.Int63n(int64(2 * s.txTimeout))) // about the time of the check
		case 2:
			pause = s.txTimeout + time.Duration(r.Int63n(int64(3*s.runEvery)))
		}
		again := r.Intn(2) == 0
		shape += fmt.Sprintf("%s%v%d ", act[:1], tx.commit, len(tx.answers))
		running++
		go func() {
			defer func() { done <- struct{}{} }()
			w.runMessage(tx, act, pause, again)
		}()
		if mode == 3 && r.Intn(5) == 0 {
			w.kill(i)
			shape += "k "
		}
		if r.Intn(3) == 0 {
			w.publish2(svcs, r.Intn(1000))
		}
		time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
	}
	for ; running > 0; running-- {
		<-done
	}
	setFault(false)
	for _, s := range svcs {
		n := 0
		for _, i := range w.live(s) {
			if i.started {
				n++
			}
		}
		if n == 0 {
			w.newInst(s, true)
		}
	}
	w.txSettle(svcs)
	w.settle()
	w.txEnd()
	w.judgeEnd()
	asked := 0
	for _, tx := range w.msgs {
		asked += tx.asked
	}
	c.Count("messages", len(w.msgs))
	c.Distinct("%d %s %d %d", mode, shape, asked, len(w.order))
	c.Sample("%d transactional messages on %d services, checkers asked %d times, %d faults", len(w.msgs), len(svcs), asked, w.db.nfault)
}

// publish2 mixes ordinary events in.
func (w *busWorld) publish2(svcs []*busSvc, n int) {
	for _, s := range svcs {
		if l := w.live(s); len(l) > 0 {
			w.publish(l[n%len(l)], []*busEv{w.newEvent("n", ddd.SendTypeNormal)})
			return
		}
	}
}

// busEnumCase strikes every statement of publishing, preparing, committing and
// rolling back with every kind of fault.
func busEnumCase(c *C) {
	alignHour()
	r := c.R
	w := newBusWorld(c)
	defer w.finish()
	op := []string{"dispatch", "dispatch", "begin", "commit", "rollback"}[c.Index%5]
	if c.Prop == "B01" {
		op = "dispatch"
	} else if op == "dispatch" {
		op = "commit"
	}
	nsvc := 1 + r.Intn(3)
	var svcs []*busSvc
	for k := 0; k < nsvc; k++ {
		s := w.newSvc(fmt.Sprintf("svc%d", k+1))
		s.txTimeout = 5 * time.Second
		s.runEvery = time.Second
		prev := s.opts
		s.opts = func(o *ebmysql.Options) {
			prev(o)
			o.TXCheckTimeout = s.txTimeout
		}
		s.plan = func(*busEv, int) busOut { return busOut{what: "ok"} }
		svcs = append(svcs, s)
		w.newInst(s, false)
	}
	s := svcs[0]
	steps := 0
	for _, kind := range []simFault{fBefore, fAfter, fDieBefore, fDieAfter} {
		for k := 1; ; k++ {
			i := w.newInst(s, false)
			hit := ""
			n := 0
			arm := false
			w.db.onStmt = func(st *simStmt) simFault {
				if !arm || st.Inst != i.in {
					return fNone
				}
				n++
				if n == k {
					hit = strings.Fields(st.SQL)[0]
					w.faulty = true
					return kind
				}
				return fNone
			}
			switch op {
			case "dispatch":
				var evs []*busEv
				for j, m := 0, 1+r.Intn(3); j < m; j++ {
					evs = append(evs, w.newEvent("a", []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[r.Intn(3)]))
				}
				arm = true
				w.publish(i, evs)
			default:
				tx := w.message(i, r, s.txTimeout)
				tx.answers, tx.never = nil, false
				tx.commit = op == "commit" || op == "begin" && r.Intn(2) == 0
				if op == "begin" {
					arm = true
					w.runMessage(tx, "go", 0, false)
				} else {
					w.runMessageArmed(tx, func() { arm = true }, r.Intn(2) == 0)
				}
			}
			arm = false
			if hit == "" {
				break
			}
			steps++
			c.Count("fault_points", 1)
			c.Distinct("%s %v %d %s %d", op, kind, k, hit, nsvc)
			if k > 60 {
				break
			}
		}
	}
	w.db.onStmt = nil
	for _, s := range svcs {
		w.newInst(s, true)
	}
	w.txSettle(svcs)
	w.settle()
	w.txEnd()
	w.judgeEnd()
	c.Count("messages", len(w.msgs))
	c.Sample("%s: %d fault points", op, steps)
}

// runMessageArmed prepares undisturbed and arms the fault for the outcome call.
func (w *busWorld) runMessageArmed(tx *busTx, arm func(), again bool) {
	w.armed = arm
	w.runMessage(tx, "go", 0, again)
	w.armed = nil
}

func init() {
	Register("B07", Workload{Name: "bustx", Quick: 500, Thorough: 30000, Long: true, Fn: busTxCase})
	Register("B07", Workload{Name: "busenum", Quick: 80, Thorough: 2000, Long: true, Fn: busEnumCase})
	Register("B01", Workload{Name: "busenum", Quick: 160, Thorough: 4000, Long: true, Fn: busEnumCase})
}
