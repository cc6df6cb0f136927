package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/go-logr/logr"
)

// busWorld runs services of the database event bus on one simulated server and
// judges every handler call when it happens.
type busWorld struct {
	c        *C
	db       *simDB
	mu       sync.Mutex
	rnd      *rand.Rand // guarded by mu: decisions of concurrent goroutines
	svcs     map[string]*busSvc
	evs      map[string]*busEv
	order    []*busEv
	calls    []*busCall
	active   map[string]*busCall
	faulty   bool // some fault, death or lock timeout may have touched the case
	faultOn  bool
	prob     float64
	kinds    []simFault
	maxLat   time.Duration
	jumped   bool
	maxConn  int        // connections of an instance, 0: any number
	txs      map[string]*busTx // by event id of the message
	msgs     []*busTx
	armed    func()
	handlers int64
	nviol    int
}

type busSvc struct {
	name      string
	insts     []*busInst
	ninst     int
	strat     string
	limit     int
	interval  time.Duration
	custom    []time.Duration
	runEvery  time.Duration
	opts      func(o *ebmysql.Options)
	perRun    int
	retention time.Duration
	txTimeout time.Duration
	plan      func(ev *busEv, n int) busOut
	busyTime  time.Duration // total handler time
}

type busOut struct {
	what string // ok error panic
	long string // appended to the failure
	dur  time.Duration
}

type busInst struct {
	svc     *busSvc
	name    string
	in      *simInst
	bus     *ebmysql.EventBus
	started bool
	cancel  context.CancelFunc
}

type busEv struct {
	e     *ddd.DomainEvent
	pub   *busPub
	n     int
	fails int             // failures before success, 0: as the plan draws it
	gone  bool            // its row was removed by hand
	must  map[string]bool // services registered before publishing
	may   map[string]bool
}

type busPub struct {
	n          int
	evs        []*busEv
	start, end time.Time
	done       bool
	err        error
	died       bool
}

type busCall struct {
	svc, ev    string
	inst       *busInst
	start, end time.Time
	startCount int
	n          int
	out        string
	over       bool
}

type spoRow struct {
	ID            int64
	Service       string
	EventID       int64
	RetryCount    int
	Status        int
	FailedMessage string
	NextTime      time.Time
	RunAt         time.Time
}

type evRow struct {
	ID             int64
	EventID        string
	Sender         string
	TransID        int64
	EventCreatedAt time.Time
}

const (
	stInit    = int(ebmysql.ServiceEventStatusInit)
	stOK      = int(ebmysql.ServiceEventStatusSuccess)
	stFailed  = int(ebmysql.ServiceEventStatusFailed)
	stExpired = int(ebmysql.ServiceEventStatusExpired)
)

func newBusWorld(c *C) *busWorld {
	w := &busWorld{c: c, db: newSimDB(), rnd: rand.New(rand.NewSource(c.R.Int63())), svcs: map[string]*busSvc{},
		evs: map[string]*busEv{}, active: map[string]*busCall{}, txs: map[string]*busTx{}}
	w.db.tracing = true
	w.db.lat = func(*simStmt) time.Duration {
		if w.maxLat == 0 {
			return 0
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.rnd.Intn(3) > 0 {
			return 0
		}
		return time.Duration(w.rnd.Int63n(int64(w.maxLat)))
	}
	w.db.onStmt = func(st *simStmt) simFault {
		w.mu.Lock()
		defer w.mu.Unlock()
		if !w.faultOn || len(w.kinds) == 0 || w.rnd.Float64() >= w.prob {
			return fNone
		}
		w.faulty = true
		return w.kinds[w.rnd.Intn(len(w.kinds))]
	}
	return w
}

// align lets every case start at the same time of the day.
func alignHour() {
	n := time.Now()
	time.Sleep(n.Truncate(time.Hour).Add(time.Hour).Sub(n))
}

func (w *busWorld) violate(prop, sig, f string, a ...any) {
	w.c.mu.Lock()
	n := w.nviol
	w.nviol++
	w.c.mu.Unlock()
	if n > 8 {
		return
	}
	msg := fmt.Sprintf(f, a...)
	w.db.mu.Lock()
	tr := w.db.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	lines := make([]string, len(tr))
	for i := range tr {
		lines[i] = tr[i].String()
	}
	w.db.mu.Unlock()
	w.c.Violate(prop, sig, "%s\nlast statements:\n%s", msg, cut(strings.Join(lines, "\n"), 9000))
}

func quietLogger() logr.Logger { return logr.Discard() }

// newSvc draws the options of a service.
func (w *busWorld) newSvc(name string) *busSvc {
	r := w.c.R
	s := &busSvc{name: name, perRun: []int{100, 100, 7, 3}[r.Intn(4)], runEvery: []time.Duration{200, 1000, 2000}[r.Intn(3)] * time.Millisecond}
	conc := []int{1, 1, 2, 4}[r.Intn(4)]
	s.strat = []string{"interval", "interval", "custom", "user", "default", "limit"}[r.Intn(6)]
	switch s.strat {
	case "interval":
		s.limit, s.interval = r.Intn(4), []time.Duration{10 * time.Millisecond, s.runEvery, 3 * s.runEvery}[r.Intn(3)]
	case "custom":
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			s.custom = append(s.custom, time.Duration(1+r.Int63n(int64(3*s.runEvery))))
		}
	case "user":
		s.limit, s.interval = r.Intn(4), time.Duration(r.Int63n(int64(2*s.runEvery)))
	case "default":
		s.limit, s.interval = 5, 3*time.Second
	case "limit":
		s.limit = r.Intn(4)
	}
	both := r.Intn(2) == 0 // weaker settings given as well
	s.opts = func(o *ebmysql.Options) {
		o.RunInterval, o.LimitPerRun, o.ConsumeConcurrent = s.runEvery, s.perRun, conc
		o.CleanCron = "0 0 0 1 1 *"
		o.Logger = quietLogger()
		switch s.strat {
		case "interval":
			o.RetryInterval, o.RetryLimit = s.interval, s.limit
		case "custom":
			o.CustomRetry = s.custom
			if both {
				o.RetryLimit = 7 // means nothing without an interval
			}
		case "user":
			o.RetryStrategy = &userRetry{s}
			if both { // the strategy supplied goes before the other settings
				o.RetryInterval, o.RetryLimit, o.CustomRetry = 3*s.runEvery, s.limit+3, []time.Duration{time.Second}
			}
		case "limit":
			o.RetryStrategy = &ebmysql.LimitRetry{Limit: s.limit}
		}
	}
	w.svcs[name] = s
	w.c.Logf("service %s: strategy %s limit %d interval %v custom %v poll %v perRun %d conc %d", name, s.strat, s.limit, s.interval, s.custom, s.runEvery, s.perRun, conc)
	return s
}

// userRetry is a strategy supplied by the user: limit retries, growing pauses.
type userRetry struct{ s *busSvc }

func (u *userRetry) Next(i *ebmysql.RetryInfo) *ebmysql.RetryInfo {
	if i.RetryCount >= u.s.limit {
		return nil
	}
	return &ebmysql.RetryInfo{ID: i.ID, RetryCount: i.RetryCount + 1, RetryTime: time.Now().Add(u.s.pause(i.RetryCount + 1))}
}
func (u *userRetry) RetryCount() int { return u.s.limit }

// maxAttempts and pause are what the configuration prescribes.
func (s *busSvc) maxAttempts() int {
	switch s.strat {
	case "custom":
		return 1 + len(s.custom)
	case "user":
		return 1 + s.limit
	}
	return s.limit + 2 // the built-in limits count the retries after the first one
}

// pause is the time between the end of failure n (from 1) and the next attempt.
func (s *busSvc) pause(n int) time.Duration {
	switch s.strat {
	case "custom":
		if n-1 < len(s.custom) {
			return s.custom[n-1]
		}
		return 0
	case "user":
		return s.interval * time.Duration(n)
	case "limit":
		return 0
	}
	return s.interval
}

// newInst starts an instance of a service.
func (w *busWorld) newInst(s *busSvc, start bool) *busInst {
	s.ninst++
	i := &busInst{svc: s, name: fmt.Sprintf("%s.%d", s.name, s.ninst)}
	i.in = w.db.newInst(i.name)
	if w.maxConn > 0 {
		i.in.sdb.SetMaxOpenConns(w.maxConn)
	}
	troubles := func() int64 {
		w.db.mu.Lock()
		defer w.db.mu.Unlock()
		return w.db.nfault + w.db.ntimeo
	}
	before := troubles()
	i.bus = ebmysql.NewEventBus(s.name, i.in.g, s.opts)
	if troubles() == before && !w.services()[s.name] {
		w.violate("B02", "not-registered", "creating a bus does not register its service %s", s.name)
	}
	i.bus.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error { return w.handle(i, e) })
	i.bus.RegisterEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus { return w.check(i, e) })
	if start {
		i.start(w)
	}
	w.mu.Lock()
	s.insts = append(s.insts, i)
	w.mu.Unlock()
	return i
}

func (i *busInst) start(w *busWorld) {
	i.started = true
	i.bus.Start(context.Background())
}

// trigger is the post-save hook the bus installs in the engine.
func (i *busInst) trigger() {
	var o ddd.Options
	for _, x := range i.bus.Options() {
		x.ApplyToOptions(&o)
	}
	for _, h := range o.PostSaveHooks {
		h(context.Background(), &ddd.Result{})
	}
}

func (w *busWorld) kill(i *busInst) {
	w.mu.Lock()
	w.faulty = true
	w.mu.Unlock()
	i.in.die()
}

func (w *busWorld) live(s *busSvc) (r []*busInst) {
	for _, i := range s.insts {
		if !i.in.isDead.Load() {
			r = append(r, i)
		}
	}
	return
}

func (w *busWorld) services() map[string]bool {
	var names []string
	w.db.mon.g.Raw("select name from ddd_eventbus_service").Scan(&names)
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

func (w *busWorld) newEvent(sender string, st ddd.SendType) *busEv {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.order)
	ev := &busEv{n: n, e: &ddd.DomainEvent{ID: fmt.Sprintf("e%d-%d", w.c.Index, n), Type: ddd.EventType(fmt.Sprintf("t%d", n%3)),
		SendType: st, Sender: sender, Payload: []byte(fmt.Sprintf(`{"n":%d,"s":"ü\"%d"}`, n, w.rnd.Int63())), CreatedAt: time.Now()}}
	w.evs[ev.e.ID] = ev
	w.order = append(w.order, ev)
	return ev
}

func domain(evs []*busEv) []*ddd.DomainEvent {
	r := make([]*ddd.DomainEvent, len(evs))
	for i, e := range evs {
		cp := *e.e
		cp.Payload = append([]byte(nil), e.e.Payload...)
		r[i] = &cp
	}
	return r
}

// onInst runs f in a goroutine of the instance; it reports whether the
// instance died during the call.
func (w *busWorld) onInst(i *simInst, f func()) (died bool) {
	ch := make(chan bool, 1)
	go func() {
		fin := false
		defer func() {
			if r := recover(); r != nil {
				fr := repoFrames(allStacksSelf())
				w.violate(w.c.Prop, "panic:"+strings.Join(fr[:min(1, len(fr))], ""), "the caller got a panic: %v", r)
				fin = true
			}
			ch <- !fin
		}()
		f()
		fin = true
	}()
	return <-ch
}

// publish dispatches events and checks that it is all or nothing (B01).
func (w *busWorld) publish(i *busInst, evs []*busEv) *busPub {
	p := &busPub{evs: evs, start: time.Now()}
	must := w.services()
	w.mu.Lock()
	for _, e := range evs {
		e.pub, e.must = p, must
	}
	w.mu.Unlock()
	self := w.db.nself.Load()
	p.died = w.onInst(i.in, func() { p.err = i.bus.Dispatch(context.Background(), domain(evs)...) })
	if w.db.nself.Load() > self {
		w.violate("B01", "split-transaction", "a publication writes on two connections, so that either part can be kept without the other")
	}
	p.end, p.done = time.Now(), true
	may := w.services()
	w.mu.Lock()
	for _, e := range evs {
		e.may = may
	}
	w.mu.Unlock()
	w.c.Count("publications", 1)
	ids := make([]string, len(evs))
	for k, e := range evs {
		ids[k] = e.e.ID
	}
	w.c.Logf("%s publish %v on %s: err=%v died=%v", p.start.Format("15:04:05.000"), ids, i.name, p.err, p.died)
	w.checkStored(ids, must, may, p.err == nil && !p.died, p.err != nil || p.died, fmt.Sprintf("publishing %v (error %v, died %v)", ids, p.err, p.died))
	return p
}

// stored returns the rows of the events and their deliveries.
func (w *busWorld) stored(ids []string) ([]evRow, []spoRow) {
	var ers []evRow
	var srs []spoRow
	if err := w.db.mon.g.Raw("select id,event_id,sender,trans_id,event_created_at from ddd_domain_event where event_id in ? order by id", ids).Scan(&ers).Error; err != nil {
		panic(err)
	}
	eids := make([]int64, len(ers))
	for k, e := range ers {
		eids[k] = e.ID
	}
	if len(eids) > 0 {
		w.db.mon.g.Raw("select id,service,event_id,retry_count,status,failed_message,next_time,run_at from ddd_domain_service_event where event_id in ? order by id", eids).Scan(&srs)
	}
	return ers, srs
}

func (w *busWorld) checkStored(ids []string, must, may map[string]bool, all, orNothing bool, what string) {
	ers, srs := w.stored(ids)
	if len(ers) == 0 && len(srs) == 0 && !all {
		w.c.Count("publications_nothing", 1)
		return
	}
	n := map[string]int{}
	for _, e := range ers {
		n[e.EventID]++
	}
	for _, id := range ids {
		if n[id] != 1 {
			w.violate("B01", "events-partial", "%s: event %s is stored %d times, the call stored %d event rows", what, id, n[id], len(ers))
			return
		}
	}
	d := map[string]int{}
	for _, s := range srs {
		d[fmt.Sprintf("%s/%d", s.Service, s.EventID)]++
		if !may[s.Service] {
			w.violate("B01", "unknown-service", "%s: a delivery for service %q, which is not registered", what, s.Service)
		}
	}
	for _, e := range ers {
		for s := range may {
			k := d[fmt.Sprintf("%s/%d", s, e.ID)]
			if k > 1 || k == 0 && must[s] {
				w.violate("B01", "deliveries-partial", "%s: event %s has %d deliveries for service %s", what, e.EventID, k, s)
				return
			}
		}
	}
	w.c.Count("publications_stored", 1)
}

func callKey(svc, ev string) string { return svc + "|" + ev }

// handle is the event handler of every instance.
func (w *busWorld) handle(i *busInst, e *ddd.DomainEvent) error {
	if i.in.isDead.Load() {
		runtime.Goexit()
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(injected); !ok { // a fault of the harness must not look like one of a handler
				w.c.Inconclusive("harness panic in a handler: %v\n%s", r, cut(allStacksSelf(), 2500))
			}
			panic(r)
		}
	}()
	now := time.Now()
	s := i.svc
	w.mu.Lock()
	ev := w.evs[e.ID]
	if ev == nil {
		w.mu.Unlock()
		w.violate("B02", "unknown-event", "service %s was handed an event that was never published: %+v", s.name, e)
		return nil
	}
	k := callKey(s.name, e.ID)
	n := 1
	for _, c := range w.calls {
		if c.svc == s.name && c.ev == e.ID {
			n++
		}
	}
	call := &busCall{svc: s.name, ev: e.ID, inst: i, start: now, n: n}
	prev := w.active[k]
	w.active[k] = call
	w.calls = append(w.calls, call)
	out := s.plan(ev, n)
	tx := w.txs[e.ID]
	w.mu.Unlock()
	w.c.Count("handler_calls", 1)
	// an instance that died just now (its locks are gone) may get as far as here
	if prev != nil && !prev.over && !prev.inst.in.isDead.Load() && !i.in.isDead.Load() {
		w.violate("B03", "concurrent-handling", "service %s: event %s is handled by %s while %s still handles it", s.name, e.ID, i.name, prev.inst.name)
	}
	if o := ev.e; e.Type != o.Type || e.SendType != o.SendType || e.Sender != o.Sender || string(e.Payload) != string(o.Payload) || !e.CreatedAt.Truncate(time.Millisecond).Equal(o.CreatedAt.Truncate(time.Millisecond)) {
		w.violate("B02", "event-altered", "service %s: event %s arrived as %+v payload %s, published as %+v payload %s", s.name, e.ID, *e, e.Payload, *o, o.Payload)
	}
	if tx != nil {
		w.txHandled(tx, ev)
	}
	w.judgeStart(call, ev)
	defer func() {
		w.mu.Lock()
		call.over, call.end = true, time.Now()
		s.busyTime += call.end.Sub(call.start)
		w.mu.Unlock()
	}()
	if out.dur > 0 {
		t := time.NewTimer(out.dur)
		select {
		case <-t.C:
		case <-i.in.dead:
			t.Stop()
		}
	}
	if i.in.isDead.Load() {
		call.out = "died"
		runtime.Goexit()
	}
	call.out = out.what
	w.c.Logf("%s %s handles %s attempt %d (recorded %d): %s after %v", now.Format("15:04:05.000"), i.name, e.ID, n, call.startCount, out.what, out.dur)
	switch out.what {
	case "error":
		return errors.New("handler says no to " + e.ID + out.long)
	case "panic":
		panic(injected{"handler " + e.ID + out.long})
	}
	return nil
}

func ordered(t ddd.SendType) bool { return t == ddd.SendTypeFIFO || t == ddd.SendTypeLaxFIFO }

// judgeStart looks at the committed state when a handler begins.
func (w *busWorld) judgeStart(call *busCall, ev *busEv) {
	s := call.inst.svc
	var er []evRow
	g := w.db.mon.g
	if err := g.Raw("select id,event_id,sender,event_created_at from ddd_domain_event where event_id = ?", ev.e.ID).Scan(&er).Error; err != nil {
		panic(err)
	}
	if len(er) == 0 {
		w.mu.Lock()
		gone := ev.gone
		w.mu.Unlock()
		if gone || call.inst.in.isDead.Load() {
			return
		}
		w.violate("B08", "event-removed", "service %s handles event %s whose row is gone", s.name, ev.e.ID)
		return
	}
	// a transactional message published twice is B07's; find this call's row by its delivery
	var rows []spoRow
	ids := []int64{}
	for _, e := range er {
		ids = append(ids, e.ID)
	}
	g.Raw("select id,service,event_id,retry_count,status,failed_message,next_time from ddd_domain_service_event where service = ? and event_id in ?", s.name, ids).Scan(&rows)
	if call.inst.in.isDead.Load() {
		return // since when, the rows do not tell
	}
	if len(rows) == 0 {
		w.violate("B03", "no-delivery", "service %s handles event %s without a delivery record (already cleaned?)", s.name, ev.e.ID)
		return
	}
	if len(rows) > 1 || len(er) > 1 {
		return // judged by B01 / B07
	}
	r := rows[0]
	call.startCount = r.RetryCount
	switch r.Status {
	case stInit:
	case stOK:
		w.violate("B03", "handled-after-success", "service %s: event %s is handled by %s although its success is recorded", s.name, ev.e.ID, call.inst.name)
	default:
		w.violate("B06", "handled-after-end", "service %s: event %s is handled by %s although its delivery ended with status %d", s.name, ev.e.ID, call.inst.name, r.Status)
	}
	if d := r.NextTime.Sub(call.start); d > time.Millisecond && r.Status == stInit {
		w.violate("B06", "too-early", "service %s: event %s is handled %v before its next time", s.name, ev.e.ID, d)
	}
	// pause after the failure that was recorded last
	if r.RetryCount > 0 {
		w.mu.Lock()
		var last *busCall
		for _, c := range w.calls {
			if c != call && c.svc == call.svc && c.ev == call.ev && c.over && c.startCount == r.RetryCount-1 && c.out != "ok" && c.out != "died" {
				last = c
			}
		}
		w.mu.Unlock()
		if last == nil {
			w.violate("B06", "count-without-failure", "service %s: event %s has %d recorded failures, which its handler did not return", s.name, ev.e.ID, r.RetryCount)
		} else if got, want := call.start.Sub(last.end), s.pause(r.RetryCount); got < want-time.Millisecond {
			w.violate("B06", "pause-too-short", "service %s (%s): retry %d of event %s came %v after the failure, configured %v", s.name, s.strat, r.RetryCount, ev.e.ID, got, want)
		}
		w.c.Count("retries_seen", 1)
	}
	if r.RetryCount+1 > s.maxAttempts() {
		w.violate("B06", "too-many-attempts", "service %s (%s): attempt %d of event %s, the configuration allows %d", s.name, s.strat, r.RetryCount+1, ev.e.ID, s.maxAttempts())
	}
	if ordered(ev.e.SendType) {
		w.judgeOrder(call, ev, er[0])
	}
}

// chain returns the deliveries of the service for the earlier ordered events
// of the same sender, nearest first.
func (w *busWorld) chain(svc string, er evRow) (out []*busEv, rows []*spoRow) {
	var rs []struct {
		ID      int64
		EventID string
		Status  *int
		Sid     *int64 `gorm:"column:sid"`
	}
	w.db.mon.g.Raw(`select e.id, e.event_id, s.status, s.id as sid
		from (select id, event_id from ddd_domain_event where sender = ? union all select id, evid from sim_deleted where tbl = 'event' and inst > 0 and sender = ?) e
		left join (select id, event_id, status from ddd_domain_service_event where service = ? union all select id, event_id, status from sim_deleted where tbl = 'delivery' and service = ?) s on s.event_id = e.id
		where e.id < ? order by e.id desc`, er.Sender, er.Sender, svc, svc, er.ID).Scan(&rs)
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, r := range rs {
		p := w.evs[r.EventID]
		if p == nil || !ordered(p.e.SendType) {
			continue
		}
		out = append(out, p)
		if r.Status == nil {
			rows = append(rows, nil)
		} else {
			rows = append(rows, &spoRow{ID: *r.Sid, Status: *r.Status, EventID: r.ID})
		}
	}
	return
}

const orderedExpiry = 24 * time.Hour

func (w *busWorld) judgeOrder(call *busCall, ev *busEv, er evRow) {
	w.c.Count("ordered_starts", 1)
	evs, rows := w.chain(call.svc, er)
	for k, p := range evs {
		if rows[k] == nil {
			continue // cleaned, or the service came later
		}
		if call.start.Sub(p.e.CreatedAt) > orderedExpiry {
			return // expired
		}
		st := rows[k].Status
		if ev.e.SendType == ddd.SendTypeFIFO {
			// nearest ordered event must have succeeded; among strictly ordered ones all must
			if (k == 0 || p.e.SendType == ddd.SendTypeFIFO && allFIFO(evs[:k])) && st != stOK && st != stExpired {
				w.violate("B04", "out-of-order", "service %s: %s event %s of sender %s is handled by %s while the preceding %s event %s has status %d", call.svc, ev.e.SendType, ev.e.ID, er.Sender, call.inst.name, p.e.SendType, p.e.ID, st)
				return
			}
		} else if st == stInit && (k == 0 || allLax(evs[:k+1])) {
			w.violate("B05", "before-outcome", "service %s: %s event %s of sender %s is handled by %s while the preceding %s event %s is still pending", call.svc, ev.e.SendType, ev.e.ID, er.Sender, call.inst.name, p.e.SendType, p.e.ID)
			return
		}
		if k == 0 {
			w.c.Count("ordered_with_predecessor", 1)
		}
	}
}

func allFIFO(e []*busEv) bool {
	for _, x := range e {
		if x.e.SendType != ddd.SendTypeFIFO {
			return false
		}
	}
	return true
}
func allLax(e []*busEv) bool {
	for _, x := range e {
		if x.e.SendType != ddd.SendTypeLaxFIFO {
			return false
		}
	}
	return true
}

// pending returns the deliveries that still have to be handled: neither ended
// nor blocked for good behind a failed predecessor.
func (w *busWorld) pending() (open []string) {
	type row struct {
		EventID string
		Sender  string
		Service string
		Status  int
		Rid     int64
	}
	var rs []row
	if err := w.db.mon.g.Raw("select e.event_id, e.sender, s.service, s.status, e.id as rid from ddd_domain_event e join ddd_domain_service_event s on s.event_id = e.id order by e.id").Scan(&rs).Error; err != nil {
		panic(err)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	type st struct {
		blocked bool // the next strictly ordered event cannot run for good
		open    bool // still undecided
	}
	chain := map[string]*st{}
	now := time.Now()
	for _, r := range rs {
		s := w.svcs[r.Service]
		ev := w.evs[r.EventID]
		if s == nil || ev == nil || len(w.liveLocked(s)) == 0 {
			continue
		}
		if now.Sub(ev.e.CreatedAt) > orderedExpiry-time.Minute {
			continue
		}
		t := ev.e.SendType
		if !ordered(t) {
			if r.Status == stInit {
				open = append(open, r.Service+"/"+r.EventID)
			}
			continue
		}
		k := r.Service + "|" + r.Sender
		c := chain[k]
		if c == nil {
			c = &st{}
			chain[k] = c
		}
		if r.Status == stInit && !(t == ddd.SendTypeFIFO && c.blocked) && !(t == ddd.SendTypeLaxFIFO && c.open && c.blocked) {
			open = append(open, r.Service+"/"+r.EventID)
		}
		// how it stands for the next one
		switch r.Status {
		case stOK, stExpired:
			c.blocked, c.open = false, false
		case stInit:
			c.blocked = c.blocked && (t == ddd.SendTypeFIFO || c.open)
			c.open = true
		default:
			c.blocked, c.open = true, false
		}
	}
	return open
}

func (w *busWorld) liveLocked(s *busSvc) (r []*busInst) {
	for _, i := range s.insts {
		if i.started && !i.in.isDead.Load() {
			r = append(r, i)
		}
	}
	return
}

// quiet is the longest time in which a live system with something to handle
// calls no handler.
func (w *busWorld) quiet() time.Duration {
	w.mu.Lock()
	defer w.mu.Unlock()
	b := 20 * time.Second
	for _, s := range w.svcs {
		t := 10*s.runEvery + 100*w.maxLat
		var m time.Duration
		for n := 1; n <= s.maxAttempts(); n++ {
			if p := s.pause(n); p > m {
				m = p
			}
		}
		if t += m + 4*s.runEvery; t > b {
			b = t
		}
	}
	return b + lockWaitTimeout
}

// settle waits until everything that can be handled is. Handlers are called a
// bounded number of times, so either everything gets handled or the calls end;
// what is open then violates B02.
func (w *busWorld) settle() {
	step := 100 * time.Millisecond
	q := w.quiet()
	w.mu.Lock()
	last, since, most := len(w.calls), time.Now(), len(w.calls)
	for _, s := range w.svcs {
		most += len(w.order) * (s.maxAttempts() + 1)
	}
	w.mu.Unlock()
	for {
		time.Sleep(step)
		if step < 2*time.Second {
			step = step * 3 / 2
		}
		open := w.pending()
		if len(open) == 0 {
			time.Sleep(50 * time.Millisecond)
			return
		}
		w.mu.Lock()
		n := len(w.calls)
		w.mu.Unlock()
		if n != last {
			last, since = n, time.Now()
		}
		if n > most {
			w.violate("B06", "endless", "%d handler calls for %d events: %v", n, len(w.order), open)
			return
		}
		if time.Since(since) > q {
			sort.Strings(open)
			w.violate("B02", "not-delivered", "for %v without faults and with live instances no handler was called, although these deliveries are pending: %v", q, open)
			for _, o := range open {
				_, id, _ := strings.Cut(o, "/")
				if ev := w.evs[id]; ev != nil && ev.e.SendType == ddd.SendTypeLaxFIFO {
					w.violate("B05", "never-handled", "a loosely ordered event stays pending: %s of %v", o, open)
				} else if ev != nil && ev.e.SendType == ddd.SendTypeFIFO {
					w.violate("B04", "never-handled", "a strictly ordered event stays pending although nothing before it is: %s of %v", o, open)
				} else if ev != nil {
					w.violate("B09", "held-up", "an unordered event stays pending: %s of %v", o, open)
				}
			}
			return
		}
	}
}

// judgeEnd compares the deliveries with the handler calls.
func (w *busWorld) judgeEnd() {
	ids := []string{}
	w.mu.Lock()
	for _, e := range w.order {
		ids = append(ids, e.e.ID)
	}
	faulty := w.faulty || w.db.ntimeo > 0
	w.mu.Unlock()
	ers, srs := w.stored(ids)
	byID := map[int64]string{}
	for _, e := range ers {
		byID[e.ID] = e.EventID
	}
	w.mu.Lock()
	calls := map[string][]*busCall{}
	for _, c := range w.calls {
		calls[callKey(c.svc, c.ev)] = append(calls[callKey(c.svc, c.ev)], c)
	}
	w.mu.Unlock()
	for _, r := range srs {
		id := byID[r.EventID]
		s := w.svcs[r.Service]
		if s == nil {
			continue
		}
		cs := calls[callKey(r.Service, id)]
		nfail, nok := 0, 0
		for _, c := range cs {
			if c.out == "ok" {
				nok++
			} else if c.out == "error" || c.out == "panic" {
				nfail++
			}
		}
		desc := fmt.Sprintf("service %s (%s, at most %d attempts): event %s ended with status %d, %d recorded failures, after %d failed and %d successful handler calls", r.Service, s.strat, s.maxAttempts(), id, r.Status, r.RetryCount, nfail, nok)
		switch r.Status {
		case stOK:
			if nok == 0 {
				w.violate("B02", "success-without-handling", "%s", desc)
			}
			w.c.Count("deliveries_succeeded", 1)
		case stFailed:
			if nfail < s.maxAttempts() {
				w.violate("B06", "gave-up-early", "%s", desc)
			}
			w.c.Count("deliveries_failed", 1)
		}
		if r.RetryCount > nfail {
			w.violate("B06", "count-without-failure", "%s", desc)
		}
		if faulty {
			continue
		}
		if nok > 1 {
			w.violate("B03", "handled-again", "%s although nothing failed", desc)
		}
		if nfail > s.maxAttempts() || nok > 0 && r.Status != stOK {
			w.violate("B06", "wrong-outcome", "%s", desc)
		}
		if nfail == 0 && r.FailedMessage != "" && !ordered(w.evs[id].e.SendType) {
			w.violate("B09", "foreign-failure", "%s; its record carries a failure: %s", desc, cut(r.FailedMessage, 200))
		}
		if nfail == 0 && r.RetryCount != 0 {
			w.violate("B09", "foreign-failure", "%s", desc)
		}
		if r.Status == stFailed && nfail != s.maxAttempts() {
			w.violate("B06", "wrong-outcome", "%s", desc)
		}
		if nfail > 0 && r.Status != stExpired && (r.Status == stFailed || !ordered(w.evs[id].e.SendType)) && !strings.Contains(r.FailedMessage, id) {
			w.violate("B09", "failure-not-recorded", "%s; its record does not carry its failure: %q", desc, cut(r.FailedMessage, 200))
		}
	}
}

// finish kills everything and removes the database.
func (w *busWorld) finish() {
	var wait time.Duration
	for _, s := range w.svcs {
		for _, i := range s.insts {
			i.in.die()
		}
		if s.runEvery > wait {
			wait = s.runEvery
		}
	}
	time.Sleep(2*wait + 100*time.Millisecond)
	w.c.Count("statements", int(w.db.nstmt))
	w.c.Count("faults_injected", int(w.db.nfault))
	w.c.Count("lock_timeouts", int(w.db.ntimeo))
	w.db.close()
}
