package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ddd "github.com/bytedance/dddfirework"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
)

// The stack workload runs a small bank on the real components: commands on an
// engine with the SQL executor, the database lock and the database event bus,
// in several processes, with a second service listening.

type stWallet struct {
	ddd.BaseEntity
	Balance, Ver int64
	Entries      []*stEntry
}

func (w *stWallet) GetChildren() map[string][]ddd.IEntity {
	l := make([]ddd.IEntity, len(w.Entries))
	for i, e := range w.Entries {
		l[i] = e
	}
	return map[string][]ddd.IEntity{"entries": l}
}

type stEntry struct {
	ddd.BaseEntity
	Op          string
	Amount      int64
	Ver, After  int64
	Note, Extra string
}

type stOpRec struct {
	ddd.BaseEntity
	What string
}

type stReceipt struct {
	ddd.BaseEntity
	Op string
}

type stWalletPO struct {
	ID           string `gorm:"primaryKey;type:varchar(64)"`
	Balance, Ver int64
	UpdatedAt    time.Time
}

type stEntryPO struct {
	ID         string `gorm:"primaryKey;type:varchar(64)"`
	WalletID   string `gorm:"type:varchar(64)"`
	Op         string
	Amount     int64
	Ver, After int64
	Note       string
}

type stOpPO struct {
	ID   string `gorm:"primaryKey;type:varchar(64)"`
	What string
}

type stReceiptPO struct {
	ID string `gorm:"primaryKey;type:varchar(64)"`
	Op string
}

func (p *stWalletPO) GetID() string     { return p.ID }
func (p *stWalletPO) TableName() string { return "st_wallet" }
func (p *stEntryPO) GetID() string      { return p.ID }
func (p *stEntryPO) TableName() string  { return "st_entry" }
func (p *stOpPO) GetID() string         { return p.ID }
func (p *stOpPO) TableName() string     { return "st_op" }
func (p *stReceiptPO) GetID() string    { return p.ID }
func (p *stReceiptPO) TableName() string {
	return "st_receipt"
}

// stEvt is the event of an operation.
type stEvt struct {
	Case   int
	Key    string // operation / number
	Op     string
	From   string
	Amount int64
	Ver    int64
	Typ    string
	Pad    string
}

func (e *stEvt) GetType() ddd.EventType { return ddd.EventType(e.Typ) }
func (e *stEvt) GetSender() string      { return e.From }

const (
	stMoved    = "st.moved"    // handled by a command in the selling service
	stReceived = "st.received" // emitted by that command
)

var stCur atomic.Pointer[stWorld]

type stKey struct{}

func init() {
	e2m := func(e, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
		switch e := e.(type) {
		case *stWallet:
			return &stWalletPO{ID: e.GetID(), Balance: e.Balance, Ver: e.Ver}, nil
		case *stEntry:
			po := &stEntryPO{ID: e.GetID(), Op: e.Op, Amount: e.Amount, Ver: e.Ver, After: e.After, Note: e.Note}
			if parent != nil {
				po.WalletID = parent.GetID()
			}
			return po, nil
		case *stOpRec:
			return &stOpPO{ID: e.GetID(), What: e.What}, nil
		case *stReceipt:
			return &stReceiptPO{ID: e.GetID(), Op: e.Op}, nil
		}
		return nil, fmt.Errorf("unknown entity %T", e)
	}
	m2e := func(po exmysql.IModel, e ddd.IEntity) error {
		e.SetID(po.GetID())
		switch p := po.(type) {
		case *stWalletPO:
			e.(*stWallet).Balance, e.(*stWallet).Ver = p.Balance, p.Ver
		case *stEntryPO:
			x := e.(*stEntry)
			x.Op, x.Amount, x.Ver, x.After, x.Note = p.Op, p.Amount, p.Ver, p.After, p.Note
		case *stOpPO:
			e.(*stOpRec).What = p.What
		case *stReceiptPO:
			e.(*stReceipt).Op = p.Op
		}
		return nil
	}
	for _, e := range []ddd.IEntity{&stWallet{}, &stEntry{}, &stOpRec{}, &stReceipt{}} {
		exmysql.RegisterEntity2Model(e, e2m, m2e)
	}
	simExtraModels = append(simExtraModels, &stWalletPO{}, &stEntryPO{}, &stOpPO{}, &stReceiptPO{})

	ddd.RegisterEventHandler(stMoved, func(ctx context.Context, e *stEvt) error {
		return stCur.Load().onMoved(ctx, e)
	})
	ddd.RegisterEventHandler(stReceived, func(ctx context.Context, e *stEvt) error {
		return stCur.Load().onReceived(ctx, e)
	})
	check := func(e *stEvt) ddd.TXStatus { return stCur.Load().status(e) }
	ddd.RegisterEventTXChecker(stMoved, check)
	ddd.RegisterEventTXChecker(stReceived, check)
}

type stWorld struct {
	c           *C
	mu          sync.Mutex
	rnd         *rand.Rand
	biz, lk, ev *simDB
	insts       []*stInst // of the selling service
	audits      []*stInst
	ninst       int
	ops         []*stOp
	byID        map[string]*stOp
	evs         map[string]*stEv
	txs         map[int64]string // transaction of the business database to operation
	committed   map[string]bool  // operations whose transaction the server committed
	lostAck     map[string]bool  // and the client was told so
	faultOn     bool
	calmN       int
	prob        float64
	kinds       []simFault
	maxLat      time.Duration
	slow        float64 // share of statements that take very long
	nv          int
	runEvery    time.Duration
	txTimeout   time.Duration
	calls       int
	wallets     []string
	nop         int
	overrun     bool
}

type stInst struct {
	w    *stWorld
	name string
	biz  *simInst
	lk   *simInst
	ev   *simInst
	bus  *ebmysql.EventBus
	eng  *ddd.Engine
}

func (i *stInst) dead() bool {
	return i.ev.isDead.Load() || i.biz != nil && i.biz.isDead.Load() || i.lk != nil && i.lk.isDead.Load()
}

// stOp is one operation of a client.
type stOp struct {
	id       string
	what     string // open transfer drain
	form     string
	from, to string
	amount   int64
	typ      []ddd.SendType
	outcome  string // what the command itself does: "" error panic break late-error
	half     bool   // saves half-way
	full     bool   // loads all entries
	dry      bool
	inst     *stInst

	// guarded by stWorld.mu
	running    bool
	start, end time.Time
	err        error
	brk        bool
	pan        any
	returned   bool
	refused    bool // gave up on its own before anything was saved
	acted      bool
	verF, verT int64
	published  bool
}

func (o *stOp) String() string {
	return fmt.Sprintf("%s %s %s %s->%s %d %v outcome=%q half=%v full=%v dry=%v on %s: err=%v break=%v panic=%v returned=%v refused=%v versions %d/%d",
		o.id, o.form, o.what, o.from, o.to, o.amount, o.typ, o.outcome, o.half, o.full, o.dry, o.inst.name, o.err, o.brk, o.pan, o.returned, o.refused, o.verF, o.verT)
}

// stEv is one event of an operation.
type stEv struct {
	key   string
	op    *stOp
	st    ddd.SendType
	evt   stEvt
	fails map[string]int
	ok    map[string]int // service to successful calls
	n     map[string]int
}

func (w *stWorld) rint(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

func (w *stWorld) violate(sig, f string, a ...any) {
	w.c.mu.Lock()
	n := w.nv
	w.nv++
	w.c.mu.Unlock()
	if n > 5 {
		return
	}
	msg := fmt.Sprintf(f, a...)
	var all []simStmt
	for _, d := range []*simDB{w.biz, w.ev, w.lk} {
		d.mu.Lock()
		tr := d.trace
		if len(tr) > 40 {
			tr = tr[len(tr)-40:]
		}
		all = append(all, tr...)
		d.mu.Unlock()
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].At.Before(all[j].At) })
	var l []string
	for i := range all {
		l = append(l, cut(all[i].String(), 300))
	}
	w.c.Violate("E01", sig, "%s\nlast statements:\n%s", msg, cut(strings.Join(l, "\n"), 12000))
}

func (w *stWorld) hookDB(d *simDB, biz bool) {
	d.tracing = true
	d.lat = func(st *simStmt) time.Duration {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.slow > 0 && d == w.biz && st.Kind == "commit" && w.rnd.Intn(15) == 0 {
			return w.txTimeout + time.Duration(w.rnd.Intn(15000))*time.Millisecond
		}
		if w.slow > 0 && w.rnd.Float64() < w.slow && (st.Kind == "commit" || d != w.biz) {
			return time.Duration(w.rnd.Int63n(int64(w.txTimeout * 3 / 2)))
		}
		if w.maxLat == 0 || w.rnd.Intn(3) > 0 {
			return 0
		}
		return time.Duration(w.rnd.Int63n(int64(w.maxLat)))
	}
	d.onStmt = func(st *simStmt) simFault {
		w.mu.Lock()
		defer w.mu.Unlock()
		if !w.faultOn || w.calmN > 0 || len(w.kinds) == 0 || w.rnd.Float64() >= w.prob {
			return fNone
		}
		f := w.kinds[w.rnd.Intn(len(w.kinds))]
		if f >= fDieBefore && w.liveLocked(st.Inst) < 2 {
			return fBefore // one process of each service survives
		}
		return f
	}
	if !biz {
		return
	}
	d.onDone = func(st *simStmt) {
		if st.TX == 0 {
			return
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if st.Kind == "commit" {
			if o := w.txs[st.TX]; o != "" && st.Commit {
				w.committed[o] = true
				w.lostAck[o] = st.Err != nil
			}
			return
		}
		if strings.Contains(st.SQL, "INSERT") && (strings.Contains(st.SQL, "`st_op`") || strings.Contains(st.SQL, "`st_receipt`")) && st.Err == nil && len(st.Args) > 0 {
			k := 0
			if strings.Contains(st.SQL, "`st_receipt`") {
				k = 1
			}
			w.txs[st.TX] = fmt.Sprint(st.Args[k].Value)
		}
	}
}

func (w *stWorld) liveLocked(in *simInst) (n int) {
	l := w.insts
	if in != nil && strings.HasPrefix(in.name, "audit") {
		l = w.audits
	}
	for _, i := range l {
		if !i.dead() {
			n++
		}
	}
	return
}

// stBus lets handlers know in which process they run.
type stBus struct {
	*ebmysql.EventBus
	i *stInst
}

func (b *stBus) RegisterEventHandler(cb ddd.DomainEventHandler) {
	b.EventBus.RegisterEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error {
		if b.i.dead() {
			runtime.Goexit()
		}
		return cb(context.WithValue(ctx, stKey{}, b.i), e)
	})
}

const stLockTTL = 5 * time.Minute

func (w *stWorld) options(o *ebmysql.Options) {
	o.RunInterval, o.Logger, o.CleanCron = w.runEvery, discard, "0 0 0 1 1 *"
	o.ConsumeConcurrent = 1 + w.rint(3)
	o.LimitPerRun = []int{100, 100, 5}[w.rint(3)]
	o.RetryStrategy = &ebmysql.LimitRetry{Limit: 1 << 20}
	if w.rint(2) == 0 {
		o.RetryStrategy = &ebmysql.IntervalRetry{Limit: 1 << 20, Interval: time.Duration(1+w.rint(3000)) * time.Millisecond}
	}
	o.TXCheckTimeout = w.txTimeout
}

func (w *stWorld) num() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ninst++
	return w.ninst
}

func (w *stWorld) calm(f func()) {
	w.mu.Lock()
	w.calmN++
	w.mu.Unlock()
	f()
	w.mu.Lock()
	w.calmN--
	w.mu.Unlock()
}

// newInst starts a process of the selling service.
func (w *stWorld) newInst() *stInst {
	i := &stInst{w: w, name: fmt.Sprintf("sale%d", w.num())}
	w.calm(func() {
		i.biz, i.lk, i.ev = w.biz.newInst(i.name), w.lk.newInst(i.name), w.ev.newInst(i.name)
		i.biz.peers, i.lk.peers, i.ev.peers = []*simInst{i.lk, i.ev}, []*simInst{i.biz, i.ev}, []*simInst{i.biz, i.lk}
		i.bus = ebmysql.NewEventBus("sale", i.ev.g, w.options)
		lock := dblock.NewDBLock(i.lk.g, stLockTTL, func(o *dblock.Options) {
			o.Logger = discard
			o.Retry = w.rint(3) > 0
		})
		opts := append(i.bus.Options(), ddd.WithEventBus(&stBus{i.bus, i}), ddd.WithLogger(discard), ddd.WithRecursiveDelete)
		i.eng = ddd.NewEngine(lock, exmysql.NewExecutor(i.biz.g), opts...)
		i.bus.Start(context.Background())
	})
	w.mu.Lock()
	w.insts = append(w.insts, i)
	w.mu.Unlock()
	return i
}

// newAudit starts a process of the listening service.
func (w *stWorld) newAudit() {
	i := &stInst{w: w, name: fmt.Sprintf("audit%d", w.num())}
	w.calm(func() {
		i.ev = w.ev.newInst(i.name)
		i.bus = ebmysql.NewEventBus("audit", i.ev.g, w.options)
		i.bus.RegisterEventHandler(func(ctx context.Context, d *ddd.DomainEvent) error {
			if i.dead() {
				runtime.Goexit()
			}
			w.mu.Lock()
			ev := w.evs[payloadKey(d.Payload)]
			w.mu.Unlock()
			if ev == nil {
				w.violate("unknown-event", "the auditing service gets an event nobody emitted: %+v %s", *d, d.Payload)
				return nil
			}
			return w.handled("audit", ev, func() error { return nil })
		})
		i.bus.RegisterEventTXChecker(func(d *ddd.DomainEvent) ddd.TXStatus {
			w.violate("foreign-check", "the auditing service, which sends nothing, is asked about the message of event %s", d.Payload)
			return ddd.TXUnknown
		})
		i.bus.Start(context.Background())
	})
	w.mu.Lock()
	w.audits = append(w.audits, i)
	w.mu.Unlock()
}

func payloadKey(b []byte) string {
	_, s, _ := strings.Cut(string(b), `"Key":"`)
	s, _, _ = strings.Cut(s, `"`)
	return s
}

// handled runs a handler call of a service on an event.
func (w *stWorld) handled(svc string, ev *stEv, f func() error) error {
	w.mu.Lock()
	w.calls++
	ev.n[svc]++
	mode := ""
	if ev.fails[svc] > 0 && w.rnd.Intn(3) > 0 {
		ev.fails[svc]--
		mode = []string{"before", "after", "panic", "panic-after"}[w.rnd.Intn(4)]
	}
	op := ev.op
	var pre []string
	if ev.st == ddd.SendTypeFIFO || ev.st == ddd.SendTypeLaxFIFO {
		for _, o := range w.evs {
			if o != ev && o.evt.From == ev.evt.From && (o.st == ddd.SendTypeFIFO || o.st == ddd.SendTypeLaxFIFO) &&
				w.committed[o.op.id] && o.evt.Ver < ev.evt.Ver && w.committed[op.id] && o.ok[svc] == 0 {
				pre = append(pre, o.key)
			}
		}
	}
	bad := ""
	switch {
	case ev.st == ddd.SendTypeTransaction && !w.committed[op.id]:
		bad = "its transaction has not committed"
	case op.refused:
		bad = "the command failed before anything was saved"
	case op.dry:
		bad = "the command was a dry run"
	}
	dur := time.Duration(0)
	if w.rnd.Intn(4) == 0 {
		dur = time.Duration(w.rnd.Intn(1500)) * time.Millisecond
	}
	w.mu.Unlock()
	w.c.Count("handler_calls", 1)
	if bad != "" {
		w.violate("phantom-event", "service %s handles %s event %s although %s: %v", svc, ev.st, ev.key, bad, op)
	}
	if len(pre) > 0 {
		sort.Strings(pre)
		w.violate("order", "service %s handles %s event %s before the earlier ordered events %v of wallet %s", svc, ev.st, ev.key, pre, ev.evt.From)
	}
	switch mode {
	case "before":
		return errors.New("handler says no")
	case "panic":
		panic(injected{"handler"})
	}
	if dur > 0 {
		time.Sleep(dur)
	}
	if err := f(); err != nil {
		return err
	}
	switch mode {
	case "after":
		return errors.New("handler says no afterwards")
	case "panic-after":
		panic(injected{"handler afterwards"})
	}
	w.mu.Lock()
	ev.ok[svc]++
	w.mu.Unlock()
	return nil
}

func (w *stWorld) event(e *stEvt) *stEv {
	w.mu.Lock()
	ev := w.evs[e.Key]
	w.mu.Unlock()
	if ev == nil || ev.evt != *e {
		w.violate("unknown-event", "a handler gets an event nobody emitted: %+v", *e)
		return nil
	}
	return ev
}

// onMoved writes a receipt, once.
func (w *stWorld) onMoved(ctx context.Context, e *stEvt) error {
	i, _ := ctx.Value(stKey{}).(*stInst)
	ev := w.event(e)
	if ev == nil {
		return nil
	}
	if i == nil {
		w.violate("context", "the handler of %s does not get the context the bus was called with", e.Key)
		return nil
	}
	return w.handled("sale", ev, func() error {
		w.mu.Lock()
		w.nop++
		o := &stOp{id: fmt.Sprintf("rc-%s#%d", e.Key, w.nop), what: "receipt", form: "handler", from: e.From, inst: i, running: true, start: time.Now()}
		w.ops = append(w.ops, o)
		w.byID[o.id] = o
		w.mu.Unlock()
		defer func() {
			w.mu.Lock()
			o.running, o.end = false, time.Now()
			w.mu.Unlock()
		}()
		res := i.eng.Run(ctx, &stReceive{w: w, e: e, o: o})
		w.mu.Lock()
		o.returned, o.err = !i.dead(), res.Error // a dead process tells nobody
		w.mu.Unlock()
		return res.Error
	})
}

func (w *stWorld) onReceived(ctx context.Context, e *stEvt) error {
	ev := w.event(e)
	if ev == nil {
		return nil
	}
	return w.handled("sale", ev, func() error { return nil })
}

// stReceive is the command of the handler.
type stReceive struct {
	w *stWorld
	e *stEvt
	o *stOp
}

func (r *stReceive) Init(ctx context.Context) ([]string, error) { return []string{"rc-" + r.e.Key}, nil }
func (r *stReceive) Main(ctx context.Context, repo *ddd.Repository) error {
	rc := &stReceipt{}
	rc.SetID("rc-" + r.e.Key)
	err := repo.Get(ctx, rc)
	if err == nil {
		return nil // done before
	}
	if !errors.Is(err, ddd.ErrEntityNotFound) {
		return err
	}
	rc = &stReceipt{Op: r.o.id}
	rc.SetID("rc-" + r.e.Key)
	w := r.w
	ev := &stEv{key: r.o.id, op: r.o, st: ddd.SendTypeTransaction, fails: map[string]int{}, ok: map[string]int{}, n: map[string]int{}}
	ev.evt = stEvt{Case: r.e.Case, Key: ev.key, Op: r.o.id, From: "rc", Typ: stReceived}
	w.mu.Lock()
	r.o.acted = true
	w.evs[ev.key] = ev
	w.mu.Unlock()
	x := ev.evt
	rc.AddEvent(&x, ddd.WithSendType(ddd.SendTypeTransaction))
	repo.Add(rc)
	return nil
}

// status answers for messages whose publisher did not report back.
func (w *stWorld) status(e *stEvt) ddd.TXStatus {
	ev := w.event(e)
	if ev == nil {
		return ddd.TXRollBack
	}
	w.c.Count("status_checks", 1)
	w.mu.Lock()
	run, o := ev.op.running, ev.op
	w.mu.Unlock()
	q := "select count(*) from st_op where id = ?"
	if o.what == "receipt" {
		q = "select count(*) from st_receipt where op = ?"
	}
	var n int64
	if err := w.biz.mon.g.Raw(q, o.id).Scan(&n).Error; err != nil {
		return ddd.TXUnknown
	}
	switch {
	case n > 0:
		return ddd.TXCommit
	case run: // as seen before the query
		return ddd.TXUnknown
	}
	return ddd.TXRollBack
}

var errStRefused = errors.New("refused by the application")

type stCmd struct {
	w     *stWorld
	o     *stOp
	stage ddd.StageAgent
	repo  *ddd.Repository
	a, b  *stWallet
}

func (m *stCmd) keys() []string {
	switch {
	case m.o.from == "":
		return []string{m.o.to}
	case m.w.rint(2) == 0:
		return []string{m.o.to, m.o.from}
	}
	return []string{m.o.from, m.o.to}
}

func (m *stCmd) pause() {
	if m.w.rint(4) == 0 {
		time.Sleep(time.Duration(m.w.rint(300)) * time.Millisecond)
	}
}

// torn checks what was read under the locks.
func (m *stCmd) torn(x *stWallet, full bool) {
	m.w.c.Count("wallet_reads", 1)
	if !full {
		return
	}
	var sum int64
	seen := map[int64]bool{}
	for _, e := range x.Entries {
		sum += e.Amount
		seen[e.Ver] = true
	}
	if sum != x.Balance || int64(len(x.Entries)) != x.Ver || int64(len(seen)) != x.Ver {
		m.w.violate("torn-read", "%s read wallet %s with balance %d version %d and %d entries with sum %d", m.o, x.GetID(), x.Balance, x.Ver, len(x.Entries), sum)
	}
}

func (m *stCmd) load(ctx context.Context, get func(ctx context.Context, root ddd.IEntity, children ...any) error) error {
	o := m.o
	one := func(id string, full bool) (*stWallet, error) {
		x := &stWallet{}
		x.SetID(id)
		var kids []any
		if full {
			kids = append(kids, &x.Entries)
		}
		if err := get(ctx, x, kids...); err != nil {
			return nil, err
		}
		m.torn(x, full)
		return x, nil
	}
	if o.what == "open" {
		return nil
	}
	var err error
	// removing a wallet removes the children that were loaded
	if m.a, err = one(o.from, o.full || o.what == "drain"); err != nil {
		return err
	}
	m.pause()
	m.b, err = one(o.to, o.full)
	return err
}

func (m *stCmd) entry(x *stWallet, amount int64) *stEntry {
	x.Ver++
	x.Balance += amount
	x.Dirty()
	e := &stEntry{Op: m.o.id, Amount: amount, Ver: x.Ver, After: x.Balance, Note: strings.Repeat("é'\"%", m.w.rint(3))}
	if m.w.rint(2) == 0 {
		e.SetID(fmt.Sprintf("%s-%s", m.o.id, x.GetID()))
	}
	x.Entries = append(x.Entries, e)
	return e
}

func (m *stCmd) emit(x *stWallet, ver int64) {
	o, w := m.o, m.w
	for k, t := range o.typ {
		ev := &stEv{key: fmt.Sprintf("%s/%d", o.id, k), op: o, st: t, fails: map[string]int{}, ok: map[string]int{}, n: map[string]int{}}
		ev.evt = stEvt{Case: w.c.Index, Key: ev.key, Op: o.id, From: x.GetID(), Amount: o.amount, Ver: ver, Typ: stMoved, Pad: strings.Repeat("ü\"", w.rint(3))}
		w.mu.Lock()
		for _, s := range []string{"sale", "audit"} {
			if w.rnd.Intn(3) == 0 {
				ev.fails[s] = 1 + w.rnd.Intn(3)
			}
		}
		w.evs[ev.key] = ev
		w.mu.Unlock()
		e := ev.evt
		x.AddEvent(&e, ddd.WithSendType(t))
	}
}

// act changes the wallets.
func (m *stCmd) act(ctx context.Context, add, remove func(...ddd.IEntity), save func(context.Context) error) (err error) {
	o, w := m.o, m.w
	defer func() {
		if err != nil && (errors.Is(err, errStRefused) || errors.Is(err, ddd.ErrBreak)) {
			w.mu.Lock()
			o.refused = true
			w.mu.Unlock()
		}
	}()
	rec := &stOpRec{What: o.what}
	rec.SetID(o.id)
	switch o.what {
	case "open":
		x := &stWallet{}
		x.SetID(o.to)
		m.entry(x, o.amount)
		m.b = x
		add(x, rec)
		w.mu.Lock()
		o.verT = x.Ver
		w.mu.Unlock()
		m.emit(x, x.Ver)
	case "transfer", "drain":
		if o.what == "drain" {
			w.mu.Lock()
			o.amount = m.a.Balance
			w.mu.Unlock()
		}
		if m.a.Balance < o.amount {
			return errStRefused
		}
		add(rec)
		m.entry(m.a, -o.amount)
		w.mu.Lock()
		o.verF = m.a.Ver
		w.mu.Unlock()
		if o.half {
			m.pause()
			if err := save(ctx); err != nil {
				return err
			}
		}
		m.pause()
		m.entry(m.b, o.amount)
		w.mu.Lock()
		o.verT = m.b.Ver
		w.mu.Unlock()
		m.emit(m.a, m.a.Ver)
		if o.what == "drain" {
			remove(m.a)
		}
	}
	m.pause()
	w.mu.Lock()
	o.acted = true
	w.mu.Unlock()
	switch o.outcome {
	case "error":
		return errStRefused
	case "break":
		return ddd.ErrBreak
	case "panic":
		w.mu.Lock()
		o.refused = true
		w.mu.Unlock()
		panic(injected{"command"})
	}
	return nil
}

// main command
type stMain struct{ stCmd }

func (m *stMain) Init(context.Context) ([]string, error) { return m.keys(), nil }
func (m *stMain) Main(ctx context.Context, repo *ddd.Repository) error {
	if err := m.load(ctx, repo.Get); err != nil {
		return err
	}
	return m.act(ctx, repo.Add, repo.Remove, repo.Save)
}

// deprecated command
type stOld struct {
	ddd.Command
	stCmd
}

func (m *stOld) Init(context.Context) ([]string, error) { return m.keys(), nil }
func (m *stOld) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	if err := m.load(ctx, h.Build); err != nil {
		return nil, err
	}
	if m.a == nil {
		return nil, nil
	}
	return []ddd.IEntity{m.a, m.b}, nil
}
func (m *stOld) Act(ctx context.Context, c ddd.RootContainer, roots ...ddd.IEntity) error {
	return m.act(ctx, func(e ...ddd.IEntity) {
		for _, x := range e {
			c.Add(x)
		}
	}, func(e ...ddd.IEntity) {
		for _, x := range e {
			c.Remove(x)
		}
	}, m.Commit)
}

// run runs the operation in its process; the process may die meanwhile.
func (w *stWorld) run(o *stOp) {
	done := make(chan struct{})
	w.mu.Lock()
	o.running, o.start = true, time.Now()
	w.mu.Unlock()
	go func() {
		defer close(done)
		var res *ddd.Result
		defer func() {
			p := recover()
			w.mu.Lock()
			o.pan = p
			if res != nil {
				o.err, o.brk = res.Error, res.Break
				o.returned = !o.inst.dead() // a dead process tells nobody
			}
			o.running, o.end = false, time.Now()
			w.mu.Unlock()
		}()
		var opts []ddd.Option
		if o.dry {
			opts = append(opts, ddd.WithDryRun)
		}
		ctx := context.Background()
		switch o.form {
		case "main":
			res = o.inst.eng.Run(ctx, &stMain{stCmd{w: w, o: o}}, opts...)
		case "old":
			res = o.inst.eng.RunCommand(ctx, &stOld{stCmd: stCmd{w: w, o: o}}, opts...)
		case "stage":
			m := &stMain{stCmd{w: w, o: o}}
			res = o.inst.eng.NewStage().WithOption(opts...).Lock(m.keys()...).Main(m.Main).Save(ctx)
		}
	}()
	<-done
	w.mu.Lock()
	defer w.mu.Unlock()
	if o.end.Sub(o.start) > stLockTTL-time.Minute {
		w.overrun = true
	}
	w.c.Logf("%s", o)
	if o.pan != nil {
		if x, ok := o.pan.(injected); !ok || o.outcome != "panic" {
			go w.violate("panic", "%s panicked: %v", o, x)
		}
	}
}

// alive makes sure that both services have a process.
func (w *stWorld) alive() {
	w.mu.Lock()
	n, na := 0, 0
	for _, i := range w.insts {
		n += b2i(!i.dead())
	}
	for _, i := range w.audits {
		na += b2i(!i.dead())
	}
	w.mu.Unlock()
	if n == 0 {
		w.newInst()
	}
	if na == 0 {
		w.newAudit()
	}
}

func (w *stWorld) newOp(what string) *stOp {
	w.alive()
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.rnd
	w.nop++
	o := &stOp{id: fmt.Sprintf("o%d.%d", w.c.Index, w.nop), what: what, form: []string{"main", "old", "stage"}[r.Intn(3)], amount: int64(r.Intn(40))}
	var live []*stInst
	for _, i := range w.insts {
		if !i.dead() {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		live = w.insts[len(w.insts)-1:] // gone again
	}
	o.inst = live[r.Intn(len(live))]
	if what == "open" {
		o.amount = int64(50 + r.Intn(100))
		o.to = fmt.Sprintf("w%d.%d", w.c.Index, len(w.wallets)+1)
		w.wallets = append(w.wallets, o.to)
	} else {
		o.to = w.wallets[r.Intn(len(w.wallets))]
		for o.from = o.to; o.from == o.to; {
			o.from = w.wallets[r.Intn(len(w.wallets))]
		}
		o.half, o.full = r.Intn(4) == 0, r.Intn(2) == 0
		o.dry = r.Intn(15) == 0
		o.outcome = []string{"", "", "", "", "", "", "error", "break", "panic"}[r.Intn(9)]
	}
	for k := r.Intn(3); k >= 0; k-- {
		o.typ = append(o.typ, []ddd.SendType{ddd.SendTypeTransaction, ddd.SendTypeTransaction, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeNormal}[r.Intn(5)])
	}
	w.ops = append(w.ops, o)
	w.byID[o.id] = o
	return o
}

func stackCase(c *C) {
	alignHour()
	w := &stWorld{c: c, rnd: rand.New(rand.NewSource(c.R.Int63())), byID: map[string]*stOp{}, evs: map[string]*stEv{},
		txs: map[int64]string{}, committed: map[string]bool{}, lostAck: map[string]bool{}}
	r := c.R
	w.biz, w.lk, w.ev = newSimDB(), newSimDB(), newSimDB()
	w.hookDB(w.biz, true)
	w.hookDB(w.lk, false)
	w.hookDB(w.ev, false)
	w.runEvery = []time.Duration{500, 1000, 2000}[r.Intn(3)] * time.Millisecond
	w.txTimeout = time.Duration(5+r.Intn(20)) * time.Second
	mode := c.Index % 4
	if mode > 0 {
		w.maxLat = time.Duration(r.Intn(30)) * time.Millisecond
	}
	if mode > 0 && r.Intn(2) == 0 {
		w.slow = []float64{0.002, 0.01, 0.03}[r.Intn(3)]
	}
	if mode >= 2 {
		w.prob = []float64{0.003, 0.01, 0.03}[r.Intn(3)]
		w.kinds = []simFault{fBefore, fAfter}
		if mode == 3 {
			w.kinds = append(w.kinds, fDieBefore, fDieAfter)
		}
	}
	stCur.Store(w)
	defer w.finish()
	for k := 1 + r.Intn(3); k > 0; k-- {
		w.newInst()
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		w.newAudit()
	}
	for k := 2 + r.Intn(3); k > 0; k-- {
		w.run(w.newOp("open"))
	}
	w.mu.Lock()
	w.faultOn = mode >= 2
	w.mu.Unlock()
	var wg sync.WaitGroup
	for k := 1 + r.Intn(5); k > 0; k-- {
		wg.Add(1)
		n := 2 + r.Intn(6)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				what := "transfer"
				switch w.rint(12) {
				case 0:
					what = "open"
				case 1:
					what = "drain"
				}
				w.run(w.newOp(what))
				if w.rint(2) == 0 {
					time.Sleep(time.Duration(w.rint(3000)) * time.Millisecond)
				}
			}
		}()
	}
	stop := make(chan struct{})
	over := make(chan struct{})
	go func() { // processes come and go
		defer close(over)
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(200+w.rint(4000)) * time.Millisecond):
			}
			if mode != 3 {
				continue
			}
			w.mu.Lock()
			var v *stInst
			l := w.insts
			if w.rnd.Intn(3) == 0 {
				l = w.audits
			}
			if w.liveLocked(l[0].ev) > 1 && w.rnd.Intn(2) == 0 {
				for v == nil || v.dead() {
					v = l[w.rnd.Intn(len(l))]
				}
			}
			n, na := w.liveLocked(w.insts[0].ev), w.liveLocked(w.audits[0].ev)
			w.mu.Unlock()
			if v != nil {
				v.ev.die()
				w.c.Count("kills", 1)
			}
			if n < 3 && w.rint(2) == 0 {
				w.newInst()
			}
			if na < 2 && w.rint(2) == 0 {
				w.newAudit()
			}
		}
	}()
	wg.Wait()
	close(stop)
	<-over
	w.mu.Lock()
	w.faultOn = false
	w.mu.Unlock()
	w.alive()
	if w.settle() {
		w.judge()
	}
	w.mu.Lock()
	nc, dead := 0, 0
	for _, o := range w.ops {
		if w.committed[o.id] {
			nc++
		}
		if !o.returned && o.pan == nil {
			dead++
		}
	}
	w.mu.Unlock()
	c.Count("operations", len(w.ops))
	c.Count("operations_committed", nc)
	c.Count("operations_cut_off", dead)
	c.Count("events", len(w.evs))
	c.Distinct("%d %d %d %d %d %d", mode, len(w.ops), nc, dead, w.calls, len(w.insts))
	c.Sample("mode %d: %d operations (%d committed, %d cut off), %d events, %d handler calls, %d+%d processes, %d faults", mode, len(w.ops), nc, dead, len(w.evs), w.calls, len(w.insts), len(w.audits), w.biz.nfault+w.ev.nfault+w.lk.nfault)
}

func (w *stWorld) finish() {
	for _, i := range append(append([]*stInst{}, w.insts...), w.audits...) {
		i.ev.die()
	}
	time.Sleep(2*w.runEvery + 5*time.Second)
	for _, d := range []*simDB{w.biz, w.lk, w.ev} {
		w.c.Count("statements", int(d.nstmt))
		w.c.Count("faults_injected", int(d.nfault))
		d.close()
	}
}

// settle waits until everything that was published has been handled.
func (w *stWorld) settle() bool {
	begun := time.Now()
	step := 200 * time.Millisecond
	for {
		time.Sleep(step)
		if step < 5*time.Second {
			step = step * 3 / 2
		}
		var r struct{ P, S int }
		if err := w.ev.mon.g.Raw("select (select count(*) from ddd_event_transaction) as p, (select count(*) from ddd_domain_service_event where status <> ?) as s", stOK).Scan(&r).Error; err != nil {
			panic(err)
		}
		run := 0
		w.mu.Lock()
		for _, o := range w.ops {
			if o.running {
				run++
			}
		}
		w.mu.Unlock()
		if r.P == 0 && r.S == 0 && run == 0 {
			return true
		}
		// locks of dead processes have to expire first
		if time.Since(begun) > 2*stLockTTL+10*time.Minute {
			var rows []string
			w.ev.mon.g.Raw("select service || ' ' || event_id || ' status ' || status || ' retries ' || retry_count || ' ' || failed_message from ddd_domain_service_event where status <> ?", stOK).Scan(&rows)
			w.violate("stuck", "%d prepared messages and %d deliveries are left after %v without faults, %d operations are running: %s", r.P, r.S, time.Since(begun), run, cut(strings.Join(rows, "\n"), 3000))
			return false
		}
	}
}

func (w *stWorld) judge() {
	g := w.biz.mon.g
	var ws []stWalletPO
	var es []stEntryPO
	var recs []stOpPO
	var rcs []stReceiptPO
	g.Raw("select * from st_wallet").Scan(&ws)
	g.Raw("select * from st_entry order by ver").Scan(&es)
	g.Raw("select * from st_op").Scan(&recs)
	g.Raw("select * from st_receipt").Scan(&rcs)
	w.mu.Lock()
	defer w.mu.Unlock()
	bad := func(sig, f string, a ...any) {
		w.mu.Unlock()
		w.violate(sig, f, a...)
		w.mu.Lock()
	}
	have := map[string]bool{}
	for _, r := range recs {
		have[r.ID] = true
	}
	rcOf := map[string]int{}
	for _, r := range rcs {
		have[r.Op] = true
		rcOf[r.ID]++
	}
	type move struct {
		o   *stOp
		amt int64
	}
	chain := map[string]map[int64][]move{}
	put := func(id string, ver int64, m move) {
		if chain[id] == nil {
			chain[id] = map[int64][]move{}
		}
		chain[id][ver] = append(chain[id][ver], m)
	}
	gone := map[string]bool{}
	for _, o := range w.ops {
		com := w.committed[o.id]
		w.c.Count("outcomes_judged", 1)
		switch {
		case com != have[o.id]:
			bad("record", "%s: committed=%v, its record is stored=%v", o, com, have[o.id])
		case com && (o.refused || o.dry):
			bad("failed-visible", "%s has stored its changes", o)
		case com && o.returned && o.err != nil && !w.lostAck[o.id]:
			bad("false-failure", "%s reports an error although its transaction committed", o)
		case !com && o.returned && o.err == nil && !o.brk && !o.dry && o.acted:
			bad("not-stored", "%s reports success, nothing is stored", o)
		case o.returned && o.err == nil && o.outcome == "error" && o.acted, o.returned && o.err == nil && o.outcome == "break" && !o.brk && o.acted:
			bad("false-success", "%s reports success", o)
		}
		if !com || o.what == "receipt" {
			continue
		}
		if o.from != "" {
			put(o.from, o.verF, move{o, -o.amount})
		}
		put(o.to, o.verT, move{o, o.amount})
		if o.what == "drain" {
			gone[o.from] = true
		}
	}
	// every wallet is the result of its committed operations, one after the other
	prev := map[*stOp][]*stOp{}
	final := map[string]int64{}
	for id, ch := range chain {
		var last *stOp
		for v := int64(1); v <= int64(len(ch)); v++ {
			if len(ch[v]) != 1 {
				if !w.overrun {
					bad("lost-update", "wallet %s: version %d of %d was written by %d committed operations: %v", id, v, len(ch), len(ch[v]), ch[v])
				}
				return
			}
			m := ch[v][0]
			if last != nil {
				prev[m.o] = append(prev[m.o], last)
				if m.o.end.Before(last.start) {
					bad("not-serial", "wallet %s: %s follows %s, which began later", id, m.o, last)
				}
			}
			last = m.o
			final[id] += m.amt
		}
	}
	state := map[*stOp]int{}
	var visit func(o *stOp) bool
	visit = func(o *stOp) bool {
		if state[o] == 1 {
			return false
		}
		if state[o] == 2 {
			return true
		}
		state[o] = 1
		for _, p := range prev[o] {
			if !visit(p) {
				return false
			}
		}
		state[o] = 2
		return true
	}
	for o := range prev {
		if !visit(o) {
			bad("not-serial", "the committed operations have no serial order: cycle through %s", o)
			return
		}
	}
	stored := map[string]stWalletPO{}
	for _, x := range ws {
		stored[x.ID] = x
	}
	ents := map[string][]stEntryPO{}
	for _, e := range es {
		ents[e.WalletID] = append(ents[e.WalletID], e)
	}
	for id := range ents {
		if _, ok := stored[id]; !ok {
			bad("entry-left", "wallet %s is gone, %d entries are left", id, len(ents[id]))
		}
	}
	for _, id := range w.wallets {
		x, ok := stored[id]
		if want := len(chain[id]) > 0 && !gone[id]; ok != want {
			bad("wallet", "wallet %s: stored=%v, want %v", id, ok, want)
			continue
		}
		if !ok {
			continue
		}
		w.c.Count("wallets_judged", 1)
		if x.Balance != final[id] || x.Ver != int64(len(chain[id])) {
			bad("wallet", "wallet %s has balance %d version %d, its %d committed operations sum to %d", id, x.Balance, x.Ver, len(chain[id]), final[id])
		}
		if len(ents[id]) != len(chain[id]) {
			bad("entries", "wallet %s has %d entries, %d operations committed", id, len(ents[id]), len(chain[id]))
			continue
		}
		var sum int64
		for k, e := range ents[id] {
			sum += e.Amount
			m := chain[id][int64(k+1)][0]
			if e.Ver != int64(k+1) || e.Op != m.o.id || e.Amount != m.amt || e.After != sum {
				bad("entries", "wallet %s: entry %d is %+v, want one of %s over %d", id, k, e, m.o, m.amt)
				break
			}
		}
	}
	// events
	type row struct {
		EventID string
		N       int
	}
	var rs []row
	w.ev.mon.g.Raw("select event_id, (select count(*) from ddd_domain_service_event s where s.event_id = e.id) as n from ddd_domain_event e order by id").Scan(&rs)
	pub := map[string]int{}
	for _, r := range rs {
		pub[r.EventID]++
		if r.N != 2 {
			bad("deliveries", "event %s has %d deliveries for 2 services", r.EventID, r.N)
		}
		if pub[r.EventID] > 1 {
			bad("published-twice", "event %s is published %d times", r.EventID, pub[r.EventID])
		}
	}
	nev := 0
	for key, ev := range w.evs {
		o := ev.op
		com := w.committed[o.id]
		okS, okA := ev.ok["sale"], ev.ok["audit"]
		w.c.Count("events_judged", 1)
		if ev.n["sale"] > 0 {
			nev++
		}
		if (okS > 0) != (okA > 0) {
			bad("half-delivered", "event %s (%s) of %s was handled %d times by one service and %d times by the other", key, ev.st, o, okS, okA)
		}
		if com && okS == 0 {
			bad("event-lost", "%s event %s of the committed %s was never handled", ev.st, key, o)
		}
		if !com && okS > 0 && ev.st == ddd.SendTypeTransaction {
			bad("phantom-event", "transactional event %s was handled, its transaction never committed: %s", key, o)
		}
		if ev.evt.Typ == stMoved {
			if rcOf["rc-"+key] != b2i(okS > 0) {
				bad("receipt", "event %s was handled %d times and has %d receipts", key, okS, rcOf["rc-"+key])
			}
		}
	}
	if len(rs) != nev {
		bad("published-twice", "%d events are published, handlers saw %d", len(rs), nev)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	Register("E01", Workload{Name: "stack", Quick: 480, Thorough: 12000, Long: true, Fn: stackCase})
}
