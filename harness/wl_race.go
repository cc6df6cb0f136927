package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-logr/logr"
	"github.com/go-logr/logr/funcr"

	timersql "github.com/bytedance/dddfirework/d_timer/sql"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
)

// The workloads of this file are made for the race detector: their
// environment has no mutexes of its own, because every mutex the goroutines
// share orders them and hides races of the code under test. Results are kept
// per goroutine and compared after all of them have ended.

// formatting formats everything it is given, without a lock.
func formatting(level int) logr.Logger {
	return funcr.New(func(string, string) {}, funcr.Options{Verbosity: level})
}

// ---- commands on a stateless environment

type rcRoot struct {
	ddd.BaseEntity
	Val   int
	Text  string
	Parts []*rcPart
	Note  *rcNote
}

func (x *rcRoot) GetChildren() map[string][]ddd.IEntity {
	m := map[string][]ddd.IEntity{"parts": nil}
	for _, p := range x.Parts {
		m["parts"] = append(m["parts"], p)
	}
	if x.Note != nil {
		m["note"] = []ddd.IEntity{x.Note}
	}
	return m
}

type rcPart struct {
	ddd.BaseEntity
	Val    int
	hooks  int
	Leaves []*rcNote
}

func (x *rcPart) GetChildren() map[string][]ddd.IEntity {
	m := map[string][]ddd.IEntity{}
	for _, p := range x.Leaves {
		m["leaves"] = append(m["leaves"], p)
	}
	return m
}
func (x *rcPart) BeforeCreate(context.Context) error { x.hooks++; return nil }
func (x *rcPart) AfterCreate(context.Context) error  { x.hooks++; return nil }
func (x *rcPart) BeforeUpdate(context.Context) error { x.hooks++; return nil }
func (x *rcPart) AfterUpdate(context.Context) error  { x.hooks++; return nil }

type rcNote struct {
	ddd.BaseEntity
	Text string
}

type rcModel struct {
	Kind, ID, Parent, Text string
	Val                    int
}

func (m *rcModel) GetID() string { return m.ID }

type rcEvt struct{ Typ, From, Text string }

func (e *rcEvt) GetType() ddd.EventType { return ddd.EventType(e.Typ) }
func (e *rcEvt) GetSender() string      { return e.From }

// rcStore answers every query from its key and forgets what it is told.
type rcStore struct{}

func (rcStore) Begin(ctx context.Context) (context.Context, error) { return ctx, nil }
func (rcStore) Commit(context.Context) error                       { return nil }
func (rcStore) RollBack(context.Context) error                     { return nil }
func (rcStore) Entity2Model(e, p ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	m := &rcModel{ID: e.GetID()}
	if p != nil {
		m.Parent = p.GetID()
	}
	switch x := e.(type) {
	case *rcRoot:
		m.Kind, m.Val, m.Text = "root", x.Val, x.Text
	case *rcPart:
		m.Kind, m.Val = "part", x.Val
	case *rcNote:
		m.Kind, m.Text = "note", x.Text
	default:
		return nil, ddd.ErrEntityNotRegister
	}
	return m, nil
}
func (rcStore) Model2Entity(m ddd.IModel, e ddd.IEntity) error {
	po := m.(*rcModel)
	e.SetID(po.ID)
	switch x := e.(type) {
	case *rcRoot:
		x.Val, x.Text = po.Val, po.Text
	case *rcPart:
		x.Val = po.Val
	case *rcNote:
		x.Text = po.Text
	}
	return nil
}
func (rcStore) Exec(ctx context.Context, a *ddd.Action) error {
	if a.Op != ddd.OpQuery {
		for i, m := range a.Models { // an executor reads what it writes
			_ = fmt.Sprint(*m.(*rcModel))
			if a.Op == ddd.OpUpdate {
				_ = reflect.DeepEqual(m, a.PrevModels[i])
			}
		}
		return nil
	}
	q := a.Query.(*rcModel)
	res := a.QueryResult.(*[]*rcModel)
	switch {
	case q.ID == "missing":
	case q.ID != "":
		*res = append(*res, &rcModel{Kind: q.Kind, ID: q.ID, Parent: q.Parent, Text: "stored", Val: 7})
	default:
		for i := 0; i < 3; i++ {
			*res = append(*res, &rcModel{Kind: q.Kind, ID: fmt.Sprintf("%s.%s%d", q.Parent, q.Kind, i), Parent: q.Parent, Text: "stored", Val: i})
		}
	}
	return nil
}

type rcLock struct{}

func (rcLock) Lock(ctx context.Context, key string) (interface{}, error) { return key, nil }
func (rcLock) UnLock(ctx context.Context, l interface{}) error           { return nil }

// rcBus keeps the callbacks it was given first.
type rcBus struct {
	once, onceTX sync.Once
	cb           ddd.DomainEventHandler
}

func (b *rcBus) RegisterEventHandler(cb ddd.DomainEventHandler) { b.once.Do(func() { b.cb = cb }) }
func (b *rcBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	for _, e := range evts { // a bus reads what it sends
		_ = fmt.Sprint(*e)
	}
	return nil
}

type rcTXBus struct {
	rcBus
	tx ddd.DomainEventTXChecker
}

func (b *rcTXBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {
	b.onceTX.Do(func() { b.tx = cb })
}
func (b *rcTXBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	return context.WithValue(ctx, cidKey{}, ctx.Value(cidKey{})), b.Dispatch(ctx, evts...)
}
func (b *rcTXBus) Commit(context.Context) error   { return nil }
func (b *rcTXBus) Rollback(context.Context) error { return nil }

type rcTimer struct {
	once sync.Once
	cb   ddd.TimerHandler
}

func (t *rcTimer) RegisterTimerHandler(cb ddd.TimerHandler) { t.once.Do(func() { t.cb = cb }) }
func (t *rcTimer) RunCron(key, cron string, data []byte) error {
	return nil
}
func (t *rcTimer) RunOnce(key string, at time.Time, data []byte) error { return nil }
func (t *rcTimer) Cancel(key string) error                             { return nil }

// rcTally is what one goroutine saw.
type rcTally struct {
	ids   []string
	bad   []string
	n     int
	calls int
}

func (t *rcTally) fail(f string, a ...any) {
	if len(t.bad) < 5 {
		t.bad = append(t.bad, fmt.Sprintf(f, a...))
	}
}

type rcRun struct {
	gid   int
	posts int
	t     *rcTally
	res   *ddd.Result
}

type rcKey struct{}

func rcPost(ctx context.Context, res *ddd.Result) {
	if r, ok := ctx.Value(rcKey{}).(*rcRun); ok {
		r.posts++ // the command's own goroutine
		r.res = res
		_ = fmt.Sprint(len(res.Actions), res.Error)
	}
}

// rcMain is a command without state, which goroutines may share.
type rcMain struct{ keys []string }

func (m *rcMain) Init(context.Context) ([]string, error) { return m.keys, nil }
func (m *rcMain) Main(ctx context.Context, repo *ddd.Repository) error {
	return rcBody(ctx, ctx.Value(rcKey{}).(*rcRun), rcRepo{repo})
}
func (m *rcMain) PostSave(ctx context.Context, res *ddd.Result) { rcPost(ctx, res) }

type rcOld struct {
	ddd.Command
	run   *rcRun
	b     *ddd.DomainBuilder
	c     *ddd.RootContainer
	keys  []string
	roots []ddd.IEntity
}

func (m *rcOld) Init(context.Context) ([]string, error) { return m.keys, nil }
func (m *rcOld) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	x := &rcRoot{}
	x.SetID("r1")
	if err := h.Build(ctx, x, &x.Parts, &x.Note); err != nil {
		return nil, err
	}
	return []ddd.IEntity{x}, nil
}
func (m *rcOld) Act(ctx context.Context, c ddd.RootContainer, roots ...ddd.IEntity) error {
	m.c, m.roots = &c, roots
	return rcBody(ctx, m.run, m)
}
func (m *rcOld) get(ctx context.Context, x *rcRoot, ch ...any) (*rcRoot, error) {
	return m.roots[0].(*rcRoot), nil
}
func (m *rcOld) add(e ...ddd.IEntity) {
	for _, x := range e {
		m.c.Add(x)
	}
}
func (m *rcOld) remove(e ddd.IEntity)           { m.c.Remove(e) }
func (m *rcOld) save(ctx context.Context) error { return m.Commit(ctx) }

type rcAPI interface {
	get(ctx context.Context, x *rcRoot, ch ...any) (*rcRoot, error)
	add(e ...ddd.IEntity)
	remove(e ddd.IEntity)
	save(ctx context.Context) error
}

type rcRepo struct{ r *ddd.Repository }

func (r rcRepo) get(ctx context.Context, x *rcRoot, ch ...any) (*rcRoot, error) {
	return x, r.r.Get(ctx, x, ch...)
}
func (r rcRepo) add(e ...ddd.IEntity)           { r.r.Add(e...) }
func (r rcRepo) remove(e ddd.IEntity)           { r.r.Remove(e) }
func (r rcRepo) save(ctx context.Context) error { return r.r.Save(ctx) }

func rcBody(ctx context.Context, run *rcRun, api rcAPI) error {
	t := run.t
	n := t.n
	x := &rcRoot{}
	x.SetID("r1")
	x, err := api.get(ctx, x, &x.Parts, &x.Note)
	if err != nil {
		return err
	}
	if len(x.Parts) != 3 || x.Parts[0].GetID() != "r1.part0" || x.Val != 7 {
		t.fail("loaded %+v", x)
	}
	x.Val = n
	x.Dirty()
	x.Parts[0].Val++
	x.Parts[0].Dirty()
	x.Parts = append(x.Parts[:1], &rcPart{Val: n}, &rcPart{Leaves: []*rcNote{{Text: "leaf"}}})
	y := &rcRoot{Val: n, Parts: []*rcPart{{Val: 1}, {Val: 2}}, Note: &rcNote{Text: fmt.Sprint(n)}}
	api.add(y)
	for i, st := range []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeFIFO} {
		if i <= n%4 {
			x.AddEvent(&rcEvt{"rc.none", x.GetID(), "txt"}, ddd.WithSendType(st))
		}
	}
	if n%3 == 0 {
		if err := api.save(ctx); err != nil {
			return err
		}
		y.Note.Text = "changed"
		y.Note.Dirty()
	}
	if n%5 == 0 {
		api.remove(y)
	}
	switch n % 11 {
	case 3:
		return errUser
	case 5:
		return ddd.ErrBreak
	case 7:
		panic(injected{"race"})
	}
	return nil
}

var rcCase atomic.Int64

// racePlain: goroutines run commands of every form on shared engines with
// shared options, hooks and lock keys.
func racePlain(c *C) {
	r := c.R
	lg := []logr.Logger{discard, formatting(0), formatting(9)}[r.Intn(3)]
	bus, txbus, timer := &rcBus{}, &rcTXBus{}, &rcTimer{}
	engOpts := make([]ddd.Option, 0, 8)
	engOpts = append(engOpts, ddd.WithLogger(lg), ddd.WithTimer(timer), ddd.WithPostSave(rcPost))
	hooks := 1
	for k := r.Intn(4); k > 0; k-- {
		engOpts = append(engOpts, ddd.WithPostSave(rcPost))
		hooks++
	}
	if r.Intn(2) == 0 {
		engOpts = append(engOpts, ddd.WithEventBus(bus))
	} else {
		engOpts = append(engOpts, ddd.WithEventBus(txbus))
	}
	if r.Intn(2) == 0 {
		engOpts = append(engOpts, ddd.WithEventPersist(func(e *ddd.DomainEvent) (ddd.IModel, error) {
			return &rcModel{Kind: "event", ID: e.ID}, nil
		}))
	}
	engs := []*ddd.Engine{ddd.NewEngine(rcLock{}, rcStore{}, engOpts...)}
	if r.Intn(2) == 0 {
		engs = append(engs, ddd.NewEngine(rcLock{}, rcStore{}, engOpts...))
	}
	ddd.RegisterEventBus(bus)
	ddd.RegisterEventBus(txbus)
	runOpts := make([]ddd.Option, 0, 8) // shared by all commands, with room at its end
	for k := r.Intn(3); k > 0; k-- {
		runOpts = append(runOpts, ddd.WithPostSave(rcPost))
		hooks++
	}
	if r.Intn(2) == 0 {
		runOpts = append(runOpts, ddd.WithRecursiveDelete)
	}
	keys := []string{"k3", "k1", "k2"}[:1+r.Intn(3)]
	keysWas := fmt.Sprint(keys)
	main := &rcMain{keys: keys}
	typ := fmt.Sprintf("rc.t%d.%d", c.Index, rcCase.Add(1))
	ng, per := 3+r.Intn(5), 10+r.Intn(20)
	tallies := make([]*rcTally, ng)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range tallies {
		t := &rcTally{}
		tallies[g] = t
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for t.n = 0; t.n < per; t.n++ {
				rcOne(c, t, g, rr, engs[rr.Intn(len(engs))], main, keys, runOpts, hooks, typ, bus, txbus, timer)
				if rr.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	ids := map[string]bool{}
	for g, t := range tallies {
		for _, b := range t.bad {
			c.Violate("C11", "interference", "goroutine %d: %s", g, b)
		}
		for _, id := range t.ids {
			if id == "" || ids[id] {
				c.Violate("C11", "shared-id", "identifier %q was given to two entities", id)
			}
			ids[id] = true
		}
		c.Count("stateless_commands", t.n)
		c.Count("callbacks_seen", t.calls)
	}
	if fmt.Sprint(keys) != keysWas {
		c.Violate("C11", "shared-keys", "the lock keys %s of the application became %v", keysWas, keys)
	}
	c.Distinct("%d %d %d %v", ng, hooks, len(keys), len(engs))
	c.Sample("%d goroutines with %d commands each on %d engines, %d hooks, keys %v", ng, per, len(engs), hooks, keys)
}

func rcOne(c *C, t *rcTally, g int, rr *rand.Rand, eng *ddd.Engine, main *rcMain, keys []string, opts []ddd.Option, hooks int, typ string, bus *rcBus, txbus *rcTXBus, timer *rcTimer) {
	run := &rcRun{gid: g, t: t}
	ctx := context.WithValue(context.Background(), rcKey{}, run)
	want := hooks
	var res *ddd.Result
	plain := false // expected to succeed
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(injected); !ok {
					t.fail("panic %v\n%s", x, cut(allStacksSelf(), 1500))
				}
				res = nil
			}
		}()
		switch rr.Intn(9) {
		case 0:
			want++ // its own callback
			res = eng.Run(ctx, main, opts...)
		case 1:
			res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error { return rcBody(ctx, run, rcRepo{repo}) }, opts...)
		case 2:
			res = eng.NewStage().WithOption(opts...).Lock(keys...).Main(main.Main).Save(ctx)
		case 3:
			res = eng.Run(ctx, &rcOld{run: run, keys: keys}, opts...)
		case 4:
			x := &rcRoot{Parts: []*rcPart{{}, {}}}
			plain, want = true, want-len(postsIn(opts))
			res = eng.Create(ctx, x)
			t.ids = append(t.ids, x.GetID(), x.Parts[0].GetID(), x.Parts[1].GetID())
		case 5:
			x := &rcRoot{}
			x.SetID("r2")
			plain, want = true, want-len(postsIn(opts))
			res = eng.Delete(ctx, x)
		case 6: // registration while others deliver
			plain, want = true, 0
			switch rr.Intn(4) {
			case 0:
				ddd.RegisterEventHandler(ddd.EventType(typ), func(ctx context.Context, e *rcEvt) error { return nil })
			case 1:
				ddd.RegisterEventHandler(ddd.EventType(typ), func(ctx context.Context, e *ddd.DomainEvent) error { return nil })
			case 2:
				eng.RegisterEventHandler(ddd.EventType(typ), func(e *rcEvt) *rcNop { return &rcNop{} })
			case 3:
				ddd.RegisterEventTXChecker(ddd.EventType(fmt.Sprintf("%s.%d.%d", typ, g, t.n)), func(e *rcEvt) ddd.TXStatus { return ddd.TXCommit })
			}
		case 7:
			plain, want = true, 0
			ev := ddd.NewDomainEvent(&rcEvt{typ, "x", "y"})
			if cb := bus.cb; cb != nil {
				if err := cb(context.Background(), ev); err != nil {
					t.fail("delivery: %v", err)
				}
			}
			st := txbus.tx(ddd.NewDomainEvent(&rcEvt{fmt.Sprintf("%s.%d.%d", typ, rr.Intn(4), rr.Intn(20)), "x", "y"}))
			if st != ddd.TXCommit && st != ddd.TXRollBack {
				t.fail("status %v", st)
			}
			if timer.cb != nil {
				if err := timer.cb(context.Background(), typ+".timer", "* * * * *", nil); err != nil {
					t.fail("timer: %v", err)
				}
			}
		case 8:
			plain, want = true, 0
			eng.RegisterCronTask(ddd.EventType(fmt.Sprintf("%s.cron.%d.%d", typ, g, t.n)), "* * * * *", func(key, cron string) {})
		}
	}()
	if plain && res != nil && res.Error != nil {
		t.fail("a valid call failed: %v", res.Error)
	}
	if res != nil {
		if res.Error != nil && !errors.Is(res.Error, errUser) {
			t.fail("a valid command failed: %v", res.Error)
		}
		if res.Error != nil {
			want = 0
		}
		if run.posts != want {
			t.fail("%d callbacks ran, %d were set (result %+v)", run.posts, want, res)
		}
		if want > 0 && run.res != res {
			t.fail("a callback got another result")
		}
		t.calls += run.posts
		if res.Error == nil && !res.Break {
			for _, a := range res.Actions {
				if a.Op == ddd.OpInsert {
					for _, m := range a.Models {
						if m.(*rcModel).Kind != "event" {
							t.ids = append(t.ids, m.GetID())
						}
					}
				}
			}
			if len(t.ids) > 0 {
				sort.Strings(t.ids)
				d := t.ids[:1]
				for _, id := range t.ids[1:] {
					if id != d[len(d)-1] {
						d = append(d, id)
					}
				}
				t.ids = d
			}
		}
	}
}

type rcNop struct{}

func (*rcNop) Main(ctx context.Context, repo *ddd.Repository) error { return nil }

func postsIn(opts []ddd.Option) (r []ddd.Option) {
	for _, o := range opts {
		if _, ok := o.(ddd.PostSaveOption); ok {
			r = append(r, o)
		}
	}
	return
}

// ---- the in-memory bus under commands, handlers that run commands,
// registration and repeated starts

type rcMemCmd struct{ evt *rcEvt }

func (m *rcMemCmd) Main(ctx context.Context, repo *ddd.Repository) error {
	x := &rcRoot{Text: m.evt.Text}
	repo.Add(x)
	return nil
}

var rcMemEng atomic.Pointer[ddd.Engine]

func raceMem(c *C) {
	r := c.R
	log.SetOutput(io.Discard)
	bus := mem.NewEventBus([]int{0, 1, 10, 1000}[r.Intn(4)])
	typ := fmt.Sprintf("rm.t%d.%d", c.Index, rcCase.Add(1))
	eng := ddd.NewEngine(rcLock{}, rcStore{}, ddd.WithLogger(discard), ddd.WithEventBus(bus))
	eng2 := ddd.NewEngine(rcLock{}, rcStore{}, ddd.WithLogger(formatting(9)), ddd.WithEventBus(bus))
	got := map[string]int{} // of the one goroutine of the bus
	nfirst := 0
	done := make(chan struct{})
	total := 0
	ng, per := 2+r.Intn(5), 5+r.Intn(20)
	// the first handler counts, the second runs a command
	ddd.RegisterEventHandler(ddd.EventType(typ), func(ctx context.Context, e *rcEvt) error {
		got[e.Text]++
		if nfirst++; nfirst == ng*per {
			close(done)
		}
		return nil
	})
	eng.RegisterEventHandler(ddd.EventType(typ), func(e *rcEvt) *rcMemCmd { return &rcMemCmd{e} })
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := make([][]string, ng)
	for g := 0; g < ng; g++ {
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			<-start
			for i := 0; i < per; i++ {
				if rr.Intn(4) == 0 {
					bus.Start(ctx)
				}
				e := eng
				if rr.Intn(2) == 0 {
					e = eng2
				}
				tok := fmt.Sprintf("%d.%d", g, i)
				res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
					x := &rcRoot{}
					x.AddEvent(&rcEvt{typ, tok, tok})
					repo.Add(x)
					return nil
				})
				if res.Error != nil {
					bad[g] = append(bad[g], res.Error.Error())
				}
				switch rr.Intn(6) {
				case 0:
					ddd.RegisterEventHandler(ddd.EventType(fmt.Sprintf("%s.%d.%d", typ, g, i)), func(ctx context.Context, e *rcEvt) error { return nil })
				case 1:
					ddd.RegisterEventHandler(ddd.EventType(typ), func(ctx context.Context, e *ddd.DomainEvent) error { return nil })
				case 2:
					ddd.RegisterEventBus(bus)
				}
			}
		}()
	}
	go func() { <-start; bus.Start(ctx) }()
	close(start)
	wg.Wait()
	<-done // the watchdog tells when it does not come
	cancel()
	total = ng * per
	for g, b := range bad {
		for _, m := range b {
			c.Violate("C11", "spurious-failure", "goroutine %d: a valid command failed: %s", g, m)
		}
	}
	for t, n := range got {
		if n != 1 {
			c.Violate("C11", "repeated-event", "event %s was handled %d times", t, n)
		}
	}
	if len(got) != total {
		c.Violate("C11", "lost-event", "%d of %d events were handled", len(got), total)
	}
	c.Count("memory_bus_events", total)
	c.Distinct("%d %d", ng, per)
}

// ---- everything on real components and simulated servers

type rfCounter struct {
	ddd.BaseEntity
	Ver int64
	Ops []*rfOp
}

func (x *rfCounter) GetChildren() map[string][]ddd.IEntity {
	l := make([]ddd.IEntity, len(x.Ops))
	for i, e := range x.Ops {
		l[i] = e
	}
	return map[string][]ddd.IEntity{"ops": l}
}

type rfOp struct {
	ddd.BaseEntity
	Ver int64
	Who string
}

type rfCounterPO struct {
	ID  string `gorm:"primaryKey;type:varchar(64)"`
	Ver int64
}

type rfOpPO struct {
	ID        string `gorm:"primaryKey;type:varchar(64)"`
	CounterID string `gorm:"type:varchar(64)"`
	Ver       int64
	Who       string
}

func (p *rfCounterPO) GetID() string     { return p.ID }
func (p *rfCounterPO) TableName() string { return "rf_counter" }
func (p *rfOpPO) GetID() string          { return p.ID }
func (p *rfOpPO) TableName() string      { return "rf_op" }

type rfEvt struct{ Typ, Key, Counter string }

func (e *rfEvt) GetType() ddd.EventType { return ddd.EventType(e.Typ) }
func (e *rfEvt) GetSender() string      { return e.Counter }

const rfMoved = "rf.moved"

var rfEng atomic.Pointer[ddd.Engine]

// rfBump is one command: it advances counters by one version each.
type rfBump struct {
	counters []string
	who      string
	emit     []ddd.SendType
	outcome  string
	half     bool
}

func (b *rfBump) Init(context.Context) ([]string, error) { return b.counters, nil }
func (b *rfBump) Main(ctx context.Context, repo *ddd.Repository) error {
	for i, id := range b.counters {
		x := &rfCounter{}
		x.SetID(id)
		if err := repo.Get(ctx, x); err != nil {
			return fmt.Errorf("load %s: %w", id, err)
		}
		x.Ver++
		x.Dirty()
		x.Ops = append(x.Ops, &rfOp{Ver: x.Ver, Who: b.who})
		if i == 0 {
			for k, st := range b.emit {
				x.AddEvent(&rfEvt{rfMoved, fmt.Sprintf("%s/%d", b.who, k), id}, ddd.WithSendType(st))
			}
		}
		if b.half && i == 0 {
			if err := repo.Save(ctx); err != nil {
				return err
			}
		}
	}
	switch b.outcome {
	case "error":
		return errUser
	case "break":
		return ddd.ErrBreak
	}
	return nil
}

func init() {
	exmysql.RegisterEntity2Model(&rfCounter{}, func(e, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
		return &rfCounterPO{ID: e.GetID(), Ver: e.(*rfCounter).Ver}, nil
	}, func(po exmysql.IModel, e ddd.IEntity) error {
		e.SetID(po.GetID())
		e.(*rfCounter).Ver = po.(*rfCounterPO).Ver
		return nil
	})
	exmysql.RegisterEntity2Model(&rfOp{}, func(e, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
		po := &rfOpPO{ID: e.GetID(), Ver: e.(*rfOp).Ver, Who: e.(*rfOp).Who}
		if parent != nil {
			po.CounterID = parent.GetID()
		}
		return po, nil
	}, func(po exmysql.IModel, e ddd.IEntity) error {
		e.SetID(po.GetID())
		return nil
	})
	simExtraModels = append(simExtraModels, &rfCounterPO{}, &rfOpPO{})
	ddd.RegisterEventHandler(rfMoved, func(ctx context.Context, e *rfEvt) error {
		res := rfEng.Load().Run(ctx, &rfBump{counters: []string{e.Counter}, who: "h" + e.Key})
		return res.Error
	})
	ddd.RegisterEventTXChecker(rfMoved, func(e *rfEvt) ddd.TXStatus { return ddd.TXUnknown })
}

type rfProc struct {
	biz, lk, ev *simInst
	bus         *ebmysql.EventBus
	timer       *timersql.DBTimer
	lock        *dblock.DBLock
	short       *dblock.DBLock
	engs        []*ddd.Engine
}

type rfDone struct {
	who      string
	counters []string
	emit     int
	err      error
	brk      bool
	outcome  string
	runErr   error
}

// raceFull: commands, event deliveries, timers, locked runs, registrations and
// component starts at the same time, on the real components.
func raceFull(c *C) {
	alignHour()
	r := c.R
	biz, lk, ev := newSimDB(), newSimDB(), newSimDB()
	dbs := []*simDB{biz, lk, ev}
	seed := r.Int63()
	if r.Intn(2) == 0 { // latency without a shared generator
		for _, d := range dbs {
			d.lat = func(st *simStmt) time.Duration {
				h := hash64(fmt.Sprint(seed), fmt.Sprint(st.Seq, st.Conn))
				if h%4 > 0 {
					return 0
				}
				return time.Duration(h/4%9) * time.Millisecond
			}
		}
	}
	typ := fmt.Sprintf("rf.t%d.%d", c.Index, rcCase.Add(1))
	lg := func() logr.Logger { return []logr.Logger{discard, formatting(9)}[r.Intn(2)] }
	var counters []string
	for i := 1 + r.Intn(3); i > 0; i-- {
		id := fmt.Sprintf("c%d.%d", c.Index, i)
		counters = append(counters, id)
	}
	clean := []string{"0 0 0 1 1 *", "0 0 0 1 1 *", "0 0 0 1 1 *", thisHour("0 *")}[r.Intn(4)]
	var procs []*rfProc
	for k := 1 + r.Intn(2); k > 0; k-- {
		p := &rfProc{}
		n := fmt.Sprintf("p%d", k)
		p.biz, p.lk, p.ev = biz.newInst(n), lk.newInst(n), ev.newInst(n)
		p.bus = ebmysql.NewEventBus("svc", p.ev.g, func(o *ebmysql.Options) {
			o.RunInterval, o.Logger, o.CleanCron = time.Duration(100+r.Intn(400))*time.Millisecond, lg(), clean
			o.ConsumeConcurrent = 1 + r.Intn(4)
			o.RetryStrategy = []ebmysql.IRetryStrategy{&ebmysql.LimitRetry{Limit: 1 << 20}, &ebmysql.IntervalRetry{Limit: 1 << 20, Interval: 50 * time.Millisecond}}[r.Intn(2)]
			o.TXCheckTimeout = time.Minute
		})
		p.timer = timersql.NewDBTimer("svc", p.ev.g, func(o *timersql.Options) { o.RunInterval, o.Logger = 100*time.Millisecond, lg() })
		lo := lg()
		p.lock = dblock.NewDBLock(p.lk.g, time.Minute, func(o *dblock.Options) { o.Logger, o.Retry = lo, true })
		p.short = dblock.NewDBLock(p.lk.g, time.Second, func(o *dblock.Options) { o.Logger, o.Retry = lo, true })
		ex := exmysql.NewExecutor(p.biz.g)
		for i := 0; i < 2; i++ {
			opts := append(p.bus.Options(), ddd.WithLogger(lg()), ddd.WithTimer(p.timer))
			if r.Intn(3) == 0 {
				opts = append(opts, ddd.WithPostSave(func(context.Context, *ddd.Result) {}))
			}
			p.engs = append(p.engs, ddd.NewEngine(p.lock, ex, opts...))
		}
		procs = append(procs, p)
	}
	rfEng.Store(procs[0].engs[0])
	for _, id := range counters {
		x := &rfCounter{}
		x.SetID(id)
		if res := procs[0].engs[0].Create(context.Background(), x); res.Error != nil {
			c.Violate("C11", "spurious-failure", "creating a counter failed: %v", res.Error)
			return
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	start := make(chan struct{})
	var wg, bg sync.WaitGroup
	var out [][]rfDone
	run := func(wg *sync.WaitGroup, f func(rr *rand.Rand)) {
		s := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(rand.New(rand.NewSource(s)))
		}()
	}
	opts := make([]ddd.Option, 0, 4)
	for pi, p := range procs {
		for k := 0; k < 2; k++ {
			run(&wg, func(rr *rand.Rand) {
				time.Sleep(time.Duration(rr.Intn(3)*rr.Intn(100)) * time.Millisecond)
				p.bus.Start(ctx)
			})
			run(&wg, func(rr *rand.Rand) {
				time.Sleep(time.Duration(rr.Intn(3)*rr.Intn(100)) * time.Millisecond)
				p.timer.Start(ctx)
			})
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			gi := len(out)
			out = append(out, nil)
			n := 3 + r.Intn(5)
			run(&wg, func(rr *rand.Rand) {
				for i := 0; i < n; i++ {
					b := &rfBump{who: fmt.Sprintf("g%d.%d.%d", c.Index, gi, i), half: rr.Intn(3) == 0,
						outcome: []string{"", "", "", "error", "break"}[rr.Intn(5)]}
					for _, j := range rr.Perm(len(counters))[:1+rr.Intn(len(counters))] {
						b.counters = append(b.counters, counters[j])
					}
					for j := rr.Intn(3); j > 0; j-- {
						b.emit = append(b.emit, []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeTransaction}[rr.Intn(4)])
					}
					var res *ddd.Result
					eng := p.engs[rr.Intn(2)]
					if rr.Intn(2) == 0 {
						res = eng.Run(context.Background(), b, opts...)
					} else {
						res = eng.NewStage().WithOption(opts...).Lock(b.counters...).Main(b.Main).Save(context.Background())
					}
					out[gi] = append(out[gi], rfDone{who: b.who, counters: b.counters, emit: len(b.emit), err: res.Error, brk: res.Break, outcome: b.outcome})
					if rr.Intn(2) == 0 {
						time.Sleep(time.Duration(rr.Intn(80)) * time.Millisecond)
					}
				}
			})
		}
		// timers
		gt := len(out)
		out = append(out, nil)
		run(&wg, func(rr *rand.Rand) {
			eng := p.engs[rr.Intn(2)]
			for k := 0; k < 3; k++ {
				key := fmt.Sprintf("%s.p%d.cron%d", typ, pi, k)
				cid := counters[rr.Intn(len(counters))]
				if rr.Intn(2) == 0 {
					eng.RegisterCronTask(ddd.EventType(key), "*/1 * * * * *", func(key, cron string) {
						_ = p.engs[0].Run(context.Background(), &rfBump{counters: []string{cid}, who: "t" + key})
					})
				} else {
					eng.RegisterCronTaskOfCommand(ddd.EventType(key), "*/1 * * * * *", func(key, cron string) ddd.ICommand {
						return &rfOld{b: rfBump{counters: []string{cid}, who: "t" + key}}
					})
				}
				if err := p.timer.RunOnce(key+".once", time.Now().Add(time.Duration(rr.Intn(2000))*time.Millisecond), []byte("x")); err != nil {
					out[gt] = append(out[gt], rfDone{who: key, runErr: err})
				}
				time.Sleep(time.Duration(rr.Intn(300)) * time.Millisecond)
				if rr.Intn(2) == 0 {
					if err := p.timer.Cancel(key); err != nil {
						out[gt] = append(out[gt], rfDone{who: key, runErr: err})
					}
				}
			}
		})
		// locked runs with renewal
		gl := len(out)
		out = append(out, nil)
		run(&wg, func(rr *rand.Rand) {
			for k := 0; k < 3; k++ {
				ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
				err := p.short.Run(ctx, fmt.Sprintf("short%d", rr.Intn(2)), func(ctx context.Context) {
					select {
					case <-ctx.Done():
					case <-time.After(time.Duration(rr.Intn(3000)) * time.Millisecond):
					}
				})
				cancel()
				if err != nil && !errors.Is(err, ddd.ErrEntityLocked) && !errors.Is(err, context.DeadlineExceeded) {
					out[gl] = append(out[gl], rfDone{who: "locked run", runErr: err})
				}
			}
		})
		// registrations
		run(&wg, func(rr *rand.Rand) {
			for k := 0; k < 6; k++ {
				switch rr.Intn(4) {
				case 0:
					ddd.RegisterEventBus(p.bus)
				case 1:
					ddd.RegisterEventHandler(ddd.EventType(fmt.Sprintf("%s.p%d.%d", typ, pi, k)), func(ctx context.Context, e *rcEvt) error { return nil })
				case 2:
					_ = ddd.NewEngine(p.lock, exmysql.NewExecutor(p.biz.g), append(p.bus.Options(), ddd.WithTimer(p.timer), ddd.WithLogger(discard))...)
				case 3:
					ddd.RegisterEventTXChecker(ddd.EventType(fmt.Sprintf("%s.p%d.%d", typ, pi, k)), func(e *rcEvt) ddd.TXStatus { return ddd.TXCommit })
				}
				time.Sleep(time.Duration(rr.Intn(60)) * time.Millisecond)
			}
		})
	}
	close(start)
	wg.Wait()
	begun := time.Now()
	settled := false
	for time.Since(begun) < 30*time.Minute {
		time.Sleep(500 * time.Millisecond)
		var left struct{ P, S int }
		if err := ev.mon.g.Raw("select (select count(*) from ddd_event_transaction) as p, (select count(*) from ddd_domain_service_event where status <> ?) as s", stOK).Scan(&left).Error; err != nil {
			panic(err)
		}
		if settled = left.P == 0 && left.S == 0; settled {
			break
		}
	}
	for _, p := range procs {
		for k := range procs {
			for j := 0; j < 3; j++ {
				_ = p.timer.Cancel(fmt.Sprintf("%s.p%d.cron%d", typ, k, j))
			}
		}
	}
	time.Sleep(15 * time.Second) // timer commands end, retries of locks included
	cancel()
	bg.Wait()
	// judged on the stored rows alone
	var cs []rfCounterPO
	var ops []rfOpPO
	if err := biz.mon.g.Find(&cs).Error; err != nil {
		panic(err)
	}
	if err := biz.mon.g.Order("ver").Find(&ops).Error; err != nil {
		panic(err)
	}
	byC := map[string][]rfOpPO{}
	who := map[string]int{}
	for _, o := range ops {
		byC[o.CounterID] = append(byC[o.CounterID], o)
		who[o.Who+" "+o.CounterID]++
	}
	for _, x := range cs {
		l := byC[x.ID]
		for i, o := range l {
			if o.Ver != int64(i+1) {
				c.Violate("C11", "not-serializable", "counter %s is at version %d, the versions written are %s", x.ID, x.Ver, rfList(l))
				break
			}
		}
		if x.Ver != int64(len(l)) {
			c.Violate("C11", "lost-update", "counter %s is at version %d after %d updates: %s", x.ID, x.Ver, len(l), rfList(l))
		}
	}
	if !settled {
		c.Violate("C11", "events-stuck", "events are still undelivered half an hour after everything else had ended")
	}
	n, nok, conf := 0, 0, 0
	for _, l := range out {
		for _, d := range l {
			if d.runErr != nil {
				c.Violate("C11", "spurious-failure", "%s failed: %v", d.who, d.runErr)
				continue
			}
			n++
			wantN := 0
			switch {
			case errors.Is(d.err, ddd.ErrEntityLocked):
				conf++
			case d.err != nil && d.outcome != "error":
				c.Violate("C11", "spurious-failure", "command %s failed: %v", d.who, d.err)
			case d.err == nil && d.brk != (d.outcome == "break"), d.err == nil && d.outcome == "error":
				c.Violate("C11", "foreign-result", "command %s asked for %q and got error %v, break %v", d.who, d.outcome, d.err, d.brk)
			case d.err == nil && !d.brk:
				wantN = 1
				nok++
			}
			for _, id := range d.counters {
				if who[d.who+" "+id] != wantN {
					c.Violate("C11", "effect", "command %s (error %v, break %v) has %d operations on %s", d.who, d.err, d.brk, who[d.who+" "+id], id)
				}
			}
			if settled && len(d.counters) > 0 {
				for k := 0; k < d.emit; k++ {
					h := fmt.Sprintf("h%s/%d %s", d.who, k, d.counters[0])
					// saves half-way: the events of a command that fails later may have gone out with its normal events
					if wantN == 1 && who[h] < 1 {
						c.Violate("C11", "event-effect", "event %d of command %s was handled %d times", k, d.who, who[h])
					}
				}
			}
		}
	}
	nt := 0
	for k := range who {
		if strings.HasPrefix(k, "t") {
			nt++
		}
	}
	c.Count("component_commands", n)
	c.Count("component_commands_ok", nok)
	c.Count("component_conflicts", conf)
	c.Count("component_versions", len(ops))
	c.Count("component_timer_chains", nt)
	c.Distinct("%d %d %d", len(ops), nok, conf)
	c.Sample("%d processes, %d commands (%d ok, %d refused a lock), %d versions, %d timers", len(procs), n, nok, conf, len(ops), nt)
	for _, p := range procs {
		p.biz.peers = []*simInst{p.lk, p.ev}
		p.biz.die()
	}
	time.Sleep(10 * time.Second)
	for _, d := range dbs {
		d.close()
	}
}

func rfList(l []rfOpPO) string {
	var s []string
	for _, o := range l {
		s = append(s, fmt.Sprintf("%d by %s", o.Ver, o.Who))
	}
	return cut(strings.Join(s, ", "), 2000)
}

// rfOld is the same command in the builder form.
type rfOld struct {
	ddd.Command
	b rfBump
}

func (o *rfOld) Init(ctx context.Context) ([]string, error) { return o.b.counters, nil }
func (o *rfOld) Build(ctx context.Context, h ddd.DomainBuilder) ([]ddd.IEntity, error) {
	var roots []ddd.IEntity
	for _, id := range o.b.counters {
		x := &rfCounter{}
		x.SetID(id)
		if err := h.Build(ctx, x); err != nil {
			return nil, err
		}
		roots = append(roots, x)
	}
	return roots, nil
}
func (o *rfOld) Act(ctx context.Context, c ddd.RootContainer, roots ...ddd.IEntity) error {
	for _, e := range roots {
		x := e.(*rfCounter)
		x.Ver++
		x.Dirty()
		x.Ops = append(x.Ops, &rfOp{Ver: x.Ver, Who: o.b.who})
	}
	return nil
}

// thisHour returns a cron expression of the current hour only: a bus never
// stops its cleaner, and later cases of the bubble may pass days.
func thisHour(secMin string) string {
	t := time.Now()
	return fmt.Sprintf("%s %d %d %d *", secMin, t.Hour(), t.Day(), int(t.Month()))
}

// raceRegs: components that work while handlers and checkers are registered by
// goroutines that do nothing else, so that nothing of the environment orders
// the two; and one lock object with many runs.
func raceRegs(c *C) {
	log.SetOutput(io.Discard)
	alignHour()
	r := c.R
	db := newSimDB()
	in := db.newInst("p")
	typ := fmt.Sprintf("rr.t%d.%d", c.Index, rcCase.Add(1))
	var asked, handled, ticks atomic.Int64
	type evT = rcEvt
	status := func(e *evT) ddd.TXStatus {
		if asked.Add(1) < 20 {
			return ddd.TXUnknown
		}
		return ddd.TXCommit
	}
	handler := func(ctx context.Context, e *evT) error {
		if handled.Add(1)%3 > 0 {
			return errUser
		}
		return nil
	}
	bus := ebmysql.NewEventBus("svc", in.g, func(o *ebmysql.Options) {
		o.RunInterval, o.Logger, o.CleanCron = 50*time.Millisecond, discard, thisHour("*/2 0-5")
		o.ConsumeConcurrent, o.RetryLimit, o.RetryInterval = 1+r.Intn(3), 1000, 10*time.Millisecond
		o.TXCheckTimeout = 10 * time.Millisecond
	})
	timer := timersql.NewDBTimer("svc", in.g, func(o *timersql.Options) { o.RunInterval, o.Logger = 50*time.Millisecond, discard })
	lock := dblock.NewDBLock(in.g, time.Second, func(o *dblock.Options) {
		o.Logger, o.Retry, o.RenewInterval = discard, r.Intn(2) == 0, 20*time.Millisecond
	})
	ddd.RegisterEventHandler(ddd.EventType(typ), handler)
	ddd.RegisterEventTXChecker(ddd.EventType(typ), status)
	ddd.RegisterEventBus(bus)
	tick := func(ctx context.Context, key, cron string, data []byte) error { ticks.Add(1); return nil }
	timer.RegisterTimerHandler(tick)
	bg := context.Background()
	for i := 0; i < 3; i++ {
		if _, err := bus.DispatchBegin(bg, ddd.NewDomainEvent(&evT{typ, "t", fmt.Sprint(i)})); err != nil {
			panic(err)
		}
		if err := bus.Dispatch(bg, ddd.NewDomainEvent(&evT{typ, "n", fmt.Sprint(i)})); err != nil {
			panic(err)
		}
		if err := timer.RunCron(fmt.Sprintf("%s.%d", typ, i), "* * * * * *", []byte("x")); err != nil {
			panic(err)
		}
	}
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(bg)
	bus.Start(ctx)
	timer.Start(ctx)
	run := func(n int, f func(rr *rand.Rand)) {
		for ; n > 0; n-- {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
					time.Sleep(time.Duration(rr.Intn(90)) * time.Millisecond)
					f(rr)
				}
			}()
		}
	}
	run(1, func(*rand.Rand) { ddd.RegisterEventBus(bus) })
	run(1, func(*rand.Rand) {
		timer.RegisterTimerHandler(tick)
	})
	run(1, func(*rand.Rand) {
		ddd.RegisterEventHandler(ddd.EventType(fmt.Sprintf("%s.%d", typ, rcCase.Add(1))), handler)
	})
	run(1, func(*rand.Rand) {
		ddd.RegisterEventTXChecker(ddd.EventType(fmt.Sprintf("%s.%d", typ, rcCase.Add(1))), status)
	})
	run(1, func(rr *rand.Rand) { bus.Start(ctx); timer.Start(ctx) })
	var lost atomic.Int64
	for k, n := 0, 2+r.Intn(3); k < n; k++ {
		held := 0
		run(1, func(rr *rand.Rand) {
			d := time.Duration(rr.Intn(400)) * time.Millisecond
			err := lock.Run(bg, fmt.Sprintf("k%d", k), func(ctx context.Context) {
				held++
				select {
				case <-ctx.Done():
					lost.Add(1)
				case <-time.After(d):
				}
			})
			if err != nil {
				c.Violate("C11", "spurious-failure", "a run under a free lock failed: %v", err)
			}
		})
	}
	wg.Wait()
	time.Sleep(3 * time.Second)
	cancel()
	if lost.Load() > 0 {
		c.Violate("C11", "spurious-failure", "%d runs under locks nobody else wants were told that the lock is lost", lost.Load())
	}
	c.Count("registrations_status", int(asked.Load()))
	c.Count("registrations_handled", int(handled.Load()))
	c.Count("registrations_ticks", int(ticks.Load()))
	c.Distinct("%d %d %d", asked.Load(), handled.Load(), ticks.Load())
	in.die()
	time.Sleep(10 * time.Second)
	db.close()
}

func init() {
	Register("C11",
		Workload{Name: "plain", Quick: 1600, Thorough: 60000, Fn: racePlain},
		Workload{Name: "membus", Quick: 800, Thorough: 30000, Fn: raceMem},
		Workload{Name: "shared", Quick: 2400, Thorough: 80000, Bubble: true, Fn: sharedEngine(nil)},
		Workload{Name: "redis", Quick: 160, Thorough: 8000, Bubble: true, Fn: redisCase},
		Workload{Name: "timer", Quick: 48, Thorough: 3000, Bubble: true, Leaky: true, Fn: timerCase},
		Workload{Name: "registrations", Quick: 80, Thorough: 5000, Long: true, Fn: raceRegs},
		Workload{Name: "full", Quick: 160, Thorough: 8000, Long: true, Fn: raceFull},
		Workload{Name: "lock", Quick: 160, Thorough: 8000, Long: true, Fn: lockCase},
		Workload{Name: "mem", Quick: 800, Thorough: 40000, Long: true, CPU: 20 * time.Second, Fn: memCase},
		Workload{Name: "bus", Quick: 16, Thorough: 1000, Long: true, Fn: busCase},
		Workload{Name: "bustx", Quick: 40, Thorough: 2000, Long: true, Fn: busTxCase},
		Workload{Name: "stack", Quick: 48, Thorough: 2000, Long: true, Fn: stackCase},
	)
}
