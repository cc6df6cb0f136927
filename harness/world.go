package harness

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync"

	ddd "github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
)

// Ev is one observed step, in the order in which it happened.
type Ev struct {
	N    int    // position
	What string // begin commit rollback insert update delete query hook dispatch prepare txcommit txrollback lock unlock idgen post convert main
	Cmd  int
	UID  int
	S    string
	Err  bool
	Row  *Row
	Prev *Row
	Ent  Ent
	Evts []*ddd.DomainEvent
	Arg  any
	Cid  int // command id carried by the context
}

func (e Ev) String() string {
	s := e.What
	if e.S != "" {
		s += "(" + e.S + ")"
	}
	if e.Row != nil {
		s += "{" + e.Row.String() + "}"
	} else if e.UID != 0 {
		s += fmt.Sprintf("#%d", e.UID)
	}
	if e.Err {
		s += "!err"
	}
	return s
}

var errFault = errors.New("injected fault")

// faultErr wraps errFault so that the position is visible.
type faultErr struct {
	at   string
	like error // also one of the well-known errors
}

func (f *faultErr) Error() string        { return "injected fault at " + f.at }
func (f *faultErr) Is(target error) bool { return target == errFault || f.like != nil && target == f.like }

var knownErrs = []error{nil, nil, nil, context.Canceled, context.DeadlineExceeded, ddd.ErrEntityLocked, ddd.ErrEntityRepeated, io.EOF, sql.ErrTxDone, sql.ErrNoRows}

// World holds the fakes, the trace and the fault plan of one case.
type World struct {
	c       *C
	mu      sync.Mutex
	trace   []Ev
	nextUID int
	store   *MemStore
	lock    *RecLock
	bus     *RecBus
	txbus   *RecTxBus
	idg     *IDGen
	nodeID  int
	inUser  int // nesting of fault points inside user code

	points  int      // fault points passed so far
	names   []string // their names (when recording)
	faultAt int      // 1-based, 0: none
	mode    string   // error | panic | break
	hit     string   // name of the point where the fault fired

	hookSeed uint64
	hookRich bool // hooks emit events and change fields
	events   []*emitted
	wrapNR   bool // report unregistered entities through a wrapped error
	order    map[[2]string]bool
	delay    func() // called at every interaction (bubbles only)
	noEmit   bool

	faultName string // strike at the faultNth passage of this point
	faultNth  int
}

type emitted struct {
	seq  int
	uid  int
	evt  *ddd.DomainEvent
	typ  ddd.EventType
	send string
	body string
	st   ddd.SendType
}

func newWorld(c *C) *World {
	w := &World{c: c}
	w.store = newMemStore(w)
	w.lock = &RecLock{w: w, held: map[string]int{}}
	w.bus = &RecBus{w: w}
	w.txbus = &RecTxBus{RecBus: RecBus{w: w}}
	w.idg = &IDGen{w: w}
	w.hookSeed = uint64(c.R.Int63())
	return w
}

func (w *World) rec(e Ev) {
	w.mu.Lock()
	e.N = len(w.trace)
	w.trace = append(w.trace, e)
	w.mu.Unlock()
}

type cidKey struct{}

func cid(ctx context.Context) int {
	n, _ := ctx.Value(cidKey{}).(int)
	return n
}

func (w *World) mark() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.trace)
}

func (w *World) since(n int) []Ev {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Ev(nil), w.trace[n:]...)
}

func traceString(evs []Ev) string {
	var b strings.Builder
	for _, e := range evs {
		if e.What == "convert" {
			continue
		}
		b.WriteString(e.String())
		b.WriteString("; ")
	}
	return b.String()
}

// point is a place where the fault plan may strike.
func (w *World) point(name string) error {
	if w.delay != nil {
		w.delay()
	}
	w.mu.Lock()
	w.points++
	if w.names != nil {
		w.names = append(w.names, name)
	}
	strike := w.faultAt != 0 && w.points == w.faultAt
	if w.faultName != "" && w.faultName == name {
		strike = w.faultNth == 0
		w.faultNth--
	}
	if strike {
		w.hit = name
	}
	mode, nth := w.mode, w.points
	w.mu.Unlock()
	if !strike {
		return nil
	}
	switch mode {
	case "panic":
		panic(injected{"fault at " + name})
	case "break":
		if name == "main" || name == "build" || name == "init" {
			return fmt.Errorf("stop here: %w", ddd.ErrBreak)
		}
	}
	return &faultErr{name, knownErrs[hash64(fmt.Sprint(w.hookSeed), fmt.Sprint(nth), name)%uint64(len(knownErrs))]}
}

func (w *World) uid() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nextUID++
	return w.nextUID
}

// TestEvt is the event of the workload.
type TestEvt struct {
	Seq  int
	UID  int
	Typ  string
	Text string
	Sndr string
}

func (e *TestEvt) GetType() ddd.EventType { return ddd.EventType(e.Typ) }
func (e *TestEvt) GetSender() string      { return e.Sndr }

var sendTypes = []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeDelay}

func (w *World) emit(e Ent, st ddd.SendType) {
	c := e.C()
	w.mu.Lock()
	seq := len(w.events) + 1
	w.mu.Unlock()
	te := &TestEvt{Seq: seq, UID: c.UID, Typ: fmt.Sprintf("evt%d", seq%3), Text: fmt.Sprintf("text-\"%d\"-é", seq), Sndr: fmt.Sprintf("s%d", c.UID)}
	if st == ddd.SendTypeNormal && seq%2 == 0 {
		c.AddEvent(te)
	} else {
		c.AddEvent(te, ddd.WithSendType(st))
	}
	evs := c.GetEvents()
	b, _ := json.Marshal(te)
	w.mu.Lock()
	w.events = append(w.events, &emitted{seq: seq, uid: c.UID, evt: evs[len(evs)-1], typ: te.GetType(), send: te.Sndr, body: string(b), st: st})
	w.mu.Unlock()
}

func (c *Core) hook(ctx context.Context, kind string) error {
	w := c.w
	if w == nil {
		return nil
	}
	w.rec(Ev{Cid: cid(ctx), What: "hook", UID: c.UID, S: kind, Ent: nil})
	if w.hookRich {
		h := hash64(fmt.Sprint(w.hookSeed), fmt.Sprint(c.UID), kind)
		if h%5 == 0 {
			w.emitCore(c)
		}
		if kind == "BeforeCreate" || kind == "BeforeUpdate" {
			if h%3 == 1 {
				c.Val += 1000
				c.Aux = "hooked"
			}
			if kind == "BeforeCreate" && h%7 == 2 && (c.GetID() == "" || c.noid) { // the application's last word on it
				c.SetID(fmt.Sprintf("hook-%d", c.UID))
			}
		}
		if kind == "BeforeCreate" {
			c.noid = false
		}
	}
	return w.point("hook." + kind)
}

func (w *World) emitCore(c *Core) {
	w.mu.Lock()
	seq := len(w.events) + 1
	w.mu.Unlock()
	st := sendTypes[seq%len(sendTypes)]
	te := &TestEvt{Seq: seq, UID: c.UID, Typ: fmt.Sprintf("evt%d", seq%3), Text: "from hook", Sndr: fmt.Sprintf("s%d", c.UID)}
	c.AddEvent(te, ddd.WithSendType(st))
	evs := c.GetEvents()
	b, _ := json.Marshal(te)
	w.mu.Lock()
	w.events = append(w.events, &emitted{seq: seq, uid: c.UID, evt: evs[len(evs)-1], typ: te.GetType(), send: te.Sndr, body: string(b), st: st})
	w.mu.Unlock()
}

// ---------------------------------------------------------------- executor

type rkey struct{ table, id string }

type srow struct {
	Row
	seq int
}

// MemStore is a transactional in-memory executor that applies actions the way
// the SQL executor does: inserts fail on duplicate keys, updates write only the
// columns that differ from the previous model, missing rows are not an error.
type MemStore struct {
	w    *World
	mu   sync.Mutex
	rows map[rkey]srow
	seq  int
	open int // transactions begun and not ended
	ntx  int

	rbErr bool // a rollback reports an error
}

type memTx struct {
	id     int
	writes map[rkey]*srow
	done   bool
	snap   map[rkey]srow
}

type txKeyT struct{ s *MemStore }

func newMemStore(w *World) *MemStore { return &MemStore{w: w, rows: map[rkey]srow{}} }

func (m *MemStore) tx(ctx context.Context) *memTx {
	if v := ctx.Value(txKeyT{m}); v != nil {
		return v.(*memTx)
	}
	return nil
}

func (m *MemStore) Begin(ctx context.Context) (context.Context, error) {
	if err := m.w.point("begin"); err != nil {
		m.w.rec(Ev{Cid: cid(ctx), What: "begin", Err: true})
		return ctx, err
	}
	m.mu.Lock()
	m.open++
	m.ntx++
	id := m.ntx
	m.mu.Unlock()
	m.w.rec(Ev{Cid: cid(ctx), What: "begin", UID: id})
	return context.WithValue(ctx, txKeyT{m}, &memTx{id: id, writes: map[rkey]*srow{}}), nil
}

var errNoTx = errors.New("memstore: no open transaction in context")

func (m *MemStore) Commit(ctx context.Context) error {
	t := m.tx(ctx)
	if t == nil || t.done {
		m.w.rec(Ev{Cid: cid(ctx), What: "commit", S: "no-tx", Err: true})
		return errNoTx
	}
	if err := m.w.point("commit"); err != nil {
		m.mu.Lock()
		t.done = true
		m.open--
		m.mu.Unlock()
		m.w.rec(Ev{Cid: cid(ctx), What: "commit", UID: t.id, Err: true})
		return err
	}
	m.mu.Lock()
	t.done = true
	m.open--
	for k, r := range t.writes {
		if r == nil {
			delete(m.rows, k)
		} else {
			m.rows[k] = *r
		}
	}
	m.mu.Unlock()
	m.w.rec(Ev{Cid: cid(ctx), What: "commit", UID: t.id})
	return nil
}

func (m *MemStore) RollBack(ctx context.Context) error {
	t := m.tx(ctx)
	if t == nil || t.done {
		m.w.rec(Ev{Cid: cid(ctx), What: "rollback", S: "no-tx", Err: true})
		return errNoTx
	}
	m.mu.Lock()
	t.done = true
	m.open--
	m.mu.Unlock()
	m.w.rec(Ev{Cid: cid(ctx), What: "rollback", UID: t.id})
	if m.rbErr {
		return errors.New("rollback reply lost")
	}
	return nil
}

func (m *MemStore) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	k := ekind(entity)
	if k == "" || k == KMemo {
		if m.w.wrapNR {
			return nil, fmt.Errorf("no converter for %T: %w", entity, ddd.ErrEntityNotRegister)
		}
		return nil, ddd.ErrEntityNotRegister
	}
	if err := m.w.point("convert"); err != nil {
		return nil, err
	}
	r := Row{ID: entity.GetID()}
	if e, ok := entity.(Ent); ok {
		c := e.C()
		r.UID, r.Name, r.Val, r.Aux = c.UID, c.Name, c.Val, c.Aux
	}
	r.K = k
	if parent != nil {
		if pk := ekind(parent); pk != "" {
			r.Parent, r.PK = parent.GetID(), pk
		}
	}
	return newPO(k, r), nil
}

func (m *MemStore) Model2Entity(model ddd.IModel, entity ddd.IEntity) error {
	if err := m.w.point("convert-back"); err != nil {
		return err
	}
	r := model.(rower).row()
	c := entity.(Ent).C()
	c.w, c.K = m.w, r.K
	c.UID, c.Name, c.Val, c.Aux = r.UID, r.Name, r.Val, r.Aux
	c.SetID(r.ID)
	return nil
}

func (m *MemStore) get(t *memTx, k rkey) (srow, bool) {
	if t != nil {
		if r, ok := t.writes[k]; ok {
			if r == nil {
				return srow{}, false
			}
			return *r, true
		}
	}
	r, ok := m.rows[k]
	return r, ok
}

func (m *MemStore) put(t *memTx, k rkey, r *srow) {
	if t != nil {
		t.writes[k] = r
		return
	}
	if r == nil {
		delete(m.rows, k)
	} else {
		m.rows[k] = *r
	}
}

var errDup = errors.New("memstore: duplicate key")

func (m *MemStore) Exec(ctx context.Context, a *ddd.Action) error {
	t := m.tx(ctx)
	if t != nil && t.done {
		m.w.rec(Ev{Cid: cid(ctx), What: "exec-after-end", Err: true})
		return errNoTx
	}
	txid := 0
	if t != nil {
		txid = t.id
	}
	what := map[ddd.OpType]string{ddd.OpInsert: "insert", ddd.OpUpdate: "update", ddd.OpDelete: "delete", ddd.OpQuery: "query"}[a.Op]
	if err := m.w.point("exec." + what); err != nil {
		m.w.rec(Ev{Cid: cid(ctx), What: what, Err: true})
		return err
	}
	if a.Op == ddd.OpQuery {
		q := a.Query.(rower).row()
		m.w.rec(Ev{Cid: cid(ctx), What: "query", Row: q, Cmd: txid})
		return m.query(t, q, a.QueryResult)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for i, mod := range a.Models {
		if ep, ok := mod.(*EvtPO); ok {
			m.w.rec(Ev{Cid: cid(ctx), What: "insert-event", S: ep.ID, Arg: ep, Cmd: txid})
			k := rkey{"event", ep.ID}
			if _, dup := m.get(t, k); dup {
				return fmt.Errorf("%w: event %s", errDup, ep.ID)
			}
			m.seq++
			m.put(t, k, &srow{Row: Row{ID: ep.ID, Name: ep.Body, K: "event"}, seq: m.seq})
			continue
		}
		r := *mod.(rower).row()
		k := rkey{tableOf(r.K), r.ID}
		ev := Ev{Cid: cid(ctx), What: what, UID: r.UID, Row: &r, Cmd: txid}
		if a.Op == ddd.OpUpdate && i < len(a.PrevModels) && a.PrevModels[i] != nil {
			p := *a.PrevModels[i].(rower).row()
			ev.Prev = &p
		}
		m.w.rec(ev)
		cur, ok := m.get(t, k)
		switch a.Op {
		case ddd.OpInsert:
			if ok {
				return fmt.Errorf("%w: %v", errDup, r)
			}
			m.seq++
			m.put(t, k, &srow{Row: r, seq: m.seq})
		case ddd.OpUpdate:
			if !ok {
				continue
			}
			if i >= len(a.PrevModels) || a.PrevModels[i] == nil {
				m.put(t, k, &srow{Row: r, seq: cur.seq})
				continue
			}
			p := a.PrevModels[i].(rower).row()
			n := cur
			if r.Parent != p.Parent || r.PK != p.PK {
				n.Parent, n.PK = r.Parent, r.PK
			}
			if r.Name != p.Name {
				n.Name = r.Name
			}
			if r.Val != p.Val {
				n.Val = r.Val
			}
			if r.Aux != p.Aux {
				n.Aux = r.Aux
			}
			m.put(t, k, &n)
		case ddd.OpDelete:
			if ok {
				m.put(t, k, nil)
			}
		}
	}
	return nil
}

func (m *MemStore) query(t *memTx, q *Row, result any) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	seen := map[rkey]bool{}
	var found []srow
	match := func(r srow) bool {
		if tableOf(r.K) != tableOf(q.K) || r.K != q.K {
			return false
		}
		return (q.ID == "" || q.ID == r.ID) && (q.Parent == "" || q.Parent == r.Parent) &&
			(q.PK == "" || q.PK == r.PK) && (q.Name == "" || q.Name == r.Name) && (q.Val == 0 || q.Val == r.Val) && (q.Aux == "" || q.Aux == r.Aux)
	}
	if t != nil {
		for k, r := range t.writes {
			seen[k] = true
			if r != nil && match(*r) {
				found = append(found, *r)
			}
		}
	}
	for k, r := range m.rows {
		if !seen[k] && match(r) {
			found = append(found, r)
		}
	}
	sort.Slice(found, func(i, j int) bool { return found[i].seq < found[j].seq })
	out := reflect.ValueOf(result).Elem()
	for _, r := range found {
		out.Set(reflect.Append(out, reflect.ValueOf(newPO(r.K, r.Row))))
	}
	return nil
}

// snapshot copies the committed rows.
func (m *MemStore) snapshot() map[rkey]Row {
	m.mu.Lock()
	defer m.mu.Unlock()
	s := make(map[rkey]Row, len(m.rows))
	for k, r := range m.rows {
		s[k] = r.Row
	}
	return s
}

// seed stores a row directly.
func (m *MemStore) seed(r Row) {
	m.mu.Lock()
	m.seq++
	m.rows[rkey{tableOf(r.K), r.ID}] = srow{Row: r, seq: m.seq}
	m.mu.Unlock()
}

// EvtPO is the stored form of a persisted domain event.
type EvtPO struct{ ID, Type, Sender, Body string }

func (e *EvtPO) GetID() string { return e.ID }

func (w *World) eventPersist(evt *ddd.DomainEvent) (ddd.IModel, error) {
	if err := w.point("event-persist"); err != nil {
		return nil, err
	}
	return &EvtPO{ID: evt.ID, Type: string(evt.Type), Sender: evt.Sender, Body: string(evt.Payload)}, nil
}

// ---------------------------------------------------------------- lock, bus, ids

// RecLock records acquisitions; a key that is still held is refused.
type RecLock struct {
	w    *World
	mu   sync.Mutex
	held map[string]int
	n    int
	// FailAt makes the n-th acquisition fail with the given error.
	failKey string
	failErr error
	unErr   int // bit i: the i-th release reports an error although it released
	nrel    int
	reent   bool // a held key is given out again
	block   bool // wait for a held key instead of refusing it
	waiters map[string][]chan struct{}
}

type lockToken struct {
	key string
	n   int
}

func (l *RecLock) Lock(ctx context.Context, key string) (any, error) {
	if ctx.Err() != nil { // as any lock kept elsewhere
		l.w.rec(Ev{Cid: cid(ctx), What: "lock", S: key, Err: true})
		return nil, ctx.Err()
	}
	if err := l.w.point("lock"); err != nil {
		l.w.rec(Ev{Cid: cid(ctx), What: "lock", S: key, Err: true})
		return nil, err
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.failErr != nil && (l.failKey == "" || strings.HasSuffix(key, l.failKey)) {
		l.w.rec(Ev{Cid: cid(ctx), What: "lock", S: key, Err: true})
		return nil, l.failErr
	}
	for l.block && l.held[key] != 0 {
		ch := make(chan struct{})
		if l.waiters == nil {
			l.waiters = map[string][]chan struct{}{}
		}
		l.waiters[key] = append(l.waiters[key], ch)
		l.mu.Unlock()
		<-ch
		l.mu.Lock()
	}
	if l.held[key] != 0 {
		l.w.rec(Ev{Cid: cid(ctx), What: "lock", S: key, Err: true})
		return nil, ddd.ErrEntityLocked
	}
	l.n++
	hk := key
	if l.reent {
		hk = fmt.Sprintf("%s\x00%d", key, l.n)
	}
	l.held[hk] = l.n
	l.w.rec(Ev{Cid: cid(ctx), What: "lock", S: key, UID: l.n})
	return &lockToken{hk, l.n}, nil
}

func (l *RecLock) UnLock(ctx context.Context, k any) error {
	tok, ok := k.(*lockToken)
	l.mu.Lock()
	defer l.mu.Unlock()
	if !ok {
		l.w.rec(Ev{Cid: cid(ctx), What: "unlock", S: fmt.Sprintf("bad token %v", k), Err: true})
		return errors.New("bad token")
	}
	if l.held[tok.key] != tok.n {
		l.w.rec(Ev{Cid: cid(ctx), What: "unlock", S: tok.key, UID: tok.n, Err: true})
		return errors.New("not held")
	}
	if ctx.Err() != nil {
		l.w.rec(Ev{Cid: cid(ctx), What: "unlock-cancelled", S: tok.key, UID: tok.n})
		return ctx.Err()
	}
	delete(l.held, tok.key)
	if ws := l.waiters[tok.key]; len(ws) > 0 {
		close(ws[0])
		l.waiters[tok.key] = ws[1:]
	}
	l.w.rec(Ev{Cid: cid(ctx), What: "unlock", S: tok.key, UID: tok.n})
	l.nrel++
	if l.unErr>>(uint(l.nrel-1)%8)&1 == 1 {
		return errors.New("unlock reply lost")
	}
	return nil
}

// RecBus records what the engine hands over.
type RecBus struct {
	w    *World
	cb   ddd.DomainEventHandler
	name string
}

func copyEvts(evts []*ddd.DomainEvent) []*ddd.DomainEvent {
	r := make([]*ddd.DomainEvent, len(evts))
	for i, e := range evts {
		x := *e
		x.Payload = append([]byte(nil), e.Payload...)
		r[i] = &x
	}
	return r
}

func (b *RecBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	tx := 0
	if t := b.w.store.tx(ctx); t != nil {
		tx = t.id
		if t.done {
			tx = -1
		}
	}
	if err := b.w.point("dispatch"); err != nil {
		b.w.rec(Ev{Cid: cid(ctx), What: "dispatch", S: b.name, Err: true, Cmd: tx})
		return err
	}
	b.w.rec(Ev{Cid: cid(ctx), What: "dispatch", S: b.name, Evts: copyEvts(evts), Cmd: tx})
	return nil
}

func (b *RecBus) RegisterEventHandler(cb ddd.DomainEventHandler) {
	b.w.mu.Lock()
	b.cb = cb
	b.w.mu.Unlock()
}

// RecTxBus is a RecBus with message transactions.
type RecTxBus struct {
	RecBus
	checker ddd.DomainEventTXChecker
	n       int
	retErr  bool // commit / rollback report an error
}

type msgTxKey struct{}

func (b *RecTxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {
	b.w.mu.Lock()
	b.checker = cb
	b.w.mu.Unlock()
}

func (b *RecTxBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	tx := 0
	if t := b.w.store.tx(ctx); t != nil {
		tx = t.id
		if t.done {
			tx = -1
		}
	}
	if err := b.w.point("prepare"); err != nil {
		b.w.rec(Ev{Cid: cid(ctx), What: "prepare", Err: true, Cmd: tx})
		return ctx, err
	}
	b.w.mu.Lock()
	b.n++
	n := b.n
	b.w.mu.Unlock()
	b.w.rec(Ev{Cid: cid(ctx), What: "prepare", Evts: copyEvts(evts), UID: n, Cmd: tx})
	return context.WithValue(ctx, msgTxKey{}, n), nil
}

func (b *RecTxBus) end(ctx context.Context, what string) error {
	n, ok := ctx.Value(msgTxKey{}).(int)
	if !ok {
		b.w.rec(Ev{Cid: cid(ctx), What: what, S: "no-context", Err: true})
		return errors.New("no message transaction in context")
	}
	b.w.rec(Ev{Cid: cid(ctx), What: what, UID: n})
	if b.retErr {
		return errors.New("reply lost")
	}
	return nil
}

func (b *RecTxBus) Commit(ctx context.Context) error   { return b.end(ctx, "txcommit") }
func (b *RecTxBus) Rollback(ctx context.Context) error { return b.end(ctx, "txrollback") }

// IDGen is a recording id generator.
type IDGen struct {
	w *World
	n int
}

func (g *IDGen) NewID() (string, error) {
	if err := g.w.point("idgen"); err != nil {
		g.w.rec(Ev{What: "idgen", Err: true})
		return "", err
	}
	g.w.mu.Lock()
	g.n++
	id := fmt.Sprintf("g%d", g.n)
	g.w.mu.Unlock()
	g.w.rec(Ev{What: "idgen", S: id})
	return id, nil
}

var discard = logr.Discard()
