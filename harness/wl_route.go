package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ddd "github.com/bytedance/dddfirework"
)

// Events of the routing workload. They decode the same payloads differently.
type rtA struct {
	N    int
	S    string
	M    map[string]int `json:",omitempty"`
	P    *int           `json:",omitempty"`
	At   time.Time
	L    []string `json:"list,omitempty"`
	Deep struct{ X, Y float64 }
	typ  ddd.EventType
}

func (e *rtA) GetType() ddd.EventType { return e.typ }
func (e *rtA) GetSender() string      { return "s" + e.S }

type rtB struct {
	N string // not what rtA sends
	S string
}
type rtC struct {
	S    string
	Deep map[string]any
}
type rtD struct{}
type rtRaw = ddd.DomainEvent

type rtStatus int
type rtStatus8 uint8

var errRoute = errors.New("handler failed")

type rtErr struct{ n int }

func (e *rtErr) Error() string { return fmt.Sprintf("route error %d", e.n) }

// rtHandler is one registered handler as the model sees it.
type rtHandler struct {
	id      int
	typ     ddd.EventType
	form    string
	param   reflect.Type
	outcome string // ok error break
	err     error
	eng     *rtEngine
}

type rtEngine struct {
	eng *ddd.Engine
	w   *World
}

type rtCall struct {
	h    int
	body string // the decoded event, re-encoded
	ctx  bool
	ran  bool // its command ran
}

type rtWorld struct {
	c     *C
	mu    sync.Mutex
	calls []rtCall
	hs    []*rtHandler
	n     int
	uid   int
}

type rtCtxKey struct{}

func (w *rtWorld) note(c rtCall) {
	w.mu.Lock()
	w.calls = append(w.calls, c)
	w.mu.Unlock()
}

func enc(v any) string {
	if r, ok := v.(*ddd.DomainEvent); ok {
		return fmt.Sprintf("raw %s %s %s %s %q %d", r.ID, r.Type, r.SendType, r.Sender, r.Payload, r.CreatedAt.UnixNano())
	}
	b, _ := json.Marshal(v)
	return fmt.Sprintf("%T %s", v, b)
}

var rtSeq atomic.Int64

func rtType(c *C, what string) ddd.EventType {
	return ddd.EventType(fmt.Sprintf("rt-%s-%s-%d-%d", what, c.WL, c.Index, rtSeq.Add(1)))
}

// register one random handler for typ.
func (w *rtWorld) register(r *rand.Rand, typ ddd.EventType, engs []*rtEngine) *rtHandler {
	h := &rtHandler{id: len(w.hs), typ: typ, eng: engs[r.Intn(len(engs))]}
	h.outcome = []string{"ok", "ok", "ok", "ok", "error", "break"}[r.Intn(6)]
	switch h.outcome {
	case "error":
		h.err = []error{errRoute, &rtErr{h.id}, fmt.Errorf("wrapped %d: %w", h.id, errRoute), context.Canceled, ddd.ErrEntityLocked, fmt.Errorf("busy: %w", ddd.ErrEntityLocked), ddd.ErrEntityRepeated, ddd.ErrEntityNotFound, context.DeadlineExceeded, io.EOF}[r.Intn(10)]
	case "break":
		h.err = ddd.ErrBreak
	}
	forms := []string{"pkg", "main", "maini", "command", "commandi", "func", "mainfunc", "any"}
	h.form = forms[r.Intn(len(forms))]
	if h.form == "pkg" && h.outcome == "break" {
		h.outcome, h.err = "ok", nil
	}
	pi := r.Intn(5)
	h.param = []reflect.Type{reflect.TypeOf(rtA{}), reflect.TypeOf(rtB{}), reflect.TypeOf(rtC{}), reflect.TypeOf(rtD{}), reflect.TypeOf(rtRaw{})}[pi]
	if pi == 1 && r.Intn(2) == 0 {
		pi, h.param = 0, reflect.TypeOf(rtA{})
	}
	got := func(ctx context.Context, v any) {
		w.note(rtCall{h: h.id, body: enc(v), ctx: ctx == nil || ctx.Value(rtCtxKey{}) == w})
		switch e := v.(type) { // what a handler does with its event is its own business
		case *rtA:
			n := 77
			e.P, e.L, e.S = &n, append(e.L, "mine"), "mine"
			if e.M == nil {
				e.M = map[string]int{}
			}
			e.M["mine"] = 1
		case *rtB:
			e.S += "!"
		case *rtC:
			if e.Deep == nil {
				e.Deep = map[string]any{}
			}
			e.Deep["mine"] = 1
		}
	}
	ranCmd := func(ctx context.Context) {
		w.note(rtCall{h: h.id, ran: true, ctx: ctx.Value(rtCtxKey{}) == w})
	}
	// the body of a command: create an entity, then end as decided
	body := func(ctx context.Context, add func(ddd.IEntity)) error {
		ranCmd(ctx)
		e := newEnt(h.eng.w, KItem)
		e.C().UID = h.eng.w.uid()
		e.C().Name = fmt.Sprintf("by-%d", h.id)
		add(e)
		return h.err
	}
	mainf := func(ctx context.Context, repo *ddd.Repository) error {
		return body(ctx, func(e ddd.IEntity) { repo.Add(e) })
	}
	mk := func() any {
		switch h.form {
		case "main", "maini":
			return &cmdMain{main: mainf}
		case "command", "commandi":
			return &cmdLegacy{
				init:  func(context.Context) ([]string, error) { return nil, nil },
				build: func(context.Context, ddd.DomainBuilder) ([]ddd.IEntity, error) { return nil, nil },
				act: func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
					return body(ctx, func(e ddd.IEntity) { cont.Add(e) })
				},
				post: func(context.Context, *ddd.Result) {},
			}
		case "mainfunc":
			return ddd.MainFunc(mainf)
		}
		return mainf
	}
	if h.form == "pkg" {
		switch pi {
		case 0:
			ddd.RegisterEventHandler(typ, func(ctx context.Context, e *rtA) error { got(ctx, e); return h.err })
		case 1:
			ddd.RegisterEventHandler(typ, func(ctx context.Context, e *rtB) error { got(ctx, e); return h.err })
		case 2:
			ddd.RegisterEventHandler(typ, func(ctx context.Context, e *rtC) error { got(ctx, e); return h.err })
		case 3:
			ddd.RegisterEventHandler(typ, func(ctx context.Context, e *rtD) error { got(ctx, e); return h.err })
		case 4:
			ddd.RegisterEventHandler(typ, func(ctx context.Context, e *ddd.DomainEvent) error { got(ctx, e); return h.err })
		}
	} else {
		// a constructor with the right parameter and result type
		ret := map[string]reflect.Type{
			"main": reflect.TypeOf(&cmdMain{}), "maini": reflect.TypeOf((*ddd.ICommandMain)(nil)).Elem(),
			"command": reflect.TypeOf(&cmdLegacy{}), "commandi": reflect.TypeOf((*ddd.ICommand)(nil)).Elem(),
			"func": reflect.TypeOf(mainf), "mainfunc": reflect.TypeOf(ddd.MainFunc(nil)), "any": reflect.TypeOf((*any)(nil)).Elem(),
		}[h.form]
		ft := reflect.FuncOf([]reflect.Type{reflect.PtrTo(h.param)}, []reflect.Type{ret}, false)
		f := reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
			got(nil, in[0].Interface())
			out := reflect.New(ret).Elem()
			out.Set(reflect.ValueOf(mk()))
			return []reflect.Value{out}
		})
		h.eng.eng.RegisterEventHandler(typ, f.Interface())
	}
	w.hs = append(w.hs, h)
	return h
}

// expect derives what a delivery must do.
func (w *rtWorld) expect(evt *ddd.DomainEvent) (calls []rtCall, rows map[*rtEngine]int, err error, decode bool) {
	rows = map[*rtEngine]int{}
	for _, h := range w.hs {
		if h.typ != evt.Type {
			continue
		}
		var body string
		if h.param == reflect.TypeOf(rtRaw{}) {
			body = enc(evt)
		} else {
			v := reflect.New(h.param)
			if e := json.Unmarshal(evt.Payload, v.Interface()); e != nil {
				return calls, rows, e, true
			}
			body = enc(v.Interface())
		}
		calls = append(calls, rtCall{h: h.id, body: body, ctx: true})
		if h.form != "pkg" {
			calls = append(calls, rtCall{h: h.id, ran: true, ctx: true})
			if h.outcome == "ok" {
				rows[h.eng]++
			}
		}
		if h.outcome == "error" {
			return calls, rows, h.err, false
		}
	}
	return calls, rows, nil, false
}

func rtPayload(r *rand.Rand) []byte {
	switch r.Intn(10) {
	case 0:
		return []byte("{not json")
	case 1:
		return []byte(`{"N":"text","S":"b"}`)
	case 2:
		return nil
	case 3:
		return []byte("null")
	case 4:
		return []byte(`{"S":7}`)
	}
	e := &rtA{N: r.Intn(100), S: fmt.Sprintf("s%d\u00e4\"", r.Intn(9)), At: time.Unix(int64(r.Intn(1e9)), 0).UTC()}
	if r.Intn(2) == 0 {
		e.M = map[string]int{"k": r.Intn(4)}
		n := r.Intn(5)
		e.P = &n
	}
	for i := r.Intn(3); i > 0; i-- {
		e.L = append(e.L, fmt.Sprint(i))
	}
	e.Deep.X = float64(r.Intn(5))
	b, _ := json.Marshal(e)
	return b
}

func countRows(w *World) map[string]int {
	m := map[string]int{}
	for _, r := range w.store.snapshot() {
		m[r.Name]++
	}
	return m
}

// routing registers random handlers and delivers random events.
func routing(c *C) {
	r := c.R
	w := &rtWorld{c: c}
	var engs []*rtEngine
	var bus *RecBus
	for i := 0; i < 1+r.Intn(2); i++ {
		x := newWorld(c)
		e := &rtEngine{w: x}
		e.eng = ddd.NewEngine(x.lock, x.store, ddd.WithEventBus(x.bus), ddd.WithLogger(discard))
		engs = append(engs, e)
		bus = x.bus
	}
	how := "engine's"
	switch r.Intn(4) {
	case 0: // a bus of its own
		bus = &RecBus{w: newWorld(c)}
		ddd.RegisterEventBus(bus)
		how = "registered"
	case 1: // the bus of one command
		bus = &RecBus{w: newWorld(c)}
		if res := engs[0].eng.Run(context.Background(), func(context.Context, *ddd.Repository) error { return nil }, ddd.WithEventBus(bus)); res.Error != nil {
			c.Violate("C12", "bus-command", "a command that does nothing, with a bus of its own, failed: %v", res.Error)
		}
		how = "command's"
	}
	if bus.cb == nil {
		c.Violate("C12", "bus-not-connected", "the %s bus was never given a handler to deliver to", how)
		return
	}
	var types []ddd.EventType
	for i := 0; i < 1+r.Intn(3); i++ {
		types = append(types, rtType(c, "t"))
	}
	types = append(types, rtType(c, "none")) // nobody listens
	steps := 4 + r.Intn(14)
	deliveries := 0
	for i := 0; i < steps; i++ {
		if r.Intn(5) < 2 || len(w.hs) == 0 {
			h := w.register(r, types[r.Intn(len(types)-1)], engs)
			c.Logf("register #%d for %s: form=%s param=%v outcome=%s", h.id, h.typ, h.form, h.param, h.outcome)
			continue
		}
		evt := &ddd.DomainEvent{ID: fmt.Sprintf("e%d", i), Type: types[r.Intn(len(types))], SendType: sendTypes[r.Intn(len(sendTypes))],
			Sender: "x", Payload: rtPayload(r), CreatedAt: time.Unix(int64(1e9+r.Intn(100)), 0)}
		want, rows, werr, dec := w.expect(evt)
		before := map[*rtEngine]map[string]int{}
		for _, e := range engs {
			before[e] = countRows(e.w)
		}
		w.calls = nil
		ctx := context.WithValue(context.Background(), rtCtxKey{}, w)
		c.Logf("deliver %s payload %q", evt.Type, evt.Payload)
		sent := *evt
		err := bus.cb(ctx, &sent)
		deliveries++
		desc := func() string {
			return fmt.Sprintf("event %s payload %q\n  calls %v\n  expected %v\n  error %v, expected %v", evt.Type, evt.Payload, w.calls, want, err, werr)
		}
		if len(w.calls) != len(want) {
			c.Violate("C12", "handler-calls", "handlers were not invoked as registered: %s", desc())
			return
		}
		for j := range want {
			if w.calls[j].h != want[j].h || w.calls[j].ran != want[j].ran {
				c.Violate("C12", "handler-order", "handlers were not invoked in registration order: %s", desc())
				return
			}
			if w.calls[j].body != want[j].body {
				c.Violate("C12", "handler-event", "a handler received another event than delivered: %s", desc())
				return
			}
			if !w.calls[j].ctx {
				c.Violate("C12", "handler-context", "a handler did not receive the context of the delivery: %s", desc())
				return
			}
		}
		switch {
		case (err == nil) != (werr == nil):
			c.Violate("C12", "delivery-error", "the delivery's error is wrong: %s", desc())
			return
		case werr != nil && !dec && !errors.Is(err, werr):
			c.Violate("C12", "delivery-error", "the handler's error is not reported: %s", desc())
			return
		}
		for _, e := range engs {
			now := countRows(e.w)
			n := 0
			for k, v := range now {
				n += v - before[e][k]
			}
			if n != rows[e] {
				c.Violate("C12", "command-effect", "the commands of a delivery stored %d entities, expected %d: %s", n, rows[e], desc())
				return
			}
		}
		c.Count("deliveries", 1)
		c.Count("handler_calls", len(want))
		if dec {
			c.Count("undecodable", 1)
		}
		var sh []string
		for _, k := range want {
			if !k.ran {
				h := w.hs[k.h]
				sh = append(sh, h.form+"/"+h.param.Name()+"/"+h.outcome)
			}
		}
		c.Distinct("route %v dec%v err%v", sh, dec, werr != nil)
		if c.Index < 5 && len(want) > 2 {
			c.Sample("%s", cut(desc(), 700))
		}
	}
}

// txChecks: status queries are answered by the registered checker or rollback.
func txChecks(c *C) {
	r := c.R
	x := newWorld(c)
	how := "engine's"
	switch r.Intn(3) {
	case 0:
		ddd.NewEngine(x.lock, x.store, ddd.WithEventBus(x.txbus), ddd.WithLogger(discard))
	case 1:
		ddd.RegisterEventBus(x.txbus)
		how = "registered"
	case 2:
		eng := ddd.NewEngine(x.lock, x.store, ddd.WithEventBus(x.bus), ddd.WithLogger(discard))
		if res := eng.Run(context.Background(), func(context.Context, *ddd.Repository) error { return nil }, ddd.WithEventBus(x.txbus)); res.Error != nil {
			c.Violate("C12", "bus-command", "a command that does nothing, with a bus of its own, failed: %v", res.Error)
		}
		how = "command's"
	}
	if x.txbus.checker == nil || x.txbus.cb == nil {
		c.Violate("C12", "checker-not-installed", "the %s bus with message transactions was not given a status checker (%v) and a handler (%v)", how, x.txbus.checker != nil, x.txbus.cb != nil)
		return
	}
	type chk struct {
		typ   ddd.EventType
		param int // -1 none
		st    ddd.TXStatus
		calls []string
		dup   bool
	}
	var cs []*chk
	for i := 0; i < 2+r.Intn(4); i++ {
		k := &chk{typ: rtType(c, "x"), param: r.Intn(5) - 1, st: ddd.TXStatus(r.Intn(3))}
		note := func(v any) { k.calls = append(k.calls, enc(v)) }
		ret := r.Intn(4)
		c.Logf("checker for %s param=%d ret=%d status=%d", k.typ, k.param, ret, k.st)
		switch k.param {
		case 0:
			switch ret {
			case 0:
				ddd.RegisterEventTXChecker(k.typ, func(e *rtA) ddd.TXStatus { note(e); return k.st })
			case 1:
				ddd.RegisterEventTXChecker(k.typ, func(e *rtA) int { note(e); return int(k.st) })
			case 2:
				ddd.RegisterEventTXChecker(k.typ, func(e *rtA) rtStatus { note(e); return rtStatus(k.st) })
			case 3:
				ddd.RegisterEventTXChecker(k.typ, func(e *rtA) rtStatus8 { note(e); return rtStatus8(k.st) })
			}
		case 1:
			ddd.RegisterEventTXChecker(k.typ, func(e *rtB) ddd.TXStatus { note(e); return k.st })
		case 2:
			ddd.RegisterEventTXChecker(k.typ, func(e *rtC) ddd.TXStatus { note(e); return k.st })
		case 3:
			ddd.RegisterEventTXChecker(k.typ, func(e *ddd.DomainEvent) ddd.TXStatus { note(e); return k.st })
		}
		cs = append(cs, k)
		if k.param >= 0 && r.Intn(4) == 0 { // a second checker is refused and changes nothing
			func() {
				defer func() { k.dup = recover() != nil }()
				ddd.RegisterEventTXChecker(k.typ, func(e *rtD) ddd.TXStatus { return (k.st + 1) % 3 })
			}()
		}
	}
	for i := 0; i < 4+r.Intn(8); i++ {
		k := cs[r.Intn(len(cs))]
		evt := &ddd.DomainEvent{ID: fmt.Sprint(i), Type: k.typ, SendType: ddd.SendTypeTransaction, Payload: rtPayload(r), CreatedAt: time.Unix(1e9, 0)}
		want, wcalls := k.st, 1
		var body string
		if k.param < 0 {
			want, wcalls = ddd.TXRollBack, 0
		} else if k.param == 3 {
			body = enc(evt)
		} else {
			v := []any{&rtA{}, &rtB{}, &rtC{}}[k.param]
			if json.Unmarshal(evt.Payload, v) != nil {
				want, wcalls = ddd.TXRollBack, 0
			} else {
				body = enc(v)
			}
		}
		for _, o := range cs {
			o.calls = nil
		}
		got := x.txbus.checker(evt)
		if got != want {
			c.Violate("C12", "tx-status", "status query for %s payload %q (checker parameter %d): answered %d, expected %d", k.typ, evt.Payload, k.param, got, want)
		}
		for _, o := range cs {
			n := 0
			if o == k {
				n = wcalls
			}
			if len(o.calls) != n || n == 1 && o.calls[0] != body {
				c.Violate("C12", "tx-checker-calls", "status query for %s payload %q: the checker of %s was called with %v, expected %d call(s) with %q", k.typ, evt.Payload, o.typ, o.calls, n, body)
			}
		}
		c.Count("status_queries", 1)
		c.Distinct("tx %d %d %d", k.param, want, wcalls)
	}
}

// recTimer is a timer that fires when told to.
type recTimer struct {
	cb   ddd.TimerHandler
	runs []string
	fail bool
}

func (t *recTimer) RegisterTimerHandler(cb ddd.TimerHandler) { t.cb = cb }
func (t *recTimer) RunCron(key, cron string, data []byte) error {
	t.runs = append(t.runs, key+"|"+cron)
	if t.fail {
		return errRoute
	}
	return nil
}
func (t *recTimer) RunOnce(key string, at time.Time, data []byte) error { return nil }
func (t *recTimer) Cancel(key string) error                             { return nil }

// cronTasks: timer callbacks reach the task registered for their key.
func cronTasks(c *C) {
	r := c.R
	x := newWorld(c)
	tm := &recTimer{}
	eng := ddd.NewEngine(x.lock, x.store, ddd.WithTimer(tm), ddd.WithLogger(discard), ddd.WithEventBus(x.bus))
	if tm.cb == nil {
		c.Violate("C12", "timer-not-connected", "the engine's timer was never given a handler to call")
		return
	}
	if r.Intn(3) == 0 { // another timer, of one command only
		other := &recTimer{}
		eng.Run(context.Background(), func(context.Context, *ddd.Repository) error { return nil }, ddd.WithTimer(other))
		if other.cb == nil {
			c.Violate("C12", "timer-not-connected", "the command's timer was never given a handler to call")
			return
		}
		if r.Intn(2) == 0 {
			tm.cb = other.cb
		}
	}
	type task struct {
		key, cron string
		form      string
		err       error
		calls     []string
	}
	var ts []*task
	for i := 0; i < 1+r.Intn(4); i++ {
		t := &task{key: string(rtType(c, "cron")), cron: fmt.Sprintf("*/%d * * * *", 1+r.Intn(9)), form: []string{"func", "command", "handler", "none"}[r.Intn(4)]}
		if r.Intn(3) == 0 {
			t.err = errRoute
		}
		before := len(tm.runs)
		switch t.form {
		case "func":
			eng.RegisterCronTask(ddd.EventType(t.key), t.cron, func(key, cron string) { t.calls = append(t.calls, key+"|"+cron) })
			t.err = nil
		case "command":
			eng.RegisterCronTaskOfCommand(ddd.EventType(t.key), t.cron, func(key, cron string) ddd.ICommand {
				return &cmdLegacy{
					init:  func(context.Context) ([]string, error) { return nil, nil },
					build: func(context.Context, ddd.DomainBuilder) ([]ddd.IEntity, error) { return nil, nil },
					act: func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
						t.calls = append(t.calls, key+"|"+cron)
						e := newEnt(x, KItem)
						e.C().UID = x.uid()
						e.C().Name = "by-" + t.key
						cont.Add(e)
						return t.err
					},
					post: func(context.Context, *ddd.Result) {},
				}
			})
		case "handler":
			ddd.RegisterEventHandler(ddd.EventType(t.key), func(ctx context.Context, e *ddd.TimerEvent) error {
				t.calls = append(t.calls, e.Key+"|"+e.Cron+"|"+string(e.Payload))
				return t.err
			})
		}
		if t.form == "func" || t.form == "command" {
			if len(tm.runs) != before+1 || tm.runs[before] != t.key+"|"+t.cron {
				c.Violate("C12", "cron-schedule", "registering cron task %s (%s) asked the timer for %v", t.key, t.cron, tm.runs[before:])
			}
			if r.Intn(3) == 0 { // the key is taken
				took := false
				n := len(tm.runs)
				func() {
					defer func() { took = recover() != nil }()
					if r.Intn(2) == 0 {
						eng.RegisterCronTask(ddd.EventType(t.key), t.cron, func(key, cron string) { t.calls = append(t.calls, "second") })
						return
					}
					eng.RegisterCronTaskOfCommand(ddd.EventType(t.key), t.cron, func(key, cron string) ddd.ICommand {
						t.calls = append(t.calls, "second")
						return &cmdLegacy{}
					})
				}()
				if !took {
					c.Violate("C12", "cron-repeated", "a second task for key %s was accepted", t.key)
				}
				tm.runs = tm.runs[:n]
			}
			if r.Intn(4) == 0 { // the timer refuses
				took := false
				n, key := len(tm.runs), rtType(c, "refused")
				func() {
					defer func() { took, tm.fail = recover() != nil, false }()
					tm.fail = true
					if r.Intn(2) == 0 {
						eng.RegisterCronTask(key, "bad", func(key, cron string) {})
						return
					}
					eng.RegisterCronTaskOfCommand(key, "bad", func(key, cron string) ddd.ICommand { return &cmdLegacy{} })
				}()
				if !took {
					c.Violate("C12", "cron-refused", "a task which the timer refused was registered without a word")
				}
				tm.runs = tm.runs[:n]
			}
		}
		c.Logf("task %s form=%s err=%v", t.key, t.form, t.err)
		ts = append(ts, t)
	}
	for i := 0; i < 3+r.Intn(6); i++ {
		t := ts[r.Intn(len(ts))]
		for _, o := range ts {
			o.calls = nil
		}
		data := []string{"", "x", "p\x00\xff\"", strings.Repeat("z", 300)}[r.Intn(4)]
		before := countRows(x)
		err := tm.cb(context.Background(), t.key, t.cron, []byte(data))
		want := []string{t.key + "|" + t.cron}
		switch t.form {
		case "none":
			want = nil
		case "handler":
			want = []string{t.key + "|" + t.cron + "|" + data}
		}
		for _, o := range ts {
			exp := []string(nil)
			if o == t {
				exp = want
			}
			if strings.Join(o.calls, ";") != strings.Join(exp, ";") {
				c.Violate("C12", "cron-calls", "timer %s (%s) fired: task %s was called with %q, expected %q", t.key, t.form, o.key, o.calls, exp)
			}
		}
		werr := t.err
		if t.form == "none" {
			werr = nil
		}
		if (err == nil) != (werr == nil) || werr != nil && !errors.Is(err, werr) {
			c.Violate("C12", "cron-error", "timer %s (%s) fired: returned %v, expected %v", t.key, t.form, err, werr)
		}
		grown := countRows(x)["by-"+t.key] - before["by-"+t.key]
		exp := 0
		if t.form == "command" && t.err == nil {
			exp = 1
		}
		if grown != exp {
			c.Violate("C12", "cron-command", "timer %s (%s) fired: its command stored %d entities, expected %d", t.key, t.form, grown, exp)
		}
		c.Count("timer_firings", 1)
		c.Distinct("cron %s %v %d", t.form, werr != nil, len(data))
	}
}

type rtN struct{ N int }

// refusals: what cannot handle an event is refused when it is registered, and
// the refusal leaves everything else as it was.
func refusals(c *C) {
	r := c.R
	x := newWorld(c)
	bus := x.txbus
	eng := ddd.NewEngine(x.lock, x.store, ddd.WithEventBus(bus), ddd.WithLogger(discard))
	typ := rtType(c, "ref")
	var got []string
	nop := func(context.Context, *ddd.Repository) error { return nil }
	bad := []any{"text", 5, struct{}{}, rtN{}, func() {}, func() error { return nil }, func(context.Context) error { return nil },
		func(*rtN) error { return nil }, func(*rtN, context.Context) error { return nil }, func(context.Context, *rtN, int) error { return nil },
		func(context.Context, *rtN) {}, func(context.Context, *rtN) int { return 0 }, func(context.Context, *rtN) (error, int) { return nil, 0 },
		func(context.Context, *rtN) (int, error) { return 0, nil }, func(context.Context, rtN) error { return nil }, func(context.Context, map[string]int) error { return nil }}
	badEng := []any{"text", 5, struct{}{}, func() ddd.MainFunc { return nop }, func(*rtN, *rtN) ddd.MainFunc { return nop }, func(*rtN) {},
		func(*rtN) (ddd.MainFunc, error) { return nop, nil }, func(rtN) ddd.MainFunc { return nop }, func(context.Context, *rtN) ddd.MainFunc { return nop }}
	badChk := []any{"text", 5, struct{}{}, func() ddd.TXStatus { return 0 }, func(*rtN, *rtN) ddd.TXStatus { return 0 }, func(*rtN) {},
		func(*rtN) (ddd.TXStatus, error) { return 0, nil }, func(*rtN) string { return "" }, func(*rtN) error { return nil }, func(rtN) ddd.TXStatus { return 0 }}
	n, chk := 0, -1
	for i := 0; i < 4+r.Intn(8); i++ {
		what := ""
		var v any
		refused := false
		try := func(f func()) {
			defer func() { refused = recover() != nil }()
			f()
		}
		switch r.Intn(6) {
		case 0:
			what, v = "RegisterEventHandler", bad[r.Intn(len(bad))]
			try(func() { ddd.RegisterEventHandler(typ, v) })
		case 1:
			what, v = "Engine.RegisterEventHandler", badEng[r.Intn(len(badEng))]
			try(func() { eng.RegisterEventHandler(typ, v) })
		case 2:
			what, v = "RegisterEventTXChecker", badChk[r.Intn(len(badChk))]
			try(func() { ddd.RegisterEventTXChecker(typ, v) })
		case 3:
			k := n
			n++
			if r.Intn(2) == 0 {
				ddd.RegisterEventHandler(typ, func(ctx context.Context, e *rtN) error { got = append(got, fmt.Sprint(k, e.N)); return nil })
			} else {
				eng.RegisterEventHandler(typ, func(e *rtN) ddd.MainFunc { got = append(got, fmt.Sprint(k, e.N)); return nop })
			}
		case 4:
			if chk >= 0 {
				continue
			}
			chk = r.Intn(3)
			ddd.RegisterEventTXChecker(typ, func(*rtN) ddd.TXStatus { return ddd.TXStatus(chk) })
		case 5:
			got = nil
			var want []string
			for k := 0; k < n; k++ {
				want = append(want, fmt.Sprint(k, 7+i))
			}
			err := bus.cb(context.Background(), &ddd.DomainEvent{ID: "x", Type: typ, Payload: []byte(fmt.Sprintf(`{"N":%d}`, 7+i))})
			if err != nil || strings.Join(got, ";") != strings.Join(want, ";") {
				c.Violate("C12", "refused-and-called", "after refused registrations a delivery called %v instead of %v: %v", got, want, err)
			}
			st := ddd.TXRollBack
			if chk >= 0 {
				st = ddd.TXStatus(chk)
			}
			if a := bus.checker(&ddd.DomainEvent{ID: "x", Type: typ, Payload: []byte(`{"N":1}`)}); a != st {
				c.Violate("C12", "refused-checker", "after refused registrations a status query was answered %v instead of %v", a, st)
			}
			c.Count("deliveries_after_refusals", 1)
		}
		if what != "" {
			if !refused {
				c.Violate("C12", "not-refused:"+what, "%s accepted a %T, which cannot handle an event", what, v)
				return
			}
			c.Count("registrations_refused", 1)
			c.Distinct("refused %s %T", what, v)
		}
	}
}

func init() {
	Register("C12",
		Workload{Name: "refusals", Quick: 4000, Thorough: 40000, Fn: refusals},
		Workload{Name: "routing", Quick: 24000, Thorough: 200000, Fn: routing},
		Workload{Name: "txcheck", Quick: 8000, Thorough: 60000, Fn: txChecks},
		Workload{Name: "cron", Quick: 8000, Thorough: 60000, Fn: cronTasks})
}
