package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
)

// Spec describes one command run; everything random about it comes from Seed.
type Spec struct {
	Seed      int64
	Form      string // main func mainfunc legacy stage
	Ops       int
	Recursive bool
	Dry       bool
	NoTx      bool
	Persist   bool // event persistence
	Bus       string
	Locks     []string
	Rich      bool
	Outcome   string // "" ok | error | break | panic : decided at the end of the user code
	Wrapped   bool
	OptAt     string // engine | command: where options are given
	FaultMode string
	FaultAt   int
	PostHooks int
	NoSave    bool
	CommitErr bool
	TxRetErr  bool
	RbErr     bool
	UnErr     int // releases that report an error
	Output    bool
	Xid       bool
	DelBias   bool // more removals and detachments
	LoadBias  bool // more loads
	Decoy     bool // the engine has another lock, store, bus and generator than the command
	Cancel    int  // the caller's context ends: 1 before, 2 at the end of the user code, 3 in a callback
}

// Obs is what was observed of one command run.
type Obs struct {
	Spec     Spec
	Res      *ddd.Result
	Panic    any
	Evs      []Ev
	Before   map[rkey]Row
	After    map[rkey]Row
	T        *tracker
	Plan     *plan
	PlanMark int
	UserRan  bool
	UserDone bool // the user code returned without error
	UserErr  error
	PostRes  []*ddd.Result
	PostIdx  []int
	Hit      string
	Points   int
	SaveErr  error
	Out      any
	evBase   int
	initRan  bool
	loads    int
	wentOn   bool
	cancel   context.CancelFunc
	decoy    *World
}

func (sp Spec) String() string {
	return fmt.Sprintf("form=%s ops=%d rec=%v dry=%v notx=%v persist=%v bus=%s locks=%v outcome=%q fault=%s@%d opt=%s post=%d cancel=%d", sp.Form, sp.Ops, sp.Recursive, sp.Dry, sp.NoTx, sp.Persist, sp.Bus, sp.Locks, sp.Outcome, sp.FaultMode, sp.FaultAt, sp.OptAt, sp.PostHooks, sp.Cancel)
}

var forms = []string{"main", "func", "mainfunc", "legacy", "stage"}

var errUser = errors.New("user code failed")

func (w *World) busFor(kind string) ddd.IEventBus {
	switch kind {
	case "plain":
		return w.bus
	case "tx":
		return w.txbus
	}
	return nil
}

func (w *World) optionsOf(sp Spec, o *Obs) []ddd.Option {
	opts := []ddd.Option{ddd.WithLogger(discard)}
	if !sp.Xid {
		opts = append(opts, ddd.WithIDGenerator(w.idg))
	}
	if b := w.busFor(sp.Bus); b != nil {
		opts = append(opts, ddd.WithEventBus(b))
	}
	if sp.Recursive {
		opts = append(opts, ddd.WithRecursiveDelete)
	}
	if sp.Dry {
		opts = append(opts, ddd.WithDryRun)
	}
	if sp.NoTx {
		opts = append(opts, ddd.WithoutTransaction)
	}
	if sp.Persist {
		opts = append(opts, ddd.WithEventPersist(w.eventPersist))
	}
	return opts
}

// RunSpec runs one command on a fresh engine and records everything.
func (w *World) RunSpec(sp Spec) *Obs {
	if sp.Form == "create" || sp.Form == "delete" { // these take neither options nor locks nor user code
		sp.OptAt, sp.Outcome, sp.Locks = "engine", "", nil
	}
	o := &Obs{Spec: sp}
	post := func(i int) ddd.PostSaveFunc {
		return func(ctx context.Context, res *ddd.Result) {
			o.PostRes = append(o.PostRes, res)
			o.PostIdx = append(o.PostIdx, i)
			w.rec(Ev{What: "post", UID: i})
			if sp.Cancel == 3 {
				o.cancel()
			}
		}
	}
	opts := w.optionsOf(sp, o)
	for i := 0; i < sp.PostHooks; i++ {
		opts = append(opts, ddd.WithPostSave(post(i)))
	}
	var eng *ddd.Engine
	var cmdOpts []ddd.Option
	if sp.OptAt == "command" {
		lock, store, eo := ddd.ILock(w.lock), ddd.IExecutor(w.store), []ddd.Option{ddd.WithLogger(discard)}
		cmdOpts = opts
		if sp.Decoy {
			o.decoy = newWorld(w.c)
			lock, store = o.decoy.lock, o.decoy.store
			cmdOpts = append(cmdOpts, ddd.WithLock(w.lock), ddd.WithExecutor(w.store))
			if !sp.Xid {
				eo = append(eo, ddd.WithIDGenerator(o.decoy.idg))
			}
			if sp.Bus != "" {
				eo = append(eo, ddd.WithEventBus(o.decoy.txbus))
			}
		}
		eng = ddd.NewEngine(lock, store, eo...)
	} else {
		eng = ddd.NewEngine(w.lock, w.store, opts...)
	}
	o.run(w, eng, cmdOpts, post)
	return o
}

func (o *Obs) run(w *World, eng *ddd.Engine, cmdOpts []ddd.Option, post func(int) ddd.PostSaveFunc) {
	sp := o.Spec
	c := w.c
	w.mu.Lock()
	w.points, w.hit = 0, ""
	w.faultAt, w.mode = sp.FaultAt, sp.FaultMode
	w.wrapNR = sp.Wrapped
	w.hookRich = sp.Rich
	w.txbus.retErr = sp.TxRetErr
	w.store.rbErr = sp.RbErr
	w.lock.unErr, w.lock.nrel = sp.UnErr, 0
	w.lock.reent = sp.Seed%2 == 0
	o.evBase = len(w.events)
	w.mu.Unlock()
	o.Before = w.store.snapshot()
	start := w.mark()
	t := newTracker(w)
	t.recursive, t.xid = sp.Recursive, sp.Xid
	o.T = t
	r := rand.New(rand.NewSource(sp.Seed))
	p := &Prog{w: w, t: t, r: r, dry: sp.Dry, rich: sp.Rich, noSave: sp.NoSave, delBias: sp.DelBias, loadBias: sp.LoadBias}
	c.Logf("command %s", sp)

	finish := func(err error) error { // end of the user code
		if sp.Cancel == 2 {
			o.cancel()
		}
		if err == nil {
			err = w.point("main")
		}
		if err == nil {
			switch sp.Outcome {
			case "error":
				err = fmt.Errorf("wrapped: %w", errUser)
			case "break":
				err = fmt.Errorf("stop: %w", ddd.ErrBreak)
			case "panic":
				panic(injected{"user code"})
			}
		}
		o.UserErr = err
		if err == nil {
			o.UserDone = true
			o.Plan = t.plan()
			o.PlanMark = w.mark()
		}
		o.SaveErr = p.saveErr
		return err
	}
	mainF := func(ctx context.Context, repo *ddd.Repository) error {
		o.UserRan = true
		w.rec(Ev{What: "main"})
		p.ctx, p.api = ctx, repoAPI{repo}
		return finish(p.run(sp.Ops))
	}
	initF := func(ctx context.Context) ([]string, error) {
		o.initRan = true
		w.rec(Ev{What: "init"})
		return append([]string(nil), sp.Locks...), w.point("init")
	}
	postF := post(1000)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	o.cancel = cancel
	if sp.Cancel == 1 {
		cancel()
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(injected); !ok {
					panic(x)
				}
				o.Panic = x
			}
		}()
		switch sp.Form {
		case "main":
			b := cmdMain{main: mainF, init: initF, post: postF}
			var cmd any = &cmdMain{main: mainF}
			switch {
			case len(sp.Locks) > 0 && sp.PostHooks%2 == 1:
				cmd = &cmdMainFull{b}
			case len(sp.Locks) > 0:
				cmd = &cmdMainInit{b}
			case sp.PostHooks%2 == 1:
				cmd = &cmdMainPost{b}
			}
			o.Res = eng.Run(ctx, cmd, cmdOpts...)
		case "func":
			o.Res = eng.Run(ctx, mainF, cmdOpts...)
		case "mainfunc":
			o.Res = eng.Run(ctx, ddd.MainFunc(mainF), cmdOpts...)
		case "stage":
			st := eng.NewStage().WithOption(cmdOpts...)
			if len(sp.Locks) > 0 {
				st = st.Lock(append([]string(nil), sp.Locks...)...)
			}
			o.Res = st.Main(mainF).Save(ctx)
		case "create", "delete":
			o.UserRan = true
			w.rec(Ev{What: "main"})
			roots := p.rootsFor(sp.Form)
			if sp.Cancel == 2 {
				o.cancel()
			}
			o.UserDone, o.Plan, o.PlanMark = true, t.plan(), w.mark()
			if sp.Form == "create" {
				o.Res = eng.Create(ctx, roots...)
			} else {
				o.Res = eng.Delete(ctx, roots...)
			}
		case "legacy", "runcmd":
			cmd := &cmdLegacy{init: initF, post: postF}
			api := &legacyAPI{cmd: cmd}
			cmd.build = func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
				o.UserRan = true
				w.rec(Ev{What: "main"})
				api.b = &b
				p.ctx, p.api = ctx, api
				if err := p.loadSome(r.Intn(6) * r.Intn(2)); err != nil {
					return nil, err
				}
				api.b = nil
				if err := w.point("build"); err != nil {
					return nil, err
				}
				p.noLoad = true
				return api.roots, nil
			}
			cmd.act = func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
				p.ctx = ctx
				api.cont = &cont
				if r.Intn(8) == 0 {
					p.removeSome(roots)
				}
				if sp.Output {
					cmd.Output("out-" + fmt.Sprint(sp.Seed))
				}
				return finish(p.run(sp.Ops))
			}
			if sp.Form == "runcmd" {
				o.Res = eng.RunCommand(ctx, cmd, cmdOpts...)
			} else {
				o.Res = eng.Run(ctx, cmd, cmdOpts...)
			}
		}
	}()
	w.mu.Lock()
	o.Hit, o.Points = w.hit, w.points
	w.faultAt = 0
	w.mu.Unlock()
	o.loads, o.wentOn = p.loads, p.swallowed
	o.Evs = w.since(start)
	o.After = w.store.snapshot()
	if o.PlanMark > 0 {
		o.PlanMark -= start
	}
	o.judge(w)
}

// gaveUp: the command reports that its caller's context ended.
func (o *Obs) gaveUp() bool {
	return o.Spec.Cancel > 0 && o.Res != nil && errors.Is(o.Res.Error, context.Canceled)
}

func failed(o *Obs) bool { return o.Panic != nil || (o.Res != nil && o.Res.Error != nil) }

// postExpected counts the callbacks configured for the command.
func (o *Obs) postExpected() int {
	n := o.Spec.PostHooks
	switch o.Spec.Form {
	case "legacy", "runcmd":
		n++
	case "main":
		if o.Spec.PostHooks%2 == 1 {
			n++
		}
	}
	return n
}

func diffRows(a, b map[rkey]Row, skipEvents bool) []string {
	var d []string
	for k, x := range a {
		if skipEvents && k.table == "event" {
			continue
		}
		if y, ok := b[k]; !ok {
			d = append(d, "missing "+x.String())
		} else if x != y {
			d = append(d, "is "+y.String()+" instead of "+x.String())
		}
	}
	for k, y := range b {
		if skipEvents && k.table == "event" {
			continue
		}
		if _, ok := a[k]; !ok {
			d = append(d, "extra "+y.String())
		}
	}
	sort.Strings(d)
	return d
}

// judge runs every per-command monitor over the observation.
func (o *Obs) judge(w *World) {
	c, sp := w.c, o.Spec
	tr := func() string { return "\n  spec: " + sp.String() + "\n  trace: " + cut(traceString(o.Evs), 1800) }
	var begins, commits, rollbacks, commitErr int
	var firstBegin, lastEnd = -1, -1
	writes := 0
	for i, e := range o.Evs {
		switch e.What {
		case "begin":
			if e.Err {
				continue
			}
			begins++
			if firstBegin < 0 {
				firstBegin = i
			}
		case "commit":
			if e.Err {
				commitErr++
			} else {
				commits++
			}
			lastEnd = i
		case "rollback":
			if e.Err {
				c.Violate("C02", "rollback-misuse", "rollback without an open transaction%s", tr())
			} else {
				rollbacks++
			}
			lastEnd = i
		case "insert", "update", "delete", "insert-event":
			writes++
			if !e.Err && !sp.NoTx && e.Cmd == 0 {
				c.Violate("C02", "write-outside-tx", "a write ran outside the transaction: %v%s", e, tr())
				c.Violate("X03", "write-outside-tx", "a write ran outside the transaction: %v%s", e, tr())
			}
			if sp.Dry {
				c.Violate("C08", "dry-write", "dry run wrote: %v%s", e, tr())
			}
		case "exec-after-end":
			c.Violate("C02", "write-after-end", "a statement ran after its transaction had ended%s", tr())
		case "dispatch", "prepare":
			if sp.Dry {
				c.Violate("C08", "dry-event", "dry run handed events to the bus: %v%s", e, tr())
			}
			if e.Cmd == -1 {
				c.Violate("C05", "dispatch-after-end", "events were handed over after the transaction had ended%s", tr())
			}
		case "txcommit", "txrollback":
			if sp.Dry {
				c.Violate("C08", "dry-event", "dry run ended a message transaction: %v%s", e, tr())
			}
		}
	}
	if o.decoy != nil {
		c.Count("commands_with_own_components", 1)
		for _, e := range o.decoy.since(0) {
			c.Violate("C09", "foreign-component", "a command given its own components used those of the engine: %v%s", e, tr())
		}
	}
	isFail := failed(o)
	brk := o.Res != nil && o.Res.Break
	ok := o.Res != nil && !isFail && !brk

	// --- C02: transaction bracket, all or nothing, errors reported
	if w.store.open != 0 {
		c.Violate("C02", "tx-left-open", "%d transactions were begun and never ended%s", w.store.open, tr())
		w.store.open = 0
	}
	if !sp.NoTx {
		if begins > 1 || commits+rollbacks+commitErr > begins {
			c.Violate("C02", "tx-bracket", "%d begins, %d commits, %d failed commits, %d rollbacks%s", begins, commits, commitErr, rollbacks, tr())
		}
		if begins == 1 && ok && commits != 1 {
			c.Violate("C02", "success-without-commit", "the command reported success but its transaction was not committed%s", tr())
		}
		if begins == 1 && (isFail || brk) && rollbacks != 1 && commitErr != 1 {
			c.Violate("C02", "failure-without-rollback", "the command did not succeed but its transaction was not rolled back%s", tr())
		}
		if isFail || brk {
			if d := diffRows(o.Before, o.After, false); len(d) > 0 {
				c.Violate("C02", "partial-write", "a command that did not succeed left changes in the store: %v%s", d, tr())
			}
		}
	} else if begins > 0 {
		c.Violate("C02", "unwanted-tx", "a transaction was begun although transactions are off%s", tr())
	}
	if o.Hit != "" && o.wentOn {
		c.Count("faults_outlived", 1)
		c.Distinct("outlived %s %s", o.Hit, sp.Form)
	} else if o.Hit != "" { // a fault was injected
		c.Count("faults_injected", 1)
		c.Distinct("fault %s %s %s tx%v", o.Hit, sp.FaultMode, sp.Form, !sp.NoTx)
		switch sp.FaultMode {
		case "panic":
			if o.Panic == nil {
				c.Violate("C02", "panic-swallowed:"+o.Hit, "a panic at %s did not reach the caller%s", o.Hit, tr())
			}
		case "break":
			if o.Hit == "main" || o.Hit == "build" || o.Hit == "init" {
				if o.Res == nil || o.Res.Error != nil || !o.Res.Break {
					c.Violate("C02", "break-result", "a break request at %s gave %+v%s", o.Hit, o.Res, tr())
				}
			} else if o.Res == nil || o.Res.Error == nil {
				c.Violate("C02", "error-swallowed:"+o.Hit, "a failure at %s was not reported%s", o.Hit, tr())
			}
		default:
			if o.Res == nil || o.Res.Error == nil {
				c.Violate("C02", "error-swallowed:"+o.Hit, "a failure at %s was not reported%s", o.Hit, tr())
				if strings.HasPrefix(o.Hit, "hook") {
					c.Violate("C04", "hook-error-swallowed", "an error of %s did not fail the command%s", o.Hit, tr())
				}
				if o.Hit == "lock" {
					c.Violate("C07", "lock-error-swallowed", "a failed lock acquisition did not fail the command%s", tr())
				}
			} else if !errors.Is(o.Res.Error, errFault) && !o.gaveUp() {
				c.Violate("C02", "cause-lost", "a failure at %s was reported as %q, from which the cause cannot be recovered%s", o.Hit, o.Res.Error, tr())
			}
		}
	} else {
		if sp.Cancel > 0 {
			c.Count("cancelled_commands", 1)
		}
		switch {
		case o.gaveUp():
		case sp.Outcome == "error" && o.UserErr != nil && errors.Is(o.UserErr, errUser):
			if o.Res == nil || o.Res.Error == nil || !errors.Is(o.Res.Error, errUser) || o.Res.Break {
				c.Violate("C02", "user-error", "the error of the user code was reported as %+v%s", o.Res, tr())
			}
		case sp.Outcome == "break" && o.UserErr != nil && errors.Is(o.UserErr, ddd.ErrBreak):
			if o.Res == nil || o.Res.Error != nil || !o.Res.Break {
				c.Violate("C02", "break-result", "a break request gave %+v%s", o.Res, tr())
			}
		case sp.Outcome == "panic" && !o.UserDone && o.UserErr == nil && o.UserRan && o.SaveErr == nil:
			if o.Panic == nil {
				c.Violate("C02", "panic-swallowed", "a panic of the user code did not reach the caller%s", tr())
			}
		}
		if sp.Outcome == "" && o.UserRan && isFail && !o.gaveUp() && !o.dispatchImpossible() {
			c.Violate("C01", "spurious-failure", "a valid command failed: %v%s", o.Res.Error, tr())
			if o.loads > 0 {
				c.Violate("C14", "spurious-failure", "a valid command failed: %v%s", o.Res.Error, tr())
			}
		}
	}
	// --- final save and store content
	if ok && o.UserDone {
		o.T.verify(o.Plan, o.Evs[o.PlanMark:], sp.Dry)
		if !sp.Dry {
			if d := diffRows(o.T.shadow, o.After, true); len(d) > 0 {
				c.Violate("C01", "store-content", "the store does not hold the aggregates' final state: %v%s", d, tr())
				if o.loads > 0 {
					c.Violate("C14", "store-content", "the store does not hold the aggregates' final state: %v%s", d, tr())
				}
				if sp.Recursive {
					c.Violate("C13", "store-content", "the store does not hold the expected rows: %v%s", d, tr())
				}
			}
		} else if d := diffRows(o.Before, o.After, false); len(d) > 0 {
			c.Violate("C08", "dry-write", "a dry run changed the store: %v%s", d, tr())
		}
		c.Count("commands_succeeded", 1)
		if len(o.T.shape) > 0 {
			c.Distinct("%s rec%v %v", sp.Form, sp.Recursive, o.T.shape)
		}
	} else if isFail || brk {
		c.Count("commands_not_succeeded", 1)
	}
	o.judgeEvents(w, ok, tr)
	o.judgeLocks(w, ok, firstBegin, lastEnd, tr)
	o.judgePost(w, ok, tr)
}

func (o *Obs) dispatchImpossible() bool {
	return o.Spec.Bus == "" && len(o.T.w.events) > o.evBase && errors.Is(o.Res.Error, ddd.ErrNoEventBusFound) || (o.Spec.Bus == "" && strings.Contains(o.Res.Error.Error(), ddd.ErrNoEventBusFound.Error()))
}

func (o *Obs) judgeEvents(w *World, ok bool, tr func() string) {
	c, sp := w.c, o.Spec
	if sp.Bus == "" {
		return
	}
	type disp struct {
		pos  int
		how  string
		evts []*ddd.DomainEvent
		err  bool
	}
	var ds []disp
	var txend []Ev
	var preparePos, commitPos, rollbackPos = -1, -1, -1
	commitFailed, prepareFailed := false, false
	for i, e := range o.Evs {
		switch e.What {
		case "dispatch", "prepare":
			ds = append(ds, disp{i, e.What, e.Evts, e.Err})
			if e.What == "prepare" && e.Err {
				prepareFailed = true
			}
			if e.What == "prepare" && !e.Err {
				if preparePos >= 0 {
					c.Violate("C06", "double-prepare", "transactional events were prepared more than once%s", tr())
				}
				preparePos = i
			}
		case "txcommit", "txrollback":
			if e.Err && e.What == "txrollback" && prepareFailed {
				continue // rolling back what could not be prepared is harmless
			}
			txend = append(txend, e)
			e.N = i
			if e.Err {
				c.Violate("C06", "message-tx-context", "%s was not given the context returned by the prepare call%s", e.What, tr())
			}
			if e.What == "txcommit" && (commitPos < 0) {
				c.Violate("C06", "message-commit-early", "the message transaction was committed before the database transaction%s", tr())
			}
			if e.What == "txrollback" && commitPos >= 0 {
				c.Violate("C06", "message-rollback-after-commit", "the message transaction was rolled back after the database commit%s", tr())
			}
		case "commit":
			if e.Err {
				commitFailed = true
			} else {
				commitPos = i
			}
		case "rollback":
			rollbackPos = i
		}
	}
	_ = rollbackPos
	want := map[string]*emitted{}
	opt := map[string]*emitted{}
	w.mu.Lock()
	all := append([]*emitted(nil), w.events[o.evBase:]...)
	w.mu.Unlock()
	mono := true
	for i, e := range all {
		if i > 0 && !all[i-1].evt.CreatedAt.Before(e.evt.CreatedAt) && all[i-1].evt.ID > e.evt.ID {
			mono = false // the id generator wrapped around on a tie: order undefined
		}
		if o.T.sources[e.uid] {
			want[e.evt.ID] = e
		} else if o.T.optSource[e.uid] {
			opt[e.evt.ID] = e
		}
	}
	if ok && o.UserDone && !sp.Dry {
		seen := map[string]int{}
		txBus := sp.Bus == "tx" && !sp.NoTx
		for _, d := range ds {
			last := -1
			for _, e := range d.evts {
				em := want[e.ID]
				if em == nil {
					em = opt[e.ID]
				}
				seen[e.ID]++
				if em == nil {
					c.Violate("C05", "unknown-event", "an event that belongs to no entity of the command was handed over: %s %s%s", e.ID, e.Payload, tr())
					continue
				}
				if string(e.Payload) != em.body || e.Type != em.typ || e.Sender != em.send || e.SendType != em.st {
					c.Violate("C05", "event-content", "event %d was handed over as type=%s sender=%s send=%s payload=%s, added as type=%s sender=%s send=%s payload=%s%s", em.seq, e.Type, e.Sender, e.SendType, e.Payload, em.typ, em.send, em.st, em.body, tr())
				}
				if em.seq < last && mono {
					c.Violate("C05", "event-order", "events were handed over out of order (%d after %d)%s", em.seq, last, tr())
				}
				last = em.seq
				if txBus {
					if (em.st == ddd.SendTypeTransaction) != (d.how == "prepare") {
						c.Violate("C06", "wrong-path", "event %d with send type %s went through %s%s", em.seq, em.st, d.how, tr())
					}
				} else if d.how == "prepare" {
					c.Violate("C06", "wrong-path", "event %d was prepared although message transactions do not apply%s", em.seq, tr())
				}
			}
		}
		ntx := 0
		for _, em := range want {
			if em.st == ddd.SendTypeTransaction {
				ntx++
			}
		}
		for id, em := range want {
			if seen[id] != 1 {
				c.Violate("C05", "event-count", "event %d (%s) of entity #%d was handed over %d times instead of once%s", em.seq, em.st, em.uid, seen[id], tr())
				if em.st == ddd.SendTypeTransaction || txBus && ntx > 0 {
					c.Violate("C06", "event-count", "event %d (%s) of a command with transactional events was handed over %d times%s", em.seq, em.st, seen[id], tr())
				}
			}
		}
		for id := range opt {
			if seen[id] > 1 {
				c.Violate("C05", "event-count", "event %s was handed over %d times%s", id, seen[id], tr())
			}
		}
		c.Count("events_checked", len(want))
		if len(want) > 1 {
			c.Distinct("events %s %d tx%v", sp.Form, len(want), txBus)
		}
		if sp.Persist {
			per := map[string]int{}
			for k := range o.After {
				if k.table == "event" {
					if _, was := o.Before[k]; !was {
						per[k.id]++
					}
				}
			}
			for id, em := range want {
				if per[id] != 1 {
					c.Violate("C05", "event-persist", "event %d was persisted %d times%s", em.seq, per[id], tr())
				} else if o.After[rkey{"event", id}].Name != em.body {
					c.Violate("C05", "event-persist", "event %d was persisted with a different payload%s", em.seq, tr())
				}
				delete(per, id)
			}
			for id := range per {
				if opt[id] == nil {
					c.Violate("C05", "event-persist", "an unknown event was persisted: %s%s", id, tr())
				}
			}
		}
	} else if !ok {
		for _, d := range ds {
			if o.Res != nil && !o.UserDone && !d.err {
				c.Violate("C05", "event-of-failed", "a command that failed before its final save handed over events%s", tr())
			}
			for _, e := range d.evts {
				if want[e.ID] == nil && opt[e.ID] == nil {
					c.Violate("C05", "unknown-event", "an event that belongs to no entity was handed over: %s%s", e.ID, tr())
				}
			}
		}
		if o.Hit != "" && !strings.HasPrefix(o.Hit, "commit") && !strings.HasPrefix(o.Hit, "dispatch") {
			for _, d := range ds {
				if !d.err && d.how == "dispatch" {
					c.Violate("C05", "event-of-failed", "events were handed over although %s failed%s", o.Hit, tr())
				}
			}
		}
	}
	// message transaction protocol
	if preparePos >= 0 {
		com, rol := 0, 0
		for _, e := range txend {
			if e.What == "txcommit" {
				com++
			} else {
				rol++
			}
		}
		switch {
		case commitFailed:
			if com+rol != 0 {
				c.Violate("C06", "resolved-after-failed-commit", "the database commit failed but the message transaction was resolved%s", tr())
			}
		case commitPos >= 0:
			if com != 1 || rol != 0 {
				c.Violate("C06", "message-commit-count", "after the database commit the message transaction was committed %d and rolled back %d times%s", com, rol, tr())
			}
		case o.Panic == nil:
			if com != 0 || rol != 1 {
				c.Violate("C06", "message-rollback-count", "after the rollback the message transaction was committed %d and rolled back %d times%s", com, rol, tr())
			}
		default:
			if com != 0 {
				c.Violate("C06", "message-commit-after-panic", "the message transaction was committed although the command panicked%s", tr())
			}
			if o.Hit != "commit" && rol != 1 {
				c.Violate("C06", "message-rollback-after-panic", "the command panicked after preparing and the message transaction was rolled back %d times%s", rol, tr())
			}
		}
		c.Count("message_transactions", 1)
		c.Distinct("msgtx com%d rol%d cf%v %s", com, rol, commitFailed, o.Hit)
	} else if len(txend) > 0 {
		c.Violate("C06", "message-end-without-prepare", "a message transaction was ended that had not been prepared%s", tr())
	}
}

func (o *Obs) judgeLocks(w *World, ok bool, firstBegin, lastEnd int, tr func() string) {
	c, sp := w.c, o.Spec
	var acq []Ev
	var rel []Ev
	relN := map[int]int{}
	acqN := map[int]string{}
	failedAcq := false
	for i, e := range o.Evs {
		switch e.What {
		case "lock":
			if e.Err {
				failedAcq = true
				continue
			}
			if failedAcq {
				c.Violate("C07", "acquire-after-failure", "a lock was acquired after another acquisition had failed%s", tr())
			}
			e.N = i
			acq = append(acq, e)
			acqN[e.UID] = e.S
			if firstBegin >= 0 && i > firstBegin {
				c.Violate("C07", "lock-inside-tx", "a lock was acquired after the transaction had begun%s", tr())
			}
		case "unlock":
			if e.Err {
				c.Violate("C07", "bad-release", "a lock was released that was not held: %v%s", e, tr())
				continue
			}
			e.N = i
			rel = append(rel, e)
			relN[e.UID]++
			if i < lastEnd {
				c.Violate("C07", "released-early", "a lock was released before the transaction had ended%s", tr())
			}
		case "main":
			if len(sp.Locks) > 0 && failedAcq {
				c.Violate("C07", "ran-without-lock", "the command ran although a lock was not acquired%s", tr())
			}
		case "begin":
			if len(sp.Locks) > 0 && failedAcq {
				c.Violate("C07", "ran-without-lock", "the transaction began although a lock was not acquired%s", tr())
			}
		}
	}
	for n, k := range acqN {
		if relN[n] != 1 {
			c.Violate("C07", "not-released", "lock %s was released %d times instead of once%s", k, relN[n], tr())
		}
	}
	w.lock.mu.Lock()
	if len(w.lock.held) > 0 {
		w.lock.held = map[string]int{}
	}
	w.lock.mu.Unlock()
	if len(sp.Locks) == 0 || (sp.Form != "main" && sp.Form != "legacy" && sp.Form != "runcmd" && sp.Form != "stage") {
		if len(acq) > 0 {
			c.Violate("C07", "unexpected-lock", "locks were acquired without being declared%s", tr())
		}
		return
	}
	uniq := map[string]bool{}
	for _, k := range sp.Locks {
		uniq[k] = true
	}
	if len(uniq) != len(sp.Locks) {
		if !failed(o) && o.Hit == "" {
			c.Violate("C07", "repeated-key", "a repeated lock key was accepted: %v%s", sp.Locks, tr())
		}
		if o.UserRan {
			c.Violate("C07", "repeated-key", "the command ran with a repeated lock key%s", tr())
		}
		c.Distinct("dupkeys %d", len(sp.Locks))
		return
	}
	if o.UserRan {
		names := map[string]bool{}
		for _, e := range acq {
			names[e.S] = true
		}
		if len(acq) != len(uniq) || len(names) != len(uniq) {
			c.Violate("C07", "keys-acquired", "%d declared keys, %d locks on %d names were acquired%s", len(uniq), len(acq), len(names), tr())
		}
		for k := range uniq {
			found := false
			for n := range names {
				if strings.HasSuffix(n, k) {
					found = true
				}
			}
			if !found {
				c.Violate("C07", "keys-acquired", "declared key %q was not acquired%s", k, tr())
			}
		}
		c.Count("lock_brackets", 1)
		c.Distinct("locks %d %v %s %s", len(sp.Locks), ok, o.Hit, sp.Outcome)
	}
	// global order over all commands of the case
	for i := range acq {
		for j := i + 1; j < len(acq); j++ {
			a, b := acq[i].S, acq[j].S
			if w.lockOrder(a, b) {
				c.Violate("C07", "lock-order", "%q was acquired before %q here and after it in another command%s", a, b, tr())
			}
		}
	}
}

var _ = reflect.DeepEqual

// lockOrder remembers that a was acquired before b and reports a contradiction.
func (w *World) lockOrder(a, b string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.order == nil {
		w.order = map[[2]string]bool{}
	}
	w.order[[2]string{a, b}] = true
	return w.order[[2]string{b, a}]
}

func (o *Obs) judgePost(w *World, ok bool, tr func() string) {
	c, sp := w.c, o.Spec
	want := 0
	if o.Res != nil && o.Res.Error == nil {
		want = o.postExpected()
		if !o.UserRan && o.Res.Break { // broke off in Init: nothing was started
			want = 0
		}
	}
	if len(o.PostRes) != want {
		c.Violate("C09", "post-count", "%d post-save callbacks ran, expected %d (result %+v)%s", len(o.PostRes), want, o.Res, tr())
	}
	seen := map[int]int{}
	for i, r := range o.PostRes {
		seen[o.PostIdx[i]]++
		if r != o.Res {
			c.Violate("C09", "post-result", "a post-save callback received another result than the caller%s", tr())
		}
	}
	for i, n := range seen {
		if n > 1 {
			c.Violate("C09", "post-count", "post-save callback %d ran %d times%s", i, n, tr())
		}
	}
	firstPost := -1
	for i, e := range o.Evs {
		if e.What == "post" && firstPost < 0 {
			firstPost = i
		}
		if firstPost >= 0 && (e.What == "commit" || e.What == "rollback" || e.What == "unlock") {
			c.Violate("C09", "post-early", "a post-save callback ran before %s%s", e.What, tr())
		}
	}
	if o.Res == nil {
		return
	}
	if ok {
		var got, exp []string
		for _, a := range o.Res.Actions {
			for _, m := range a.Models {
				id := m.GetID()
				got = append(got, fmt.Sprintf("%d:%T:%s", a.Op, m, id))
			}
		}
		for _, e := range o.Evs {
			op := map[string]int{"insert": 1, "update": 2, "delete": 3, "insert-event": 1}[e.What]
			if op == 0 || e.Err {
				continue
			}
			if e.What == "insert-event" {
				exp = append(exp, fmt.Sprintf("%d:%T:%s", op, &EvtPO{}, e.S))
			} else {
				exp = append(exp, fmt.Sprintf("%d:%T:%s", op, newPO(e.Row.K, Row{}), e.Row.ID))
			}
		}
		if sp.Dry && len(got) > 0 {
			c.Violate("C08", "dry-actions", "the result of a dry run lists executed actions%s", tr())
		}
		if !sp.Dry {
			sort.Strings(got)
			sort.Strings(exp)
			if strings.Join(got, "|") != strings.Join(exp, "|") {
				c.Violate("C09", "actions", "result lists actions %v, executed were %v%s", got, exp, tr())
			}
		}
		legacy := sp.Form == "legacy" || sp.Form == "runcmd"
		if legacy && sp.Output && o.Res.Output != "out-"+fmt.Sprint(sp.Seed) {
			c.Violate("C09", "output", "result output is %v%s", o.Res.Output, tr())
		}
		if !(legacy && sp.Output) && o.Res.Output != nil {
			c.Violate("C09", "output", "result output is %v although none was set%s", o.Res.Output, tr())
		}
	}
	c.Count("post_callbacks", len(o.PostRes))
}
