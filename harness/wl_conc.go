package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
)

// sharedCmd is one of many commands that share one engine.
type sharedCmd struct {
	id      int
	aggs    []string
	form    string
	dry     bool
	persist bool
	other   bool // own event bus
	outcome string
	nhooks  int
	own     bool
	output  bool
	gives   bool // the caller gives up when the user code ends
	cancel  context.CancelFunc
	creates int
	emits   int
	nested  []*sharedCmd
	rseed   int64

	mu      sync.Mutex
	res     *ddd.Result
	pan     any
	posts   []postCall
	reads   map[string]Row
	ran     int
	done    bool
	tokens  map[string]bool
	created []*Acct
}

type postCall struct {
	who  string
	cid  int
	res  *ddd.Result
	mark int
}

func (s *sharedCmd) String() string {
	return fmt.Sprintf("c%d(%s aggs=%v dry=%v persist=%v other=%v %q hooks=%d own=%v out=%v new=%d ev=%d nested=%d)",
		s.id, s.form, s.aggs, s.dry, s.persist, s.other, s.outcome, s.nhooks, s.own, s.output, s.creates, s.emits, len(s.nested))
}

type sharedWorld struct {
	c    *C
	w    *World
	eng  *ddd.Engine
	bus2 *RecBus
	cmds []*sharedCmd
	mu   sync.Mutex
	ehk  int // engine hooks
	epos []postCall
}

func (sw *sharedWorld) gen(r *rand.Rand, depth int, avail []string) *sharedCmd {
	s := &sharedCmd{id: len(sw.cmds) + 1, form: forms[r.Intn(len(forms))], rseed: r.Int63(), reads: map[string]Row{}, tokens: map[string]bool{}}
	sw.cmds = append(sw.cmds, s)
	p := r.Perm(len(avail))
	n := r.Intn(len(avail) + 1)
	if n > 3 {
		n = 3
	}
	if s.form == "func" || s.form == "mainfunc" {
		n = 0 // these forms cannot declare locks
	}
	for _, i := range p[:n] {
		s.aggs = append(s.aggs, avail[i])
	}
	s.dry = r.Intn(6) == 0
	s.persist = r.Intn(4) == 0
	s.other = r.Intn(5) == 0
	s.outcome = []string{"", "", "", "", "error", "break", "panic"}[r.Intn(7)]
	s.nhooks = r.Intn(4)
	s.own = r.Intn(2) == 0
	s.output = r.Intn(2) == 0
	s.gives = r.Intn(8) == 0
	s.creates = r.Intn(3)
	s.emits = r.Intn(3)
	if depth > 0 && r.Intn(4) == 0 {
		var rest []string
		for _, a := range avail {
			// under waiting locks, taking more while holding some is the
			// application's own deadlock
			if !contains(s.aggs, a) && !sw.w.lock.block {
				rest = append(rest, a)
			}
		}
		s.nested = append(s.nested, sw.gen(r, depth-1, rest))
	}
	return s
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (sw *sharedWorld) body(ctx context.Context, s *sharedCmd, api API) error {
	w := sw.w
	s.mu.Lock()
	s.ran++
	s.mu.Unlock()
	w.rec(Ev{What: "main", Cid: s.id})
	r := rand.New(rand.NewSource(s.rseed))
	var accts []*Acct
	if la, ok := api.(*legacyAPI); ok {
		for _, x := range la.roots {
			accts = append(accts, x.(*Acct))
		}
	} else {
		for _, a := range s.aggs {
			x := newEnt(w, KAcct).(*Acct)
			x.SetID(a)
			if err := api.Load(ctx, x); err != nil {
				return fmt.Errorf("load %s: %w", a, err)
			}
			accts = append(accts, x)
		}
	}
	s.mu.Lock()
	for _, x := range accts {
		s.reads[x.GetID()] = entRow(x, nil)
	}
	s.mu.Unlock()
	w.point("think")
	for _, n := range s.nested {
		sw.run(ctx, n)
	}
	for _, x := range accts {
		x.Val++
		x.Aux += fmt.Sprintf("c%d,", s.id)
		x.Dirty()
	}
	for i := 0; i < s.creates; i++ {
		x := newEnt(w, KAcct).(*Acct)
		x.UID = w.uid()
		x.Name = fmt.Sprintf("new by c%d", s.id)
		s.created = append(s.created, x)
		api.Add(x)
		accts = append(accts, x)
	}
	if len(accts) > 0 {
		for i := 0; i < s.emits; i++ {
			tok := fmt.Sprintf("t%d.%d", s.id, i)
			s.tokens[tok] = true
			x := accts[r.Intn(len(accts))]
			x.AddEvent(&TestEvt{Seq: i, UID: x.UID, Typ: "shared", Text: tok, Sndr: x.GetID()}, ddd.WithSendType(sendTypes[r.Intn(len(sendTypes))]))
		}
	}
	if r.Intn(4) == 0 {
		if err := api.Save(ctx); err != nil {
			return err
		}
		w.point("think")
	}
	if s.cancel != nil {
		s.cancel()
	}
	switch s.outcome {
	case "error":
		return fmt.Errorf("c%d: %w", s.id, errUser)
	case "break":
		return ddd.ErrBreak
	case "panic":
		panic(injected{fmt.Sprint("c", s.id)})
	}
	s.done = true
	return nil
}

func (sw *sharedWorld) post(s *sharedCmd, who string) ddd.PostSaveFunc {
	return func(ctx context.Context, res *ddd.Result) {
		sw.w.point("post")
		m := sw.w.mark()
		s.mu.Lock()
		s.posts = append(s.posts, postCall{who, cid(ctx), res, m})
		s.mu.Unlock()
	}
}

func (sw *sharedWorld) run(ctx context.Context, s *sharedCmd) {
	ctx = context.WithValue(ctx, cidKey{}, s.id)
	if s.gives {
		ctx, s.cancel = context.WithCancel(ctx)
		defer s.cancel()
	}
	var opts []ddd.Option
	for i := 0; i < s.nhooks; i++ {
		opts = append(opts, ddd.WithPostSave(sw.post(s, fmt.Sprintf("hook%d", i))))
	}
	if s.dry {
		opts = append(opts, ddd.WithDryRun)
	}
	if s.persist {
		opts = append(opts, ddd.WithEventPersist(sw.w.eventPersist))
	}
	if s.other {
		opts = append(opts, ddd.WithEventBus(sw.bus2))
	}
	mainF := func(ctx context.Context, repo *ddd.Repository) error {
		return sw.body(ctx, s, repoAPI{repo})
	}
	initF := func(ctx context.Context) ([]string, error) {
		sw.w.point("init")
		return append([]string(nil), s.aggs...), nil
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(injected); !ok {
				panic(x)
			}
			s.pan = x
		}
	}()
	own := sw.post(s, "own")
	switch s.form {
	case "main":
		b := cmdMain{main: mainF, init: initF, post: own}
		if s.own {
			s.res = sw.eng.Run(ctx, &cmdMainFull{b}, opts...)
		} else {
			s.res = sw.eng.Run(ctx, &cmdMainInit{b}, opts...)
		}
	case "func":
		s.own = false
		s.res = sw.eng.Run(ctx, mainF, opts...)
	case "mainfunc":
		s.own = false
		s.res = sw.eng.Run(ctx, ddd.MainFunc(mainF), opts...)
	case "stage":
		s.own = false
		s.res = sw.eng.NewStage().WithOption(opts...).Lock(append([]string(nil), s.aggs...)...).Main(mainF).Save(ctx)
	case "legacy":
		s.own = true
		cmd := &cmdLegacy{init: initF, post: own}
		api := &legacyAPI{cmd: cmd}
		cmd.build = func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
			api.b = &b
			for _, a := range s.aggs {
				x := newEnt(sw.w, KAcct).(*Acct)
				x.SetID(a)
				if err := api.Load(ctx, x); err != nil {
					return nil, err
				}
			}
			return api.roots, nil
		}
		cmd.act = func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
			api.cont = &cont
			if s.output {
				cmd.Output(fmt.Sprintf("out%d", s.id))
			}
			return sw.body(ctx, s, api)
		}
		s.res = sw.eng.Run(ctx, cmd, opts...)
	}
}

// sharedEngine runs many commands on one engine, concurrently and nested.
func sharedEngine(tweak func(r *rand.Rand, s *sharedCmd)) func(c *C) {
	return func(c *C) {
		w := newWorld(c)
		w.noEmit = true
		r := c.R
		sw := &sharedWorld{c: c, w: w, bus2: &RecBus{w: w, name: "bus2"}}
		aggs := []string{"a0", "a1", "a2", "a3", "a4"}[:1+r.Intn(5)]
		for i, a := range aggs {
			w.store.seed(Row{UID: w.uid(), K: KAcct, ID: a, Name: fmt.Sprint("acct", i)})
		}
		dr := rand.New(rand.NewSource(r.Int63()))
		var dmu sync.Mutex
		w.delay = func() {
			dmu.Lock()
			n := dr.Intn(8)
			dmu.Unlock()
			if n > 3 {
				time.Sleep(time.Duration(n) * 100 * time.Microsecond)
			}
		}
		w.lock.block = r.Intn(4) > 0
		sw.ehk = r.Intn(7)
		opts := []ddd.Option{ddd.WithLogger(discard), ddd.WithIDGenerator(w.idg)}
		for i := 0; i < sw.ehk; i++ {
			i := i
			opts = append(opts, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) {
				m := w.mark()
				sw.mu.Lock()
				sw.epos = append(sw.epos, postCall{fmt.Sprintf("eng%d", i), cid(ctx), res, m})
				sw.mu.Unlock()
			}))
		}
		bus := "plain"
		if r.Intn(2) == 0 {
			bus = "tx"
			opts = append(opts, ddd.WithEventBus(w.txbus))
		} else {
			opts = append(opts, ddd.WithEventBus(w.bus))
		}
		sw.eng = ddd.NewEngine(w.lock, w.store, opts...)
		n := 2 + r.Intn(7)
		var top []*sharedCmd
		for i := 0; i < n; i++ {
			top = append(top, sw.gen(r, 2, aggs))
		}
		for _, s := range sw.cmds {
			if tweak != nil {
				tweak(r, s)
			}
			c.Logf("%v", s)
		}
		seq := r.Intn(5) == 0
		var wg sync.WaitGroup
		for _, s := range top {
			if seq {
				sw.run(context.Background(), s)
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						st := allStacksSelf()
						fr := repoFrames(st)
						if len(fr) > 0 {
							c.Violate(c.Prop, "panic:"+fr[0], "unexpected panic in a concurrent command: %v\n%s", x, cut(st, 2500))
						} else {
							c.Inconclusive("harness panic %v\n%s", x, cut(st, 2500))
						}
					}
				}()
				sw.run(context.Background(), s)
			}()
		}
		wg.Wait()
		sw.judge(aggs, bus)
	}
}

func (sw *sharedWorld) judge(aggs []string, bus string) {
	c, w := sw.c, sw.w
	tr := w.since(0)
	by := map[int][]Ev{}
	pos := map[int][]int{}
	for i, e := range tr {
		by[e.Cid] = append(by[e.Cid], e)
		pos[e.Cid] = append(pos[e.Cid], i)
	}
	c.Logf("trace %s", cut(traceCid(tr), 3000))
	engPosts := map[int][]postCall{}
	for _, p := range sw.epos {
		engPosts[p.cid] = append(engPosts[p.cid], p)
	}
	okN := 0
	for _, s := range sw.cmds {
		evs := by[s.id]
		d := func() string {
			return fmt.Sprintf("\n  command %v result %+v panic %v\n  its trace: %s\n  all: %s", s, s.res, s.pan, cut(traceString(evs), 900), cut(traceCid(tr), 1500))
		}
		if s.ran == 0 && s.res == nil && s.pan == nil {
			continue // a nested command whose parent never ran
		}
		isOK := s.res != nil && s.res.Error == nil && !s.res.Break
		if isOK {
			okN++
		}
		if s.res != nil && s.res.Error != nil && s.outcome != "error" {
			if errors.Is(s.res.Error, ddd.ErrEntityLocked) {
				c.Count("lock_conflicts", 1)
				if s.ran > 0 {
					c.Violate("C07", "ran-without-lock", "a command ran although a lock could not be acquired%s", d())
				}
			} else {
				if s.gives && errors.Is(s.res.Error, context.Canceled) {
					continue
				}
				c.Violate("C11", "spurious-failure", "a valid command failed%s", d())
				c.Violate("C09", "spurious-failure", "a valid command failed%s", d())
			}
		}
		if s.outcome != "" && s.ran > 0 && isOK {
			c.Violate("C09", "foreign-result", "the command asked for %q and reported success%s", s.outcome, d())
		}
		if s.ran > 1 {
			c.Violate("C09", "ran-twice", "the command ran %d times%s", s.ran, d())
		}
		// bracket
		begins, ends := 0, 0
		locks := map[int]int{}
		lockNames := map[string]bool{}
		lastEnd, writes, disp, otherDisp, pers := -1, 0, 0, 0, 0
		var acts, done []string
		seen := map[string]int{}
		for k, e := range evs {
			switch e.What {
			case "begin":
				begins++
			case "commit", "rollback":
				ends++
				lastEnd = k
			case "lock":
				if !e.Err {
					locks[e.UID]++
					lockNames[e.S] = true
				}
				if begins > 0 {
					c.Violate("C07", "lock-inside-tx", "a lock was acquired after the transaction had begun%s", d())
				}
			case "unlock":
				if e.Err {
					c.Violate("C07", "bad-release", "a lock was released that was not held%s", d())
				}
				locks[e.UID]--
				if begins != ends {
					c.Violate("C07", "released-early", "a lock was released before the transaction had ended%s", d())
				}
			case "insert", "update", "delete":
				writes++
				done = append(done, fmt.Sprintf("%s:%s", e.What, e.Row.ID))
			case "insert-event":
				writes++
				pers++
				done = append(done, "insert:"+e.S)
			case "dispatch", "prepare":
				disp += len(e.Evts)
				if e.S == "bus2" {
					otherDisp += len(e.Evts)
				}
				for _, x := range e.Evts {
					tok := ""
					if i := strings.Index(string(x.Payload), `"Text":"`); i > 0 {
						tok = string(x.Payload)[i+8:]
						tok = tok[:strings.Index(tok, `"`)]
					}
					seen[tok]++
					if !s.tokens[tok] {
						c.Violate("C05", "foreign-event", "the command handed over event %q of another command%s", tok, d())
						c.Violate("C09", "foreign-event", "the command handed over event %q of another command%s", tok, d())
					}
				}
			}
		}
		_ = lastEnd
		for _, n := range locks {
			if n != 0 {
				c.Violate("C07", "not-released", "a lock was not released exactly once%s", d())
			}
		}
		if s.ran > 0 && len(s.aggs) > 0 && len(lockNames) != len(s.aggs) {
			c.Violate("C07", "keys-acquired", "%d locks for %d keys%s", len(lockNames), len(s.aggs), d())
		}
		if begins != ends || begins > 1 {
			c.Violate("C02", "tx-bracket", "%d begins, %d ends%s", begins, ends, d())
		}
		if s.dry {
			if writes > 0 || disp > 0 || pers > 0 {
				c.Violate("C08", "dry-effect", "a dry run wrote %d rows and handed over %d events%s", writes, disp, d())
			}
			if s.res != nil && len(s.res.Actions) > 0 {
				c.Violate("C08", "dry-actions", "a dry run reports executed actions%s", d())
			}
		} else if isOK {
			if exp := len(s.reads) + s.creates; len(done)-pers < exp {
				c.Violate("C08", "not-dry-without-effect", "a command that was not a dry run wrote %d of %d rows%s", len(done)-pers, exp, d())
				c.Violate("C09", "option-leak", "a command wrote %d of %d rows%s", len(done)-pers, exp, d())
			}
			for tok := range s.tokens {
				if seen[tok] != 1 {
					c.Violate("C05", "event-count", "event %s was handed over %d times%s", tok, seen[tok], d())
				}
			}
			if s.persist && pers != len(s.tokens) || !s.persist && pers > 0 {
				c.Violate("C09", "option-leak", "event persistence is %v for this command, %d of %d events were persisted%s", s.persist, pers, len(s.tokens), d())
				c.Violate("C05", "event-persist", "event persistence is %v for this command, %d of %d events were persisted%s", s.persist, pers, len(s.tokens), d())
			}
			if s.other && otherDisp != len(s.tokens) || !s.other && otherDisp > 0 {
				c.Violate("C09", "option-leak", "own bus is %v for this command, %d of %d events went there%s", s.other, otherDisp, len(s.tokens), d())
			}
		} else if s.res != nil && s.outcome != "" && disp > 0 {
			c.Violate("C05", "event-of-failed", "a command that failed handed over %d events%s", disp, d())
		}
		if s.res != nil {
			for _, a := range s.res.Actions {
				for _, m := range a.Models {
					acts = append(acts, fmt.Sprintf("%s:%s", map[ddd.OpType]string{1: "insert", 2: "update", 3: "delete"}[a.Op], m.GetID()))
				}
			}
			if isOK && !s.dry {
				sort.Strings(acts)
				sort.Strings(done)
				if strings.Join(acts, " ") != strings.Join(done, " ") {
					c.Violate("C09", "actions", "the result lists %v, the command executed %v%s", acts, done, d())
				}
			}
			wantOut := any(nil)
			if s.form == "legacy" && s.output {
				wantOut = fmt.Sprintf("out%d", s.id)
			}
			if isOK && s.res.Output != wantOut {
				c.Violate("C09", "output", "the output is %v, set was %v%s", s.res.Output, wantOut, d())
			}
		}
		// callbacks
		want := map[string]bool{}
		if s.res != nil && s.res.Error == nil {
			for i := 0; i < s.nhooks; i++ {
				want[fmt.Sprintf("hook%d", i)] = true
			}
			if s.own {
				want["own"] = true
			}
			for i := 0; i < sw.ehk; i++ {
				want[fmt.Sprintf("eng%d", i)] = true
			}
		}
		got := map[string]int{}
		for _, p := range append(append([]postCall(nil), s.posts...), engPosts[s.id]...) {
			got[p.who]++
			if p.cid != s.id {
				c.Violate("C09", "post-leak", "callback %s of this command ran for command %d%s", p.who, p.cid, d())
			}
			if p.res != s.res {
				c.Violate("C09", "post-result", "callback %s received another result than the caller%s", p.who, d())
			}
			for k, e := range evs {
				if pos[s.id][k] >= p.mark && (e.What == "commit" || e.What == "rollback" || e.What == "unlock") {
					c.Violate("C09", "post-early", "callback %s ran before %s%s", p.who, e.What, d())
				}
			}
		}
		for who := range want {
			if got[who] != 1 {
				c.Violate("C09", "post-count", "callback %s ran %d times instead of once%s", who, got[who], d())
			}
		}
		for who, n := range got {
			if !want[who] {
				c.Violate("C09", "post-count", "callback %s ran %d times, expected none%s", who, n, d())
			}
		}
		c.Count("callbacks_checked", len(got))
		c.Count("events_checked", len(s.tokens))
		if s.dry && isOK {
			c.Count("dry_runs_checked", 1)
		}
	}
	// explain the final state by a sequential order
	final := w.store.snapshot()
	prec := map[int]map[int]bool{}
	for _, a := range aggs {
		var ws []*sharedCmd
		for _, s := range sw.cmds {
			if _, rd := s.reads[a]; rd && s.res != nil && s.res.Error == nil && !s.res.Break && !s.dry {
				ws = append(ws, s)
			}
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].reads[a].Val < ws[j].reads[a].Val })
		aux := ""
		for i, s := range ws {
			rd := s.reads[a]
			if rd.Val != i || rd.Aux != aux {
				c.Violate("C11", "not-serializable", "aggregate %s: command c%d read version %d %q, a sequential order requires %d %q; all: %s", a, s.id, rd.Val, rd.Aux, i, aux, cut(traceCid(tr), 2500))
				break
			}
			aux += fmt.Sprintf("c%d,", s.id)
			if i > 0 {
				p := ws[i-1].id
				if prec[p] == nil {
					prec[p] = map[int]bool{}
				}
				prec[p][s.id] = true
			}
		}
		f := final[rkey{string(KAcct), a}]
		if f.Val != len(ws) || f.Aux != aux {
			c.Violate("C11", "lost-update", "aggregate %s is at version %d %q after %d successful commands (%q); all: %s", a, f.Val, f.Aux, len(ws), aux, cut(traceCid(tr), 2500))
		}
		c.Count("versions_checked", len(ws))
		c.Distinct("chain %d %s", len(ws), aux)
	}
	for _, s := range sw.cmds {
		if s.res == nil || s.res.Error != nil || s.res.Break || s.dry {
			continue
		}
		ids := map[string]bool{}
		for _, x := range s.created {
			if x.GetID() == "" || ids[x.GetID()] {
				c.Violate("C03", "no-id", "a created entity has identifier %q", x.GetID())
			}
			ids[x.GetID()] = true
			if row, ok := final[rkey{string(KAcct), x.GetID()}]; !ok || row.UID != x.UID {
				c.Violate("C11", "lost-insert", "an entity created by c%d is not stored", s.id)
			}
		}
	}
	if cyc(prec) {
		c.Violate("C11", "not-serializable", "the commands cannot be ordered sequentially: %v", prec)
	}
	c.Count("commands_run", len(sw.cmds))
	c.Count("commands_succeeded", okN)
	order := ""
	for _, e := range tr {
		if e.What == "begin" || e.What == "commit" || e.What == "rollback" || e.What == "lock" {
			order += fmt.Sprintf("%d%s;", e.Cid, e.What[:1])
		}
	}
	c.Distinct("interleaving %s", order)
	if c.Index < 6 {
		c.Sample("%d commands on %v: %s", len(sw.cmds), aggs, cut(traceCid(tr), 600))
	}
}

func cyc(g map[int]map[int]bool) bool {
	state := map[int]int{}
	var visit func(n int) bool
	visit = func(n int) bool {
		state[n] = 1
		for m := range g[n] {
			if state[m] == 1 || state[m] == 0 && visit(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range g {
		if state[n] == 0 && visit(n) {
			return true
		}
	}
	return false
}

func traceCid(evs []Ev) string {
	var b strings.Builder
	for _, e := range evs {
		if e.What == "convert" || e.What == "hook" || e.What == "idgen" {
			continue
		}
		fmt.Fprintf(&b, "c%d:%s; ", e.Cid, e.What)
	}
	return b.String()
}
