package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
)

// xWorld: commands running concurrently and nested in each other on two
// databases. Every aggregate belongs to one command at a time, so that each
// statement can be told to which command it belongs by the keys in it.
type xWorld struct {
	c    *C
	mu   sync.Mutex
	rnd  *rand.Rand
	dbs  []*xDB
	slot []*xSlot
	ncmd int
	txs  map[string]*xCmd // tx of a database -> first command seen in it
	byG  map[string][]*xCmd
	nv   int
	over bool
	cmds []*xCmd
}

type xDB struct {
	n    int
	db   *simDB
	in   *simInst
	eng  *ddd.Engine
	noTx *ddd.Engine
	ex2  *ddd.Engine // another executor for this database
}

type xSlot struct {
	n     int
	db    *xDB
	rows  map[string]string // id -> name, as stored
	owner *xCmd
	gen   int
}

type xCmd struct {
	w          *xWorld
	n          int
	slot       *xSlot
	db         *xDB
	eng        string
	end        string
	fault      simFault
	faultKind  string
	faultAt    int
	seen       int
	struck     bool
	tx         map[string]bool // transactions its statements ran in
	stmts      int
	outside    int
	committing bool
	acked      bool // the commit was executed
	nested     []*xCmd
	swallow    bool
	after      map[string]string
	parent     *xCmd
	log        []string
}

func (w *xWorld) violate(sig, f string, a ...any) {
	w.mu.Lock()
	w.nv++
	n := w.nv
	w.mu.Unlock()
	if n <= 3 {
		w.c.Violate("X03", sig, f, a...)
	}
}

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

var reSlot = regexp.MustCompile(`^s(\d+)_`)

func (w *xWorld) slotOf(st *simStmt) *xSlot {
	for _, a := range st.Args {
		s, ok := a.Value.(string)
		if !ok {
			continue
		}
		if m := reSlot.FindStringSubmatch(s); m != nil {
			n, _ := strconv.Atoi(m[1])
			if n < len(w.slot) {
				return w.slot[n]
			}
		}
	}
	return nil
}

// onStmt sees every statement before it is executed.
func (w *xWorld) onStmt(x *xDB, st *simStmt) simFault {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.over {
		return fNone
	}
	key := fmt.Sprintf("%d/%d", x.n, st.TX)
	var cmd *xCmd
	sl := w.slotOf(st)
	if sl != nil {
		cmd = sl.owner
		w.c.Count("statements", 1)
		switch {
		case cmd == nil:
			go w.violate("ownerless", "a statement on aggregate %d although no command uses it: %s", sl.n, st)
			return fNone
		case sl.db != x:
			go w.violate("wrong-database", "a statement of a command on database %d goes to database %d: %s", sl.db.n, x.n, st)
			return fNone
		}
		cmd.stmts++
		if st.TX == 0 {
			cmd.outside++
			if cmd.eng != "notx" {
				go w.violate("outside", "a statement of a command with a transaction runs outside of any: %s", st)
			}
		} else {
			cmd.tx[key] = true
			if o := w.txs[key]; o != nil && o != cmd {
				go w.violate("shared-transaction", "commands %d and %d run in one transaction: %s", o.n, cmd.n, st)
			}
			w.txs[key] = cmd
			if cmd.eng != "notx" && len(cmd.tx) > 1 {
				go w.violate("two-transactions", "one command's statements run in %d transactions: %s", len(cmd.tx), st)
			}
		}
	} else if q := w.byG[goid()]; len(q) > 0 {
		cmd = q[len(q)-1]
	}
	if st.Kind == "commit" {
		if o := w.txs[key]; o != nil {
			o.committing = true
		} else if cmd != nil {
			cmd.committing = true
		}
	}
	if cmd == nil || cmd.struck || cmd.fault == fNone || cmd.db != x {
		return fNone
	}
	kind := st.Kind
	if sl != nil {
		kind = "statement"
	}
	if kind != cmd.faultKind {
		return fNone
	}
	if cmd.seen++; cmd.seen <= cmd.faultAt {
		return fNone
	}
	cmd.struck = true
	w.c.Count("faults", 1)
	return cmd.fault
}

func (w *xWorld) onDone(x *xDB, st *simStmt) {
	if st.Kind != "commit" || st.Fault == fBefore {
		return
	}
	w.mu.Lock()
	if o := w.txs[fmt.Sprintf("%d/%d", x.n, st.TX)]; o != nil && (st.Err == nil || st.Fault == fAfter) {
		o.acked = true
	}
	w.mu.Unlock()
}

// rows reads what is stored, per aggregate.
func (w *xWorld) rows(x *xDB) map[int]map[string]string {
	got, err := sqDump(x.db.mon.g)
	if err != nil {
		w.c.Inconclusive("dump: %v", err)
		return nil
	}
	r := map[int]map[string]string{}
	for t, m := range got {
		for id, po := range m {
			g := reSlot.FindStringSubmatch(id)
			if g == nil {
				continue
			}
			n, _ := strconv.Atoi(g[1])
			if r[n] == nil {
				r[n] = map[string]string{}
			}
			r[n][t+" "+id] = poVals(po).Name
		}
	}
	return r
}

func sameRows(a, b map[string]string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func (w *xWorld) poll() {
	for _, x := range w.dbs {
		w.mu.Lock()
		before := map[*xSlot]*xCmd{}
		for _, s := range w.slot {
			before[s] = s.owner
		}
		w.mu.Unlock()
		got := w.rows(x)
		if got == nil {
			return
		}
		w.mu.Lock()
		for _, s := range w.slot {
			o := s.owner
			if s.db != x || before[s] != o || o != nil && (o.committing || o.eng == "notx") {
				continue
			}
			w.c.Count("reads", 1)
			if !sameRows(got[s.n], s.rows) {
				what := "no command is using it"
				if o != nil {
					what = fmt.Sprintf("command %d has not committed", o.n)
				}
				go w.violate("visible-early", "aggregate %d is stored as %v instead of %v while %s", s.n, got[s.n], s.rows, what)
			}
		}
		w.mu.Unlock()
	}
}

// take gives cmd an aggregate.
func (w *xWorld) take(x *xDB, cmd *xCmd) *xSlot {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range w.rnd.Perm(len(w.slot)) {
		if s := w.slot[i]; s.owner == nil && s.db == x {
			s.owner = cmd
			return s
		}
	}
	return nil
}

func (w *xWorld) rint(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

// newCmd draws a command on database x and what it nests.
func (w *xWorld) newCmd(x *xDB, parent *xCmd, depth int) *xCmd {
	cmd := &xCmd{w: w, db: x, tx: map[string]bool{}, parent: parent, end: "ok", eng: "tx"}
	w.mu.Lock()
	w.ncmd++
	cmd.n = w.ncmd
	w.mu.Unlock()
	cmd.slot = w.take(x, cmd)
	if cmd.slot == nil {
		return nil
	}
	w.mu.Lock()
	w.cmds = append(w.cmds, cmd)
	w.mu.Unlock()
	if w.rint(6) == 0 {
		cmd.eng = "tx2"
	}
	above := false
	for p := parent; p != nil; p = p.parent {
		above = above || p.db == x
	}
	if parent != nil && !above && w.rint(3) == 0 {
		// without a transaction of its own: must not use the one of the other database
		cmd.eng = "notx"
	}
	switch w.rint(13) {
	case 0:
		cmd.end = "error"
	case 1:
		cmd.end = "panic"
	case 2:
		cmd.end = "converter-panic"
	case 3:
		cmd.end = "break"
	}
	if w.rint(3) == 0 {
		cmd.fault = []simFault{fBefore, fAfter}[w.rint(2)]
		cmd.faultKind = []string{"begin", "commit", "statement", "statement", "rollback"}[w.rint(5)]
		if cmd.faultKind == "statement" {
			cmd.faultAt = w.rint(8)
		}
		if cmd.faultKind == "begin" {
			cmd.fault = fBefore
		}
		if cmd.eng == "notx" {
			cmd.fault = fNone
		}
	}
	if cmd.eng == "notx" {
		cmd.end = "ok"
	}
	for k := w.rint(3); k > 0 && depth < 3; k-- {
		y := w.dbs[w.rint(len(w.dbs))]
		if n := w.newCmd(y, cmd, depth+1); n != nil {
			cmd.nested = append(cmd.nested, n)
		}
	}
	cmd.swallow = w.rint(2) == 0
	return cmd
}

var errXNested = errors.New("the nested command failed")

// run runs the command and judges what it left behind.
func (cmd *xCmd) run(ctx context.Context) (ok bool) {
	w := cmd.w
	eng := cmd.db.eng
	switch cmd.eng {
	case "notx":
		eng = cmd.db.noTx
	case "tx2":
		eng = cmd.db.ex2
	}
	g := goid()
	w.mu.Lock()
	w.byG[g] = append(w.byG[g], cmd)
	old := map[string]string{}
	for k, v := range cmd.slot.rows {
		old[k] = v
	}
	cmd.slot.gen++
	gen := cmd.slot.gen
	w.mu.Unlock()
	var res *ddd.Result
	panicked := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(injected); !ok {
					panic(x)
				}
				panicked = true
			}
		}()
		res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			return cmd.main(ctx, repo, old, gen)
		})
	}()
	ok = !panicked && res.Error == nil && !res.Break
	for _, n := range cmd.nested { // never reached
		n.release()
	}
	w.mu.Lock()
	q := w.byG[g]
	w.byG[g] = q[:len(q)-1]
	acked, struck := cmd.acked, cmd.struck
	w.mu.Unlock()
	w.c.Count("commands", 1)
	if !ok {
		w.c.Count("commands_failed", 1)
	}
	what := fmt.Sprintf("command %d (%s, ends in %s, %v at %s %d, nested in %d) on aggregate %d: %s", cmd.n, cmd.eng, cmd.end, cmd.fault, cmd.faultKind, cmd.faultAt, cmd.depth(), cmd.slot.n, strings.Join(cmd.log, "; "))
	if cmd.end != "ok" && ok {
		w.violate("not-reported", "%s\nsucceeded", what)
	}
	if !ok && cmd.end == "ok" && !struck && !cmd.nestedFailed() {
		w.violate("failed", "%s\nfailed without cause: %v", what, res)
	}
	want := old
	switch {
	case ok:
		want = cmd.after
	case acked:
		// the commit happened, only its answer was lost
		want = cmd.after
		w.c.Count("answers_lost", 1)
	}
	got := w.rows(cmd.db)
	if got != nil && !sameRows(got[cmd.slot.n], want) {
		sig := "not-stored"
		if !ok {
			sig = "failed-visible"
		}
		w.violate(sig, "%s\n%s and its aggregate is stored as %v, instead of %v", what, map[bool]string{true: "succeeded", false: "failed"}[ok], got[cmd.slot.n], want)
	}
	w.mu.Lock()
	if got != nil {
		cmd.slot.rows = got[cmd.slot.n]
	}
	cmd.slot.owner = nil
	w.mu.Unlock()
	w.c.Distinct("%s %s %v %s %d %v %d n%d", cmd.eng, cmd.end, cmd.fault, cmd.faultKind, cmd.faultAt, struck, cmd.depth(), len(cmd.nested))
	return ok
}

func (cmd *xCmd) nestedFailed() bool {
	for _, l := range cmd.log {
		if l == "nested failed" {
			return true
		}
	}
	return false
}

func (cmd *xCmd) depth() (n int) {
	for p := cmd.parent; p != nil; p = p.parent {
		n++
	}
	return
}

// release gives back the aggregates of a command that was not run.
func (cmd *xCmd) release() {
	w := cmd.w
	w.mu.Lock()
	if cmd.slot.owner == cmd {
		cmd.slot.owner = nil
	}
	w.mu.Unlock()
	for _, n := range cmd.nested {
		n.release()
	}
	cmd.nested = nil
}

func (cmd *xCmd) main(ctx context.Context, repo *ddd.Repository, old map[string]string, gen int) error {
	w := cmd.w
	if d := w.rint(30); d < 20 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	runNested := func(k int) error {
		for k > 0 && len(cmd.nested) > 0 {
			n := cmd.nested[0]
			cmd.nested = cmd.nested[1:]
			if !n.run(ctx) {
				if !cmd.swallow {
					cmd.log = append(cmd.log, "nested failed")
					return errXNested
				}
			}
			k--
		}
		return nil
	}
	if err := runNested(w.rint(3)); err != nil {
		return err
	}
	id := fmt.Sprintf("s%d_root", cmd.slot.n)
	x := &sqRoot{}
	x.SetID(id)
	next := func(k string) string { return fmt.Sprintf("s%d_%s%d.%d", cmd.slot.n, k, gen, w.rint(1<<30)) }
	tag := func() string { return fmt.Sprintf("s%d_c%d.%d", cmd.slot.n, cmd.n, w.rint(1000)) }
	exists := len(old) > 0
	if exists {
		if err := repo.Get(ctx, x, &x.Items, &x.Lines, &x.Note); err != nil {
			return err
		}
		is := map[string]string{}
		walkSq(x, nil, func(e, _ sqEnt) { is[e.table()+" "+e.GetID()] = e.vals().Name })
		if !sameRows(is, old) {
			w.violate("read", "command %d reads %v from an aggregate stored as %v", cmd.n, is, old)
		}
		cmd.log = append(cmd.log, "load")
	}
	if err := runNested(w.rint(3)); err != nil {
		return err
	}
	mutate := func() {
		if !exists || w.rint(2) == 0 {
			x.V.Name = tag()
			x.Dirty()
		}
		for k := w.rint(3); k > 0; k-- {
			switch w.rint(6) {
			case 0, 1:
				it := &sqItem{}
				it.SetID(next("i"))
				it.V.Name = tag()
				x.Items = append(x.Items, it)
			case 2:
				l := &sqLine{}
				l.SetID(fmt.Sprintf("%s/%d", id, w.rint(1<<30)))
				l.V.Name = tag()
				x.Lines = append(x.Lines, l)
			case 3:
				if len(x.Items) > 0 {
					x.Items = append([]*sqItem{}, x.Items[1:]...)
				}
			case 4:
				if len(x.Lines) > 0 {
					x.Lines[0].V.Name = tag()
					x.Lines[0].Dirty()
				}
			case 5:
				if len(x.Items) > 0 {
					it := x.Items[len(x.Items)-1]
					it.V.Name = tag()
					it.Dirty()
				}
			}
		}
	}
	gone := exists && w.rint(6) == 0
	if gone {
		repo.Remove(x)
		cmd.log = append(cmd.log, "remove")
	} else {
		mutate()
		if !exists {
			repo.Add(x)
			cmd.log = append(cmd.log, "add")
		}
	}
	if len(cmd.nested) == 0 && w.rint(3) == 0 && cmd.eng != "notx" && cmd.end != "converter-panic" {
		cmd.log = append(cmd.log, "save")
		if err := repo.Save(ctx); err != nil {
			return err
		}
		if d := w.rint(20); d < 10 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		if !gone {
			exists = true
			mutate()
		}
	}
	cmd.after = map[string]string{}
	if !gone {
		walkSq(x, nil, func(e, _ sqEnt) { cmd.after[e.table()+" "+e.GetID()] = e.vals().Name })
	}
	if err := runNested(len(cmd.nested)); err != nil {
		return err
	}
	switch cmd.end {
	case "error":
		return errSqFail
	case "panic":
		panic(injected{"command"})
	case "break":
		return ddd.ErrBreak
	case "converter-panic":
		it := &sqItem{}
		it.SetID(next("p"))
		it.V.Name = sqPanicName
		if gone {
			panic(injected{"command"})
		}
		x.Items = append(x.Items, it)
	}
	return nil
}

func (w *xWorld) newXDB(n int) *xDB {
	x := &xDB{n: n, db: newSimDB()}
	x.db.tracing = true
	x.in = x.db.newInst(fmt.Sprintf("app%d", n))
	e1, e2 := exmysql.NewExecutor(x.in.g), exmysql.NewExecutor(x.in.g)
	x.eng = ddd.NewEngine(noLocks{}, e1, ddd.WithLogger(discard), ddd.WithRecursiveDelete)
	x.noTx = ddd.NewEngine(noLocks{}, e1, ddd.WithLogger(discard), ddd.WithRecursiveDelete, ddd.WithoutTransaction)
	x.ex2 = ddd.NewEngine(noLocks{}, e2, ddd.WithLogger(discard), ddd.WithRecursiveDelete)
	return x
}

// transactionsCase runs rounds of concurrent commands.
func transactionsCase(c *C) {
	w := &xWorld{c: c, rnd: rand.New(rand.NewSource(c.R.Int63())), txs: map[string]*xCmd{}, byG: map[string][]*xCmd{}}
	for n := 0; n < 2; n++ {
		w.dbs = append(w.dbs, w.newXDB(n))
	}
	defer func() {
		for _, x := range w.dbs {
			x.db.close()
		}
	}()
	for n := 0; n < 16; n++ {
		w.slot = append(w.slot, &xSlot{n: n, db: w.dbs[n%2], rows: map[string]string{}})
	}
	lat := w.rint(3)
	for _, x := range w.dbs {
		x := x
		x.db.onStmt = func(st *simStmt) simFault { return w.onStmt(x, st) }
		x.db.onDone = func(st *simStmt) { w.onDone(x, st) }
		if lat > 0 {
			x.db.lat = func(*simStmt) time.Duration { return time.Duration(w.rint(10*lat)) * time.Millisecond }
		}
	}
	stop := make(chan struct{})
	polled := make(chan struct{})
	go func() {
		defer close(polled)
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(1+w.rint(15)) * time.Millisecond):
				w.poll()
			}
		}
	}()
	for round := 0; round < 4; round++ {
		var wg sync.WaitGroup
		var tops []*xCmd
		for k := 1 + w.rint(4); k > 0; k-- {
			if cmd := w.newCmd(w.dbs[w.rint(2)], nil, 0); cmd != nil {
				tops = append(tops, cmd)
			}
		}
		for _, cmd := range tops {
			wg.Add(1)
			go func(cmd *xCmd) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						w.violate("panic", "command %d panicked: %v\n%s", cmd.n, x, cut(allStacksSelf(), 2000))
					}
				}()
				if d := w.rint(20); d > 8 {
					time.Sleep(time.Duration(d) * time.Millisecond)
				}
				cmd.run(context.Background())
			}(cmd)
		}
		wg.Wait()
		synctest.Wait()
		w.mu.Lock()
		for _, s := range w.slot {
			s.owner = nil
		}
		w.mu.Unlock()
		for _, x := range w.dbs {
			if n := x.in.sdb.Stats().InUse; n != 0 {
				w.violate("connection-leak", "%d connections of database %d are in use after all commands have ended", n, x.n)
			}
			got := w.rows(x)
			for _, s := range w.slot {
				if got != nil && s.db == x && !sameRows(got[s.n], s.rows) {
					w.violate("changed-later", "aggregate %d is stored as %v instead of %v after its command ended", s.n, got[s.n], s.rows)
				}
			}
		}
		if w.nv > 0 {
			break
		}
	}
	w.mu.Lock()
	w.over = true
	w.mu.Unlock()
	close(stop)
	<-polled
	ntx := 0
	for range w.txs {
		ntx++
	}
	c.Count("transactions", ntx)
	var ends []string
	for _, cmd := range w.cmds {
		ends = append(ends, cmd.eng+":"+cmd.end)
		c.Logf("command %d on database %d aggregate %d depth %d %s ends %s, %v at %s %d struck %v: %s", cmd.n, cmd.db.n, cmd.slot.n, cmd.depth(), cmd.eng, cmd.end, cmd.fault, cmd.faultKind, cmd.faultAt, cmd.struck, strings.Join(cmd.log, "; "))
	}
	sort.Strings(ends)
	c.Sample("%d commands in %d transactions: %s", len(w.cmds), ntx, cut(strings.Join(ends, " "), 200))
	if w.nv > 0 {
		for _, x := range w.dbs {
			x.db.mu.Lock()
			for _, st := range x.db.trace {
				c.Logf("%s", cut(st.String(), 300))
			}
			x.db.mu.Unlock()
		}
	}
}

func init() {
	Register("X03", Workload{Name: "transactions", Quick: 800, Thorough: 30000, Bubble: true, Leaky: true, Fn: transactionsCase},
		Workload{Name: "aggregates", Quick: 800, Thorough: 20000, Fn: sqlCase(false)})
}
