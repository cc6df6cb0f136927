package harness

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
)

// ctxMsg is a message prepared on one of several buses.
type ctxMsg struct {
	bus     int
	ids     []string
	outcome string // "", commit, rollback
}

type ctxNode struct {
	ctx  context.Context
	msgs map[int]*ctxMsg // the message each bus finds in it
	name string
}

// busCtxCase passes the contexts of message transactions on to other calls and
// other buses: each call concerns its own message only.
func busCtxCase(c *C) {
	r := c.R
	var dbs []*simDB
	for k := 1 + r.Intn(2); k > 0; k-- {
		d := newSimDB()
		d.tracing = false
		dbs = append(dbs, d)
		defer d.close()
	}
	type busAt struct {
		b  *ebmysql.EventBus
		db int
	}
	var buses []busAt
	for k := 2 + r.Intn(2); k > 0; k-- {
		d := r.Intn(len(dbs))
		b := ebmysql.NewEventBus(fmt.Sprintf("svc%d", r.Intn(3)), dbs[d].newInst(fmt.Sprintf("i%d", k)).g, func(o *ebmysql.Options) {
			o.Logger = quietLogger()
			o.TXCheckTimeout = 100 * time.Hour
		})
		buses = append(buses, busAt{b, d})
		if r.Intn(3) == 0 {
			time.Sleep(time.Second)
		}
	}
	n := 0
	where := map[string]int{}      // event id -> database
	want := map[string]int{}       // published how often
	prepared := map[*ctxMsg]bool{} // records expected
	var all []*ctxMsg
	events := func(db int) (out []*ddd.DomainEvent) {
		for k := 1 + r.Intn(3); k > 0; k-- {
			n++
			id := fmt.Sprintf("x%d-%d", c.Index, n)
			where[id] = db
			out = append(out, &ddd.DomainEvent{ID: id, Type: "t", Sender: "s", SendType: ddd.SendTypeNormal, Payload: []byte("{}"), CreatedAt: time.Now()})
		}
		return
	}
	nodes := []*ctxNode{{ctx: context.Background(), msgs: map[int]*ctxMsg{}, name: "bg"}}
	var ops []string
	fail := func(sig, f string, a ...any) {
		c.Violate("B07", sig, "%s\noperations: %s", fmt.Sprintf(f, a...), strings.Join(ops, "; "))
	}
	check := func() bool {
		for d, db := range dbs {
			var evs []evRow
			db.mon.g.Raw("select id,event_id from ddd_domain_event").Scan(&evs)
			got := map[string]int{}
			for _, e := range evs {
				got[e.EventID]++
			}
			var ids []string
			for id, at := range where {
				if at == d {
					ids = append(ids, id)
				}
			}
			sort.Strings(ids)
			for _, id := range ids {
				if got[id] != want[id] {
					fail("wrong-message", "event %s is published %d times instead of %d", id, got[id], want[id])
					return false
				}
				delete(got, id)
			}
			for id := range got {
				fail("wrong-database", "event %s is published in another database", id)
				return false
			}
			for _, m := range all {
				if buses[m.bus].db != d {
					continue
				}
				var k int64
				db.mon.g.Raw("select count(*) from ddd_event_transaction where events like ?", `%"`+m.ids[0]+`"%`).Scan(&k)
				if (k == 1) != prepared[m] || k > 1 {
					fail("wrong-record", "message %v has %d records, prepared %v", m.ids, k, prepared[m])
					return false
				}
			}
			c.Count("message_states", len(all))
		}
		return true
	}
	for step := 6 + r.Intn(14); step > 0; step-- {
		x := nodes[r.Intn(len(nodes))]
		if r.Intn(2) == 0 {
			x = nodes[len(nodes)-1]
		}
		bi := r.Intn(len(buses))
		b := buses[bi]
		switch r.Intn(5) {
		case 0, 1:
			evs := events(b.db)
			m := &ctxMsg{bus: bi}
			for _, e := range evs {
				m.ids = append(m.ids, e.ID)
			}
			nctx, err := b.b.DispatchBegin(x.ctx, evs...)
			if err != nil {
				fail("begin", "preparing failed: %v", err)
				return
			}
			all = append(all, m)
			prepared[m] = true
			nm := map[int]*ctxMsg{bi: m}
			for k, v := range x.msgs {
				if k != bi {
					nm[k] = v
				}
			}
			nodes = append(nodes, &ctxNode{ctx: nctx, msgs: nm, name: fmt.Sprintf("c%d", len(nodes))})
			ops = append(ops, fmt.Sprintf("%s = bus%d.begin(%s, %v)", nodes[len(nodes)-1].name, bi, x.name, m.ids))
		case 2:
			evs := events(b.db)
			ops = append(ops, fmt.Sprintf("bus%d.dispatch(%s, %d events)", bi, x.name, len(evs)))
			if err := b.b.Dispatch(x.ctx, evs...); err != nil {
				fail("dispatch", "publishing failed: %v", err)
				return
			}
			for _, e := range evs {
				want[e.ID] = 1
			}
		default:
			m := x.msgs[bi]
			do, what := b.b.Commit, "commit"
			if r.Intn(3) == 0 {
				do, what = b.b.Rollback, "rollback"
			}
			if m != nil && m.outcome != "" {
				if what = m.outcome; what == "commit" {
					do = b.b.Commit
				} else {
					do = b.b.Rollback
				}
			}
			ops = append(ops, fmt.Sprintf("bus%d.%s(%s)", bi, what, x.name))
			err := do(x.ctx)
			if m == nil {
				if err == nil {
					fail("no-message", "a %s without a message of that bus succeeded", what)
					return
				}
				break
			}
			if err != nil {
				fail("outcome", "the %s of message %v failed: %v", what, m.ids, err)
				return
			}
			m.outcome = what
			prepared[m] = false
			if what == "commit" {
				for _, id := range m.ids {
					want[id] = 1
				}
			}
		}
		c.Count("context_calls", 1)
		if !check() {
			return
		}
	}
	c.Distinct("%d %d %s", len(dbs), len(buses), cut(strings.Join(ops, ";"), 200))
}

// busRegisterCase starts instances while the database does not answer: once it
// does, the service gets what is published.
func busRegisterCase(c *C) {
	alignHour()
	r := c.R
	w := newBusWorld(c)
	defer w.finish()
	pub := w.newSvc("pub")
	w.planFor(pub, 0)
	p := w.newInst(pub, r.Intn(2) == 0)
	var svcs []*busSvc
	nfault := 0
	for k := 1 + r.Intn(2); k > 0; k-- {
		s := w.newSvc(fmt.Sprintf("late%d", k))
		w.planFor(s, []int{0, 20}[r.Intn(2)])
		svcs = append(svcs, s)
		for j := 1 + r.Intn(2); j > 0; j-- {
			until := time.Now().Add(time.Duration(1+r.Intn(20000)) * time.Millisecond)
			first, skip, num := r.Intn(2) == 0, 0, len(w.db.insts)
			if !first {
				skip = 1 + r.Intn(3)
			}
			kind := []simFault{fBefore, fBefore, fAfter}[r.Intn(3)]
			prev := w.db.onStmt
			seen := 0
			w.db.onStmt = func(st *simStmt) simFault {
				if st.Inst.num == num && strings.Contains(st.SQL, "ddd_") && time.Now().Before(until) {
					if seen++; seen > skip {
						nfault++
						w.mu.Lock()
						w.faulty = true
						w.mu.Unlock()
						return kind
					}
				}
				return prev(st)
			}
			w.newInst(s, true)
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
			}
		}
	}
	time.Sleep(25 * time.Second) // all databases answer again, and everyone polled several times since
	for _, s := range svcs {
		if !w.services()[s.name] {
			w.violate("B02", "never-registered", "service %s, whose first registration failed, polls and is still not registered 5 s after the database answers again", s.name)
			return
		}
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		var evs []*busEv
		for j := 1 + r.Intn(3); j > 0; j-- {
			evs = append(evs, w.newEvent("a", []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[r.Intn(3)]))
		}
		w.publish(p, evs)
		time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
	}
	if !p.started {
		p.start(w)
	}
	w.settle()
	w.judgeEnd()
	c.Count("failed_registrations", nfault)
	c.Distinct("%d %d %d", len(svcs), nfault, len(w.order))
}

func init() {
	Register("B07", Workload{Name: "contexts", Quick: 160, Thorough: 4000, Fn: busCtxCase})
	Register("B02", Workload{Name: "registration", Quick: 40, Thorough: 1500, Long: true, Fn: busRegisterCase})
}
