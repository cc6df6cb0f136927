package harness

import (
	"context"
	"fmt"
	"regexp"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
)

var reDelete = regexp.MustCompile("(?i)^\\s*delete")

type delRow struct {
	Seq            int64
	Tbl            string
	ID             int64
	Service        string
	EventID        int64
	Status         int
	EventCreatedAt time.Time
	Inst           int
}

// watchDeletes judges every row that disappears from the tables of the bus.
func (w *busWorld) watchDeletes() {
	var mu sync.Mutex
	var last int64
	w.db.onDone = func(st *simStmt) {
		if st.Kind != "commit" && !reDelete.MatchString(st.SQL) {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		var rows []delRow
		if err := w.db.mon.g.Raw("select * from sim_deleted where seq > ? order by seq", last).Scan(&rows).Error; err != nil {
			panic(err)
		}
		if len(rows) == 0 {
			return
		}
		last = rows[len(rows)-1].Seq
		now := time.Now()
		w.mu.Lock()
		by := map[int]*busSvc{}
		for _, s := range w.svcs {
			for _, i := range s.insts {
				by[i.in.num] = s
			}
		}
		w.mu.Unlock()
		for _, r := range rows {
			svc := by[r.Inst]
			if svc == nil {
				continue // removed by the harness
			}
			if r.Tbl == "delivery" {
				w.c.Count("deliveries_cleaned", 1)
				if r.Status != stOK {
					w.violate("B08", "unfinished-removed", "service %s removed delivery %d of service %s for event %d, whose status is %d", svc.name, r.ID, r.Service, r.EventID, r.Status)
				}
				if r.Service != svc.name {
					w.violate("B08", "foreign-removed", "service %s removed a delivery of service %s for event %d", svc.name, r.Service, r.EventID)
				}
				if age := now.Sub(r.EventCreatedAt); age < svc.retention-time.Millisecond {
					w.violate("B08", "retention", "service %s removed its delivery for event %d, %v old, retention %v", svc.name, r.EventID, age, svc.retention)
				}
				continue
			}
			w.c.Count("events_cleaned", 1)
			var left []spoRow
			w.db.mon.g.Raw("select id,service,event_id,status from ddd_domain_service_event where event_id = ?", r.ID).Scan(&left)
			if len(left) > 0 {
				w.violate("B08", "event-removed", "service %s removed event %d although service %s has a delivery for it with status %d", svc.name, r.ID, left[0].Service, left[0].Status)
			}
		}
	}
}

// cleanEnd judges what is left after everything settled and the cleaners ran.
func (w *busWorld) cleanEnd(crashed bool) {
	var rows []spoRow
	w.db.mon.g.Raw("select s.id,s.service,s.event_id,s.status,s.event_created_at as next_time from ddd_domain_service_event s").Scan(&rows)
	now := time.Now()
	used := map[int64]bool{}
	for _, r := range rows {
		used[r.EventID] = true
		s := w.svcs[r.Service]
		if s == nil || len(w.liveLocked(s)) == 0 {
			continue
		}
		if r.Status == stOK && now.Sub(r.NextTime) > s.retention+2*time.Minute {
			w.violate("B08", "not-cleaned", "service %s still has its succeeded delivery for event %d, %v old with retention %v, after the cleaners ran", r.Service, r.EventID, now.Sub(r.NextTime), s.retention)
		}
	}
	var evs []evRow
	w.db.mon.g.Raw("select id,event_id,event_created_at from ddd_domain_event").Scan(&evs)
	for _, e := range evs {
		if !used[e.ID] && !crashed {
			w.violate("B08", "event-not-cleaned", "event %s (%d) has no delivery left but was not removed", e.EventID, e.ID)
		}
		w.c.Count("events_surviving", 1)
	}
	// what was never finished must still be there
	w.mu.Lock()
	defer w.mu.Unlock()
	okBy := map[string]bool{}
	for _, c := range w.calls {
		if c.out == "ok" {
			okBy[callKey(c.svc, c.ev)] = true
		}
	}
	have := map[string]bool{}
	id := map[int64]string{}
	for _, e := range evs {
		id[e.ID] = e.EventID
	}
	for _, r := range rows {
		have[callKey(r.Service, id[r.EventID])] = true
	}
	for _, ev := range w.order {
		if ev.pub == nil || ev.pub.err != nil || ev.pub.died {
			continue
		}
		for s := range ev.must {
			k := callKey(s, ev.e.ID)
			if !okBy[k] && !have[k] {
				w.c.mu.Lock()
				w.nviol++
				w.c.mu.Unlock()
				w.c.Violate("B08", "delivery-lost", "event %s never succeeded for service %s, but the delivery or the event is gone", ev.e.ID, s)
			}
		}
	}
}

// poolFree: with a small pool every instance gets its connection sooner or later.
func (w *busWorld) poolFree() bool {
	if w.maxConn == 0 {
		return true
	}
	for _, s := range w.svcs {
		for _, i := range w.live(s) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
			cn, err := i.in.sdb.Conn(ctx)
			cancel()
			if err != nil {
				w.violate("B08", "pool-blocked", "the only connection of instance %s is not returned: %v", i.name, err)
				i.in.die()
				return false
			}
			cn.Close()
		}
	}
	return true
}

func busCleanCase(c *C) {
	alignHour()
	r := c.R
	w := newBusWorld(c)
	defer w.finish()
	w.watchDeletes()
	mode := c.Index % 4 // 0 calm, 1 latency, 2 faults, 3 kills
	day := c.Index%5 == 4
	if mode != 3 && c.Index/4%4 == 1 {
		w.maxConn = 1
	}
	if mode >= 1 {
		w.maxLat = time.Duration(1+r.Intn(60)) * time.Millisecond
	}
	if mode >= 2 {
		w.prob = []float64{0.01, 0.03, 0.1}[r.Intn(3)]
		w.kinds = []simFault{fBefore, fAfter}
		if mode == 3 {
			w.kinds = append(w.kinds, fDieBefore, fDieAfter)
			w.prob /= 3
		}
	}
	t0 := time.Now()
	var svcs []*busSvc
	addSvc := func() {
		s := w.newSvc(fmt.Sprintf("svc%d", len(svcs)+1))
		s.runEvery = []time.Duration{5, 20}[r.Intn(2)] * time.Second
		if day {
			s.runEvery = 2 * time.Minute
		}
		s.retention = []time.Duration{0, time.Minute, 5 * time.Minute, 10 * time.Minute}[r.Intn(4)]
		w.planFor(s, []int{0, 20, 50}[r.Intn(3)])
		prev := s.opts
		every := []string{"0 * %s *", "30 * %s *", "0 */2 %s *"}[r.Intn(3)]
		// the cleaners of this case stop with its days
		days := fmt.Sprintf("%d,%d,%d", t0.Day(), t0.AddDate(0, 0, 1).Day(), t0.AddDate(0, 0, 2).Day())
		if !day {
			days = fmt.Sprintf("%d", t0.Day())
		}
		months := fmt.Sprintf("%d,%d", int(t0.Month()), int(t0.AddDate(0, 0, 2).Month()))
		hours := "*"
		if !day {
			hours = fmt.Sprintf("%d", t0.Hour())
		}
		s.opts = func(o *ebmysql.Options) {
			prev(o)
			o.RunInterval = s.runEvery
			o.CleanCron = fmt.Sprintf(every, hours+" "+days+" "+months)
			o.RetentionTime = s.retention
		}
		svcs = append(svcs, s)
		w.mu.Lock()
		on := w.faultOn
		w.faultOn = false
		w.mu.Unlock()
		for k, n := 0, 1+r.Intn(3); k < n; k++ {
			w.newInst(s, true)
		}
		w.mu.Lock()
		w.faultOn = on
		w.mu.Unlock()
	}
	for k, n := 0, 1+r.Intn(3); k < n; k++ {
		addSvc()
	}
	setFault := func(on bool) {
		w.mu.Lock()
		w.faultOn = on
		w.mu.Unlock()
	}
	setFault(mode >= 2)
	senders := []string{"a", "b", "c"}
	types := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}
	pub := func(n int) {
		for _, s := range svcs {
			if l := w.live(s); len(l) > 0 {
				if !w.poolFree() {
					return
				}
				var evs []*busEv
				for j := 0; j < n; j++ {
					evs = append(evs, w.newEvent(senders[r.Intn(len(senders))], types[r.Intn(len(types))]))
				}
				w.publish(l[r.Intn(len(l))], evs)
				return
			}
		}
	}
	shape := ""
	steps := 4 + r.Intn(8)
	for k := 0; k < steps; k++ {
		switch x := r.Intn(10); {
		case x < 6:
			n := 1 + r.Intn(5)
			if r.Intn(3) == 0 {
				n = 8 + r.Intn(20) // several clean-up batches
			}
			pub(n)
			shape += fmt.Sprintf("p%d ", n)
		case x < 7 && mode == 3:
			s := svcs[r.Intn(len(svcs))]
			if l := w.live(s); len(l) > 0 {
				w.kill(l[0])
				shape += "k "
			}
		case x < 8 && len(svcs) < 4:
			addSvc()
			shape += "s "
		case x < 9:
			w.expireOne()
		}
		time.Sleep(time.Duration(r.Intn(120)) * time.Second)
		if day && k == steps/2 {
			time.Sleep(24*time.Hour + time.Duration(r.Intn(3600)-600)*time.Second)
			shape += "day "
			c.Count("day_jumps", 1)
		}
	}
	setFault(false)
	for _, s := range svcs {
		if len(w.live(s)) == 0 && r.Intn(3) > 0 {
			w.newInst(s, true)
		}
	}
	pub(1)
	if !w.poolFree() {
		return
	}
	w.settle()
	crashed := false
	w.mu.Lock()
	crashed = w.faulty
	w.mu.Unlock()
	// let the cleaners see everything that is past retention
	if c.Prop == "B08" {
		time.Sleep(10*time.Minute + 5*time.Minute)
		w.cleanEnd(crashed)
	}
	w.judgeEnd()
	c.Count("events", len(w.order))
	c.Distinct("%d %v %s %d", mode, day, shape, len(w.order))
	c.Sample("%d services, %d events, day jump %v", len(svcs), len(w.order), day)
}

func init() {
	Register("B08", Workload{Name: "busclean", Quick: 100, Thorough: 12000, Long: true, Fn: busCleanCase})
	for _, p := range []string{"B02", "B03", "B04", "B05"} {
		Register(p, Workload{Name: "busclean", Quick: 24, Thorough: 3000, Long: true, Fn: busCleanCase})
	}
}
