package harness

import (
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
)

// planFor draws what the handler of a service does with each event.
func (w *busWorld) planFor(s *busSvc, hostile int) {
	type pl []busOut
	plans := map[int]pl{}
	seed := w.c.R.Int63()
	s.plan = func(ev *busEv, n int) busOut {
		p, ok := plans[ev.n]
		if !ok {
			r := newRand(seed, ev.n)
			kind := r.Intn(100)
			fails := 0
			switch {
			case kind < 100-hostile:
			case kind < 100-hostile/3:
				fails = 1 + r.Intn(s.maxAttempts())
			default:
				fails = 1000
			}
			if ev.fails > 0 {
				fails = ev.fails
			}
			for k := 0; k < 12; k++ {
				o := busOut{what: "ok"}
				if k < fails {
					o.what = []string{"error", "error", "panic"}[r.Intn(3)]
					switch r.Intn(20) {
					case 0:
						o.long = strings.Repeat("x", 65000+r.Intn(1000))
					case 1:
						o.long = strings.Repeat("ü", 32760+r.Intn(20))
					case 2:
						o.long = strings.Repeat("界", 22000) + "x"
					case 3:
						o.long = "\xff\xfe"
					}
				}
				switch r.Intn(6) {
				case 0:
					o.dur = time.Duration(r.Int63n(int64(2 * s.runEvery)))
				case 1:
					o.dur = time.Duration(r.Int63n(int64(s.runEvery / 5)))
				}
				p = append(p, o)
			}
			plans[ev.n] = p
		}
		if n > len(p) {
			return p[len(p)-1]
		}
		return p[n-1]
	}
}

func busCase(c *C) {
	alignHour()
	r := c.R
	w := newBusWorld(c)
	defer w.finish()
	mode := c.Index % 4 // 0: calm, 1: latency, 2: faults, 3: crashes and faults
	if mode >= 1 && r.Intn(2) == 0 {
		w.maxLat = time.Duration(1+r.Intn(40)) * time.Millisecond
	}
	if mode >= 2 {
		w.prob = []float64{0.01, 0.03, 0.1}[r.Intn(3)]
		w.kinds = []simFault{fBefore, fAfter}
		if mode == 3 {
			w.kinds = append(w.kinds, fDieBefore, fDieAfter)
			w.prob /= 2
		}
	}
	nsvc := 1 + r.Intn(3)
	var svcs []*busSvc
	addSvc := func() {
		s := w.newSvc(fmt.Sprintf("svc%d", len(svcs)+1))
		w.planFor(s, []int{0, 30, 60}[r.Intn(3)])
		svcs = append(svcs, s)
		w.mu.Lock()
		on := w.faultOn
		w.faultOn = false
		w.mu.Unlock()
		for k, n := 0, 1+r.Intn(3); k < n; k++ {
			w.newInst(s, k == 0 || r.Intn(4) > 0)
		}
		w.mu.Lock()
		w.faultOn = on
		w.mu.Unlock()
	}
	for k := 0; k < nsvc; k++ {
		addSvc()
	}
	if r.Intn(6) == 0 { // everything is down for days; one service may come back late
		for _, s := range svcs {
			for _, i := range w.live(s) {
				i.in.die()
			}
		}
		time.Sleep(time.Duration(24+r.Intn(60)) * time.Hour)
		late := -1
		if r.Intn(2) == 0 {
			late = 1 + r.Intn(3)
		}
		for k, s := range svcs {
			if k != late {
				w.newInst(s, true)
			}
		}
		c.Count("days_down", 1)
	}
	senders := []string{"a", "b", "c"}[:1+r.Intn(3)]
	types := map[string][]ddd.SendType{}
	for _, s := range senders {
		x := r.Intn(5)
		switch c.Prop {
		case "B04":
			x = []int{1, 2, 4, 4}[r.Intn(4)]
		case "B05":
			x = []int{3, 3, 4}[r.Intn(3)]
		}
		switch x {
		case 0:
			types[s] = []ddd.SendType{ddd.SendTypeNormal}
		case 1, 2:
			types[s] = []ddd.SendType{ddd.SendTypeFIFO}
		case 3:
			types[s] = []ddd.SendType{ddd.SendTypeLaxFIFO}
		default:
			types[s] = []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}
		}
	}
	w.mu.Lock()
	w.faultOn = mode >= 2
	w.mu.Unlock()
	anyInst := func() *busInst {
		for k := 0; k < 20; k++ {
			s := svcs[r.Intn(len(svcs))]
			if l := w.live(s); len(l) > 0 {
				return l[r.Intn(len(l))]
			}
		}
		return nil
	}
	restart := func(s *busSvc) {
		w.mu.Lock()
		on := w.faultOn
		w.faultOn = false
		w.mu.Unlock()
		w.newInst(s, true)
		w.mu.Lock()
		w.faultOn = on
		w.mu.Unlock()
	}
	shape := ""
	burst := r.Intn(40) == 0 || (c.Prop == "B04" || c.Prop == "B05") && r.Intn(20) == 0
	for k, n := 0, 6+r.Intn(18); k < n; k++ {
		if i := anyInst(); burst && k == 4 && i != nil {
			// Many unordered events of a sender lie between two ordered ones,
			// the first of which takes several attempts.
			sd := senders[r.Intn(len(senders))]
			ordered := func(fails int) {
				t := ddd.SendTypeFIFO
				if c.Prop == "B05" || c.Prop != "B04" && r.Intn(2) == 0 {
					t = ddd.SendTypeLaxFIFO
				}
				e := w.newEvent(sd, t)
				e.fails = fails
				w.publish(i, []*busEv{e})
			}
			ordered(2)
			for m := 90 + r.Intn(150); m > 0; m -= 30 {
				var evs []*busEv
				for j := 0; j < 30; j++ {
					evs = append(evs, w.newEvent(sd, ddd.SendTypeNormal))
				}
				w.publish(i, evs)
			}
			ordered(0)
			shape += "b "
			c.Count("bursts", 1)
		}
		switch x := r.Intn(20); {
		case x < 11:
			i := anyInst()
			if i == nil {
				restart(svcs[0])
				continue
			}
			var evs []*busEv
			for j, m := 0, 1+r.Intn(4); j < m; j++ {
				sd := senders[r.Intn(len(senders))]
				t := types[sd]
				if r.Intn(20) == 0 {
					sd, t = "", []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}
				}
				evs = append(evs, w.newEvent(sd, t[r.Intn(len(t))]))
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
				}
			}
			p := w.publish(i, evs)
			shape += fmt.Sprintf("p%d%v ", len(evs), p.err != nil || p.died)
		case x < 14:
			if i := anyInst(); i != nil {
				for j, m := 0, 1+r.Intn(3); j < m; j++ {
					i.trigger()
				}
				shape += "t "
			}
		case x < 16:
			if mode == 3 {
				if i := anyInst(); i != nil {
					w.kill(i)
					shape += "k "
				}
			}
		case x < 17:
			if len(svcs) < 4 {
				addSvc()
				shape += "s "
			}
		case x < 18:
			if mode == 3 {
				restart(svcs[r.Intn(len(svcs))])
				shape += "r "
			}
			if mode == 2 {
				w.removeOne()
			}
		case x < 19:
			w.expireOne()
		}
		switch r.Intn(4) {
		case 0:
			time.Sleep(time.Duration(r.Intn(5000)) * time.Millisecond)
		case 1, 2:
			time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		}
	}
	w.mu.Lock()
	w.faultOn = false
	w.mu.Unlock()
	for _, s := range svcs {
		n := 0
		for _, i := range w.live(s) {
			if i.started {
				n++
			}
		}
		if n == 0 {
			w.newInst(s, true)
		}
	}
	w.settle()
	if r.Intn(3) == 0 { // an operator gives up on failed strictly ordered events
		for k := 0; k < 3 && w.expireOne(); k++ {
		}
		w.settle()
	}
	w.judgeEnd()
	nc := map[string]int{}
	for _, x := range w.calls {
		nc[x.out]++
	}
	c.Count("events", len(w.order))
	c.Distinct("%d %s %v %d %d", mode, shape, nc, len(svcs), len(w.order))
	c.Sample("%d services, %d events, handler outcomes %v, %d faults", len(svcs), len(w.order), nc, w.db.nfault)
}

// expireOne marks a failed delivery expired, as the operators do.
func (w *busWorld) expireOne() bool {
	var id []int64
	w.db.mon.g.Raw("select id from ddd_domain_service_event where status = ? order by id limit 1", stFailed).Scan(&id)
	if len(id) == 0 {
		return false
	}
	w.db.mon.g.Exec("update ddd_domain_service_event set status = ? where id = ? and status = ?", stExpired, id[0], stFailed)
	w.c.Count("expired_by_operator", 1)
	return true
}

// removeOne removes an event row by hand and leaves its deliveries.
func (w *busWorld) removeOne() {
	var id []string
	w.db.mon.g.Raw("select e.event_id from ddd_domain_event e where exists (select 1 from ddd_domain_service_event s where s.event_id = e.id and s.status = ?) order by e.id limit 1", stInit).Scan(&id)
	if len(id) == 0 {
		return
	}
	w.mu.Lock()
	w.evs[id[0]].gone = true
	w.mu.Unlock()
	w.db.mon.g.Exec("delete from ddd_domain_event where event_id = ?", id[0])
	w.c.Count("events_removed_by_hand", 1)
}

func init() {
	for _, p := range []string{"B01", "B02", "B03", "B04", "B05", "B06", "B09"} {
		Register(p, Workload{Name: "bus", Quick: 400, Thorough: 30000, Long: true, Fn: busCase})
	}
}
