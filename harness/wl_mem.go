package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"reflect"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"
)

type mbCall struct {
	evt      *ddd.DomainEvent
	from, to time.Time
}

// memCase: dispatchers, a started in-memory bus, failing handlers, an end.
func memCase(c *C) {
	r := c.R
	log.SetOutput(io.Discard)
	capacity := []int{0, 1, 2, 5, 100, 5000}[r.Intn(6)]
	bus := mem.NewEventBus(capacity)
	var mu sync.Mutex
	var calls []*mbCall
	type sent struct {
		evt  *ddd.DomainEvent
		copy ddd.DomainEvent
		by   int
		ret  time.Time
		err  error
	}
	all := map[string]*sent{}
	order := map[int][]string{}
	seed := newRand(c.Seed, c.Index*2+1)
	intn := func(n int) int { mu.Lock(); defer mu.Unlock(); return seed.Intn(n) }
	dispatch := func(ctx context.Context, by, n int) {
		evts := make([]*ddd.DomainEvent, n)
		mu.Lock()
		for i := range evts {
			id := fmt.Sprintf("e%d-%d", by, len(order[by]))
			evts[i] = &ddd.DomainEvent{ID: id, Type: ddd.EventType(fmt.Sprintf("t%d", seed.Intn(3))), SendType: []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[seed.Intn(3)],
				Sender: fmt.Sprintf("s%d", seed.Intn(3)), Payload: []byte(id), CreatedAt: time.Now()}
			all[id] = &sent{evt: evts[i], copy: *evts[i], by: by}
			order[by] = append(order[by], id)
		}
		mu.Unlock()
		err := bus.Dispatch(ctx, evts...)
		mu.Lock()
		for _, e := range evts {
			all[e.ID].ret, all[e.ID].err = time.Now(), err
		}
		mu.Unlock()
	}
	active, overlap := 0, 0
	failures, again := 0, 0
	var h ddd.DomainEventHandler
	register := func() { // what every command of an engine does
		if intn(4) == 0 {
			bus.RegisterEventHandler(h)
			c.Count("registrations", 1)
		}
	}
	h = func(ctx context.Context, e *ddd.DomainEvent) error {
		mu.Lock()
		call := &mbCall{evt: e, from: time.Now()}
		calls = append(calls, call)
		if active++; active > 1 {
			overlap++
		}
		d := []time.Duration{0, 0, 0, 1, 10, 200}[seed.Intn(6)] * time.Millisecond
		out := seed.Intn(8)
		more := capacity == 5000 && seed.Intn(5) == 0 && again < 20
		if more {
			again++
		}
		mu.Unlock()
		defer func() { mu.Lock(); active--; call.to = time.Now(); mu.Unlock() }()
		time.Sleep(d)
		register()
		if more {
			dispatch(ctx, 100, 1+intn(2))
		}
		switch out {
		case 0, 1:
			mu.Lock()
			failures++
			mu.Unlock()
			return errors.New("handler failed")
		case 2:
			mu.Lock()
			failures++
			mu.Unlock()
			panic(injected{"handler"})
		}
		return nil
	}
	bus.RegisterEventHandler(h)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	stopEarly := r.Intn(2) == 0
	ndisp, nstart := 1+r.Intn(4), 1+r.Intn(4)
	var cancelled time.Time
	var wg sync.WaitGroup
	for i := 0; i < ndisp; i++ {
		n := 1 + r.Intn(12)
		go func() {
			for j := 0; j < n; j++ {
				time.Sleep([]time.Duration{0, 0, 1, 5, 100}[intn(5)] * time.Millisecond)
				register()
				dispatch(context.Background(), i, 1+intn(4))
			}
		}()
	}
	for i := 0; i < nstart; i++ {
		d := time.Duration(r.Intn(60)) * time.Millisecond
		if r.Intn(3) == 0 {
			d = 0
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			bus.Start(ctx)
		}()
	}
	wg.Wait()
	if stopEarly {
		time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
	} else {
		time.Sleep(time.Hour)
	}
	// judged before the end of the context
	mu.Lock()
	pending := 0
	for _, s := range all {
		if s.ret.IsZero() {
			pending++
		}
	}
	mu.Unlock()
	cancel()
	cancelled = time.Now()
	if r.Intn(2) == 0 {
		go dispatch(context.Background(), 101, 1+r.Intn(3))
	}
	time.Sleep(time.Duration(1+r.Intn(500)) * time.Millisecond)
	if r.Intn(2) == 0 {
		bus.Start(ctx)
	}
	time.Sleep(10 * time.Minute)
	mu.Lock()
	defer mu.Unlock()
	nv := 0
	violate := func(sig, f string, a ...any) {
		if nv++; nv < 5 {
			c.Violate("B10", sig, f, a...)
		}
	}
	if overlap > 0 {
		violate("overlap", "%d handler calls began while another one was running (started %d times)", overlap, nstart)
	}
	seen := map[string]int{}
	last := map[int]int{}
	late := 0
	shape := []string{}
	for _, k := range calls {
		s := all[k.evt.ID]
		if s == nil {
			violate("unknown-event", "an event that nobody dispatched was handled: %+v", *k.evt)
			continue
		}
		if !reflect.DeepEqual(*k.evt, s.copy) {
			violate("event-changed", "the handler got %+v for %+v", *k.evt, s.copy)
		}
		shape = append(shape, fmt.Sprint(s.by))
		if seen[k.evt.ID]++; seen[k.evt.ID] > 1 {
			violate("repeated", "event %s was handled %d times", k.evt.ID, seen[k.evt.ID])
		}
		pos := -1
		for i, id := range order[s.by] {
			if id == k.evt.ID {
				pos = i + 1
			}
		}
		if s.by < 100 && pos <= last[s.by] {
			violate("order", "event %s of dispatcher %d was handled after event number %d", k.evt.ID, s.by, last[s.by])
		}
		last[s.by] = pos
		if k.from.After(cancelled) {
			late++
			violate("after-end", "event %s was handed to the handler at %v, the context of the bus ended at %v", k.evt.ID, k.from, cancelled)
		}
	}
	if !stopEarly {
		if pending > 0 {
			violate("blocked", "%d events could not be dispatched within an hour although the bus was running", pending)
		}
		for id, s := range all {
			if s.by != 101 && seen[id] == 0 && s.err == nil && !s.ret.IsZero() {
				violate("lost", "event %s was dispatched, but not handled", id)
			}
			if s.by != 101 && s.err != nil && s.ret.Before(cancelled) {
				violate("dispatch-error", "dispatching %s failed: %v", id, s.err)
			}
		}
	}
	c.Count("events_dispatched", len(all))
	c.Count("handler_calls", len(calls))
	c.Count("handler_failures", failures)
	c.Count("stops", 1)
	if nstart > 1 {
		c.Count("started_repeatedly", 1)
	}
	c.Distinct("%d %d %v %s", capacity, nstart, stopEarly, strings.Join(shape, ""))
	c.Sample("capacity %d, started %d times, dispatchers in handling order %s", capacity, nstart, strings.Join(shape, " "))
}

func init() {
	Register("B10", Workload{Name: "mem", Quick: 16000, Thorough: 600000, Long: true, CPU: 20 * time.Second, Fn: memCase})
}
