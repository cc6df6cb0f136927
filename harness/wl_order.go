package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/bytedance/dddfirework/example/biz/sale/application/query"
	"github.com/bytedance/dddfirework/example/biz/sale/infrastructure"
	orderpo "github.com/bytedance/dddfirework/example/biz/sale/infrastructure/po"
	"github.com/bytedance/dddfirework/example/handler"
	"github.com/bytedance/dddfirework/example/handler/util"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
)

// The order service of the example, driven over HTTP by several clients; what
// they were told is compared with what is stored, reported and published.

type orWorld struct {
	c       *C
	mu      sync.Mutex
	rnd     *rand.Rand
	db      *simDB // the orders; the simulated server has one writer at a time, so locks and events have their own
	lk, ev  *simDB
	faultOn bool
	prob    float64
	maxLat  time.Duration
	http    []http.HandlerFunc
	orders  []*orOrder
	calls   []*orCall
	events  map[string]*orEvent
	nv      int
	nitem   int
	conc    bool
	nstat   map[string]int
	listed  map[string]bool
}

// orListed are the signatures of the defects of the example that are listed as
// findings; they do not use up the reports of a case.
var orListed = map[string]bool{"items-unreported": true, "list-by-time-fails": true, "total-of-last-addition": true, "coupon-event-type": true}

// orOrder is what the clients asked of one order.
type orOrder struct {
	id, user string
	born     time.Time
	calls    []*orCall // guarded by orWorld.mu
}

// orCall is a request that changes an order.
type orCall struct {
	what       string // create item coupon remark delete
	items      []orItem
	coupons    []orCoupon
	remark     *string
	start, end time.Time
	over       bool
	ok         bool
	maybe      bool // failed, but faults were injected meanwhile
}

type orItem struct {
	Code, Name string
	Price      int64
	Count      int32
}

type orCoupon struct {
	ID, Rule string
	Discount int64
}

type orEvent struct {
	typ     string
	payload struct{ OrderID, SaleItemID, CouponID string }
	sender  string
}

func (w *orWorld) rint(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

func (w *orWorld) violate(sig, f string, a ...any) {
	w.c.mu.Lock()
	n := w.nv
	if w.listed[sig] {
		n = 99
	} else if orListed[sig] {
		w.listed[sig], n = true, 0
	} else {
		w.nv++
	}
	w.c.mu.Unlock()
	if n > 5 {
		return
	}
	msg := fmt.Sprintf(f, a...)
	var l []string
	for _, d := range []*simDB{w.db, w.ev, w.lk} {
		d.mu.Lock()
		tr := d.trace
		if len(tr) > 30 {
			tr = tr[len(tr)-30:]
		}
		for i := range tr {
			l = append(l, cut(tr[i].String(), 260))
		}
		d.mu.Unlock()
	}
	report := w.c.Violate
	if orListed[sig] {
		report = w.c.Listed
	}
	report("E02", sig, "%s\nlast statements:\n%s", msg, cut(strings.Join(l, "\n"), 9000))
}

// call sends a request to one of the processes.
func (w *orWorld) call(action string, req any, resp any) (ok bool) {
	b, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	h := w.http[w.rint(len(w.http))]
	rec := httptest.NewRecorder()
	h(rec, httptest.NewRequest("POST", "/?Action="+action, strings.NewReader(string(b))))
	ok = rec.Code == 200
	w.mu.Lock()
	w.nstat[fmt.Sprintf("%s %v", action, ok)]++
	w.mu.Unlock()
	w.c.Count("requests", 1)
	if !ok {
		w.c.Count("requests_failed", 1)
		return false
	}
	if resp != nil {
		if err := json.Unmarshal(rec.Body.Bytes(), resp); err != nil {
			w.violate("reply", "%s %s replies %q: %v", action, b, rec.Body.String(), err)
			return false
		}
	}
	return true
}

func (w *orWorld) process(k int) {
	name := fmt.Sprintf("shop%d", k)
	in := w.db.newInst(name)
	bus := ebmysql.NewEventBus("svc_example", w.ev.newInst(name).g, w.options)
	bus.Start(context.Background())
	lock := dblock.NewDBLock(w.lk.newInst(name).g, 10*time.Minute, func(o *dblock.Options) { o.Logger, o.Retry = discard, k > 0 })
	eng := ddd.NewEngine(lock, exmysql.NewExecutor(in.g), append(bus.Options(), ddd.WithLogger(discard))...)
	query.Init(in.g)
	w.http = append(w.http, util.Handler(handler.NewSaleService(eng)))
}

func (w *orWorld) options(o *ebmysql.Options) {
	o.RunInterval, o.Logger, o.CleanCron = time.Second, discard, "0 0 0 1 1 *"
	o.RetryStrategy = &ebmysql.LimitRetry{Limit: 1 << 20}
}

func (w *orWorld) audit() {
	bus := ebmysql.NewEventBus("audit", w.ev.newInst("audit").g, w.options)
	bus.RegisterEventHandler(func(ctx context.Context, d *ddd.DomainEvent) error {
		e := &orEvent{typ: string(d.Type), sender: d.Sender}
		if err := json.Unmarshal(d.Payload, &e.payload); err != nil {
			w.violate("payload", "event %s of type %s: %v", d.Payload, d.Type, err)
		}
		w.mu.Lock()
		w.events[d.ID] = e
		w.mu.Unlock()
		w.c.Count("events", 1)
		return nil
	})
	bus.Start(context.Background())
}

func (w *orWorld) item() orItem {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nitem++
	return orItem{Code: fmt.Sprintf("c%d", w.nitem), Name: []string{"pen", "笔", "a 'quoted' name", ""}[w.rnd.Intn(4)],
		Price: w.rnd.Int63n(1000), Count: int32(w.rnd.Intn(5))}
}

func (w *orWorld) coupon() orCoupon {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nitem++
	return orCoupon{ID: fmt.Sprintf("k%d", w.nitem), Rule: fmt.Sprintf("rule %d", w.nitem), Discount: w.rnd.Int63n(300)}
}

// begin and finish record a changing request.
func (w *orWorld) begin(o *orOrder, c *orCall) *orCall {
	w.mu.Lock()
	defer w.mu.Unlock()
	c.start = time.Now()
	if o != nil {
		o.calls = append(o.calls, c)
	}
	w.calls = append(w.calls, c)
	return c
}

func (w *orWorld) finish(c *orCall, ok bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	c.end, c.over, c.ok = time.Now(), true, ok
	c.maybe = !ok && (w.faultOn || w.timeouts() > 0)
}

// timeouts counts lock waits that were given up: the simulated server has one
// writer at a time and so lets clients wait for each other that would not.
func (w *orWorld) timeouts() (n int) {
	for _, d := range []*simDB{w.db, w.lk, w.ev} {
		d.mu.Lock()
		n += int(d.ntimeo)
		d.mu.Unlock()
	}
	return n
}

func (w *orWorld) create() {
	c := &orCall{what: "create"}
	for n := w.rint(4); n > 0; n-- {
		c.items = append(c.items, w.item())
	}
	for n := w.rint(3); n > 0; n-- {
		c.coupons = append(c.coupons, w.coupon())
	}
	o := &orOrder{user: fmt.Sprintf("u%d", w.rint(3))}
	w.begin(nil, c)
	var r struct{ OrderID string }
	items := c.items
	if items == nil {
		items = []orItem{}
	}
	ok := w.call("CreateOrder", map[string]any{"User": o.user, "Items": items, "Coupons": c.coupons}, &r)
	w.finish(c, ok)
	if !ok {
		if !c.maybe {
			w.violate("refused", "an order with %d items and %d coupons is not created, nothing having failed", len(c.items), len(c.coupons))
		}
		return
	}
	o.id, o.born = r.OrderID, c.start
	w.mu.Lock()
	for _, x := range w.orders {
		if x.id == o.id {
			o.id = ""
		}
	}
	o.calls = append(o.calls, c)
	if o.id != "" {
		w.orders = append(w.orders, o)
	}
	w.mu.Unlock()
	if o.id == "" {
		w.violate("order-id", "a created order gets the id %q", r.OrderID)
	}
}

func (w *orWorld) pick() *orOrder {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.orders) == 0 {
		return nil
	}
	return w.orders[w.rnd.Intn(len(w.orders))]
}

func (w *orWorld) change(o *orOrder, what string) {
	c := &orCall{what: what}
	var ok bool
	switch what {
	case "item":
		c.items = []orItem{w.item()}
		w.begin(o, c)
		ok = w.call("AddSaleItem", map[string]any{"OrderID": o.id, "Item": c.items[0]}, nil)
	case "coupon":
		c.coupons = []orCoupon{w.coupon()}
		w.begin(o, c)
		ok = w.call("AddCoupon", map[string]any{"OrderID": o.id, "Coupon": c.coupons[0]}, nil)
	case "remark":
		m := map[string]any{"ID": o.id}
		if k := w.rint(6); k > 0 {
			s := fmt.Sprintf("remark %d", w.rint(1000))
			if k == 1 {
				s = ""
			}
			c.remark, m["Remark"] = &s, s
		}
		w.begin(o, c)
		ok = w.call("UpdateOrder", m, nil)
	case "delete":
		w.begin(o, c)
		ok = w.call("DeleteOrder", map[string]any{"ID": o.id}, nil)
	}
	w.finish(c, ok)
	w.mu.Lock()
	overlap, gone := false, false
	for _, x := range o.calls {
		if x != c && x.what != "create" && (!x.over || !x.end.Before(c.start)) {
			overlap = true
		}
		if x != c && x.what == "delete" && (x.ok || x.maybe || !x.over) {
			gone = true
		}
	}
	w.mu.Unlock()
	if !ok && !c.maybe && !overlap && !gone {
		w.violate("refused", "%s of order %s fails although nothing failed and nobody else uses the order", what, o.id)
	}
	if ok && what != "delete" {
		w.mu.Lock()
		for _, x := range o.calls {
			if x.what == "delete" && x.ok && x.end.Before(c.start) {
				gone = true
				w.mu.Unlock()
				w.violate("zombie", "%s of order %s succeeds after the order was deleted", what, o.id)
				return
			}
		}
		w.mu.Unlock()
	}
}

// bad sends a request that cannot be meant.
func (w *orWorld) bad(o *orOrder) {
	action, body := "AddSaleItem", ""
	switch w.rint(4) {
	case 0:
		action, body = "PayOrder", "{}"
	case 1:
		body = `{"OrderID": "` + o.id + `", "Item": {"Code": "x", "Pri`
	case 2:
		body = `{"OrderID": "` + o.id + `", "Item": {"Code": "x", "Price": "12", "Count": 1}}`
	case 3:
		body = `{"OrderID": "no` + o.id + `", "Item": {"Code": "x", "Price": 12, "Count": 1}}`
	}
	rec := httptest.NewRecorder()
	w.http[w.rint(len(w.http))](rec, httptest.NewRequest("POST", "/?Action="+action, strings.NewReader(body)))
	if rec.Code == 200 {
		w.violate("accepted", "%s %s is answered with %q", action, body, rec.Body.String())
	}
	w.c.Count("bad_requests", 1)
}

type orReply struct {
	Order *struct {
		ID, UserID  string
		TotalAmount int64
		Items       []orItem
		Coupons     []orCoupon
	}
}

func itemKey(i orItem) string {
	return fmt.Sprintf("item %q %q %d×%d", i.Code, i.Name, i.Price, i.Count)
}
func couponKey(i orCoupon) string {
	return fmt.Sprintf("coupon %q -%d", i.Rule, i.Discount) // the id reported is that of the row or of the coupon
}

func sorted[T any](l []T, f func(T) string) []string {
	r := make([]string, 0, len(l))
	for _, x := range l {
		r = append(r, f(x))
	}
	sort.Strings(r)
	return r
}

// get reads an order and compares the reply with the calls that were over
// before, and those that had begun when the reply came.
func (w *orWorld) get(o *orOrder, calm bool) *orReply {
	w.mu.Lock()
	start := time.Now()
	w.mu.Unlock()
	var r orReply
	ok := w.call("GetOrder", map[string]any{"ID": o.id}, &r)
	w.mu.Lock()
	faults := w.faultOn
	must, may := map[string]int{}, map[string]int{}
	total, quiet := int64(0), true
	deleted, deleting := false, false
	for _, x := range o.calls {
		before := x.over && x.end.Before(start)
		quiet = quiet && before
		if x.what == "delete" {
			deleted = deleted || before && x.ok
			deleting = deleting || !x.over || x.ok || x.maybe
		}
		if before && !x.ok && !x.maybe {
			continue
		}
		for _, i := range x.items {
			may[itemKey(i)]++
			if before && x.ok {
				must[itemKey(i)]++
				total += i.Price * int64(i.Count)
			}
		}
		for _, k := range x.coupons {
			may[couponKey(k)]++
			if before && x.ok {
				must[couponKey(k)]++
				total -= k.Discount
			}
		}
		quiet = quiet && !x.maybe
	}
	w.mu.Unlock()
	if !ok {
		if !faults && !deleting && w.timeouts() == 0 {
			w.violate("not-found", "order %s exists and is not reported", o.id)
		}
		return nil
	}
	if r.Order == nil {
		w.violate("reply", "order %s is reported as nothing", o.id)
		return nil
	}
	if deleted {
		w.violate("deleted-reported", "order %s is reported after its deletion", o.id)
		return nil
	}
	w.c.Count("reads", 1)
	if r.Order.ID != o.id || r.Order.UserID != o.user {
		w.violate("reported-order", "order %s of %s is reported as %s of %s", o.id, o.user, r.Order.ID, r.Order.UserID)
	}
	got := map[string]int{}
	for _, k := range append(sorted(r.Order.Items, itemKey), sorted(r.Order.Coupons, couponKey)...) {
		got[k]++
	}
	if len(r.Order.Items) == 0 {
		for k := range must {
			if !strings.HasPrefix(k, "item ") {
				continue
			}
			w.violate("items-unreported", "order %s has the item %s, no item is reported", o.id, k)
			delete(must, k)
		}
	}
	for k, n := range must {
		if got[k] < n {
			w.violate("missing", "order %s has the item or coupon %s, which is not reported: %v", o.id, k, got)
			return nil
		}
	}
	for k, n := range got {
		if n > may[k] {
			w.violate("surplus", "order %s is reported with the item or coupon %s %d times, it was added %d times", o.id, k, n, may[k])
			return nil
		}
	}
	if quiet && r.Order.TotalAmount != total {
		w.violate(w.totalSig("total", o, r.Order.TotalAmount), "order %s: total %d reported, items %v and coupons %v cost %d", o.id, r.Order.TotalAmount, r.Order.Items, r.Order.Coupons, total)
	}
	return &r
}

func (w *orWorld) byID(id string) *orOrder {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, o := range w.orders {
		if o.id == id {
			return o
		}
	}
	return nil
}

// totalSig tells a total that is the price of one added item or coupon alone
// (a listed finding) from any other wrong total.
func (w *orWorld) totalSig(sig string, o *orOrder, total int64) string {
	if o == nil {
		return sig
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range o.calls {
		if x.over && !x.ok && !x.maybe {
			continue
		}
		if x.what == "item" && total == x.items[0].Price*int64(x.items[0].Count) || x.what == "coupon" && total == -x.coupons[0].Discount {
			return "total-of-last-addition"
		}
	}
	return sig
}

// list compares the list with the stored orders; nobody changes them meanwhile.
func (w *orWorld) list(rows []orderpo.OrderPO) {
	w.mu.Lock()
	m := map[string]any{}
	user := ""
	var lo, hi time.Time
	limit, offset := -1, 0
	if w.rnd.Intn(2) == 0 {
		user = fmt.Sprintf("u%d", w.rnd.Intn(4))
		m["UserID"] = user
	}
	if w.rnd.Intn(2) == 0 {
		limit = 1 + w.rnd.Intn(5)
		m["Limit"] = limit
		if w.rnd.Intn(2) == 0 {
			offset = w.rnd.Intn(5)
			m["Offset"] = offset
		}
	}
	if len(rows) > 0 && w.rnd.Intn(2) == 0 {
		lo = rows[w.rnd.Intn(len(rows))].CreatedAt.Add(-time.Minute).Truncate(time.Second)
		m["CreateTimeBegin"] = lo.Unix()
	}
	if len(rows) > 0 && w.rnd.Intn(2) == 0 {
		hi = rows[w.rnd.Intn(len(rows))].CreatedAt.Add(time.Minute).Truncate(time.Second)
		m["CreateTimeEnd"] = hi.Unix()
	}
	w.mu.Unlock()
	want := map[string]int64{}
	for _, r := range rows {
		if user != "" && r.User != user || !lo.IsZero() && !r.CreatedAt.After(lo) || !hi.IsZero() && !r.CreatedAt.Before(hi) {
			continue
		}
		want[r.ID] = r.TotalAmount
	}
	var r struct {
		Items []struct {
			ID, UserID  string
			TotalAmount int64
		}
	}
	if !w.call("GetOrderList", m, &r) {
		sig := "list-failed"
		if !lo.IsZero() || !hi.IsZero() {
			sig = "list-by-time-fails"
		}
		w.violate(sig, "the list of orders %v fails", m)
		return
	}
	n := len(want) - offset
	if n < 0 {
		n = 0
	}
	if limit >= 0 && n > limit {
		n = limit
	}
	seen := map[string]bool{}
	for _, x := range r.Items {
		t, ok := want[x.ID]
		if !ok || seen[x.ID] || t != x.TotalAmount {
			w.violate("list", "the list %v reports %+v; stored are %v", m, r.Items, want)
			return
		}
		seen[x.ID] = true
	}
	if len(r.Items) != n {
		w.violate("list", "the list %v has %d orders of %d: %+v; stored are %v", m, len(r.Items), n, r.Items, want)
	}
	w.c.Count("lists", 1)
}

func orderCase(c *C) {
	alignHour()
	orderSetup.Do(infrastructure.Init)
	r := c.R
	w := &orWorld{c: c, rnd: rand.New(rand.NewSource(r.Int63())), events: map[string]*orEvent{}, db: newSimDB(), lk: newSimDB(), ev: newSimDB(), nstat: map[string]int{}, listed: map[string]bool{}}
	for _, d := range []*simDB{w.db, w.lk, w.ev} {
		d.tracing = true
		d.lat = func(*simStmt) time.Duration {
			w.mu.Lock()
			defer w.mu.Unlock()
			if w.maxLat == 0 || w.rnd.Intn(3) > 0 {
				return 0
			}
			return time.Duration(w.rnd.Int63n(int64(w.maxLat)))
		}
		d.onStmt = func(*simStmt) simFault {
			w.mu.Lock()
			defer w.mu.Unlock()
			if !w.faultOn || w.rnd.Float64() >= w.prob {
				return fNone
			}
			return []simFault{fBefore, fAfter}[w.rnd.Intn(2)]
		}
	}
	mode := c.Index % 3 // 0: one client, 1: several, 2: several and faults
	for k := 0; k <= r.Intn(3); k++ {
		w.process(k)
	}
	w.audit()
	defer func() {
		for _, d := range []*simDB{w.db, w.lk, w.ev} {
			for _, i := range d.insts {
				if i != d.mon {
					i.die()
				}
			}
		}
		time.Sleep(10 * time.Second)
		for _, d := range []*simDB{w.db, w.lk, w.ev} {
			c.Count("statements", int(d.nstmt))
			c.Count("faults_injected", int(d.nfault))
			d.close()
		}
	}()
	for k := 1 + r.Intn(3); k > 0; k-- {
		w.create()
		time.Sleep(time.Duration(r.Intn(100)) * time.Second)
	}
	clients := 1
	if mode > 0 {
		clients = 2 + r.Intn(4)
		w.maxLat = time.Duration(1+r.Intn(40)) * time.Millisecond
		w.prob = []float64{0.01, 0.03}[r.Intn(2)]
		w.mu.Lock()
		w.faultOn = mode == 2
		w.mu.Unlock()
	}
	var wg sync.WaitGroup
	for ; clients > 0; clients-- {
		wg.Add(1)
		n := 4 + r.Intn(12)
		go func() {
			defer wg.Done()
			for ; n > 0; n-- {
				o := w.pick()
				switch x := w.rint(20); {
				case x < 3 || o == nil:
					w.create()
				case x < 8:
					w.change(o, "item")
				case x < 11:
					w.change(o, "coupon")
				case x < 14:
					w.change(o, "remark")
				case x < 15:
					w.change(o, "delete")
				case x < 16:
					w.bad(o)
				default:
					w.get(o, false)
				}
				if w.rint(3) == 0 {
					time.Sleep(time.Duration(w.rint(500)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	w.mu.Lock()
	w.faultOn = false
	w.mu.Unlock()
	w.judge()
	c.Count("orders", len(w.orders))
	c.Distinct("%d %v", mode, w.nstat)
	c.Sample("mode %d, %d processes: %d orders, replies %v, %d events, %d faults", mode, len(w.http), len(w.orders), w.nstat, len(w.events), w.db.nfault+w.lk.nfault+w.ev.nfault)
}

func (w *orWorld) judge() {
	for begun := time.Now(); ; {
		time.Sleep(time.Second)
		var n int
		if err := w.ev.mon.g.Raw("select count(*) from ddd_domain_service_event where status <> ?", stOK).Scan(&n).Error; err != nil {
			panic(err)
		}
		if n == 0 {
			break
		}
		if time.Since(begun) > 10*time.Minute {
			w.violate("stuck", "%d deliveries are left", n)
			return
		}
	}
	var rows []orderpo.OrderPO
	var items []orderpo.SaleItemPO
	var coupons []orderpo.CouponPO
	g := w.db.mon.g
	for _, err := range []error{g.Find(&rows).Error, g.Find(&items).Error, g.Find(&coupons).Error} {
		if err != nil {
			panic(err)
		}
	}
	byID := map[string]*orderpo.OrderPO{}
	total := map[string]int64{}
	for i := range rows {
		byID[rows[i].ID] = &rows[i]
	}
	for _, i := range items {
		total[i.OrderID] += i.Price * int64(i.Count)
	}
	for _, i := range coupons {
		total[i.OrderID] -= i.Discount
	}
	for _, r := range rows {
		if r.TotalAmount != total[r.ID] {
			w.violate(w.totalSig("stored-total", w.byID(r.ID), r.TotalAmount), "order %s is stored with total %d, its items and coupons cost %d", r.ID, r.TotalAmount, total[r.ID])
		}
	}
	sent := map[string]int{}
	kinds := map[string]string{}
	w.mu.Lock()
	for id, e := range w.events {
		kind, key := "order", "order "+e.payload.OrderID
		switch {
		case e.payload.SaleItemID != "":
			kind, key = "item", "item "+e.payload.SaleItemID
		case e.payload.CouponID != "":
			kind, key = "coupon", "coupon "+e.payload.OrderID+" "+e.payload.CouponID
		default:
			kind, key = e.typ, e.typ+" "+e.payload.OrderID
		}
		sent[key]++
		if k := kinds[e.typ]; k != "" && k != kind {
			sig := "event-type"
			if (k == "item" || k == "coupon") && (kind == "item" || kind == "coupon") {
				sig = "coupon-event-type"
			}
			w.mu.Unlock()
			w.violate(sig, "event %s: the type %s is that of %s events and of %s events", id, e.typ, k, kind)
			if sig == "event-type" {
				return
			}
			w.mu.Lock()
		}
		kinds[e.typ] = kind
		if e.sender != e.payload.OrderID || e.sender == "" {
			w.mu.Unlock()
			w.violate("event-order", "event %s of type %s has sender %q and order %q", id, e.typ, e.sender, e.payload.OrderID)
			return
		}
	}
	w.mu.Unlock()
	once := func(key string, sure bool) {
		n := sent[key]
		if n > 1 || n == 0 && sure {
			w.violate("event-count", "%d events for %s, want 1", n, key)
		}
		delete(sent, key)
	}
	sure := map[string]bool{} // items and coupons whose request succeeded
	for _, x := range w.calls {
		if x.ok {
			for _, i := range x.items {
				sure[i.Code] = true
			}
			for _, i := range x.coupons {
				sure[i.ID] = true
			}
		}
	}
	for _, i := range items {
		once("item "+i.ID, sure[i.Code])
	}
	for _, i := range coupons {
		once("coupon "+i.OrderID+" "+i.CouponID, sure[i.CouponID])
	}
	failed := false
	for _, x := range w.calls {
		failed = failed || x.maybe
	}
	for k := range sent {
		if failed { // events are sent before the transaction is committed, which may fail
			break
		}
		if strings.HasPrefix(k, "item ") || strings.HasPrefix(k, "coupon ") {
			w.violate("phantom-event", "an event for %s, which is not stored", k)
		}
	}
	for _, o := range w.orders {
		if n := sent["order_created "+o.id]; n != 1 {
			w.violate("event-count", "%d events tell the creation of order %s", n, o.id)
		}
		r := byID[o.id]
		deleted, mayDelete := false, false
		var remarks []string
		def := "-"
		for k, x := range o.calls {
			if x.what == "delete" {
				deleted, mayDelete = deleted || x.ok, mayDelete || x.maybe
			}
			if x.remark == nil || !x.ok && !x.maybe {
				continue
			}
			late := true
			for j, y := range o.calls {
				late = late && !(j != k && y.remark != nil && y.ok && y.start.After(x.end))
			}
			if late {
				remarks = append(remarks, *x.remark)
			}
			if x.ok {
				def = ""
			}
		}
		if deleted && sent["order_deleted "+o.id] == 0 {
			w.violate("event-count", "no event tells the deletion of order %s", o.id)
		}
		if !deleted && !mayDelete && sent["order_deleted "+o.id] > 0 {
			w.violate("event-count", "an event tells the deletion of order %s, which was not deleted", o.id)
		}
		w.get(o, true)
		if (r == nil) != deleted && !mayDelete {
			w.violate("stored-order", "order %s: deleted is %v, its row is %+v", o.id, deleted, r)
			continue
		}
		if r == nil {
			continue
		}
		if def != "" {
			remarks = append(remarks, def)
		}
		found := false
		for _, s := range remarks {
			found = found || s == r.Remark
		}
		if !found || r.User != o.user {
			w.violate("stored-order", "order %s of %s is stored with user %q and remark %q, last set to one of %q", o.id, o.user, r.User, r.Remark, remarks)
		}
	}
	for k := 0; k < 6; k++ {
		w.list(rows)
	}
}

var orderSetup sync.Once

func init() {
	simExtraModels = append(simExtraModels, &orderpo.OrderPO{}, &orderpo.SaleItemPO{}, &orderpo.CouponPO{})
	Register("E02", Workload{Name: "order", Quick: 360, Thorough: 20000, Long: true, Fn: orderCase})
}
