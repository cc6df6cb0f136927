package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"

	ddd "github.com/bytedance/dddfirework"
)

// createMany: many goroutines create aggregates at once, identities are unique.
func createMany(c *C) {
	w := newWorld(c)
	eng := ddd.NewEngine(w.lock, w.store, ddd.WithLogger(discard))
	n, per := 8, 1+c.R.Intn(6)
	var wg sync.WaitGroup
	roots := make([][]Ent, n)
	p := &Prog{w: w, t: newTracker(w), r: c.R}
	for i := range roots {
		for j := 0; j < per; j++ {
			roots[i] = append(roots[i], p.freshTree([]Kind{KRoot, KItem, KAcct, KTree}[c.R.Intn(4)], 3, 6))
		}
	}
	for i := range roots {
		rs := roots[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, e := range rs {
				if res := eng.Create(context.Background(), e); res.Error != nil {
					c.Violate("C03", "create-failed", "creating %s failed: %v", tagOf(e), res.Error)
				}
			}
		}()
	}
	wg.Wait()
	ids := map[string]int{}
	rows := w.store.snapshot()
	total := 0
	for _, rs := range roots {
		for _, e := range rs {
			walkEnt(e, nil, func(x, par Ent) {
				if !registered(x) {
					return
				}
				total++
				id := x.GetID()
				if id == "" {
					c.Violate("C03", "no-id", "%s has no identifier after it was created", tagOf(x))
				}
				if o, ok := ids[id]; ok {
					c.Violate("C03", "dup-id", "#%d and %s share identifier %q", o, tagOf(x), id)
				}
				ids[id] = x.C().UID
				if pre := p.t.preset[x.C().UID]; pre != "" && pre != id {
					c.Violate("C03", "preset-changed", "%s had identifier %q, now %q", tagOf(x), pre, id)
				}
				r, ok := rows[rkey{tableOf(x.C().K), id}]
				if !ok || r.UID != x.C().UID {
					c.Violate("C03", "stored-id", "%s with identifier %q is stored as %v", tagOf(x), id, r)
				} else if par != nil && registered(par) && r.Parent != par.GetID() {
					c.Violate("C03", "stored-parent", "%s is stored under %q, its parent is %q", tagOf(x), r.Parent, par.GetID())
				}
			})
		}
	}
	c.Count("entities_created_concurrently", total)
	c.Distinct("create %d %d", per, total)
}

// ------------------------------------------------------------------ misuse

var misuses = []string{"add-twice", "add-loaded", "add-same-call", "load-managed", "load-no-id", "load-no-id-child", "custom-managed",
	"build-no-id", "two-parents", "two-parents-loaded", "two-roots", "managed-as-child", "remove-not-held", "remove-twice", "container-add-twice", "add-saved", "load-managed-child", "load-added", "custom-managed-child", "event-not-encodable", "load-odd-child"}

// badEvt cannot be encoded.
type badEvt struct{ F func() }

func (*badEvt) GetType() ddd.EventType { return "bad" }
func (*badEvt) GetSender() string      { return "bad" }

// misuseCase: one misuse inside an otherwise valid command.
func misuseCase(c *C) {
	w := newWorld(c)
	for i := 0; i < 1+c.R.Intn(2); i++ {
		sp := randSpec(c.R)
		sp.Outcome, sp.Dry, sp.NoTx, sp.Locks = "", false, false, nil
		w.RunSpec(sp)
	}
	kind := misuses[c.Index%len(misuses)]
	r := c.R
	before := w.store.snapshot()
	t := newTracker(w)
	p := &Prog{w: w, t: t, r: rand.New(rand.NewSource(r.Int63())), rich: true, noSave: true}
	start := w.mark()
	txOn := r.Intn(6) > 0
	opts := []ddd.Option{ddd.WithLogger(discard), ddd.WithIDGenerator(w.idg), ddd.WithEventBus(w.txbus)}
	if !txOn {
		opts = append(opts, ddd.WithoutTransaction)
	}
	if r.Intn(2) == 0 {
		opts = append(opts, ddd.WithRecursiveDelete)
	}
	eng := ddd.NewEngine(w.lock, w.store, opts...)
	posted := 0
	var callErr error // error returned by the misused call itself
	direct := false   // the misused call returns an error itself
	done, twice := false, false
	ignore := r.Intn(2) == 0 // the application ignores the call's error
	legacy := kind == "build-no-id" || kind == "remove-not-held" || kind == "container-add-twice" || (kind == "two-parents" || kind == "load-no-id") && r.Intn(3) == 0
	pickManaged := func() Ent {
		if len(t.managed) == 0 {
			e := p.freshTree(KRoot, 2, 4)
			p.api.Add(e)
			t.managed = append(t.managed, e)
		}
		return t.managed[p.r.Intn(len(t.managed))]
	}
	loadedRoot := func() Ent {
		for _, e := range t.managed {
			if _, ok := t.prev[e]; ok {
				return e
			}
		}
		return nil
	}
	misuse := func(ctx context.Context) error {
		switch kind {
		case "add-twice", "container-add-twice":
			p.api.Add(pickManaged())
			done = true
		case "add-same-call":
			e := p.freshTree(KRoot, 2, 4)
			if legacy {
				return nil
			}
			p.api.Add(e, e)
			done = true
		case "add-loaded":
			if e := loadedRoot(); e != nil {
				p.api.Add(e)
				done = true
			}
		case "add-saved":
			e := p.freshTree(KRoot, 1, 4)
			p.api.Add(e)
			if err := p.api.Save(ctx); err != nil {
				return err
			}
			before = nil // the save itself is undone by the rollback
			p.api.Add(e)
			done = true
		case "load-managed":
			e := loadedRoot()
			if e == nil {
				return nil
			}
			direct = true
			callErr = p.api.Load(ctx, e)
			done = true
		case "load-added": // added under an identifier the store knows, then loaded
			var ids []string
			for k, row := range w.store.snapshot() {
				if row.K == KRoot && k.table == tableOf(KRoot) {
					ids = append(ids, row.ID)
				}
			}
			if len(ids) == 0 {
				return nil
			}
			sort.Strings(ids)
			e := p.freshTree(KRoot, 1, 4)
			e.SetID(ids[p.r.Intn(len(ids))])
			p.api.Add(e)
			direct = true
			callErr = p.api.Load(ctx, e)
			done = true
		case "load-managed-child", "custom-managed-child":
			var ch []Ent
			for _, e := range t.managed {
				walkEnt(e, nil, func(x, par Ent) {
					if par != nil && inPrev(t, x) {
						ch = append(ch, x)
					}
				})
			}
			if len(ch) == 0 {
				return nil
			}
			direct = true
			if x := ch[p.r.Intn(len(ch))]; kind == "custom-managed-child" {
				callErr = p.api.Custom(ctx, func(context.Context, ...ddd.IEntity) {}, x)
			} else {
				callErr = p.api.Load(ctx, x)
			}
			done = true
		case "custom-managed":
			e := pickManaged()
			direct = true
			callErr = p.api.Custom(ctx, func(context.Context, ...ddd.IEntity) {}, e)
			done = true
		case "load-odd-child": // what is asked for cannot hold entities
			var ids []string
			for k, row := range w.store.snapshot() {
				if row.K == KRoot && k.table == tableOf(KRoot) {
					ids = append(ids, row.ID)
				}
			}
			if len(ids) == 0 {
				return nil
			}
			sort.Strings(ids)
			e := newEnt(w, KRoot).(*Root)
			e.SetID(ids[p.r.Intn(len(ids))])
			odd := []any{5, "Items", e.Items, []int{1}, &[]int{1}, &[]string{}, new(string), &struct{}{}, &map[string]*Leaf{}, func() {}}
			ask := []any{odd[p.r.Intn(len(odd))]}
			if p.r.Intn(2) == 0 {
				ask = append(ask, &e.Items)
			}
			if p.r.Intn(2) == 0 {
				ask = append([]any{&e.Trees}, ask...)
			}
			direct = true
			callErr = p.api.Load(ctx, e, ask...)
			done = true
		case "event-not-encodable":
			es := subtree(pickManaged())
			direct, done = true, true
			func() {
				defer func() {
					if x := recover(); x != nil {
						callErr = fmt.Errorf("AddEvent: %v", x)
					}
				}()
				es[p.r.Intn(len(es))].C().AddEvent(&badEvt{F: func() {}})
			}()
		case "load-no-id":
			direct = true
			callErr = p.api.Load(ctx, newEnt(w, KRoot))
			done = true
		case "load-no-id-child":
			e := newEnt(w, KRoot).(*Root)
			direct = true
			callErr = p.api.Load(ctx, e, &e.Items, &e.Main)
			done = true
		case "two-parents", "two-parents-loaded":
			if kind == "two-parents" || loadedRoot() == nil {
				e := p.freshTree(KRoot, 0, 4)
				p.api.Add(e)
				t.managed = append(t.managed, e)
			}
			a := pickManaged()
			if _, ok := a.(*Root); !ok {
				e := p.freshTree(KRoot, 0, 4)
				p.api.Add(e)
				a = e
			}
			ra := a.(*Root)
			x := p.fresh(KLeaf).(*Leaf)
			it := p.fresh(KItem).(*Item)
			ra.Items = append(ra.Items, it)
			var cands []*Leaf
			walkEnt(ra, nil, func(y, par Ent) {
				if l, ok := y.(*Leaf); ok && par == Ent(ra) {
					cands = append(cands, l)
				}
			})
			if kind == "two-parents-loaded" && len(cands) > 0 {
				x = cands[p.r.Intn(len(cands))]
			} else {
				ra.Loose = append(ra.Loose, x)
			}
			it.Leaf = x
			done = true
		case "two-roots":
			a, b := p.freshTree(KRoot, 0, 4).(*Root), p.freshTree(KRoot, 0, 4).(*Root)
			x := p.fresh(KItem).(*Item)
			a.Items, b.Items = append(a.Items, x), append(b.Items, x)
			p.api.Add(a, b)
			done = true
		case "managed-as-child":
			a, b := p.freshTree(KRoot, 1, 4).(*Root), p.freshTree(KTree, 0, 4).(*Tree)
			p.api.Add(a, b)
			a.Trees = append(a.Trees, b)
			done = true
		case "remove-not-held":
			p.api.Remove(p.freshTree(KRoot, 1, 4))
			done = true
		case "remove-twice":
			e := pickManaged()
			p.api.Remove(e)
			if legacy || t.prev[e] == nil && !inPrev(t, e) {
				// removing a root that was never stored leaves nothing to hold
			}
			_ = e
			if rep, ok := p.api.(repoAPI); ok {
				x := pickManaged2(t, e)
				if x == nil {
					return nil
				}
				rep.r.Remove(x, x)
				done = true
			}
		}
		if callErr != nil && ignore {
			return nil
		}
		return callErr
	}
	ctx := context.Background()
	post := ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { posted++ })
	var res *ddd.Result
	if legacy {
		cmd := &cmdLegacy{init: func(ctx context.Context) ([]string, error) { return nil, nil }, post: func(context.Context, *ddd.Result) {}}
		api := &legacyAPI{cmd: cmd}
		cmd.build = func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
			api.b = &b
			p.ctx, p.api = ctx, api
			if err := p.loadSome(p.r.Intn(3)); err != nil {
				return nil, err
			}
			if kind == "load-no-id" {
				err := misuse(ctx)
				if err != nil {
					return nil, err
				}
			}
			api.b = nil
			if kind == "build-no-id" {
				e := p.freshTree([]Kind{KRoot, KAcct}[p.r.Intn(2)], 1, 4)
				e.SetID("")
				api.roots = append(api.roots, e)
				done = true
			}
			return api.roots, nil
		}
		cmd.act = func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
			p.ctx, p.noLoad, api.cont = ctx, true, &cont
			if err := p.run(p.r.Intn(5)); err != nil {
				return err
			}
			for n := 0; !done || kind != "build-no-id" && n < 3 && p.r.Intn(3) == 0; n++ {
				twice = twice || done
				if err := misuse(ctx); err != nil {
					return err
				}
				if !done {
					break
				}
			}
			return nil
		}
		res = eng.Run(ctx, cmd, post)
	} else {
		res = eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			p.ctx, p.api = ctx, repoAPI{repo}
			if err := p.loadSome(1 + p.r.Intn(2)); err != nil {
				return err
			}
			if err := p.run(p.r.Intn(6)); err != nil {
				return err
			}
			if err := misuse(ctx); err != nil {
				return err
			}
			if direct && callErr != nil { // the call reported it
				return nil
			}
			for done && !direct && kind != "add-saved" && p.r.Intn(3) == 0 { // and again
				if err := misuse(ctx); err != nil {
					return err
				}
				twice = true
			}
			if p.r.Intn(3) == 0 { // saving in between must not hide it
				_ = p.api.Save(ctx)
			}
			return nil
		}, post)
	}
	evs := w.since(start)
	tr := func() string {
		return fmt.Sprintf("\n  misuse %s legacy=%v tx=%v result %+v call error %v\n  trace: %s", kind, legacy, txOn, res, callErr, cut(traceString(evs), 1500))
	}
	if !done {
		c.Count("misuse_not_applicable", 1)
		return
	}
	reported := res.Error != nil || direct && callErr != nil
	if !reported {
		c.Violate("C10", "accepted:"+kind, "the misuse was not reported%s", tr())
	}
	if res.Error != nil {
		if posted > 0 {
			c.Violate("C09", "post-count", "post-save ran although the command failed%s", tr())
		}
		if before == nil {
			before = t.shadow
			before = nil
		}
		if txOn || !sawSave(evs) {
			base := t.w0(before)
			if d := diffRows(base, w.store.snapshot(), false); base != nil && len(d) > 0 {
				c.Violate("C10", "partial:"+kind, "the command with the misuse left changes in the store: %v%s", d, tr())
			}
		}
		for _, e := range evs {
			if (e.What == "dispatch" || e.What == "prepare" && txOn) && !e.Err {
				c.Violate("C10", "published:"+kind, "the command with the misuse published events%s", tr())
			}
		}
	}
	c.Count("misuses_judged", 1)
	c.Count("misuse_"+kind, 1)
	if twice {
		c.Count("misused_more_than_once", 1)
	}
	c.Distinct("misuse %s legacy%v direct%v ignore%v managed%d", kind, legacy, direct, ignore, len(t.managed))
	if c.Index < len(misuses) && c.Index%5 == 0 {
		c.Sample("%s legacy=%v -> result error %v, call error %v", kind, legacy, res.Error, callErr)
	}
}

func (t *tracker) w0(before map[rkey]Row) map[rkey]Row { return before }

func inPrev(t *tracker, e Ent) bool { _, ok := t.prev[e]; return ok }

func pickManaged2(t *tracker, not Ent) Ent {
	for _, e := range t.managed {
		if e != not {
			return e
		}
	}
	return nil
}

func sawSave(evs []Ev) bool {
	for _, e := range evs {
		switch e.What {
		case "insert", "update", "delete":
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------- loads

// loadCase: loads of roots and children, present or not, with query and
// conversion faults.
func loadCase(c *C) {
	w := newWorld(c)
	r := c.R
	n := 1 + r.Intn(4)
	uid := 0
	add := func(k Kind, id, parent string, pk Kind) Row {
		uid++
		row := Row{UID: uid, K: k, ID: id, Parent: parent, PK: pk, Name: fmt.Sprintf("n%d", r.Intn(4)), Val: r.Intn(4), Aux: []string{"", "x"}[r.Intn(2)]}
		w.store.seed(row)
		return row
	}
	type agg struct {
		root  Row
		items []Row
		trees []Row
		main  *Row
		cust  *Row
	}
	var as []*agg
	for i := 0; i < n; i++ {
		a := &agg{root: add(KRoot, fmt.Sprintf("r%d", i), "", "")}
		as = append(as, a)
	}
	for k := 0; k < 10; k++ {
		a := as[r.Intn(n)]
		switch r.Intn(4) {
		case 0:
			a.items = append(a.items, add(KItem, fmt.Sprintf("i%d", k), a.root.ID, KRoot))
		case 1:
			a.trees = append(a.trees, add(KTree, fmt.Sprintf("t%d", k), a.root.ID, KRoot))
		case 2:
			if a.main == nil {
				x := add(KLeaf, fmt.Sprintf("l%d", k), a.root.ID, KRoot)
				a.main = &x
			}
		case 3:
			if a.cust == nil {
				x := add(KCust, fmt.Sprintf("c%d", k), a.root.ID, KRoot)
				a.cust = &x
			}
		}
	}
	w.nextUID = uid
	before := w.store.snapshot()
	eng := ddd.NewEngine(w.lock, w.store, ddd.WithLogger(discard), ddd.WithIDGenerator(w.idg))
	missing := r.Intn(6) == 0
	a := as[r.Intn(n)]
	id := a.root.ID
	if missing {
		id = "nobody"
	}
	var faultPoint string
	if r.Intn(3) == 0 {
		faultPoint = []string{"exec.query", "convert-back", "convert"}[r.Intn(3)]
	}
	root := &Root{}
	root.SetID(id)
	pre := &Leaf{} // a child given by value pointer
	usePre := r.Intn(4) == 0
	keepNil := r.Intn(2) == 0
	if !keepNil {
		root.Main = &Leaf{}
	}
	// a child of several that is asked for by its identifier
	var named, namedCust string
	if !usePre && r.Intn(4) == 0 {
		extra := add(KLeaf, "lx", a.root.ID, KRoot)
		if a.main == nil {
			a.main = &extra
		}
		if x := []Row{*a.main, extra}[r.Intn(2)]; true {
			named, a.main = x.ID, &x
		}
		root.Main = &Leaf{}
		root.Main.SetID(named)
	}
	if r.Intn(4) == 0 {
		extra := add(KCust, "cx", a.root.ID, KRoot)
		if a.cust == nil {
			a.cust = &extra
		}
		x := []Row{*a.cust, extra}[r.Intn(2)]
		namedCust, a.cust = x.ID, &x
		root.Cust = &Cust{}
		root.Cust.SetID(namedCust)
	}
	before = w.store.snapshot()
	w.nextUID = uid
	legacy := r.Intn(3) == 0
	var asked []string
	var ch []any
	want := func(n string, p any) { asked = append(asked, n); ch = append(ch, p) }
	if r.Intn(3) > 0 {
		want("Items", &root.Items)
	}
	if r.Intn(3) > 0 {
		want("Trees", &root.Trees)
	}
	if r.Intn(3) > 0 && !usePre {
		want("Main", &root.Main)
	} else if !usePre {
		root.Main = nil
	}
	if r.Intn(3) > 0 {
		want("Cust", &root.Cust)
	} else {
		root.Cust = nil
	}
	if usePre {
		root.Main = pre
		want("Main", pre)
	}
	r.Shuffle(len(ch), func(i, j int) { ch[i], ch[j] = ch[j], ch[i]; asked[i], asked[j] = asked[j], asked[i] })
	var loadErr error
	mark := w.mark()
	change := r.Intn(2) == 0
	loaded := false
	var dirtied Ent
	load := func(ctx context.Context, f func(context.Context, ddd.IEntity, ...any) error) error {
		w.mu.Lock()
		w.points = 0
		if faultPoint != "" {
			w.mode = "error"
			w.faultAt = -1
		}
		w.mu.Unlock()
		if faultPoint != "" {
			w.faultName, w.faultNth = faultPoint, r.Intn(4)
		}
		loadErr = f(ctx, root, ch...)
		w.faultName = ""
		if loadErr != nil {
			return loadErr
		}
		loaded = true
		return nil
	}
	mod := func() {
		if change && loaded {
			es := subtree(root)
			dirtied = es[r.Intn(len(es))]
			dirtied.C().Val += 50
			dirtied.Dirty()
		}
	}
	var res *ddd.Result
	if legacy {
		cmd := &cmdLegacy{init: func(ctx context.Context) ([]string, error) { return nil, nil }, post: func(context.Context, *ddd.Result) {}}
		cmd.build = func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
			if err := load(ctx, b.Build); err != nil {
				return nil, err
			}
			return []ddd.IEntity{root}, nil
		}
		cmd.act = func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error { mod(); return nil }
		res = eng.Run(context.Background(), cmd)
	} else {
		res = eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			if err := load(ctx, repo.Get); err != nil {
				return err
			}
			mod()
			return nil
		})
	}
	hit := w.hit
	evs := w.since(mark)
	d := func() string {
		return fmt.Sprintf("\n  load %s asked %v legacy=%v fault=%s hit=%q error %v result %+v\n  stored %+v\n  trace %s", id, asked, legacy, faultPoint, hit, loadErr, res, *a, cut(traceString(evs), 1200))
	}
	c.Count("loads_checked", 1)
	if has := contains(asked, "Main") && named != "" || contains(asked, "Cust") && namedCust != ""; has {
		c.Count("children_asked_for_by_identifier", 1)
	}
	c.Distinct("load %v named%v/%v missing%v fault%s hit%s legacy%v pre%v i%d t%d m%v c%v", asked, named != "", namedCust != "", missing, faultPoint, hit, legacy, usePre, len(a.items), len(a.trees), a.main != nil, a.cust != nil)
	switch {
	case hit != "":
		if loadErr == nil || !errors.Is(loadErr, errFault) {
			c.Violate("C14", "fault-swallowed", "a fault at %s was not reported%s", hit, d())
		}
		if res.Error == nil || !errors.Is(res.Error, errFault) {
			c.Violate("C14", "fault-swallowed", "a fault at %s was not reported by the command%s", hit, d())
		}
		c.Count("load_faults", 1)
		return
	case missing:
		if loadErr == nil || !errors.Is(loadErr, ddd.ErrEntityNotFound) {
			c.Violate("C14", "missing-root", "loading a root that is not stored gave %v%s", loadErr, d())
		}
		if d2 := diffRows(before, w.store.snapshot(), false); len(d2) > 0 {
			c.Violate("C14", "load-writes", "a failed load changed the store: %v%s", d2, d())
		}
		c.Count("missing_roots", 1)
		return
	}
	if loadErr != nil || res.Error != nil {
		c.Violate("C14", "spurious-failure", "a valid load failed%s", d())
		return
	}
	check := func(e Ent, w Row) {
		r := entRow(e, nil)
		v := r.Val
		if e == dirtied {
			v -= 50
		}
		if r.ID != w.ID || r.UID != w.UID || r.Name != w.Name || v != w.Val || r.Aux != w.Aux {
			c.Violate("C14", "fields", "loaded %v, stored %v%s", r, w, d())
		}
	}
	check(root, a.root)
	has := func(s string) bool { return contains(asked, s) }
	list := func(slot string, got []Ent, rows []Row) {
		if !has(slot) {
			rows = nil
		}
		if len(got) != len(rows) {
			c.Violate("C14", "children-count", "%s has %d children, stored are %d%s", slot, len(got), len(rows), d())
			return
		}
		for i := range got {
			check(got[i], rows[i]) // same order as stored
		}
		c.Count("children_loaded", len(got))
	}
	list("Items", ents(root.Items), a.items)
	list("Trees", ents(root.Trees), a.trees)
	single := func(slot string, got Ent, row *Row, given bool) {
		if !has(slot) {
			return
		}
		if row == nil {
			if !isNilEnt(got) && !given {
				c.Violate("C14", "child-presence", "%s is filled although nothing is stored%s", slot, d())
			}
			if given && got.GetID() != "" {
				c.Violate("C14", "child-presence", "%s is filled although nothing is stored%s", slot, d())
			}
			c.Count("missing_children", 1)
			return
		}
		if isNilEnt(got) {
			c.Violate("C14", "child-presence", "%s is empty although %v is stored%s", slot, *row, d())
			return
		}
		check(got, *row)
	}
	if usePre {
		if a.main != nil || change || true {
			single("Main", pre, a.main, true)
		}
	} else {
		single("Main", root.Main, a.main, false)
	}
	single("Cust", root.Cust, a.cust, false)
	nw := 0
	for _, e := range evs {
		switch e.What {
		case "insert", "delete":
			if !(usePre && a.main == nil) {
				c.Violate("C14", "load-writes", "loading caused %v%s", e, d())
			}
		case "update":
			nw++
			if dirtied == nil || e.UID != dirtied.C().UID {
				c.Violate("C14", "load-writes", "loading caused %v%s", e, d())
			}
		}
	}
	if dirtied != nil && dirtied.C().UID != 0 && nw != 1 {
		c.Violate("C14", "change-not-saved", "the change of %s was written %d times%s", tagOf(dirtied), nw, d())
	}
}

func ents[T Ent](l []T) []Ent {
	var r []Ent
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

func isNilEnt(e Ent) bool {
	switch x := e.(type) {
	case *Leaf:
		return x == nil
	case *Cust:
		return x == nil
	case nil:
		return true
	}
	return false
}

func init() {
	Register("C01", Workload{Name: "history", Quick: 100000, Thorough: 3000000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
		sp.Dry, sp.NoTx = false, r.Intn(12) == 0
		if r.Intn(4) > 0 {
			sp.Outcome = ""
		}
		sp.Ops = 3 + r.Intn(18)
	})})
	Register("C02",
		Workload{Name: "faults", Quick: 8000, Thorough: 200000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) { sp.NoTx, sp.Dry = r.Intn(6) == 0, r.Intn(10) == 0 })},
		Workload{Name: "outcomes", Quick: 30000, Thorough: 600000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			if i > 0 {
				sp.Outcome = []string{"error", "break", "panic", ""}[r.Intn(4)]
				sp.NoTx = r.Intn(8) == 0
			}
		})})
	Register("C03",
		Workload{Name: "history", Quick: 40000, Thorough: 1000000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			sp.Xid = r.Intn(2) == 0
		})},
		Workload{Name: "concurrent", Quick: 1500, Thorough: 30000, Fn: createMany},
		Workload{Name: "shared", Quick: 4000, Thorough: 60000, Bubble: true, Fn: sharedEngine(func(r *rand.Rand, s *sharedCmd) { s.creates++ })})
	Register("C04",
		Workload{Name: "history", Quick: 60000, Thorough: 1500000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) { sp.Rich = true })},
		Workload{Name: "hookfaults", Quick: 6000, Thorough: 120000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) { sp.Rich, sp.NoTx, sp.Dry = r.Intn(2) == 0, r.Intn(6) == 0, r.Intn(8) == 0 }, "hook")})
	Register("C05",
		Workload{Name: "history", Quick: 50000, Thorough: 1200000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			sp.Rich, sp.Persist = true, r.Intn(2) == 0
			sp.Dry = r.Intn(10) == 0
		})},
		Workload{Name: "same-instant", Quick: 4000, Thorough: 60000, Bubble: true, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			sp.Rich, sp.Persist = true, r.Intn(2) == 0
		})},
		Workload{Name: "faults", Quick: 2500, Thorough: 60000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) { sp.Rich, sp.Persist, sp.NoTx = true, r.Intn(2) == 0, r.Intn(6) == 0 })},
		Workload{Name: "shared", Quick: 3000, Thorough: 60000, Bubble: true, Fn: sharedEngine(func(r *rand.Rand, s *sharedCmd) { s.emits++; s.persist = r.Intn(2) == 0 })})
	Register("C06",
		Workload{Name: "faults", Quick: 6000, Thorough: 120000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) { sp.Rich, sp.Bus = true, "tx"; sp.Persist = r.Intn(3) == 0 })},
		Workload{Name: "history", Quick: 40000, Thorough: 1000000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			sp.Rich = true
			sp.Bus = []string{"tx", "tx", "tx", "plain"}[r.Intn(4)]
			sp.NoTx = r.Intn(6) == 0
			sp.TxRetErr = r.Intn(4) == 0
			sp.Dry = r.Intn(10) == 0
		})})
	Register("C07",
		Workload{Name: "history", Quick: 40000, Thorough: 1000000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			if i > 0 {
				sp.Form = []string{"main", "legacy", "stage"}[r.Intn(3)]
				n := 1 + r.Intn(5)
				sp.Locks = nil
				for j := 0; j < n; j++ {
					sp.Locks = append(sp.Locks, lockNames[r.Intn(len(lockNames))])
				}
				if r.Intn(6) > 0 {
					sp.Locks = uniqKeepOrder(sp.Locks)
				}
				sp.Outcome = []string{"", "", "error", "break", "panic"}[r.Intn(5)]
				sp.Ops = 2 + r.Intn(5)
				sp.NoTx = r.Intn(8) == 0
				if r.Intn(3) == 0 {
					sp.UnErr = r.Intn(256)
				}
			}
		})},
		Workload{Name: "faults", Quick: 4000, Thorough: 80000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) {
			sp.Form = []string{"main", "legacy", "stage"}[r.Intn(3)]
			sp.Locks = uniqKeepOrder(append(sp.Locks, lockNames[r.Intn(len(lockNames))], lockNames[r.Intn(len(lockNames))]))
			sp.Ops = 2 + r.Intn(4)
			sp.NoTx = r.Intn(6) == 0
		})},
		Workload{Name: "contention", Quick: 6000, Thorough: 100000, Bubble: true, Fn: sharedEngine(func(r *rand.Rand, s *sharedCmd) {
			if s.form == "func" || s.form == "mainfunc" {
				s.form = "stage"
			}
		})})
	Register("C08",
		Workload{Name: "faults", Quick: 3000, Thorough: 60000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) {
			sp.Dry, sp.Rich, sp.NoTx, sp.Persist = true, true, r.Intn(4) == 0, r.Intn(2) == 0
		})},
		Workload{Name: "history", Quick: 50000, Thorough: 1200000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			if i > 0 {
				sp.Dry = r.Intn(4) > 0
				sp.Bus = []string{"plain", "tx", "tx"}[r.Intn(3)]
				sp.Persist = r.Intn(2) == 0
				sp.NoTx = r.Intn(4) == 0
			}
		})},
		Workload{Name: "shared", Quick: 4000, Thorough: 60000, Bubble: true, Fn: sharedEngine(func(r *rand.Rand, s *sharedCmd) { s.dry = r.Intn(2) == 0 })})
	Register("C09",
		Workload{Name: "shared", Quick: 10000, Thorough: 200000, Bubble: true, Fn: sharedEngine(nil)},
		Workload{Name: "history", Quick: 40000, Thorough: 800000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) { sp.PostHooks = r.Intn(7) })},
		Workload{Name: "faults", Quick: 2000, Thorough: 40000, Fn: engineFaults(func(r *rand.Rand, sp *Spec) { sp.NoTx = r.Intn(6) == 0 })})
	Register("C10",
		Workload{Name: "misuse", Quick: 60000, Thorough: 1500000, Fn: misuseCase})
	Register("C13",
		Workload{Name: "history", Quick: 80000, Thorough: 2000000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			sp.Recursive = r.Intn(5) > 0
			sp.Outcome = ""
			sp.DelBias = i > 0
			sp.Ops = 4 + r.Intn(16)
		})})
	Register("C14",
		Workload{Name: "loads", Quick: 100000, Thorough: 2000000, Fn: loadCase},
		Workload{Name: "history", Quick: 30000, Thorough: 800000, Fn: engineHistory(func(r *rand.Rand, i int, sp *Spec) {
			sp.Outcome = ""
			sp.LoadBias = i > 0
		})})
}
