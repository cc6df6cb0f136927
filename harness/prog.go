package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"maps"
	"math/rand"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
)

// tracker is the reference model: it knows what the aggregates of a command
// looked like when last loaded or saved and derives what a save must do.
type tracker struct {
	w         *World
	managed   []Ent
	removed   []Ent
	prev      map[Ent]Ent    // entity -> parent (nil for roots) at the last sync
	prevSlot  map[Ent]string // slot at the last sync
	dirty     map[Ent]bool
	limbo     []Ent // detached since the last save, or new and not attached
	dead      []Ent // deleted by an earlier save
	shadow    map[rkey]Row
	sources   map[int]bool // uids whose events must be published
	optSource map[int]bool
	preset    map[int]string
	ids       map[int]string
	all       []Ent
	lastMark  int
	recursive bool
	saves     int
	shape     []string
	unknown   bool // a save failed: no further expectations
	nOps      map[string]int
	xid       bool // the default id generator is in use: its calls are not seen
}

func newTracker(w *World) *tracker {
	return &tracker{w: w, prev: map[Ent]Ent{}, prevSlot: map[Ent]string{}, dirty: map[Ent]bool{},
		sources: map[int]bool{}, optSource: map[int]bool{}, preset: map[int]string{}, ids: map[int]string{},
		shadow: w.store.snapshot(), lastMark: w.mark(), nOps: map[string]int{}}
}

type plan struct {
	cur       map[Ent]Ent
	created   []Ent
	update    map[Ent]bool // required
	optUpdate map[Ent]bool
	del       map[Ent]bool // required
	optDel    map[Ent]bool
	parent    map[Ent]Ent
	moved     int
	order     []Ent
}

func registered(e Ent) bool { return e.C().K != KMemo }

func subtree(e Ent) []Ent {
	var r []Ent
	walkEnt(e, nil, func(x, _ Ent) { r = append(r, x) })
	return r
}

func isChild(p, e Ent) bool {
	for _, s := range p.Slots() {
		for _, ch := range s.Get() {
			if ch == e {
				return true
			}
		}
	}
	return false
}

func slotOf(p, e Ent) string {
	if p == nil {
		return ""
	}
	for _, s := range p.Slots() {
		for _, ch := range s.Get() {
			if ch == e {
				return s.Name
			}
		}
	}
	return "?"
}

func (t *tracker) plan() *plan {
	p := &plan{cur: map[Ent]Ent{}, update: map[Ent]bool{}, optUpdate: map[Ent]bool{}, del: map[Ent]bool{}, optDel: map[Ent]bool{}, parent: map[Ent]Ent{}}
	for _, r := range t.managed {
		walkEnt(r, nil, func(e, par Ent) {
			if _, ok := p.cur[e]; !ok {
				p.order = append(p.order, e)
			}
			p.cur[e] = par
		})
	}
	for _, e := range p.order {
		par := p.cur[e]
		pp, was := t.prev[e]
		switch {
		case !was:
			p.created = append(p.created, e)
		case pp != par:
			p.update[e] = true
			p.moved++
		case t.dirty[e]:
			p.update[e] = true
		case t.prevSlot[e] != slotOf(par, e):
			p.optUpdate[e] = true
		}
	}
	gone := []Ent{}
	for e := range t.prev {
		if _, ok := p.cur[e]; !ok {
			gone = append(gone, e)
		}
	}
	sort.Slice(gone, func(i, j int) bool { return gone[i].C().UID < gone[j].C().UID })
	inGoneNow := map[Ent]Ent{} // entity -> gone parent it sits under right now
	for _, g := range gone {
		walkEnt(g, nil, func(e, par Ent) {
			if par != nil {
				if _, live := p.cur[e]; !live {
					inGoneNow[e] = par
				}
			}
		})
	}
	for _, e := range gone {
		pp := t.prev[e]
		_, parLive := p.cur[pp]
		switch {
		case pp == nil:
			p.del[e] = true
		case isChild(pp, e) && !parLive: // still with its parent, which is gone
			if t.recursive {
				p.del[e] = true
			}
		case inGoneNow[e] != nil: // detached, but put under something that is gone
			if t.recursive {
				p.del[e] = true
			} else {
				p.optDel[e] = true
			}
		default:
			p.del[e] = true
		}
	}
	if t.recursive {
		for e := range inGoneNow {
			if _, was := t.prev[e]; !was {
				p.optDel[e] = true
			}
		}
	}
	for _, m := range []map[Ent]bool{p.del, p.optDel} {
		for e := range m {
			p.parent[e] = t.prev[e]
		}
	}
	for _, e := range p.order {
		t.sources[e.C().UID] = true
	}
	for e := range p.del {
		for _, d := range subtree(e) {
			t.sources[d.C().UID] = true
		}
	}
	for e := range p.optDel {
		t.optSource[e.C().UID] = true
	}
	for _, e := range t.removed { // also if it was never saved
		for _, d := range subtree(e) {
			t.sources[d.C().UID] = true
		}
	}
	for _, e := range t.limbo {
		for _, d := range subtree(e) {
			t.optSource[d.C().UID] = true
		}
	}
	for _, g := range gone {
		for _, d := range subtree(g) {
			t.optSource[d.C().UID] = true
		}
	}
	return p
}

func entRow(e, parent Ent) Row {
	c := e.C()
	r := Row{UID: c.UID, K: c.K, ID: c.GetID(), Name: c.Name, Val: c.Val, Aux: c.Aux}
	if parent != nil {
		r.Parent, r.PK = parent.GetID(), parent.C().K
	}
	return r
}

// verify compares one successful save with its plan and advances the model.
func (t *tracker) verify(p *plan, evs []Ev, dry bool) {
	c := t.w.c
	ins, upd, del := map[int]int{}, map[int]int{}, map[int]int{}
	firstOp, lastOp := -1, -1
	idgens := 0
	for i, e := range evs {
		switch e.What {
		case "insert":
			ins[e.UID]++
		case "update":
			upd[e.UID]++
		case "delete":
			del[e.UID]++
		case "idgen":
			idgens++
			continue
		default:
			continue
		}
		if firstOp < 0 {
			firstOp = i
		}
		lastOp = i
	}
	ctx := func() string { return "\n  save trace: " + cut(traceString(evs), 1500) }
	if dry {
		if firstOp >= 0 {
			c.Violate("C08", "dry-write", "a dry run wrote to the store: %s", ctx())
		}
	}
	want := func(set map[int]int, uid int, what string, e Ent) {
		if dry {
			return
		}
		if n := set[uid]; n != 1 {
			prop := []string{"C01"}
			if what == "delete" && t.recursive {
				prop = append(prop, "C13")
			}
			for _, pr := range prop {
				c.Violate(pr, fmt.Sprintf("missing-or-repeated-%s", what), "%s of %s happened %d times instead of once%s", what, tagOf(e), n, ctx())
			}
		}
		delete(set, uid)
	}
	missing := 0
	for _, e := range p.created {
		if t.preset[e.C().UID] == "" && e.C().GetID() != "" && strings.HasPrefix(e.C().GetID(), "hook-") {
			// given by its own hook
		} else if t.preset[e.C().UID] == "" && t.ids[e.C().UID] == "" && registered(e) {
			missing++
		}
		if registered(e) {
			want(ins, e.C().UID, "insert", e)
		}
	}
	for e := range p.update {
		if registered(e) {
			want(upd, e.C().UID, "update", e)
		}
	}
	for e := range p.del {
		if registered(e) {
			want(del, e.C().UID, "delete", e)
		}
	}
	for e := range p.optUpdate {
		if upd[e.C().UID] <= 1 {
			delete(upd, e.C().UID)
		}
	}
	for e := range p.optDel {
		if del[e.C().UID] <= 1 {
			delete(del, e.C().UID)
		}
	}
	if !dry {
		for what, m := range map[string]map[int]int{"insert": ins, "update": upd, "delete": del} {
			for uid, n := range m {
				props := []string{"C01"}
				if what == "delete" {
					props = append(props, "C13")
				}
				if what == "update" {
					props = append(props, "C14")
				}
				for _, pr := range props {
					c.Violate(pr, "unexpected-"+what, "unexpected %s of entity #%d (%d times)%s", what, uid, n, ctx())
				}
			}
		}
	}
	// hooks
	type hk struct {
		uid  int
		kind string
	}
	exp := map[hk]bool{}
	expSet := func(e Ent, before, after string) {
		if hooksOf[e.C().K][before] {
			exp[hk{e.C().UID, before}] = true
		}
		if hooksOf[e.C().K][after] {
			exp[hk{e.C().UID, after}] = true
		}
	}
	for _, e := range p.created {
		expSet(e, "BeforeCreate", "AfterCreate")
	}
	for e := range p.update {
		expSet(e, "BeforeUpdate", "AfterUpdate")
	}
	for e := range p.del {
		expSet(e, "BeforeDelete", "AfterDelete")
	}
	opt := map[int]bool{}
	for e := range p.optUpdate {
		opt[e.C().UID] = true
	}
	for e := range p.optDel {
		opt[e.C().UID] = true
	}
	got := map[hk]int{}
	for i, e := range evs {
		if e.What != "hook" {
			continue
		}
		k := hk{e.UID, e.S}
		got[k]++
		if !exp[k] && !opt[e.UID] {
			c.Violate("C04", "unexpected-hook", "hook %s of entity #%d ran although nothing of the kind was saved%s", e.S, e.UID, ctx())
		}
		before := strings.HasPrefix(e.S, "Before")
		if before && firstOp >= 0 && i > firstOp {
			c.Violate("C04", "before-hook-late", "hook %s of entity #%d ran after a write of its save%s", e.S, e.UID, ctx())
		}
		if !before && lastOp >= 0 && i < lastOp {
			c.Violate("C04", "after-hook-early", "hook %s of entity #%d ran before a write of its save%s", e.S, e.UID, ctx())
		}
	}
	for k := range exp {
		if n := got[k]; n != 1 {
			c.Violate("C04", "hook-count", "hook %s of entity #%d ran %d times instead of once%s", k.kind, k.uid, n, ctx())
			if dry {
				c.Violate("C08", "hook-count", "in a dry run hook %s of entity #%d ran %d times instead of once%s", k.kind, k.uid, n, ctx())
			}
			if strings.HasSuffix(k.kind, "Delete") && t.recursive {
				c.Violate("C13", "hook-count", "hook %s of entity #%d ran %d times instead of once%s", k.kind, k.uid, n, ctx())
			}
		}
	}
	c.Count("hooks_seen", len(got))
	// identities
	memos := 0
	for _, e := range p.created {
		if !registered(e) {
			memos++
		}
	}
	if !t.xid && (idgens < missing || idgens > missing+memos) {
		c.Violate("C03", "idgen-count", "the id generator was asked %d times for %d new entities without identifier%s", idgens, missing, ctx())
	}
	for _, e := range p.created {
		uid := e.C().UID
		id := e.GetID()
		if id == "" && registered(e) {
			c.Violate("C03", "no-id", "new entity %s has no identifier after it was saved%s", tagOf(e), ctx())
			continue
		}
		if pre := t.preset[uid]; pre != "" && pre != id {
			c.Violate("C03", "preset-changed", "entity %s had identifier %q, now %q%s", tagOf(e), pre, id, ctx())
		}
		for o, oid := range t.ids {
			if o != uid && oid == id && id != "" {
				c.Violate("C03", "dup-id", "entities #%d and #%d share identifier %q%s", o, uid, id, ctx())
			}
		}
		t.ids[uid] = id
	}
	for _, ev := range evs {
		if ev.What == "insert" && ev.Row != nil {
			for _, e := range p.created {
				if e.C().UID == ev.UID {
					if ev.Row.ID == "" || ev.Row.ID != e.GetID() {
						c.Violate("C03", "stored-id", "entity %s has identifier %q but was stored with %q%s", tagOf(e), e.GetID(), ev.Row.ID, ctx())
					}
					if par := p.cur[e]; par != nil && ev.Row.Parent != par.GetID() {
						c.Violate("C03", "stored-parent", "entity %s was stored under parent %q, its parent has identifier %q%s", tagOf(e), ev.Row.Parent, par.GetID(), ctx())
					}
				}
			}
		}
	}
	for _, e := range p.order {
		if old, ok := t.ids[e.C().UID]; ok && old != e.GetID() && old != "" {
			c.Violate("C03", "id-changed", "identifier of %s changed from %q to %q%s", tagOf(e), old, e.GetID(), ctx())
		}
	}
	// advance the model
	for _, e := range p.created {
		t.put(e, p.cur[e], dry)
	}
	for e := range p.update {
		t.put(e, p.cur[e], dry)
	}
	for e := range p.optUpdate {
		t.put(e, p.cur[e], dry)
	}
	if !dry {
		for e := range p.del {
			if registered(e) {
				delete(t.shadow, rkey{tableOf(e.C().K), e.GetID()})
			}
		}
		for e := range p.optDel {
			seen := false
			for _, ev := range evs {
				if ev.What == "delete" && ev.UID == e.C().UID {
					seen = true
				}
			}
			if seen {
				delete(t.shadow, rkey{tableOf(e.C().K), e.GetID()})
			}
		}
	}
	for e := range p.del {
		t.dead = append(t.dead, e)
	}
	sort.Slice(t.dead, func(i, j int) bool { return t.dead[i].C().UID < t.dead[j].C().UID })
	t.prev, t.prevSlot = map[Ent]Ent{}, map[Ent]string{}
	for e, par := range p.cur {
		t.prev[e] = par
		t.prevSlot[e] = slotOf(par, e)
	}
	t.dirty = map[Ent]bool{}
	var nl []Ent
	for _, e := range t.limbo {
		if !p.del[e] && !p.optDel[e] {
			nl = append(nl, e)
		}
	}
	t.limbo = nl
	t.removed = nil
	t.saves++
	t.nOps["ins"] += len(p.created)
	t.nOps["upd"] += len(p.update)
	t.nOps["del"] += len(p.del)
	t.nOps["mov"] += p.moved
	c.Count("saves_checked", 1)
	c.Count("inserts_expected", len(p.created))
	c.Count("updates_expected", len(p.update))
	c.Count("moves_expected", p.moved)
	c.Count("deletes_expected", len(p.del))
	t.shape = append(t.shape, fmt.Sprintf("%d/%d/%d/%d/%d", len(p.created), len(p.update), p.moved, len(p.del), len(p.order)))
}

func (t *tracker) put(e, parent Ent, dry bool) {
	if dry || !registered(e) {
		return
	}
	r := entRow(e, parent)
	t.shadow[rkey{tableOf(r.K), r.ID}] = r
}

// ------------------------------------------------------------ the program

// API is what a command can do to its repository, whatever its form.
type API interface {
	Load(ctx context.Context, root Ent, children ...any) error
	Custom(ctx context.Context, getter func(context.Context, ...ddd.IEntity), roots ...ddd.IEntity) error
	Add(roots ...ddd.IEntity)
	Remove(root ddd.IEntity)
	Save(ctx context.Context) error
	Form() string
}

type repoAPI struct{ r *ddd.Repository }

func (a repoAPI) Load(ctx context.Context, root Ent, ch ...any) error {
	return a.r.Get(ctx, root, ch...)
}
func (a repoAPI) Custom(ctx context.Context, g func(context.Context, ...ddd.IEntity), roots ...ddd.IEntity) error {
	return a.r.CustomGet(ctx, g, roots...)
}
func (a repoAPI) Add(roots ...ddd.IEntity)       { a.r.Add(roots...) }
func (a repoAPI) Remove(root ddd.IEntity)        { a.r.Remove(root) }
func (a repoAPI) Save(ctx context.Context) error { return a.r.Save(ctx) }
func (a repoAPI) Form() string                   { return "repo" }

// Prog runs random operations against an API while keeping the tracker in step.
type Prog struct {
	w    *World
	t    *tracker
	r    *rand.Rand
	api  API
	ctx  context.Context
	dry  bool
	rich bool // events allowed
	nops int
	noSave,
	noLoad bool
	saveErr error
	loads   int

	delBias, loadBias bool
	swallowed         bool // user code went on after a call that failed
}

func (p *Prog) fresh(k Kind) Ent {
	e := newEnt(p.w, k)
	c := e.C()
	c.UID = p.w.uid()
	c.Name = fmt.Sprintf("n%d", p.r.Intn(5))
	c.Val = p.r.Intn(5)
	if p.r.Intn(3) == 0 {
		c.Aux = "x"
	}
	if p.r.Intn(3) == 0 {
		id := fmt.Sprintf("p-%d", c.UID)
		c.SetID(id)
		p.t.preset[c.UID] = id
	} else {
		c.noid = true
	}
	if p.r.Intn(6) == 0 {
		c.Dirty() // a new entity that is also dirty must still be inserted once
	}
	p.t.all = append(p.t.all, e)
	return e
}

func (p *Prog) freshTree(k Kind, depth, budget int) Ent {
	e := p.fresh(k)
	if depth <= 0 {
		return e
	}
	for _, s := range e.Slots() {
		if p.r.Intn(3) != 0 {
			continue
		}
		n := 1
		if s.Multi {
			n = 1 + p.r.Intn(2)
		}
		var es []Ent
		for i := 0; i < n; i++ {
			es = append(es, p.freshTree(s.Accepts[p.r.Intn(len(s.Accepts))], depth-1, budget))
		}
		s.Set(es)
	}
	return e
}

func (p *Prog) live() []Ent {
	var es []Ent
	for _, r := range p.t.managed {
		es = append(es, subtree(r)...)
	}
	return es
}

// storedTrees lists stored roots that are not managed, with everything below.
func (p *Prog) storedRoots() []Row {
	managed := map[string]bool{}
	for e := range p.t.prev {
		managed[tableOf(e.C().K)+"/"+e.GetID()] = true
	}
	for _, e := range p.t.all {
		managed[tableOf(e.C().K)+"/"+e.GetID()] = true
	}
	var rs []Row
	for _, r := range p.t.shadow {
		if r.Parent == "" && (r.K == KRoot || r.K == KAcct || r.K == KTree || r.K == KItem) && !managed[tableOf(r.K)+"/"+r.ID] {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].UID < rs[j].UID })
	return rs
}

func (p *Prog) logf(f string, a ...any) { p.w.c.Logf(f, a...) }

// adopt records a root (already filled) as loaded.
func (p *Prog) adopt(root Ent) {
	p.t.managed = append(p.t.managed, root)
	p.note(root)
}

func (p *Prog) note(root Ent) {
	walkEnt(root, nil, func(e, par Ent) {
		p.t.prev[e] = par
		p.t.prevSlot[e] = slotOf(par, e)
		p.t.ids[e.C().UID] = e.GetID()
		p.t.all = append(p.t.all, e)
	})
}

// fill builds the whole stored subtree of a row with harness code.
func (p *Prog) fill(e Ent) {
	id := e.GetID()
	for _, s := range e.Slots() {
		var es []Ent
		for _, r := range p.childRows(id, e.C().K, s.Accepts, s.Name) {
			ch := newEnt(p.w, r.K)
			cc := ch.C()
			cc.UID, cc.Name, cc.Val, cc.Aux = r.UID, r.Name, r.Val, r.Aux
			cc.SetID(r.ID)
			p.fill(ch)
			es = append(es, ch)
			if !s.Multi {
				break
			}
		}
		s.Set(es)
	}
}

func (p *Prog) childRows(pid string, pk Kind, acc []Kind, slot string) []Row {
	if slot == "Tags" || slot == "Loose" || slot == "One" { // these hold kinds that also live elsewhere
		return nil
	}
	var rs []Row
	for _, r := range p.t.shadow {
		if r.Parent != pid || r.PK != pk {
			continue
		}
		for _, k := range acc {
			if r.K == k {
				rs = append(rs, r)
			}
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].UID < rs[j].UID })
	return rs
}

func rowOf(rs map[rkey]Row, k Kind, id string) Row { return rs[rkey{tableOf(k), id}] }

func (p *Prog) opLoad() error {
	rs := p.storedRoots()
	if len(rs) == 0 {
		return nil
	}
	r := rs[p.r.Intn(len(rs))]
	root := newEnt(p.w, r.K)
	root.C().UID = r.UID
	root.C().SetID(r.ID)
	mode := p.r.Intn(3)
	p.loads++
	if mode == 0 { // custom getter, whole tree
		p.logf("custom-load %s", r.tag())
		return p.customLoad(r, root)
	}
	var ch []any
	var asked []string
	switch x := root.(type) {
	case *Root:
		if p.r.Intn(3) > 0 {
			ch = append(ch, &x.Items)
			asked = append(asked, "Items")
		}
		if p.r.Intn(2) == 0 {
			ch = append(ch, &x.Trees)
			asked = append(asked, "Trees")
		}
		if p.r.Intn(2) == 0 {
			ch = append(ch, &x.Main)
			asked = append(asked, "Main")
		}
		if p.r.Intn(3) == 0 {
			ch = append(ch, &x.Cust)
			asked = append(asked, "Cust")
		}
	case *Item:
		ch = append(ch, &x.Subs)
		asked = append(asked, "Subs")
	case *Tree:
		ch = append(ch, &x.Kids)
		asked = append(asked, "Kids")
	}
	p.logf("load %s %v", r.tag(), asked)
	m := p.w.mark()
	if err := p.api.Load(p.ctx, root, ch...); err != nil {
		if p.goesOn() { // the user code can do without it
			return nil
		}
		return err
	}
	p.checkLoad(r, root, asked, m)
	p.adopt(root)
	return nil
}

func (p *Prog) customLoad(r Row, root Ent) error {
	getter := func(ctx context.Context, roots ...ddd.IEntity) {
		for _, x := range roots {
			c := x.(Ent).C()
			c.UID, c.Name, c.Val, c.Aux = r.UID, r.Name, r.Val, r.Aux
			p.fill(x.(Ent))
		}
	}
	if err := p.api.Custom(p.ctx, getter, root); err != nil {
		return err
	}
	p.adopt(root)
	return nil
}

// goesOn tells whether the user code ignores the injected failure it just met.
func (p *Prog) goesOn() bool {
	p.w.mu.Lock()
	defer p.w.mu.Unlock()
	if p.w.mode != "retry" || p.w.hit == "" || p.swallowed {
		return false
	}
	p.swallowed = true
	return true
}

// opGetOrCreate looks for a root that does not exist and then adds it.
func (p *Prog) opGetOrCreate() error {
	if p.api.Form() == "legacy" {
		return nil
	}
	e := p.fresh([]Kind{KRoot, KAcct, KTree, KItem}[p.r.Intn(4)])
	id := fmt.Sprintf("g-%d", e.C().UID)
	e.C().SetID(id)
	e.C().noid = false
	p.t.preset[e.C().UID] = id
	p.logf("get or create %s", tagOf(e))
	err := p.api.Load(p.ctx, e)
	if err == nil {
		p.w.c.Violate("C14", "found-missing", "loading %s, which is not stored, reported no error", tagOf(e))
		return nil
	}
	if !errors.Is(err, ddd.ErrEntityNotFound) {
		if !p.goesOn() {
			return err
		}
	}
	for _, s := range e.Slots() {
		if p.r.Intn(2) == 0 {
			s.Set([]Ent{p.freshTree(s.Accepts[0], 1, 3)})
		}
	}
	p.api.Add(e)
	p.t.managed = append(p.t.managed, e)
	return nil
}

// opLoadAgain loads what is managed already, alone or behind another root, and
// ignores the error.
func (p *Prog) opLoadAgain() error {
	if p.api.Form() == "legacy" {
		return nil
	}
	var old []Ent
	for _, e := range p.t.managed {
		if _, was := p.t.prev[e]; was {
			old = append(old, e)
		}
	}
	if len(old) == 0 {
		return nil
	}
	e := old[p.r.Intn(len(old))]
	var err error
	if rs := p.storedRoots(); p.r.Intn(3) > 0 && len(rs) > 0 {
		first := p.stored(rs[p.r.Intn(len(rs))])
		p.logf("load again %s behind %s", tagOf(e), tagOf(first))
		err = p.api.Custom(p.ctx, func(context.Context, ...ddd.IEntity) {}, first, e)
		p.t.all = append(p.t.all, subtree(first)...) // managed or not, it does not change
	} else {
		p.logf("load again %s", tagOf(e))
		err = p.api.Load(p.ctx, e)
	}
	if err == nil {
		p.w.c.Violate("C10", "load-managed", "loading %s, which is managed already, reported no error", tagOf(e))
	}
	if errors.Is(err, errFault) && !p.goesOn() {
		return err
	}
	return nil
}

// checkLoad judges C14: the loaded aggregate equals the stored rows.
func (p *Prog) checkLoad(r Row, root Ent, asked []string, m int) {
	c := p.w.c
	if got := entRow(root, nil); got.Name != r.Name || got.Val != r.Val || got.Aux != r.Aux || got.ID != r.ID {
		c.Violate("C14", "root-fields", "loaded %v, stored %v", got, r)
	}
	for _, s := range root.Slots() {
		want := map[string]Row{}
		requested := false
		for _, a := range asked {
			requested = requested || a == s.Name
		}
		got := s.Get()
		if !requested {
			if len(got) != 0 {
				c.Violate("C14", "unrequested-children", "slot %s was filled without being requested", s.Name)
			}
			continue
		}
		rows := p.childRows(r.ID, r.K, s.Accepts, s.Name)
		for _, x := range rows {
			want[string(x.K)+"/"+x.ID] = x
		}
		if s.Multi && len(got) != len(want) {
			c.Violate("C14", "children-count", "slot %s of %s has %d children, stored are %d", s.Name, r.tag(), len(got), len(want))
		}
		if !s.Multi && (len(got) == 0) != (len(want) == 0) {
			c.Violate("C14", "child-presence", "slot %s of %s: loaded %d children, stored are %d", s.Name, r.tag(), len(got), len(want))
		}
		for i, g := range got {
			w, ok := want[string(g.C().K)+"/"+g.GetID()]
			if !ok {
				c.Violate("C14", "foreign-child", "slot %s of %s holds %v which is not stored under it", s.Name, r.tag(), entRow(g, root))
				continue
			}
			if e := entRow(g, root); e.Name != w.Name || e.Val != w.Val || e.Aux != w.Aux {
				c.Violate("C14", "child-fields", "loaded %v, stored %v", e, w)
			}
			if s.Multi {
				seqs := p.w.store.seqOf(g)
				if i > 0 && seqs < p.w.store.seqOf(got[i-1]) {
					c.Violate("C14", "child-order", "slot %s of %s is not in store order", s.Name, r.tag())
				}
			}
		}
		c.Count("children_loaded", len(got))
	}
	for _, e := range p.w.since(m) {
		if e.What == "insert" || e.What == "update" || e.What == "delete" {
			c.Violate("C14", "load-writes", "loading wrote to the store: %v", e)
		}
	}
	for _, e := range subtree(root) {
		if e.IsDirty() {
			c.Violate("C14", "load-dirty", "loading marked %s dirty", tagOf(e))
		}
	}
	c.Count("loads_checked", 1)
}

func (m *MemStore) seqOf(e Ent) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	if r, ok := m.rows[rkey{tableOf(e.C().K), e.GetID()}]; ok {
		return r.seq
	}
	return 1 << 30
}

func (p *Prog) opAddRoot() {
	k := []Kind{KRoot, KRoot, KAcct, KTree, KItem}[p.r.Intn(5)]
	if p.r.Intn(16) == 0 {
		k = KMemo
	}
	e := p.freshTree(k, 1+p.r.Intn(3), 6)
	p.logf("add root %s (%d entities)", tagOf(e), len(subtree(e)))
	p.api.Add(e)
	p.t.managed = append(p.t.managed, e)
}

func (p *Prog) opAddTwo() {
	a, b := p.freshTree(KRoot, 2, 6), p.fresh(KAcct)
	switch p.r.Intn(6) {
	case 0:
		b = p.freshTree(KMemo, 1, 2)
	case 1:
		a, b = p.freshTree(KMemo, 1, 2), a
	}
	p.logf("add roots %s %s", tagOf(a), tagOf(b))
	p.api.Add(a, b)
	p.t.managed = append(p.t.managed, a, b)
}

func (p *Prog) opRemoveRoot() {
	if len(p.t.managed) == 0 {
		return
	}
	i := p.r.Intn(len(p.t.managed))
	e := p.t.managed[i]
	p.logf("remove root %s", tagOf(e))
	p.api.Remove(e)
	p.t.managed = append(append([]Ent(nil), p.t.managed[:i]...), p.t.managed[i+1:]...)
	p.t.removed = append(p.t.removed, e)
}

// rootsFor makes the arguments of Engine.Create or Engine.Delete.
func (p *Prog) rootsFor(form string) (roots []ddd.IEntity) {
	n := 1 + p.r.Intn(3)
	if form == "create" {
		for i := 0; i < n; i++ {
			e := p.freshTree([]Kind{KRoot, KRoot, KAcct, KTree, KItem, KMemo}[p.r.Intn(6)], 1+p.r.Intn(3), 6)
			roots = append(roots, e)
			p.t.managed = append(p.t.managed, e)
		}
	} else {
		for ; n > 0; n-- {
			rs := p.storedRoots()
			if len(rs) == 0 {
				break
			}
			e := p.stored(rs[p.r.Intn(len(rs))])
			p.note(e)
			roots = append(roots, e)
			p.t.removed = append(p.t.removed, e)
		}
	}
	for p.rich && len(roots) > 0 && p.r.Intn(2) == 0 {
		p.w.emit(p.pick(subtree(roots[p.r.Intn(len(roots))].(Ent))), sendTypes[p.r.Intn(len(sendTypes))])
	}
	p.logf("%s %d roots", form, len(roots))
	return roots
}

// stored builds an entity from a stored row, with or without what is below.
func (p *Prog) stored(r Row) Ent {
	root := newEnt(p.w, r.K)
	c := root.C()
	c.UID, c.Name, c.Val, c.Aux = r.UID, r.Name, r.Val, r.Aux
	c.SetID(r.ID)
	if p.r.Intn(2) == 0 {
		p.fill(root)
	}
	return root
}

// removeSome walks over the roots a builder command was given and removes some.
func (p *Prog) removeSome(roots []ddd.IEntity) {
	all := p.r.Intn(2) == 0
	given := append([]ddd.IEntity(nil), roots...)
	for i := range roots {
		if !all && p.r.Intn(2) == 0 {
			continue
		}
		e := given[i].(Ent)
		p.logf("remove root %s", tagOf(e))
		p.api.Remove(roots[i])
		for j, m := range p.t.managed {
			if m == e {
				p.t.managed = append(append([]Ent(nil), p.t.managed[:j]...), p.t.managed[j+1:]...)
				break
			}
		}
		p.t.removed = append(p.t.removed, e)
	}
}

func (p *Prog) opRemoveUntracked() {
	if p.api.Form() == "legacy" { // a RootContainer only removes what it holds
		return
	}
	rs := p.storedRoots()
	if len(rs) == 0 {
		return
	}
	root := p.stored(rs[p.r.Intn(len(rs))])
	p.logf("remove untracked %s (%d entities)", tagOf(root), len(subtree(root)))
	if p.rich && p.r.Intn(2) == 0 {
		p.w.emit(root, sendTypes[p.r.Intn(len(sendTypes))])
	}
	p.note(root)
	p.api.Remove(root)
	p.t.removed = append(p.t.removed, root)
}

func (p *Prog) pick(es []Ent) Ent {
	if len(es) == 0 {
		return nil
	}
	return es[p.r.Intn(len(es))]
}

func (p *Prog) slotFor(parent Ent, k Kind) (Slot, bool) {
	var c []Slot
	for _, s := range parent.Slots() {
		for _, a := range s.Accepts {
			if a == k {
				c = append(c, s)
			}
		}
	}
	if len(c) == 0 {
		return Slot{}, false
	}
	return c[p.r.Intn(len(c))], true
}

func insertAt(es []Ent, i int, e Ent) []Ent {
	out := append([]Ent(nil), es[:i]...)
	out = append(out, e)
	return append(out, es[i:]...)
}

// put e into a slot of parent, displacing what a single slot held.
func (p *Prog) attach(parent Ent, s Slot, e Ent) {
	cur := s.Get()
	if s.Multi {
		s.Set(insertAt(cur, p.r.Intn(len(cur)+1), e))
		return
	}
	for _, old := range cur {
		p.t.limbo = append(p.t.limbo, old)
	}
	s.Set([]Ent{e})
}

func (p *Prog) opAttachNew() {
	parent := p.pick(p.live())
	if parent == nil {
		return
	}
	ss := parent.Slots()
	if len(ss) == 0 {
		return
	}
	s := ss[p.r.Intn(len(ss))]
	e := p.freshTree(s.Accepts[p.r.Intn(len(s.Accepts))], p.r.Intn(3), 4)
	p.logf("attach new %s (%d) to %s.%s", tagOf(e), len(subtree(e)), tagOf(parent), s.Name)
	p.attach(parent, s, e)
}

func (p *Prog) detachFrom(parent, e Ent) {
	for _, s := range parent.Slots() {
		cur := s.Get()
		for i, x := range cur {
			if x == e {
				s.Set(append(append([]Ent(nil), cur[:i]...), cur[i+1:]...))
				return
			}
		}
	}
}

func (p *Prog) children() (es []Ent, par map[Ent]Ent) {
	par = map[Ent]Ent{}
	for _, r := range p.t.managed {
		walkEnt(r, nil, func(e, q Ent) {
			if q != nil {
				es = append(es, e)
				par[e] = q
			}
		})
	}
	return
}

func (p *Prog) opDetach() {
	es, par := p.children()
	e := p.pick(es)
	if e == nil {
		return
	}
	p.logf("detach %s from %s", tagOf(e), tagOf(par[e]))
	p.detachFrom(par[e], e)
	p.t.limbo = append(p.t.limbo, e)
}

func (p *Prog) opMove() {
	es, par := p.children()
	e := p.pick(es)
	if e == nil {
		return
	}
	below := map[Ent]bool{}
	for _, d := range subtree(e) {
		below[d] = true
	}
	var targets []Ent
	for _, x := range p.live() {
		if !below[x] {
			if _, ok := p.slotFor(x, e.C().K); ok {
				targets = append(targets, x)
			}
		}
	}
	to := p.pick(targets)
	if to == nil {
		return
	}
	s, _ := p.slotFor(to, e.C().K)
	p.logf("move %s from %s to %s.%s", tagOf(e), tagOf(par[e]), tagOf(to), s.Name)
	p.detachFrom(par[e], e)
	p.attach(to, s, e)
}

// opMoveAll moves several children of one parent at once.
func (p *Prog) opMoveAll() {
	type src struct {
		e Ent
		s Slot
	}
	var c []src
	for _, e := range p.live() {
		for _, s := range e.Slots() {
			if s.Multi && len(s.Get()) > 1 {
				c = append(c, src{e, s})
			}
		}
	}
	if len(c) == 0 {
		return
	}
	x := c[p.r.Intn(len(c))]
	below := map[Ent]bool{}
	for _, d := range subtree(x.e) {
		below[d] = true
	}
	n := 0
	for _, ch := range x.s.Get() {
		if p.r.Intn(4) == 0 {
			continue
		}
		var targets []Ent
		for _, q := range p.live() {
			if _, ok := p.slotFor(q, ch.C().K); ok && !below[q] {
				targets = append(targets, q)
			}
		}
		to := p.pick(targets)
		if to == nil {
			continue
		}
		s, _ := p.slotFor(to, ch.C().K)
		p.detachFrom(x.e, ch)
		p.attach(to, s, ch)
		n++
	}
	p.logf("move %d children of %s.%s", n, tagOf(x.e), x.s.Name)
}

func (p *Prog) opReattach() {
	if len(p.t.limbo) == 0 {
		return
	}
	i := p.r.Intn(len(p.t.limbo))
	e := p.t.limbo[i]
	// reattach either the entity itself or a descendant taken out of it
	sub := subtree(e)
	x := sub[p.r.Intn(len(sub))]
	var targets []Ent
	for _, q := range p.live() {
		if _, ok := p.slotFor(q, x.C().K); ok {
			targets = append(targets, q)
		}
	}
	to := p.pick(targets)
	if to == nil {
		return
	}
	s, _ := p.slotFor(to, x.C().K)
	p.logf("reattach %s (from detached %s) to %s.%s", tagOf(x), tagOf(e), tagOf(to), s.Name)
	if x == e {
		p.t.limbo = append(append([]Ent(nil), p.t.limbo[:i]...), p.t.limbo[i+1:]...)
	} else {
		walkEnt(e, nil, func(y, q Ent) {
			if y == x && q != nil {
				defer p.detachFrom(q, x)
			}
		})
		// re-walk: detaching inside the walk is done above through defer
	}
	p.attach(to, s, x)
}

// opRescue moves a child of a removed root into a surviving parent.
func (p *Prog) opRescue() {
	if len(p.t.removed) == 0 {
		return
	}
	r := p.pick(p.t.removed)
	var es []Ent
	par := map[Ent]Ent{}
	walkEnt(r, nil, func(e, q Ent) {
		if q != nil {
			es = append(es, e)
			par[e] = q
		}
	})
	e := p.pick(es)
	if e == nil {
		return
	}
	var targets []Ent
	for _, q := range p.live() {
		if _, ok := p.slotFor(q, e.C().K); ok {
			targets = append(targets, q)
		}
	}
	to := p.pick(targets)
	if to == nil {
		return
	}
	s, _ := p.slotFor(to, e.C().K)
	p.logf("rescue %s from removed %s to %s.%s", tagOf(e), tagOf(r), tagOf(to), s.Name)
	p.detachFrom(par[e], e)
	p.attach(to, s, e)
}

// opStrip takes a child out of an entity that an earlier save deleted.
func (p *Prog) opStrip() {
	e := p.pick(p.t.dead)
	if e == nil {
		return
	}
	for _, s := range e.Slots() {
		if cur := s.Get(); len(cur) > 0 {
			p.logf("take %s out of deleted %s", tagOf(cur[0]), tagOf(e))
			s.Set(cur[1:])
			return
		}
	}
}

func (p *Prog) opRevive() {
	var c []Ent
	used := map[Ent]bool{}
	for _, e := range p.live() {
		used[e] = true
	}
	for _, l := range [][]Ent{p.t.limbo, p.t.removed} {
		for _, x := range l {
			for _, d := range subtree(x) {
				used[d] = true
			}
		}
	}
	for _, e := range p.t.dead {
		ok := true
		for _, d := range subtree(e) {
			if used[d] {
				ok = false
			}
			if _, in := p.t.shadow[rkey{tableOf(d.C().K), d.GetID()}]; in {
				ok = false
			}
			if _, in := p.t.prev[d]; in {
				ok = false
			}
		}
		if ok && e.C().K != KMemo {
			c = append(c, e)
		}
	}
	e := p.pick(c)
	if e == nil || p.dry {
		return
	}
	var targets []Ent
	for _, q := range p.live() {
		if _, ok := p.slotFor(q, e.C().K); ok {
			targets = append(targets, q)
		}
	}
	to := p.pick(targets)
	if to == nil {
		return
	}
	s, _ := p.slotFor(to, e.C().K)
	p.logf("re-create deleted %s under %s.%s", tagOf(e), tagOf(to), s.Name)
	nd := p.t.dead[:0:0]
	for _, d := range p.t.dead {
		keep := true
		for _, x := range subtree(e) {
			if x == d {
				keep = false
			}
		}
		if keep {
			nd = append(nd, d)
		}
	}
	p.t.dead = nd
	for _, d := range nd { // a deleted parent may still hold it
		p.detachFrom(d, e)
	}
	for _, d := range subtree(e) {
		p.t.preset[d.C().UID] = d.GetID()
	}
	p.attach(to, s, e)
}

func (p *Prog) opModify() {
	e := p.pick(p.live())
	if e == nil {
		return
	}
	c := e.C()
	switch p.r.Intn(4) {
	case 0:
		c.Name = fmt.Sprintf("m%d", p.r.Intn(9))
	case 1:
		c.Val = p.r.Intn(9)
	case 2:
		c.Aux = []string{"", "y", "z"}[p.r.Intn(3)]
		c.Name = ""
	case 3: // dirty without a change
	}
	c.Dirty()
	p.t.dirty[e] = true
	p.logf("modify %s", tagOf(e))
}

func (p *Prog) opEmit() {
	var es []Ent
	switch p.r.Intn(5) {
	case 0:
		for _, l := range p.t.limbo {
			es = append(es, subtree(l)...)
		}
		for _, l := range p.t.removed {
			es = append(es, subtree(l)...)
		}
		if len(es) == 0 {
			es = p.live()
		}
	default:
		es = p.live()
	}
	e := p.pick(es)
	if e == nil {
		return
	}
	n := 1 + p.r.Intn(2)
	for i := 0; i < n; i++ {
		st := sendTypes[p.r.Intn(len(sendTypes))]
		p.w.emit(e, st)
		p.logf("emit %s from %s", st, tagOf(e))
	}
}

func (p *Prog) opSave() error {
	src, opt := maps.Clone(p.t.sources), maps.Clone(p.t.optSource)
	pl := p.t.plan()
	m := p.w.mark()
	p.logf("save")
	if err := p.api.Save(p.ctx); err != nil {
		wrote := false
		for _, e := range p.w.since(m) {
			wrote = wrote || e.What == "insert" || e.What == "update" || e.What == "delete"
		}
		if !wrote && p.goesOn() { // the next save has to do it all
			for k := range p.t.sources {
				opt[k] = true
			}
			p.t.sources, p.t.optSource = src, opt
			for _, e := range pl.created {
				if id := e.GetID(); id != "" && p.t.preset[e.C().UID] == "" {
					p.t.preset[e.C().UID] = id
				}
			}
			p.w.c.Count("saves_repeated", 1)
			return nil
		}
		p.t.unknown = true
		p.saveErr = err
		return err
	}
	p.t.verify(pl, p.w.since(m), p.dry)
	for _, e := range p.live() {
		if e.IsDirty() {
			p.w.c.Violate("C01", "dirty-after-save", "%s is still marked dirty after a save", tagOf(e))
		}
	}
	return nil
}

// run executes n random operations.
func (p *Prog) run(n int) error {
	for i := 0; i < n; i++ {
		x := p.r.Intn(100)
		if i < 2 && p.r.Intn(3) > 0 { // most of what follows needs something loaded
			x = 0
		}
		if i == n/3 && p.r.Intn(5) < 2 { // later operations then work on saved entities
			x = 99
		}
		if i > n/3 && p.t.saves+p.loads > 0 && p.r.Intn(6) == 0 {
			x = 48 + p.r.Intn(10)
		}
		if p.delBias && p.r.Intn(3) == 0 {
			x = []int{39, 40, 88, 89, 91, 92, 93, 94, 60, 50}[p.r.Intn(10)]
		}
		if p.loadBias && p.r.Intn(3) == 0 {
			x = []int{0, 1, 2, 3, 70, 71, 72, 99}[p.r.Intn(8)]
		}
		switch {
		case x < 14:
			if p.noLoad {
				continue
			}
			if x == 13 && p.t.saves+p.loads > 0 && p.r.Intn(2) == 0 {
				if err := p.opLoadAgain(); err != nil {
					return err
				}
			} else if x == 12 {
				if err := p.opGetOrCreate(); err != nil {
					return err
				}
			} else if err := p.opLoad(); err != nil {
				return err
			}
		case x < 24:
			p.opAddRoot()
		case x < 26:
			p.opAddTwo()
		case x < 38:
			p.opAttachNew()
		case x < 48:
			p.opDetach()
		case x < 56:
			p.opMove()
		case x < 58:
			p.opMoveAll()
		case x < 64:
			p.opReattach()
		case x < 67:
			if p.r.Intn(3) == 0 {
				p.opStrip()
			} else {
				p.opRevive()
			}
		case x < 81:
			p.opModify()
		case x < 87:
			if p.rich {
				p.opEmit()
			}
		case x < 91:
			p.opRemoveRoot()
		case x < 93:
			p.opRescue()
		case x < 95:
			p.opRemoveUntracked()
		default:
			if p.noSave {
				continue
			}
			if err := p.opSave(); err != nil {
				return err
			}
		}
	}
	return nil
}

// ------------------------------------------------------------ command forms

type cmdMain struct {
	main func(ctx context.Context, repo *ddd.Repository) error
	post func(ctx context.Context, res *ddd.Result)
	init func(ctx context.Context) ([]string, error)
}

func (c *cmdMain) Main(ctx context.Context, repo *ddd.Repository) error { return c.main(ctx, repo) }

type cmdMainInit struct{ cmdMain }

func (c *cmdMainInit) Init(ctx context.Context) ([]string, error) { return c.init(ctx) }

type cmdMainPost struct{ cmdMain }

func (c *cmdMainPost) PostSave(ctx context.Context, res *ddd.Result) { c.post(ctx, res) }

type cmdMainFull struct{ cmdMain }

func (c *cmdMainFull) Init(ctx context.Context) ([]string, error)    { return c.init(ctx) }
func (c *cmdMainFull) PostSave(ctx context.Context, res *ddd.Result) { c.post(ctx, res) }

type cmdLegacy struct {
	ddd.Command
	init  func(ctx context.Context) ([]string, error)
	build func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error)
	act   func(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error
	post  func(ctx context.Context, res *ddd.Result)
}

func (c *cmdLegacy) Init(ctx context.Context) ([]string, error) { return c.init(ctx) }
func (c *cmdLegacy) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.build(ctx, b)
}
func (c *cmdLegacy) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	return c.act(ctx, cont, roots...)
}
func (c *cmdLegacy) PostSave(ctx context.Context, res *ddd.Result) { c.post(ctx, res) }

type legacyAPI struct {
	cmd   *cmdLegacy
	b     *ddd.DomainBuilder
	cont  *ddd.RootContainer
	roots []ddd.IEntity
}

func (a *legacyAPI) Load(ctx context.Context, root Ent, ch ...any) error {
	if a.b == nil {
		return errors.New("harness: load outside build")
	}
	if err := a.b.Build(ctx, root, ch...); err != nil {
		return err
	}
	a.roots = append(a.roots, root)
	return nil
}
func (a *legacyAPI) Custom(ctx context.Context, g func(context.Context, ...ddd.IEntity), roots ...ddd.IEntity) error {
	g(ctx, roots...)
	a.roots = append(a.roots, roots...)
	return nil
}
func (a *legacyAPI) Add(roots ...ddd.IEntity) {
	for _, r := range roots {
		a.cont.Add(r)
	}
}
func (a *legacyAPI) Remove(root ddd.IEntity)        { a.cont.Remove(root) }
func (a *legacyAPI) Save(ctx context.Context) error { return a.cmd.Commit(ctx) }
func (a *legacyAPI) Form() string                   { return "legacy" }

// runLegacyOps: loads happen in build, everything else in act.
func (p *Prog) loadSome(n int) error {
	for i := 0; i < n; i++ {
		if err := p.opLoad(); err != nil {
			return err
		}
	}
	return nil
}

func jsonOf(v any) string { b, _ := json.Marshal(v); return string(b) }
