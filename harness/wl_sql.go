package harness

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
)

// sqRow is what a row must hold.
type sqRow struct {
	cols    sqCols
	created string // created_at once it was first seen
}

type sqWorld struct {
	c      *C
	r      *rand.Rand
	db     *simDB
	app    *simInst
	eng    *ddd.Engine
	recur  bool
	want   map[string]map[string]*sqRow
	nid    int64
	place  bool // mutate reference fields in place
	roots  []string
	nv     int
	foreig int
	seqs   map[string]int
}

type sqKey struct{ table, id string }

func (w *sqWorld) violate(p, sig, f string, a ...any) {
	if w.nv++; w.nv <= 4 {
		w.c.Violate(p, sig, f, a...)
	}
}

func (w *sqWorld) id() string {
	w.nid++
	switch w.r.Intn(6) {
	case 0:
		return fmt.Sprintf("%d%s", w.nid, pick(w.r, "'", `"`, "%", " x", "é", "\\", "`", "?", "😀", ";--"))
	}
	return fmt.Sprintf("n%d", w.nid)
}

// tracked is one entity of the running command.
type sqTracked struct {
	e       sqEnt
	old     sqCols // as loaded; nil for a new entity
	parent0 sqEnt
}

type sqCmd struct {
	w       *sqWorld
	roots   []*sqRoot // loaded
	added   []*sqRoot
	gone    []*sqRoot
	tr      []*sqTracked
	dropped map[ddd.IEntity]bool // detached or removed
	saved   bool
	inPlace bool
	ops     []string
}

func (m *sqCmd) track(e, parent sqEnt, loaded bool) {
	t := &sqTracked{e: e, parent0: parent}
	if loaded {
		var p ddd.IEntity
		if parent != nil {
			p = parent
		}
		t.old = sqColumns(sqPO(e, p))
	}
	m.tr = append(m.tr, t)
	for _, k := range e.kids() {
		m.track(k, e, loaded)
	}
}

func (m *sqCmd) op(f string, a ...any) { m.ops = append(m.ops, fmt.Sprintf(f, a...)) }

func (m *sqCmd) newItem() *sqItem {
	e := &sqItem{V: sqRandom(m.w.r)}
	if m.w.r.Intn(2) == 0 {
		e.SetID(m.w.id())
	}
	for k := m.w.r.Intn(3); k > 0; k-- {
		e.Parts = append(e.Parts, m.newPart())
	}
	return e
}

func (m *sqCmd) newPart() *sqPart {
	m.w.nid++
	e := &sqPart{V: sqRandom(m.w.r)}
	e.SetID(fmt.Sprint(m.w.nid))
	return e
}

func (m *sqCmd) newLine(r *sqRoot) *sqLine {
	n := m.w.seqs[r.GetID()]
	m.w.seqs[r.GetID()]++
	e := &sqLine{V: sqRandom(m.w.r)}
	e.SetID(fmt.Sprintf("%s/%d", r.GetID(), n))
	return e
}

func (m *sqCmd) newNote() *sqNote {
	e := &sqNote{V: sqRandom(m.w.r)}
	if m.w.r.Intn(2) == 0 {
		e.SetID(m.w.id())
	}
	return e
}

func (m *sqCmd) newRoot() *sqRoot {
	e := &sqRoot{V: sqRandom(m.w.r)}
	e.SetID(m.w.id())
	for k := m.w.r.Intn(4); k > 0; k-- {
		e.Items = append(e.Items, m.newItem())
	}
	for k := m.w.r.Intn(4); k > 0; k-- {
		e.Lines = append(e.Lines, m.newLine(e))
	}
	if m.w.r.Intn(2) == 0 {
		e.Note = m.newNote()
	}
	return e
}

// live lists the entities of the aggregates the command still has.
func (m *sqCmd) live() []*sqRoot {
	var r []*sqRoot
	for _, x := range append(append([]*sqRoot{}, m.roots...), m.added...) {
		if !m.dropped[x] {
			r = append(r, x)
		}
	}
	return r
}

func walkSq(e, parent sqEnt, f func(e, parent sqEnt)) {
	f(e, parent)
	for _, k := range e.kids() {
		walkSq(k, e, f)
	}
}

// movedIn: something under e was loaded under another parent; removing both at once is left open.
func (m *sqCmd) movedIn(e sqEnt) (moved bool) {
	walkSq(e, nil, func(x, p sqEnt) {
		for _, t := range m.tr {
			if t.e == x && p != nil && t.parent0 != p {
				moved = true
			}
		}
	})
	return
}

func (m *sqCmd) drop(e sqEnt) {
	m.dropped[e] = true
}

// step does one random change. add and remove register roots.
func (m *sqCmd) step(add, remove func(ddd.IEntity)) {
	r := m.w.r
	live := m.live()
	if len(live) == 0 || r.Intn(10) == 0 {
		x := m.newRoot()
		m.added = append(m.added, x)
		add(x)
		m.op("add %s", x.GetID())
		return
	}
	x := live[r.Intn(len(live))]
	switch r.Intn(12) {
	case 0, 1, 2, 3, 4:
		var all []sqEnt
		walkSq(x, nil, func(e, _ sqEnt) { all = append(all, e) })
		e := all[r.Intn(len(all))]
		var did []string
		for k := 1 + r.Intn(3); k > 0; k-- {
			did = append(did, sqSet(r, e.vals(), r.Intn(sqNFields), m.inPlace))
		}
		if r.Intn(8) == 0 {
			*e.vals() = sqRandom(r)
		}
		e.Dirty()
		m.op("set %s %q %v", e.table(), e.GetID(), did)
	case 5:
		x.Items = append(x.Items, m.newItem())
		m.op("new item")
	case 6:
		x.Lines = append(x.Lines, m.newLine(x))
		m.op("new line")
	case 7:
		if x.Note != nil {
			m.drop(x.Note)
		}
		if x.Note = nil; r.Intn(2) == 0 {
			x.Note = m.newNote()
		}
		m.op("note")
	case 8:
		if len(x.Items) > 0 {
			i := r.Intn(len(x.Items))
			if m.movedIn(x.Items[i]) {
				return
			}
			m.op("drop item %q", x.Items[i].GetID())
			m.drop(x.Items[i])
			x.Items = append(append([]*sqItem{}, x.Items[:i]...), x.Items[i+1:]...)
		}
	case 9:
		if len(x.Lines) > 0 {
			i := r.Intn(len(x.Lines))
			m.op("drop line %q", x.Lines[i].GetID())
			m.drop(x.Lines[i])
			x.Lines = append(append([]*sqLine{}, x.Lines[:i]...), x.Lines[i+1:]...)
		}
	case 10:
		// to another aggregate, or a part to another item
		y := live[r.Intn(len(live))]
		if y != x && len(x.Items) > 0 && y.GetID() != "" {
			i := r.Intn(len(x.Items))
			it := x.Items[i]
			m.op("move item %q from %q to %q", it.GetID(), x.GetID(), y.GetID())
			x.Items = append(append([]*sqItem{}, x.Items[:i]...), x.Items[i+1:]...)
			y.Items = append(y.Items, it)
		} else if len(x.Items) > 1 && len(x.Items[0].Parts) > 0 {
			a, b := x.Items[0], x.Items[1]
			m.op("move part %q", a.Parts[0].GetID())
			b.Parts = append(b.Parts, a.Parts[0])
			a.Parts = append([]*sqPart{}, a.Parts[1:]...)
		}
	case 11:
		if r.Intn(3) == 0 && !m.movedIn(x) {
			m.gone = append(m.gone, x)
			m.drop(x)
			remove(x)
			m.op("remove %q", x.GetID())
		} else if len(x.Items) > 0 {
			it := x.Items[r.Intn(len(x.Items))]
			if r.Intn(2) == 0 || len(it.Parts) == 0 {
				it.Parts = append(it.Parts, m.newPart())
				m.op("new part")
			} else {
				m.drop(it.Parts[0])
				m.op("drop part %q", it.Parts[0].GetID())
				it.Parts = append([]*sqPart{}, it.Parts[1:]...)
			}
		}
	}
}

func (m *sqCmd) old(e sqEnt) sqCols {
	for _, t := range m.tr {
		if t.e == e {
			return t.old
		}
	}
	return nil
}

// foreign lets another client write a column the command does not change.
func (m *sqCmd) foreign() {
	w := m.w
	for _, x := range m.live() {
		walkSq(x, nil, func(e, parent sqEnt) {
			old := m.old(e)
			if old == nil || w.r.Intn(3) > 0 {
				return
			}
			var p ddd.IEntity
			if parent != nil {
				p = parent
			}
			po := sqPO(e, p)
			changed := map[string]bool{}
			for _, k := range sqColumns(po).diff(old) {
				changed[k] = true
			}
			var cand []string
			for _, k := range []string{"name", "n", "b", "f", "p", "ps", "bill_city", "ship_city", "bill_zip", "ship_zip", "at", "geo", "dec", "ns", "pt", "bill_name", "ship_name", "group"} {
				if !changed[k] {
					cand = append(cand, k)
				}
			}
			w.r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
			row := w.want[e.table()][e.GetID()]
			if row == nil {
				return
			}
			for _, k := range cand[:min(len(cand), 1+w.r.Intn(4))] {
				// a model with that column set to something else
				other := reflect.New(reflect.TypeOf(po).Elem()).Interface().(exmysql.IModel)
				*poVals(other) = sqRandom(w.r)
				f := sqSchema(other).LookUpField(k)
				val := fieldAt(reflect.ValueOf(other), f)
				q := w.db.mon.g.Table(e.table())
				switch t := po.(type) {
				case *sqLinePO:
					q = q.Where("root_id = ? and seq = ?", t.RootID, t.Seq)
				case *sqPartPO:
					q = q.Where("pid = ?", t.PID)
				case *sqNotePO:
					q = q.Where("`order` = ?", t.ID)
				default:
					q = q.Where("id = ?", e.GetID())
				}
				var v any = val.Interface()
				if k == "geo" {
					v = `{"X":7,"Y":8,"Tag":"other","Path":[1]}`
				}
				if err := q.UpdateColumn(k, v).Error; err != nil {
					w.c.Inconclusive("foreign write: %v", err)
					return
				}
				if k == "geo" {
					s := "other"
					row.cols[k] = canon(reflect.ValueOf(sqGeo{X: 7, Y: 8, Tag: &s, Path: []int{1}}))
				} else {
					row.cols[k] = canon(val)
				}
				w.foreig++
				m.op("other writer %s %q %s", e.table(), e.GetID(), k)
			}
		})
	}
}

// commit applies what the command did to the expectation.
func (m *sqCmd) commit() {
	w := m.w
	deleted := map[ddd.IEntity]bool{}
	alive := map[ddd.IEntity]bool{}
	for _, x := range m.live() {
		walkSq(x, nil, func(e, _ sqEnt) { alive[e] = true })
	}
	for e := range m.dropped {
		if alive[e] {
			continue
		}
		deleted[e] = true
		if w.recur {
			walkSq(e.(sqEnt), nil, func(k, _ sqEnt) {
				if !alive[k] {
					deleted[k] = true
				}
			})
		}
	}
	for e := range deleted {
		delete(w.want[e.(sqEnt).table()], e.GetID())
	}
	for _, x := range m.live() {
		walkSq(x, nil, func(e, parent sqEnt) {
			var p ddd.IEntity
			if parent != nil {
				p = parent
			}
			now := sqColumns(sqPO(e, p))
			t := e.table()
			if w.want[t] == nil {
				w.want[t] = map[string]*sqRow{}
			}
			old := m.old(e)
			if old == nil {
				w.want[t][e.GetID()] = &sqRow{cols: now}
				w.c.Count("rows_inserted", 1)
				return
			}
			row := w.want[t][e.GetID()]
			if row == nil {
				w.c.Inconclusive("no expectation for %s %q", t, e.GetID())
				return
			}
			for _, k := range now.diff(old) {
				row.cols[k] = now[k]
				w.c.Count("columns_changed", 1)
			}
		})
	}
	w.c.Count("rows_deleted", len(deleted))
	var left []string
	for id := range w.want["sq_root"] {
		left = append(left, id)
	}
	sort.Strings(left)
	w.roots = left
}

// again starts over after a save inside the command.
func (m *sqCmd) again() {
	live := m.live()
	m.roots, m.added, m.gone, m.tr, m.dropped = live, nil, nil, nil, map[ddd.IEntity]bool{}
	for _, x := range live {
		m.track(x, nil, true)
	}
}

func (w *sqWorld) copyWant() map[string]map[string]*sqRow {
	r := map[string]map[string]*sqRow{}
	for t, rows := range w.want {
		r[t] = map[string]*sqRow{}
		for id, row := range rows {
			n := &sqRow{cols: sqCols{}, created: row.created}
			for k, v := range row.cols {
				n.cols[k] = v
			}
			r[t][id] = n
		}
	}
	return r
}

func (w *sqWorld) compare(what string, ops []string) bool {
	got, err := sqDump(w.db.mon.g)
	if err != nil {
		w.c.Inconclusive("dump: %v", err)
		return false
	}
	ok := true
	bad := func(p, sig, f string, a ...any) {
		ok = false
		w.violate(p, sig, "%s: %s\noperations: %s", what, fmt.Sprintf(f, a...), strings.Join(ops, "; "))
	}
	tables := []string{"sq_root", "sq_item", "sq_part", "sq_line", "sq_note"}
	n := 0
	for _, t := range tables {
		for id, po := range got[t] {
			n++
			row := w.want[t][id]
			if row == nil {
				bad("X01", "extra-row", "%s %q is in the database: %s", t, id, cut(fmt.Sprint(sqColumns(po)), 300))
				continue
			}
			is := sqColumns(po)
			if d := is.diff(row.cols); len(d) > 0 {
				var s []string
				for _, k := range d {
					s = append(s, fmt.Sprintf("%s is %s instead of %s", k, cut(is[k], 80), cut(row.cols[k], 80)))
				}
				bad("X01", "wrong-value", "%s %q: %s", t, id, strings.Join(s, ", "))
				bad("X02", "wrong-value", "%s %q: %s", t, id, strings.Join(s, ", "))
			}
			if f := reflect.Indirect(reflect.ValueOf(po)).FieldByName("CreatedAt"); f.IsValid() {
				if row.created == "" {
					row.created = canon(f)
				} else if row.created != canon(f) {
					bad("X02", "created-at", "%s %q: its creation time changed from %s to %s", t, id, row.created, canon(f))
				}
			}
		}
		for id := range w.want[t] {
			if got[t][id] == nil {
				bad("X01", "missing-row", "%s %q is not in the database", t, id)
			}
		}
	}
	w.c.Count("rows_compared", n)
	if st := w.app.sdb.Stats(); st.InUse != 0 {
		w.violate("X03", "connection-leak", "%s: %d connections are still in use\noperations: %s", what, st.InUse, strings.Join(ops, "; "))
	}
	return ok
}

// loadedEqual: what was loaded is what is stored.
func (m *sqCmd) loadedEqual(x *sqRoot, parts bool) {
	w := m.w
	n := 0
	walkSq(x, nil, func(e, parent sqEnt) {
		n++
		var p ddd.IEntity
		if parent != nil {
			p = parent
		}
		row := w.want[e.table()][e.GetID()]
		if row == nil {
			w.violate("X01", "loaded-extra", "loading %q gave %s %q, which is not stored", x.GetID(), e.table(), e.GetID())
			return
		}
		if d := sqColumns(sqPO(e, p)).diff(row.cols); len(d) > 0 {
			w.violate("X01", "loaded-wrong", "loading %q: %s %q has %v: %s instead of %s", x.GetID(), e.table(), e.GetID(), d, sqColumns(sqPO(e, p))[d[0]], row.cols[d[0]])
		}
	})
	stored := 1
	for t, col := range map[string]string{"sq_item": "parent_id", "sq_line": "root_id", "sq_note": "parent_id"} {
		for _, row := range w.want[t] {
			if row.cols[col] == canon(reflect.ValueOf(x.GetID())) {
				stored++
			}
		}
	}
	if parts {
		for _, it := range x.Items {
			for _, row := range w.want["sq_part"] {
				if row.cols["parent_id"] == canon(reflect.ValueOf(it.GetID())) {
					stored++
				}
			}
		}
	}
	if n != stored {
		w.violate("X01", "loaded-count", "loading %q gave %d entities, %d are stored", x.GetID(), n, stored)
	}
	w.c.Count("entities_loaded", n)
}

type sqBuildAct struct {
	ddd.Command
	build func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error)
	act   func(ctx context.Context, c ddd.RootContainer) error
}

func (c *sqBuildAct) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.build(ctx, b)
}
func (c *sqBuildAct) Act(ctx context.Context, rc ddd.RootContainer, _ ...ddd.IEntity) error {
	return c.act(ctx, rc)
}

var errSqFail = errors.New("the command fails")

// sqlCommand runs one random command.
func (w *sqWorld) command(fault bool) {
	r, c := w.r, w.c
	m := &sqCmd{w: w, dropped: map[ddd.IEntity]bool{}, inPlace: w.place}
	var ids []string
	for k := r.Intn(3); k >= 0 && len(w.roots) > 0; k-- {
		id := w.roots[r.Intn(len(w.roots))]
		dup := false
		for _, x := range ids {
			dup = dup || x == id
		}
		if !dup {
			ids = append(ids, id)
		}
	}
	end := "ok"
	if r.Intn(4) == 0 {
		end = pick(r, "error", "panic", "utf8", "duplicate", "converter", "query-root", "query-child", "reading")
	}
	if len(ids) == 0 && (end == "query-root" || end == "query-child" || end == "reading") {
		end = "converter"
	}
	sqReadFails = 0
	if end == "reading" {
		sqReadFails = 1 + r.Intn(3)
	}
	defer func() { sqReadFails = 0 }()
	fresh := func(id string) *sqRoot {
		x := &sqRoot{}
		x.SetID(id)
		switch end {
		case "query-root":
			x.V.Name = sqFailName
		case "query-child":
			x.Note = &sqNote{V: SqVals{Name: sqFailName}}
		}
		return x
	}
	mid := r.Intn(4) == 0
	steps := r.Intn(6)
	script := func(add, remove func(ddd.IEntity), save func() error) error {
		for k := 0; k < steps; k++ {
			m.step(add, remove)
			if mid && save != nil && k == steps/2 {
				m.op("save")
				m.saved = true
				if err := save(); err != nil {
					return err
				}
				m.commit()
				m.again()
			}
		}
		if !m.saved {
			m.foreign()
		}
		switch end {
		case "error":
			return errSqFail
		case "panic":
			panic(injected{"command"})
		case "reading":
			if sqReadFails > 0 { // fewer rows than that
				return errSqFail
			}
		case "converter":
			x := m.newRoot()
			all := []sqEnt{x}
			for _, k := range x.kids() {
				all = append(all, k)
			}
			all[r.Intn(len(all))].vals().Name = sqFailName
			m.added = append(m.added, x)
			add(x)
		case "utf8":
			x := m.newRoot()
			x.V.Name = "\xff\xfe"
			m.added = append(m.added, x)
			add(x)
		case "duplicate":
			var have []string
			for _, id := range w.roots {
				gone := false
				for _, x := range m.gone {
					gone = gone || x.GetID() == id
				}
				if !gone {
					have = append(have, id)
				}
			}
			if len(have) > 0 {
				x := m.newRoot()
				x.SetID(have[0])
				x.Lines = nil
				m.added = append(m.added, x)
				add(x)
			} else {
				return errSqFail
			}
		}
		return nil
	}
	var opts []ddd.Option
	var cmd any
	if r.Intn(2) == 0 {
		// with all descendants
		cmd = &sqBuildAct{
			build: func(ctx context.Context, b ddd.DomainBuilder) (out []ddd.IEntity, err error) {
				for _, id := range ids {
					x := fresh(id)
					if err := b.Build(ctx, x, &x.Items, &x.Lines, &x.Note); err != nil {
						return nil, err
					}
					for _, it := range x.Items {
						it.V = SqVals{} // or everything in it selects
						if err := b.Build(ctx, it, &it.Parts); err != nil {
							return nil, err
						}
					}
					m.loadedEqual(x, true)
					m.roots = append(m.roots, x)
					m.track(x, nil, true)
					out = append(out, x)
				}
				return
			},
			act: func(ctx context.Context, rc ddd.RootContainer) error {
				return script(func(e ddd.IEntity) { rc.Add(e) }, func(e ddd.IEntity) { rc.Remove(e) }, nil)
			},
		}
	} else {
		cmd = func(ctx context.Context, repo *ddd.Repository) error {
			for _, id := range ids {
				x := fresh(id)
				if err := repo.Get(ctx, x, &x.Items, &x.Lines, &x.Note); err != nil {
					return err
				}
				m.loadedEqual(x, false)
				m.roots = append(m.roots, x)
				m.track(x, nil, true)
			}
			return script(func(e ddd.IEntity) { repo.Add(e) }, func(e ddd.IEntity) { repo.Remove(e) }, func() error { return repo.Save(ctx) })
		}
	}
	before, rootsBefore := w.copyWant(), w.roots
	var res *ddd.Result
	panicked := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(injected); !ok {
					panic(x)
				}
				panicked = true
			}
		}()
		res = w.eng.Run(context.Background(), cmd, opts...)
	}()
	c.Count("commands", 1)
	failed := panicked || res.Error != nil
	what := fmt.Sprintf("command %v on %q (recursive %v, mid %v)", end, ids, w.recur, mid)
	if end == "ok" && failed {
		w.violate("X01", "failed", "%s failed: %v\noperations: %s", what, res.Error, strings.Join(m.ops, "; "))
	}
	if end != "ok" && !failed {
		w.violate("X01", "not-reported", "%s succeeded\noperations: %s", what, strings.Join(m.ops, "; "))
	}
	if failed && !panicked {
		switch end {
		case "error":
			if !errors.Is(res.Error, errSqFail) {
				w.violate("X01", "cause-lost", "%s failed with %v\noperations: %s", what, res.Error, strings.Join(m.ops, "; "))
			}
		case "converter", "query-root", "query-child":
			if !errors.Is(res.Error, errSqConv) {
				w.violate("X01", "cause-lost", "%s failed with %v\noperations: %s", what, res.Error, strings.Join(m.ops, "; "))
			}
		}
		c.Count("failed_by_"+end, 1)
	}
	if failed {
		c.Count("commands_failed", 1)
		if m.saved {
			w.want, w.roots = before, rootsBefore
		}
	} else {
		m.commit()
	}
	if !w.compare(what, m.ops) && failed {
		w.violate("X03", "failed-visible", "%s failed and left something in the database\noperations: %s", what, strings.Join(m.ops, "; "))
	}
	c.Logf("%s: %s", what, strings.Join(m.ops, "; "))
}

type noLocks struct{}

func (noLocks) Lock(ctx context.Context, key string) (any, error) { return key, nil }
func (noLocks) UnLock(ctx context.Context, l any) error           { return nil }

func sqlCase(place bool) func(c *C) {
	return func(c *C) {
		w := &sqWorld{c: c, r: c.R, db: newSimDB(), want: map[string]map[string]*sqRow{}, seqs: map[string]int{}, place: place}
		defer w.db.close()
		w.db.tracing = false
		w.app = w.db.newInst("app")
		sqNoAlias = !place && c.Index%2 == 0
		w.recur = c.R.Intn(3) == 0
		opts := []ddd.Option{ddd.WithLogger(discard)}
		if w.recur {
			opts = append(opts, ddd.WithRecursiveDelete)
		}
		w.eng = ddd.NewEngine(noLocks{}, exmysql.NewExecutor(w.app.g), opts...)
		// rows of other aggregates that are never touched
		for k := 0; k < 2; k++ {
			m := &sqCmd{w: w, dropped: map[ddd.IEntity]bool{}}
			x := m.newRoot()
			m.added = append(m.added, x)
			if res := w.eng.Create(context.Background(), x); res.Error != nil {
				w.violate("X01", "failed", "creating %q failed: %v", x.GetID(), res.Error)
				return
			}
			m.commit()
		}
		for k := 6 + c.R.Intn(10); k > 0 && w.nv == 0; k-- {
			w.command(false)
		}
		c.Count("foreign_writes", w.foreig)
		var s []string
		for t, m := range w.want {
			s = append(s, fmt.Sprintf("%s%d", t[3:5], len(m)))
		}
		sort.Strings(s)
		c.Distinct("%v %v", strings.Join(s, " "), w.nid)
		c.Sample("%d ids used, left %s", w.nid, strings.Join(s, " "))
	}
}

func init() {
	for _, p := range []string{"X01", "X02"} {
		Register(p, Workload{Name: "aggregates", Quick: 1600, Thorough: 60000, Fn: sqlCase(false)})
	}
	Register("X02", Workload{Name: "columns", Quick: 1600, Thorough: 60000, Fn: columnsCase})
	Register("X02", Workload{Name: "in-place", Quick: 400, Thorough: 8000, Fn: sqlCase(true)})
}

// columnsCase updates rows through the executor alone.
func columnsCase(c *C) {
	r := c.R
	db := newSimDB()
	defer db.close()
	db.tracing = false
	app := db.newInst("app")
	ex := exmysql.NewExecutor(app.g)
	ctx := context.Background()
	bad := 0
	for round := 0; round < 6; round++ {
		kind := r.Intn(5)
		n := 1 + r.Intn(4)
		mk := func(i int) sqEnt {
			switch kind {
			case 0:
				return &sqRoot{V: sqRandom(r)}
			case 1:
				return &sqItem{V: sqRandom(r)}
			case 2:
				return &sqPart{V: sqRandom(r)}
			case 3:
				return &sqLine{V: sqRandom(r)}
			}
			return &sqNote{V: sqRandom(r)}
		}
		parent := &sqRoot{}
		parent.SetID(fmt.Sprintf("p%d", round))
		var prevs, currs []ddd.IModel
		var ents []sqEnt
		want := map[string]sqCols{}
		var did []string
		for i := 0; i < n; i++ {
			e := mk(i)
			switch kind {
			case 2:
				e.SetID(fmt.Sprint(round*10 + i)) // 0 is a key too
			case 3:
				e.SetID(fmt.Sprintf("p%d/%d", round, i))
			default:
				e.SetID(fmt.Sprintf("r%d-%d", round, i))
			}
			ents = append(ents, e)
			po := sqPO(e, parent)
			*poVals(po) = sqClone(*poVals(po))
			prevs = append(prevs, po)
		}
		if err := ex.Exec(ctx, &ddd.Action{Op: ddd.OpInsert, Models: prevs}); err != nil {
			c.Violate("X02", "insert", "insert of %d models failed: %v", n, err)
			return
		}
		for i, e := range ents {
			old := sqColumns(prevs[i])
			v := e.vals()
			*v = sqClone(*v)
			for k := r.Intn(5); k > 0; k-- {
				did = append(did, e.GetID()+":"+sqSet(r, v, r.Intn(sqNFields), r.Intn(2) == 0))
			}
			po := sqPO(e, parent)
			if r.Intn(4) == 0 {
				*poVals(po) = sqClone(*poVals(po))
			}
			currs = append(currs, po)
			now := sqColumns(po)
			w := sqCols{}
			changed := map[string]bool{}
			for _, k := range now.diff(old) {
				changed[k] = true
			}
			for k := range now {
				w[k] = now[k]
			}
			// another writer
			other := reflect.New(reflect.TypeOf(po).Elem()).Interface().(exmysql.IModel)
			*poVals(other) = sqRandom(r)
			set := map[string]any{}
			for _, k := range []string{"name", "n", "u", "i8", "b", "f", "p", "ps", "pb", "bill_city", "ship_city", "bill_zip", "ship_zip", "bill_lat", "at", "bill_since", "dec", "ns", "pt", "bill_name", "ship_name", "group"} {
				if !changed[k] && r.Intn(3) == 0 {
					val := fieldAt(reflect.ValueOf(other), sqSchema(other).LookUpField(k))
					set[k] = val.Interface()
					w[k] = canon(val)
				}
			}
			if len(set) > 0 {
				q := db.mon.g.Table(e.table())
				switch t := po.(type) {
				case *sqLinePO:
					q = q.Where("root_id = ? and seq = ?", t.RootID, t.Seq)
				case *sqPartPO:
					q = q.Where("pid = ?", t.PID)
				case *sqNotePO:
					q = q.Where("`order` = ?", t.ID)
				default:
					q = q.Where("id = ?", e.GetID())
				}
				if err := q.UpdateColumns(set).Error; err != nil {
					c.Inconclusive("foreign write: %v", err)
					return
				}
			}
			want[e.GetID()] = w
			c.Count("columns_changed", len(changed))
			c.Count("columns_of_others", len(set))
			c.Distinct("%d %v", kind, now.diff(old))
		}
		if err := ex.Exec(ctx, &ddd.Action{Op: ddd.OpUpdate, Models: currs, PrevModels: prevs}); err != nil {
			c.Violate("X02", "update", "update of %d models failed: %v\nset %v", n, err, did)
			return
		}
		got, err := sqDump(db.mon.g)
		if err != nil {
			c.Inconclusive("dump: %v", err)
			return
		}
		for id, w := range want {
			po := got[ents[0].table()][id]
			if po == nil {
				c.Violate("X02", "lost-row", "%s %q is gone after an update\nset %v", ents[0].table(), id, did)
				continue
			}
			is := sqColumns(po)
			c.Count("rows_compared", 1)
			if d := is.diff(w); len(d) > 0 {
				var s []string
				for _, k := range d {
					s = append(s, fmt.Sprintf("%s is %s instead of %s", k, cut(is[k], 80), cut(w[k], 80)))
				}
				if bad++; bad < 4 {
					c.Violate("X02", "wrong-column", "%s %q after an update: %s\nset %v", ents[0].table(), id, strings.Join(s, ", "), did)
				}
			}
		}
		if round == 0 {
			c.Sample("update of %d %s: %v", n, ents[0].table(), did)
		}
	}
}

type dmInner struct {
	A int
	S string
	F float64
	T time.Time
	P *int
}

type DmAnon struct {
	AnonN int32
	AnonS string
}

type dmModel struct {
	ID  string `gorm:"primaryKey"`
	B   bool
	I   int64
	U   uint8
	F   float32
	S   string
	T   time.Time
	PS  *string
	PI  *int64
	L   []string
	M   map[string]int
	In  dmInner
	Emb dmEmb `gorm:"embedded;embeddedPrefix:emb_"`
	DmAnon
}

type dmEmb struct {
	EmbN int
	EmbS string
	EmbP *bool
}

// diffModelCase compares models directly.
func diffModelCase(c *C) {
	r := c.R
	at := func() time.Time {
		if r.Intn(4) == 0 {
			return time.Time{}
		}
		return time.Unix(1700000000+r.Int63n(3), r.Int63n(2)*1000).UTC()
	}
	ip := func() *int64 {
		if r.Intn(3) == 0 {
			return nil
		}
		n := r.Int63n(2)
		return &n
	}
	sp := func() *string {
		if r.Intn(3) == 0 {
			return nil
		}
		s := pick(r, "", "a")
		return &s
	}
	mk := func() *dmModel {
		m := &dmModel{ID: pick(r, "x", "y"), B: r.Intn(2) == 0, I: r.Int63n(2), U: uint8(r.Intn(2)) * 255, F: float32(r.Intn(2)) / 2,
			S: pick(r, "", "a", "A"), T: at(), PS: sp(), PI: ip()}
		m.L = pick(r, []string{"a"}, []string{"a", "b"}, []string{"b", "a"}, []string{""})
		m.M = pick(r, map[string]int{"k": 0}, map[string]int{"k": 1}, map[string]int{"l": 0})
		m.In = dmInner{A: r.Intn(2), S: pick(r, "", "i"), F: float64(r.Intn(2)), T: at()}
		if n := ip(); n != nil {
			k := int(*n)
			m.In.P = &k
		}
		m.Emb = dmEmb{EmbN: r.Intn(2), EmbS: pick(r, "", "e")}
		if r.Intn(2) == 0 {
			b := r.Intn(2) == 0
			m.Emb.EmbP = &b
		}
		m.DmAnon = DmAnon{AnonN: int32(r.Intn(2)), AnonS: pick(r, "", "n")}
		return m
	}
	eqI := func(a, b *int64) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
	for k := 0; k < 200; k++ {
		a, b := mk(), mk()
		if r.Intn(2) == 0 { // mostly the same
			d := *a
			d.L, d.M = append([]string{}, a.L...), map[string]int{}
			for k, v := range a.M {
				d.M[k] = v
			}
			switch r.Intn(8) {
			case 0:
				d.S = b.S
			case 1:
				d.In.P = b.In.P
			case 2:
				d.In.T = b.In.T
			case 3:
				d.Emb = b.Emb
			case 4:
				d.DmAnon = b.DmAnon
			case 5:
				d.PI = b.PI
			case 6:
				d.T = b.T
			}
			b = &d
		}
		var want []string
		is := func(name string, differs bool) {
			if differs {
				want = append(want, name)
			}
		}
		is("ID", a.ID != b.ID)
		is("B", a.B != b.B)
		is("I", a.I != b.I)
		is("U", a.U != b.U)
		is("F", a.F != b.F)
		is("S", a.S != b.S)
		is("T", !a.T.Equal(b.T))
		is("PS", (a.PS == nil) != (b.PS == nil) || a.PS != nil && *a.PS != *b.PS)
		is("PI", !eqI(a.PI, b.PI))
		is("L", strings.Join(a.L, ",") != strings.Join(b.L, ","))
		is("M", fmt.Sprint(a.M) != fmt.Sprint(b.M))
		is("In", a.In.A != b.In.A || a.In.S != b.In.S || a.In.F != b.In.F || !a.In.T.Equal(b.In.T) ||
			(a.In.P == nil) != (b.In.P == nil) || a.In.P != nil && *a.In.P != *b.In.P)
		is("EmbN", a.Emb.EmbN != b.Emb.EmbN)
		is("EmbS", a.Emb.EmbS != b.Emb.EmbS)
		is("EmbP", (a.Emb.EmbP == nil) != (b.Emb.EmbP == nil) || a.Emb.EmbP != nil && *a.Emb.EmbP != *b.Emb.EmbP)
		is("AnonN", a.AnonN != b.AnonN)
		is("AnonS", a.AnonS != b.AnonS)
		var got []string
		if r.Intn(2) == 0 {
			got = exmysql.DiffModel(a, b)
		} else {
			got = exmysql.DiffModel(*a, *b)
		}
		got = append([]string{}, got...)
		sort.Strings(got)
		sort.Strings(want)
		c.Count("models_compared", 1)
		c.Count("fields_differing", len(want))
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Violate("X02", "diff-model", "comparing %+v with %+v gives %v instead of %v", *a, *b, got, want)
			return
		}
		c.Distinct("%v", want)
	}
}

func init() {
	Register("X02", Workload{Name: "diff-model", Quick: 80, Thorough: 4000, Fn: diffModelCase})
}
