package harness

import (
	"context"
	"fmt"
	"sort"
	"strconv"

	ddd "github.com/bytedance/dddfirework"
)

// Kind names an entity type of the workload.
type Kind string

const (
	KRoot Kind = "Root"
	KAcct Kind = "Acct"
	KItem Kind = "Item"
	KSub  Kind = "Sub"
	KLeaf Kind = "Leaf"
	KTree Kind = "Tree"
	KCust Kind = "Cust"
	KMemo Kind = "Memo" // never registered with the executor
)

// Core is embedded by every entity.
type Core struct {
	ddd.BaseEntity
	w    *World
	UID  int
	K    Kind
	Name string
	Val  int
	Aux  string
	noid bool // new and without an identifier of its own
}

// Ent is any entity of the workload.
type Ent interface {
	ddd.IEntity
	C() *Core
	Slots() []Slot
}

// Slot is one place of an entity that holds children.
type Slot struct {
	Name    string
	Accepts []Kind
	Multi   bool
	Get     func() []Ent
	Set     func([]Ent)
}

func (c *Core) C() *Core { return c }

func sliceSlot[T Ent](name string, p *[]T, acc ...Kind) Slot {
	return Slot{Name: name, Accepts: acc, Multi: true,
		Get: func() []Ent {
			var r []Ent
			for _, e := range *p {
				r = append(r, e)
			}
			return r
		},
		Set: func(es []Ent) {
			n := make([]T, 0, len(es))
			for _, e := range es {
				n = append(n, e.(T))
			}
			*p = n
		}}
}

func ifaceSliceSlot(name string, p *[]ddd.IEntity, acc ...Kind) Slot {
	return Slot{Name: name, Accepts: acc, Multi: true,
		Get: func() []Ent {
			var r []Ent
			for _, e := range *p {
				r = append(r, e.(Ent))
			}
			return r
		},
		Set: func(es []Ent) {
			n := make([]ddd.IEntity, 0, len(es))
			for _, e := range es {
				n = append(n, e)
			}
			*p = n
		}}
}

func ptrSlot[E any, T interface {
	*E
	Ent
}](name string, p *T, acc ...Kind) Slot {
	return Slot{Name: name, Accepts: acc,
		Get: func() []Ent {
			if *p == nil {
				return nil
			}
			return []Ent{*p}
		},
		Set: func(es []Ent) {
			if len(es) == 0 {
				*p = nil
				return
			}
			*p = es[0].(T)
		}}
}

func ifaceSlot(name string, p *ddd.IEntity, acc ...Kind) Slot {
	return Slot{Name: name, Accepts: acc,
		Get: func() []Ent {
			if *p == nil {
				return nil
			}
			return []Ent{(*p).(Ent)}
		},
		Set: func(es []Ent) {
			if len(es) == 0 {
				*p = nil
				return
			}
			*p = es[0]
		}}
}

func mapSlot[T Ent](name string, p *map[string]T, acc ...Kind) Slot {
	return Slot{Name: name, Accepts: acc, Multi: true,
		Get: func() []Ent {
			var ks []string
			for k := range *p {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var r []Ent
			for _, k := range ks {
				r = append(r, (*p)[k])
			}
			return r
		},
		Set: func(es []Ent) {
			n := map[string]T{}
			for _, e := range es {
				n[fmt.Sprintf("%06d", e.C().UID)] = e.(T)
			}
			*p = n
		}}
}

type Root struct {
	Core
	kept  []*Leaf // never exported: not a child
	Words []string
	Attrs map[string]string
	Any   any
	Price *int
	Hue   struct{ A, B int }
	Func  func()
	Items []*Item
	Main  *Leaf
	Tags  map[string]*Leaf
	Loose []ddd.IEntity
	One   ddd.IEntity
	Memo  *Memo
	Trees []*Tree
	Cust  *Cust
}

type Acct struct{ Core }

type Item struct {
	Core
	extra map[string]*Leaf // not a child either
	Marks []int
	Subs  []*Sub
	Leaf  *Leaf
	Notes []*Memo
}

type Sub struct {
	Core
	Leafs []*Leaf
}

type Leaf struct{ Core }

type Tree struct {
	Core
	Kids []*Tree
}

// Cust hides its children from reflection and lists them itself.
type Cust struct {
	Core
	as []*Leaf
	b  *Sub
}

func (c *Cust) GetChildren() map[string][]ddd.IEntity {
	m := map[string][]ddd.IEntity{"as": {}, "b": {}}
	for _, l := range c.as {
		m["as"] = append(m["as"], l)
	}
	if c.b != nil {
		m["b"] = append(m["b"], c.b)
	}
	return m
}

type Memo struct {
	Core
	Leaf *Leaf
}

func (r *Root) Slots() []Slot {
	return []Slot{
		sliceSlot("Items", &r.Items, KItem),
		ptrSlot("Main", &r.Main, KLeaf),
		mapSlot("Tags", &r.Tags, KLeaf),
		ifaceSliceSlot("Loose", &r.Loose, KLeaf, KSub, KItem, KMemo),
		ifaceSlot("One", &r.One, KSub),
		ptrSlot("Memo", &r.Memo, KMemo),
		sliceSlot("Trees", &r.Trees, KTree),
		ptrSlot("Cust", &r.Cust, KCust),
	}
}
func (a *Acct) Slots() []Slot { return nil }
func (i *Item) Slots() []Slot {
	return []Slot{sliceSlot("Subs", &i.Subs, KSub), ptrSlot("Leaf", &i.Leaf, KLeaf), sliceSlot("Notes", &i.Notes, KMemo)}
}
func (s *Sub) Slots() []Slot  { return []Slot{sliceSlot("Leafs", &s.Leafs, KLeaf)} }
func (l *Leaf) Slots() []Slot { return nil }
func (t *Tree) Slots() []Slot { return []Slot{sliceSlot("Kids", &t.Kids, KTree)} }
func (c *Cust) Slots() []Slot { return []Slot{sliceSlot("as", &c.as, KLeaf), ptrSlot("b", &c.b, KSub)} }
func (m *Memo) Slots() []Slot { return []Slot{ptrSlot("Leaf", &m.Leaf, KLeaf)} }

// hooks: all six on Root, Acct, Item and Tree, some on Sub, none on the others.
func (r *Root) BeforeCreate(ctx context.Context) error { return r.hook(ctx, "BeforeCreate") }
func (r *Root) AfterCreate(ctx context.Context) error  { return r.hook(ctx, "AfterCreate") }
func (r *Root) BeforeUpdate(ctx context.Context) error { return r.hook(ctx, "BeforeUpdate") }
func (r *Root) AfterUpdate(ctx context.Context) error  { return r.hook(ctx, "AfterUpdate") }
func (r *Root) BeforeDelete(ctx context.Context) error { return r.hook(ctx, "BeforeDelete") }
func (r *Root) AfterDelete(ctx context.Context) error  { return r.hook(ctx, "AfterDelete") }
func (r *Acct) BeforeCreate(ctx context.Context) error { return r.hook(ctx, "BeforeCreate") }
func (r *Acct) AfterCreate(ctx context.Context) error  { return r.hook(ctx, "AfterCreate") }
func (r *Acct) BeforeUpdate(ctx context.Context) error { return r.hook(ctx, "BeforeUpdate") }
func (r *Acct) AfterUpdate(ctx context.Context) error  { return r.hook(ctx, "AfterUpdate") }
func (r *Acct) BeforeDelete(ctx context.Context) error { return r.hook(ctx, "BeforeDelete") }
func (r *Acct) AfterDelete(ctx context.Context) error  { return r.hook(ctx, "AfterDelete") }
func (r *Item) BeforeCreate(ctx context.Context) error { return r.hook(ctx, "BeforeCreate") }
func (r *Item) AfterCreate(ctx context.Context) error  { return r.hook(ctx, "AfterCreate") }
func (r *Item) BeforeUpdate(ctx context.Context) error { return r.hook(ctx, "BeforeUpdate") }
func (r *Item) AfterUpdate(ctx context.Context) error  { return r.hook(ctx, "AfterUpdate") }
func (r *Item) BeforeDelete(ctx context.Context) error { return r.hook(ctx, "BeforeDelete") }
func (r *Item) AfterDelete(ctx context.Context) error  { return r.hook(ctx, "AfterDelete") }
func (r *Tree) BeforeCreate(ctx context.Context) error { return r.hook(ctx, "BeforeCreate") }
func (r *Tree) AfterCreate(ctx context.Context) error  { return r.hook(ctx, "AfterCreate") }
func (r *Tree) BeforeUpdate(ctx context.Context) error { return r.hook(ctx, "BeforeUpdate") }
func (r *Tree) AfterUpdate(ctx context.Context) error  { return r.hook(ctx, "AfterUpdate") }
func (r *Tree) BeforeDelete(ctx context.Context) error { return r.hook(ctx, "BeforeDelete") }
func (r *Tree) AfterDelete(ctx context.Context) error  { return r.hook(ctx, "AfterDelete") }
func (r *Sub) BeforeCreate(ctx context.Context) error  { return r.hook(ctx, "BeforeCreate") }
func (r *Sub) AfterUpdate(ctx context.Context) error   { return r.hook(ctx, "AfterUpdate") }
func (r *Sub) AfterDelete(ctx context.Context) error   { return r.hook(ctx, "AfterDelete") }

var hooksOf = map[Kind]map[string]bool{
	KRoot: allHooks, KAcct: allHooks, KItem: allHooks, KTree: allHooks,
	KSub: {"BeforeCreate": true, "AfterUpdate": true, "AfterDelete": true},
}
var allHooks = map[string]bool{"BeforeCreate": true, "AfterCreate": true, "BeforeUpdate": true, "AfterUpdate": true, "BeforeDelete": true, "AfterDelete": true}

func newEnt(w *World, k Kind) Ent {
	var e Ent
	switch k {
	case KRoot:
		n := 3
		e = &Root{kept: []*Leaf{{}}, Words: []string{"a", "b"}, Attrs: map[string]string{"k": "v"}, Any: 7, Price: &n}
	case KAcct:
		e = &Acct{}
	case KItem:
		e = &Item{extra: map[string]*Leaf{"x": {}}, Marks: []int{1, 2}}
	case KSub:
		e = &Sub{}
	case KLeaf:
		e = &Leaf{}
	case KTree:
		e = &Tree{}
	case KCust:
		e = &Cust{}
	case KMemo:
		e = &Memo{}
	}
	e.C().w, e.C().K = w, k
	return e
}

func ekind(e ddd.IEntity) Kind {
	switch e.(type) {
	case *Root:
		return KRoot
	case *Acct:
		return KAcct
	case *Item:
		return KItem
	case *Sub:
		return KSub
	case *Leaf:
		return KLeaf
	case *Tree:
		return KTree
	case *Cust:
		return KCust
	case *Memo:
		return KMemo
	}
	return ""
}

// Row is the stored form of an entity.
type Row struct {
	UID    int
	K      Kind
	ID     string
	Parent string
	PK     Kind
	Name   string
	Val    int
	Aux    string
}

func (r *Row) GetID() string { return r.ID }
func (r *Row) row() *Row     { return r }

type rower interface{ row() *Row }

// PO gives the row distinct model types.
type PO[M any] struct{ Row }

type (
	mRoot  struct{}
	mAcct  struct{}
	mItem  struct{}
	mShare struct{} // Sub and Cust share one model type
	mLeaf  struct{}
	mTree  struct{}
)

func newPO(k Kind, r Row) ddd.IModel {
	switch k {
	case KRoot:
		return &PO[mRoot]{r}
	case KAcct:
		return &PO[mAcct]{r}
	case KItem:
		return &PO[mItem]{r}
	case KSub, KCust:
		return &PO[mShare]{r}
	case KLeaf:
		return &PO[mLeaf]{r}
	case KTree:
		return &PO[mTree]{r}
	}
	return nil
}

func tableOf(k Kind) string {
	if k == KCust {
		return string(KSub)
	}
	return string(k)
}

func walkEnt(e Ent, parent Ent, f func(e, parent Ent)) {
	f(e, parent)
	for _, s := range e.Slots() {
		for _, ch := range s.Get() {
			walkEnt(ch, e, f)
		}
	}
}

func (r Row) String() string {
	return r.tag() + " id=" + r.ID + " parent=" + string(r.PK) + "/" + r.Parent + " name=" + r.Name + " val=" + strconv.Itoa(r.Val) + " aux=" + r.Aux
}
func (r Row) tag() string { return string(r.K) + "#" + strconv.Itoa(r.UID) }

func tagOf(e Ent) string {
	if e == nil {
		return "-"
	}
	return string(e.C().K) + "#" + strconv.Itoa(e.C().UID)
}
