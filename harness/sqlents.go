package harness

import (
	"errors"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/datatypes"
	"gorm.io/gorm"
	"gorm.io/gorm/schema"
)

// Entities and models with every kind of column, for the SQL executor.

type sqAddr struct {
	Name  string
	City  string
	Zip   int64
	Lat   float64
	Since time.Time
}

type sqGeo struct {
	X, Y int
	Tag  *string
	Path []int
}

// sqDec is a decimal as money libraries have it: a struct around a big.Int.
type sqDec struct {
	v *big.Int
}

func newDec(n int64) sqDec { return sqDec{new(big.Int).Mul(big.NewInt(n), big.NewInt(1e15))} }
func (d sqDec) Value() (driver.Value, error) {
	if d.v == nil {
		return "0", nil
	}
	return d.v.String(), nil
}
func (d *sqDec) Scan(src any) error {
	s := fmt.Sprint(src)
	if b, ok := src.([]byte); ok {
		s = string(b)
	}
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return fmt.Errorf("not a decimal: %q", s)
	}
	d.v = v
	if v.Sign() == 0 {
		d.v = nil
	}
	return nil
}
func (d sqDec) String() string {
	if d.v == nil {
		return "0"
	}
	return d.v.String()
}

// SqVals are the plain columns every model has.
type SqVals struct {
	Name  string
	N     int64
	U     uint32
	I8    int8
	F     float64
	B     bool
	P     *int64
	PS    *string
	PT    *time.Time
	PB    *bool
	At    time.Time
	Raw   []byte
	Tags  []string          `gorm:"serializer:json"`
	Attrs map[string]string `gorm:"serializer:json"`
	J     datatypes.JSON
	Geo   sqGeo  `gorm:"serializer:json"`
	PGeo  *sqGeo `gorm:"serializer:json"`
	Dec   sqDec  `gorm:"type:text"`
	NS    sql.NullString
	Bill  sqAddr `gorm:"embedded;embeddedPrefix:bill_"`
	Ship  sqAddr `gorm:"embedded;embeddedPrefix:ship_"`
	Ext   *SqExt `gorm:"embedded;embeddedPrefix:ext_"`
	Group string `gorm:"column:group"`
}

// SqExt is embedded by a pointer.
type SqExt struct {
	A int64
	B string
	C *string
}

type SqBase struct {
	CreatedAt time.Time
	UpdatedAt time.Time
}

type sqRootPO struct {
	ID string `gorm:"primaryKey;type:varchar(64)"`
	SqVals
	SqBase
}

type sqItemPO struct {
	ID       string `gorm:"primaryKey;type:varchar(64)"`
	ParentID string `gorm:"type:varchar(64)"`
	SqVals
}

type sqPartPO struct {
	PID      int64  `gorm:"primaryKey;autoIncrement:false;column:pid"`
	ParentID string `gorm:"type:varchar(64)"`
	SqVals
	SqBase
}

type sqLinePO struct {
	RootID string `gorm:"primaryKey;type:varchar(64)"`
	Seq    int64  `gorm:"primaryKey;autoIncrement:false"`
	SqVals
}

type sqNotePO struct {
	ID       string `gorm:"primaryKey;column:order;type:varchar(64)"`
	ParentID string `gorm:"type:varchar(64)"`
	SqVals
	DeletedAt gorm.DeletedAt
}

func (p *sqRootPO) GetID() string     { return p.ID }
func (p *sqItemPO) GetID() string     { return p.ID }
func (p *sqPartPO) GetID() string     { return strconv.FormatInt(p.PID, 10) }
func (p *sqLinePO) GetID() string     { return p.RootID + "/" + strconv.FormatInt(p.Seq, 10) }
func (p *sqNotePO) GetID() string     { return p.ID }
func (p *sqRootPO) TableName() string { return "sq_root" }
func (p *sqItemPO) TableName() string { return "sq_item" }
func (p *sqPartPO) TableName() string { return "sq_part" }
func (p *sqLinePO) TableName() string { return "sq_line" }
func (p *sqNotePO) TableName() string { return "sq_note" }

type sqEnt interface {
	ddd.IEntity
	vals() *SqVals
	table() string
	kids() []sqEnt
}

type sqRoot struct {
	ddd.BaseEntity
	V     SqVals
	Items []*sqItem
	Lines []*sqLine
	Note  *sqNote
}

type sqItem struct {
	ddd.BaseEntity
	V     SqVals
	Parts []*sqPart
}

type sqPart struct {
	ddd.BaseEntity
	V SqVals
}

type sqLine struct {
	ddd.BaseEntity // "root/seq"
	V              SqVals
}

type sqNote struct {
	ddd.BaseEntity
	V SqVals
}

func (e *sqRoot) vals() *SqVals { return &e.V }
func (e *sqItem) vals() *SqVals { return &e.V }
func (e *sqPart) vals() *SqVals { return &e.V }
func (e *sqLine) vals() *SqVals { return &e.V }
func (e *sqNote) vals() *SqVals { return &e.V }
func (e *sqRoot) table() string { return "sq_root" }
func (e *sqItem) table() string { return "sq_item" }
func (e *sqPart) table() string { return "sq_part" }
func (e *sqLine) table() string { return "sq_line" }
func (e *sqNote) table() string { return "sq_note" }
func (e *sqPart) kids() []sqEnt { return nil }
func (e *sqLine) kids() []sqEnt { return nil }
func (e *sqNote) kids() []sqEnt { return nil }
func (e *sqItem) kids() (r []sqEnt) {
	for _, p := range e.Parts {
		r = append(r, p)
	}
	return
}
func (e *sqRoot) kids() (r []sqEnt) {
	for _, p := range e.Items {
		r = append(r, p)
	}
	for _, p := range e.Lines {
		r = append(r, p)
	}
	if e.Note != nil {
		r = append(r, e.Note)
	}
	return
}

func sqLineKey(id string) (string, int64) {
	i := strings.LastIndexByte(id, '/')
	if i < 0 {
		return "", 0
	}
	n, _ := strconv.ParseInt(id[i+1:], 10, 64)
	return id[:i], n
}

func sqParent(p ddd.IEntity) string {
	if p == nil || reflect.ValueOf(p).Kind() == reflect.Ptr && reflect.ValueOf(p).IsNil() {
		return ""
	}
	return p.GetID()
}

// sqPO converts an entity; a child template of a query has no id.
func sqPO(e, parent ddd.IEntity) exmysql.IModel {
	switch e := e.(type) {
	case *sqRoot:
		return &sqRootPO{ID: e.GetID(), SqVals: e.V}
	case *sqItem:
		return &sqItemPO{ID: e.GetID(), ParentID: sqParent(parent), SqVals: e.V}
	case *sqPart:
		n, _ := strconv.ParseInt(e.GetID(), 10, 64)
		return &sqPartPO{PID: n, ParentID: sqParent(parent), SqVals: e.V}
	case *sqLine:
		if e.GetID() == "" {
			return &sqLinePO{RootID: sqParent(parent), SqVals: e.V}
		}
		r, n := sqLineKey(e.GetID())
		return &sqLinePO{RootID: r, Seq: n, SqVals: e.V}
	case *sqNote:
		return &sqNotePO{ID: e.GetID(), ParentID: sqParent(parent), SqVals: e.V}
	}
	return nil
}

// sqPanicName makes the converter panic.
const sqPanicName = "<converter panics>"

// sqFailName makes the converter fail.
const sqFailName = "<converter fails>"

var errSqConv = errors.New("the converter fails")

// sqReadFails: the conversion of the n-th row that is read fails.
var sqReadFails int

// sqZone is the application's time zone.
var sqZone = time.FixedZone("app", 8*3600)

// sqNoAlias: converters copy what models share with entities.
var sqNoAlias bool

func init() {
	e2m := func(e, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
		po := sqPO(e, parent)
		if po != nil && poVals(po).Name == sqPanicName {
			panic(injected{"converter"})
		}
		if po != nil && poVals(po).Name == sqFailName {
			return nil, errSqConv
		}
		if po == nil {
			return nil, ddd.ErrEntityNotRegister
		}
		if sqNoAlias {
			v := poVals(po)
			*v = sqClone(*v)
		}
		return po, nil
	}
	m2e := func(po exmysql.IModel, do ddd.IEntity) error {
		if sqReadFails > 0 {
			if sqReadFails--; sqReadFails == 0 {
				return errSqConv
			}
		}
		v := sqClone(*poVals(po))
		for _, t := range []*time.Time{&v.At, v.PT, &v.Bill.Since, &v.Ship.Since} {
			if t != nil {
				*t = t.In(sqZone)
			}
		}
		switch e := do.(type) {
		case *sqRoot:
			e.V = v
		case *sqItem:
			e.V = v
		case *sqPart:
			e.V = v
		case *sqLine:
			e.V = v
		case *sqNote:
			e.V = v
		}
		do.SetID(po.GetID())
		return nil
	}
	for _, e := range []ddd.IEntity{&sqRoot{}, &sqItem{}, &sqPart{}, &sqLine{}, &sqNote{}} {
		exmysql.RegisterEntity2Model(e, e2m, m2e)
	}
	simExtraModels = append(simExtraModels, &sqRootPO{}, &sqItemPO{}, &sqPartPO{}, &sqLinePO{}, &sqNotePO{})
}

func poVals(po any) *SqVals {
	switch p := po.(type) {
	case *sqRootPO:
		return &p.SqVals
	case *sqItemPO:
		return &p.SqVals
	case *sqPartPO:
		return &p.SqVals
	case *sqLinePO:
		return &p.SqVals
	case *sqNotePO:
		return &p.SqVals
	}
	return nil
}

func cp[T any](p *T) *T {
	if p == nil {
		return nil
	}
	v := *p
	return &v
}

func (g sqGeo) clone() sqGeo {
	g.Tag = cp(g.Tag)
	if g.Path != nil {
		g.Path = append([]int{}, g.Path...)
	}
	return g
}

func sqClone(v SqVals) SqVals {
	v.P, v.PS, v.PT, v.PB = cp(v.P), cp(v.PS), cp(v.PT), cp(v.PB)
	if v.Raw != nil {
		v.Raw = append([]byte{}, v.Raw...)
	}
	if v.Tags != nil {
		v.Tags = append([]string{}, v.Tags...)
	}
	if v.Attrs != nil {
		m := map[string]string{}
		for k, x := range v.Attrs {
			m[k] = x
		}
		v.Attrs = m
	}
	if v.J != nil {
		v.J = append(datatypes.JSON{}, v.J...)
	}
	if v.Ext != nil {
		e := *v.Ext
		e.C = cp(e.C)
		v.Ext = &e
	}
	v.Geo = v.Geo.clone()
	if v.PGeo != nil {
		g := v.PGeo.clone()
		v.PGeo = &g
	}
	if v.Dec.v != nil {
		v.Dec.v = new(big.Int).Set(v.Dec.v)
	}
	return v
}

// canon writes a value so that equal column values are equal strings.
func canon(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			return x.UTC().Format(time.RFC3339Nano)
		case sqDec:
			return x.String()
		case []byte:
			return hex.EncodeToString(x)
		case datatypes.JSON:
			return string(x)
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + canon(v.Elem())
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, canon(v.Field(i)))
		}
		return "{" + strings.Join(s, ",") + "}"
	case reflect.Slice:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, canon(v.Index(i)))
		}
		return "[" + strings.Join(s, ",") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, canon(k)+":"+canon(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, ",") + "]"
	case reflect.String:
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v.Interface())
}

var sqSchemas sync.Map

func sqSchema(po any) *schema.Schema {
	s, err := schema.Parse(po, &sqSchemas, schema.NamingStrategy{})
	if err != nil {
		panic(err)
	}
	return s
}

// fieldAt follows the index path of a gorm field.
func fieldAt(v reflect.Value, f *schema.Field) reflect.Value {
	v = reflect.Indirect(v)
	for k, i := range f.StructField.Index {
		if i < 0 {
			i = -i - 1
		}
		if k > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() { // loading gives zeros
				return reflect.Zero(f.FieldType)
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v
}

type sqCols map[string]string

// sqColumns are the column values of a model without the automatic times.
func sqColumns(po any) sqCols {
	r := sqCols{}
	for _, f := range sqSchema(po).Fields {
		switch f.DBName {
		case "", "updated_at", "deleted_at", "created_at":
			continue
		}
		r[f.DBName] = canon(fieldAt(reflect.ValueOf(po), f))
	}
	return r
}

func (a sqCols) diff(b sqCols) (r []string) {
	for k, v := range a {
		if b[k] != v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return
}

func (a sqCols) clone() sqCols {
	r := sqCols{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

var sqStrings = []string{"", "a", "b", "A", " ", "a ", "it's", `"q"`, "100%", "_", "\\", "né", "日本語", "😀", "null", "NULL", "0", "x\ny", "a;--", "`k`", "?", "$1", "{}", strings.Repeat("long", 50)}

func sqTime(r *rand.Rand) time.Time {
	t := time.Date(2020+r.Intn(20), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000)*1e6, time.UTC)
	if r.Intn(3) == 0 {
		t = t.In(time.FixedZone("x", 3600*(r.Intn(20)-10)))
	}
	return t
}

func pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

func sqStr(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return fmt.Sprintf("s%d", r.Intn(1000))
	}
	return pick(r, sqStrings...)
}

func sqGeoOf(r *rand.Rand) sqGeo {
	g := sqGeo{X: r.Intn(3), Y: r.Intn(3)}
	if r.Intn(2) == 0 {
		s := sqStr(r)
		g.Tag = &s
	}
	for k := r.Intn(3); k > 0; k-- {
		g.Path = append(g.Path, r.Intn(5))
	}
	return g
}

func sqAddrOf(r *rand.Rand) sqAddr {
	return sqAddr{City: sqStr(r), Zip: int64(r.Intn(4)), Lat: float64(r.Intn(8)) / 4, Since: sqTime(r)}
}

const sqNFields = 29

// sqSet gives one field of v another value. It returns what it did.
func sqSet(r *rand.Rand, v *SqVals, i int, inPlace bool) string {
	switch i {
	case 0:
		switch r.Intn(4) {
		case 0:
			if x := strings.ToUpper(v.Name); x != v.Name {
				v.Name = x
				break
			}
			v.Name += " "
		default:
			v.Name = sqStr(r)
		}
	case 1:
		v.N = pick[int64](r, 0, 1, -1, 1<<63-1, -1<<63, int64(r.Intn(100)))
	case 2:
		v.U = pick[uint32](r, 0, 1, 1<<32-1, uint32(r.Intn(100)))
	case 3:
		v.I8 = pick[int8](r, 0, 1, -128, 127)
	case 4:
		if r.Intn(4) == 0 {
			v.F += 1e-9
			break
		}
		v.F = pick(r, 0, 1, -1.5, 1e300, 1e-300, 0.1, float64(r.Intn(100)), 123456789.123)
	case 5:
		v.B = !v.B
	case 6:
		if inPlace && v.P != nil {
			*v.P += int64(1 + r.Intn(3))
			return "*p"
		}
		if v.P = nil; r.Intn(3) > 0 {
			x := int64(r.Intn(3))
			v.P = &x
		}
	case 7:
		if inPlace && v.PS != nil {
			*v.PS += "!"
			return "*ps"
		}
		if v.PS = nil; r.Intn(3) > 0 {
			x := sqStr(r)
			v.PS = &x
		}
	case 8:
		if v.PT != nil && r.Intn(3) == 0 {
			x := v.PT.Add(time.Duration(r.Intn(3)-1) * time.Millisecond)
			v.PT = &x
			break
		}
		if v.PT = nil; r.Intn(3) > 0 {
			x := sqTime(r)
			v.PT = &x
		}
	case 9:
		if v.PB = nil; r.Intn(3) > 0 {
			x := r.Intn(2) == 0
			v.PB = &x
		}
	case 10:
		if r.Intn(2) == 0 {
			v.At = v.At.Add(time.Duration(r.Intn(3)-1) * time.Millisecond)
			break
		}
		v.At = sqTime(r)
	case 11:
		if inPlace && len(v.Raw) > 0 {
			v.Raw[r.Intn(len(v.Raw))]++
			return "raw[]"
		}
		if v.Raw = nil; r.Intn(3) > 0 {
			v.Raw = []byte{byte(r.Intn(256)), 0, 255, byte(r.Intn(3))}
		}
	case 12, 13:
		if inPlace && len(v.Tags) > 0 {
			v.Tags[r.Intn(len(v.Tags))] += "+"
			return "tags[]"
		}
		if i == 13 && len(v.Tags) > 0 {
			v.Tags = append(append([]string{}, v.Tags...), sqStr(r))
			break
		}
		v.Tags = pick(r, nil, []string{}, []string{sqStr(r)}, []string{"a", sqStr(r), ""})
	case 14, 15:
		if inPlace && v.Attrs != nil {
			v.Attrs[pick(r, "k", "l", "m")] = sqStr(r) + "+"
			return "attrs[]"
		}
		v.Attrs = pick(r, nil, map[string]string{}, map[string]string{"k": sqStr(r)}, map[string]string{"k": "1", "l": sqStr(r)})
	case 16:
		v.J = pick(r, nil, datatypes.JSON(`{"a":1}`), datatypes.JSON(fmt.Sprintf(`[%d]`, r.Intn(9))), datatypes.JSON(`{"b":[0]}`))
	case 17:
		if inPlace && len(v.Geo.Path) > 0 {
			v.Geo.Path[0]++
			return "geo.path[]"
		}
		v.Geo = pick(r, sqGeo{}, sqGeoOf(r), sqGeoOf(r))
	case 18:
		if inPlace && v.PGeo != nil {
			v.PGeo.X += 1 + r.Intn(3)
			return "pgeo.x"
		}
		g := sqGeoOf(r)
		v.PGeo = pick(r, nil, &sqGeo{}, &g, &g)
	case 19:
		v.Dec = pick(r, sqDec{}, newDec(1), newDec(int64(r.Intn(5))+1), newDec(-7))
	case 20:
		v.NS = pick(r, sql.NullString{}, sql.NullString{Valid: true}, sql.NullString{Valid: true, String: sqStr(r)})
	case 21:
		v.Bill = sqAddrOf(r)
	case 22:
		v.Ship = sqAddrOf(r)
	case 23:
		v.Bill.City = sqStr(r)
	case 24:
		v.Ship.Zip += int64(1 + r.Intn(3))
	case 25:
		v.Ship.Name = sqStr(r)
	case 26, 27:
		switch {
		case v.Ext == nil:
			x := "c"
			v.Ext = &SqExt{A: int64(1 + r.Intn(5)), B: "b" + sqStr(r), C: &x}
		case i == 26 && r.Intn(2) == 0:
			v.Ext = nil
		case inPlace:
			v.Ext.A += int64(1 + r.Intn(3))
			return "ext.a"
		default:
			e := *v.Ext
			v.Ext = &e
			switch r.Intn(3) {
			case 0:
				e.A++
			case 1:
				e.B = sqStr(r)
			default:
				if e.C = nil; r.Intn(2) == 0 {
					x := sqStr(r)
					e.C = &x
				}
			}
		}
	case 28:
		v.Group = sqStr(r)
	}
	return strconv.Itoa(i)
}

func sqRandom(r *rand.Rand) (v SqVals) {
	v.At, v.Bill.Since, v.Ship.Since = sqTime(r), sqTime(r), sqTime(r)
	for i := 0; i < sqNFields; i++ {
		if r.Intn(2) == 0 {
			sqSet(r, &v, i, false)
		}
	}
	return
}

// sqDump reads every table: model per key.
func sqDump(g *gorm.DB) (map[string]map[string]any, error) {
	r := map[string]map[string]any{}
	var a []*sqRootPO
	var b []*sqItemPO
	var c []*sqPartPO
	var d []*sqLinePO
	var e []*sqNotePO
	for _, x := range []any{&a, &b, &c, &d, &e} {
		if err := g.WithContext(context.Background()).Find(x).Error; err != nil {
			return nil, err
		}
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < v.Len(); i++ {
			po := v.Index(i).Interface()
			t := po.(exmysql.IModel).TableName()
			if r[t] == nil {
				r[t] = map[string]any{}
			}
			r[t][po.(exmysql.IModel).GetID()] = po
		}
	}
	return r, nil
}
