package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	sqlite3 "github.com/mattn/go-sqlite3"
	"gorm.io/driver/sqlite"
	"gorm.io/gorm"
	"gorm.io/gorm/clause"
	glog "gorm.io/gorm/logger"
	"gorm.io/gorm/schema"

	timersql "github.com/bytedance/dddfirework/d_timer/sql"
	ebmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
)

// simDB is one database server: a SQLite file behind a driver that adds what
// MySQL has and SQLite lacks (row locks of FOR UPDATE, writers that wait for
// rows and not for the whole database), network latency in virtual time,
// faults, and the death of client processes.
//
// A transaction reads autocommitted rows until its first write (READ
// COMMITTED); from then on it holds the only write slot until it ends.
type simDB struct {
	path    string
	mu      sync.Mutex
	writer  chan struct{}
	changed chan struct{} // closed whenever a row lock or the write slot is given up
	locks   map[string]*simConn
	nconn   int
	ntx     int64
	insts   []*simInst
	trace   []simStmt
	tracing bool
	nstmt   int64
	nfault  int64
	ntimeo  int64
	nself   atomic.Int64 // a call chain waited for the write slot it held itself
	writerG atomic.Value
	mon     *simInst
	onStmt  func(*simStmt) simFault // may inject; called without db.mu
	lat     func(*simStmt) time.Duration
	onDone  func(*simStmt) // after execution, called without db.mu
}

type simFault int

const (
	fNone   simFault = iota
	fBefore          // error, nothing executed
	fAfter           // executed, the acknowledgement is an error
	fDieBefore
	fDieAfter
)

func (f simFault) String() string {
	return []string{"none", "error", "lost-ack", "crash-before", "crash-after"}[f]
}

// simStmt is one statement as a monitor sees it.
type simStmt struct {
	N      int64 // order of execution
	Inst   *simInst
	Conn   int
	TX     int64 // 0 outside a transaction
	Kind   string
	SQL    string
	Args   []driver.NamedValue
	Fault  simFault
	Err    error
	At     time.Time
	Seq    int // per-instance statement number
	Rows   int64
	Commit bool
}

func (s *simStmt) String() string {
	a := make([]string, len(s.Args))
	for i, v := range s.Args {
		a[i] = cut(fmt.Sprintf("%v", v.Value), 60)
	}
	return fmt.Sprintf("%s %s c%d tx%d %s [%s] rows=%d %s %v", s.At.Format("15:04:05.000"), s.Inst.name, s.Conn, s.TX, s.SQL, strings.Join(a, ","), s.Rows, s.Fault, s.Err)
}

var errSimDB = errors.New("simulated database error")
var errLockWait = errors.New("Error 1205 (HY000): Lock wait timeout exceeded")
var errNoWait = errors.New("Error 3572 (HY000): Statement aborted because lock(s) could not be acquired immediately and NOWAIT is set.")

const lockWaitTimeout = 50 * time.Second

// simInst is a client process of the server.
type simInst struct {
	num    int
	name   string
	db     *simDB
	dead   chan struct{}
	isDead atomic.Bool
	sdb    *sql.DB
	g      *gorm.DB
	conns  map[*simConn]bool
	seq    int
	peers  []*simInst // clients of other servers in the same process
}

var simTemplate struct {
	sync.Once
	b   []byte
	err error
}

func simDir() string {
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		d := filepath.Join("/dev/shm", filepath.Base(os.Getenv("VERIF_TMP")))
		if os.Getenv("VERIF_TMP") != "" && os.MkdirAll(d, 0o755) == nil {
			return d
		}
	}
	if d := os.Getenv("VERIF_TMP"); d != "" {
		return d
	}
	return os.TempDir()
}

func init() { time.Local = time.UTC }

var simExtraModels []any

// simSeconds are the columns declared without fractional seconds: MySQL rounds
// what is stored there to the nearest second.
var simSeconds = map[string]map[string]bool{}

var (
	reInsCols = regexp.MustCompile("(?is)^\\s*INSERT\\s+(?:IGNORE\\s+)?INTO\\s+`?(\\w+)`?\\s*\\(([^)]*)\\)\\s*VALUES\\s*(.*)$")
	reSetCols = regexp.MustCompile("(?is)^\\s*UPDATE\\s+`?(\\w+)`?\\s+SET\\s+(.*)$")
	reSetOne  = regexp.MustCompile("`?(\\w+)`?\\s*=\\s*\\?")
)

func roundTimes(q string, args []driver.NamedValue) []driver.NamedValue {
	var at []int // positions of the arguments
	if m := reInsCols.FindStringSubmatch(q); m != nil && simSeconds[m[1]] != nil {
		cols := strings.Split(m[2], ",")
		n := 0
		for i := 0; strings.HasPrefix(m[3][i:], "("); {
			end := strings.Index(m[3][i:], ")")
			if end < 0 {
				break
			}
			for k, v := range strings.Split(m[3][i+1:i+end], ",") {
				if strings.TrimSpace(v) != "?" {
					continue
				}
				if k < len(cols) && simSeconds[m[1]][strings.Trim(strings.TrimSpace(cols[k]), "`")] {
					at = append(at, n)
				}
				n++
			}
			i += end + 1
			if i < len(m[3]) && m[3][i] == ',' {
				i++
			}
		}
	} else if m := reSetCols.FindStringSubmatchIndex(q); m != nil && simSeconds[q[m[2]:m[3]]] != nil {
		set := q[m[4]:]
		if w := reWhere.FindStringIndex(set); w != nil {
			set = set[:w[0]]
		}
		for _, x := range reSetOne.FindAllStringSubmatchIndex(set, -1) {
			if simSeconds[q[m[2]:m[3]]][set[x[2]:x[3]]] {
				at = append(at, strings.Count(set[:x[1]-1], "?"))
			}
		}
	}
	if len(at) == 0 {
		return args
	}
	args = append([]driver.NamedValue(nil), args...)
	for _, i := range at {
		if i < len(args) {
			if t, ok := args[i].Value.(time.Time); ok {
				args[i].Value = t.Round(time.Second)
			}
		}
	}
	return args
}

// buildTemplate creates the tables of all components once. Column types and
// auto increment are adapted to SQLite.
func buildTemplate() ([]byte, error) {
	src, err := gorm.Open(sqlite.Open("file::memory:"), &gorm.Config{Logger: glog.Discard})
	if err != nil {
		return nil, err
	}
	models := append([]any{&ebmysql.EventPO{}, &ebmysql.ServicePO{}, &ebmysql.ServiceEventPO{}, &ebmysql.Transaction{},
		&dblock.ResourceLock{}, &timersql.TimerJob{}}, simExtraModels...)
	if err := src.AutoMigrate(models...); err != nil {
		return nil, err
	}
	for _, m := range models {
		sch, err := schema.Parse(m, &sync.Map{}, schema.NamingStrategy{})
		if err != nil {
			return nil, err
		}
		for _, f := range sch.Fields {
			if t := strings.ToLower(strings.TrimSpace(f.TagSettings["TYPE"])); t == "datetime" || t == "timestamp" {
				if simSeconds[sch.Table] == nil {
					simSeconds[sch.Table] = map[string]bool{}
				}
				simSeconds[sch.Table][f.DBName] = true
			}
		}
	}
	var ddl []string
	if err := src.Raw("select sql from sqlite_master where sql is not null order by rowid").Scan(&ddl).Error; err != nil {
		return nil, err
	}
	if d, err := src.DB(); err == nil {
		_ = d.Close()
	}
	p := filepath.Join(simDir(), fmt.Sprintf("tmpl%d.db", os.Getpid()))
	_ = os.Remove(p)
	dst, err := sql.Open("sqlite3", p)
	if err != nil {
		return nil, err
	}
	typ := regexp.MustCompile(`(?i)(datetime|timestamp)\(\d\)`)
	for _, s := range ddl {
		s = typ.ReplaceAllString(s, "$1")
		if strings.HasPrefix(s, "CREATE TABLE") && strings.Contains(s, "(`id` integer,") && strings.HasSuffix(s, ",PRIMARY KEY (`id`))") {
			s = strings.Replace(s, "(`id` integer,", "(`id` integer PRIMARY KEY AUTOINCREMENT,", 1)
			s = strings.TrimSuffix(s, ",PRIMARY KEY (`id`))") + ")"
		}
		if _, err := dst.Exec(s); err != nil {
			return nil, fmt.Errorf("%s: %w", s, err)
		}
	}
	// what is deleted stays visible to the monitors
	for _, s := range []string{
		"CREATE TABLE sim_deleted (seq integer PRIMARY KEY AUTOINCREMENT, tbl text, id integer, service text, event_id integer, status integer, event_created_at datetime, inst integer, evid text, sender text)",
		"CREATE TABLE sim_lock (seq integer PRIMARY KEY AUTOINCREMENT, op text, resource text, old_locker text, locker text, old_upd datetime, upd datetime, at integer, inst integer)",
		"CREATE TRIGGER sim_lk1 AFTER INSERT ON resource_lock BEGIN INSERT INTO sim_lock(op,resource,locker,upd,at,inst) VALUES('insert',new.resource,new.locker_id,new.updated_at,sim_now(),sim_inst()); END",
		"CREATE TRIGGER sim_lk2 AFTER UPDATE ON resource_lock BEGIN INSERT INTO sim_lock(op,resource,old_locker,locker,old_upd,upd,at,inst) VALUES('update',new.resource,old.locker_id,new.locker_id,old.updated_at,new.updated_at,sim_now(),sim_inst()); END",
		"CREATE TRIGGER sim_lk3 AFTER DELETE ON resource_lock BEGIN INSERT INTO sim_lock(op,resource,old_locker,old_upd,at,inst) VALUES('delete',old.resource,old.locker_id,old.updated_at,sim_now(),sim_inst()); END",
		"CREATE TRIGGER sim_del1 AFTER DELETE ON ddd_domain_service_event BEGIN INSERT INTO sim_deleted(tbl,id,service,event_id,status,event_created_at,inst) VALUES('delivery',old.id,old.service,old.event_id,old.status,old.event_created_at,sim_inst()); END",
		"CREATE TRIGGER sim_del2 AFTER DELETE ON ddd_domain_event BEGIN INSERT INTO sim_deleted(tbl,id,event_created_at,inst,evid,sender) VALUES('event',old.id,old.event_created_at,sim_inst(),old.event_id,old.sender); END",
	} {
		if _, err := dst.Exec(s); err != nil {
			return nil, err
		}
	}
	_ = dst.Close()
	b, err := os.ReadFile(p)
	_ = os.Remove(p)
	return b, err
}

var simSeq atomic.Int64

func newSimDB() *simDB {
	simTemplate.Do(func() { simTemplate.b, simTemplate.err = buildTemplate() })
	if simTemplate.err != nil {
		panic(simTemplate.err)
	}
	p := filepath.Join(simDir(), fmt.Sprintf("d%d.%d.db", os.Getpid(), simSeq.Add(1)))
	if err := os.WriteFile(p, simTemplate.b, 0o600); err != nil {
		panic(err)
	}
	d := &simDB{path: p, writer: make(chan struct{}, 1), changed: make(chan struct{}), locks: map[string]*simConn{}}
	d.mon = d.newInst("monitor")
	return d
}

// newInst starts a client process.
func (d *simDB) newInst(name string) *simInst { return d.newInstCfg(name, true) }

// newInstCfg starts a client process whose gorm translates errors or not.
func (d *simDB) newInstCfg(name string, translate bool) *simInst {
	in := &simInst{name: name, db: d, dead: make(chan struct{}), conns: map[*simConn]bool{}}
	d.mu.Lock() // numbered before the first connection, which tells the number to the triggers
	in.num = len(d.insts)
	d.insts = append(d.insts, in)
	d.mu.Unlock()
	in.sdb = sql.OpenDB(simConnector{in})
	in.sdb.SetMaxIdleConns(16)
	g, err := gorm.Open(&sqlite.Dialector{Conn: in.sdb}, &gorm.Config{Logger: glog.Discard, TranslateError: translate,
		NowFunc: func() time.Time { return time.Now().UTC() }})
	if err != nil {
		panic(err)
	}
	g.ClauseBuilders["FOR"] = func(c clause.Clause, b clause.Builder) {
		if l, ok := c.Expression.(clause.Locking); ok {
			b.WriteString("FOR " + l.Strength)
			if l.Options != "" {
				b.WriteString(" " + l.Options)
			}
		}
	}
	in.g = g
	in.seq = 0
	return in
}

// die kills the client process: its open transactions roll back, its locks are
// released, and every goroutine of it ends at its next database call.
func (in *simInst) die() {
	in.db.mu.Lock()
	if in.isDead.Swap(true) {
		in.db.mu.Unlock()
		return
	}
	close(in.dead)
	var cs []*simConn
	for c := range in.conns {
		cs = append(cs, c)
	}
	in.db.mu.Unlock()
	for _, c := range cs {
		c.rmu.Lock()
		c.abort()
		c.rmu.Unlock()
	}
	for _, p := range in.peers {
		p.die()
	}
}

// close ends every client and removes the database.
func (d *simDB) close() {
	for _, in := range append([]*simInst{}, d.insts...) {
		in.die()
		_ = in.sdb.Close()
		d.mu.Lock()
		var cs []*simConn
		for c := range in.conns {
			cs = append(cs, c)
		}
		d.mu.Unlock()
		for _, c := range cs {
			c.rmu.Lock()
			if c.raw != nil {
				_ = c.raw.Close()
				c.raw = nil
			}
			c.rmu.Unlock()
		}
	}
	for _, x := range []string{"", "-wal", "-shm"} {
		_ = os.Remove(d.path + x)
	}
}

type simConnector struct{ in *simInst }

func (c simConnector) Driver() driver.Driver { return simDriver{} }

type simDriver struct{}

func (simDriver) Open(string) (driver.Conn, error) { return nil, errors.New("not supported") }

func (c simConnector) Connect(context.Context) (driver.Conn, error) {
	if c.in.isDead.Load() {
		runtime.Goexit()
	}
	raw, err := (&sqlite3.SQLiteDriver{}).Open("file:" + c.in.db.path + "?_journal_mode=WAL&_synchronous=OFF&_busy_timeout=20000&_loc=UTC&cache=private")
	if err != nil {
		return nil, err
	}
	d := c.in.db
	inst := c.in.num
	if err := raw.(*sqlite3.SQLiteConn).RegisterFunc("sim_inst", func() int { return inst }, true); err != nil {
		return nil, err
	}
	if err := raw.(*sqlite3.SQLiteConn).RegisterFunc("sim_now", func() int64 { return time.Now().UnixNano() }, false); err != nil {
		return nil, err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.nconn++
	sc := &simConn{in: c.in, raw: raw.(*sqlite3.SQLiteConn), id: d.nconn, held: map[string]bool{}}
	c.in.conns[sc] = true
	return sc, nil
}

type simConn struct {
	in      *simInst
	id      int
	rmu     sync.Mutex // raw connection; never held while waiting
	raw     *sqlite3.SQLiteConn
	tx      atomic.Int64 // 0 = none
	inTx    bool         // between Begin and Commit or Rollback, as the client sees it
	writing atomic.Bool  // raw transaction open, write slot held
	held    map[string]bool
	broken  bool // the connection broke inside a transaction, which is rolled back
}

func (c *simConn) Close() error {
	c.rmu.Lock()
	defer c.rmu.Unlock()
	c.abort()
	if c.raw != nil {
		_ = c.raw.Close()
		c.raw = nil
	}
	c.in.db.mu.Lock()
	delete(c.in.conns, c)
	c.in.db.mu.Unlock()
	return nil
}

// abort rolls back and frees what the connection holds; rmu held.
func (c *simConn) abort() {
	if c.writing.Load() {
		if c.raw != nil {
			_, _ = c.raw.ExecContext(context.Background(), "ROLLBACK", nil)
		}
		c.freeWriter()
	}
	c.tx.Store(0)
	c.freeRows()
}

func (c *simConn) freeWriter() {
	c.writing.Store(false)
	c.in.db.writerG.Store("")
	select {
	case <-c.in.db.writer:
	default:
	}
}

func (c *simConn) freeRows() {
	d := c.in.db
	d.mu.Lock()
	if len(c.held) > 0 {
		for k := range c.held {
			delete(d.locks, k)
		}
		c.held = map[string]bool{}
		close(d.changed)
		d.changed = make(chan struct{})
	}
	d.mu.Unlock()
}

// enter is called at the start of every driver call: delivers latency, faults
// and death.
func (c *simConn) enter(ctx context.Context, kind, sqlText string, args []driver.NamedValue) (*simStmt, error) {
	d := c.in.db
	if c.in.isDead.Load() {
		return &simStmt{Inst: c.in}, c.gone()
	}
	st := &simStmt{Inst: c.in, Conn: c.id, TX: c.tx.Load(), Kind: kind, SQL: sqlText, Args: args}
	d.mu.Lock()
	c.in.seq++
	st.Seq = c.in.seq
	lat, on := d.lat, d.onStmt
	d.mu.Unlock()
	if c.in == d.mon {
		lat, on = nil, nil
	}
	if lat != nil {
		if w := lat(st); w > 0 {
			if err := c.sleep(ctx, w); err != nil {
				return st, err
			}
		}
	}
	if ctx != nil && ctx.Err() != nil {
		return st, ctx.Err()
	}
	if c.broken {
		if kind == "rollback" {
			return st, nil
		}
		return st, errSimDB
	}
	if on != nil {
		st.Fault = on(st)
	}
	if st.Fault != fNone && kind == "exec" && reBack.MatchString(sqlText) {
		// setting or going back to a savepoint fails only with the connection
		c.broken = true
		c.rmu.Lock()
		c.abort()
		c.rmu.Unlock()
		if st.Fault == fAfter {
			st.Fault = fBefore
		}
	}
	if c.in.isDead.Load() { // killed by the monitor during the call
		return st, c.gone()
	}
	st.At = time.Now()
	if st.Fault != fNone {
		d.mu.Lock()
		d.nfault++
		d.mu.Unlock()
	}
	switch st.Fault {
	case fBefore:
		st.Err = errSimDB
		d.record(st)
		return st, errSimDB
	case fDieBefore:
		d.record(st)
		c.in.die()
		return st, c.gone()
	}
	return st, nil
}

// leave applies the faults that strike after execution.
func (c *simConn) leave(st *simStmt, err error) error {
	d := c.in.db
	if err == nil && st.Fault == fAfter {
		err = errSimDB
	}
	st.Err = err
	d.record(st)
	if d.onDone != nil && c.in != d.mon {
		d.onDone(st)
	}
	if st.Fault == fDieAfter {
		c.in.die()
	}
	if c.in.isDead.Load() {
		return c.gone()
	}
	return err
}

func (d *simDB) record(st *simStmt) {
	d.mu.Lock()
	d.nstmt++
	st.N = d.nstmt
	if d.tracing && st.Inst != d.mon && len(d.trace) < 20000 {
		d.trace = append(d.trace, *st)
	}
	d.mu.Unlock()
}

var errDead = errors.New("the process is dead")

// gone ends the calling goroutine of a dead process. Inside a transaction,
// where database/sql holds locks that are not released by deferred calls, it
// only fails the call.
func (c *simConn) gone() error {
	c.rmu.Lock()
	c.abort()
	c.rmu.Unlock()
	if c.inTx {
		return errDead
	}
	runtime.Goexit()
	return nil
}

func (c *simConn) sleep(ctx context.Context, w time.Duration) error {
	t := time.NewTimer(w)
	defer t.Stop()
	var done <-chan struct{}
	if ctx != nil {
		done = ctx.Done()
	}
	select {
	case <-t.C:
	case <-c.in.dead:
	case <-done:
	}
	if c.in.isDead.Load() {
		return c.gone()
	}
	return nil
}

var (
	reFor   = regexp.MustCompile(`(?i)\s+FOR (UPDATE|SHARE)( NOWAIT| SKIP LOCKED)?\s*$`)
	reFrom  = regexp.MustCompile("(?is)^\\s*SELECT\\s+.*?\\s+FROM\\s+`?(\\w+)`?")
	reUpd   = regexp.MustCompile("(?is)^\\s*UPDATE\\s+`?(\\w+)`?\\s+SET\\s")
	reDel   = regexp.MustCompile("(?is)^\\s*DELETE\\s+FROM\\s+`?(\\w+)`?")
	reBack  = regexp.MustCompile(`(?i)^\s*(ROLLBACK TO|SAVEPOINT|RELEASE)\b`)
	reWhere = regexp.MustCompile(`(?i)\sWHERE\s`)
	reWrite = regexp.MustCompile(`(?is)^\s*(INSERT|UPDATE|DELETE|REPLACE|CREATE|DROP|ALTER|SAVEPOINT|ROLLBACK TO|RELEASE)\b`)
)

// checkText refuses what a utf8mb4 text column of MySQL refuses.
func checkText(write bool, args []driver.NamedValue) error {
	if !write {
		return nil
	}
	for _, a := range args {
		if t, ok := a.Value.(string); ok {
			if len(t) > 65535 {
				return errors.New("Error 1406 (22001): Data too long for column")
			}
			if !utf8.ValidString(t) {
				return errors.New("Error 1366 (HY000): Incorrect string value")
			}
		}
	}
	return nil
}

func renumber(a []driver.NamedValue) []driver.NamedValue {
	r := make([]driver.NamedValue, len(a))
	for i, v := range a {
		r[i] = driver.NamedValue{Ordinal: i + 1, Value: v.Value}
	}
	return r
}

// rowsOf returns the row keys a query or a write statement matches.
func (c *simConn) rowsOf(sqlText string, args []driver.NamedValue) ([]string, error) {
	var q, table string
	switch {
	case reUpd.MatchString(sqlText):
		table = reUpd.FindStringSubmatch(sqlText)[1]
		loc := reWhere.FindAllStringIndex(sqlText, -1)
		if len(loc) == 0 {
			q, args = "SELECT rowid FROM `"+table+"`", nil
		} else {
			i := loc[0][0]
			n := strings.Count(sqlText[:i], "?")
			if n > len(args) {
				return nil, nil
			}
			q, args = "SELECT rowid FROM `"+table+"`"+sqlText[i:], args[n:]
		}
	case reDel.MatchString(sqlText):
		table = reDel.FindStringSubmatch(sqlText)[1]
		q = "SELECT rowid " + sqlText[strings.Index(strings.ToUpper(sqlText), "FROM"):]
	case reFrom.MatchString(sqlText):
		m := reFrom.FindStringSubmatchIndex(sqlText)
		table = sqlText[m[2]:m[3]]
		f := strings.Index(strings.ToUpper(sqlText), " FROM ")
		if strings.Contains(strings.ToUpper(sqlText), " GROUP BY ") || strings.Contains(strings.ToUpper(sqlText), " JOIN ") {
			return nil, nil
		}
		q = "SELECT `" + table + "`.rowid" + sqlText[f:]
	default:
		return nil, nil
	}
	c.rmu.Lock()
	defer c.rmu.Unlock()
	if c.raw == nil {
		return nil, driver.ErrBadConn
	}
	rows, err := c.raw.QueryContext(context.Background(), q, renumber(args))
	if err != nil {
		return nil, nil // not a form rows can be told for; the statement itself will report
	}
	defer rows.Close()
	var out []string
	dest := make([]driver.Value, 1)
	for rows.Next(dest) == nil {
		out = append(out, table+"/"+fmt.Sprint(dest[0]))
	}
	sort.Strings(out)
	return out, nil
}

// lockRows waits until the rows the statement matches are not locked by others
// and, in a transaction, locks them. It returns the statement, which leaves out
// the rows that SKIP LOCKED skips.
func (c *simConn) lockRows(ctx context.Context, sqlText string, args []driver.NamedValue, mode string, keep bool) (string, error) {
	d := c.in.db
	limit := time.Now().Add(lockWaitTimeout)
	orig := sqlText
	var skip []string
	for {
		rows, err := c.rowsOf(sqlText, args)
		if err != nil {
			return "", err
		}
		d.mu.Lock()
		if c.in.isDead.Load() {
			d.mu.Unlock()
			return "", c.gone()
		}
		blocked := false
		fresh := false
		for _, k := range rows {
			o := d.locks[k]
			if o != nil && o != c {
				blocked = true
				if mode == " SKIP LOCKED" {
					skip = append(skip, k[strings.IndexByte(k, '/')+1:])
				}
			}
			if !c.held[k] {
				fresh = true
			}
		}
		if !blocked {
			if keep {
				for _, k := range rows {
					d.locks[k] = c
					c.held[k] = true
				}
			}
			d.mu.Unlock()
			if !keep || !fresh {
				return sqlText, nil
			}
			continue // the rows may have changed before the lock was granted
		}
		ch := d.changed
		d.mu.Unlock()
		switch mode {
		case " NOWAIT":
			return "", errNoWait
		case " SKIP LOCKED":
			m := reFrom.FindStringSubmatchIndex(orig)
			if m == nil {
				return "", errors.New("simDB: cannot skip rows in " + orig)
			}
			t := orig[m[2]:m[3]]
			f := strings.Index(strings.ToUpper(orig), " FROM ")
			sqlText = orig[:f] + " FROM (SELECT rowid AS rowid, * FROM `" + t + "` WHERE rowid NOT IN (" + strings.Join(skip, ",") + ")) AS `" + t + "`" + orig[m[1]:]
			continue
		}
		if err := c.waitFor(ctx, ch, limit); err != nil {
			return "", err
		}
	}
}

func (c *simConn) waitFor(ctx context.Context, ch <-chan struct{}, limit time.Time) error {
	w := time.Until(limit)
	if w <= 0 {
		c.in.db.mu.Lock()
		c.in.db.ntimeo++
		c.in.db.mu.Unlock()
		return errLockWait
	}
	t := time.NewTimer(w)
	defer t.Stop()
	var done <-chan struct{}
	if ctx != nil {
		done = ctx.Done()
	}
	select {
	case <-ch:
	case <-t.C:
	case <-done:
		return ctx.Err()
	case <-c.in.dead:
		return c.gone()
	}
	return nil
}

// startWriting takes the write slot and opens the raw transaction.
func (c *simConn) startWriting(ctx context.Context) error {
	if c.writing.Load() {
		return nil
	}
	d := c.in.db
	select {
	case d.writer <- struct{}{}:
	default:
		if g, _ := d.writerG.Load().(string); g == goid() {
			d.nself.Add(1)
		}
		t := time.NewTimer(lockWaitTimeout)
		defer t.Stop()
		var done <-chan struct{}
		if ctx != nil {
			done = ctx.Done()
		}
		select {
		case d.writer <- struct{}{}:
		case <-t.C:
			d.mu.Lock()
			d.ntimeo++
			d.mu.Unlock()
			return errLockWait
		case <-done:
			return ctx.Err()
		case <-c.in.dead:
			return c.gone()
		}
	}
	c.rmu.Lock()
	defer c.rmu.Unlock()
	if c.raw == nil || c.in.isDead.Load() {
		<-d.writer
		return driver.ErrBadConn
	}
	if _, err := c.raw.ExecContext(context.Background(), "BEGIN IMMEDIATE", nil); err != nil {
		<-d.writer
		return err
	}
	c.writing.Store(true)
	d.writerG.Store(goid())
	return nil
}

func (c *simConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	st, err := c.enter(ctx, "exec", q, args)
	if err != nil {
		return nil, err
	}
	if reUpd.MatchString(q) || reDel.MatchString(q) {
		if _, err := c.lockRows(ctx, q, args, "", c.tx.Load() != 0); err != nil {
			return nil, c.leave(st, err)
		}
	}
	write := reWrite.MatchString(q)
	if write {
		args = roundTimes(q, args)
	}
	if err := checkText(write, args); err != nil {
		return nil, c.leave(st, err)
	}
	if write {
		if err := c.startWriting(ctx); err != nil {
			return nil, c.leave(st, err)
		}
	}
	c.rmu.Lock()
	if c.raw == nil || c.in.isDead.Load() {
		c.rmu.Unlock()
		return nil, c.gone()
	}
	res, err := c.raw.ExecContext(context.Background(), q, args)
	if err == nil {
		st.Rows, _ = res.RowsAffected()
	}
	if write && c.tx.Load() == 0 {
		end := "COMMIT"
		if err != nil {
			end = "ROLLBACK"
		}
		if _, e := c.raw.ExecContext(context.Background(), end, nil); e != nil && err == nil {
			err = e
		}
		c.freeWriter()
	}
	c.rmu.Unlock()
	return res, c.leave(st, err)
}

func (c *simConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	st, err := c.enter(ctx, "query", q, args)
	if err != nil {
		return nil, err
	}
	locking := reFor.FindStringSubmatch(q)
	if locking != nil {
		q = reFor.ReplaceAllString(q, "")
		if q, err = c.lockRows(ctx, q, args, strings.ToUpper(locking[2]), c.tx.Load() != 0); err != nil {
			return nil, c.leave(st, err)
		}
	}
	write := reWrite.MatchString(q) // INSERT ... RETURNING
	if write {
		args = roundTimes(q, args)
	}
	if err := checkText(write, args); err != nil {
		return nil, c.leave(st, err)
	}
	if write {
		if reUpd.MatchString(q) || reDel.MatchString(q) {
			if _, err := c.lockRows(ctx, q, args, "", c.tx.Load() != 0); err != nil {
				return nil, c.leave(st, err)
			}
		}
		if err := c.startWriting(ctx); err != nil {
			return nil, c.leave(st, err)
		}
	}
	c.rmu.Lock()
	if c.raw == nil || c.in.isDead.Load() {
		c.rmu.Unlock()
		return nil, c.gone()
	}
	m, err := c.readAll(q, args)
	if err == nil {
		st.Rows = int64(len(m.rows))
	}
	if write && c.tx.Load() == 0 {
		end := "COMMIT"
		if err != nil {
			end = "ROLLBACK"
		}
		if _, e := c.raw.ExecContext(context.Background(), end, nil); e != nil && err == nil {
			err = e
		}
		c.freeWriter()
	}
	c.rmu.Unlock()
	if err = c.leave(st, err); err != nil {
		return nil, err
	}
	return m, nil
}

func (c *simConn) readAll(q string, args []driver.NamedValue) (*memRows, error) {
	rows, err := c.raw.QueryContext(context.Background(), q, args)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	m := &memRows{cols: rows.Columns()}
	for {
		dest := make([]driver.Value, len(m.cols))
		if err := rows.Next(dest); err != nil {
			if err == io.EOF {
				return m, nil
			}
			return nil, err
		}
		for i, v := range dest {
			if b, ok := v.([]byte); ok {
				dest[i] = append([]byte(nil), b...)
			}
		}
		m.rows = append(m.rows, dest)
	}
}

type memRows struct {
	cols []string
	rows [][]driver.Value
	i    int
}

func (m *memRows) Columns() []string { return m.cols }
func (m *memRows) Close() error      { return nil }
func (m *memRows) Next(dest []driver.Value) error {
	if m.i >= len(m.rows) {
		return io.EOF
	}
	copy(dest, m.rows[m.i])
	m.i++
	return nil
}

func (c *simConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	st, err := c.enter(ctx, "begin", "BEGIN", nil)
	if err != nil {
		return nil, err
	}
	d := c.in.db
	d.mu.Lock()
	d.ntx++
	c.tx.Store(d.ntx)
	d.mu.Unlock()
	st.TX = c.tx.Load()
	if err := c.leave(st, nil); err != nil {
		c.tx.Store(0)
		return nil, err
	}
	c.inTx = true
	return simTx{c}, nil
}

type simTx struct{ c *simConn }

func (t simTx) Commit() error {
	c := t.c
	defer func() { c.inTx, c.broken = false, false }()
	st, err := c.enter(nil, "commit", "COMMIT", nil)
	if err != nil { // the server rolls back when the connection breaks
		c.rmu.Lock()
		c.abort()
		c.rmu.Unlock()
		return err
	}
	c.rmu.Lock()
	if c.raw == nil || c.in.isDead.Load() {
		c.rmu.Unlock()
		return c.gone()
	}
	if c.writing.Load() {
		_, err = c.raw.ExecContext(context.Background(), "COMMIT", nil)
		if err != nil {
			_, _ = c.raw.ExecContext(context.Background(), "ROLLBACK", nil)
		}
		c.freeWriter()
		st.Commit = err == nil
	}
	c.tx.Store(0)
	c.freeRows()
	c.rmu.Unlock()
	return c.leave(st, err)
}

func (t simTx) Rollback() error {
	c := t.c
	defer func() { c.inTx, c.broken = false, false }()
	st, err := c.enter(nil, "rollback", "ROLLBACK", nil)
	c.rmu.Lock()
	c.abort()
	c.rmu.Unlock()
	if err != nil {
		return err
	}
	return c.leave(st, nil)
}

func (c *simConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *simConn) Ping(context.Context) error {
	return nil
}

func (c *simConn) Prepare(q string) (driver.Stmt, error) { return &simPrep{c, q}, nil }

type simPrep struct {
	c *simConn
	q string
}

func (s *simPrep) Close() error  { return nil }
func (s *simPrep) NumInput() int { return -1 }
func named(a []driver.Value) []driver.NamedValue {
	r := make([]driver.NamedValue, len(a))
	for i, v := range a {
		r[i] = driver.NamedValue{Ordinal: i + 1, Value: v}
	}
	return r
}
func (s *simPrep) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *simPrep) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}
func (s *simPrep) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *simPrep) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, a)
}

// busy returns the connections that are inside a transaction or hold locks.
func (d *simDB) busy(in *simInst) (n int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for c := range in.conns {
		if c.tx.Load() != 0 || c.writing.Load() || len(c.held) > 0 {
			n++
		}
	}
	return
}
