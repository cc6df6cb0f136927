package harness

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	rdlock "github.com/bytedance/dddfirework/lock/redis"
	"github.com/redis/go-redis/v9"
)

// rdVal is one value the server stored, from the command that stored it to
// its removal or expiry.
type rdVal struct {
	key, val  string
	op        *rdOp
	at        time.Time
	end       time.Time // zero: never expires
	gone      time.Time // when a command removed or replaced it
	extended  bool
	goneBy    *rdOp
	overwrote *rdVal
}

// to is the instant the value stopped being there
func (v *rdVal) to() time.Time {
	t := v.end
	if t.IsZero() {
		t = v.at.Add(1e6 * time.Hour)
	}
	if !v.gone.IsZero() && v.gone.Before(t) {
		t = v.gone
	}
	return t
}

func (v *rdVal) live(now time.Time) bool {
	return v != nil && v.gone.IsZero() && (v.end.IsZero() || now.Before(v.end))
}

func (v *rdVal) String() string {
	f := "15:04:05.000"
	s := fmt.Sprintf("value of %v stored %s expires %s", v.op, v.at.Format(f), v.end.Format(f))
	if !v.gone.IsZero() {
		s += fmt.Sprintf(" removed %s by %v", v.gone.Format(f), v.goneBy)
	}
	return s
}

// rdOp is one acquisition or release.
type rdOp struct {
	n, cl     int
	lock      bool
	key       string
	call, ret time.Time
	done      bool
	err       error
	handle    any
	of        *rdOp // the acquisition this releases
	ctx       context.Context
	ctxErr    error
	stored    []*rdVal
	refused   int
	cmds      int
	rkeys     map[string]bool
	escaped   any
}

func (o *rdOp) String() string {
	switch {
	case o == nil:
		return "nobody"
	case o.lock:
		return fmt.Sprintf("acquisition %d (client %d, %q)", o.n, o.cl, o.key)
	}
	return fmt.Sprintf("release %d (client %d) of %v", o.n, o.cl, o.of)
}

type rdOpKey struct{}

// rdServer is a small redis server (strings with expiry, the scripts of the
// lock library) on in-memory connections, with faults.
type rdServer struct {
	mu      sync.Mutex
	rnd     *rand.Rand
	cur     map[string]*rdVal
	sha     map[string]bool
	all     []*rdVal
	pend    map[string][]*rdOp
	conns   map[net.Conn]bool
	pFault  float64
	maxLat  time.Duration
	faults  int
	stray   []string
	unknown []string
	nset    int
}

func rdSig(args []string) string { return strings.Join(args, "\x00") }

// hook: which operation a command belongs to
func (s *rdServer) DialHook(next redis.DialHook) redis.DialHook { return next }
func (s *rdServer) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		s.note(ctx, cmd)
		return next(ctx, cmd)
	}
}
func (s *rdServer) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		for _, c := range cmds {
			s.note(ctx, c)
		}
		return next(ctx, cmds)
	}
}

func (s *rdServer) note(ctx context.Context, cmd redis.Cmder) {
	op, _ := ctx.Value(rdOpKey{}).(*rdOp)
	if op == nil {
		return
	}
	a := make([]string, len(cmd.Args()))
	for i, x := range cmd.Args() {
		a[i] = fmt.Sprint(x)
	}
	s.mu.Lock()
	op.cmds++
	s.pend[rdSig(a)] = append(s.pend[rdSig(a)], op)
	s.mu.Unlock()
}

func (s *rdServer) opFor(args []string) *rdOp {
	l := s.pend[rdSig(args)]
	for i := len(l) - 1; i >= 0; i-- {
		if !l[i].done {
			return l[i]
		}
	}
	if len(l) > 0 {
		return l[len(l)-1]
	}
	return nil
}

func (s *rdServer) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	s.mu.Lock()
	refuse := s.rnd.Float64() < s.pFault/2
	s.mu.Unlock()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if refuse {
		return nil, errors.New("dial tcp: connection refused")
	}
	a, b := net.Pipe()
	s.mu.Lock()
	s.conns[b] = true
	s.mu.Unlock()
	go s.serve(b)
	return a, nil
}

func (s *rdServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	line := func() (string, error) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	for {
		l, err := line()
		if err != nil || !strings.HasPrefix(l, "*") {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		args := make([]string, n)
		for i := range args {
			l, err := line()
			if err != nil || !strings.HasPrefix(l, "$") {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args[i] = string(b[:k])
		}
		s.mu.Lock()
		fault, lat, back := "", time.Duration(0), time.Duration(0)
		if s.maxLat > 0 {
			lat = time.Duration(s.rnd.Int63n(int64(s.maxLat)))
			back = time.Duration(s.rnd.Int63n(int64(s.maxLat)))
		}
		if s.rnd.Float64() < s.pFault {
			fault = []string{"drop", "lost", "error", "loading", "hang", "late", "garbage"}[s.rnd.Intn(7)]
			s.faults++
		}
		s.mu.Unlock()
		time.Sleep(lat)
		reply := ""
		switch fault {
		case "drop":
			return
		case "error":
			reply = "-ERR injected failure\r\n"
		case "loading":
			reply = "-LOADING Redis is loading the dataset in memory\r\n"
		case "hang":
			time.Sleep(time.Minute)
			return
		case "garbage":
			reply = "?!\r\n"
		default:
			reply = s.exec(args)
		}
		time.Sleep(back)
		if fault == "late" {
			time.Sleep(20 * time.Second)
		}
		if fault == "lost" {
			return
		}
		if _, err := io.WriteString(c, reply); err != nil {
			return
		}
	}
}

func (s *rdServer) get(key string) *rdVal {
	if v := s.cur[key]; v.live(time.Now()) {
		return v
	}
	return nil
}

func bulk(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }

func (s *rdServer) exec(a []string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(a) == 0 {
		return "-ERR empty\r\n"
	}
	op := s.opFor(a)
	cmd := strings.ToLower(a[0])
	switch cmd {
	case "hello":
		return "-ERR unknown command 'HELLO'\r\n"
	case "ping":
		return "+PONG\r\n"
	case "client", "select", "auth", "readonly":
		return "+OK\r\n"
	}
	if op == nil {
		s.stray = append(s.stray, strings.Join(a, " "))
	}
	use := func(k string) {
		if op != nil {
			op.rkeys[k] = true
		}
	}
	now := time.Now()
	switch cmd {
	case "setnx", "set":
		nx, end := cmd == "setnx", time.Time{}
		for i := 3; i < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "nx":
				nx = true
			case "px", "ex":
				n, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil || n <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				u := time.Millisecond
				if strings.ToLower(a[i]) == "ex" {
					u = time.Second
				}
				end = now.Add(time.Duration(n) * u)
				i++
			}
		}
		use(a[1])
		old := s.get(a[1])
		if nx && old != nil {
			if op != nil {
				op.refused++
			}
			if cmd == "setnx" {
				return ":0\r\n"
			}
			return "$-1\r\n"
		}
		v := &rdVal{key: a[1], val: a[2], op: op, at: now, end: end, overwrote: old}
		if old != nil {
			old.gone, old.goneBy = now, op
		}
		s.cur[a[1]] = v
		s.all = append(s.all, v)
		if op != nil {
			op.stored = append(op.stored, v)
		}
		if cmd == "setnx" {
			return ":1\r\n"
		}
		return "+OK\r\n"
	case "get":
		use(a[1])
		if v := s.get(a[1]); v != nil {
			return bulk(v.val)
		}
		return "$-1\r\n"
	case "del", "unlink":
		n := 0
		for _, k := range a[1:] {
			use(k)
			n += s.del(k, op)
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "pexpire", "expire":
		use(a[1])
		n, _ := strconv.ParseInt(a[2], 10, 64)
		u := time.Millisecond
		if cmd == "expire" {
			u = time.Second
		}
		return fmt.Sprintf(":%d\r\n", s.expire(a[1], time.Duration(n)*u))
	case "pttl", "ttl":
		use(a[1])
		return fmt.Sprintf(":%d\r\n", s.pttl(a[1]))
	case "script":
		return "+OK\r\n"
	case "eval", "evalsha":
		script := a[1]
		if cmd == "evalsha" {
			found := ""
			for t := range s.sha {
				if redis.NewScript(t).Hash() == a[1] {
					found = t
				}
			}
			if found == "" {
				return "-NOSCRIPT No matching script. Please use EVAL.\r\n"
			}
			script = found
		}
		s.sha[script] = true
		if len(a) < 5 || a[2] != "1" {
			s.unknown = append(s.unknown, strings.Join(a, " "))
			return "-ERR not supported\r\n"
		}
		use(a[3])
		v := s.get(a[3])
		cond := strings.Contains(script, `== ARGV[1]`) || strings.Contains(script, `==ARGV[1]`)
		owns := v != nil && v.val == a[4]
		switch low := strings.ToLower(script); {
		case strings.Contains(low, `"del"`):
			if cond && !owns {
				return ":0\r\n"
			}
			return fmt.Sprintf(":%d\r\n", s.del(a[3], op))
		case strings.Contains(low, `"pexpire"`):
			if cond && !owns {
				return ":0\r\n"
			}
			n, _ := strconv.ParseInt(a[5], 10, 64)
			return fmt.Sprintf(":%d\r\n", s.expire(a[3], time.Duration(n)*time.Millisecond))
		case strings.Contains(low, `"pttl"`):
			if cond && !owns {
				return ":-3\r\n"
			}
			return fmt.Sprintf(":%d\r\n", s.pttl(a[3]))
		}
	}
	s.unknown = append(s.unknown, strings.Join(a, " "))
	return "-ERR unknown command\r\n"
}

func (s *rdServer) del(k string, op *rdOp) int {
	v := s.get(k)
	if v == nil {
		return 0
	}
	v.gone, v.goneBy = time.Now(), op
	return 1
}

func (s *rdServer) expire(k string, d time.Duration) int {
	v := s.get(k)
	if v == nil {
		return 0
	}
	v.end, v.extended = time.Now().Add(d), true
	return 1
}

func (s *rdServer) pttl(k string) int64 {
	v := s.get(k)
	switch {
	case v == nil:
		return -2
	case v.end.IsZero():
		return -1
	}
	return int64(v.end.Sub(time.Now()) / time.Millisecond)
}

type rdWorld struct {
	c      *C
	srv    *rdServer
	ttl    time.Duration
	faulty bool
	mu     sync.Mutex
	rnd    *rand.Rand
	ops    []*rdOp
	nv     int
}

func (w *rdWorld) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

func (w *rdWorld) violate(sig, f string, a ...any) {
	if w.nv++; w.nv <= 6 {
		w.c.Violate("L04", sig, f, a...)
	}
}

func redisCase(c *C) {
	r := c.R
	w := &rdWorld{c: c, rnd: newRand(c.Seed, c.Index*2+1)}
	w.ttl = []time.Duration{150, 400, 1000, 2500, 4000, 15000, 60000}[r.Intn(7)] * time.Millisecond
	s := &rdServer{rnd: newRand(c.Seed, c.Index*2+2), cur: map[string]*rdVal{}, sha: map[string]bool{}, pend: map[string][]*rdOp{}, conns: map[net.Conn]bool{}}
	w.srv = s
	mode := r.Intn(4) // 0,1 plain  2 latency  3 faults
	if mode >= 2 {
		s.maxLat = time.Duration(1+r.Intn(15)) * time.Millisecond
	}
	if mode == 3 {
		s.pFault, w.faulty = []float64{0.03, 0.1, 0.3}[r.Intn(3)], true
	}
	newClient := func() *redis.Client {
		o := &redis.Options{Addr: "redis:6379", Dialer: s.dial, PoolSize: 64}
		if r.Intn(2) == 0 {
			o.MaxRetries = -1
		}
		cli := redis.NewClient(o)
		cli.AddHook(s)
		return cli
	}
	keys := make([]string, 1+r.Intn(3))
	for i, k := range r.Perm(len(lkKeys))[:len(keys)] {
		keys[i] = lkKeys[k]
	}
	ncl := 2 + r.Intn(5)
	shared := r.Intn(2) == 0
	var clis []*redis.Client
	var locks []*rdlock.RedisLock
	for i := 0; i < ncl; i++ {
		if i == 0 || !shared {
			cli := newClient()
			clis = append(clis, cli)
			locks = append(locks, rdlock.NewRedisLock(cli, w.ttl))
		} else {
			locks = append(locks, locks[0])
		}
	}
	c.Logf("mode %d ttl %v clients %d shared %v keys %q latency %v faults %v", mode, w.ttl, ncl, shared, keys, s.maxLat, s.pFault)
	var wg sync.WaitGroup
	var held []*rdOp // handles passed between clients
	for i := 0; i < ncl; i++ {
		n := 3 + r.Intn(8)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n; j++ {
				time.Sleep([]time.Duration{0, time.Duration(w.intn(300)) * time.Millisecond, w.ttl / 2, time.Duration(w.intn(3000)) * time.Millisecond}[w.intn(4)])
				op := w.acquire(i, locks[i], keys[w.intn(len(keys))])
				if op.err != nil {
					// the handle of somebody else
					if w.intn(4) == 0 {
						w.mu.Lock()
						var o *rdOp
						if len(held) > 0 {
							o = held[w.rnd.Intn(len(held))]
						}
						w.mu.Unlock()
						if o != nil {
							w.release(i, locks[i], o)
						}
					}
					continue
				}
				w.mu.Lock()
				held = append(held, op)
				w.mu.Unlock()
				switch w.intn(6) {
				case 0: // at once
				case 1:
					time.Sleep(w.ttl)
				case 2:
					time.Sleep(w.ttl - time.Millisecond)
				case 3:
					time.Sleep(w.ttl + time.Duration(w.intn(4000))*time.Millisecond)
				default:
					time.Sleep(time.Duration(w.intn(int(w.ttl))))
				}
				k := w.intn(6)
				if k > 0 {
					w.release(i, locks[i], op)
				}
				if k == 1 {
					time.Sleep(time.Duration(w.intn(300)) * time.Millisecond)
					w.release(i, locks[i], op)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Minute)
	for _, cli := range clis {
		cli.Close()
	}
	s.mu.Lock()
	for cn := range s.conns {
		cn.Close()
	}
	s.mu.Unlock()
	time.Sleep(2 * time.Minute)
	w.judge()
}

func (w *rdWorld) ctx(op *rdOp) (context.Context, context.CancelFunc) {
	ctx := context.WithValue(context.Background(), rdOpKey{}, op)
	cancel := context.CancelFunc(func() {})
	switch w.intn(6) {
	case 0:
		ctx, cancel = context.WithTimeout(ctx, time.Duration(w.intn(2500))*time.Millisecond)
	case 1:
		ctx, cancel = context.WithCancel(ctx)
		d := time.Duration(w.intn(2500)) * time.Millisecond
		cc := cancel
		time.AfterFunc(d, cc)
	case 2, 3:
		ctx, cancel = context.WithTimeout(ctx, time.Hour)
	}
	op.ctx = ctx
	return ctx, cancel
}

func (w *rdWorld) acquire(cl int, l *rdlock.RedisLock, key string) *rdOp {
	op := &rdOp{cl: cl, lock: true, key: key, rkeys: map[string]bool{}}
	w.mu.Lock()
	op.n = len(w.ops)
	w.ops = append(w.ops, op)
	w.mu.Unlock()
	ctx, cancel := w.ctx(op)
	op.call = time.Now()
	func() {
		defer func() {
			if p := recover(); p != nil {
				op.escaped, op.err = p, fmt.Errorf("panic %v", p)
			}
		}()
		op.handle, op.err = l.Lock(ctx, key)
	}()
	op.ctxErr = ctx.Err()
	w.end(op, cancel)
	return op
}

func (w *rdWorld) end(op *rdOp, cancel func()) {
	w.srv.mu.Lock()
	op.ret, op.done = time.Now(), true
	w.srv.mu.Unlock()
	cancel()
	w.c.Logf("%s %v: %v (%v to %v)", time.Now().Format("05.000"), op, op.err, op.call.Format("05.000"), op.ret.Format("05.000"))
}

func (w *rdWorld) release(cl int, l *rdlock.RedisLock, of *rdOp) {
	op := &rdOp{cl: cl, key: of.key, of: of, rkeys: map[string]bool{}}
	w.mu.Lock()
	op.n = len(w.ops)
	w.ops = append(w.ops, op)
	w.mu.Unlock()
	ctx, cancel := w.ctx(op)
	op.call = time.Now()
	func() {
		defer func() {
			if p := recover(); p != nil {
				op.escaped, op.err = p, fmt.Errorf("panic %v", p)
			}
		}()
		op.err = l.UnLock(ctx, of.handle)
	}()
	op.ctxErr = ctx.Err()
	w.end(op, cancel)
}

func (w *rdWorld) judge() {
	c, s := w.c, w.srv
	s.mu.Lock()
	defer s.mu.Unlock()
	const tol = 2 * time.Millisecond
	if len(s.stray) > 0 || len(s.unknown) > 0 {
		c.Inconclusive("commands the server cannot attribute %q or execute %q", s.stray, s.unknown)
		return
	}
	kinds := []string{}
	byKey := map[string][]*rdVal{}
	for _, v := range s.all {
		byKey[v.key] = append(byKey[v.key], v)
	}
	c.Count("faults_injected", s.faults)
	// every value the server held
	for _, v := range s.all {
		switch {
		case v.op == nil || !v.op.lock:
			w.violate("stored-by-release", "%v was stored outside an acquisition", v)
			continue
		case v.overwrote != nil:
			w.violate("taken-from-live-holder", "%v replaced the %v, which was live until %v", v, v.overwrote, v.overwrote.end)
		case v.end.IsZero():
			w.violate("never-expires", "%v has no expiry", v)
		case v.extended:
		case v.end.Sub(v.at) > w.ttl+tol || v.end.Sub(v.at) < w.ttl-tol:
			w.violate("time-to-live", "%v, its time to live is %v instead of %v", v, v.end.Sub(v.at), w.ttl)
		}
		if v.end.Sub(v.at) > w.ttl+tol+v.op.ret.Sub(v.op.call) {
			w.violate("time-to-live", "%v, it lives for %v instead of %v", v, v.end.Sub(v.at), w.ttl)
		}
		if !v.gone.IsZero() && v.goneBy != v.op && (v.goneBy == nil || v.goneBy.lock || v.goneBy.of != v.op) {
			w.violate("freed-by-other", "%v", v)
		}
	}
	rkey, okey := map[string]string{}, map[string]string{}
	freed := map[*rdVal]*rdOp{}
	for _, op := range w.ops {
		if op.escaped != nil {
			w.violate("panic", "%v panicked: %v", op, op.escaped)
			continue
		}
		for k := range op.rkeys {
			if o, ok := rkey[op.key]; ok && o != k {
				w.violate("key", "%q is kept under %q and %q", op.key, o, k)
			}
			if o, ok := okey[k]; ok && o != op.key {
				w.violate("key", "%q and %q share the key %q", op.key, o, k)
			}
			rkey[op.key], okey[k] = k, op.key
		}
	}
	for _, op := range w.ops {
		if op.escaped != nil {
			continue
		}
		ctxOpen := op.ctxErr != nil // its own context ended: the outcome is open
		k := rkey[op.key]
		if !op.lock {
			c.Count("releases", 1)
			var mine *rdVal
			for _, v := range op.of.stored {
				if !v.to().Before(op.call) || mine == nil {
					mine = v
				}
			}
			switch {
			case op.err == nil:
				if mine == nil || mine.gone.IsZero() || mine.gone.Before(op.call) || mine.gone.After(op.ret) {
					w.violate("phantom-release", "%v between %v and %v reported success, but freed nothing (%v)", op, op.call, op.ret, mine)
				} else if freed[mine] != nil {
					w.violate("phantom-release", "%v and %v both reported success", op, freed[mine])
				} else {
					freed[mine] = op
				}
				kinds = append(kinds, "rel")
			default:
				c.Count("releases_refused", 1)
				kinds = append(kinds, "norel")
				if w.faulty || ctxOpen {
					break
				}
				alone := true
				for _, o := range w.ops {
					if o != op && o.of == op.of && !o.call.After(op.ret) && !o.ret.Before(op.call) {
						alone = false
					}
				}
				if mine != nil && mine.goneBy == op && alone {
					w.violate("released-with-error", "%v freed the key and reported %v", op, op.err)
				} else if mine != nil && !mine.at.After(op.call) && mine.to().After(op.ret.Add(tol)) {
					w.violate("release-refused", "%v: the owner cannot release: %v", op, op.err)
				}
			}
			continue
		}
		// acquisitions
		c.Count("acquisitions_tried", 1)
		if op.err == nil {
			c.Count("acquisitions", 1)
			kinds = append(kinds, "acq")
			var v *rdVal
			for _, x := range op.stored {
				if !x.at.Before(op.call) && !x.at.After(op.ret) {
					v = x
				}
			}
			if v == nil {
				w.violate("no-lease", "%v succeeded between %v and %v, but stored nothing", op, op.call, op.ret)
				continue
			}
			if !w.faulty && v.to().Before(op.ret) && (v.gone.IsZero() || v.goneBy == nil || v.goneBy.of != op) {
				w.violate("no-lease", "%v succeeded at %v, but its key was gone: %v", op, op.ret, v)
			}
			for _, x := range byKey[k] {
				if x.at.Before(v.at) && x.to().After(v.at) {
					w.violate("taken-from-live-holder", "%v while there was %v", v, x)
				}
				if x.at.Before(v.at) && x.gone.IsZero() {
					c.Count("taken_after_expiry", 1)
				}
			}
			continue
		}
		if op.handle != nil {
			w.violate("handle-with-error", "%v failed with %v and returned the handle %T", op, op.err, op.handle)
		}
		locked := errors.Is(op.err, ddd.ErrEntityLocked)
		if !w.faulty && !ctxOpen {
			for _, v := range op.stored {
				if v.to().After(op.ret) && v.gone.IsZero() {
					w.violate("stored-with-error", "%v failed with %v but keeps the key: %v", op, op.err, v)
				}
			}
			if !locked {
				// a deadline of the lock itself may end while a command is under way
				if s.maxLat > 0 && op.refused > 0 {
					kinds = append(kinds, "slow")
					continue
				}
				w.violate("unexpected-error", "%v: %v", op, op.err)
				continue
			}
		}
		if !locked {
			kinds = append(kinds, "err")
			c.Count("errors", 1)
			continue
		}
		kinds = append(kinds, "ref")
		c.Count("refusals", 1)
		if op.refused == 0 && len(op.stored) == 0 {
			held := false
			for _, x := range byKey[k] {
				held = held || x.op != op && !x.at.After(op.ret) && x.to().After(op.call)
			}
			if !held || w.faulty {
				w.violate("refused-free-key", "%v was refused between %v and %v as locked, but it met nobody's key", op, op.call, op.ret)
				continue
			}
		}
		if w.faulty {
			continue
		}
		if d := op.ret.Sub(op.call); d > 10*time.Second {
			w.violate("unbounded-retry", "%v was refused after %v and %d attempts", op, d, op.refused)
		}
		if op.ctxErr != nil {
			continue
		}
		if w.ttl >= 400*time.Millisecond && op.refused < 2 {
			w.violate("not-retried", "%v was refused after %d attempt(s) and %v", op, op.refused, op.ret.Sub(op.call))
		}
		// a key that stays free for longer than the pause of the retries is taken
		var spans []*rdVal
		for _, x := range byKey[k] {
			if x.to().After(op.call) && x.at.Before(op.ret) {
				spans = append(spans, x)
			}
		}
		sort.Slice(spans, func(i, j int) bool { return spans[i].at.Before(spans[j].at) })
		at, slack := op.call, 200*time.Millisecond+4*s.maxLat
		for _, x := range spans {
			if x.at.Sub(at) > slack {
				w.violate("free-key-missed", "%v kept asking between %v and %v, but did not take the key, free from %v to %v", op, op.call, op.ret, at, x.at)
			}
			at = x.to()
		}
		if op.ret.Sub(at) > slack {
			w.violate("free-key-missed", "%v kept asking between %v and %v, but did not take the key, free since %v", op, op.call, op.ret, at)
		}
	}
	c.Distinct("%v %s", w.faulty, strings.Join(kinds, ""))
	c.Sample("ttl %v: %s", w.ttl, strings.Join(kinds, " "))
}

func init() {
	Register("L04", Workload{Name: "redis", Quick: 16000, Thorough: 400000, Bubble: true, Fn: redisCase})
}
