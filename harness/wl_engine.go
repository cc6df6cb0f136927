package harness

import (
	"math/rand"
	"strings"
)

func randSpec(r *rand.Rand) Spec {
	sp := Spec{Seed: r.Int63(), Form: forms[r.Intn(len(forms))], Ops: 3 + r.Intn(14), Rich: r.Intn(4) > 0}
	if r.Intn(9) == 0 {
		sp.Form = []string{"create", "delete", "runcmd"}[r.Intn(3)]
	}
	sp.Recursive = r.Intn(3) == 0
	sp.Bus = []string{"plain", "tx", "tx"}[r.Intn(3)]
	sp.Wrapped = r.Intn(4) == 0
	sp.OptAt = []string{"engine", "command"}[r.Intn(2)]
	sp.PostHooks = r.Intn(5)
	sp.Persist = r.Intn(3) == 0
	sp.Output = r.Intn(3) == 0
	sp.TxRetErr = r.Intn(8) == 0
	if r.Intn(6) == 0 {
		sp.UnErr = r.Intn(256)
	}
	if r.Intn(3) == 0 {
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			sp.Locks = append(sp.Locks, lockNames[r.Intn(len(lockNames))])
		}
		if r.Intn(5) > 0 {
			sp.Locks = uniqKeepOrder(sp.Locks)
		}
	}
	if r.Intn(10) == 0 {
		sp.Cancel = 1 + r.Intn(3)
	}
	switch r.Intn(8) {
	case 0:
		sp.Outcome = "error"
	case 1:
		sp.Outcome = "break"
	case 2:
		if r.Intn(2) == 0 {
			sp.Outcome = "panic"
		}
	}
	sp.Decoy = r.Intn(3) == 0
	sp.RbErr = r.Intn(6) == 0
	return sp
}

var lockNames = []string{"a", "b", "ab", "order_1", "order_10", "order_2", "B", "ä", "", "z z", "a ", " a", "A"}

func uniqKeepOrder(s []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return out
}

// engineHistory: a history of random commands over one store.
func engineHistory(tweak func(r *rand.Rand, i int, sp *Spec)) func(c *C) {
	return func(c *C) {
		w := newWorld(c)
		n := 2 + c.R.Intn(4)
		for i := 0; i < n; i++ {
			sp := randSpec(c.R)
			if i == 0 { // something to work on
				sp.Outcome, sp.Dry = "", false
				sp.Locks = nil
			}
			if tweak != nil {
				tweak(c.R, i, &sp)
			}
			o := w.RunSpec(sp)
			if o.UserDone && c.Index < 8 && i == n-1 {
				c.Sample("%s -> shape(ins/upd/mov/del/live per save)=%v trace=%s", sp, o.T.shape, cut(traceString(o.Evs), 500))
			}
		}
		c.Count("commands_run", n)
	}
}

// engineFaults: one command, re-run with a fault at every point it passes.
func engineFaults(tweak func(r *rand.Rand, sp *Spec), only ...string) func(c *C) {
	return func(c *C) {
		w := newWorld(c)
		prep := randSpec(c.R)
		prep.Outcome, prep.Dry, prep.NoTx, prep.Locks = "", false, false, nil
		w.RunSpec(prep)
		sp := randSpec(c.R)
		sp.Outcome = ""
		sp.Ops = 3 + c.R.Intn(8)
		sp.Locks = uniqKeepOrder(sp.Locks)
		if tweak != nil {
			tweak(c.R, &sp)
		}
		// count the fault points on a copy of the world
		probe := w.clone()
		probe.names = []string{}
		po := probe.RunSpec(sp)
		if failed(po) {
			return
		}
		for at := 1; at <= po.Points; at++ {
			if len(only) > 0 && !hasPrefixOf(probe.names[at-1], only) {
				continue
			}
			for _, mode := range []string{"error", "retry", "panic", "break"} {
				if mode == "retry" && !hasPrefixOf(probe.names[at-1], []string{"convert", "exec", "idgen", "hook.Before"}) {
					continue
				}
				if mode != "error" && c.R.Intn(3) > 0 {
					continue
				}
				if mode == "break" {
					nm := probe.names[at-1]
					if nm != "main" && nm != "build" && nm != "init" {
						continue
					}
				}
				x := w.clone()
				s2 := sp
				s2.FaultAt, s2.FaultMode = at, mode
				x.RunSpec(s2)
			}
		}
		c.Count("fault_points", po.Points)
		if c.Index < 4 {
			c.Sample("%s: %d fault points %v", sp, po.Points, probe.names)
		}
	}
}

func hasPrefixOf(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// clone copies the stored state into a fresh world.
func (w *World) clone() *World {
	n := newWorldSeed(w.c, w.hookSeed)
	w.store.mu.Lock()
	for k, r := range w.store.rows {
		n.store.rows[k] = r
	}
	n.store.seq = w.store.seq
	w.store.mu.Unlock()
	n.nextUID = w.nextUID
	n.idg.n = w.idg.n
	return n
}

func newWorldSeed(c *C, hs uint64) *World {
	w := newWorld(c)
	w.hookSeed = hs
	return w
}
