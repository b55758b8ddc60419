package main

// solve.go: discharging obligations with a solver portfolio.

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Model is what a solver reported about a refuted obligation.
type Model struct {
	Solver string
	Vals   map[string]string
	Order  []string
}

func (m *Model) String() string {
	if m == nil {
		return ""
	}
	var b strings.Builder
	for _, k := range m.Order {
		fmt.Fprintf(&b, "%s = %s\n", k, m.Vals[k])
	}
	return b.String()
}

type stage struct {
	solver string
	to     time.Duration
}

func (x *Exec) stages() []stage {
	f := 1.0
	if x.thorough {
		f = 3
	}
	d := func(s float64) time.Duration { return time.Duration(s * f * float64(time.Second)) }
	return []stage{{"z3-new", d(1.5)}, {"z3-new/relevancy=0", d(1.5)}, {"z3-new/arith.solver=2", d(1.5)},
		{"z3-new/random_seed=7", d(1.5)}, {"cvc5", d(4)}, {"z3", d(4)}, {"z3-new", d(12)}}
}

func quantified(ts []*Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if t.Op == "forall" || t.Op == "exists" {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

// solvePending discharges the obligations generated so far, several at a time.
func (x *Exec) solvePending() {
	obls := x.pending
	x.pending = nil
	x.parallel(len(obls), func(i int, pool *SolverPool) {
		x.solve(obls[i], pool)
		if o := obls[i]; debug && o.Status != "discharged" {
			x.dbg("OBL %s %s: %s (%s)", o.Name, o.Status, o.Pos, o.Reason)
		}
	})
}

// parallel runs f(0..n-1), each with a solver pool of its own.
func (x *Exec) parallel(n int, f func(i int, pool *SolverPool)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	for len(x.extra) < w {
		x.extra = append(x.extra, NewSolverPool(x.pool.Stats))
	}
	if w == 1 {
		w = 0
		for i := 0; i < n; i++ {
			f(i, x.pool)
		}
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(pool *SolverPool) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i, pool)
			}
		}(x.extra[k])
	}
	wg.Wait()
}

func (x *Exec) solve(o *Obligation, pool *SolverPool) {
	t0 := time.Now()
	defer func() { o.Millis = time.Since(t0).Milliseconds() }()
	x.solveMu.Lock()
	asserts := append(append([]*Term{}, o.assumes...), x.c.Not(o.goal))
	for _, a := range asserts {
		if a.HasBV {
			o.Status, o.Reason = "unknown", "internal: open term in obligation"
			x.solveMu.Unlock()
			return
		}
	}
	q := x.c.Query(asserts)
	sl := x.relevant(o.assumes, o.goal, false)
	sq := ""
	if len(sl) < len(o.assumes) {
		sq = x.c.Query(append(sl, x.c.Not(o.goal)))
	}
	r, hit := x.pool.cache[q]
	failed := x.failed
	x.solveMu.Unlock()
	if hit {
		o.Solver, o.Status = r, "discharged"
		return
	}
	fail := func() {
		x.solveMu.Lock()
		x.failed++
		x.solveMu.Unlock()
	}
	done := func(solver string) {
		o.Status, o.Solver = "discharged", solver
		x.solveMu.Lock()
		x.pool.cache[q] = solver
		x.solveMu.Unlock()
	}
	if debug && debugDump != "" && strings.Contains(o.Name, debugDump) {
		dumpQuery(o.Name, q)
	}
	if sq != "" {
		if res, _ := pool.Check("z3-new", sq, 700*time.Millisecond); res == "unsat" {
			done("z3-new")
			return
		}
	}
	stages := x.stages()
	if failed > 6 {
		// the contract is already broken; do not spend long on the rest
		stages = stages[:1]
	}
	o.Status = "unknown"
	for _, sg := range stages {
		res, sp := pool.Check(sg.solver, q, sg.to)
		switch {
		case res == "unsat":
			done(sg.solver)
			return
		case res == "sat":
			o.Status, o.Solver = "refuted", sg.solver
			o.Model = x.model(sp, asserts)
			o.Reason = "counterexample model"
			fail()
			return
		default:
			o.Reason += sg.solver + ": " + res + "; "
		}
		if time.Now().After(x.deadline) {
			break
		}
	}
	fail()
}

func (x *Exec) model(sp *solverProc, asserts []*Term) *Model {
	if sp == nil {
		return nil
	}
	m := &Model{Solver: sp.name, Vals: map[string]string{}}
	seen := map[int]bool{}
	var consts []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "const" && t.S.Name != "Array" {
			consts = append(consts, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, a := range asserts {
		rec(a)
	}
	for i, t := range consts {
		if i >= 60 {
			break
		}
		n := symQuote(t.Name)
		r, err := sp.GetValue(n)
		if err != nil {
			break
		}
		r = strings.TrimSuffix(strings.TrimPrefix(r, "(("), "))")
		r = strings.TrimSpace(strings.TrimPrefix(r, n))
		m.Vals[t.Name] = r
		m.Order = append(m.Order, t.Name)
	}
	return m
}
