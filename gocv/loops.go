package main

// loops.go: loop unrolling and invariant inference (Houdini over templates).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopMode int

const (
	loopUnroll loopMode = iota
	loopInvariant
)

type loopRun struct {
	mode   loopMode
	n      int
	onBack func(fr *Frame, st *State, prev *ssa.BasicBlock)
}

// canUnroll: the number of iterations is a small constant.
func (x *Exec) canUnroll(fr *Frame, st *State, l *loopInfo, prev *ssa.BasicBlock) bool {
	limit := x.con.Unroll
	if x.spec > 0 {
		limit = 64
	}
	// evaluate the header's exit condition under the entry values
	f := fr.fork()
	s := st.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	var phiInit = map[ssa.Value]*Term{}
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			for i, e := range l.header.Preds {
				if e == prev {
					v, ok := x.tryVal(fr, p.Edges[i])
					if !ok {
						return false
					}
					f.env[p] = v
					if len(v.L) == 1 {
						phiInit[p] = v.L[0]
					}
				}
			}
		}
	}
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If:
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
			if !x.instr(f, s, in) {
				return false
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				outs := x.builtin(f, s, b, &in.Call, in, in.Pos())
				x.setRet(f, in, outs[0].ret)
				continue
			}
			return false
		default:
			return false
		}
	}
	a, okA := x.tryVal(f, cmp.X)
	b, okB := x.tryVal(f, cmp.Y)
	if !okA || !okB || len(a.L) != 1 || len(b.L) != 1 {
		return false
	}
	ka, ok1 := x.knownConst(s, a.L[0])
	kb, ok2 := x.knownConst(s, b.L[0])
	if !ok1 || !ok2 || !ka.IsNum() || !kb.IsNum() {
		return false
	}
	// both sides constant on entry; the phi side must be stepping
	d := ka.Rat.Num().Int64() - kb.Rat.Num().Int64()
	if d < 0 {
		d = -d
	}
	return d <= int64(limit)
}

func (x *Exec) tryVal(fr *Frame, v ssa.Value) (r Val, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupportedErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return x.val(fr, v), true
}

// cand is one candidate invariant.
type cand struct {
	desc string
	user bool
	eval func(e *candEnv) *Term
}

type candEnv struct {
	st   *State
	phis map[*ssa.Phi]Val
	k    *Term
	iter *iterState
}

type loopEnd struct {
	fr   *Frame
	st   *State
	prev *ssa.BasicBlock
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) baseTerm(epochs []epoch, name string) *Term {
	id := 0
	for _, e := range epochs {
		if matchPat(e.pat, name) {
			id = e.id
		}
	}
	return x.c.Const(fmt.Sprintf("H%d!%s", id, name), x.c.ArraySort(SInt, x.heapSort[name]))
}

// enterLoop cuts a loop with an inferred invariant.
func (x *Exec) enterLoop(fr *Frame, st *State, l *loopInfo, prev *ssa.BasicBlock) []Outcome {
	if x.spec > 0 {
		panic(unsupported("unbounded loop in specification code %s", fr.fn))
	}
	t0loop := time.Now()
	c := x.c
	phis := headerPhis(l.header)
	init := map[*ssa.Phi]Val{}
	pi := predIndex(l.header, prev)
	for _, p := range phis {
		init[p] = x.val(fr, p.Edges[pi]).retype(p.Type())
	}
	pre := st.snapshot()
	preState := st.clone()
	// the iterator driven by this loop, if any
	var iterKey ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && b == l.header {
				iterKey = nx.Iter
			}
		}
	}
	mods := map[string]bool{}
	cmods := map[*Cell]bool{}
	topMod := false
	// havoc builds an arbitrary loop-head state
	havoc := func() (*Frame, *State, map[*ssa.Phi]Val, *Term) {
		s := preState.clone()
		f := fr.fork()
		x.havocPats(s, sortedKeys(mods))
		for cl := range cmods {
			old, ok := s.cells[cl]
			if !ok {
				continue
			}
			nv := x.freshVal(s, "cell."+cl.name, cl.T)
			if old.hasMeta() {
				for i := range old.L {
					switch old.meta(i).(type) {
					case *Closure, *LV, *boxedMeta:
						panic(unsupported("loop changes variable %s holding a known pointer", cl.name))
					}
				}
			}
			s.cells[cl] = nv
		}
		if topMod {
			nt := c.Fresh("top", SInt)
			x.assume(s, c.Le(s.top, nt), false, true)
			s.top = nt
		}
		for _, n := range x.allocNames() {
			if mods[n] {
				x.allocAxioms(s, n, x.snapTerm(pre, n), pre.top)
			}
		}
		pv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			v := x.freshVal(s, "phi."+p.Comment, p.Type())
			// a phi that never changes keeps its metadata
			pv[p] = v
			f.env[p] = v
		}
		k := c.Fresh("k", SInt)
		x.assume(s, c.Le(c.Int(0), k), false, true)
		if iterKey != nil {
			if it := s.iters[iterKey]; it != nil {
				ni := *it
				ni.visited = c.Fresh("visited", it.visited.S)
				if it.visited.S == SInt {
					x.assume(s, c.And(c.Le(c.Int(0), ni.visited), c.Le(ni.visited, x.strLen(it.mapv.L[0]))), false, true)
				} else if it.mapv.T != nil {
					mi := x.mapInfo(it.mapv.T)
					bk := c.BoundVar("k", mi.ks)
					dom := x.mapDom(s, it.mapv)
					x.assume(s, c.Quant("forall", []*Term{bk}, c.Implies(c.Select(ni.visited, bk), c.Select(dom, bk))), false, true)
				}
				s.iters[iterKey] = &ni
			}
		}
		return f, s, pv, k
	}
	runBody := func(f *Frame, s *State) []loopEnd {
		var ends []loopEnd
		f.stopLoop = l
		f.loops[l.header] = &loopRun{mode: loopInvariant, onBack: func(f2 *Frame, s2 *State, p *ssa.BasicBlock) {
			ends = append(ends, loopEnd{f2, s2, p})
		}}
		x.runInstrs(f, s, l.header, firstNonPhi(l.header))
		return ends
	}
	// 1. modified memory
	x.quiet++
	x.modProbe++
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("modified set does not stabilise"))
		}
		f, s, _, _ := havoc()
		startHeap := map[string]*Term{}
		for k, v := range s.heap {
			startHeap[k] = v
		}
		startCells := map[*Cell]Val{}
		for k, v := range s.cells {
			startCells[k] = v
		}
		ep := s.epochs
		top := s.top
		ends := runBody(f, s)
		changed := false
		for _, e := range ends {
			for n, t := range e.st.heap {
				if mods[n] {
					continue
				}
				b := startHeap[n]
				if b == nil {
					b = x.baseTerm(ep, n)
				}
				if t != b {
					mods[n] = true
					changed = true
				}
			}
			for i := len(ep); i < len(e.st.epochs); i++ {
				p := e.st.epochs[i].pat
				if !mods[p] {
					mods[p] = true
					changed = true
				}
			}
			for cl, v := range e.st.cells {
				if cmods[cl] {
					continue
				}
				if o, ok := startCells[cl]; ok && !sameVal(o, v) {
					cmods[cl] = true
					changed = true
				}
			}
			if e.st.top != top && !topMod {
				topMod = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	x.modProbe--
	x.quiet--
	if x.modProbe > 0 {
		f, s, _, _ := havoc()
		f.loops[l.header] = &loopRun{mode: loopInvariant, onBack: func(*Frame, *State, *ssa.BasicBlock) {}}
		return x.runInstrs(f, s, l.header, firstNonPhi(l.header))
	}
	x.loopsInv++
	// 2. Houdini
	cands := x.candidates(fr, st, l, phis, init, pre, mods, topMod, iterKey)
	key := fmt.Sprintf("%p|%s", l.header, fr.chain())
	if keep, ok := x.houdiniMemo[key]; ok && x.quiet > 0 {
		var cs []*cand
		for _, cd := range cands {
			if keep[cd.desc] {
				cs = append(cs, cd)
			}
		}
		cands = cs
	}
	hkey := fmt.Sprintf("%s b%d", fr.names(), l.header.Index)
	if keep := x.hintFor(hkey); keep != nil {
		var cs []*cand
		for _, cd := range cands {
			if keep[cd.desc] {
				cs = append(cs, cd)
			}
		}
		if len(cs) != len(cands) {
			x.hintsUsed = true
		}
		cands = cs
	}
	evalAll := func(e *candEnv, cs []*cand) []*Term {
		ts := make([]*Term, len(cs))
		for i, cd := range cs {
			ts[i] = x.evalCand(cd, e)
		}
		return ts
	}
	// filter drops the candidates that do not hold; only those written by the
	// user (user) or only the others.
	filter := func(all []*cand, e *candEnv, user bool) ([]*cand, bool) {
		var cs, rest []*cand
		for _, cd := range all {
			if cd.user == user {
				cs = append(cs, cd)
			} else {
				rest = append(rest, cd)
			}
		}
		if len(cs) == 0 {
			return all, false
		}
		ts := evalAll(e, cs)
		var ok []*cand
		var tt []*Term
		var cc []*cand
		for i, t := range ts {
			if t == nil {
				continue
			}
			tt = append(tt, t)
			cc = append(cc, cs[i])
		}
		if !user && x.proveSliced(e.st, c.And(tt...), 400*time.Millisecond) {
			return append(rest, cc...), len(cc) != len(cs)
		}
		x.curLoop = fmt.Sprintf("%s b%d ", fr.fn.Name(), l.header.Index)
		holds := x.proveMany(e.st, cc, tt)
		for i, cd := range cc {
			if holds[i] {
				ok = append(ok, cd)
			} else if debug {
				x.dbg("  houdini %s b%d: drop %s", fr.fn.Name(), l.header.Index, cd.desc)
				if debugDump != "" && strings.Contains(cd.desc, debugDump) {
					dumpQuery(fmt.Sprintf("cand-b%d-%s", l.header.Index, cd.desc), x.c.Query(append(e.st.pcTerms(), c.Not(tt[i]))))
				}
			}
		}
		return append(rest, ok...), len(ok) != len(cs)
	}
	x.quiet++
	var iter0 *iterState
	if iterKey != nil {
		iter0 = st.iters[iterKey]
	}
	{
		s := st.clone()
		e := &candEnv{st: s, phis: init, k: c.Int(0), iter: iter0}
		cands, _ = filter(cands, e, false)
		cands, _ = filter(cands, e, true)
	}
	for round := 0; ; round++ {
		if round > 40 {
			panic(unsupported("Houdini did not converge"))
		}
		f, s, pv, k := havoc()
		var it *iterState
		if iterKey != nil {
			it = s.iters[iterKey]
		}
		for _, t := range evalAll(&candEnv{st: s, phis: pv, k: k, iter: it}, cands) {
			if t != nil {
				x.assume(s, t, false, false)
			}
		}
		ends := runBody(f, s)
		if debug {
			x.dbg("  loop in %s: round %d body run at %s, %d ends", fr.fn.Name(), round, time.Since(t0loop).Round(time.Millisecond), len(ends))
		}
		dropped := false
		var envs []*candEnv
		for _, e := range ends {
			if len(cands) == 0 {
				break
			}
			if !x.feasible(e.st) {
				continue
			}
			bi := predIndex(l.header, e.prev)
			bp := map[*ssa.Phi]Val{}
			for _, p := range phis {
				bp[p] = x.val(e.fr, p.Edges[bi]).retype(p.Type())
			}
			var it2 *iterState
			if iterKey != nil {
				it2 = e.st.iters[iterKey]
			}
			var d bool
			ce := &candEnv{st: e.st, phis: bp, k: c.Add(k, c.Int(1)), iter: it2}
			envs = append(envs, ce)
			cands, d = filter(cands, ce, false)
			dropped = dropped || d
		}
		if !dropped {
			// what the user wrote is tried once the rest has settled
			for _, ce := range envs {
				var d bool
				cands, d = filter(cands, ce, true)
				dropped = dropped || d
			}
		}
		if !dropped {
			break
		}
	}
	x.quiet--
	if debug {
		x.dbg("  loop in %s b%d: invariants settled after %s (quiet %d)", fr.fn.Name(), l.header.Index, time.Since(t0loop).Round(time.Millisecond), x.quiet)
	}
	keep := map[string]bool{}
	for _, cd := range cands {
		keep[cd.desc] = true
	}
	x.houdiniMemo[key] = keep
	x.recordHint(hkey, keep)
	if debug && x.quiet == 0 {
		for _, cd := range cands {
			x.dbg("  loop in %s: invariant %s", fr.fn.Name(), cd.desc)
		}
	}
	if x.quiet == 0 {
		for _, cd := range cands {
			for _, kind := range []string{"invariant-entry", "invariant-preserved"} {
				x.obls = append(x.obls, &Obligation{Kind: kind, Desc: cd.desc, Pos: x.pos(loopPos(l)),
					Name: fmt.Sprintf("%s/%s:%s@%s", x.con.ID(), kind, cd.desc, fr.fn.Name()), Status: "discharged", Solver: "z3-new"})
			}
		}
	}
	// 3. the arbitrary iteration, with obligations
	f, s, pv, k := havoc()
	var it *iterState
	if iterKey != nil {
		it = s.iters[iterKey]
	}
	for _, t := range evalAll(&candEnv{st: s, phis: pv, k: k, iter: it}, cands) {
		if t != nil {
			x.assume(s, t, false, false)
		}
	}
	f.loops[l.header] = &loopRun{mode: loopInvariant, onBack: func(*Frame, *State, *ssa.BasicBlock) {}}
	return x.runInstrs(f, s, l.header, firstNonPhi(l.header))
}

func loopPos(l *loopInfo) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, b := range l.header.Succs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (f *Frame) chain() string {
	s := ""
	for g := f; g != nil; g = g.parent {
		s += g.fn.Name() + fmt.Sprint(g.callPos) + "<"
	}
	return s
}

func (x *Exec) evalCand(cd *cand, e *candEnv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupportedErr); is {
				if cd.user {
					x.dbg("  candidate %s: %s", cd.desc, u.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.eval(e)
}

// proveMany proves candidates, several at a time; what the user wrote is tried
// harder, with more than one solver.
func (x *Exec) proveMany(st *State, cs []*cand, goals []*Term) []bool {
	res := make([]bool, len(goals))
	type job struct {
		i      int
		key    string
		strict string
		loose  string
		full   string
	}
	var jobs []job
	pc := st.pcTerms()
	for i, g := range goals {
		if g.Op == "true" || st.pcHas(g) {
			res[i] = true
			continue
		}
		if g.HasBV {
			continue
		}
		j := job{i: i}
		neg := x.c.Not(g)
		if cs[i].user {
			j.full = x.c.Query(append(append([]*Term{}, pc...), neg))
			j.loose = x.c.Query(append(x.relevant(pc, g, false), neg))
			j.key = j.full
		} else {
			j.strict = x.c.Query(append(x.relevant(pc, g, true), neg))
			j.key = j.strict
		}
		if r, ok := x.proveCache[j.key]; ok {
			res[i] = r
			continue
		}
		jobs = append(jobs, j)
	}
	// every automatic candidate once; every user candidate with each solver
	type try struct {
		j      int
		solver string
		query  string
		to     time.Duration
	}
	var tries []try
	for k, j := range jobs {
		if j.strict != "" {
			tries = append(tries, try{k, "z3-new", j.strict, 250 * time.Millisecond})
		} else {
			tries = append(tries, try{k, "z3-new", j.loose, time.Second})
		}
	}
	for _, s := range []string{"z3-new", "z3-new/relevancy=0", "z3-new/arith.solver=2", "z3-new/random_seed=7", "cvc5", "z3"} {
		for k, j := range jobs {
			if j.strict == "" {
				tries = append(tries, try{k, s, j.full, 2 * time.Second})
			}
		}
	}
	settled := make([]int32, len(jobs))
	x.parallel(len(tries), func(k int, pool *SolverPool) {
		t := tries[k]
		if atomic.LoadInt32(&settled[t.j]) != 0 {
			return
		}
		r, _ := pool.Check(t.solver, t.query, t.to)
		if r == "unsat" {
			atomic.StoreInt32(&settled[t.j], 1)
		} else if r == "sat" && t.query == jobs[t.j].full {
			atomic.CompareAndSwapInt32(&settled[t.j], 0, 2)
		}
	})
	// a user candidate about to be dropped gets more time, once
	var again []try
	for k, j := range jobs {
		if settled[k] == 0 && j.strict == "" && !x.longTried[x.curLoop+cs[j.i].desc] {
			for _, s := range []string{"z3-new", "z3-new/arith.solver=2"} {
				again = append(again, try{k, s, j.full, 15 * time.Second})
			}
		}
	}
	if len(again) > 0 {
		x.parallel(len(again), func(k int, pool *SolverPool) {
			t := again[k]
			if atomic.LoadInt32(&settled[t.j]) != 0 {
				return
			}
			if r, _ := pool.Check(t.solver, t.query, t.to); r == "unsat" {
				atomic.StoreInt32(&settled[t.j], 1)
			}
		})
		for _, t := range again {
			if settled[t.j] != 1 {
				x.longTried[x.curLoop+cs[jobs[t.j].i].desc] = true
			}
		}
	}
	for k, j := range jobs {
		res[j.i] = settled[k] == 1
	}
	for _, j := range jobs {
		x.proveCache[j.key] = res[j.i]
	}
	return res
}

func (x *Exec) prove(st *State, goal *Term, to time.Duration) bool {
	if goal.Op == "true" || st.pcHas(goal) {
		return true
	}
	if goal.Op == "and" {
		all := true
		for _, a := range goal.Args {
			if !st.pcHas(a) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	if goal.HasBV {
		return false
	}
	q := x.c.Query(append(st.pcTerms(), x.c.Not(goal)))
	if r, ok := x.proveCache[q]; ok {
		return r
	}
	res, _ := x.pool.Check("z3-new", q, to)
	x.proveCache[q] = res == "unsat"
	return res == "unsat"
}

// candidates builds the candidate set of a loop.
func (x *Exec) candidates(fr *Frame, st *State, l *loopInfo, phis []*ssa.Phi, init map[*ssa.Phi]Val, pre *Snap, mods map[string]bool, topMod bool, iterKey ssa.Value) []*cand {
	c := x.c
	var cs []*cand
	add := func(desc string, f func(e *candEnv) *Term) {
		cs = append(cs, &cand{desc: desc, eval: f})
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && l.blocks[in.Block()] && in.Parent() == fr.fn
	}
	for i, p := range phis {
		p := p
		nm := fmt.Sprintf("phi%d(%s)", i, p.Comment)
		iv := init[p]
		add(nm+" unchanged", func(e *candEnv) *Term { return x.eqLeaves(e.phis[p], iv) })
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				for _, step := range []int64{1, -1} {
					step := step
					add(fmt.Sprintf("%s=init%+d*k", nm, step), func(e *candEnv) *Term {
						return c.Eq(e.phis[p].L[0], c.Add(iv.L[0], c.Mul(c.Int(step), e.k)))
					})
				}
				add(nm+">=init", func(e *candEnv) *Term { return c.Le(iv.L[0], e.phis[p].L[0]) })
				add(nm+"<=init", func(e *candEnv) *Term { return c.Le(e.phis[p].L[0], iv.L[0]) })
				add(nm+">=0", func(e *candEnv) *Term { return c.Le(c.Int(0), e.phis[p].L[0]) })
				// bounds against loop-invariant operands compared in the loop
				for b := range l.blocks {
					for _, in := range b.Instrs {
						bo, ok := in.(*ssa.BinOp)
						if !ok {
							continue
						}
						switch bo.Op {
						case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
						default:
							continue
						}
						for _, o := range []ssa.Value{bo.X, bo.Y} {
							if inLoop(o) {
								continue
							}
							if ob, ok := o.Type().Underlying().(*types.Basic); !ok || ob.Info()&types.IsInteger == 0 {
								continue
							}
							ov, ok := x.tryVal(fr, o)
							if !ok {
								continue
							}
							t := ov.L[0]
							add(fmt.Sprintf("%s<%s", nm, o.Name()), func(e *candEnv) *Term { return c.Lt(e.phis[p].L[0], t) })
							add(fmt.Sprintf("%s<=%s", nm, o.Name()), func(e *candEnv) *Term { return c.Le(e.phis[p].L[0], t) })
							add(fmt.Sprintf("%s<=%s+1", nm, o.Name()), func(e *candEnv) *Term { return c.Le(e.phis[p].L[0], c.Add(t, c.Int(1))) })
							add(fmt.Sprintf("%s>=%s", nm, o.Name()), func(e *candEnv) *Term { return c.Le(t, e.phis[p].L[0]) })
						}
					}
				}
			}
		case *types.Slice:
			add(nm+".len=init+k", func(e *candEnv) *Term { return c.Eq(e.phis[p].L[2], c.Add(iv.L[2], e.k)) })
			add(nm+".len<=init+k", func(e *candEnv) *Term { return c.Le(e.phis[p].L[2], c.Add(iv.L[2], e.k)) })
			add(nm+".len>=init", func(e *candEnv) *Term { return c.Le(iv.L[2], e.phis[p].L[2]) })
			add(nm+".off", func(e *candEnv) *Term { return c.Eq(e.phis[p].L[1], iv.L[1]) })
			add(nm+".off0", func(e *candEnv) *Term { return c.Eq(e.phis[p].L[1], c.Int(0)) })
			add(nm+".ref fresh", func(e *candEnv) *Term {
				return c.Or(c.Eq(e.phis[p].L[0], iv.L[0]), c.Le(pre.top, e.phis[p].L[0]))
			})
			add(nm+".nonnil", func(e *candEnv) *Term { return c.Not(c.Eq(e.phis[p].L[0], c.Int(0))) })
		case *types.Pointer:
			add(nm+" nonnil", func(e *candEnv) *Term { return c.Not(c.Eq(e.phis[p].L[0], c.Int(0))) })
		}
	}
	// bound of the ghost counter
	for b := range l.blocks {
		if b != l.header {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if inLoop(o) {
						continue
					}
					if ob, ok := o.Type().Underlying().(*types.Basic); !ok || ob.Info()&types.IsInteger == 0 {
						continue
					}
					if ov, ok := x.tryVal(fr, o); ok {
						t := ov.L[0]
						add("k<="+o.Name(), func(e *candEnv) *Term { return c.Or(c.Le(e.k, t), c.Eq(e.k, c.Int(0))) })
					}
				}
			}
		}
	}
	// frame candidates
	var ptrs []*Term
	seenP := map[*Term]bool{}
	for g := fr; g != nil; g = g.parent {
		for _, a := range g.args {
			if a.T == nil {
				continue
			}
			if _, ok := a.T.Underlying().(*types.Pointer); ok && a.meta(0) == nil && !seenP[a.L[0]] {
				seenP[a.L[0]] = true
				ptrs = append(ptrs, a.L[0])
			}
		}
	}
	for _, n := range sortedKeys(mods) {
		if x.heapSort[n] == nil {
			continue
		}
		n := n
		get := func(s *State) *Term { return x.heapGet(s, nil, n, x.heapSort[n]) }
		old := func() *Term { return x.snapTerm(pre, n) }
		add("unchanged "+n, func(e *candEnv) *Term { return c.Eq(get(e.st), old()) })
		add("preserved "+n, func(e *candEnv) *Term {
			r := c.BoundVar("r", SInt)
			return c.Quant("forall", []*Term{r}, c.Implies(c.Lt(r, pre.top), c.Eq(c.Select(get(e.st), r), c.Select(old(), r))), c.Select(get(e.st), r))
		})
		if x.entrySnap != nil && x.entrySnap.top != pre.top {
			add("preserved since entry "+n, func(e *candEnv) *Term {
				r := c.BoundVar("r", SInt)
				return c.Quant("forall", []*Term{r}, c.Implies(c.Lt(r, x.entrySnap.top), c.Eq(c.Select(get(e.st), r), c.Select(x.snapTerm(x.entrySnap, n), r))), c.Select(get(e.st), r))
			})
		}
		for i, pt := range ptrs {
			pt := pt
			add(fmt.Sprintf("preserved %s except ptr%d", n, i), func(e *candEnv) *Term {
				r := c.BoundVar("r", SInt)
				return c.Quant("forall", []*Term{r}, c.Implies(c.And(c.Lt(r, pre.top), c.Not(c.Eq(r, pt))), c.Eq(c.Select(get(e.st), r), c.Select(old(), r))), c.Select(get(e.st), r))
			})
			if x.heapSort[n].Name != "Array" {
				add(fmt.Sprintf("ptr%d field %s unchanged", i, n), func(e *candEnv) *Term {
					return c.Eq(c.Select(get(e.st), pt), c.Select(old(), pt))
				})
			}
		}
		for g := fr; g != nil; g = g.parent {
			if g.ci == nil || g.ci.mode != modeCheck {
				continue
			}
			for i, me := range g.ci.modsEa {
				if !contains(me.names, n) {
					continue
				}
				me := me
				add(fmt.Sprintf("preserved %s except set%d", n, i), func(e *candEnv) *Term {
					r := c.BoundVar("r", SInt)
					return c.Quant("forall", []*Term{r}, c.Implies(c.Lt(r, pre.top), c.Or(me.set(r), c.Eq(c.Select(get(e.st), r), c.Select(old(), r)))), c.Select(get(e.st), r))
				})
			}
			for i, ma := range g.ci.modsAt {
				if !contains(ma.names, n) {
					continue
				}
				ma := ma
				add(fmt.Sprintf("preserved %s except at%d", n, i), func(e *candEnv) *Term {
					r := c.BoundVar("r", SInt)
					return c.Quant("forall", []*Term{r}, c.Implies(c.And(c.Lt(r, pre.top), c.Not(c.Eq(r, ma.ref))), c.Eq(c.Select(get(e.st), r), c.Select(old(), r))), c.Select(get(e.st), r))
				})
			}
		}
		if strings.HasSuffix(n, ".len") && x.heapSort[n] == SInt {
			add("slice lengths grow "+n, func(e *candEnv) *Term {
				r := c.BoundVar("r", SInt)
				return c.Quant("forall", []*Term{r}, c.Implies(c.Lt(r, pre.top), c.Le(c.Select(old(), r), c.Select(get(e.st), r))), c.Select(get(e.st), r))
			})
		}
	}
	if topMod {
		add("top grows", func(e *candEnv) *Term { return c.Le(pre.top, e.st.top) })
	}
	// user templates of every function on the activation chain
	for g := fr; g != nil; g = g.parent {
		if g.fn == nil {
			continue
		}
		tfs := x.prog.templates[fnDisplay(g.fn)]
		if x.con != nil && x.con.Extra != "" {
			tfs = append(append([]*ssa.Function{}, tfs...), x.prog.templates[fnDisplay(g.fn)+"+"+x.con.Extra]...)
		}
		for _, tf := range tfs {
			cs = append(cs, x.templateCands(st, tf, g, fr, l, phis, pre, iterKey)...)
		}
	}
	return cs
}

func (x *Exec) eqLeaves(a, b Val) *Term {
	var ts []*Term
	for i := range a.L {
		ts = append(ts, x.c.Eq(a.L[i], b.L[i]))
	}
	return x.c.And(ts...)
}

// templateCands instantiates a user template: parameters are the target's
// parameters by name, k (iterations done), visited (map iteration), and acc*
// (any loop-carried variable of that type).
// ranged is the list a loop of the form i < len(list) goes over.
func (l *loopInfo) ranged() ssa.Value {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if call, ok := v.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return call.Call.Args[0]
			}
		}
	}
	return nil
}

func (x *Exec) templateCands(st *State, tf *ssa.Function, target, fr *Frame, l *loopInfo, phis []*ssa.Phi, pre *Snap, iterKey ssa.Value) []*cand {
	type slot struct {
		kind string // "k","visited","arg","acc","init"
		val  Val
		opts []*ssa.Phi
		locs []Val
	}
	var slots []slot
	var accs []int
	for _, p := range tf.Params {
		n := p.Name()
		switch {
		case n == "k":
			slots = append(slots, slot{kind: "k"})
		case n == "visited":
			if iterKey == nil {
				return nil
			}
			slots = append(slots, slot{kind: "visited"})
		case strings.HasPrefix(n, "over"):
			// only for loops over a list of that type
			ov := l.ranged()
			if ov == nil || !types.Identical(ov.Type(), p.Type()) {
				return nil
			}
			val, ok := fr.env[ov]
			if !ok {
				for i, q := range fr.fn.Params {
					if q == ov {
						val, ok = fr.args[i], true
					}
				}
			}
			if !ok {
				val = x.freshVal(st.clone(), "over", p.Type())
			}
			slots = append(slots, slot{kind: "arg", val: val})
		case strings.HasPrefix(n, "acc") || strings.HasPrefix(n, "ini"):
			s := slot{kind: n[:3]}
			for _, ph := range phis {
				if types.Identical(ph.Type(), p.Type()) {
					s.opts = append(s.opts, ph)
				}
			}
			if len(s.opts) == 0 {
				return nil
			}
			accs = append(accs, len(slots))
			slots = append(slots, s)
		case strings.HasPrefix(n, "loc"):
			// any value in scope of that type
			s := slot{kind: "loc"}
			seen := map[int]bool{}
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || l.blocks[b] || !types.Identical(v.Type(), p.Type()) {
						continue
					}
					val, ok := fr.env[v]
					if !ok || seen[val.L[0].ID] {
						continue
					}
					seen[val.L[0].ID] = true
					s.locs = append(s.locs, val)
				}
			}
			if len(s.locs) == 0 {
				return nil
			}
			accs = append(accs, len(slots))
			slots = append(slots, s)
		default:
			found := false
			for i, tp := range target.fn.Params {
				if tp.Name() == n {
					if !types.Identical(tp.Type(), p.Type()) {
						return nil
					}
					slots = append(slots, slot{kind: "arg", val: target.args[i]})
					found = true
				}
			}
			if !found {
				// renamed: the only parameter of that type
				var same []int
				for i, tp := range target.fn.Params {
					if types.Identical(tp.Type(), p.Type()) {
						same = append(same, i)
					}
				}
				if len(same) != 1 {
					return nil
				}
				slots = append(slots, slot{kind: "arg", val: target.args[same[0]]})
			}
		}
	}
	var out []*cand
	choice := make([]int, len(slots))
	var gen func(i int)
	gen = func(i int) {
		if i == len(accs) {
			pick := append([]int{}, choice...)
			desc := tf.Name()
			for _, a := range accs {
				if slots[a].kind == "loc" {
					desc += fmt.Sprintf("[value %d]", pick[a])
					continue
				}
				desc += fmt.Sprintf("[%s]", slots[a].opts[pick[a]].Name())
			}
			out = append(out, &cand{desc: desc, user: true, eval: func(e *candEnv) *Term {
				var args []Val
				for j, s := range slots {
					switch s.kind {
					case "k":
						args = append(args, Val{T: types.Typ[types.Int], L: []*Term{e.k}})
					case "visited":
						args = append(args, x.visitedFn(e))
					case "arg":
						args = append(args, s.val.retype(tf.Params[j].Type()))
					case "loc":
						args = append(args, s.locs[pick[j]])
					case "acc":
						args = append(args, e.phis[s.opts[pick[j]]])
					case "ini":
						ph := s.opts[pick[j]]
						for pi, pb := range ph.Block().Preds {
							if !l.blocks[pb] {
								args = append(args, x.val(fr, ph.Edges[pi]).retype(ph.Type()))
								break
							}
						}
					}
				}
				st := e.st
				so, sp := x.tmplEntry, x.tmplPre
				x.tmplEntry, x.tmplPre = target.entry, pre
				defer func() { x.tmplEntry, x.tmplPre = so, sp }()
				v := x.evalPure(st, &Frame{fn: tf, parent: fr}, &Closure{fn: tf}, args, token.NoPos)
				return v.L[0]
			}})
			return
		}
		n := len(slots[accs[i]].opts)
		if slots[accs[i]].kind == "loc" {
			n = len(slots[accs[i]].locs)
		}
		for o := 0; o < n; o++ {
			choice[accs[i]] = o
			gen(i + 1)
		}
	}
	gen(0)
	return out
}

func (x *Exec) visitedFn(e *candEnv) Val {
	v := e.iter.visited
	return Val{T: types.Typ[types.Int], L: []*Term{x.c.Int(0)}, M: []any{&Closure{builtin: func(x *Exec, st *State, args []Val) []Val {
		if v.S == SInt {
			return []Val{{T: types.Typ[types.Bool], L: []*Term{x.c.Lt(args[0].L[0], v)}}}
		}
		return []Val{{T: types.Typ[types.Bool], L: []*Term{x.c.Select(v, args[0].L[0])}}}
	}}}}
}
