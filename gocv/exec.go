package main

// exec.go: symbolic execution of go/ssa function bodies.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is one function activation.
type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]Val
	args       []Val
	parent     *Frame
	entry      *Snap // memory at function entry
	loops      map[*ssa.BasicBlock]*loopRun
	ci         *contractInst // set when fn is a contract function
	visits     map[*ssa.BasicBlock]int
	depth      int
	callPos    token.Pos
	stopLoop   *loopInfo // probing: do not leave this loop
	targetRet  []Val     // contract functions: results of the target call
	targetDone bool
	join       *joinRun // paths reaching this join block are collected, not run on
}

// joinRun collects the paths that reach the join of a branch.
type joinRun struct {
	at       *ssa.BasicBlock
	arrivals []arrival
}

type arrival struct {
	fr   *Frame
	st   *State
	prev *ssa.BasicBlock
}

func (f *Frame) fork() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopRun, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return &n
}

// Outcome of executing a function or a path.
type Outcome struct {
	st  *State
	ret []Val
}

// Exec verifies one contract.
type Exec struct {
	c            *Ctx
	lay          *Layouts
	prog         *Program
	pool         *SolverPool
	con          *Contract
	objNamesMemo map[types.Type][]string
	heapSort     map[string]*Sort
	heapReads    map[string]bool
	cellWrites   map[*Cell]bool
	globals      map[*ssa.Global]*Cell
	closures     []*Closure
	obls         []*Obligation
	oblNames     map[string]int
	quiet        int // >0: do not generate obligations (probing)
	spec         int // >0: evaluating specification code
	depth        int
	paths        int
	cellN        int
	epochN       int
	used         map[*Contract]bool // contracts relied on
	trusted      map[string]bool    // external functions assumed
	inlined      map[string]bool    // functions executed by body
	loopsInv     int
	deadline     time.Time
	feasCache    map[string]bool
	unfolding    map[string]bool
	logApp       *Term
	recDepth     int
	covers       []*Cover
	variant      string // implementor under check for interface contracts
	dynTypes     map[string]bool
	curFrame     *Frame
	houdiniDepth int
	recReads     map[*ssa.Function][]string
	paramVals    []Val
	paramNames   []string
	entrySnap    *Snap
	stack        []*ssa.Function
	assumeDepth  int
	tmplEntry    *Snap
	tmplPre      *Snap
	bvFacts      []*Term
	axioms       []*Term // memory axioms found under quantifiers
	pure         int
	recProbe     int
	recEdges     []recEdge
	unfolded     map[string][]*Term
	recMemo      map[*ssa.Function]*recInfo
	errT         types.Type
	globMemo     map[*ssa.Global]globRes
	top0         *Term
	modProbe     int
	houdiniMemo  map[string]map[string]bool
	proveCache   map[string]bool
	longTried    map[string]bool // loop and candidate
	curLoop      string
	useHints     bool
	hintsUsed    bool
	hintID       string
	pending      []*Obligation // generated, not yet put to the solvers
	extra        []*SolverPool // for queries made in parallel
	solveMu      sync.Mutex
	symMemo      map[int]*symInfo
	timeouts     []time.Duration
	noJoin       bool
	thorough     bool
	failed       int
}

// Obligation is one proof obligation.
type Obligation struct {
	Name    string
	Kind    string
	Pos     string
	Desc    string
	Status  string // discharged | refuted | unknown
	Solver  string
	Millis  int64
	Reason  string
	Model   *Model
	assumes []*Term
	goal    *Term
}

// Cover is a reachability (anti-vacuity) check.
type Cover struct {
	Name   string
	Status string // reachable | unreachable | unknown
}

const maxPaths = 3000000

var debug = os.Getenv("GOCV_DEBUG") != ""

func (x *Exec) dbg(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.prog.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/client/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// obligation: prove goal under the current path.
func (x *Exec) obligation(st *State, kind, desc string, pos token.Pos, goal *Term) {
	if x.spec > 0 {
		return
	}
	if x.quiet > 0 {
		if goal.Op != "false" && !goal.HasBV {
			x.assume(st, goal, false, false)
		}
		return
	}
	if goal.Op == "and" {
		for _, g := range goal.Args {
			x.obligation(st, kind, desc, pos, g)
		}
		return
	}
	if x.con.Partial && safetyKinds[kind] {
		x.trusted["partial correctness: run-time failures (nil, index, assertion) inside "+x.con.Name+" are not excluded by this contract"] = true
		if goal.Op != "false" {
			x.assume(st, goal, false, false)
		}
		return
	}
	key := kind + "|" + desc
	x.oblNames[key]++
	o := &Obligation{Kind: kind, Desc: desc, Pos: x.pos(pos)}
	o.Name = fmt.Sprintf("%s/%s", x.con.ID(), kind)
	if x.variant != "" {
		o.Name = fmt.Sprintf("%s[%s]/%s", x.con.ID(), x.variant, kind)
	}
	if desc != "" {
		o.Name += ":" + desc
	}
	if n := x.oblNames[key]; n > 1 {
		o.Name += fmt.Sprintf("#%d", n)
	}
	x.obls = append(x.obls, o)
	if goal.Op == "true" || st.pcHas(goal) {
		o.Status = "discharged"
		o.Solver = "simplifier"
		return
	}
	o.assumes = st.pcTerms()
	o.goal = goal
	x.pending = append(x.pending, o)
	// assert-then-assume
	if goal.Op != "false" {
		x.assume(st, goal, false, false)
	}
}

func (x *Exec) feasible(st *State) bool {
	if x.spec > 0 {
		return true
	}
	ts := st.pcTerms()
	for _, t := range ts {
		if t.Op == "false" {
			return false
		}
		if t.HasBV {
			return true
		}
	}
	q := x.c.Query(ts)
	if r, ok := x.feasCache[q]; ok {
		return r
	}
	var qf []*Term
	for _, t := range ts {
		if !x.syms(t).quant {
			qf = append(qf, t)
		}
	}
	res := ""
	if len(qf) < len(ts) {
		res, _ = x.pool.Check("z3-new", x.c.Query(qf), 100*time.Millisecond)
	}
	if res != "unsat" && (x.quiet == 0 || len(qf) == len(ts)) {
		res, _ = x.pool.Check("z3-new", q, 100*time.Millisecond)
	}
	f := res != "unsat"
	x.feasCache[q] = f
	return f
}

// branch forks on a condition; nil state means infeasible.
func (x *Exec) branch(st *State, cond *Term) (yes, no *State) {
	switch cond.Op {
	case "true":
		return st, nil
	case "false":
		return nil, st
	}
	neg := x.c.Not(cond)
	if x.pcImplies(st, cond) {
		return st, nil
	}
	if x.pcImplies(st, neg) {
		return nil, st
	}
	a := st.clone()
	x.assume(a, cond, true, false)
	b := st
	x.assume(b, neg, true, false)
	if x.spec > 0 && cond.HasBV {
		return a, b
	}
	if !x.feasible(a) {
		return nil, b
	}
	if !x.feasible(b) {
		return a, nil
	}
	return a, b
}

func (x *Exec) pcImplies(st *State, t *Term) bool {
	if st.pcHas(t) {
		return true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !x.pcImplies(st, a) {
				return false
			}
		}
		return true
	}
	if t.Op == "=" && len(t.Args) == 2 {
		if k, ok := x.knownConst(st, t.Args[0]); ok && t.Args[1].IsConst() && k != t.Args[0] {
			return k == t.Args[1]
		}
		if k, ok := x.knownConst(st, t.Args[1]); ok && t.Args[0].IsConst() && k != t.Args[1] {
			return k == t.Args[0]
		}
	}
	if t.Op == "not" && t.Args[0].Op == "=" {
		e := t.Args[0]
		if k, ok := x.knownConst(st, e.Args[0]); ok && e.Args[1].IsConst() && k != e.Args[0] {
			return k != e.Args[1]
		}
		if k, ok := x.knownConst(st, e.Args[1]); ok && e.Args[0].IsConst() && k != e.Args[1] {
			return k != e.Args[0]
		}
	}
	return false
}

// ---------------------------------------------------------------- calls

func (x *Exec) callFn(st *State, parent *Frame, fn *ssa.Function, args []Val, bindings []Val, pos token.Pos) []Outcome {
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", fn.String()))
	}
	if x.depth > 60 {
		panic(unsupported("call depth exceeded at %s", fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, args: args, parent: parent, loops: map[*ssa.BasicBlock]*loopRun{}, visits: map[*ssa.BasicBlock]int{}, callPos: pos}
	for i, p := range fn.Params {
		fr.env[p] = args[i].retype(p.Type())
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bindings[i]
	}
	fr.entry = st.snapshot()
	x.depth++
	defer func() { x.depth-- }()
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	return x.runBlock(fr, st, fn.Blocks[0], nil)
}

func (v Val) retype(t types.Type) Val {
	v.T = t
	return v
}

// inlineCall executes a body and merges the outcomes when possible.
func (x *Exec) inlineCall(st *State, parent *Frame, fn *ssa.Function, args []Val, bindings []Val, pos token.Pos) []Outcome {
	mark := st.pc
	base := st.clone()
	outs := x.callFn(st, parent, fn, args, bindings, pos)
	if len(outs) <= 1 {
		return outs
	}
	if m, ok := x.merge(base, mark, outs); ok {
		return []Outcome{m}
	}
	return outs
}

// merge combines outcomes into one with ite-results (paths must partition).
func (x *Exec) merge(base *State, mark *PC, outs []Outcome) (Outcome, bool) {
	return x.mergeOuts(base, mark, outs, x.spec > 0 || len(outs) > 12)
}

// iteArr is ite(cond, a, b) with array writes pulled out of the choice.
func (x *Exec) iteArr(cond, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.S == nil || a.S.Name != "Array" {
		return x.c.Ite(cond, a, b)
	}
	depth := func(t *Term) (int, *Term) {
		n := 0
		for t.Op == "store" {
			t = t.Args[0]
			n++
		}
		return n, t
	}
	da, ba := depth(a)
	db, bb := depth(b)
	if ba != bb || da > 12 || db > 12 {
		return x.c.Ite(cond, a, b)
	}
	if a.Op == "store" && b.Op == "store" && a.Args[1] == b.Args[1] {
		return x.c.Store(x.iteArr(cond, a.Args[0], b.Args[0]), a.Args[1], x.iteArr(cond, a.Args[2], b.Args[2]))
	}
	if da > db || da == db {
		return x.c.Store(x.iteArr(cond, a.Args[0], b), a.Args[1], x.iteArr(cond, a.Args[2], x.c.Select(b, a.Args[1])))
	}
	return x.c.Store(x.iteArr(cond, a, b.Args[0]), b.Args[1], x.iteArr(cond, x.c.Select(a, b.Args[1]), b.Args[2]))
}

// joinOf is the block where the two sides of the branch ending b meet again, if
// the blocks between contain no loop.
func (x *Exec) joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	x.prog.mu.Lock()
	if j, ok := x.prog.joins[b]; ok {
		x.prog.mu.Unlock()
		return j
	}
	x.prog.mu.Unlock()
	li := x.prog.loopsOf(b.Parent())
	var j *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) >= 2 && li[d] == nil {
			if j != nil {
				j = nil
				break
			}
			j = d
		}
	}
	if j != nil {
		seen := map[*ssa.BasicBlock]bool{j: true, b: true}
		var walk func(c *ssa.BasicBlock) bool
		walk = func(c *ssa.BasicBlock) bool {
			if seen[c] {
				return true
			}
			seen[c] = true
			if li[c] != nil {
				// leaving through an enclosing loop's back edge is fine
				return li[c].blocks[b]
			}
			for _, s := range c.Succs {
				if !walk(s) {
					return false
				}
			}
			return true
		}
		for _, s := range b.Succs {
			if !walk(s) {
				j = nil
				break
			}
		}
	}
	x.prog.mu.Lock()
	x.prog.joins[b] = j
	x.prog.mu.Unlock()
	return j
}

// runBranch executes both sides of a branch and merges the paths that meet at
// its join.
func (x *Exec) runBranch(fr *Frame, yes, no *State, b, j *ssa.BasicBlock, base *State, mark *PC) []Outcome {
	jr := &joinRun{at: j}
	outer := fr.join
	f1, f2 := fr.fork(), fr.fork()
	f1.join, f2.join = jr, jr
	outs := x.runBlock(f1, yes, b.Succs[0], b)
	outs = append(outs, x.runBlock(f2, no, b.Succs[1], b)...)
	ar := jr.arrivals
	for i := range ar {
		ar[i].fr.join = outer
	}
	if len(ar) > 1 && len(ar) <= 8 {
		os := make([]Outcome, len(ar))
		var phis []*ssa.Phi
		for _, in := range j.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				phis = append(phis, p)
			}
		}
		for i, a := range ar {
			os[i].st = a.st
			x.doPhis(a.fr, j, a.prev)
			for _, p := range phis {
				os[i].ret = append(os[i].ret, a.fr.env[p])
			}
		}
		if m, ok := x.mergeOuts(base, mark, os, true); ok {
			nf := fr.fork()
			nf.join = outer
			for i, p := range phis {
				nf.env[p] = m.ret[i]
			}
			if j == b {
				panic("join")
			}
			if outer != nil && outer.at == j {
				outer.arrivals = append(outer.arrivals, arrival{nf, m.st, nil})
				return outs
			}
			return append(outs, x.runJoined(nf, m.st, j)...)
		}
		for _, a := range ar {
			if outer != nil && outer.at == j {
				outer.arrivals = append(outer.arrivals, arrival{a.fr, a.st, nil})
				continue
			}
			outs = append(outs, x.runJoined(a.fr, a.st, j)...)
		}
		return outs
	}
	for _, a := range ar {
		outs = append(outs, x.runBlock(a.fr, a.st, j, a.prev)...)
	}
	return outs
}

// runJoined runs block j whose phis are already set.
func (x *Exec) runJoined(fr *Frame, st *State, j *ssa.BasicBlock) []Outcome {
	return x.runInstrs(fr, st, j, firstNonPhi(j))
}

func (x *Exec) mergeOuts(base *State, mark *PC, outs []Outcome, heavy bool) (Outcome, bool) {
	// same heap?
	sameHeap := true
	for _, o := range outs[1:] {
		if !sameMem(outs[0].st, o.st) {
			sameHeap = false
		}
	}
	if !sameHeap && !heavy {
		return Outcome{}, false
	}
	for _, o := range outs {
		for _, v := range o.ret {
			for _, m := range v.M {
				switch m.(type) {
				case nil:
				case *Snap:
					if m != firstMeta(outs, o, v) {
						return Outcome{}, false
					}
				default:
					return Outcome{}, false
				}
			}
		}
	}
	if len(outs[0].ret) > 0 {
		// interface results merge badly when callers switch on the tag: keep forks
		// unless all tags agree or in spec mode
		if x.spec == 0 {
			for i := range outs[0].ret {
				if hasInterface(outs[0].ret[i].T) {
					for _, o := range outs[1:] {
						if !sameTerms(o.ret[i].L, outs[0].ret[i].L) {
							return Outcome{}, false
						}
					}
				}
			}
		}
	}
	ns := base
	conds := make([]*Term, len(outs))
	var defs, univ []*Term
	for i, o := range outs {
		var cs []*Term
		var fs []*Term
		for p := o.st.pc; p != nil && p != mark; p = p.parent {
			if p.univ {
				univ = append(univ, p.t)
			} else if p.cond {
				cs = append(cs, p.t)
			} else {
				fs = append(fs, p.t)
			}
		}
		for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
			cs[a], cs[b] = cs[b], cs[a]
		}
		conds[i] = x.c.And(cs...)
		for _, f := range fs {
			defs = append(defs, x.c.Implies(conds[i], f))
		}
	}
	// order facts deterministically
	for i := len(univ) - 1; i >= 0; i-- {
		x.assumeU(ns, univ[i])
	}
	for i := len(defs) - 1; i >= 0; i-- {
		x.assume(ns, defs[i], false, false)
	}
	all := x.c.Or(conds...)
	if !all.HasBV && x.spec == 0 {
		x.assume(ns, all, false, false)
	}
	n := len(outs)
	ret := make([]Val, len(outs[0].ret))
	for i := range ret {
		v := Val{T: outs[0].ret[i].T, M: outs[0].ret[i].M}
		for l := range outs[0].ret[i].L {
			t := outs[n-1].ret[i].L[l]
			for k := n - 2; k >= 0; k-- {
				t = x.c.Ite(conds[k], outs[k].ret[i].L[l], t)
			}
			v.L = append(v.L, t)
		}
		ret[i] = v
	}
	if sameHeap {
		ns.heap = outs[0].st.heap
		ns.epochs = outs[0].st.epochs
		ns.cells = outs[0].st.cells
		ns.top = outs[0].st.top
		ns.iters = outs[0].st.iters
		return Outcome{ns, ret}, true
	}
	// merge memories
	for _, o := range outs[1:] {
		if len(o.st.epochs) != len(outs[0].st.epochs) {
			return Outcome{}, false
		}
		for i := range o.st.epochs {
			if o.st.epochs[i] != outs[0].st.epochs[i] {
				return Outcome{}, false
			}
		}
	}
	ns.epochs = outs[0].st.epochs
	names := map[string]bool{}
	for _, o := range outs {
		for k := range o.st.heap {
			names[k] = true
		}
	}
	sorted := make([]string, 0, len(names))
	for k := range names {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	for _, k := range sorted {
		t := x.heapGet(outs[n-1].st, nil, k, x.heapSort[k])
		for i := n - 2; i >= 0; i-- {
			t = x.iteArr(conds[i], x.heapGet(outs[i].st, nil, k, x.heapSort[k]), t)
		}
		ns.heap[k] = t
	}
	cells := map[*Cell]bool{}
	for _, o := range outs {
		for c := range o.st.cells {
			cells[c] = true
		}
	}
	for c := range cells {
		v := x.cellGet(outs[n-1].st, nil, c)
		nv := Val{T: v.T, L: append([]*Term{}, v.L...), M: v.M}
		for i := n - 2; i >= 0; i-- {
			w := x.cellGet(outs[i].st, nil, c)
			if (w.hasMeta() || v.hasMeta()) && !sameVal(w, v) {
				return Outcome{}, false
			}
			for l := range nv.L {
				nv.L[l] = x.c.Ite(conds[i], w.L[l], nv.L[l])
			}
		}
		ns.cells[c] = nv
	}
	t := outs[n-1].st.top
	for i := n - 2; i >= 0; i-- {
		t = x.c.Ite(conds[i], outs[i].st.top, t)
	}
	ns.top = t
	ns.iters = outs[0].st.iters
	return Outcome{ns, ret}, true
}

func hasInterface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasInterface(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func sameTerms(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	if !sameTerms(a.L, b.L) {
		return false
	}
	for i := range a.L {
		if a.meta(i) != b.meta(i) {
			return false
		}
	}
	return true
}

func firstMeta(outs []Outcome, o Outcome, v Val) any {
	for _, m := range v.M {
		if m != nil {
			// require all outcomes to share the same snapshot object
			for _, oo := range outs {
				for _, vv := range oo.ret {
					for _, mm := range vv.M {
						if mm != nil && mm != m {
							return nil
						}
					}
				}
			}
			return m
		}
	}
	return nil
}

func sameMem(a, b *State) bool {
	if a.top != b.top || len(a.epochs) != len(b.epochs) {
		return false
	}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok && w != v {
			return false
		}
	}
	for k := range a.heap {
		if _, ok := b.heap[k]; !ok {
			// lazily created: equal only if untouched; conservatively compare on creation
			if a.heap[k].Op != "const" {
				return false
			}
		}
	}
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok {
			if b.heap[k].Op != "const" {
				return false
			}
		}
	}
	for c, v := range a.cells {
		if w, ok := b.cells[c]; ok && !sameVal(v, w) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- blocks

func (x *Exec) runBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Outcome {
	x.paths++
	if x.paths > maxPaths {
		panic(unsupported("too many paths in %s", fr.fn))
	}
	if x.paths%64 == 0 && time.Now().After(x.deadline) {
		panic(unsupported("time budget exceeded in %s", x.con.ID()))
	}
	if fr.join != nil && fr.join.at == b {
		fr.join.arrivals = append(fr.join.arrivals, arrival{fr, st, prev})
		return nil
	}
	if fr.stopLoop != nil && !fr.stopLoop.blocks[b] {
		return nil
	}
	li := x.prog.loopsOf(fr.fn)
	if l := li[b]; l != nil {
		back := prev != nil && l.blocks[prev]
		run := fr.loops[b]
		if back && run != nil && run.mode == loopInvariant {
			run.onBack(fr, st, prev)
			return nil
		}
		if !back {
			// fresh entry to the loop
			delete(fr.loops, b)
			if x.canUnroll(fr, st, l, prev) {
				fr.loops[b] = &loopRun{mode: loopUnroll}
			} else {
				return x.enterLoop(fr, st, l, prev)
			}
		} else if run != nil && run.mode == loopUnroll {
			run.n++
			if run.n > 300 {
				panic(unsupported("unrolling bound exceeded in %s", fr.fn))
			}
			fr.loops[b] = &loopRun{mode: loopUnroll, n: run.n}
		}
	}
	x.doPhis(fr, b, prev)
	return x.runInstrs(fr, st, b, firstNonPhi(b))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) doPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(fr, p.Edges[idx]).retype(p.Type()))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (x *Exec) runInstrs(fr *Frame, st *State, b *ssa.BasicBlock, start int) []Outcome {
	for i := start; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			cond := x.val(fr, in.Cond).L[0]
			var j *ssa.BasicBlock
			var jbase *State
			jmark := st.pc
			if (x.spec == 0 || fr.ci != nil) && !x.noJoin {
				if j = x.joinOf(b); j != nil {
					jbase = st.clone()
				}
			}
			yes, no := x.branch(st, cond)
			var outs []Outcome
			if yes != nil && no != nil && j != nil {
				return x.runBranch(fr, yes, no, b, j, jbase, jmark)
			}
			if yes != nil && no != nil {
				fr2 := fr.fork()
				outs = append(outs, x.runBlock(fr2, yes, b.Succs[0], b)...)
				outs = append(outs, x.runBlock(fr, no, b.Succs[1], b)...)
				return outs
			}
			if yes != nil {
				return x.runBlock(fr, yes, b.Succs[0], b)
			}
			if no != nil {
				return x.runBlock(fr, no, b.Succs[1], b)
			}
			return nil
		case *ssa.Jump:
			return x.runBlock(fr, st, b.Succs[0], b)
		case *ssa.Return:
			if fr.ci != nil {
				if fr.ci.mode == modeCheck {
					x.frameObligations(st, fr.ci, in.Pos())
					return []Outcome{{st, nil}}
				}
				if !fr.targetDone {
					return nil
				}
				return []Outcome{{st, fr.targetRet}}
			}
			var ret []Val
			for k, r := range in.Results {
				ret = append(ret, x.val(fr, r).retype(fr.fn.Signature.Results().At(k).Type()))
			}
			return []Outcome{{st, ret}}
		case *ssa.Panic:
			if x.spec == 0 && !x.mayPanic() {
				x.obligation(st, "no-panic", "explicit panic unreachable", in.Pos(), x.c.False)
			}
			return nil
		case *ssa.Call:
			outs := x.call(fr, st, in.Common(), in, in.Pos())
			if outs == nil {
				return nil
			}
			if len(outs) == 1 {
				st = outs[0].st
				x.setRet(fr, in, outs[0].ret)
				continue
			}
			var res []Outcome
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.fork()
				}
				x.setRet(f2, in, o.ret)
				res = append(res, x.runInstrs(f2, o.st, b, i+1)...)
			}
			return res
		case *ssa.TypeAssert:
			st2 := x.typeAssert(fr, st, in)
			if st2 == nil {
				return nil
			}
			st = st2
		case *ssa.Next:
			outs := x.next(fr, st, in)
			var res []Outcome
			for _, o := range outs {
				f2 := fr.fork()
				f2.env[in] = o.ret[0]
				res = append(res, x.runInstrs(f2, o.st, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			x.deferCall(fr, st, in)
		case *ssa.RunDefers:
			// see deferCall: only effect-free defers are accepted
		case *ssa.Go, *ssa.Select, *ssa.Send:
			panic(unsupported("concurrency in %s", fr.fn))
		default:
			if !x.instr(fr, st, in) {
				return nil
			}
		}
	}
	return nil
}

var safetyKinds = map[string]bool{"nil-deref": true, "index": true, "nil-map": true, "div-zero": true, "type-assert": true, "slice": true, "no-panic": true}

func (x *Exec) mayPanic() bool {
	return x.con != nil && (x.con.MayPanic || x.con.Partial)
}

func (x *Exec) setRet(fr *Frame, in *ssa.Call, ret []Val) {
	switch t := in.Type().(type) {
	case *types.Tuple:
		fr.env[in] = catVals(t, ret...)
	default:
		if len(ret) == 1 {
			fr.env[in] = ret[0].retype(in.Type())
		}
	}
}

// ---------------------------------------------------------------- operands

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{T: v.Type(), L: []*Term{x.c.Const("fn$"+v.String(), SInt)}, M: []any{&Closure{fn: v}}}
	case *ssa.Global:
		c := x.globals[v]
		if c == nil {
			x.cellN++
			c = &Cell{id: x.cellN, T: v.Type().(*types.Pointer).Elem(), global: v, name: v.String()}
			x.globals[v] = c
		}
		lv := &LV{cell: c, T: c.T}
		return Val{T: v.Type(), L: []*Term{x.c.Const("glob$"+v.String(), SInt)}, M: []any{lv}}
	case *ssa.Builtin:
		return Val{T: v.Type()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported("no value for %s in %s", v.Name(), fr.fn))
}

func ratOfConst(k constant.Value) *big.Rat {
	switch k.Kind() {
	case constant.Int:
		r := new(big.Rat)
		r.SetString(k.ExactString())
		return r
	case constant.Float:
		// use the float64 value the program actually has
		f, _ := constant.Float64Val(k)
		_ = f
		r := new(big.Rat)
		if _, ok := r.SetString(k.ExactString()); ok {
			// short decimal constants are kept exact (mathematical reals)
			if r.Denom().BitLen() < 200 {
				return r
			}
		}
		r.SetFloat64(f)
		return r
	}
	panic(unsupported("constant kind"))
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []*Term{x.c.Bool(constant.BoolVal(k.Value))}}
		case u.Info()&types.IsString != 0:
			return Val{T: t, L: []*Term{x.c.Str(constant.StringVal(k.Value))}}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			return Val{T: t, L: []*Term{x.c.Num(ratOfConst(v), SInt)}}
		case u.Info()&types.IsFloat != 0:
			return Val{T: t, L: []*Term{x.c.Num(ratOfConst(constant.ToFloat(k.Value)), SReal)}}
		}
	}
	panic(unsupported("constant %s", k))
}

func intRange(b *types.Basic) (lo, hi *big.Rat, ok bool) {
	mk := func(l, h int64) (*big.Rat, *big.Rat, bool) {
		return new(big.Rat).SetInt64(l), new(big.Rat).SetInt64(h), true
	}
	switch b.Kind() {
	case types.Int8:
		return mk(-128, 127)
	case types.Uint8:
		return mk(0, 255)
	case types.Int16:
		return mk(-32768, 32767)
	case types.Uint16:
		return mk(0, 65535)
	case types.Int32, types.UntypedRune:
		return mk(-1<<31, 1<<31-1)
	case types.Uint32:
		return mk(0, 1<<32-1)
	case types.Uint64, types.Uint, types.Uintptr:
		h := new(big.Int).Lsh(big.NewInt(1), 64)
		h.Sub(h, big.NewInt(1))
		return new(big.Rat), new(big.Rat).SetInt(h), true
	}
	return nil, nil, false
}

// ---------------------------------------------------------------- instructions

func (x *Exec) nonNil(st *State, p Val, what string, pos token.Pos) {
	if lv, ok := p.meta(0).(*LV); ok && lv != nil {
		return
	}
	x.obligation(st, "nil-deref", what, pos, x.c.Not(x.c.Eq(p.L[0], x.c.Int(0))))
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) bool {
	c := x.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if in.Heap && (in.Comment == "complit" || in.Comment == "new" || in.Comment == "slicelit" || in.Comment == "makeslice" || in.Comment == "varargs") {
			if _, isArr := t.Underlying().(*types.Array); isArr || in.Comment == "complit" || in.Comment == "new" {
				fr.env[in] = x.newObject(st, t)
				return true
			}
		}
		if _, isArr := t.Underlying().(*types.Array); isArr && in.Comment != "" && (in.Comment == "varargs" || in.Comment == "slicelit") {
			fr.env[in] = x.newObject(st, t)
			return true
		}
		x.cellN++
		cell := &Cell{id: x.cellN, T: t, name: in.Comment}
		st.cells[cell] = x.zero(t)
		fr.env[in] = Val{T: in.Type(), L: []*Term{c.Const(fmt.Sprintf("cell!%d", cell.id), SInt)}, M: []any{&LV{cell: cell, T: t}}}
	case *ssa.BinOp:
		fr.env[in] = x.binop(fr, st, in)
	case *ssa.UnOp:
		fr.env[in] = x.unop(fr, st, in)
	case *ssa.Field:
		v := x.val(fr, in.X)
		off, n := x.lay.FieldRange(in.X.Type(), in.Field)
		fr.env[in] = v.sub(in.Type(), off, n)
	case *ssa.FieldAddr:
		p := x.val(fr, in.X)
		x.nonNil(st, p, "field access", in.Pos())
		fr.env[in] = x.lvPtr(x.fieldLV(x.derefLV(p), in.Field))
	case *ssa.IndexAddr:
		i := x.val(fr, in.Index).L[0]
		b := x.val(fr, in.X)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.obligation(st, "index", "slice index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, b.L[2])))
			fr.env[in] = x.lvPtr(x.sliceElemLV(b, i))
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			x.obligation(st, "index", "array index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(arr.Len()))))
			fr.env[in] = x.lvPtr(x.indexLV(x.derefLV(b), i))
		}
	case *ssa.Index:
		i := x.val(fr, in.Index).L[0]
		b := x.val(fr, in.X)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.obligation(st, "index", "array index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(u.Len()))))
			out := Val{T: in.Type()}
			for _, t := range b.L {
				out.L = append(out.L, c.Select(t, i))
			}
			x.rangeFacts(st, out, st.top)
			fr.env[in] = out
		default: // string
			x.obligation(st, "index", "string index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, x.strLen(b.L[0]))))
			fr.env[in] = Val{T: in.Type(), L: []*Term{c.App("strbyte", SInt, b.L[0], i)}}
		}
	case *ssa.Lookup:
		b := x.val(fr, in.X)
		kv := x.val(fr, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			i := kv.L[0]
			x.obligation(st, "index", "string index in range", in.Pos(), c.And(c.Le(c.Int(0), i), c.Lt(i, x.strLen(b.L[0]))))
			fr.env[in] = Val{T: in.Type(), L: []*Term{c.App("strbyte", SInt, b.L[0], i)}}
			return true
		}
		k := kv.L[0]
		has := x.mapHas(st, b, k)
		mv := x.mapVal(st, b, k)
		z := x.zero(mv.T)
		out := Val{T: mv.T, M: mv.M}
		for i := range mv.L {
			out.L = append(out.L, c.Ite(has, mv.L[i], z.L[i]))
		}
		x.rangeFacts(st, out, st.top)
		x.elemFact(st, has, out)
		if in.CommaOk {
			fr.env[in] = catVals(in.Type(), out, Val{T: types.Typ[types.Bool], L: []*Term{has}})
		} else {
			fr.env[in] = out
		}
	case *ssa.MapUpdate:
		m := x.val(fr, in.Map)
		x.obligation(st, "nil-map", "write to nil map", in.Pos(), c.Not(c.Eq(m.L[0], c.Int(0))))
		x.elemObl(st, x.val(fr, in.Value), in.Pos())
		x.mapSet(st, m, x.val(fr, in.Key).L[0], x.val(fr, in.Value))
	case *ssa.MakeMap:
		fr.env[in] = x.newMap(st, in.Type())
	case *ssa.MakeSlice:
		n := x.val(fr, in.Len).L[0]
		if x.nonnilElem(in.Type().Underlying().(*types.Slice).Elem()) && x.spec == 0 {
			x.obligation(st, "nil-elem", "no nil list element", in.Pos(), c.Eq(n, c.Int(0)))
		}
		cp := x.val(fr, in.Cap).L[0]
		x.obligation(st, "makeslice", "length in range", in.Pos(), c.And(c.Le(c.Int(0), n), c.Le(n, cp)))
		et := in.Type().Underlying().(*types.Slice).Elem()
		r := x.alloc(st)
		names := x.sliceNames(et)
		for k, lf := range x.lay.Of(et) {
			as := c.ArraySort(SInt, lf.S)
			arr := x.heapGet(st, nil, names[k], as)
			st.heap[names[k]] = c.Store(arr, r, c.ConstArr(as, x.lay.ZeroOfSort(lf.S)))
		}
		fr.env[in] = Val{T: in.Type(), L: []*Term{r, c.Int(0), n, cp}}
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.Store:
		p := x.val(fr, in.Addr)
		x.nonNil(st, p, "store", in.Pos())
		if _, ok := in.Addr.(*ssa.IndexAddr); ok {
			x.elemObl(st, x.val(fr, in.Val), in.Pos())
		}
		x.store(st, x.derefLV(p), x.val(fr, in.Val))
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		if f := x.prog.typeinv[typeKey(v.T)]; f != nil && x.spec == 0 {
			x.obligation(st, "value", "every "+shortType(v.T)+" is well formed", in.Pos(), x.evalBool(st, fr, &Closure{fn: f}, []Val{v}, in.Pos()))
		}
		fr.env[in] = x.makeInterface(st, v, in.Type())
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, in.X).retype(in.Type())
	case *ssa.ChangeType:
		fr.env[in] = x.changeType(st, x.val(fr, in.X), in.Type())
	case *ssa.Convert:
		fr.env[in] = x.convert(fr, st, in)
	case *ssa.Extract:
		v := x.val(fr, in.Tuple)
		off, n := x.lay.TupleRange(in.Tuple.Type().(*types.Tuple), in.Index)
		fr.env[in] = v.sub(in.Type(), off, n)
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.bindings = append(cl.bindings, x.val(fr, b))
		}
		fr.env[in] = Val{T: in.Type(), L: []*Term{c.Const(fmt.Sprintf("clo$%p", cl), SInt)}, M: []any{cl}}
	case *ssa.Range:
		v := x.val(fr, in.X)
		it := &iterState{mapv: v}
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			mi := x.mapInfo(in.X.Type())
			ds := c.ArraySort(mi.ks, SBool)
			it.visited = c.ConstArr(ds, c.False)
		} else {
			it.visited = c.Int(0) // byte position
		}
		if st.iters == nil {
			st.iters = map[ssa.Value]*iterState{}
		}
		st.iters[in] = it
		fr.env[in] = Val{T: in.Type()}
	default:
		panic(unsupported("instruction %T in %s", in, fr.fn))
	}
	return true
}

// changeType converts between named types with identical underlying layout.
func (x *Exec) changeType(st *State, v Val, t types.Type) Val {
	// slices of different named element types share layout only if the element
	// type keys agree; maps likewise
	switch t.Underlying().(type) {
	case *types.Map:
		a, b := v.T.Underlying().(*types.Map), t.Underlying().(*types.Map)
		if typeKey(a.Key()) != typeKey(b.Key()) || typeKey(a.Elem()) != typeKey(b.Elem()) {
			panic(unsupported("map type conversion"))
		}
	}
	return v.retype(t)
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) []Outcome {
	c := x.c
	it := st.iters[in.Iter]
	if it == nil {
		panic(unsupported("iterator"))
	}
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		// string iteration: position it.visited (bytes)
		s := it.mapv.L[0]
		posn := it.visited
		ok := c.Lt(posn, x.strLen(s))
		var outs []Outcome
		yes, no := x.branch(st, ok)
		if yes != nil {
			r := c.App("struneat", SInt, s, posn)
			w := c.App("strwidth", SInt, s, posn)
			if !w.HasBV {
				x.assume(yes, c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(posn, w), x.strLen(s))), false, true)
				x.assume(yes, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(0x10FFFF))), false, true)
			}
			ni := *it
			ni.visited = c.Add(posn, w)
			yes.iters[in.Iter] = &ni
			outs = append(outs, Outcome{yes, []Val{{T: tt, L: []*Term{c.True, posn, r}}}})
		}
		if no != nil {
			outs = append(outs, Outcome{no, []Val{{T: tt, L: []*Term{c.False, c.Int(0), c.Int(0)}}}})
		}
		return outs
	}
	m := it.mapv
	mi := x.mapInfo(m.T)
	dom := x.mapDom(st, m)
	mkTuple := func(ok *Term, k *Term, v Val) Val {
		parts := []Val{{T: types.Typ[types.Bool], L: []*Term{ok}}}
		if !isInvalid(tt.At(1).Type()) {
			parts = append(parts, Val{T: mi.key, L: []*Term{k}})
		} else {
			parts = append(parts, Val{T: tt.At(1).Type(), L: nil})
		}
		if !isInvalid(tt.At(2).Type()) {
			parts = append(parts, v)
		} else {
			parts = append(parts, Val{T: tt.At(2).Type()})
		}
		return catVals(tt, parts...)
	}
	var outs []Outcome
	// continue
	k := c.Fresh("mapkey", mi.ks)
	ys := st.clone()
	x.assume(ys, x.mapHas(ys, m, k), true, false)
	x.assume(ys, c.Not(c.Select(it.visited, k)), true, false)
	if x.feasible(ys) {
		ni := *it
		ni.visited = c.Store(it.visited, k, c.True)
		ys.iters[in.Iter] = &ni
		v := x.mapVal(ys, m, k)
		x.rangeFacts(ys, v, ys.top)
		x.elemFact(ys, nil, v)
		x.rangeFacts(ys, Val{T: mi.key, L: []*Term{k}}, ys.top)
		outs = append(outs, Outcome{ys, []Val{mkTuple(c.True, k, v)}})
	}
	ns := st
	bk := c.BoundVar("k", mi.ks)
	x.assume(ns, c.Or(c.Eq(m.L[0], c.Int(0)), c.Quant("forall", []*Term{bk}, c.Implies(c.Select(dom, bk), c.Select(it.visited, bk)))), true, false)
	if x.feasible(ns) {
		zk := x.zero(mi.key)
		outs = append(outs, Outcome{ns, []Val{mkTuple(c.False, zk.L[0], x.zero(mi.elem))}})
	}
	return outs
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	c := x.c
	b := x.val(fr, in.X)
	lo := c.Int(0)
	if in.Low != nil {
		lo = x.val(fr, in.Low).L[0]
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		hi := b.L[2]
		if in.High != nil {
			hi = x.val(fr, in.High).L[0]
		}
		x.obligation(st, "slice-bounds", "slice bounds in range", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, b.L[2])))
		out := Val{T: in.Type(), L: []*Term{b.L[0], c.Add(b.L[1], lo), c.Sub(hi, lo), c.Sub(b.L[3], lo)}}
		if b.M != nil {
			out.M = append([]any{}, b.M...)
		}
		return out
	case *types.Pointer: // *array
		arr := u.Elem().Underlying().(*types.Array)
		hi := c.Int(arr.Len())
		if in.High != nil {
			hi = x.val(fr, in.High).L[0]
			x.obligation(st, "slice-bounds", "slice bounds in range", in.Pos(), c.And(c.Le(lo, hi), c.Le(hi, c.Int(arr.Len()))))
		}
		lv := x.derefLV(b)
		if lv.cell != nil || len(lv.idx) > 0 {
			// slicing a local or embedded array: copy semantics is only sound for read-only use
			cv := x.load(st, lv)
			r := x.alloc(st)
			x.setSliceInner(st, arr.Elem(), r, cv.L)
			x.trusted["slice of a local array treated as a copy (read-only use)"] = true
			return Val{T: in.Type(), L: []*Term{r, lo, c.Sub(hi, lo), c.Sub(c.Int(arr.Len()), lo)}}
		}
		return Val{T: in.Type(), L: []*Term{lv.ref, lo, c.Sub(hi, lo), c.Sub(c.Int(arr.Len()), lo)}}
	default: // string
		n := x.strLen(b.L[0])
		hi := n
		if in.High != nil {
			hi = x.val(fr, in.High).L[0]
		}
		x.obligation(st, "slice-bounds", "string slice bounds in range", in.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)))
		s := c.App("strsub", SStr, b.L[0], lo, hi)
		if !s.HasBV {
			x.assume(st, c.Implies(c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), c.Eq(x.strLen(s), c.Sub(hi, lo))), false, true)
		}
		return Val{T: in.Type(), L: []*Term{s}}
	}
}

func (x *Exec) strLen(s *Term) *Term {
	if s.Op == "strlit" {
		return x.c.Int(int64(len(s.Name)))
	}
	x.c.Str("")
	return x.c.App("strlen", SInt, s)
}

func (x *Exec) strCat(a, b *Term) *Term {
	if a.Op == "strlit" && b.Op == "strlit" {
		return x.c.Str(a.Name + b.Name)
	}
	if a.Op == "strlit" && a.Name == "" {
		return b
	}
	if b.Op == "strlit" && b.Name == "" {
		return a
	}
	// right-associate
	if a.Op == "app" && a.Name == "strcat" {
		return x.strCat(a.Args[0], x.strCat(a.Args[1], b))
	}
	if a.Op == "strlit" && b.Op == "app" && b.Name == "strcat" && b.Args[0].Op == "strlit" {
		return x.strCat(x.c.Str(a.Name+b.Args[0].Name), b.Args[1])
	}
	return x.c.App("strcat", SStr, a, b)
}

func (x *Exec) eqVals(st *State, a, b Val) *Term {
	if iv, ok := a.T.Underlying().(*types.Interface); ok {
		_ = iv
		return x.c.And(x.c.Eq(a.L[0], b.L[0]), x.c.Or(x.c.Eq(a.L[0], x.c.Int(0)), x.c.Eq(a.L[1], b.L[1])))
	}
	// pointer comparisons with metas
	if _, ok := a.T.Underlying().(*types.Pointer); ok {
		la, oka := a.meta(0).(*LV)
		lb, okb := b.meta(0).(*LV)
		if oka && okb {
			if la.cell != nil || lb.cell != nil {
				return x.c.Bool(la.cell == lb.cell && la.off == lb.off && len(la.idx) == 0 && len(lb.idx) == 0)
			}
		}
		if oka != okb {
			l, o := la, b
			if okb {
				l, o = lb, a
			}
			if o.L[0].IsNum() {
				if t := x.lvTerm(l); !strings.HasPrefix(t.Name, "interior") {
					return x.c.Eq(t, o.L[0])
				}
				return x.c.False
			}
			if l.cell != nil {
				return x.c.False
			}
		}
	}
	var ts []*Term
	for i := range a.L {
		ts = append(ts, x.c.Eq(a.L[i], b.L[i]))
	}
	return x.c.And(ts...)
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	c := x.c
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	t := in.Type()
	mk := func(r *Term) Val { return Val{T: t, L: []*Term{r}} }
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		at, bt := in.X.Type(), in.Y.Type()
		_, ai := at.Underlying().(*types.Interface)
		_, bi := bt.Underlying().(*types.Interface)
		if ai && !bi {
			b = x.makeInterface(st, b, at)
		} else if bi && !ai {
			a = x.makeInterface(st, a, bt)
		}
		switch at.Underlying().(type) {
		case *types.Slice: // only nil comparisons
			if isNilConst(in.Y) {
				r = c.Eq(a.L[0], c.Int(0))
			} else {
				r = c.Eq(b.L[0], c.Int(0))
			}
		case *types.Signature:
			other := a
			if isNilConst(in.X) {
				other = b
			}
			if _, ok := other.meta(0).(*Closure); ok {
				r = c.False
			} else {
				r = c.Eq(a.L[0], b.L[0])
			}
		default:
			if isNilConst(in.Y) && ai {
				r = c.Eq(a.L[0], c.Int(0))
			} else if isNilConst(in.X) && bi {
				r = c.Eq(b.L[0], c.Int(0))
			} else {
				r = x.eqVals(st, a, b)
			}
		}
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		return mk(r)
	}
	l, r := a.L[0], b.L[0]
	basic, _ := in.X.Type().Underlying().(*types.Basic)
	isStr := basic != nil && basic.Info()&types.IsString != 0
	isFloat := basic != nil && basic.Info()&types.IsFloat != 0
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			switch in.Op {
			case token.LSS:
				return mk(c.App("strlt", SBool, l, r))
			case token.GTR:
				return mk(c.App("strlt", SBool, r, l))
			case token.LEQ:
				return mk(c.Not(c.App("strlt", SBool, r, l)))
			default:
				return mk(c.Not(c.App("strlt", SBool, l, r)))
			}
		}
		switch in.Op {
		case token.LSS:
			return mk(c.Lt(l, r))
		case token.LEQ:
			return mk(c.Le(l, r))
		case token.GTR:
			return mk(c.Gt(l, r))
		default:
			return mk(c.Ge(l, r))
		}
	case token.ADD:
		if isStr {
			return mk(x.strCat(l, r))
		}
		return mk(c.Add(l, r))
	case token.SUB:
		return mk(c.Sub(l, r))
	case token.MUL:
		return mk(c.Mul(l, r))
	case token.QUO:
		if isFloat {
			return mk(c.RDiv(l, r))
		}
		x.obligation(st, "div-zero", "integer division by zero", in.Pos(), c.Not(c.Eq(r, c.Int(0))))
		return mk(c.GoQuo(l, r))
	case token.REM:
		x.obligation(st, "div-zero", "integer remainder by zero", in.Pos(), c.Not(c.Eq(r, c.Int(0))))
		return mk(c.GoRem(l, r))
	case token.SHL:
		if r.IsNum() && r.Rat.IsInt() && r.Rat.Num().IsInt64() && r.Rat.Num().Int64() < 62 {
			return mk(c.Mul(l, c.Int(1<<uint(r.Rat.Num().Int64()))))
		}
	case token.SHR:
		if r.IsNum() && r.Rat.IsInt() && r.Rat.Num().IsInt64() && r.Rat.Num().Int64() < 62 {
			return mk(c.IDiv(l, c.Int(1<<uint(r.Rat.Num().Int64()))))
		}
	case token.AND, token.OR, token.XOR:
		if basic != nil && basic.Info()&types.IsBoolean != 0 {
			if in.Op == token.AND {
				return mk(c.And(l, r))
			}
			if in.Op == token.OR {
				return mk(c.Or(l, r))
			}
		}
	}
	return mk(c.App("bitop$"+in.Op.String(), SInt, l, r))
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	v := x.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		x.nonNil(st, v, "dereference", in.Pos())
		r := x.load(st, x.derefLV(v))
		if _, ok := in.X.(*ssa.IndexAddr); ok {
			x.elemFact(st, nil, r)
		}
		return r.retype(in.Type())
	case token.NOT:
		return Val{T: in.Type(), L: []*Term{x.c.Not(v.L[0])}}
	case token.SUB:
		return Val{T: in.Type(), L: []*Term{x.c.Neg(v.L[0])}}
	case token.ARROW:
		panic(unsupported("channel receive"))
	case token.XOR:
		return Val{T: in.Type(), L: []*Term{x.c.Sub(x.c.Neg(v.L[0]), x.c.Int(1))}}
	}
	panic(unsupported("unop %s", in.Op))
}

func (x *Exec) nonnilElem(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := p.Elem().(*types.Named)
	return ok && nt.Obj().Pkg() != nil && x.prog.nonnilElems[nt.Obj().Pkg().Path()+"."+nt.Obj().Name()]
}

// elemFact: an element just read is not nil (an invariant of all lists and maps
// of the declared pointer types, kept by elemObl at every store).
func (x *Exec) elemFact(st *State, cond *Term, v Val) {
	if x.spec > 0 || len(v.L) != 1 || v.L[0].HasBV || !x.nonnilElem(v.T) {
		return
	}
	x.trusted["lists and maps of *Part in the initial state hold no nil (kept by every store: obligation nil-elem)"] = true
	f := x.c.Lt(x.c.Int(0), v.L[0])
	if cond != nil {
		f = x.c.Or(x.c.Not(cond), f)
	}
	x.assume(st, f, false, true)
}

func (x *Exec) elemObl(st *State, v Val, pos token.Pos) {
	if x.spec > 0 || len(v.L) != 1 || !x.nonnilElem(v.T) {
		return
	}
	x.obligation(st, "nil-elem", "no nil list element", pos, x.c.Not(x.c.Eq(v.L[0], x.c.Int(0))))
}

// wrapInt models conversion to a sized integer type.
func (x *Exec) wrapInt(t *Term, b *types.Basic) *Term {
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if t.IsNum() {
		if t.Rat.Cmp(lo) >= 0 && t.Rat.Cmp(hi) <= 0 {
			return t
		}
	}
	c := x.c
	loT, hiT := c.Num(lo, SInt), c.Num(hi, SInt)
	span := new(big.Rat).Sub(hi, lo)
	span.Add(span, big.NewRat(1, 1))
	wrapped := c.Add(c.IMod(c.Sub(t, loT), c.Num(span, SInt)), loT)
	return c.Ite(c.And(c.Le(loT, t), c.Le(t, hiT)), t, wrapped)
}

func widens(from, to *types.Basic) bool {
	lo, hi, ok := intRange(to)
	if !ok {
		return true
	}
	flo, fhi, fok := intRange(from)
	if !fok {
		return false
	}
	return flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) Val {
	c := x.c
	v := x.val(fr, in.X)
	ft, tt := in.X.Type().Underlying(), in.Type().Underlying()
	fb, fok := ft.(*types.Basic)
	tb, tok := tt.(*types.Basic)
	mk := func(t *Term) Val { return Val{T: in.Type(), L: []*Term{t}} }
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if widens(fb, tb) {
				return mk(v.L[0])
			}
			return mk(x.wrapInt(v.L[0], tb))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return mk(c.ToReal(v.L[0]))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			t := v.L[0]
			z := c.Num(new(big.Rat), SReal)
			tr := c.Ite(c.Ge(t, z), c.ToInt(t), c.Neg(c.ToInt(c.Neg(t))))
			if t.Op == "app" && strings.HasPrefix(t.Name, "math.Round") {
				// Round yields an integral real
			}
			return mk(x.wrapFloatInt(tr, tb))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return mk(c.App("f32round", SReal, v.L[0]))
			}
			return mk(v.L[0])
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return mk(c.App("runestr", SStr, v.L[0]))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return mk(v.L[0])
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tt.(*types.Slice); ok {
			// []rune(s) / []byte(s)
			name := "strrunes"
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				name = "strbytes"
			}
			as := c.ArraySort(SInt, SInt)
			inner := c.App(name, as, v.L[0])
			var n *Term
			if name == "strbytes" {
				n = x.strLen(v.L[0])
			} else if v.L[0].Op == "strlit" {
				n = c.Int(int64(len([]rune(v.L[0].Name))))
				a := c.ConstArr(as, c.Int(0))
				for i, r := range []rune(v.L[0].Name) {
					a = c.Store(a, c.Int(int64(i)), c.Int(int64(r)))
				}
				inner = a
			} else {
				n = c.App("strrunelen", SInt, v.L[0])
				if !n.HasBV {
					x.assume(st, c.And(c.Le(c.Int(0), n), c.Le(n, x.strLen(v.L[0]))), false, true)
					x.assume(st, c.Eq(c.Eq(n, c.Int(0)), c.Eq(x.strLen(v.L[0]), c.Int(0))), false, true)
				}
			}
			ref := x.alloc(st)
			x.setSliceInner(st, sl.Elem(), ref, []*Term{inner})
			return Val{T: in.Type(), L: []*Term{ref, c.Int(0), n, n}}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := ft.(*types.Slice); ok {
			in1 := x.sliceInner(st, v)
			name := "runesstr"
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				name = "bytesstr"
			}
			return mk(c.App(name, SStr, in1[0], v.L[1], v.L[2]))
		}
	}
	panic(unsupported("conversion %s -> %s", in.X.Type(), in.Type()))
}

func (x *Exec) wrapFloatInt(t *Term, tb *types.Basic) *Term {
	lo, hi, ok := intRange(tb)
	if !ok {
		return t
	}
	// out-of-range float->int conversion is implementation-defined in Go
	c := x.c
	if t.IsNum() {
		return t
	}
	l, h := c.Num(lo, SInt), c.Num(hi, SInt)
	u := c.App("f2i_undef$"+tb.Name(), SInt, t)
	return c.Ite(c.And(c.Le(l, t), c.Le(t, h)), t, c.Ite(c.Le(u, l), l, c.Ite(c.Le(u, h), u, h)))
}

// ---------------------------------------------------------------- type assertions

func (x *Exec) implementsTerm(st *State, tag *Term, it *types.Interface) *Term {
	if tag.IsNum() {
		t := x.prog.typeOfTag(int(tag.Rat.Num().Int64()))
		if t == nil {
			return x.c.False
		}
		return x.c.Bool(types.Implements(t, it))
	}
	return x.c.App("impl$"+typeKey(it), SBool, tag)
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) *State {
	c := x.c
	v := x.val(fr, in.X)
	tag := v.L[0]
	if k, ok := x.knownConst(st, tag); ok {
		tag = k
	}
	at := in.AssertedType
	if it, ok := at.Underlying().(*types.Interface); ok {
		var okT *Term
		if st0, ok := in.X.Type().Underlying().(*types.Interface); ok && types.Implements(in.X.Type(), it) && st0 != nil {
			okT = c.Not(c.Eq(tag, c.Int(0)))
		} else {
			okT = c.And(c.Not(c.Eq(tag, c.Int(0))), x.implementsTerm(st, tag, it))
		}
		if in.CommaOk {
			res := Val{T: at, M: v.M, L: []*Term{c.Ite(okT, v.L[0], c.Int(0)), c.Ite(okT, v.L[1], c.Int(0))}}
			fr.env[in] = catVals(in.Type(), res, Val{T: types.Typ[types.Bool], L: []*Term{okT}})
			return st
		}
		x.obligation(st, "type-assert", "assertion to "+typeKey(at), in.Pos(), okT)
		fr.env[in] = v.retype(at)
		return st
	}
	okT := c.Eq(tag, x.tagOf(at))
	if in.CommaOk {
		uv := x.unbox(st, v, at)
		x.typeInv(st, fr, uv, okT)
		z := x.zero(at)
		res := Val{T: at, M: uv.M}
		for i := range uv.L {
			res.L = append(res.L, c.Ite(okT, uv.L[i], z.L[i]))
		}
		if uv.hasMeta() && okT.Op != "true" {
			// keep the metas: the value is only used when ok
			res.L = uv.L
		}
		fr.env[in] = catVals(in.Type(), res, Val{T: types.Typ[types.Bool], L: []*Term{okT}})
		return st
	}
	x.obligation(st, "type-assert", "assertion to "+typeKey(at), in.Pos(), okT)
	if okT.Op == "false" && x.spec == 0 {
		return nil
	}
	if x.spec == 0 {
		x.assume(st, okT, false, false)
	}
	fr.env[in] = x.unbox(st, v, at)
	x.typeInv(st, fr, fr.env[in], okT)
	return st
}

// typeInv assumes the declared invariant of a value's type.
func (x *Exec) typeInv(st *State, fr *Frame, v Val, cond *Term) {
	f := x.prog.typeinv[typeKey(v.T)]
	if f == nil {
		return
	}
	x.trusted["the invariant "+f.Name()+" of "+shortType(v.T)+" values that are not built in code under contract"] = true
	x.assumeU(st, x.c.Implies(cond, x.evalBool(st, fr, &Closure{fn: f}, []Val{v}, token.NoPos)))
}

func (x *Exec) deferCall(fr *Frame, st *State, in *ssa.Defer) {
	panic(unsupported("defer in %s", fr.fn))
}
