package main

// calls.go: calls, specification intrinsics, contracts at call sites, and
// models of functions outside the code under verification.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type conMode int

const (
	modeCheck conMode = iota
	modeAssume
)

// contractInst is one evaluation of a contract function.
type contractInst struct {
	con     *Contract
	mode    conMode
	variant types.Type
	entry   *Snap // memory when the contract function was entered
	mods    []string
	modsAt  []modAt
	modsEa  []modEach
	observe map[string]*Closure
	logTerm *Term
	bodyFn  *ssa.Function
	caller  token.Pos
	pre     int
}

// beforeCall: a caller forgets what the modifies clauses name when it comes to
// the call, so a clause after it would leave the old values standing beside
// the postconditions.
func (ci *contractInst) beforeCall(pos token.Pos) {
	for _, b := range ci.con.Fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Pos() >= pos {
				continue
			}
			if f := c.Call.StaticCallee(); f != nil && (f.Name() == "cvEnsures" || f.Name() == "cvShows") {
				panic(unsupported("a modifies clause after a postcondition"))
			}
		}
	}
}

type modAt struct {
	names []string
	ref   *Term
}

// modEach: the objects a slice pointed to on entry may change.
type modEach struct {
	names []string
	set   func(r *Term) *Term
}

// memberSet gives membership of an object in the elements of a slice, and its
// defining axioms.
func (x *Exec) memberSet(st *State, s Val) func(r *Term) *Term {
	c := x.c
	var snap *Snap
	if m, ok := s.meta(0).(*Snap); ok {
		snap = m
	}
	_ = snap
	j := c.BoundVar("j", SInt)
	el := x.load(st, x.sliceElemLV(s, c.Sub(j, s.L[1]))).L[0]
	base := el.Args[0]
	name := fmt.Sprintf("%d$%d$%d", base.ID, s.L[1].ID, s.L[2].ID)
	in := func(r *Term) *Term { return c.App("inset$"+name, SBool, r) }
	idx := func(r *Term) *Term { return c.App("inidx$"+name, SInt, r) }
	end := c.Add(s.L[1], s.L[2])
	x.assume(st, c.Quant("forall", []*Term{j}, c.Implies(c.And(c.Le(s.L[1], j), c.Lt(j, end)), in(el)), el), false, true)
	r := c.BoundVar("r", SInt)
	x.assume(st, c.Quant("forall", []*Term{r}, c.Implies(in(r), c.And(c.Le(s.L[1], idx(r)), c.Lt(idx(r), end), c.Eq(c.Select(base, idx(r)), r))), in(r)), false, true)
	return in
}

const logName = "ghost.log"

func (x *Exec) logGet(st *State, snap *Snap) *Term {
	return x.c.Select(x.heapGet(st, snap, logName, SInt), x.c.Int(0))
}

// logLen is the number of calls in a trace.
func (x *Exec) logLen(log *Term) *Term { return x.c.App("loglen", SInt, log) }

// logPush is the ghost trace after one more logged call.
func (x *Exec) logPush(st *State, log *Term, method string, args []Val) *Term {
	ts := []*Term{log}
	for _, a := range args {
		// the values themselves, whatever memory they are looked at in
		if bm, ok := a.meta(1).(*boxedMeta); ok {
			a = bm.v
		}
		if a.hasMeta() {
			a.M = append([]any{}, a.M...)
			for i, m := range a.M {
				if _, ok := m.(*Snap); ok {
					a.M[i] = nil
				}
			}
		}
		b := x.makeInterface(st, a, emptyIface)
		ts = append(ts, b.L[0], b.L[1])
	}
	return x.c.App(fmt.Sprintf("log$%s$%d", method, len(args)), SInt, ts...)
}

var emptyIface = types.NewInterfaceType(nil, nil)

// observer finds the observation function the checked contract declared.
func (fr *Frame) observer(method string) (*Closure, *Frame) {
	for g := fr; g != nil; g = g.parent {
		if g.ci != nil {
			if g.ci.mode == modeCheck && g.ci.observe[method] != nil {
				return g.ci.observe[method], g
			}
		}
	}
	return nil, nil
}

func (x *Exec) call(fr *Frame, st *State, cm *ssa.CallCommon, in ssa.Instruction, pos token.Pos) []Outcome {
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, cm, in, pos)
	}
	var args []Val
	if cm.IsInvoke() {
		recv := x.val(fr, cm.Value)
		for _, a := range cm.Args {
			args = append(args, x.val(fr, a))
		}
		return x.invoke(fr, st, recv, cm.Value.Type(), cm.Method, args, pos)
	}
	for _, a := range cm.Args {
		args = append(args, x.val(fr, a))
	}
	if fn := cm.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			cl := x.val(fr, mc).meta(0).(*Closure)
			binds = cl.bindings
		}
		return x.callStatic(fr, st, fn, args, binds, pos)
	}
	fv := x.val(fr, cm.Value)
	if cl, ok := fv.meta(0).(*Closure); ok {
		if cl.builtin != nil {
			return []Outcome{{st, cl.builtin(x, st, args)}}
		}
		return x.callStatic(fr, st, cl.fn, args, cl.bindings, pos)
	}
	if ld, ok := cm.Value.(*ssa.UnOp); ok {
		if g, ok := ld.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "alda.io/client/logging" {
			return []Outcome{{st, x.logCall(st, cm.Signature())}}
		}
	}
	panic(unsupported("call of unknown function value in %s", fr.fn))
}

func (x *Exec) callStatic(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) []Outcome {
	orig := fn
	if o := fn.Origin(); o != nil {
		orig = o
	}
	if orig.Pkg != nil && strings.HasPrefix(orig.Name(), "cv") {
		if outs, ok := x.intrinsic(fr, st, fn, orig.Name(), args, pos); ok {
			return outs
		}
	}
	if x.prog.recFns[fn] && x.spec > 0 {
		return []Outcome{{st, x.recApp(st, fn, args)}}
	}
	if outs, ok := x.extern(fr, st, fn, args, pos); ok {
		return outs
	}
	// the target call of the contract being evaluated
	if fr.ci != nil && fr.ci.con.Target == fn {
		return x.targetCall(fr, st, fn, args, pos)
	}
	if x.spec == 0 {
		if con := x.prog.byFn[fn]; con != nil && !con.Inline {
			return x.applyContract(fr, st, con, args, pos, fn)
		}
		// a method whose interface has a contract
		if con := x.ifaceContract(fn); con != nil {
			recvT := fn.Signature.Recv().Type()
			a2 := append([]Val{x.makeInterface(st, args[0].retype(recvT), con.Iface)}, args[1:]...)
			return x.applyContract(fr, st, con, a2, pos, fn)
		}
	}
	if fn.Blocks == nil {
		return x.unknownCall(st, fn, args)
	}
	if x.onStack(fn) && x.spec == 0 {
		panic(unsupported("recursion without contract: %s", fn))
	}
	if x.spec == 0 {
		x.inlined[fn.String()] = true
	}
	return x.inlineCall(st, fr, fn, args, binds, pos)
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	return n > 0
}

// ifaceContract finds an interface contract that covers a concrete method.
func (x *Exec) ifaceContract(fn *ssa.Function) *Contract {
	if fn.Signature.Recv() == nil {
		return nil
	}
	for _, con := range x.prog.byIface {
		if con.Method != fn.Name() || con.Inline {
			continue
		}
		it := con.Iface.Underlying().(*types.Interface)
		if types.Implements(fn.Signature.Recv().Type(), it) && con.covers(fn.Signature.Recv().Type()) {
			return con
		}
	}
	return nil
}

func (c *Contract) covers(t types.Type) bool {
	n := shortType(t)
	if len(c.Only) > 0 {
		for _, o := range c.Only {
			if o == n {
				return true
			}
		}
		return false
	}
	for _, s := range c.Skip {
		if s == n {
			return false
		}
	}
	return true
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func (x *Exec) invoke(fr *Frame, st *State, recv Val, it types.Type, m *types.Func, args []Val, pos token.Pos) []Outcome {
	c := x.c
	if x.spec == 0 {
		x.obligation(st, "nil-deref", "method call on nil interface", pos, c.Not(c.Eq(recv.L[0], c.Int(0))))
	}
	// target call of an interface contract
	if fr.ci != nil && fr.ci.con.Iface != nil && fr.ci.con.Method == m.Name() && types.Identical(fr.ci.con.Iface, it) {
		if fr.ci.mode == modeAssume {
			return x.targetCall(fr, st, nil, append([]Val{recv}, args...), pos)
		}
		fn := x.methodOf(fr.ci.variant, m)
		return x.targetCall(fr, st, fn, append([]Val{x.unbox(st, recv, fr.ci.variant)}, args...), pos)
	}
	if outs, ok := x.externInvoke(st, recv, it, m, args); ok {
		return outs
	}
	con := x.prog.byIface[typeKey(it)+"."+m.Name()]
	if con != nil && con.Inline {
		con = nil
	}
	if tag, ok := x.knownConst(st, recv.L[0]); ok && tag.IsNum() {
		t := x.prog.typeOfTag(int(tag.Rat.Num().Int64()))
		if t == nil {
			return nil
		}
		if con != nil && x.spec == 0 && con.covers(t) {
			return x.applyContract(fr, st, con, append([]Val{recv}, args...), pos, nil)
		}
		fn := x.methodOf(t, m)
		if fn == nil {
			return nil
		}
		return x.callStatic(fr, st, fn, append([]Val{x.unbox(st, recv, t)}, args...), nil, pos)
	}
	if con != nil && x.spec == 0 && len(con.Only) == 0 && len(con.Skip) == 0 {
		return x.applyContract(fr, st, con, append([]Val{recv}, args...), pos, nil)
	}
	iface := it.Underlying().(*types.Interface)
	impls := x.prog.implementors(iface)
	if len(impls) == 0 || typeKey(it) == "error" {
		return x.unknownInvoke(st, m, recv, args)
	}
	x.trusted["closed world: "+typeKey(it)+" is implemented only by types of the alda packages loaded"] = true
	var outs []Outcome
	var any []*Term
	for i, t := range impls {
		cond := c.Eq(recv.L[0], x.tagOf(t))
		any = append(any, cond)
		s2 := st
		if i < len(impls)-1 || true {
			s2 = st.clone()
		}
		x.assume(s2, cond, true, false)
		if x.spec == 0 && !x.feasible(s2) {
			continue
		}
		fn := x.methodOf(t, m)
		outs = append(outs, x.callStatic(fr, s2, fn, append([]Val{x.unbox(s2, recv, t)}, args...), nil, pos)...)
	}
	if x.spec > 0 && len(outs) > 1 {
		if mo, ok := x.merge(st, st.pc, outs); ok {
			return []Outcome{mo}
		}
	}
	return outs
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := x.prog.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	x.prog.mu.Lock()
	defer x.prog.mu.Unlock()
	return x.prog.ssa.MethodValue(sel)
}

// ---------------------------------------------------------------- contracts

// chosen is the contract of the callee that the contract being checked asks for.
func (x *Exec) chosen(con *Contract) *Contract {
	if x.con == nil || len(x.con.Uses) == 0 {
		return con
	}
	for _, o := range x.prog.contracts {
		if o.Extra == "" || o.Name != con.Name || o.Pkg != con.Pkg {
			continue
		}
		for _, u := range x.con.Uses {
			if u == o.Extra {
				return o
			}
		}
	}
	return con
}

// applyContract uses a contract in place of a call.
func (x *Exec) applyContract(fr *Frame, st *State, con *Contract, args []Val, pos token.Pos, fn *ssa.Function) []Outcome {
	con = x.chosen(con)
	x.used[con] = true
	if con.Logged {
		la := append([]Val{}, args...)
		if ob, of := fr.observer(con.Method); ob != nil {
			v := x.evalPure(st, of, ob, args, pos)
			la = append(la, v)
		}
		was := x.logGet(st, nil)
		name := con.Method
		if name == "" {
			name = fn.Name()
		}
		x.logApp = x.logPush(st, was, name, la)
		x.assume(st, x.c.Eq(x.logLen(x.logApp), x.c.Add(x.logLen(was), x.c.Int(1))), false, false)
		st.heap[logName] = x.c.Store(x.heapGet(st, nil, logName, SInt), x.c.Int(0), x.logApp)
	}
	ci := &contractInst{con: con, mode: modeAssume, entry: st.snapshot(), caller: pos, bodyFn: fn}
	cf := &Frame{fn: con.Fn, env: map[ssa.Value]Val{}, args: args, parent: fr, loops: map[*ssa.BasicBlock]*loopRun{}, visits: map[*ssa.BasicBlock]int{}, callPos: pos, ci: ci}
	for i, p := range con.Fn.Params {
		if i >= len(args) {
			panic(unsupported("contract %s: parameter count", con.ID()))
		}
		cf.env[p] = args[i].retype(p.Type())
	}
	cf.entry = ci.entry
	ci.logTerm = x.logApp
	x.spec++
	x.depth++
	if x.depth > 60 {
		panic(unsupported("contract nesting too deep"))
	}
	mark := st.pc
	base := st.clone()
	outs := x.runBlock(cf, st, con.Fn.Blocks[0], nil)
	x.depth--
	x.spec--
	if len(outs) > 1 {
		if m, ok := x.merge(base, mark, outs); ok {
			return []Outcome{m}
		}
		var keep []Outcome
		for _, o := range outs {
			if x.feasible(o.st) {
				keep = append(keep, o)
			}
		}
		return keep
	}
	return outs
}

// targetCall executes (check mode) or abstracts (assume mode) the function a
// contract is about.
func (x *Exec) targetCall(fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Outcome {
	ci := fr.ci
	if ci.mode == modeCheck {
		saved := x.spec
		x.spec = 0
		defer func() { x.spec = saved }()
		x.entrySnap = st.snapshot()
		ci.entry = x.entrySnap
		x.paramVals = fr.args
		x.coverPoint(st, "precondition is satisfiable")
		if fn.Blocks == nil {
			panic(unsupported("no body for %s", fn))
		}
		outs := x.callFn(st, fr, fn, args, nil, pos)
		for i := range outs {
			outs[i].st.top = outs[i].st.top
		}
		return outs
	}
	// assume mode: havoc the frame, invent results
	var sig *types.Signature
	if ci.con.Target != nil {
		sig = ci.con.Target.Signature
	} else {
		sig = ifaceMethod(ci.con).Type().(*types.Signature)
	}
	oldTop := st.top
	oldAlloc := map[string]*Term{}
	mods := ci.mods
	for _, n := range x.allocNames() {
		for _, p := range ci.mods {
			if allocCovered(p, n) {
				oldAlloc[n] = x.heapGet(st, nil, n, SBool)
				mods = append(append([]string{}, mods...), n)
				break
			}
		}
	}
	x.havocPats(st, mods)
	for _, ma := range ci.modsAt {
		for _, n := range ma.names {
			leaf := x.heapSort[n]
			arr := x.heapGet(st, nil, n, leaf)
			nv := x.c.Fresh("mod."+n, leaf)
			st.heap[n] = x.c.Store(arr, ma.ref, nv)
		}
	}
	nt := x.c.Fresh("top", SInt)
	x.assume(st, x.c.Le(st.top, nt), false, true)
	st.top = nt
	for _, n := range sortedKeys(oldAlloc) {
		x.allocAxioms(st, n, oldAlloc[n], oldTop)
	}
	for _, me := range ci.modsEa {
		for _, n := range me.names {
			leaf := x.heapSort[n]
			arr := x.heapGet(st, nil, n, leaf)
			na := x.c.Fresh("each."+n, arr.S)
			r := x.c.BoundVar("r", SInt)
			x.assume(st, x.c.Quant("forall", []*Term{r}, x.c.Or(me.set(r), x.c.Eq(x.c.Select(na, r), x.c.Select(arr, r))), x.c.Select(na, r)), false, true)
			st.heap[n] = na
		}
	}
	var rets []Val
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		rv := x.freshVal(st, "ret."+ci.con.Name, res.At(i).Type())
		first := true
		for j := 0; j < i; j++ {
			first = first && typeKey(res.At(j).Type()) != typeKey(rv.T)
		}
		if ci.con.Logged && first {
			for l, t := range rv.L {
				x.assume(st, x.c.Eq(t, x.c.App(fmt.Sprintf("logres$%s$%d$%d", typeKey(rv.T), 0, l), t.S, ci.logTerm)), false, true)
			}
		}
		rets = append(rets, rv)
	}
	fr.targetRet = rets
	fr.targetDone = true
	return []Outcome{{st, rets}}
}

func ifaceMethod(con *Contract) *types.Func {
	it := con.Iface.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == con.Method {
			return it.Method(i)
		}
	}
	panic(unsupported("interface method %s missing", con.Method))
}

// havocPats forgets the contents of all heap arrays matching the patterns.
func (x *Exec) havocPats(st *State, pats []string) {
	if len(pats) == 0 {
		return
	}
	x.epochN++
	id := x.epochN
	ep := append([]epoch{}, st.epochs...)
	for _, p := range pats {
		ep = append(ep, epoch{id, p})
		for n := range st.heap {
			if matchPat(p, n) {
				delete(st.heap, n)
			}
		}
	}
	st.epochs = ep
}

func (x *Exec) coverPoint(st *State, name string) {
	if x.quiet > 0 {
		return
	}
	cv := &Cover{Name: name}
	x.covers = append(x.covers, cv)
	q := x.c.Query(st.pcTerms())
	res, _ := x.pool.Check("z3-new", q, 1500*1e6)
	switch res {
	case "sat":
		cv.Status = "reachable"
	case "unsat":
		cv.Status = "unreachable"
	default:
		cv.Status = "not refuted"
	}
}

// frameObligations: everything outside the modifies clause is unchanged.
func (x *Exec) frameObligations(st *State, ci *contractInst, pos token.Pos) {
	if ci.con.NoFrame {
		return
	}
	c := x.c
	top := ci.entry.top
	for _, n := range sortedKeys(st.heap) {
		if n == logName {
			continue
		}
		nt := st.heap[n]
		ot := x.snapTerm(ci.entry, n)
		if nt == ot || ot == nil {
			continue
		}
		allowed := false
		for _, p := range ci.mods {
			if matchPat(p, n) || strings.HasPrefix(n, "alloc$") && allocCovered(p, n) {
				allowed = true
			}
		}
		if allowed || n == logName {
			continue
		}
		if strings.HasPrefix(n, "alloc$") {
			r := c.BoundVar("r", SInt)
			x.obligationSpec(st, "frame", n, pos, c.Quant("forall", []*Term{r}, c.Implies(c.Select(nt, r), c.Select(ot, r))))
			continue
		}
		var refs []*Term
		for _, ma := range ci.modsAt {
			for _, nn := range ma.names {
				if nn == n {
					refs = append(refs, ma.ref)
				}
			}
		}
		var sets []func(r *Term) *Term
		for _, me := range ci.modsEa {
			if contains(me.names, n) {
				sets = append(sets, me.set)
			}
		}
		// walk the store chain
		t := nt
		var conds []*Term
		okChain := true
		for t != ot {
			if t.Op != "store" {
				okChain = false
				break
			}
			i := t.Args[1]
			skip := false
			for _, r := range refs {
				if r == i {
					skip = true
				}
			}
			if !skip {
				alts := []*Term{c.Le(top, i), c.Eq(t.Args[2], c.Select(ot, i))}
				for _, r := range refs {
					alts = append(alts, c.Eq(i, r))
				}
				for _, sf := range sets {
					alts = append(alts, sf(i))
				}
				conds = append(conds, c.Or(alts...))
			}
			t = t.Args[0]
		}
		if okChain {
			for _, cd := range conds {
				x.obligationSpec(st, "frame", n, pos, cd)
			}
			continue
		}
		r := c.BoundVar("r", SInt)
		g := []*Term{c.Lt(r, top), c.Le(c.Int(0), r)}
		for _, rf := range refs {
			g = append(g, c.Not(c.Eq(r, rf)))
		}
		for _, sf := range sets {
			g = append(g, c.Not(sf(r)))
		}
		x.obligationSpec(st, "frame", n, pos, c.Quant("forall", []*Term{r}, c.Implies(c.And(g...), c.Eq(c.Select(nt, r), c.Select(ot, r)))))
	}
	for _, e := range st.epochs[len(ci.entry.epochs):] {
		// names havocked but never read again
		allowed := false
		for _, p := range ci.mods {
			if p == "*" || p == e.pat || matchPat(p, e.pat) {
				allowed = true
			}
		}
		if !allowed {
			if _, ok := st.heap[e.pat]; ok {
				continue // handled above
			}
			// a pattern havoc: force the comparison for known names
			for n, s := range x.heapSort {
				if n != logName && matchPat(e.pat, n) {
					if _, ok := st.heap[n]; !ok {
						cov := false
						for _, p := range ci.mods {
							if matchPat(p, n) {
								cov = true
							}
						}
						if cov {
							continue
						}
						nt := x.heapGet(st, nil, n, s)
						ot := x.heapGet(st, ci.entry, n, s)
						if nt != ot {
							r := c.BoundVar("r", SInt)
							x.obligationSpec(st, "frame", n, pos, c.Quant("forall", []*Term{r}, c.Implies(c.And(c.Le(c.Int(0), r), c.Lt(r, top)), c.Eq(c.Select(nt, r), c.Select(ot, r)))))
						}
					}
				}
			}
		}
	}
}

func (x *Exec) snapTerm(s *Snap, n string) *Term {
	if t, ok := s.heap[n]; ok {
		return t
	}
	return x.heapGet(&State{}, s, n, x.heapSort[n])
}

// obligationSpec emits an obligation even while in specification code.
func (x *Exec) obligationSpec(st *State, kind, desc string, pos token.Pos, goal *Term) {
	saved := x.spec
	x.spec = 0
	x.obligation(st, kind, desc, pos, goal)
	x.spec = saved
}

// ---------------------------------------------------------------- intrinsics

func strArg(v Val) string {
	if v.L[0].Op == "strlit" {
		return v.L[0].Name
	}
	return "?"
}

// variadicStrings reads a literal ...string argument.
func (x *Exec) variadicElems(st *State, v Val, et types.Type) []Val {
	n := v.L[2]
	if !n.IsNum() {
		panic(unsupported("variadic argument is not literal"))
	}
	var r []Val
	for i := int64(0); i < n.Rat.Num().Int64(); i++ {
		r = append(r, x.load(st, x.sliceElemLV(v, x.c.Int(i))))
	}
	return r
}

func (x *Exec) intrinsic(fr *Frame, st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := x.c
	none := []Outcome{{st, nil}}
	ret := func(t *Term) []Outcome {
		return []Outcome{{st, []Val{{T: types.Typ[types.Bool], L: []*Term{t}}}}}
	}
	switch name {
	case "cvRequires":
		ci := fr.contract()
		if ci == nil {
			panic(unsupported("cvRequires outside a contract"))
		}
		if ci.mode == modeCheck {
			x.assume(st, args[0].L[0], false, false)
		} else {
			saved := x.spec
			x.spec = x.outerSpec(fr)
			ci.pre++
			x.obligation(st, "precondition", fmt.Sprintf("%s pre%d", ci.con.Name, ci.pre), ci.caller, args[0].L[0])
			x.spec = saved
			x.assume(st, args[0].L[0], false, false)
		}
		return none, true
	case "cvEnsures":
		ci := fr.contract()
		if ci == nil {
			panic(unsupported("cvEnsures outside a contract"))
		}
		if ci.mode == modeCheck {
			x.obligationSpec(st, "ensures", strArg(args[0]), pos, args[1].L[0])
		} else {
			x.assume(st, args[1].L[0], false, false)
		}
		return none, true
	case "cvShows":
		// proved, but not passed on to callers
		if ci := fr.contract(); ci.mode == modeCheck {
			x.obligationSpec(st, "ensures", strArg(args[0]), pos, args[1].L[0])
		}
		return none, true
	case "cvAssume":
		// lemma instantiation inside check mode only: never used at call sites
		panic(unsupported("cvAssume is not available"))
	case "cvAssert":
		ci := fr.contract()
		if ci != nil && ci.mode == modeCheck {
			x.obligationSpec(st, "assert", strArg(args[0]), pos, args[1].L[0])
		}
		return none, true
	case "cvMayPanic":
		return none, true
	case "cvModifies":
		ci := fr.contract()
		ci.beforeCall(pos)
		for _, e := range x.variadicElems(st, args[0], types.Typ[types.String]) {
			ci.mods = append(ci.mods, strArg(e))
		}
		return none, true
	case "cvModifiesAt":
		ci := fr.contract()
		ci.beforeCall(pos)
		pv := args[0]
		tag, ok := x.knownConst(st, pv.L[0])
		if !ok {
			panic(unsupported("cvModifiesAt needs a typed reference"))
		}
		pt := x.prog.typeOfTag(int(tag.Rat.Num().Int64()))
		elems := x.variadicElems(st, args[1], types.Typ[types.String])
		ma := modAt{ref: pv.L[1]}
		add := func(n string, s *Sort) {
			if _, ok := x.heapSort[n]; !ok {
				x.heapSort[n] = s
			}
			ma.names = append(ma.names, n)
		}
		switch u := pt.Underlying().(type) {
		case *types.Pointer:
			names := x.objNames(u.Elem())
			leaves := x.lay.Of(u.Elem())
			key := typeKey(u.Elem())
			for i, n := range names {
				if len(elems) == 0 {
					add(n, leaves[i].S)
				}
				for _, e := range elems {
					if matchPat(key+"."+strArg(e), n) {
						add(n, leaves[i].S)
					}
				}
			}
		case *types.Map:
			mi := x.mapInfo(pt)
			add(mi.dom, c.ArraySort(mi.ks, SBool))
			add(mi.cnt, SInt)
			for i, vn := range mi.vals {
				add(vn, c.ArraySort(mi.ks, mi.vleaves[i].S))
			}
		default:
			panic(unsupported("cvModifiesAt of %s", pt))
		}
		ci.modsAt = append(ci.modsAt, ma)
		return none, true
	case "cvModifiesEach":
		ci := fr.contract()
		ci.beforeCall(pos)
		sl := args[0]
		pt := sl.T.Underlying().(*types.Slice).Elem().Underlying().(*types.Pointer).Elem()
		names := x.objNames(pt)
		leaves := x.lay.Of(pt)
		me := modEach{set: x.memberSet(st, sl)}
		elems := x.variadicElems(st, args[1], types.Typ[types.String])
		for i, n := range names {
			for _, e := range elems {
				if matchPat(typeKey(pt)+"."+strArg(e), n) {
					if _, ok := x.heapSort[n]; !ok {
						x.heapSort[n] = leaves[i].S
					}
					me.names = append(me.names, n)
				}
			}
		}
		ci.modsEa = append(ci.modsEa, me)
		return none, true
	case "cvObserve":
		ci := fr.contract()
		if ci.mode == modeCheck {
			if ci.observe == nil {
				ci.observe = map[string]*Closure{}
			}
			iv := args[1]
			cl, ok := iv.meta(1).(*Closure)
			if !ok {
				if bm, is := iv.meta(1).(*boxedMeta); is {
					cl, ok = bm.v.meta(0).(*Closure)
				}
			}
			if !ok {
				panic(unsupported("cvObserve needs a function literal"))
			}
			ci.observe[strArg(args[0])] = cl
		}
		return none, true
	case "cvTraceStart":
		ci := fr.contract()
		e := x.tmplEntry
		if ci != nil {
			e = ci.entry
		}
		return []Outcome{{st, []Val{{T: fn.Signature.Results().At(0).Type(), L: []*Term{x.logGet(st, e)}}}}}, true
	case "cvTracePre":
		if x.tmplPre == nil {
			panic(unsupported("cvTracePre outside a loop template"))
		}
		return []Outcome{{st, []Val{{T: fn.Signature.Results().At(0).Type(), L: []*Term{x.logGet(st, x.tmplPre)}}}}}, true
	case "cvCalls":
		ci := fr.contract()
		e := x.tmplEntry
		if ci != nil {
			e = ci.entry
		}
		return ret(c.Sub(x.logLen(x.logGet(st, nil)), x.logLen(x.logGet(st, e)))), true
	case "cvTraceIs":
		// the trace a contract speaks of is that of the calls its own target
		// makes; a caller's trace holds the caller's calls
		if ci := fr.contract(); ci != nil && ci.mode == modeAssume {
			return ret(c.True), true
		}
		return ret(c.Eq(x.logGet(st, nil), args[0].L[0])), true
	case "cvCalled":
		la := append([]Val{args[2]}, x.variadicElems(st, args[3], nil)...)
		return []Outcome{{st, []Val{{T: fn.Signature.Results().At(0).Type(), L: []*Term{x.logPush(st, args[0].L[0], strArg(args[1]), la)}}}}}, true
	case "cvResult":
		t := fn.TypeArgs()[0]
		v := Val{T: t}
		for l, lf := range x.lay.Of(t) {
			v.L = append(v.L, c.App(fmt.Sprintf("logres$%s$%d$%d", typeKey(t), 0, l), lf.S, args[0].L[0]))
		}
		return []Outcome{{st, []Val{v}}}, true
	case "cvProof":
		return ret(x.evalBool(st, fr, args[0].meta(0).(*Closure), nil, pos)), true
	case "cvConcrete":
		return ret(c.True), true
	case "cvThen":
		sn := snapOf(args[0], 0)
		if sn == nil {
			panic(unsupported("cvThen needs a snapshot"))
		}
		v := Val{T: args[1].T, L: args[1].L}
		for _, m := range args[1].M {
			if _, ok := m.(*Snap); !ok {
				v.M = append(v.M, m)
			} else {
				v.M = append(v.M, nil)
			}
		}
		x.tagSnap(&v, sn)
		return []Outcome{{st, []Val{v}}}, true
	case "cvNow":
		v := Val{T: args[0].T, L: args[0].L}
		for _, m := range args[0].M {
			if _, ok := m.(*Snap); ok {
				m = nil
			}
			v.M = append(v.M, m)
		}
		return []Outcome{{st, []Val{v}}}, true
	case "cvForall", "cvExists":
		lo, hi := args[0].L[0], args[1].L[0]
		cl := args[2].meta(0).(*Closure)
		return ret(x.quantRange(st, fr, name == "cvForall", lo, hi, cl, pos)), true
	case "cvForallKey":
		m := args[0]
		mi := x.mapInfo(m.T)
		cl := args[1].meta(0).(*Closure)
		k := c.BoundVar("k", mi.ks)
		v := x.mapVal(st, m, k)
		body := x.evalBool(st, fr, cl, []Val{{T: mi.key, L: []*Term{k}}, v}, pos)
		return ret(c.Quant("forall", []*Term{k}, c.Implies(x.mapHas(st, m, k), body))), true
	case "cvForallRef":
		cl := args[1].meta(0).(*Closure)
		pt := cl.fn.Signature.Params().At(0).Type()
		r := c.BoundVar("r", SInt)
		pv := Val{T: pt, L: []*Term{r}}
		top := st.top
		if s, ok := args[0].meta(1).(*Snap); ok {
			pv.M = []any{s}
			top = s.top
		}
		body := x.evalBool(st, fr, cl, []Val{pv}, pos)
		guard := c.And(c.Lt(c.Int(0), r), c.Lt(r, top))
		if n := x.allocName(pt.Underlying().(*types.Pointer).Elem()); n != "" {
			s, _ := args[0].meta(1).(*Snap)
			in := c.Select(x.heapGet(st, s, n, SBool), r)
			return ret(c.Quant("forall", []*Term{r}, c.Implies(in, body), in)), true
		}
		return ret(c.Quant("forall", []*Term{r}, c.Implies(guard, body))), true
	case "cvSnap":
		v := args[0]
		sn := st.snapshot()
		out := Val{T: v.T, L: v.L, M: v.M}
		x.tagSnap(&out, sn)
		return []Outcome{{st, []Val{out}}}, true
	case "cvOld", "cvPre":
		var sn *Snap
		if name == "cvOld" {
			sn = x.tmplEntry
		} else {
			sn = x.tmplPre
		}
		if sn == nil {
			panic(unsupported("%s outside a loop template", name))
		}
		out := Val{T: args[0].T, L: args[0].L, M: args[0].M}
		x.tagSnap(&out, sn)
		return []Outcome{{st, []Val{out}}}, true
	case "cvEq":
		return ret(x.eqVals(st, args[0], args[1])), true
	case "cvSame":
		return ret(c.Eq(args[0].L[0], args[1].L[0])), true
	case "cvSameSlice":
		a, b := args[0], args[1]
		var idt, elems []*Term
		for l := 0; l < 3; l++ {
			idt = append(idt, c.Eq(a.L[l], b.L[l]))
		}
		id := c.And(idt...)
		i := c.BoundVar("i", SInt)
		ea, eb := x.load(st, x.sliceElemLV(a, i)), x.load(st, x.sliceElemLV(b, i))
		for l := range ea.L {
			elems = append(elems, c.Eq(ea.L[l], eb.L[l]))
		}
		same := c.And(c.Eq(c.Eq(a.L[0], c.Int(0)), c.Eq(b.L[0], c.Int(0))), c.Eq(a.L[2], b.L[2]),
			c.Quant("forall", []*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, a.L[2])), c.And(elems...))))
		return ret(c.Or(id, same)), true
	case "cvKept":
		// the same value, table or sequence by identity
		a, b := args[0], args[1]
		var idt []*Term
		for l := range a.L {
			idt = append(idt, c.Eq(a.L[l], b.L[l]))
		}
		return ret(c.And(idt...)), true
	case "cvSameMap":
		a, b := args[0], args[1]
		mi := x.mapInfo(a.T)
		k := c.BoundVar("k", mi.ks)
		va, vb := x.mapVal(st, a, k), x.mapVal(st, b, k)
		var elems []*Term
		for l := range va.L {
			elems = append(elems, c.Eq(va.L[l], vb.L[l]))
		}
		ha, hb := x.mapHas(st, a, k), x.mapHas(st, b, k)
		same := c.And(c.Eq(c.Eq(a.L[0], c.Int(0)), c.Eq(b.L[0], c.Int(0))),
			c.Quant("forall", []*Term{k}, c.And(c.Eq(ha, hb), c.Implies(ha, c.And(elems...)))))
		return ret(c.Or(c.Eq(a.L[0], b.L[0]), same)), true
	case "cvFresh":
		ci := fr.contract()
		var e *Term
		if ci != nil {
			e = ci.entry.top
		} else {
			e = x.tmplEntry.top
		}
		return ret(c.Le(e, args[0].L[1])), true
	case "cvAllocated":
		r := args[0].L[1]
		return ret(c.And(c.Lt(c.Int(0), r), c.Lt(r, st.top))), true
	case "cvAllocatedList":
		r := args[0].L[0]
		return ret(c.And(c.Le(c.Int(0), r), c.Lt(r, st.top))), true
	case "cvNear":
		return ret(c.Eq(args[0].L[0], args[1].L[0])), true
	case "cvLe":
		return ret(c.Le(args[0].L[0], args[1].L[0])), true
	case "cvImplies":
		return ret(c.Implies(args[0].L[0], args[1].L[0])), true
	case "cvIs":
		t := fn.TypeArgs()[0]
		tag := args[0].L[0]
		if it, ok := t.Underlying().(*types.Interface); ok {
			return ret(c.And(c.Not(c.Eq(tag, c.Int(0))), x.implementsTerm(st, tag, it))), true
		}
		return ret(c.Eq(tag, x.tagOf(t))), true
	case "cvAs":
		t := fn.TypeArgs()[0]
		return []Outcome{{st, []Val{x.unbox(st, args[0], t)}}}, true
	}
	return nil, false
}

// contract finds the contract instance a spec frame belongs to.
func (f *Frame) contract() *contractInst {
	for g := f; g != nil; g = g.parent {
		if g.ci != nil {
			return g.ci
		}
	}
	return nil
}

func (x *Exec) outerSpec(fr *Frame) int {
	// spec depth outside the current contract application
	return x.spec - 1
}

func (x *Exec) evalBool(st *State, fr *Frame, cl *Closure, args []Val, pos token.Pos) *Term {
	return x.evalPure(st, fr, cl, args, pos).L[0]
}

// evalPure evaluates specification code to one value, ignoring its effects.
func (x *Exec) evalPure(st *State, fr *Frame, cl *Closure, args []Val, pos token.Pos) Val {
	if cl.builtin != nil {
		return cl.builtin(x, st, args)[0]
	}
	x.spec++
	defer func() { x.spec-- }()
	x.pure++
	s := st.clone()
	mark := s.pc
	outs := x.callFn(s, fr, cl.fn, args, cl.bindings, pos)
	x.pure--
	if x.pure == 0 {
		for _, a := range x.axioms {
			x.assumeU(st, a)
		}
		x.axioms = nil
	}
	if len(outs) == 0 {
		panic(unsupported("specification code has no value: %s", cl.fn))
	}
	n := len(outs)
	conds := make([]*Term, n)
	var facts, univ []*Term
	for i, o := range outs {
		var cs, fs []*Term
		for p := o.st.pc; p != nil && p != mark; p = p.parent {
			if p.univ {
				univ = append(univ, p.t)
			} else if p.cond {
				cs = append(cs, p.t)
			} else {
				fs = append(fs, p.t)
			}
		}
		conds[i] = x.c.And(cs...)
		for _, f := range fs {
			facts = append(facts, x.c.Implies(conds[i], f))
		}
	}
	for i := len(univ) - 1; i >= 0; i-- {
		if !univ[i].HasBV {
			x.assumeU(st, univ[i])
		} else {
			x.bvFacts = append(x.bvFacts, univ[i])
		}
	}
	for i := len(facts) - 1; i >= 0; i-- {
		if !facts[i].HasBV {
			x.assume(st, facts[i], false, true)
		} else {
			x.bvFacts = append(x.bvFacts, facts[i])
		}
	}
	v := Val{T: outs[n-1].ret[0].T, M: outs[n-1].ret[0].M}
	for l := range outs[n-1].ret[0].L {
		t := outs[n-1].ret[0].L[l]
		for k := n - 2; k >= 0; k-- {
			t = x.c.Ite(conds[k], outs[k].ret[0].L[l], t)
		}
		v.L = append(v.L, t)
	}
	return v
}

// quantRange builds a bounded quantifier. The bound variable is shifted so that
// array reads of a slice element are a plain select on the bound variable.
func (x *Exec) quantRange(st *State, fr *Frame, all bool, lo, hi *Term, cl *Closure, pos token.Pos) *Term {
	c := x.c
	// constant small ranges are expanded
	if lo.IsNum() && hi.IsNum() {
		n := hi.Rat.Num().Int64() - lo.Rat.Num().Int64()
		if n <= 0 {
			return c.Bool(all)
		}
		if n <= 24 {
			var ts []*Term
			for i := lo.Rat.Num().Int64(); i < hi.Rat.Num().Int64(); i++ {
				ts = append(ts, x.evalBool(st, fr, cl, []Val{{T: types.Typ[types.Int], L: []*Term{c.Int(i)}}}, pos))
			}
			if all {
				return c.And(ts...)
			}
			return c.Or(ts...)
		}
	}
	i := c.BoundVar("i", SInt)
	nb := len(x.bvFacts)
	body := x.evalBool(st, fr, cl, []Val{{T: types.Typ[types.Int], L: []*Term{i}}}, pos)
	facts := append([]*Term{}, x.bvFacts[nb:]...)
	x.bvFacts = x.bvFacts[:nb]
	guard := c.And(c.Le(lo, i), c.Lt(i, hi))
	// offset shift
	off := x.commonOffset(body, i)
	if off != nil {
		j := c.BoundVar("j", SInt)
		m := map[int]*Term{i.ID: c.Sub(j, off)}
		body = c.Subst(body, m)
		guard = c.Subst(guard, m)
		for k := range facts {
			facts[k] = c.Subst(facts[k], m)
		}
		i = j
	}
	for _, f := range facts {
		// keep only facts about this variable; they hold of every index
		if f.bvs[i.ID] && len(f.bvs) == 1 && !guard.hasOtherBV(i) {
			q := c.Quant("forall", []*Term{i}, c.Implies(guard, f))
			if !q.HasBV {
				x.assume(st, q, false, true)
			}
		}
	}
	if all {
		return c.Quant("forall", []*Term{i}, c.Implies(guard, body))
	}
	return c.Quant("exists", []*Term{i}, c.And(guard, body))
}

func (t *Term) hasOtherBV(v *Term) bool {
	for id := range t.bvs {
		if id != v.ID {
			return true
		}
	}
	return false
}

// commonOffset finds off such that reads use index i+off.
func (x *Exec) commonOffset(body, i *Term) *Term {
	var off *Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] || !t.bvs[i.ID] || off != nil {
			return
		}
		seen[t.ID] = true
		if t.Op == "select" {
			ix := t.Args[1]
			if ix.Op == "+" && ix.bvs[i.ID] {
				d := x.c.Sub(ix, i)
				if !d.bvs[i.ID] {
					off = d
					return
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	return off
}

// ---------------------------------------------------------------- recursive specification functions

type recInfo struct {
	foot []footEntry
}

type footEntry struct {
	name string
	leaf int // index of the parameter leaf the array is read at, or -1
	sort *Sort
}

func (x *Exec) recApp(st *State, fn *ssa.Function, args []Val) []Val {
	prefix := "rec$"
	var info *recInfo
	if x.recProbe > 0 {
		prefix = "recprobe$"
		info = &recInfo{}
	} else {
		info = x.recFoot(fn)
	}
	var snap *Snap
	var leaves []*Term
	var targs []Val
	var leafSnap []*Snap
	for _, a := range args {
		var own *Snap
		for _, m := range a.M {
			if s, ok := m.(*Snap); ok {
				own = s
				snap = s
			}
		}
		targs = append(targs, a)
		leaves = append(leaves, a.L...)
		for range a.L {
			leafSnap = append(leafSnap, own)
		}
	}
	appArgs := append([]*Term{}, leaves...)
	for _, f := range info.foot {
		if f.leaf >= 0 {
			// memory read at a parameter is read in the memory of that argument
			appArgs = append(appArgs, x.c.Select(x.heapGet(st, leafSnap[f.leaf], f.name, f.sort), leaves[f.leaf]))
		} else {
			arr := x.heapGet(st, snap, f.name, f.sort)
			appArgs = append(appArgs, arr)
		}
	}
	res := fn.Signature.Results()
	var rets []Val
	hasBV := false
	for _, a := range appArgs {
		if a.HasBV {
			hasBV = true
		}
	}
	for i := 0; i < res.Len(); i++ {
		v := Val{T: res.At(i).Type()}
		for k, lf := range x.lay.Of(v.T) {
			v.L = append(v.L, x.c.App(fmt.Sprintf("%s%s$%d$%d", prefix, fn.Name(), i, k), lf.S, appArgs...))
		}
		x.tagSnap(&v, snap)
		rets = append(rets, v)
	}
	if hasBV || x.recProbe > 0 {
		x.recEdges = append(x.recEdges, recEdge{fn, leaves})
		if x.recProbe == 0 && x.recDepth < 1 && x.con != nil && x.con.Under {
			x.unfoldUnder(st, fn, rets, targs)
		}
		return rets
	}
	key := fmt.Sprintf("%d", rets[0].L[0].ID)
	if x.unfolded[key] != nil {
		// re-assert: the fact may live on another path
		for _, f := range x.unfolded[key] {
			x.assumeU(st, f)
		}
		return rets
	}
	if x.recDepth >= 2 {
		return rets
	}
	x.recDepth++
	// evaluate under a neutral path so that the equation is valid everywhere
	ns := st.clone()
	ns.pc = nil
	body := x.evalPure(ns, &Frame{fn: fn, parent: x.curFrame}, &Closure{fn: fn}, targs, token.NoPos)
	x.recDepth--
	for k := range rets[0].L {
		x.assume(ns, x.c.Eq(rets[0].L[k], body.L[k]), false, false)
	}
	fs := ns.pcTerms()
	for n, t := range ns.heap {
		if _, ok := st.heap[n]; !ok {
			st.heap[n] = t
		}
	}
	if snap == nil || true {
		x.unfolded[key] = fs
	}
	for _, f := range fs {
		x.assumeU(st, f)
	}
	return rets
}

// unfoldUnder states the defining equation of an application that stands under
// a quantifier, for all values of the bound variables.
func (x *Exec) unfoldUnder(st *State, fn *ssa.Function, rets, targs []Val) {
	ids := map[int]bool{}
	for _, r := range rets {
		for _, l := range r.L {
			for id := range l.bvs {
				ids[id] = true
			}
		}
	}
	var vars []*Term
	for _, id := range sortedInts(ids) {
		v := x.c.bvOf(id)
		if v == nil {
			return
		}
		vars = append(vars, v)
	}
	key := "bv" + fmt.Sprint(rets[0].L[0].ID)
	if x.unfolded[key] != nil {
		for _, f := range x.unfolded[key] {
			x.axioms = append(x.axioms, f)
		}
		return
	}
	x.recDepth++
	ns := st.clone()
	ns.pc = nil
	saved := x.bvFacts
	body := x.evalPure(ns, &Frame{fn: fn, parent: x.curFrame}, &Closure{fn: fn}, targs, token.NoPos)
	x.bvFacts = saved
	x.recDepth--
	var fs []*Term
	for k := range rets[0].L {
		if rets[0].L[k] == body.L[k] {
			continue
		}
		ok := true
		for id := range body.L[k].bvs {
			if !ids[id] {
				ok = false
			}
		}
		if ok {
			fs = append(fs, x.c.Quant("forall", vars, x.c.Eq(rets[0].L[k], body.L[k]), rets[0].L[k]))
		}
	}
	for n, t := range ns.heap {
		if _, ok := st.heap[n]; !ok {
			st.heap[n] = t
		}
	}
	x.unfolded[key] = append([]*Term{x.c.True}, fs...)
	x.axioms = append(x.axioms, fs...)
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for i := range m {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

type recEdge struct {
	fn     *ssa.Function
	leaves []*Term
}

// recFoot computes which memory a recursive specification function depends on.
func (x *Exec) recFoot(fn *ssa.Function) *recInfo {
	if r, ok := x.recMemo[fn]; ok {
		return r
	}
	// direct reads and edges of every reachable rec function
	type node struct {
		direct map[string]footEntry
		edges  []recEdge
		params map[int]int // term id -> leaf
	}
	nodes := map[*ssa.Function]*node{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if nodes[f] != nil {
			return
		}
		nd := &node{direct: map[string]footEntry{}, params: map[int]int{}}
		nodes[f] = nd
		x.recMemo[f] = &recInfo{} // provisional: nested applications carry no memory
		var args []Val
		li := 0
		for _, p := range f.Params {
			v := Val{T: p.Type()}
			for _, lf := range x.lay.Of(p.Type()) {
				t := x.c.Const(fmt.Sprintf("recp!%s!%d", f.Name(), li), lf.S)
				nd.params[t.ID] = li
				li++
				v.L = append(v.L, t)
			}
			args = append(args, v)
		}
		st := &State{heap: map[string]*Term{}, cells: map[*Cell]Val{}, top: x.c.Const("recp!top", SInt)}
		savedEdges := x.recEdges
		savedBV := x.bvFacts
		x.recEdges = nil
		x.recProbe++
		v := x.evalPure(st, &Frame{fn: f}, &Closure{fn: f}, args, token.NoPos)
		x.recProbe--
		edges := x.recEdges
		x.recEdges = savedEdges
		x.bvFacts = savedBV
		nd.edges = edges
		// find array reads in the value
		arrs := map[string]*Sort{}
		terms := append([]*Term{}, v.L...)
		for _, e := range edges {
			terms = append(terms, e.leaves...)
		}
		seen := map[int]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t.ID] {
				return
			}
			seen[t.ID] = true
			if t.Op == "select" && t.Args[0].Op == "const" && strings.HasPrefix(t.Args[0].Name, "H0!") {
				n := ""
				for hn := range x.heapSort {
					if sanitize("H0!"+hn) == t.Args[0].Name {
						n = hn
					}
				}
				arrs[n] = t.Args[0].S.Rng
				leaf := -1
				if l, ok := nd.params[t.Args[1].ID]; ok {
					leaf = l
				}
				x.addFoot(nd.direct, n, leaf, t.Args[0].S.Rng)
				rec(t.Args[1])
				return
			}
			if t.Op == "const" && strings.HasPrefix(t.Name, "H0!") {
				for hn, s := range x.heapSort {
					if sanitize("H0!"+hn) == t.Name {
						x.addFoot(nd.direct, hn, -1, s)
					}
				}
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		for _, t := range terms {
			rec(t)
		}
		for _, e := range edges {
			visit(e.fn)
		}
	}
	visit(fn)
	// closure
	for ch := true; ch; {
		ch = false
		for _, nd := range nodes {
			for _, e := range nd.edges {
				cal := nodes[e.fn]
				if cal == nil {
					continue
				}
				for _, fe := range sortedFoot(cal.direct) {
					leaf := -1
					if fe.leaf >= 0 {
						if l, ok := nd.params[e.leaves[fe.leaf].ID]; ok {
							leaf = l
						}
					}
					if x.addFoot(nd.direct, fe.name, leaf, fe.sort) {
						ch = true
					}
				}
			}
		}
	}
	for f, nd := range nodes {
		x.recMemo[f] = &recInfo{foot: sortedFoot(nd.direct)}
	}
	return x.recMemo[fn]
}

func sortedFoot(m map[string]footEntry) []footEntry {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []footEntry
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

// addFoot notes that memory n is read: at parameter leaf, or anywhere (-1).
func (x *Exec) addFoot(m map[string]footEntry, n string, leaf int, s *Sort) bool {
	if _, ok := m[n]; ok {
		return false // read anywhere
	}
	k := n
	if leaf >= 0 {
		k = fmt.Sprintf("%s@%04d", n, leaf)
		if _, ok := m[k]; ok {
			return false
		}
	} else {
		for o, e := range m {
			if e.name == n {
				delete(m, o)
			}
		}
	}
	m[k] = footEntry{n, leaf, s}
	return true
}
