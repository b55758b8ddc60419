package main

// state.go: values, lvalues, heap and path state.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: one SMT term per leaf of its type, plus optional
// meta information (interior pointers, closures, snapshot tags).
type Val struct {
	T types.Type
	L []*Term
	M []any
}

func (v Val) meta(i int) any {
	if i < len(v.M) {
		return v.M[i]
	}
	return nil
}

func (v Val) sub(t types.Type, off, n int) Val {
	r := Val{T: t, L: v.L[off : off+n]}
	if v.M != nil {
		r.M = v.M[off : off+n]
	}
	return r
}

func (v Val) hasMeta() bool {
	for _, m := range v.M {
		if m != nil {
			return true
		}
	}
	return false
}

func catVals(t types.Type, vs ...Val) Val {
	r := Val{T: t}
	for _, v := range vs {
		if v.hasMeta() {
			for len(r.M) < len(r.L) {
				r.M = append(r.M, nil)
			}
			r.M = append(r.M, v.M...)
		}
		r.L = append(r.L, v.L...)
	}
	if r.M != nil {
		for len(r.M) < len(r.L) {
			r.M = append(r.M, nil)
		}
	}
	return r
}

// Cell is a local (non-heap) variable or a package-level variable.
type Cell struct {
	id     int
	T      types.Type
	global *ssa.Global
	name   string
}

// LV is an lvalue: an interior pointer known at verification time.
type LV struct {
	cell  *Cell
	off   int      // leaf offset in the cell
	names []string // heap array names, one per leaf of T (heap case)
	ref   *Term
	idx   []*Term
	T     types.Type
	snap  *Snap
}

// Closure is a known function value.
type Closure struct {
	fn       *ssa.Function
	bindings []Val
	builtin  func(x *Exec, st *State, args []Val) []Val
}

// Snap is a frozen memory.
type Snap struct {
	heap   map[string]*Term
	epochs []epoch
	cells  map[*Cell]Val
	top    *Term
}

type epoch struct {
	id  int
	pat string
}

func matchPat(pat, name string) bool {
	if pat == "*" {
		return true
	}
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(name, pat[:len(pat)-1])
	}
	if pat == name {
		return true
	}
	// "Score.Events" also covers its leaves "Score.Events.ref" etc.
	return strings.HasPrefix(name, pat+".") || strings.HasPrefix(name, pat+"[]") || strings.HasPrefix(name, pat+"#")
}

// PC is a persistent list of path facts.
type PC struct {
	parent *PC
	t      *Term
	cond   bool // branch condition (as opposed to a definitional fact)
	rng    bool // range fact
	univ   bool // holds whatever the path
	n      int
}

type iterState struct {
	mapv    Val
	visited *Term
}

// State is a path state.
type State struct {
	pc     *PC
	heap   map[string]*Term
	epochs []epoch
	top    *Term
	cells  map[*Cell]Val
	iters  map[ssa.Value]*iterState
	known  map[int]bool // ids of terms already asserted (for dedupe)
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, epochs: s.epochs, top: s.top}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	if len(s.iters) > 0 {
		n.iters = make(map[ssa.Value]*iterState, len(s.iters))
		for k, v := range s.iters {
			c := *v
			n.iters[k] = &c
		}
	}
	return n
}

func (s *State) pcTerms() []*Term {
	var r []*Term
	for p := s.pc; p != nil; p = p.parent {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) snapshot() *Snap {
	c := s.clone()
	return &Snap{heap: c.heap, epochs: c.epochs, cells: c.cells, top: c.top}
}

func (x *Exec) assume(st *State, t *Term, cond, rng bool) {
	if t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			x.assume(st, a, cond, rng)
		}
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
		// cheap dedupe on recent entries
		i := 0
		for p := st.pc; p != nil && i < 400; p = p.parent {
			if p.t == t {
				return
			}
			i++
		}
	}
	st.pc = &PC{parent: st.pc, t: t, cond: cond, rng: rng, n: n + 1}
}

// assumeU assumes a fact that holds whatever path is taken (a definition, or an
// invariant of the memory model).
func (x *Exec) assumeU(st *State, t *Term) {
	p := st.pc
	x.assume(st, t, false, true)
	for q := st.pc; q != nil && q != p; q = q.parent {
		q.univ = true
	}
}

// pcHas: does pc syntactically contain t?
func (s *State) pcHas(t *Term) bool {
	for p := s.pc; p != nil; p = p.parent {
		if p.t == t {
			return true
		}
	}
	return false
}

// knownConst returns the numeric constant a term is known to equal on this path.
func (x *Exec) knownConst(s *State, t *Term) (*Term, bool) {
	if t.IsConst() {
		return t, true
	}
	for p := s.pc; p != nil; p = p.parent {
		if p.t.Op == "=" {
			if p.t.Args[0] == t && p.t.Args[1].IsConst() {
				return p.t.Args[1], true
			}
			if p.t.Args[1] == t && p.t.Args[0].IsConst() {
				return p.t.Args[0], true
			}
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- memory

func (x *Exec) heapGet(st *State, snap *Snap, name string, leaf *Sort) *Term {
	heap, epochs := st.heap, st.epochs
	if snap != nil {
		heap, epochs = snap.heap, snap.epochs
	}
	if t, ok := heap[name]; ok {
		return t
	}
	id := 0
	for _, e := range epochs {
		if matchPat(e.pat, name) {
			id = e.id
		}
	}
	t := x.c.Const(fmt.Sprintf("H%d!%s", id, name), x.c.ArraySort(SInt, leaf))
	heap[name] = t
	x.heapSort[name] = leaf
	x.heapReads[name] = true
	return t
}

// objNames returns the heap array names for a pointee type.
func (x *Exec) objNames(t types.Type) []string {
	if n, ok := x.objNamesMemo[t]; ok {
		return n
	}
	var names []string
	if a, ok := t.Underlying().(*types.Array); ok {
		if _, named := t.(*types.Named); !named || true {
			k := "[]" + typeKey(a.Elem())
			for _, lf := range x.lay.Of(t) {
				names = append(names, k+strings.TrimPrefix(lf.Path, "[]"))
			}
		}
	} else {
		k := typeKey(t)
		for _, lf := range x.lay.Of(t) {
			names = append(names, k+lf.Path)
		}
	}
	x.objNamesMemo[t] = names
	return names
}

// derefLV turns a pointer value into an lvalue of its pointee.
func (x *Exec) derefLV(v Val) *LV {
	if lv, ok := v.meta(0).(*LV); ok {
		return lv
	}
	pt := v.T.Underlying().(*types.Pointer).Elem()
	lv := &LV{names: x.objNames(pt), ref: v.L[0], T: pt}
	if s, ok := v.meta(0).(*Snap); ok {
		lv.snap = s
	}
	return lv
}

func (x *Exec) lvPtr(lv *LV) Val {
	return Val{T: types.NewPointer(lv.T), L: []*Term{x.lvTerm(lv)}, M: []any{lv}}
}

// lvTerm gives interior pointers a (non-nil) identity term.
func (x *Exec) lvTerm(lv *LV) *Term {
	if lv.cell == nil && len(lv.idx) == 0 && len(lv.names) == len(x.objNames(lv.T)) && len(lv.names) > 0 && lv.names[0] == x.objNames(lv.T)[0] {
		return lv.ref
	}
	return x.c.Const(fmt.Sprintf("interior!%p", lv), SInt)
}

func (x *Exec) fieldLV(lv *LV, i int) *LV {
	off, n := x.lay.FieldRange(lv.T, i)
	ft := lv.T.Underlying().(*types.Struct).Field(i).Type()
	r := &LV{cell: lv.cell, off: lv.off + off, ref: lv.ref, idx: lv.idx, T: ft, snap: lv.snap}
	if lv.cell == nil {
		r.names = lv.names[off : off+n]
	}
	return r
}

func (x *Exec) indexLV(lv *LV, i *Term) *LV {
	et := lv.T.Underlying().(*types.Array).Elem()
	idx := append(append([]*Term{}, lv.idx...), i)
	return &LV{cell: lv.cell, off: lv.off, names: lv.names, ref: lv.ref, idx: idx, T: et, snap: lv.snap}
}

func (x *Exec) initCell(st *State, c *Cell) Val {
	var v Val
	if c.global != nil {
		v = x.globalInit(st, c)
	} else {
		v = x.zero(c.T)
	}
	st.cells[c] = v
	return v
}

func (x *Exec) cellGet(st *State, snap *Snap, c *Cell) Val {
	if snap != nil {
		if v, ok := snap.cells[c]; ok {
			return v
		}
	}
	if v, ok := st.cells[c]; ok {
		return v
	}
	return x.initCell(st, c)
}

func (x *Exec) load(st *State, lv *LV) Val {
	leaves := x.lay.Of(lv.T)
	if lv.cell != nil {
		cv := x.cellGet(st, lv.snap, lv.cell)
		v := cv.sub(lv.T, lv.off, len(leaves))
		if len(lv.idx) > 0 {
			out := Val{T: lv.T}
			for _, t := range v.L {
				for _, i := range lv.idx {
					t = x.c.Select(t, i)
				}
				out.L = append(out.L, t)
			}
			x.tagSnap(&out, lv.snap)
			return out
		}
		out := Val{T: lv.T, L: append([]*Term{}, v.L...)}
		if v.M != nil {
			out.M = append([]any{}, v.M...)
		}
		x.tagSnap(&out, lv.snap)
		return out
	}
	out := Val{T: lv.T}
	for k, lf := range leaves {
		s := lf.S
		for range lv.idx {
			s = x.c.ArraySort(SInt, s)
		}
		arr := x.heapGet(st, lv.snap, lv.names[k], s)
		t := x.c.Select(arr, lv.ref)
		for _, i := range lv.idx {
			t = x.c.Select(t, i)
		}
		out.L = append(out.L, t)
	}
	top := st.top
	if lv.snap != nil {
		top = lv.snap.top
	}
	x.rangeFacts(st, out, top)
	if lv.snap != nil {
		for k, lf := range leaves {
			if lf.Kind == "ref" {
				x.allocFact(st, lv.snap, lf.T, out.L[k])
			}
		}
	}
	x.nonnilFacts(st, out, true)
	x.tagSnap(&out, lv.snap)
	return out
}

// nonnilFacts assumes that stored values of the declared interface types are
// not nil (top: also v itself, not only what it contains).
func (x *Exec) nonnilFacts(st *State, v Val, top bool) {
	if len(x.prog.nonnil) == 0 {
		return
	}
	for i, lf := range x.lay.Of(v.T) {
		if lf.Kind != "i.tag" || !top && lf.Path == ".tag" || v.L[i].IsConst() || v.L[i].HasBV || v.L[i].S.Name != "Int" {
			continue
		}
		nt, ok := lf.T.(*types.Named)
		if !ok || nt.Obj().Pkg() == nil || !x.prog.nonnil[nt.Obj().Pkg().Path()+"."+nt.Obj().Name()] {
			continue
		}
		x.trusted["stored "+nt.Obj().Name()+" values (fields, list elements) are never nil"] = true
		x.assume(st, x.c.Lt(x.c.Int(0), v.L[i]), false, true)
	}
}

func (x *Exec) tagSnap(v *Val, s *Snap) {
	if s == nil {
		return
	}
	leaves := x.lay.Of(v.T)
	if v.M == nil {
		v.M = make([]any, len(v.L))
	} else {
		v.M = append([]any{}, v.M...)
	}
	for i, lf := range leaves {
		switch lf.Kind {
		case "ref", "s.ref", "i.val", "map":
			if v.M[i] == nil {
				v.M[i] = s
			} else if lv, ok := v.M[i].(*LV); ok && lv.snap == nil {
				n := *lv
				n.snap = s
				v.M[i] = &n
			}
		}
	}
}

// refAxiom assumes that all references in an array are allocated (t: a read of
// it under quantifiers).
func (x *Exec) refAxiom(st *State, t, top *Term) {
	c := x.c
	switch t.Op {
	case "ite":
		x.refAxiom(st, t.Args[1], top)
		x.refAxiom(st, t.Args[2], top)
	case "select":
		if top.HasBV {
			return
		}
		var vars []*Term
		var gen func(u *Term) *Term
		gen = func(u *Term) *Term {
			if !u.HasBV {
				return u
			}
			if u.Op != "select" {
				return nil
			}
			a := gen(u.Args[0])
			if a == nil {
				return nil
			}
			v := c.axVar(len(vars), u.Args[1].S)
			vars = append(vars, v)
			return c.Select(a, v)
		}
		if t = gen(t); t == nil || t.Op != "select" {
			return
		}
		x.axioms = append(x.axioms, c.Quant("forall", vars, c.And(c.Le(c.Int(0), t), c.Lt(t, top)), t))
	}
}

// axVar is the i-th bound variable of axioms, so that equal axioms are one term.
func (c *Ctx) axVar(i int, s *Sort) *Term {
	return c.mk("bv", fmt.Sprintf("ax?%d?%s", i, sanitize(s.String())), s, nil, nil)
}

// rangeFacts assumes memory-model invariants of loaded/unknown values.
func (x *Exec) rangeFacts(st *State, v Val, top *Term) {
	leaves := x.lay.Of(v.T)
	z := x.c.Int(0)
	add := func(t *Term) {
		if t.HasBV {
			return
		}
		x.assumeU(st, t)
	}
	for i, lf := range leaves {
		t := v.L[i]
		if t.IsConst() || t.S.Name == "Array" {
			continue
		}
		if t.HasBV {
			switch lf.Kind {
			case "s.ref":
				x.refAxiom(st, t, top)
			}
			continue
		}
		switch lf.Kind {
		case "ref", "map", "s.ref":
			add(x.c.Le(z, t))
			add(x.c.Lt(t, top))
			if lf.Kind == "ref" {
				x.allocFact(st, nil, lf.T, t)
			}
		case "i.val":
			// pointer payloads are references
			add(x.c.Lt(t, top))
		case "i.tag":
			add(x.c.Le(z, t))
		case "s.off":
			add(x.c.Le(z, t))
		case "s.len":
			add(x.c.Le(z, t))
			// nil slice
			add(x.c.Implies(x.c.Eq(v.L[i-2], z), x.c.Eq(t, z)))
		case "s.cap":
			add(x.c.Le(v.L[i-1], t))
		case "val":
			if b, ok := lf.T.Underlying().(*types.Basic); ok {
				if lo, hi, ok := intRange(b); ok {
					add(x.c.Le(x.c.Num(lo, SInt), t))
					add(x.c.Le(t, x.c.Num(hi, SInt)))
				}
			}
		}
	}
}

func (x *Exec) store(st *State, lv *LV, v Val) {
	if lv.snap != nil {
		panic(unsupported("store through snapshot"))
	}
	leaves := x.lay.Of(lv.T)
	if lv.cell != nil {
		cv := x.cellGet(st, nil, lv.cell)
		nv := Val{T: cv.T, L: append([]*Term{}, cv.L...)}
		if cv.M != nil {
			nv.M = append([]any{}, cv.M...)
		}
		for k := range leaves {
			nt := v.L[k]
			if len(lv.idx) > 0 {
				if v.meta(k) != nil {
					if _, isSnap := v.meta(k).(*Snap); !isSnap {
						v = x.demote(st, v)
						nt = v.L[k]
					}
				}
				nt = x.nestedStore(cv.L[lv.off+k], lv.idx, v.L[k])
			} else {
				m := v.meta(k)
				if m != nil && nv.M == nil {
					nv.M = make([]any, len(nv.L))
				}
				if nv.M != nil {
					nv.M[lv.off+k] = m
				}
			}
			nv.L[lv.off+k] = nt
		}
		st.cells[lv.cell] = nv
		x.cellWrites[lv.cell] = true
		return
	}
	v = x.demote(st, v)
	for k, lf := range leaves {
		s := lf.S
		for range lv.idx {
			s = x.c.ArraySort(SInt, s)
		}
		arr := x.heapGet(st, nil, lv.names[k], s)
		old := x.c.Select(arr, lv.ref)
		nt := x.nestedStore(old, lv.idx, v.L[k])
		st.heap[lv.names[k]] = x.c.Store(arr, lv.ref, nt)
	}
}

func (x *Exec) nestedStore(a *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	return x.c.Store(a, idx[0], x.nestedStore(x.c.Select(a, idx[0]), idx[1:], v))
}

// demote makes a value storable in SMT memory (drops snapshot tags is refused,
// promotes cell pointers is unsupported, closures get an id).
func (x *Exec) demote(st *State, v Val) Val {
	if !v.hasMeta() {
		return v
	}
	out := Val{T: v.T, L: append([]*Term{}, v.L...)}
	for i, m := range v.M {
		switch m := m.(type) {
		case nil:
		case *Snap:
			// identity only; contents would be read from the live heap
		case *LV:
			if m.cell != nil {
				out.L[i] = x.promote(st, m)
			} else if t := x.lvTerm(m); t.Op != "const" || !strings.HasPrefix(t.Name, "interior") {
				out.L[i] = t
			} else {
				panic(unsupported("interior pointer escapes to memory"))
			}
		case *Closure:
			id := x.closureID(m)
			out.L[i] = x.c.Int(int64(id))
		default:
			panic(unsupported("meta value %T escapes to memory", m))
		}
	}
	return out
}

func (x *Exec) closureID(c *Closure) int {
	for i, o := range x.closures {
		if o == c {
			return i + 1
		}
	}
	x.closures = append(x.closures, c)
	return len(x.closures)
}

// promote moves a whole cell to the heap.
func (x *Exec) promote(st *State, lv *LV) *Term {
	if lv.off != 0 || len(lv.idx) != 0 || len(x.lay.Of(lv.T)) != len(x.lay.Of(lv.cell.T)) {
		panic(unsupported("interior pointer of a local variable escapes"))
	}
	panic(unsupported("address of local variable %s escapes", lv.cell.name))
}

func (x *Exec) alloc(st *State) *Term {
	r := st.top
	st.top = x.c.Add(st.top, x.c.Int(1))
	return r
}

func (x *Exec) zero(t types.Type) Val {
	v := Val{T: t}
	for _, lf := range x.lay.Of(t) {
		v.L = append(v.L, x.lay.ZeroOfSort(lf.S))
	}
	return v
}

func (x *Exec) freshVal(st *State, base string, t types.Type) Val {
	v := Val{T: t}
	for _, lf := range x.lay.Of(t) {
		v.L = append(v.L, x.c.Fresh(base+lf.Path, lf.S))
	}
	x.rangeFacts(st, v, st.top)
	return v
}

// newObject allocates a zeroed object of type t on the heap.
func (x *Exec) newObject(st *State, t types.Type) Val {
	r := x.alloc(st)
	lv := &LV{names: x.objNames(t), ref: r, T: t}
	z := x.zero(t)
	for k, lf := range x.lay.Of(t) {
		arr := x.heapGet(st, nil, lv.names[k], lf.S)
		st.heap[lv.names[k]] = x.c.Store(arr, r, z.L[k])
	}
	if n := x.allocName(t); n != "" {
		st.heap[n] = x.c.Store(x.heapGet(st, nil, n, SBool), r, x.c.Bool(true))
	}
	return Val{T: types.NewPointer(t), L: []*Term{r}}
}

// allocName names the array that tells which references are objects of a
// tracked struct type ("" if the type is not tracked).
func (x *Exec) allocName(t types.Type) string {
	if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && x.prog.tracked[nt.Obj().Pkg().Path()+"."+nt.Obj().Name()] {
		return "alloc$" + typeKey(t)
	}
	return ""
}

// allocNames lists the arrays of allocated objects of the tracked types.
func (x *Exec) allocNames() []string {
	x.prog.mu.Lock()
	defer x.prog.mu.Unlock()
	if x.prog.allocNames == nil {
		x.prog.allocNames = []string{}
		for _, sp := range x.prog.ssaPkgs {
			for n := range x.prog.tracked {
				if pk, t, ok := strings.Cut(n, sp.Pkg.Path()+"."); ok && pk == "" && !strings.Contains(t, ".") {
					if o := sp.Pkg.Scope().Lookup(t); o != nil {
						x.prog.allocNames = append(x.prog.allocNames, "alloc$"+typeKey(o.Type()))
					}
				}
			}
		}
		sort.Strings(x.prog.allocNames)
	}
	return x.prog.allocNames
}

// allocCovered: does a modifies pattern allow new objects of the type?
func allocCovered(pat, name string) bool {
	t := strings.TrimPrefix(name, "alloc$")
	return matchPat(pat, name) || strings.HasSuffix(pat, "*") && matchPat(pat, t)
}

// allocAxioms: objects lie below the allocation limit, and none is ever lost.
func (x *Exec) allocAxioms(st *State, n string, old, oldTop *Term) {
	c := x.c
	a := x.heapGet(st, nil, n, SBool)
	if a == old {
		return
	}
	r := c.BoundVar("r", SInt)
	x.assumeU(st, c.Quant("forall", []*Term{r}, c.Implies(c.Select(a, r), c.And(c.Lt(c.Int(0), r), c.Lt(r, st.top))), c.Select(a, r)))
	if old == nil {
		return
	}
	r = c.BoundVar("r", SInt)
	x.assumeU(st, c.Quant("forall", []*Term{r}, c.Implies(c.Select(old, r), c.Select(a, r)), c.Select(old, r)))
	r = c.BoundVar("r", SInt)
	x.assumeU(st, c.Quant("forall", []*Term{r}, c.Implies(c.And(c.Select(a, r), c.Lt(r, oldTop)), c.Select(old, r)), c.Select(a, r)))
}

// allocFact: a pointer to a tracked type is nil or one of its objects.
func (x *Exec) allocFact(st *State, snap *Snap, t types.Type, p *Term) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok || p.HasBV || p.IsConst() {
		return
	}
	if n := x.allocName(pt.Elem()); n != "" {
		x.assumeU(st, x.c.Or(x.c.Eq(p, x.c.Int(0)), x.c.Select(x.heapGet(st, snap, n, SBool), p)))
	}
}

// sliceElemLV gives the lvalue of s[i] (i relative to slice start).
func (x *Exec) sliceElemLV(s Val, i *Term) *LV {
	et := s.T.Underlying().(*types.Slice).Elem()
	names := x.sliceNames(et)
	lv := &LV{names: names, ref: s.L[0], idx: []*Term{x.c.Add(s.L[1], i)}, T: et}
	if sn, ok := s.meta(0).(*Snap); ok {
		lv.snap = sn
	}
	return lv
}

func (x *Exec) sliceNames(et types.Type) []string {
	k := "[]" + typeKey(et)
	var names []string
	for _, lf := range x.lay.Of(et) {
		names = append(names, k+lf.Path)
	}
	return names
}

// inner returns the backing array term(s) for a slice value.
func (x *Exec) sliceInner(st *State, s Val) []*Term {
	et := s.T.Underlying().(*types.Slice).Elem()
	names := x.sliceNames(et)
	var snap *Snap
	if sn, ok := s.meta(0).(*Snap); ok {
		snap = sn
	}
	var r []*Term
	for k, lf := range x.lay.Of(et) {
		arr := x.heapGet(st, snap, names[k], x.c.ArraySort(SInt, lf.S))
		r = append(r, x.c.Select(arr, s.L[0]))
	}
	return r
}

func (x *Exec) setSliceInner(st *State, et types.Type, ref *Term, inner []*Term) {
	names := x.sliceNames(et)
	for k, lf := range x.lay.Of(et) {
		arr := x.heapGet(st, nil, names[k], x.c.ArraySort(SInt, lf.S))
		st.heap[names[k]] = x.c.Store(arr, ref, inner[k])
	}
}

// ---------------------------------------------------------------- maps

type mapInfo struct {
	key, elem types.Type
	ks        *Sort
	dom, cnt  string
	vals      []string
	vleaves   []Leaf
}

func (x *Exec) mapInfo(t types.Type) mapInfo {
	m := t.Underlying().(*types.Map)
	kl := x.lay.Of(m.Key())
	if len(kl) != 1 {
		panic(unsupported("map key type %s", m.Key()))
	}
	base := "map[" + typeKey(m.Key()) + "]" + typeKey(m.Elem())
	mi := mapInfo{key: m.Key(), elem: m.Elem(), ks: kl[0].S, dom: base + "$dom", cnt: base + "$len", vleaves: x.lay.Of(m.Elem())}
	for _, lf := range mi.vleaves {
		mi.vals = append(mi.vals, base+"$v"+lf.Path)
	}
	return mi
}

func snapOf(v Val, i int) *Snap {
	if s, ok := v.meta(i).(*Snap); ok {
		return s
	}
	return nil
}

func (x *Exec) mapDom(st *State, m Val) *Term {
	mi := x.mapInfo(m.T)
	arr := x.heapGet(st, snapOf(m, 0), mi.dom, x.c.ArraySort(mi.ks, SBool))
	d := x.c.Select(arr, m.L[0])
	return d
}

func (x *Exec) mapVal(st *State, m Val, k *Term) Val {
	mi := x.mapInfo(m.T)
	out := Val{T: mi.elem}
	for i, lf := range mi.vleaves {
		arr := x.heapGet(st, snapOf(m, 0), mi.vals[i], x.c.ArraySort(mi.ks, lf.S))
		out.L = append(out.L, x.c.Select(x.c.Select(arr, m.L[0]), k))
	}
	x.tagSnap(&out, snapOf(m, 0))
	return out
}

func (x *Exec) mapHas(st *State, m Val, k *Term) *Term {
	has := x.c.Select(x.mapDom(st, m), k)
	return x.c.And(x.c.Not(x.c.Eq(m.L[0], x.c.Int(0))), has)
}

func (x *Exec) mapLen(st *State, m Val) *Term {
	mi := x.mapInfo(m.T)
	arr := x.heapGet(st, snapOf(m, 0), mi.cnt, SInt)
	n := x.c.Select(arr, m.L[0])
	if !n.HasBV && !n.IsConst() {
		x.assume(st, x.c.Le(x.c.Int(0), n), false, true)
		// zero length iff empty domain
		k := x.c.BoundVar("k", mi.ks)
		d := x.mapDom(st, m)
		if !d.HasBV {
			x.assume(st, x.c.Implies(x.c.Eq(n, x.c.Int(0)), x.c.Quant("forall", []*Term{k}, x.c.Not(x.c.Select(d, k)))), false, true)
			w := x.c.App("mapwit$"+mi.dom, mi.ks, d)
			x.assume(st, x.c.Implies(x.c.Gt(n, x.c.Int(0)), x.c.Select(d, w)), false, true)
		}
	}
	return x.c.Ite(x.c.Eq(m.L[0], x.c.Int(0)), x.c.Int(0), n)
}

func (x *Exec) mapSet(st *State, m Val, k *Term, v Val) {
	if snapOf(m, 0) != nil {
		panic(unsupported("map write through snapshot"))
	}
	v = x.demote(st, v)
	mi := x.mapInfo(m.T)
	domArr := x.heapGet(st, nil, mi.dom, x.c.ArraySort(mi.ks, SBool))
	dom := x.c.Select(domArr, m.L[0])
	had := x.c.Select(dom, k)
	st.heap[mi.dom] = x.c.Store(domArr, m.L[0], x.c.Store(dom, k, x.c.True))
	cntArr := x.heapGet(st, nil, mi.cnt, SInt)
	n := x.c.Select(cntArr, m.L[0])
	st.heap[mi.cnt] = x.c.Store(cntArr, m.L[0], x.c.Ite(had, n, x.c.Add(n, x.c.Int(1))))
	for i, lf := range mi.vleaves {
		arr := x.heapGet(st, nil, mi.vals[i], x.c.ArraySort(mi.ks, lf.S))
		in := x.c.Select(arr, m.L[0])
		st.heap[mi.vals[i]] = x.c.Store(arr, m.L[0], x.c.Store(in, k, v.L[i]))
	}
}

func (x *Exec) mapDelete(st *State, m Val, k *Term) {
	mi := x.mapInfo(m.T)
	domArr := x.heapGet(st, nil, mi.dom, x.c.ArraySort(mi.ks, SBool))
	dom := x.c.Select(domArr, m.L[0])
	had := x.c.Select(dom, k)
	st.heap[mi.dom] = x.c.Store(domArr, m.L[0], x.c.Store(dom, k, x.c.False))
	cntArr := x.heapGet(st, nil, mi.cnt, SInt)
	n := x.c.Select(cntArr, m.L[0])
	st.heap[mi.cnt] = x.c.Store(cntArr, m.L[0], x.c.Ite(had, x.c.Sub(n, x.c.Int(1)), n))
}

func (x *Exec) newMap(st *State, t types.Type) Val {
	mi := x.mapInfo(t)
	r := x.alloc(st)
	ds := x.c.ArraySort(mi.ks, SBool)
	st.heap[mi.dom] = x.c.Store(x.heapGet(st, nil, mi.dom, ds), r, x.c.ConstArr(ds, x.c.False))
	st.heap[mi.cnt] = x.c.Store(x.heapGet(st, nil, mi.cnt, SInt), r, x.c.Int(0))
	for i, lf := range mi.vleaves {
		vs := x.c.ArraySort(mi.ks, lf.S)
		st.heap[mi.vals[i]] = x.c.Store(x.heapGet(st, nil, mi.vals[i], vs), r, x.c.ConstArr(vs, x.lay.ZeroOfSort(lf.S)))
	}
	return Val{T: t, L: []*Term{r}}
}

// ---------------------------------------------------------------- interfaces

func (x *Exec) tagOf(t types.Type) *Term {
	return x.c.Int(int64(x.prog.tagID(t)))
}

func singleIntRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (x *Exec) makeInterface(st *State, v Val, it types.Type) Val {
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return Val{T: it, L: v.L, M: v.M}
	}
	tag := x.tagOf(v.T)
	if singleIntRef(v.T) {
		v2 := v
		var m any = v.meta(0)
		if _, isLV := m.(*LV); isLV {
			// keep the meta: a known interior pointer boxed in an interface
			return Val{T: it, L: []*Term{tag, v.L[0]}, M: []any{nil, m}}
		}
		r := Val{T: it, L: []*Term{tag, v2.L[0]}}
		if m != nil {
			r.M = []any{nil, m}
		}
		return r
	}
	if v.hasMeta() {
		// keep whole value as meta when it cannot be demoted
		keep := false
		for _, m := range v.M {
			switch m.(type) {
			case *LV, *Closure:
				keep = true
			case *Snap:
				keep = true
			}
		}
		if keep {
			return Val{T: it, L: []*Term{tag, x.c.Fresh("boxmeta", SInt)}, M: []any{nil, &boxedMeta{v}}}
		}
		v = x.demote(st, v)
	}
	return Val{T: it, L: []*Term{tag, x.box(v)}}
}

type boxedMeta struct{ v Val }

func (x *Exec) box(v Val) *Term {
	if len(v.L) == 0 {
		return x.c.App("box$"+typeKey(v.T), SInt)
	}
	// box(unbox_i(p)...) = p
	if v.L[0].Op == "app" && strings.HasPrefix(v.L[0].Name, "unbox$"+typeKey(v.T)+"$") {
		p := v.L[0].Args[0]
		all := true
		for i, t := range v.L {
			if t.Op != "app" || t.Name != fmt.Sprintf("unbox$%s$%d", typeKey(v.T), i) || t.Args[0] != p {
				all = false
				break
			}
		}
		if all {
			return p
		}
	}
	return x.c.App("box$"+typeKey(v.T), SInt, v.L...)
}

// unbox extracts the dynamic value of type t from an interface payload.
func (x *Exec) unbox(st *State, iv Val, t types.Type) Val {
	if bm, ok := iv.meta(1).(*boxedMeta); ok && types.Identical(bm.v.T, t) {
		return bm.v
	}
	p := iv.L[1]
	if singleIntRef(t) {
		r := Val{T: t, L: []*Term{p}}
		if m := iv.meta(1); m != nil {
			r.M = []any{m}
		}
		if !p.HasBV {
			// a pointer value: within the allocated range (assumed of memory)
		}
		return r
	}
	out := Val{T: t}
	key := typeKey(t)
	for i, lf := range x.lay.Of(t) {
		out.L = append(out.L, x.unboxLeaf(p, key, i, lf.S))
	}
	x.rangeFacts(st, out, st.top)
	x.nonnilFacts(st, out, false)
	x.tagSnap(&out, snapOf(iv, 1))
	return out
}

func (x *Exec) unboxLeaf(p *Term, key string, i int, s *Sort) *Term {
	if p.Op == "app" && p.Name == "box$"+key {
		return p.Args[i]
	}
	if p.Op == "ite" {
		a := x.unboxLeaf(p.Args[1], key, i, s)
		b := x.unboxLeaf(p.Args[2], key, i, s)
		return x.c.Ite(p.Args[0], a, b)
	}
	return x.c.App(fmt.Sprintf("unbox$%s$%d", key, i), s, p)
}
