package main

// models.go: Go builtins and models of external (trusted) functions.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cm *ssa.CallCommon, in ssa.Instruction, pos token.Pos) []Outcome {
	c := x.c
	one := func(v Val) []Outcome { return []Outcome{{st, []Val{v}}} }
	intv := func(t *Term) []Outcome { return one(Val{T: types.Typ[types.Int], L: []*Term{t}}) }
	switch b.Name() {
	case "len":
		v := x.val(fr, cm.Args[0])
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return intv(v.L[2])
		case *types.Map:
			return intv(x.mapLen(st, v))
		case *types.Basic:
			return intv(x.strLen(v.L[0]))
		case *types.Array:
			return intv(c.Int(u.Len()))
		case *types.Pointer:
			return intv(c.Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		v := x.val(fr, cm.Args[0])
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			return intv(v.L[3])
		}
	case "append":
		s := x.val(fr, cm.Args[0])
		if len(cm.Args) == 1 {
			return one(s)
		}
		e := x.val(fr, cm.Args[1])
		return one(x.appendSlice(st, s, e))
	case "copy":
		d := x.val(fr, cm.Args[0])
		s := x.val(fr, cm.Args[1])
		if _, ok := s.T.Underlying().(*types.Slice); !ok {
			panic(unsupported("copy from string"))
		}
		n := c.Ite(c.Le(d.L[2], s.L[2]), d.L[2], s.L[2])
		et := d.T.Underlying().(*types.Slice).Elem()
		di, si := x.sliceInner(st, d), x.sliceInner(st, s)
		out := make([]*Term, len(di))
		for k := range di {
			out[k] = x.arrayCopy(st, di[k], d.L[1], si[k], s.L[1], n)
		}
		x.setSliceInner(st, et, d.L[0], out)
		return intv(n)
	case "delete":
		m := x.val(fr, cm.Args[0])
		k := x.val(fr, cm.Args[1])
		x.mapDelete(st, m, k.L[0])
		return []Outcome{{st, nil}}
	case "print", "println":
		return []Outcome{{st, nil}}
	case "min", "max":
		a := x.val(fr, cm.Args[0])
		for _, o := range cm.Args[1:] {
			w := x.val(fr, o)
			if b.Name() == "min" {
				a = Val{T: a.T, L: []*Term{c.Ite(c.Le(a.L[0], w.L[0]), a.L[0], w.L[0])}}
			} else {
				a = Val{T: a.T, L: []*Term{c.Ite(c.Le(w.L[0], a.L[0]), a.L[0], w.L[0])}}
			}
		}
		return one(a)
	case "ssa:wrapnilchk":
		return one(x.val(fr, cm.Args[0]))
	}
	panic(unsupported("builtin %s", b.Name()))
}

// arrayCopy: a' = a with n elements from s[so..] written at do.
func (x *Exec) arrayCopy(st *State, a, do, s, so, n *Term) *Term {
	c := x.c
	if n.IsNum() {
		k := n.Rat.Num().Int64()
		if k <= 16 {
			r := a
			for i := int64(0); i < k; i++ {
				r = c.Store(r, c.Add(do, c.Int(i)), c.Select(s, c.Add(so, c.Int(i))))
			}
			return r
		}
	}
	r := c.Fresh("acopy", a.S)
	j := c.BoundVar("j", SInt)
	in := c.And(c.Le(do, j), c.Lt(j, c.Add(do, n)))
	x.assume(st, c.Quant("forall", []*Term{j}, c.Implies(in, c.Eq(c.Select(r, j), c.Select(s, c.Add(c.Sub(j, do), so)))), c.Select(r, j)), false, false)
	x.assume(st, c.Quant("forall", []*Term{j}, c.Implies(c.Not(in), c.Eq(c.Select(r, j), c.Select(a, j))), c.Select(r, j)), false, false)
	return r
}

// appendSlice: value semantics; the result always has fresh backing memory.
func (x *Exec) appendSlice(st *State, s, e Val) Val {
	c := x.c
	if _, ok := e.T.Underlying().(*types.Slice); !ok {
		panic(unsupported("append of string"))
	}
	et := s.T.Underlying().(*types.Slice).Elem()
	x.trusted["append: the result never shares backing memory with its argument (no aliasing through spare capacity)"] = true
	n := e.L[2]
	if n.IsNum() && n.Rat.Sign() == 0 {
		return s
	}
	si := x.sliceInner(st, s)
	ei := x.sliceInner(st, e)
	ref := x.alloc(st)
	off := s.L[1]
	if s.L[2].IsNum() && s.L[2].Rat.Sign() == 0 {
		off = c.Int(0)
	}
	out := make([]*Term, len(si))
	for k := range si {
		out[k] = x.arrayCopy(st, si[k], c.Add(off, s.L[2]), ei[k], e.L[1], n)
	}
	x.setSliceInner(st, et, ref, out)
	nl := c.Add(s.L[2], n)
	// result of append is nil only if both are empty
	return Val{T: s.T, L: []*Term{c.Ite(c.Eq(nl, c.Int(0)), s.L[0], ref), off, nl, nl}}
}

// mapLenSet is used for fresh copies.
func (x *Exec) copyMap(st *State, m Val) Val {
	mi := x.mapInfo(m.T)
	r := x.alloc(st)
	sn := snapOf(m, 0)
	ds := x.c.ArraySort(mi.ks, SBool)
	src := x.c.Select(x.heapGet(st, sn, mi.dom, ds), m.L[0])
	st.heap[mi.dom] = x.c.Store(x.heapGet(st, nil, mi.dom, ds), r, src)
	n := x.c.Select(x.heapGet(st, sn, mi.cnt, SInt), m.L[0])
	st.heap[mi.cnt] = x.c.Store(x.heapGet(st, nil, mi.cnt, SInt), r, n)
	for i, lf := range mi.vleaves {
		vs := x.c.ArraySort(mi.ks, lf.S)
		v := x.c.Select(x.heapGet(st, sn, mi.vals[i], vs), m.L[0])
		st.heap[mi.vals[i]] = x.c.Store(x.heapGet(st, nil, mi.vals[i], vs), r, v)
	}
	isNil := x.c.Eq(m.L[0], x.c.Int(0))
	return Val{T: m.T, L: []*Term{x.c.Ite(isNil, x.c.Int(0), r)}}
}

// deepCopy models github.com/mohae/deepcopy: exported fields are copied
// recursively, unexported ones are left zero.
func (x *Exec) deepCopy(st *State, v Val, depth int) Val {
	c := x.c
	if depth > 8 {
		panic(unsupported("deepcopy depth"))
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		return v
	case *types.Struct:
		out := Val{T: v.T}
		for i := 0; i < u.NumFields(); i++ {
			off, n := x.lay.FieldRange(v.T, i)
			fv := v.sub(u.Field(i).Type(), off, n)
			if !u.Field(i).Exported() {
				out.L = append(out.L, x.zero(u.Field(i).Type()).L...)
				continue
			}
			cv := x.deepCopy(st, fv, depth+1)
			out.L = append(out.L, cv.L...)
		}
		return out
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			return v
		}
		ov := x.load(st, x.derefLV(v))
		cv := x.deepCopy(st, ov, depth+1)
		np := x.newObject(st, u.Elem())
		x.store(st, &LV{names: x.objNames(u.Elem()), ref: np.L[0], T: u.Elem()}, cv)
		return Val{T: v.T, L: []*Term{c.Ite(c.Eq(v.L[0], c.Int(0)), c.Int(0), np.L[0])}}
	case *types.Slice:
		r := x.alloc(st)
		in := x.sliceInner(st, v)
		x.setSliceInner(st, u.Elem(), r, in)
		x.trusted["deepcopy: elements of copied slices and values of copied maps are shared with the original (treated as immutable values)"] = true
		nilS := c.Eq(v.L[0], c.Int(0))
		return Val{T: v.T, L: []*Term{c.Ite(nilS, c.Int(0), r), v.L[1], v.L[2], v.L[2]}}
	case *types.Map:
		return x.copyMap(st, v)
	case *types.Interface:
		return v
	}
	return v
}

var pureReal = map[string]bool{}

func recvPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// extern handles functions whose bodies are outside the verified code.
func (x *Exec) extern(fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	c := x.c
	pk := recvPkg(fn)
	full := fn.String()
	ret := func(v ...Val) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	float := func(t *Term) ([]Outcome, bool) {
		return ret(Val{T: types.Typ[types.Float64], L: []*Term{t}})
	}
	rnum := func(n, d int64) *Term { return c.Num(big.NewRat(n, d), SReal) }
	boolV := func(t *Term) ([]Outcome, bool) { return ret(Val{T: types.Typ[types.Bool], L: []*Term{t}}) }
	strV := func(t *Term) ([]Outcome, bool) { return ret(Val{T: types.Typ[types.String], L: []*Term{t}}) }
	newErr := func(what string) Val {
		x.trusted["error constructors ("+what+") return a non-nil error and have no other effect"] = true
		et := fn.Signature.Results().At(0).Type()
		tag := x.tagOf(x.errType())
		return Val{T: et, L: []*Term{tag, c.Fresh("err", SInt)}}
	}
	switch pk {
	case "alda.io/client/logging", "github.com/rs/zerolog", "github.com/rs/zerolog/log":
		return ret(x.logCall(st, fn.Signature)...)
	case "alda.io/client/help":
		if fn.Name() == "UserFacingErrorf" || fn.Name() == "UserFacingError" {
			return ret(newErr("help.UserFacingErrorf"))
		}
	case "alda.io/client/color", "github.com/logrusorgru/aurora":
		x.trusted["terminal colouring has no effect on scores"] = true
		var rs []Val
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, x.freshVal(st, "color", res.At(i).Type()))
		}
		return ret(rs...)
	case "fmt":
		switch fn.Name() {
		case "Errorf":
			return ret(newErr("fmt.Errorf"))
		case "Sprintf", "Sprint", "Sprintln":
			x.trusted["fmt.Sprintf is an uninterpreted string function"] = true
			return strV(c.Fresh("sprintf", SStr))
		case "Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint":
			x.trusted["printing has no effect on scores"] = true
			var rs []Val
			res := fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, x.freshVal(st, "print", res.At(i).Type()))
			}
			return ret(rs...)
		}
	case "errors":
		if fn.Name() == "New" {
			return ret(newErr("errors.New"))
		}
	case "math":
		a := args[0].L[0]
		switch fn.Name() {
		case "Abs":
			return float(c.Ite(c.Le(rnum(0, 1), a), a, c.Neg(a)))
		case "Min":
			b := args[1].L[0]
			return float(c.Ite(c.Le(a, b), a, b))
		case "Max":
			b := args[1].L[0]
			return float(c.Ite(c.Le(b, a), a, b))
		case "Floor":
			return float(c.ToReal(c.ToInt(a)))
		case "Ceil":
			return float(c.Neg(c.ToReal(c.ToInt(c.Neg(a)))))
		case "Trunc":
			return float(c.ToReal(c.Ite(c.Le(rnum(0, 1), a), c.ToInt(a), c.Neg(c.ToInt(c.Neg(a))))))
		case "Round":
			h := rnum(1, 2)
			return float(c.ToReal(c.Ite(c.Le(rnum(0, 1), a), c.ToInt(c.Add(a, h)), c.Neg(c.ToInt(c.Add(c.Neg(a), h))))))
		case "Pow":
			b := args[1].L[0]
			if b.IsNum() && b.Rat.IsInt() && b.Rat.Num().IsInt64() {
				n := b.Rat.Num().Int64()
				if n >= 0 && n <= 8 {
					r := rnum(1, 1)
					for i := int64(0); i < n; i++ {
						r = c.Mul(r, a)
					}
					return float(r)
				}
				if n < 0 && n >= -8 {
					r := rnum(1, 1)
					for i := int64(0); i < -n; i++ {
						r = c.Mul(r, a)
					}
					return float(c.RDiv(rnum(1, 1), r))
				}
			}
			x.trusted["math.Pow(2, y): positive, Pow(2,0)=1, Pow(2,y-1)=Pow(2,y)/2, at most 1 for y<=0"] = true
			p := c.App("pow", SReal, a, b)
			if !p.HasBV && a.IsNum() && a.Rat.Cmp(big.NewRat(2, 1)) == 0 {
				x.powFacts(st, a, b, p)
			}
			return float(p)
		case "Mod":
			x.trusted["math.Mod is uninterpreted"] = true
			return float(c.App("fmod", SReal, a, args[1].L[0]))
		case "IsNaN":
			x.trusted["floats are mathematical reals (no NaN, infinities or rounding)"] = true
			return boolV(c.False)
		case "IsInf":
			return boolV(c.False)
		}
	case "github.com/mohae/deepcopy":
		if fn.Name() == "Copy" {
			iv := args[0]
			tag, ok := x.knownConst(st, iv.L[0])
			if !ok {
				panic(unsupported("deepcopy of unknown dynamic type"))
			}
			t := x.prog.typeOfTag(int(tag.Rat.Num().Int64()))
			x.trusted["deepcopy.Copy: exported fields copied, unexported fields zero, fresh memory"] = true
			cv := x.deepCopy(st, x.unbox(st, iv, t), 0)
			return ret(x.makeInterface(st, cv, fn.Signature.Results().At(0).Type()))
		}
	case "strings":
		switch fn.Name() {
		case "ToLower", "ToUpper", "TrimSpace", "Join", "Repeat", "Replace", "ReplaceAll", "TrimPrefix", "TrimSuffix", "Trim", "TrimLeft", "TrimRight", "Title":
			x.trusted["strings.* are uninterpreted pure functions"] = true
			if fn.Name() == "Join" {
				return strV(c.Fresh("join", SStr))
			}
			var as []*Term
			for _, a := range args {
				as = append(as, a.L...)
			}
			return strV(c.App("strings."+fn.Name(), SStr, as...))
		case "HasPrefix", "HasSuffix", "Contains", "ContainsRune", "ContainsAny", "EqualFold":
			x.trusted["strings.* are uninterpreted pure functions"] = true
			var as []*Term
			for _, a := range args {
				as = append(as, a.L...)
			}
			return boolV(c.App("strings."+fn.Name(), SBool, as...))
		case "Index", "IndexRune", "LastIndex", "Count":
			var as []*Term
			for _, a := range args {
				as = append(as, a.L...)
			}
			t := c.App("strings."+fn.Name(), SInt, as...)
			if !t.HasBV {
				x.assume(st, c.And(c.Le(c.Int(-1), t), c.Le(t, x.strLen(args[0].L[0]))), false, true)
			}
			return ret(Val{T: types.Typ[types.Int], L: []*Term{t}})
		}
	case "strconv":
		x.trusted["strconv is a deterministic function of its arguments"] = true
		return ret(x.pureResults(st, "strconv."+fn.Name(), fn.Signature, args)...)
	case "unicode", "unicode/utf8":
		return ret(x.pureResults(st, pk+"."+fn.Name(), fn.Signature, args)...)
	case "reflect":
		if fn.Name() == "TypeOf" {
			x.trusted["reflect.TypeOf is the dynamic type"] = true
			return ret(Val{T: fn.Signature.Results().At(0).Type(), L: []*Term{c.Int(int64(999983)), args[0].L[0]}})
		}
	case "sort":
		return x.sortModel(st, fn, args)
	case "time":
		return ret(x.unknownCall(st, fn, args)[0].ret...)
	}
	if pk != "" && !strings.HasPrefix(pk, modPath) {
		if fn.Blocks != nil && (fn.Synthetic != "" || fn.Parent() != nil) {
			return nil, false
		}
		return x.unknownCall(st, fn, args), true
	}
	_ = full
	return nil, false
}

func (x *Exec) errType() types.Type {
	// one opaque dynamic type stands for every constructed error
	if x.errT == nil {
		x.errT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "cvOpaqueError", nil), types.NewStruct(nil, nil), nil)
	}
	return x.errT
}

func (x *Exec) powFacts(st *State, a, b, p *Term) {
	c := x.c
	one := c.Num(big.NewRat(1, 1), SReal)
	zero := c.Num(new(big.Rat), SReal)
	x.assume(st, c.Lt(zero, p), false, true)
	x.assume(st, c.Implies(c.Le(b, zero), c.Le(p, one)), false, true)
	x.assume(st, c.Implies(c.Eq(b, zero), c.Eq(p, one)), false, true)
	x.assume(st, c.Implies(c.Le(one, b), c.Le(c.Num(big.NewRat(2, 1), SReal), p)), false, true)
}

// pureResults: deterministic uninterpreted results.
func (x *Exec) pureResults(st *State, name string, sig *types.Signature, args []Val) []Val {
	var as []*Term
	for _, a := range args {
		as = append(as, a.L...)
	}
	var rs []Val
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		v := Val{T: res.At(i).Type()}
		for _, lf := range x.lay.Of(v.T) {
			v.L = append(v.L, x.c.App(name+"#"+string(rune('0'+i))+lf.Path, lf.S, as...))
		}
		x.rangeFacts(st, v, st.top)
		rs = append(rs, v)
	}
	return rs
}

// unknownCall: a function we know nothing about. Its results are arbitrary; it
// is trusted not to modify alda memory.
func (x *Exec) unknownCall(st *State, fn *ssa.Function, args []Val) []Outcome {
	x.trusted["external "+fn.String()+": arbitrary result, no effect on alda data"] = true
	var rs []Val
	res := fn.Signature.Results()
	nt := x.c.Fresh("top", SInt)
	x.assume(st, x.c.Le(st.top, nt), false, true)
	st.top = nt
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, x.freshVal(st, "ext."+fn.Name(), res.At(i).Type()))
	}
	return []Outcome{{st, rs}}
}

func (x *Exec) unknownInvoke(st *State, m *types.Func, recv Val, args []Val) []Outcome {
	x.trusted["external method "+m.FullName()+": arbitrary result, no effect on alda data"] = true
	var rs []Val
	res := m.Type().(*types.Signature).Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, x.freshVal(st, "ext."+m.Name(), res.At(i).Type()))
	}
	return []Outcome{{st, rs}}
}

func (x *Exec) externInvoke(st *State, recv Val, it types.Type, m *types.Func, args []Val) ([]Outcome, bool) {
	if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath) {
		if m.Pkg() != nil && m.Pkg().Path() == "reflect" || typeKey(it) == "error" || m.Pkg() != nil {
			return x.unknownInvoke(st, m, recv, args), true
		}
	}
	if m.Name() == "JSON" {
		return x.unknownInvoke(st, m, recv, args), true
	}
	return nil, false
}

// sortModel: the slice becomes a sorted permutation of itself.
func (x *Exec) sortModel(st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	c := x.c
	switch fn.Name() {
	case "Float64s", "Ints":
		s := args[0]
		et := s.T.Underlying().(*types.Slice).Elem()
		in := x.sliceInner(st, s)[0]
		out := c.Fresh("sorted", in.S)
		x.trusted["sort.Float64s leaves a sorted permutation of the slice"] = true
		lo, hi := s.L[1], c.Add(s.L[1], s.L[2])
		i, j := c.BoundVar("i", SInt), c.BoundVar("j", SInt)
		rng := func(v *Term) *Term { return c.And(c.Le(lo, v), c.Lt(v, hi)) }
		x.assume(st, c.Quant("forall", []*Term{i, j}, c.Implies(c.And(rng(i), rng(j), c.Le(i, j)), c.Le(c.Select(out, i), c.Select(out, j)))), false, false)
		// permutation, as two injections by index functions
		p := c.Fresh("perm", c.ArraySort(SInt, SInt))
		q := c.Fresh("perm", c.ArraySort(SInt, SInt))
		x.assume(st, c.Quant("forall", []*Term{i}, c.Implies(rng(i), c.And(rng(c.Select(p, i)), c.Eq(c.Select(out, i), c.Select(in, c.Select(p, i))), c.Eq(c.Select(q, c.Select(p, i)), i))), c.Select(out, i)), false, false)
		x.assume(st, c.Quant("forall", []*Term{i}, c.Implies(rng(i), c.And(rng(c.Select(q, i)), c.Eq(c.Select(in, i), c.Select(out, c.Select(q, i))), c.Eq(c.Select(p, c.Select(q, i)), i))), c.Select(in, i)), false, false)
		x.assume(st, c.Quant("forall", []*Term{i}, c.Implies(c.Not(rng(i)), c.Eq(c.Select(out, i), c.Select(in, i))), c.Select(out, i)), false, false)
		x.setSliceInner(st, et, s.L[0], []*Term{out})
		return []Outcome{{st, nil}}, true
	case "Slice", "SliceStable", "Sort", "Stable", "Strings":
		if fn.Name() == "Strings" {
			s := args[0]
			et := s.T.Underlying().(*types.Slice).Elem()
			in := x.sliceInner(st, s)[0]
			x.trusted["sort.Strings permutes the slice"] = true
			x.setSliceInner(st, et, s.L[0], []*Term{c.Fresh("sorted", in.S)})
			return []Outcome{{st, nil}}, true
		}
		panic(unsupported("sort.%s", fn.Name()))
	}
	return x.unknownCall(st, fn, args), true
}

// globalInit gives a package-level variable its value.
func (x *Exec) globalInit(st *State, cell *Cell) Val {
	g := cell.global
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || !x.prog.immut[g] {
		return x.freshVal(st, "glob."+g.Name(), cell.T)
	}
	v, ok := x.evalGlobal(g)
	if !ok {
		// immutable but not evaluable: one fixed unknown value
		out := Val{T: cell.T}
		for _, lf := range x.lay.Of(cell.T) {
			out.L = append(out.L, x.c.Const("glob!"+g.String()+lf.Path, lf.S))
		}
		x.rangeFacts(st, out, x.top0)
		if x.initStored(g) {
			switch cell.T.Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Map, *types.Signature:
				x.trusted["package-level variables set once during initialisation (e.g. "+g.Name()+") are not nil"] = true
				x.assume(st, x.c.Not(x.c.Eq(out.L[0], x.c.Int(0))), false, true)
			}
		}
		return out
	}
	x.trusted["package-level tables (e.g. "+g.Name()+") keep their initial value: never assigned outside initialisation"] = true
	return v
}

// initStored: some init function stores the result of a call in the variable.
func (x *Exec) initStored(g *ssa.Global) bool {
	for _, m := range g.Pkg.Members {
		f, isF := m.(*ssa.Function)
		if !isF || !(f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, is := in.(*ssa.Store); is && s.Addr == g {
					if k, isc := s.Val.(*ssa.Const); !isc || !k.IsNil() {
						return true
					}
				}
			}
		}
	}
	return false
}

// evalGlobal executes the initialiser slice of one immutable global.
func (x *Exec) evalGlobal(g *ssa.Global) (res Val, ok bool) {
	if r, hit := x.globMemo[g]; hit {
		return r.v, r.ok
	}
	x.globMemo[g] = globRes{}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupportedErr); !is {
				panic(e)
			}
			ok = false
		}
		x.globMemo[g] = globRes{res, ok}
	}()
	init := g.Pkg.Func("init")
	var store *ssa.Store
	for _, m := range g.Pkg.Members {
		f, isF := m.(*ssa.Function)
		if !isF || !(f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, is := in.(*ssa.Store); is && s.Addr == g {
					if store != nil {
						return Val{}, false
					}
					store = s
				}
				if f != init {
					for _, o := range in.Operands(nil) {
						if *o == g {
							return Val{}, false // filled by an init function
						}
					}
				}
			}
		}
	}
	if store == nil || store.Parent() != init {
		return Val{}, false
	}
	need := map[ssa.Value]bool{}
	var want func(v ssa.Value) bool
	want = func(v ssa.Value) bool {
		if need[v] {
			return true
		}
		in, is := v.(ssa.Instruction)
		if !is {
			return true
		}
		need[v] = true
		for _, o := range in.Operands(nil) {
			if *o != nil && !want(*o) {
				return false
			}
		}
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					if r.Map == v && (!want(r.Key) || !want(r.Value)) {
						return false
					}
				case *ssa.Store:
					if r.Addr == v && !want(r.Val) {
						return false
					}
				case *ssa.IndexAddr:
					if r.X == v && !want(r) {
						return false
					}
				case *ssa.FieldAddr:
					if !want(r) {
						return false
					}
				}
			}
		}
		return len(need) < 4000
	}
	if !want(store.Val) {
		return Val{}, false
	}
	st := &State{heap: map[string]*Term{}, cells: map[*Cell]Val{}, top: x.c.Int(1), epochs: []epoch{{id: -1, pat: "*"}}}
	fr := &Frame{fn: init, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopRun{}}
	x.quiet++
	defer func() { x.quiet-- }()
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			run := false
			if v, is := in.(ssa.Value); is && need[v] {
				run = true
			}
			switch in := in.(type) {
			case *ssa.Store:
				run = need[in.Addr]
			case *ssa.MapUpdate:
				run = need[in.Map]
			}
			if !run {
				continue
			}
			if call, is := in.(*ssa.Call); is {
				outs := x.call(fr, st, call.Common(), call, call.Pos())
				if len(outs) != 1 {
					return Val{}, false
				}
				st = outs[0].st
				x.setRet(fr, call, outs[0].ret)
				continue
			}
			if !x.instr(fr, st, in) {
				return Val{}, false
			}
		}
	}
	v := x.val(fr, store.Val)
	sn := st.snapshot()
	out := Val{T: v.T, L: v.L}
	x.tagSnap(&out, sn)
	return out, true
}

type globRes struct {
	v  Val
	ok bool
}

// logCall models a call into the logging library: no effect, fresh non-nil
// results.
func (x *Exec) logCall(st *State, sig *types.Signature) []Val {
	c := x.c
	x.trusted["logging has no effect on scores"] = true
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		v := x.freshVal(st, "log", sig.Results().At(i).Type())
		if len(v.L) == 1 && v.L[0].S == SInt {
			x.assume(st, c.Lt(c.Int(0), v.L[0]), false, true)
		}
		rs = append(rs, v)
	}
	return rs
}
