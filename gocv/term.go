// Package main: gocv, a contract-based deductive verifier for Go.
//
// term.go: hash-consed SMT terms with a light simplifier.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	Name     string // "Int","Real","Bool","Str","Array"
	Dom, Rng *Sort
}

var (
	SInt  = &Sort{Name: "Int"}
	SReal = &Sort{Name: "Real"}
	SBool = &Sort{Name: "Bool"}
	SStr  = &Sort{Name: "Str"}
)

func (s *Sort) String() string {
	if s.Name == "Array" {
		return "(Array " + s.Dom.String() + " " + s.Rng.String() + ")"
	}
	return s.Name
}

func (s *Sort) Eq(o *Sort) bool {
	if s == o {
		return true
	}
	if s.Name != o.Name {
		return false
	}
	if s.Name == "Array" {
		return s.Dom.Eq(o.Dom) && s.Rng.Eq(o.Rng)
	}
	return true
}

// Term is a hash-consed SMT term.
type Term struct {
	ID   int
	Op   string // "const" (free symbol), "num", "true","false", "strlit", "bv" (bound var), "forall","exists", "app" (UF), or SMT op
	Name string // symbol name / literal
	Args []*Term
	S    *Sort
	Rat  *big.Rat
	// HasBV is true if the term mentions a bound variable (free in this term).
	HasBV bool
	bvs   map[int]bool
	size  int
}

// Ctx owns terms.
type Ctx struct {
	table  map[string]*Term
	nextID int
	fresh  map[string]int
	strs   map[string]*Term
	ufs    map[string]*UF
	sorts  map[string]*Sort
	True   *Term
	False  *Term
	bound  map[int]*Term
}

// UF is an uninterpreted function declaration.
type UF struct {
	Name string
	Dom  []*Sort
	Rng  *Sort
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, fresh: map[string]int{}, strs: map[string]*Term{}, ufs: map[string]*UF{}, sorts: map[string]*Sort{}}
	c.True = c.mk("true", "", SBool, nil, nil)
	c.False = c.mk("false", "", SBool, nil, nil)
	return c
}

func (c *Ctx) ArraySort(d, r *Sort) *Sort {
	k := d.String() + "->" + r.String()
	if s, ok := c.sorts[k]; ok {
		return s
	}
	s := &Sort{Name: "Array", Dom: d, Rng: r}
	c.sorts[k] = s
	return s
}

func (c *Ctx) mk(op, name string, s *Sort, args []*Term, rat *big.Rat) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(s.String())
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	k := b.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	c.nextID++
	t := &Term{ID: c.nextID, Op: op, Name: name, S: s, Args: args, Rat: rat, size: 1}
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		for v := range a.bvs {
			if t.bvs == nil {
				t.bvs = map[int]bool{}
			}
			t.bvs[v] = true
		}
	}
	switch op {
	case "bv":
		t.bvs = map[int]bool{t.ID: true}
	case "forall", "exists":
		// args[0] = body, args[1:n] = bound vars (Name encodes count), rest patterns
		nv := 1
		m := map[int]bool{}
		for v := range t.bvs {
			m[v] = true
		}
		fmt.Sscanf(name, "%d", &nv)
		for i := 0; i < nv; i++ {
			delete(m, args[1+i].ID)
		}
		t.bvs = m
	}
	t.HasBV = len(t.bvs) > 0
	c.table[k] = t
	return t
}

// Fresh makes a new free symbol.
func (c *Ctx) Fresh(base string, s *Sort) *Term {
	base = sanitize(base)
	c.fresh[base]++
	return c.mk("const", fmt.Sprintf("%s!%d", base, c.fresh[base]), s, nil, nil)
}

// Const makes a named free symbol.
func (c *Ctx) Const(name string, s *Sort) *Term {
	return c.mk("const", sanitize(name), s, nil, nil)
}

func (c *Ctx) BoundVar(base string, s *Sort) *Term {
	c.fresh["bv$"+base]++
	t := c.mk("bv", fmt.Sprintf("%s?%d", sanitize(base), c.fresh["bv$"+base]), s, nil, nil)
	if c.bound == nil {
		c.bound = map[int]*Term{}
	}
	c.bound[t.ID] = t
	return t
}

func (c *Ctx) bvOf(id int) *Term { return c.bound[id] }

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '?', r == '@':
			b.WriteRune(r)
		case r == '[':
			b.WriteString("<")
		case r == ']':
			b.WriteString(">")
		case r == '*':
			b.WriteString("~")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Num(r *big.Rat, s *Sort) *Term {
	return c.mk("num", r.RatString(), s, nil, r)
}

func (c *Ctx) Int(i int64) *Term { return c.Num(new(big.Rat).SetInt64(i), SInt) }
func (c *Ctx) Real(f *big.Rat) *Term {
	return c.Num(f, SReal)
}

func (c *Ctx) Str(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	t := c.mk("strlit", s, SStr, nil, nil)
	c.strs[s] = t
	return t
}

func (t *Term) IsNum() bool { return t.Op == "num" }
func (t *Term) IsConst() bool {
	return t.Op == "num" || t.Op == "true" || t.Op == "false" || t.Op == "strlit"
}

func (c *Ctx) App(name string, rng *Sort, args ...*Term) *Term {
	uf, ok := c.ufs[name]
	if !ok {
		uf = &UF{Name: name, Rng: rng}
		for _, a := range args {
			uf.Dom = append(uf.Dom, a.S)
		}
		c.ufs[name] = uf
	} else {
		if len(uf.Dom) != len(args) {
			panic("UF arity mismatch " + name)
		}
		for i := range args {
			if !uf.Dom[i].Eq(args[i].S) {
				panic(fmt.Sprintf("UF sort mismatch %s arg %d: %s vs %s", name, i, uf.Dom[i], args[i].S))
			}
		}
	}
	return c.mk("app", name, rng, args, nil)
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	}
	return c.mk("not", "", SBool, []*Term{a}, nil)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].ID] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", SBool, out, nil)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.Op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.True
		}
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0].ID] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", SBool, out, nil)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return c.True
	}
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.Op == "true" || a == b {
		return a
	}
	if g.Op == "false" {
		return b
	}
	if a.S.Name == "Bool" {
		if a.Op == "true" {
			return c.Or(g, b)
		}
		if a.Op == "false" {
			return c.And(c.Not(g), b)
		}
		if b.Op == "true" {
			return c.Or(c.Not(g), a)
		}
		if b.Op == "false" {
			return c.And(g, a)
		}
	}
	if g.Op == "not" {
		return c.Ite(g.Args[0], b, a)
	}
	if !a.S.Eq(b.S) {
		panic("ite sort mismatch " + a.S.String() + " " + b.S.String())
	}
	if a.Op == "ite" && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return c.mk("ite", "", a.S, []*Term{g, a, b}, nil)
}

// linear form: constant + sum coef*term
type linForm struct {
	k  *big.Rat
	ts map[int]*Term
	cs map[int]*big.Rat
}

func (c *Ctx) lin(t *Term) linForm {
	f := linForm{k: new(big.Rat), ts: map[int]*Term{}, cs: map[int]*big.Rat{}}
	one := big.NewRat(1, 1)
	var add func(t *Term, m *big.Rat)
	add = func(t *Term, m *big.Rat) {
		switch t.Op {
		case "num":
			f.k.Add(f.k, new(big.Rat).Mul(m, t.Rat))
			return
		case "+":
			for _, a := range t.Args {
				add(a, m)
			}
			return
		case "*":
			if t.Args[0].IsNum() && len(t.Args) == 2 {
				add(t.Args[1], new(big.Rat).Mul(m, t.Args[0].Rat))
				return
			}
		}
		if _, ok := f.cs[t.ID]; !ok {
			f.cs[t.ID] = new(big.Rat)
			f.ts[t.ID] = t
		}
		f.cs[t.ID].Add(f.cs[t.ID], m)
	}
	add(t, one)
	for id, co := range f.cs {
		if co.Sign() == 0 {
			delete(f.cs, id)
			delete(f.ts, id)
		}
	}
	return f
}

func (c *Ctx) fromLin(f linForm, s *Sort) *Term {
	ids := []int{}
	for id := range f.ts {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		co := f.cs[id]
		if co.Cmp(big.NewRat(1, 1)) == 0 {
			args = append(args, f.ts[id])
		} else {
			args = append(args, c.mk("*", "", s, []*Term{c.Num(co, s), f.ts[id]}, nil))
		}
	}
	if f.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.Num(f.k, s))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "", s, args, nil)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() {
		return c.Num(new(big.Rat).Add(a.Rat, b.Rat), a.S)
	}
	f := c.lin(a)
	g := c.lin(b)
	f.k.Add(f.k, g.k)
	for id, t := range g.ts {
		if co, ok := f.cs[id]; ok {
			s := new(big.Rat).Add(co, g.cs[id])
			if s.Sign() == 0 {
				delete(f.cs, id)
				delete(f.ts, id)
			} else {
				f.cs[id] = s
			}
		} else {
			f.ts[id] = t
			f.cs[id] = g.cs[id]
		}
	}
	return c.fromLin(f, a.S)
}

func (c *Ctx) scale(a *Term, m *big.Rat) *Term {
	f := c.lin(a)
	f.k.Mul(f.k, m)
	for id := range f.cs {
		f.cs[id] = new(big.Rat).Mul(f.cs[id], m)
		if f.cs[id].Sign() == 0 {
			delete(f.cs, id)
			delete(f.ts, id)
		}
	}
	return c.fromLin(f, a.S)
}

func (c *Ctx) Neg(a *Term) *Term    { return c.scale(a, big.NewRat(-1, 1)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsNum() {
		return c.scale(b, a.Rat)
	}
	if b.IsNum() {
		return c.scale(a, b.Rat)
	}
	// pull out numeric coefficients: normalise to coef * (sorted factors)
	coef := big.NewRat(1, 1)
	var fs []*Term
	var col func(t *Term)
	col = func(t *Term) {
		if t.Op == "*" {
			for _, x := range t.Args {
				if x.IsNum() {
					coef.Mul(coef, x.Rat)
				} else {
					col(x)
				}
			}
			return
		}
		fs = append(fs, t)
	}
	col(a)
	col(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	p := c.mk("*", "", a.S, fs, nil)
	if coef.Cmp(big.NewRat(1, 1)) != 0 {
		return c.scale(p, coef)
	}
	return p
}

// RDiv is real division.
func (c *Ctx) RDiv(a, b *Term) *Term {
	if b.IsNum() && b.Rat.Sign() != 0 {
		return c.scale(a, new(big.Rat).Inv(b.Rat))
	}
	if a.IsNum() && a.Rat.Cmp(big.NewRat(1, 1)) != 0 {
		return c.scale(c.RDiv(c.Num(big.NewRat(1, 1), SReal), b), a.Rat)
	}
	if !a.IsNum() {
		// a / b  ==>  a * (1/b): gives a canonical form for products/quotients
		return c.Mul(a, c.RDiv(c.Num(big.NewRat(1, 1), SReal), b))
	}
	// 1 / b : push inverse through products of inverses
	if b.Op == "*" {
		r := c.Num(big.NewRat(1, 1), SReal)
		for _, x := range b.Args {
			r = c.Mul(r, c.RDiv(c.Num(big.NewRat(1, 1), SReal), x))
		}
		return r
	}
	if b.Op == "/" && b.Args[0].IsNum() && b.Args[0].Rat.Cmp(big.NewRat(1, 1)) == 0 && false {
		return b.Args[1]
	}
	return c.mk("/", "", SReal, []*Term{a, b}, nil)
}

func floorDiv(a, b *big.Int) (*big.Int, *big.Int) {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean, as SMT-LIB
	return q, m
}

func (c *Ctx) IDiv(a, b *Term) *Term { // SMT div (Euclidean)
	if a.IsNum() && b.IsNum() && b.Rat.Sign() != 0 {
		q, _ := floorDiv(a.Rat.Num(), b.Rat.Num())
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	return c.mk("div", "", SInt, []*Term{a, b}, nil)
}

func (c *Ctx) IMod(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() && b.Rat.Sign() != 0 {
		_, m := floorDiv(a.Rat.Num(), b.Rat.Num())
		return c.Num(new(big.Rat).SetInt(m), SInt)
	}
	return c.mk("mod", "", SInt, []*Term{a, b}, nil)
}

// GoQuo is Go's truncated integer division.
func (c *Ctx) GoQuo(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() && b.Rat.Sign() != 0 {
		q := new(big.Int).Quo(a.Rat.Num(), b.Rat.Num())
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	z := c.Int(0)
	return c.Ite(c.Ge(a, z), c.IDiv(a, b), c.Neg(c.IDiv(c.Neg(a), b)))
}

// GoRem is Go's truncated remainder.
func (c *Ctx) GoRem(a, b *Term) *Term {
	return c.Sub(a, c.Mul(b, c.GoQuo(a, b)))
}

func (c *Ctx) cmpConst(a, b *Term) (int, bool) {
	d := c.Sub(a, b)
	if d.IsNum() {
		return d.Rat.Sign(), true
	}
	return 0, false
}

func (c *Ctx) Le(a, b *Term) *Term {
	if s, ok := c.cmpConst(a, b); ok {
		return c.Bool(s <= 0)
	}
	return c.mk("<=", "", SBool, []*Term{a, b}, nil)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if s, ok := c.cmpConst(a, b); ok {
		return c.Bool(s < 0)
	}
	return c.Not(c.Le(b, a))
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if !a.S.Eq(b.S) {
		panic(fmt.Sprintf("eq sort mismatch %s %s: %s / %s", a.S, b.S, c.Show(a), c.Show(b)))
	}
	switch a.S.Name {
	case "Bool":
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return c.Not(b)
		}
		if b.Op == "false" {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	case "Int", "Real":
		if s, ok := c.cmpConst(a, b); ok {
			return c.Bool(s == 0)
		}
		if a.Op == "ite" && b.IsNum() {
			if x := c.Eq(a.Args[1], b); x.IsConst() || true {
				y := c.Eq(a.Args[2], b)
				if x.IsConst() || y.IsConst() {
					return c.Ite(a.Args[0], x, y)
				}
			}
		}
		if b.Op == "ite" && a.IsNum() {
			return c.Eq(b, a)
		}
	case "Str":
		if a.Op == "strlit" && b.Op == "strlit" {
			return c.False
		}
		if a.Op == "ite" && b.Op == "strlit" {
			x, y := c.Eq(a.Args[1], b), c.Eq(a.Args[2], b)
			if x.IsConst() || y.IsConst() {
				return c.Ite(a.Args[0], x, y)
			}
		}
		if b.Op == "ite" && a.Op == "strlit" {
			return c.Eq(b, a)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", "", SBool, []*Term{a, b}, nil)
}

// distinctSure: a and b certainly differ (syntactically).
func (c *Ctx) distinctSure(a, b *Term) bool {
	if a.Op == "strlit" && b.Op == "strlit" {
		return a != b
	}
	if a.S.Name == "Int" || a.S.Name == "Real" {
		if s, ok := c.cmpConst(a, b); ok {
			return s != 0
		}
	}
	return false
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if c.distinctSure(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			// select distributes if both sides simplify
			x := c.Select(a.Args[1], i)
			y := c.Select(a.Args[2], i)
			if x == y {
				return x
			}
			if x.Op != "select" || y.Op != "select" {
				return c.Ite(a.Args[0], x, y)
			}
		}
		break
	}
	if a.S.Name != "Array" {
		panic("select on non-array " + c.Show(a))
	}
	if !a.S.Dom.Eq(i.S) {
		panic(fmt.Sprintf("select index sort mismatch: %s vs %s", a.S, i.S))
	}
	return c.mk("select", "", a.S.Rng, []*Term{a, i}, nil)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if !a.S.Rng.Eq(v.S) {
		panic(fmt.Sprintf("store value sort mismatch: %s vs %s", a.S, v.S))
	}
	if !a.S.Dom.Eq(i.S) {
		panic(fmt.Sprintf("store index sort mismatch: %s vs %s", a.S, i.S))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", "", a.S, []*Term{a, i, v}, nil)
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk("constarr", "", s, []*Term{v}, nil)
}

func (c *Ctx) Quant(q string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body.IsConst() {
		return body
	}
	used := false
	for _, v := range vars {
		if body.bvs[v.ID] {
			used = true
		}
	}
	if !used {
		return body // note: domain is non-empty
	}
	args := append([]*Term{body}, vars...)
	args = append(args, pats...)
	return c.mk(q, fmt.Sprint(len(vars)), SBool, args, nil)
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.IsNum() {
		return c.Num(a.Rat, SReal)
	}
	return c.mk("to_real", "", SReal, []*Term{a}, nil)
}
func (c *Ctx) ToInt(a *Term) *Term { // floor
	if a.IsNum() {
		q, _ := floorDiv(a.Rat.Num(), a.Rat.Denom())
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	if a.Op == "to_real" {
		return a.Args[0]
	}
	return c.mk("to_int", "", SInt, []*Term{a}, nil)
}

// Subst replaces symbols (by term ID) in t.
func (c *Ctx) Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.ID]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Add(r, a)
		}
		return r
	case "*":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Mul(r, a)
		}
		return r
	case "<=":
		return c.Le(args[0], args[1])
	case "=":
		return c.Eq(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "/":
		return c.RDiv(args[0], args[1])
	case "div":
		return c.IDiv(args[0], args[1])
	case "mod":
		return c.IMod(args[0], args[1])
	case "to_real":
		return c.ToReal(args[0])
	case "to_int":
		return c.ToInt(args[0])
	}
	return c.mk(t.Op, t.Name, t.S, args, nil)
}

// Mentions reports whether t mentions any of the given term IDs.
func (t *Term) Mentions(ids map[int]bool) bool {
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if ids[t.ID] {
			return true
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		memo[t.ID] = false
		for _, a := range t.Args {
			if rec(a) {
				memo[t.ID] = true
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Show renders a term (debug; may be large).
func (c *Ctx) Show(t *Term) string {
	if t.size > 3000 {
		return fmt.Sprintf("<big term %d>", t.ID)
	}
	p := &printer{c: c, names: map[int]string{}}
	return p.str(t)
}
