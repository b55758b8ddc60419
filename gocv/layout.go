package main

// layout.go: flattening of Go types into SMT leaves.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Leaf struct {
	Path string
	S    *Sort
	T    types.Type // Go type of the leaf container (basic, pointer, slice part, ...)
	Kind string     // "val","ref","s.ref","s.off","s.len","s.cap","i.tag","i.val","map","func","chan"
}

type Layouts struct {
	c    *Ctx
	memo map[types.Type][]Leaf
}

func NewLayouts(c *Ctx) *Layouts { return &Layouts{c: c, memo: map[types.Type][]Leaf{}} }

func (l *Layouts) Of(t types.Type) []Leaf {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.of(t)
	l.memo[t] = r
	return r
}

func (l *Layouts) of(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, "val"}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t, "val"}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SReal, t, "val"}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t, "val"}}
		case u.Kind() == types.Invalid: // an unused part of an iterator's tuple
			return nil
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t, "ref"}}
		}
		panic(unsupported("type " + t.String()))
	case *types.Pointer:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Map:
		return []Leaf{{"", SInt, t, "map"}}
	case *types.Chan:
		return []Leaf{{"", SInt, t, "chan"}}
	case *types.Signature:
		return []Leaf{{"", SInt, t, "func"}}
	case *types.Slice:
		return []Leaf{{".ref", SInt, t, "s.ref"}, {".off", SInt, t, "s.off"}, {".len", SInt, t, "s.len"}, {".cap", SInt, t, "s.cap"}}
	case *types.Interface:
		return []Leaf{{".tag", SInt, t, "i.tag"}, {".val", SInt, t, "i.val"}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, lf := range l.Of(f.Type()) {
				lf.Path = "." + f.Name() + lf.Path
				r = append(r, lf)
			}
		}
		return r
	case *types.Array:
		var r []Leaf
		for _, lf := range l.Of(u.Elem()) {
			lf.Path = "[]" + lf.Path
			lf.S = l.c.ArraySort(SInt, lf.S)
			r = append(r, lf)
		}
		return r
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, lf := range l.Of(u.At(i).Type()) {
				lf.Path = fmt.Sprintf("#%d", i) + lf.Path
				r = append(r, lf)
			}
		}
		return r
	}
	panic(unsupported("type " + t.String()))
}

// FieldRange gives the leaf range of field i in a struct type.
func (l *Layouts) FieldRange(t types.Type, i int) (off, n int) {
	u := t.Underlying().(*types.Struct)
	for j := 0; j < i; j++ {
		off += len(l.Of(u.Field(j).Type()))
	}
	return off, len(l.Of(u.Field(i).Type()))
}

func (l *Layouts) TupleRange(t *types.Tuple, i int) (off, n int) {
	for j := 0; j < i; j++ {
		off += len(l.Of(t.At(j).Type()))
	}
	return off, len(l.Of(t.At(i).Type()))
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return strings.ReplaceAll(s, " ", "")
}

func (l *Layouts) ZeroOfSort(s *Sort) *Term {
	switch s.Name {
	case "Int":
		return l.c.Int(0)
	case "Real":
		return l.c.Num(new(big.Rat), SReal)
	case "Bool":
		return l.c.False
	case "Str":
		return l.c.Str("")
	case "Array":
		return l.c.ConstArr(s, l.ZeroOfSort(s.Rng))
	}
	panic("zero of " + s.Name)
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(f string, a ...interface{}) unsupportedErr {
	if len(a) == 0 {
		return unsupportedErr{f}
	}
	return unsupportedErr{fmt.Sprintf(f, a...)}
}
