package model

import (
	"math/rand"
	"strings"
)

func init() {
	pick := func(r *rand.Rand, xs string) string {
		ws := strings.Fields(xs)
		return ws[r.Intn(len(ws))]
	}
	letter := func(r *rand.Rand) string {
		if r.Intn(15) == 0 {
			return pick(r, "h A z + f+ 9")
		}
		return string(rune('a' + r.Intn(7)))
	}
	sym := func(s string) LispForm { return LispSymbol{Name: s} }
	cvArgs["model.keySignatureFromString"] = func(r *rand.Rand) []any {
		s := ""
		for i := r.Intn(5); i > 0; i-- {
			s += letter(r)
			for j := r.Intn(4); j > 0; j-- {
				if r.Intn(25) == 0 {
					s += pick(r, "_ b # x =")
				}
				s += pick(r, "+ + -")
			}
			s += strings.Repeat(" ", 1+r.Intn(2))
		}
		return []any{LispString{Value: s}}
	}
	accidentals := func(r *rand.Rand, odd bool) []LispForm {
		fs := []LispForm{}
		one := pick(r, "flat sharp sharp flat natural")
		for j := r.Intn(4); j > 0; j-- {
			if r.Intn(4) == 0 {
				one = pick(r, "flat sharp")
			}
			fs = append(fs, sym(one))
			if odd && r.Intn(20) == 0 {
				fs = append(fs, LispNumber{})
			}
		}
		return fs
	}
	cvArgs["model.keySignatureFromList"] = func(r *rand.Rand) []any {
		fs := []LispForm{}
		if r.Intn(2) == 0 {
			fs = append(fs, sym(letter(r)))
			fs = append(fs, accidentals(r, true)...)
			if r.Intn(10) > 0 {
				fs = append(fs, sym(pick(r, "major ionian dorian phrygian lydian mixolydian minor aeolian locrian major minor blues")))
			}
			if r.Intn(15) == 0 {
				fs = append(fs, sym(pick(r, "flat major nosuch")))
			}
		} else {
			for i := r.Intn(5); i > 0; i-- {
				fs = append(fs, sym(letter(r)), LispList{Elements: accidentals(r, true)})
			}
			if r.Intn(15) == 0 {
				fs = append(fs, sym(letter(r)))
			}
		}
		return []any{LispList{Elements: fs}}
	}
}
