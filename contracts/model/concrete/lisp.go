package model

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	names := strings.Fields("octave octave tempo tempo tempo metric-modulation metric-modulation metric-modulation quantization quantize quant volume vol track-volume track-vol panning pan " +
		"pppppp ppppp pppp ppp pp p mp mf f ff fff ffff fffff ffffff set-duration set-duration-ms set-note-length set-note-length transposition transpose reference-pitch tuning-constant midi-channel midi-channel nosuch")
	number := func(r *rand.Rand) LispForm {
		vs := []float64{0, 1, 2, 4, 8, 9, 15, 16, 100, 101, 0.5, 3.7, 60, 120, -1, -3, 99.5, 100.5, 3000000000, -2147483648, 4294967297}
		return LispNumber{Value: vs[r.Intn(len(vs))]}
	}
	length := func(r *rand.Rand) LispForm {
		s := ""
		for i := r.Intn(3); i >= 0; i-- {
			s += fmt.Sprint([]string{"4", "8", "2", "1", "0.5", "12", "4", "0", "0.0", "a", "", "4..5"}[r.Intn(6+r.Intn(7))]) + strings.Repeat(".", r.Intn(3))
			if i > 0 {
				s += "~"
			}
		}
		return LispString{Value: s}
	}
	cvArgs["model.duration"] = func(r *rand.Rand) []any { return []any{length(r)} }
	for _, f := range []string{"positiveNumber", "nonNegativeNumber", "percentage", "integer"} {
		cvArgs["model."+f] = func(r *rand.Rand) []any { return []any{number(r)} }
	}
	cvArgs["model.integerInRange"] = func(r *rand.Rand) []any { return []any{number(r), int32(r.Intn(4)), int32(r.Intn(20))} }
	cvArgs["model.LispList.Eval+cvEval"] = func(r *rand.Rand) []any {
		name := names[r.Intn(len(names))]
		n := 1
		if DynamicVolumes[name] != 0 {
			n = 0
		}
		if name == "metric-modulation" || name == "tempo" && r.Intn(2) == 0 {
			n = 2
		}
		if r.Intn(10) == 0 {
			n = r.Intn(3)
		}
		if r.Intn(3) == 0 {
			name += "!"
		}
		fs := []LispForm{LispSymbol{Name: name}}
		for ; n > 0; n-- {
			switch k := r.Intn(10); {
			case k < 6:
				fs = append(fs, number(r))
			case k < 9 && !strings.HasPrefix(name, "octave"):
				fs = append(fs, length(r))
			default:
				fs = append(fs, LispQuotedForm{Form: LispSymbol{Name: []string{"up", "down", "in"}[r.Intn(3)]}})
			}
		}
		return []any{LispList{Elements: fs}}
	}
}
