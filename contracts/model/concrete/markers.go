package model

import "math/rand"

func init() {
	score := func(r *rand.Rand) *Score {
		s := cvRandScore(r)
		names := []string{"a", "b", "c"}
		for i := r.Intn(4); i > 0; i-- {
			if len(s.Parts) > 0 && r.Intn(2) == 0 {
				s.Markers[names[r.Intn(3)]] = s.Parts[r.Intn(len(s.Parts))].CurrentOffset
			} else {
				s.Markers[names[r.Intn(3)]] = float64(r.Intn(20)) * 125
			}
		}
		if r.Intn(2) == 0 {
			for _, p := range s.CurrentParts {
				p.CurrentOffset = s.CurrentParts[0].CurrentOffset
			}
		}
		return s
	}
	cvArgs["model.AtMarker.UpdateScore+cvAtMarker"] = func(r *rand.Rand) []any {
		return []any{AtMarker{Name: string(rune('a' + r.Intn(4)))}, score(r)}
	}
	cvArgs["model.Marker.UpdateScore+cvMarker"] = func(r *rand.Rand) []any {
		return []any{Marker{Name: string(rune('a' + r.Intn(4)))}, score(r)}
	}
}
