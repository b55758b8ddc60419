package model

import "math/rand"

func cvSpyUpdate(r *rand.Rand) PartUpdate {
	cvSpyCount++
	if r.Intn(2) == 0 {
		return cvSpyA{ID: cvSpyCount % 1000}
	}
	return cvSpyB{ID: cvSpyCount % 1000}
}

func init() {
	cvArgs["model.(*Score).ApplyGlobalAttributes+cvApplyGlobal"] = func(r *rand.Rand) []any {
		s := cvRandScore(r)
		s.GlobalAttributes = NewGlobalAttributes()
		for i := r.Intn(6); i > 0; i-- {
			s.GlobalAttributes.Record(float64(r.Intn(5))*250, cvSpyUpdate(r))
		}
		for _, p := range s.CurrentParts {
			p.LastOffset, p.CurrentOffset = float64(r.Intn(6)-1)*250, float64(r.Intn(6))*250
			p.localAttributeOverrides = nil
			for i := r.Intn(3); i > 0; i-- {
				p.localAttributeOverrides = append(p.localAttributeOverrides, cvSpyUpdate(r))
			}
		}
		return []any{s}
	}
	cvArgs["model.AttributeUpdate.UpdateScore+cvLocalUpdate"] = func(r *rand.Rand) []any {
		return []any{AttributeUpdate{PartUpdate: cvSpyUpdate(r)}, cvRandScore(r)}
	}
	cvArgs["model.GlobalAttributeUpdate.UpdateScore+cvGlobalUpdate"] = func(r *rand.Rand) []any {
		return []any{GlobalAttributeUpdate{PartUpdate: cvRandPartUpdate(r, nil)}, cvRandScore(r)}
	}
}
