package model

import "math/rand"

func cvEvs(r *rand.Rand, s *Score, spies bool, max int) []ScoreUpdate {
	if spies {
		return cvSpies(r, max)
	}
	return cvRandEvents(r, s, 2, max)
}

func cvEv(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
	if spies {
		return cvNewSpy(r)
	}
	return cvRandInner(r, s, 2)
}

func init() {
	upd := func(id string, mk func(r *rand.Rand, s *Score, spies bool) ScoreUpdate) {
		cvArgs["model."+id] = func(r *rand.Rand) []any { return cvSpyArgs(mk)(r) }
	}
	cvArgs["model.(*Score).Update+cvUpdateInOrder"] = func(r *rand.Rand) []any {
		a := cvSpyArgs(func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
			return EventSequence{Events: cvEvs(r, s, spies, 6)}
		})(r)
		return []any{a[1], a[0].(EventSequence).Events}
	}
	upd("EventSequence.UpdateScore+cvSequence", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return EventSequence{Events: cvEvs(r, s, spies, 6)}
	})
	upd("Repeat.UpdateScore+cvRepeat", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return Repeat{Event: cvEv(r, s, spies), Times: int32(r.Intn(7) - 1)}
	})
	upd("OnRepetitions.UpdateScore+cvOnRepetitions", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		o := OnRepetitions{Event: cvEv(r, s, spies)}
		for i := r.Intn(3); i >= 0; i-- {
			o.Repetitions = append(o.Repetitions, RepetitionRange{First: int32(r.Intn(4)), Last: int32(r.Intn(5))})
		}
		return o
	})
	upd("VariableReference.UpdateScore+cvVariableReference", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		n := []string{"v1", "v2", "v3"}[r.Intn(3)]
		if spies && n != "v3" {
			s.Variables[n] = cvSpies(r, 4)
		}
		return VariableReference{VariableName: n}
	})
}
