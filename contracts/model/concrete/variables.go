package model

import "math/rand"

func init() {
	val := func(id string, mk func(r *rand.Rand, s *Score, spies bool) ScoreUpdate) {
		cvArgs["model."+id] = func(r *rand.Rand) []any { return cvSpyArgs(mk)(r) }
	}
	val("VariableDefinition.UpdateScore+cvDefine", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return VariableDefinition{VariableName: []string{"v1", "v2", "v3"}[r.Intn(3)], Events: cvEvs(r, s, true, 5)}
	})
	val("EventSequence.VariableValue+cvSequenceValue", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return EventSequence{Events: cvEvs(r, s, true, 5)}
	})
	val("VariableDefinition.VariableValue+cvDefinitionValue", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return VariableDefinition{VariableName: "v1", Events: cvEvs(r, s, true, 5)}
	})
	val("Chord.VariableValue+cvChordValue", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return Chord{Events: cvEvs(r, s, true, 5)}
	})
	val("Cram.VariableValue+cvCramValue", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return Cram{Events: cvEvs(r, s, true, 5), Duration: cvRandDuration(r)}
	})
	val("Repeat.VariableValue+cvRepeatValue", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return Repeat{Event: cvEv(r, s, true), Times: int32(r.Intn(5))}
	})
	val("OnRepetitions.VariableValue+cvOnRepetitionsValue", func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return OnRepetitions{Event: cvEv(r, s, true), Repetitions: []RepetitionRange{{First: int32(r.Intn(4)), Last: int32(r.Intn(5))}}}
	})
	cvArgs["model.VariableReference.VariableValue+cvReferenceValue"] = func(r *rand.Rand) []any {
		s := cvRandScore(r)
		if r.Intn(2) == 0 {
			s.Variables["v1"] = cvRandEvents(r, s, 2, 4)
		}
		return []any{VariableReference{VariableName: []string{"v1", "v2", "v3"}[r.Intn(3)]}, s}
	}
}
