package model

import "math/rand"

func init() {
	ms := func(id string, mk func(r *rand.Rand, s *Score) ScoreUpdate) {
		cvArgs["model."+id] = func(r *rand.Rand) []any {
			s := cvRandScore(r)
			p := cvRandPartOf(r, s)
			p.currentRepetition = int32(r.Intn(4))
			return []any{mk(r, s), p}
		}
	}
	ms("EventSequence.DurationMs+cvSequenceMs", func(r *rand.Rand, s *Score) ScoreUpdate { return EventSequence{Events: cvSpies(r, 5)} })
	ms("Chord.DurationMs+cvChordMs", func(r *rand.Rand, s *Score) ScoreUpdate { return Chord{Events: cvSpies(r, 5)} })
	ms("Repeat.DurationMs+cvRepeatMs", func(r *rand.Rand, s *Score) ScoreUpdate {
		return Repeat{Event: cvNewSpy(r), Times: int32(r.Intn(6) - 1)}
	})
	ms("OnRepetitions.DurationMs+cvOnRepetitionsMs", func(r *rand.Rand, s *Score) ScoreUpdate {
		o := OnRepetitions{Event: cvNewSpy(r)}
		for i := r.Intn(3); i >= 0; i-- {
			o.Repetitions = append(o.Repetitions, RepetitionRange{First: int32(r.Intn(4)), Last: int32(r.Intn(5))})
		}
		return o
	})
	ms("VariableReference.DurationMs+cvReferenceMs", func(r *rand.Rand, s *Score) ScoreUpdate {
		n := []string{"v1", "v2", "v3"}[r.Intn(3)]
		if n != "v3" {
			s.Variables[n] = cvSpies(r, 4)
		} else {
			delete(s.Variables, n)
		}
		return VariableReference{VariableName: n}
	})
	ms("Note.DurationMs+cvNoteMs", func(r *rand.Rand, s *Score) ScoreUpdate { return cvRandNote(r) })
	ms("Rest.DurationMs+cvRestMs", func(r *rand.Rand, s *Score) ScoreUpdate { return Rest{Duration: cvRandDuration(r)} })
	ms("Cram.DurationMs+cvCramMs", func(r *rand.Rand, s *Score) ScoreUpdate { return cvRandCram(r, s, false) })
	ms("innerDurationMs", func(r *rand.Rand, s *Score) ScoreUpdate { return cvRandCram(r, s, false) })
	ms("timeScale", func(r *rand.Rand, s *Score) ScoreUpdate { return cvRandCram(r, s, false) })
	cvArgs["model.Cram.UpdateScore+cvCram"] = cvUpdateArgs(func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
		return cvRandCram(r, s, spies && r.Intn(2) == 0)
	})
}

func cvRandCram(r *rand.Rand, s *Score, spies bool) Cram {
	c := Cram{Duration: cvRandDuration(r)}
	switch {
	case spies:
		c.Events = cvSpies(r, 4)
	case r.Intn(3) == 0:
		c.Events = cvRandEvents(r, s, 2, 4)
	case r.Intn(2) == 0:
		for i := 1 + r.Intn(5); i > 0; i-- {
			if r.Intn(4) == 0 {
				c.Events = append(c.Events, Rest{Duration: cvRandDuration(r)})
			} else {
				c.Events = append(c.Events, cvRandNote(r))
			}
		}
	default:
		c.Events = cvRandPlain(r, 2, 4)
	}
	return c
}

// cvRandPlain: notes, rests and what is made of them.
func cvRandPlain(r *rand.Rand, d, max int) []ScoreUpdate {
	us := []ScoreUpdate{}
	for i := 1 + r.Intn(max); i > 0; i-- {
		k := r.Intn(12)
		if d <= 0 {
			k %= 6
		}
		switch k {
		case 0:
			us = append(us, Rest{Duration: cvRandDuration(r)})
		case 6:
			us = append(us, EventSequence{Events: cvRandPlain(r, d-1, 3)})
		case 7:
			us = append(us, Cram{Events: cvRandPlain(r, d-1, 3), Duration: cvRandDuration(r)})
		case 8, 9:
			us = append(us, Repeat{Event: EventSequence{Events: append(cvRandPlain(r, d-1, 2),
				OnRepetitions{Repetitions: []RepetitionRange{{First: int32(1 + r.Intn(2)), Last: int32(1 + r.Intn(3))}}, Event: cvRandNote(r)})}, Times: int32(1 + r.Intn(3))})
		case 10:
			us = append(us, Chord{Events: []ScoreUpdate{cvRandNote(r), cvRandNote(r)}})
		default:
			us = append(us, cvRandNote(r))
		}
	}
	return us
}
