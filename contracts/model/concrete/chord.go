package model

import "math/rand"

func init() {
	args := func(r *rand.Rand) []any {
		a := cvUpdateArgs(func(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
			c := Chord{}
			for i := 1 + r.Intn(5); i > 0; i-- {
				switch r.Intn(8) {
				case 0:
					c.Events = append(c.Events, Rest{Duration: cvRandDuration(r)})
				case 1:
					c.Events = append(c.Events, AttributeUpdate{PartUpdate: []PartUpdate{OctaveUp{}, OctaveDown{}, OctaveSet{OctaveNumber: int32(r.Intn(9))}}[r.Intn(3)]})
				default:
					c.Events = append(c.Events, cvRandNote(r))
				}
			}
			return c
		})(r)
		return a
	}
	cvArgs["model.Chord.UpdateScore+cvChord"] = args
	cvArgs["model.Chord.UpdateScore+cvChordLength"] = args
}
