package model

import "math"

// Chords: notes and rests that start together.

func cvOctave(u PartUpdate) bool {
	return cvIs[OctaveUp](u) || cvIs[OctaveDown](u) || cvIs[OctaveSet](u)
}

// cvChordKind: what a chord is made of: notes, rests and octave changes.
func cvChordKind(u ScoreUpdate) bool {
	return cvIs[Note](u) || cvIs[Rest](u) || cvIs[AttributeUpdate](u) && cvOctave(cvAs[AttributeUpdate](u).PartUpdate)
}

// cvWritten is the duration written on an event.
func cvWritten(u ScoreUpdate) Duration {
	if cvIs[Note](u) {
		return cvAs[Note](u).Duration
	}
	if cvIs[Rest](u) {
		return cvAs[Rest](u).Duration
	}
	return Duration{}
}

// cvStill: the part has not moved, and keeps time as before.
func cvStill(p, q *Part) bool {
	return p.CurrentOffset == q.CurrentOffset && p.LastOffset == q.LastOffset && p.Tempo == q.Tempo && p.TimeScale == q.TimeScale
}

func cvSticky(u ScoreUpdate, p, q *Part) bool {
	if cvWritten(u).Components != nil {
		return cvKept(p.Duration.Components, cvWritten(u).Components)
	}
	return cvKept(p.Duration.Components, q.Duration.Components)
}

// An octave change changes nothing but the octave.
//
//cv:contract iface PartUpdate.updatePart
//cv:extra
//cv:props P09
//cv:only OctaveUp OctaveDown OctaveSet
func cvOctaveChange(pu PartUpdate, part *Part, globalUpdate bool) {
	cvRequires(pu != nil && cvPartWF(part) && cvOctave(pu))
	cvModifiesAt(part, "Octave")
	wf := cvPartInv(part)
	pu.updatePart(part, globalUpdate)
	cvEnsures("a well-formed part stays so", !wf || cvPartInv(part))
}

//cv:contract iface ScoreUpdate.UpdateScore
//cv:extra
//cv:props P09
//cv:logged
//cv:partial
//cv:only Note Rest AttributeUpdate
//cv:uses cvOctaveChange cvAddNoteInChord
func cvUpdateInChord(u ScoreUpdate, s *Score) {
	cvRequires(cvScoreInv(s) && cvChordKind(u) && s.chordMode && cvDistinct(s))
	cvModifies("model.Part*", "map[float64]float64*")
	cvModifiesAt(s, "Events", "midiChannelUsage*")
	old := cvSnap(s)
	err := u.UpdateScore(s)
	cvEnsures("the score stays well formed", cvScoreInv(s))
	cvEnsures("the parts stay where they are", err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		return cvStill(s.CurrentParts[i], old.CurrentParts[i]) && cvSticky(u, s.CurrentParts[i], old.CurrentParts[i])
	}))
	cvEnsures("earlier events are kept, and every new one starts where its part is", err != nil || cvFrom(s, old, len(old.Events)))
}

//cv:contract addNoteOrRest
//cv:extra
//cv:props P09
//cv:partial
func cvAddNoteInChord(score *Score, noteOrRest ScoreUpdate) {
	cvRequires(cvScoreInv(score) && (cvIs[Note](noteOrRest) || cvIs[Rest](noteOrRest)) && score.chordMode && cvDistinct(score))
	cvModifies("model.Part*", "map[float64]float64*")
	cvModifiesAt(score, "Events", "midiChannelUsage*")
	old := cvSnap(score)
	err := addNoteOrRest(score, noteOrRest)
	cvEnsures("the score stays well formed", cvScoreInv(score))
	cvEnsures("the parts stay where they are", err != nil || cvForall(0, len(score.CurrentParts), func(i int) bool {
		return cvStill(score.CurrentParts[i], old.CurrentParts[i]) && cvSticky(noteOrRest, score.CurrentParts[i], old.CurrentParts[i])
	}))
	cvEnsures("earlier events are kept, and every new one starts where its part is", err != nil || cvFrom(score, old, len(old.Events)))
}

//cv:loop addNoteOrRest
func cvLoopNoteStill(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return !score.chordMode || !cvDistinct(score) || cvForall(0, len(score.CurrentParts), func(i int) bool {
		p, q := score.CurrentParts[i], cvOld(score).CurrentParts[i]
		return cvStill(p, q) && (i >= k && cvKept(p.Duration.Components, q.Duration.Components) || i < k && cvSticky(noteOrRest, p, q))
	})
}

// cvFrom: the events from the n-th on start where one of the parts was.
func cvFrom(s, old *Score, n int) bool {
	return len(s.Events) >= len(old.Events) && cvForall(n, len(s.Events), func(j int) bool {
		return cvExists(0, len(s.CurrentParts), func(i int) bool {
			return cvNoteAt(s.Events[j], s.CurrentParts[i], old.CurrentParts[i].CurrentOffset)
		})
	})
}

// cvInForce is the duration in force after the first n events.
//
//cv:rec
func cvInForce(us []ScoreUpdate, n int, d []DurationComponent) []DurationComponent {
	if n <= 0 {
		return d
	}
	if cvWritten(us[n-1]).Components != nil {
		return cvWritten(us[n-1]).Components
	}
	return cvInForce(us, n-1, d)
}

// cvShortest is the shortest of the durations in force at the first n events.
//
//cv:rec
func cvShortest(us []ScoreUpdate, n int, d []DurationComponent, tempo, scale float64) float64 {
	if n <= 0 {
		return math.MaxFloat64
	}
	cs := cvInForce(us, n, d)
	return math.Min(cvShortest(us, n-1, d, tempo, scale), cvMsSum(cs, len(cs), tempo)*scale)
}

// cvChordOK: a chord as the language allows it.
func cvChordOK(c Chord) bool {
	return len(c.Events) > 0 && cvForall(0, len(c.Events), func(i int) bool { return cvChordKind(c.Events[i]) })
}

//cv:contract Chord.UpdateScore
//cv:extra
//cv:props P09
//cv:noframe
//cv:partial
//cv:uses cvUpdateInChord
func cvChord(chord Chord, s *Score) {
	cvRequires(cvScoreInv(s) && cvDistinct(s) && cvChordOK(chord))
	t := cvTraceStart()
	cvObserve("UpdateScore", func(u ScoreUpdate, s *Score) bool { return s.chordMode })
	old := cvSnap(s)
	err := chord.UpdateScore(s)
	cvEnsures("the chord ends", !s.chordMode || cvProof(func() bool { return err != nil && cvCalls() == 0 }) && old.chordMode)
	cvEnsures("its events are applied in order, as parts of a chord", cvProof(func() bool { return cvTraceIs(cvTogetherRun(t, chord.Events, s, cvCalls())) }))
	cvEnsures("all of them unless one fails", cvProof(func() bool { return cvCalls() == len(chord.Events) || err != nil }))
	cvEnsures("every note starts where its part was", cvConcrete(func() bool { return err != nil || cvFrom(s, old, len(old.Events)) }))
	cvEnsures("each part moves on from where it was", err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		return s.CurrentParts[i].LastOffset == old.CurrentParts[i].CurrentOffset
	}))
}

//cv:contract Chord.UpdateScore
//cv:extra
//cv:props P09
//cv:noframe
//cv:partial
//cv:unfold
//cv:uses cvUpdateInChord cvApplyGlobal
func cvChordLength(chord Chord, s *Score) {
	cvRequires(cvScoreInv(s) && cvDistinct(s) && cvChordOK(chord))
	cvRequires(cvForall(0, len(chord.Events), func(i int) bool {
		return cvWritten(chord.Events[i]).Components == nil || cvWF(cvWritten(chord.Events[i]))
	}))
	cvRequires(cvForall(0, len(s.CurrentParts), func(i int) bool {
		return cvWF(s.CurrentParts[i].Duration) && !cvPending(s, s.CurrentParts[i])
	}))
	old := cvSnap(s)
	err := chord.UpdateScore(s)
	cvEnsures("each part moves on by the shortest note or rest", cvConcrete(func() bool {
		return err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
			p, q := s.CurrentParts[i], old.CurrentParts[i]
			return cvNear(p.CurrentOffset, q.CurrentOffset+cvShortest(chord.Events, len(chord.Events), q.Duration.Components, q.Tempo, q.TimeScale))
		})
	}))
	cvEnsures("the last written duration is the default of what follows", cvConcrete(func() bool {
		return err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
			p, q := s.CurrentParts[i], old.CurrentParts[i]
			return cvKept(p.Duration.Components, cvInForce(chord.Events, len(chord.Events), q.Duration.Components))
		})
	}))
	cvEnsures("every note of it sounds on every part, at its pitch, for its own duration", cvConcrete(func() bool {
		return err != nil || cvChordPlays(chord.Events, s, old)
	}))
}

// cvChordPlays: the new events are the notes of the chord, on each part.
func cvChordPlays(us []ScoreUpdate, s, old *Score) bool {
	n := len(old.Events)
	octave := []int32{}
	for i := range s.CurrentParts {
		octave = append(octave, old.CurrentParts[i].Octave)
	}
	for k, u := range us {
		for i, p := range s.CurrentParts {
			q := old.CurrentParts[i]
			if cvIs[AttributeUpdate](u) {
				switch pu := cvAs[AttributeUpdate](u).PartUpdate.(type) {
				case OctaveUp:
					octave[i]++
				case OctaveDown:
					octave[i]--
				case OctaveSet:
					octave[i] = pu.OctaveNumber
				}
			}
			if !cvIs[Note](u) {
				continue
			}
			note := cvAs[Note](u)
			cs := cvInForce(us, k+1, q.Duration.Components)
			ms := cvMsSum(cs, len(cs), q.Tempo) * q.TimeScale
			heard := ms
			if !note.Slurred {
				heard = ms * q.Quantization
			}
			if heard <= 0 {
				continue
			}
			if n >= len(s.Events) || !cvNoteAt(s.Events[n], p, q.CurrentOffset) || !cvNoteLooks(s.Events[n], p) {
				return false
			}
			v := cvNote(s.Events[n])
			if !cvPitchIs(note.Pitch, octave[i], q.KeySignature, q.Transposition, v.MidiNote) || !cvNear(v.Duration, ms) || !cvNear(v.AudibleDuration, heard) {
				return false
			}
			n++
		}
	}
	return n == len(s.Events) && cvForall(0, len(s.CurrentParts), func(i int) bool { return s.CurrentParts[i].Octave == octave[i] })
}

//cv:rec
func cvTogetherRun(t cvTrace, us []ScoreUpdate, s *Score, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvTogetherRun(t, us, s, n-1), "UpdateScore", us[n-1], s, true)
}

//cv:loop Chord.UpdateScore+cvChord
func cvLoopChordTrace(chord Chord, score *Score, over []ScoreUpdate, k int) bool {
	return score.chordMode && cvCalls() == k && cvTraceIs(cvTogetherRun(cvTracePre(), chord.Events, score, k))
}

//cv:loop Chord.UpdateScore+cvChordLength
func cvLoopChordMode(chord Chord, score *Score, over []ScoreUpdate, k int) bool {
	return score.chordMode
}

//cv:loop Chord.UpdateScore
func cvLoopChordStill(score *Score, over []ScoreUpdate, k int) bool {
	return cvForall(0, len(score.CurrentParts), func(i int) bool { return cvStill(score.CurrentParts[i], cvPre(score).CurrentParts[i]) })
}

//cv:loop Chord.UpdateScore+cvChord
func cvLoopChordFrom(score *Score, over []ScoreUpdate) bool {
	return cvFrom(score, cvPre(score), len(cvPre(score).Events))
}

//cv:loop Chord.UpdateScore+cvChord
func cvLoopChordPlaced(score *Score, over []*Part, k int) bool {
	return score.chordMode || cvForall(0, k, func(i int) bool {
		return score.CurrentParts[i].LastOffset == cvPre(score).CurrentParts[i].CurrentOffset
	}) &&
		cvForall(k, len(score.CurrentParts), func(i int) bool {
			return score.CurrentParts[i].CurrentOffset == cvPre(score).CurrentParts[i].CurrentOffset
		})
}

//cv:loop Chord.UpdateScore+cvChordLength
func cvLoopChordForce(chord Chord, score *Score, over []ScoreUpdate, k int) bool {
	return cvForall(0, len(score.CurrentParts), func(i int) bool {
		return cvKept(score.CurrentParts[i].Duration.Components, cvInForce(chord.Events, k, cvPre(score).CurrentParts[i].Duration.Components)) &&
			cvWF(score.CurrentParts[i].Duration)
	})
}

//cv:loop Chord.UpdateScore+cvChordLength
func cvLoopChordShortest(chord Chord, score *Score, locShortest map[*Part]float64, over []ScoreUpdate, k int) bool {
	return cvForall(0, len(score.CurrentParts), func(i int) bool {
		p := cvPre(score).CurrentParts[i]
		return locShortest[score.CurrentParts[i]] == cvShortest(chord.Events, k, p.Duration.Components, p.Tempo, p.TimeScale)
	})
}

// cvShorter: m is the shorter of was and what the event would take on part p.
func cvShorter(m, was float64, u ScoreUpdate, p *Part) bool {
	d := p.Duration
	if cvWritten(u).Components != nil {
		d = cvWritten(u)
	}
	return m == math.Min(was, cvMsSum(d.Components, len(d.Components), p.Tempo)*p.TimeScale)
}

//cv:loop Chord.UpdateScore+cvChordLength
func cvLoopChordShorter(score *Score, locEvent ScoreUpdate, locShortest map[*Part]float64, over []*Part, k int) bool {
	return cvForall(0, k, func(i int) bool {
		p := score.CurrentParts[i]
		return cvShorter(locShortest[p], cvPre(locShortest)[p], locEvent, p)
	}) && cvForall(k, len(score.CurrentParts), func(i int) bool {
		return locShortest[score.CurrentParts[i]] == cvPre(locShortest)[score.CurrentParts[i]]
	})
}

//cv:loop Chord.UpdateScore+cvChordLength
func cvLoopChordInit(score *Score, locShortest map[*Part]float64, over []*Part, k int) bool {
	return cvForall(0, k, func(i int) bool { return locShortest[score.CurrentParts[i]] == math.MaxFloat64 })
}

//cv:loop Chord.UpdateScore+cvChordLength
func cvLoopChordMove(score *Score, locShortest map[*Part]float64, over []*Part, k int) bool {
	return score.chordMode || cvForall(0, k, func(i int) bool {
		return score.CurrentParts[i].CurrentOffset == cvPre(score).CurrentParts[i].CurrentOffset+locShortest[score.CurrentParts[i]]
	}) && cvForall(k, len(score.CurrentParts), func(i int) bool {
		return score.CurrentParts[i].CurrentOffset == cvPre(score).CurrentParts[i].CurrentOffset
	})
}
