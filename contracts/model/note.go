package model

func cvSpecified(n ScoreUpdate) Duration {
	if cvIs[Note](n) {
		return cvAs[Note](n).Duration
	}
	return cvAs[Rest](n).Duration
}

// cvMs is how long the part's current duration lasts.
func cvMs(p *Part) float64 { return cvMsOf(p.Duration, p.Tempo) * p.TimeScale }

// cvAudible is how long the note is heard on the part.
func cvAudible(n ScoreUpdate, p *Part) float64 {
	if cvAs[Note](n).Slurred {
		return cvMs(p)
	}
	return cvMs(p) * p.Quantization
}

func cvAllWF(s *Score, d Duration) bool {
	return (d.Components == nil || cvWF(d)) &&
		cvForall(0, len(s.CurrentParts), func(i int) bool { return cvWF(s.CurrentParts[i].Duration) })
}

// cvDistinct: no part is current twice.
func cvDistinct(s *Score) bool {
	return cvForall(0, len(s.CurrentParts), func(i int) bool {
		return s.CurrentParts[i] != nil && cvForall(0, i, func(j int) bool { return s.CurrentParts[i] != s.CurrentParts[j] })
	})
}

// cvMoved: part p, which was at offset at, has been advanced by the note or rest.
func cvMoved(s *Score, p *Part, at, last float64) bool {
	if s.chordMode {
		return p.CurrentOffset == at && p.LastOffset == last
	}
	return p.LastOffset == at && (!cvWF(p.Duration) || cvNear(p.CurrentOffset, at+cvMs(p)))
}

// cvNoteAt: event e is a note on part p, which was at offset at.
func cvNoteAt(e ScoreEvent, p *Part, at float64) bool {
	v := cvNote(e)
	return cvIs[NoteEvent](e) && v.Part == p.origin && v.Offset == at
}

// cvNoteLooks: the event has the part's loudness and position.
func cvNoteLooks(e ScoreEvent, p *Part) bool {
	v := cvNote(e)
	return v.Volume == p.Volume && v.TrackVolume == p.TrackVolume && v.Panning == p.Panning
}

// cvNotePitch: the event has the pitch of n on the part.
func cvNotePitch(e ScoreEvent, n ScoreUpdate, p *Part) bool {
	v := cvNote(e)
	return v.MidiNote >= 0 && v.MidiNote <= 127 &&
		cvPitchIs(cvAs[Note](n).Pitch, p.Octave, p.KeySignature, p.Transposition, v.MidiNote)
}

// cvNoteLasts: the event lasts as long as n does on the part.
func cvNoteLasts(e ScoreEvent, n ScoreUpdate, p *Part) bool {
	v := cvNote(e)
	return !cvWF(p.Duration) || cvNear(v.Duration, cvMs(p)) && cvNear(v.AudibleDuration, cvAudible(n, p))
}

// cvNoteSpan: the event reaches from the part's old offset to its new one,
// and is heard for the part's quantization of that unless slurred.
func cvNoteSpan(s *Score, e ScoreEvent, n ScoreUpdate, p *Part) bool {
	v := cvNote(e)
	if !s.chordMode && v.Offset+v.Duration != p.CurrentOffset {
		return false
	}
	if cvAs[Note](n).Slurred {
		return v.AudibleDuration == v.Duration
	}
	return v.AudibleDuration == v.Duration*p.Quantization
}

// cvAllSound: the note has a positive audible duration on the first k parts.
func cvAllSound(s *Score, n ScoreUpdate, k int) bool {
	return cvForall(0, k, func(i int) bool {
		return cvWF(s.CurrentParts[i].Duration) && cvAudible(n, s.CurrentParts[i]) > 0
	})
}

//cv:contract addNoteOrRest
//cv:props P03 P04
//cv:slow
//cv:partial
func cvAddNote(score *Score, noteOrRest ScoreUpdate) {
	cvRequires(cvScoreInv(score) && (cvIs[Note](noteOrRest) || cvIs[Rest](noteOrRest)))
	cvModifies("model.Part*", "map[float64]float64*")
	cvModifiesAt(score, "Events", "midiChannelUsage*")
	distinct := cvDistinct(score)
	spec := cvSpecified(noteOrRest)
	old := cvSnap(score)
	err := addNoteOrRest(score, noteOrRest)
	cvEnsures("the score stays well formed", cvScoreInv(score))
	cvEnsures("earlier events are kept", len(score.Events) >= len(old.Events) && cvForall(0, len(old.Events), func(i int) bool {
		return cvEq(score.Events[i], old.Events[i])
	}))
	cvShows("a rest adds no event", cvIs[Note](noteOrRest) || len(score.Events) == len(old.Events))
	cvShows("each part moves by its duration", err != nil || !distinct || cvForall(0, len(score.CurrentParts), func(i int) bool {
		return cvMoved(score, score.CurrentParts[i], old.CurrentParts[i].CurrentOffset, old.CurrentParts[i].LastOffset)
	}))
	cvShows("a written duration becomes the default", err != nil || spec.Components == nil || cvForall(0, len(score.CurrentParts), func(i int) bool {
		return cvSameSlice(score.CurrentParts[i].Duration.Components, spec.Components)
	}))
	cvShows("an invalid duration is rejected", !cvWF(spec) || cvValid(spec) || err != nil)
	cvShows("one event per part when all parts sound", err != nil || !distinct || !cvIs[Note](noteOrRest) ||
		!cvAllSound(score, noteOrRest, len(score.CurrentParts)) || len(score.Events) == len(old.Events)+len(score.CurrentParts))
	cvShows("each part's event is the note", err != nil || !distinct || !cvIs[Note](noteOrRest) || !cvAllSound(score, noteOrRest, len(score.CurrentParts)) ||
		cvConcrete(func() bool {
			return cvForall(0, len(score.CurrentParts), func(i int) bool {
				e, p := score.Events[len(old.Events)+i], score.CurrentParts[i]
				return cvNoteAt(e, p, old.CurrentParts[i].CurrentOffset) && cvNoteLooks(e, p) && cvNotePitch(e, noteOrRest, p) && cvNoteLasts(e, noteOrRest, p)
			})
		}))
	cvShows("no event when no part sounds", err != nil || !distinct || !cvIs[Note](noteOrRest) || cvExists(0, len(score.CurrentParts), func(i int) bool {
		return !(cvWF(score.CurrentParts[i].Duration) && cvAudible(noteOrRest, score.CurrentParts[i]) <= 0)
	}) || len(score.Events) == len(old.Events))
	cvShows("every new event is on one of the parts, at its offset", !distinct || cvForall(len(old.Events), len(score.Events), func(j int) bool {
		return cvExists(0, len(score.CurrentParts), func(i int) bool {
			return cvNoteAt(score.Events[j], score.CurrentParts[i], old.CurrentParts[i].CurrentOffset)
		})
	}))
	cvShows("every new event has its part's volume, track volume and panning", cvForall(len(old.Events), len(score.Events), func(j int) bool {
		return cvExists(0, len(score.CurrentParts), func(i int) bool { return cvNoteLooks(score.Events[j], score.CurrentParts[i]) })
	}))
	cvShows("every new event has the written pitch", cvForall(len(old.Events), len(score.Events), func(j int) bool {
		return cvExists(0, len(score.CurrentParts), func(i int) bool { return cvNotePitch(score.Events[j], noteOrRest, score.CurrentParts[i]) })
	}))
	cvShows("every new event spans its part's move, quantized unless slurred", !distinct || cvForall(len(old.Events), len(score.Events), func(j int) bool {
		return cvExists(0, len(score.CurrentParts), func(i int) bool { return cvNoteSpan(score, score.Events[j], noteOrRest, score.CurrentParts[i]) })
	}))
}

//cv:loop addNoteOrRest
func cvLoopNoteSticky(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return cvSpecified(noteOrRest).Components == nil || cvForall(0, k, func(i int) bool {
		return cvSameSlice(score.CurrentParts[i].Duration.Components, cvSpecified(noteOrRest).Components)
	})
}

//cv:loop addNoteOrRest
func cvLoopNoteCount(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return !cvDistinct(score) || !cvIs[Note](noteOrRest) || !cvAllSound(score, noteOrRest, k) || len(score.Events) == len(cvOld(score).Events)+k
}

//cv:loop addNoteOrRest
func cvLoopNoteLooks(score *Score, k int) bool {
	return cvForall(len(cvOld(score).Events), len(score.Events), func(j int) bool {
		return cvExists(0, k, func(i int) bool { return cvNoteLooks(score.Events[j], score.CurrentParts[i]) })
	})
}

//cv:loop addNoteOrRest
func cvLoopNotePitch(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return cvForall(len(cvOld(score).Events), len(score.Events), func(j int) bool {
		return cvExists(0, k, func(i int) bool { return cvNotePitch(score.Events[j], noteOrRest, score.CurrentParts[i]) })
	})
}

//cv:loop addNoteOrRest
func cvLoopNoteLasts(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return !cvDistinct(score) || cvForall(len(cvOld(score).Events), len(score.Events), func(j int) bool {
		return cvExists(0, k, func(i int) bool { return cvNoteSpan(score, score.Events[j], noteOrRest, score.CurrentParts[i]) })
	})
}

//cv:loop addNoteOrRest
func cvLoopNoteNone(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return !cvDistinct(score) || !cvIs[Note](noteOrRest) || cvExists(0, k, func(i int) bool {
		return !(cvWF(score.CurrentParts[i].Duration) && cvAudible(noteOrRest, score.CurrentParts[i]) <= 0)
	}) || len(score.Events) == len(cvOld(score).Events)
}

//cv:loop addNoteOrRest
func cvLoopNoteEach(score *Score, noteOrRest ScoreUpdate, k int) bool {
	return !cvDistinct(score) || cvForall(len(cvOld(score).Events), len(score.Events), func(j int) bool {
		return cvExists(0, k, func(i int) bool {
			return cvNoteAt(score.Events[j], score.CurrentParts[i], cvOld(score).CurrentParts[i].CurrentOffset)
		})
	})
}

//cv:loop addNoteOrRest
func cvLoopNotePrefix(score *Score) bool {
	return len(score.Events) >= len(cvOld(score).Events) && cvForall(0, len(cvOld(score).Events), func(i int) bool {
		return cvEq(score.Events[i], cvOld(score).Events[i])
	})
}

//cv:loop addNoteOrRest
func cvLoopRest(score *Score, noteOrRest ScoreUpdate) bool {
	return cvIs[Note](noteOrRest) || len(score.Events) == len(cvOld(score).Events)
}

//cv:loop addNoteOrRest
func cvLoopNoteMoved(score *Score, k int) bool {
	return !cvDistinct(score) || cvForall(0, k, func(i int) bool {
		return cvMoved(score, score.CurrentParts[i], cvOld(score).CurrentParts[i].CurrentOffset, cvOld(score).CurrentParts[i].LastOffset)
	})
}

//cv:loop addNoteOrRest
func cvLoopNoteAhead(score *Score, k int) bool {
	return !cvDistinct(score) || cvForall(k, len(score.CurrentParts), func(i int) bool {
		return score.CurrentParts[i].CurrentOffset == cvOld(score).CurrentParts[i].CurrentOffset &&
			score.CurrentParts[i].LastOffset == cvOld(score).CurrentParts[i].LastOffset
	})
}
