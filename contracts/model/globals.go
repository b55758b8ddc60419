package model

import "reflect"

// cvWinLen counts the changes at the first n offsets that lie in the window.
//
//cv:rec
func cvWinLen(ga GlobalAttributes, n int, from, to float64) int {
	if n <= 0 {
		return 0
	}
	if ga.offsets[n-1] > from && ga.offsets[n-1] <= to {
		return cvWinLen(ga, n-1, from, to) + len(ga.itinerary[ga.offsets[n-1]])
	}
	return cvWinLen(ga, n-1, from, to)
}

// cvWinAt: us lists, in order, the changes recorded at the first n offsets that
// lie in the window.
func cvWinAt(ga GlobalAttributes, us []PartUpdate, n int, from, to float64) bool {
	return len(us) == cvWinLen(ga, n, from, to) && cvForall(0, n, func(i int) bool {
		o := ga.offsets[i]
		return !(o > from && o <= to) ||
			cvWinLen(ga, i, from, to)+len(ga.itinerary[o]) <= len(us) && cvForall(0, len(ga.itinerary[o]), func(j int) bool {
				return cvEq(us[cvWinLen(ga, i, from, to)+j], ga.itinerary[o][j])
			})
	})
}

// cvWindow: us lists, in order, the changes recorded after from and up to to.
func cvWindow(ga GlobalAttributes, us []PartUpdate, from, to float64) bool {
	return cvExists(0, len(ga.offsets)+1, func(n int) bool {
		return cvWinAt(ga, us, n, from, to) &&
			cvForall(n, len(ga.offsets), func(i int) bool { return ga.offsets[i] > to })
	})
}

//cv:contract GlobalAttributes.InWindow
//cv:props P07
//cv:logged
func cvInWindow(ga GlobalAttributes, startOffset float64, endOffset float64) {
	cvRequires(cvGlobalsInv(&ga))
	us := ga.InWindow(startOffset, endOffset)
	cvEnsures("the changes recorded after the start and up to the end, in order", cvWindow(ga, us, startOffset, endOffset))
	cvEnsures("none when none is in the window", len(us) == 0 || cvExists(0, len(ga.offsets), func(i int) bool {
		return ga.offsets[i] > startOffset && ga.offsets[i] <= endOffset
	}))
}

//cv:loop GlobalAttributes.InWindow
func cvLoopInWindow(ga GlobalAttributes, startOffset, endOffset float64, k int, acc []PartUpdate) bool {
	return cvWinAt(ga, acc, k, startOffset, endOffset)
}

//cv:loop GlobalAttributes.InWindow
func cvLoopInWindowNone(ga GlobalAttributes, startOffset, endOffset float64, k int, acc []PartUpdate) bool {
	return len(acc) == 0 || cvExists(0, k, func(i int) bool { return ga.offsets[i] > startOffset && ga.offsets[i] <= endOffset })
}

//cv:contract (*GlobalAttributes).Record
//cv:props P07
func cvRecord(ga *GlobalAttributes, offset float64, update PartUpdate) {
	cvRequires(cvGlobalsInv(ga) && update != nil)
	cvModifiesAt(ga, "offsets")
	cvModifiesAt(ga.itinerary)
	old := cvSnap(ga)
	was := len(old.itinerary[offset])
	ga.Record(offset, update)
	cvEnsures("the itinerary stays sorted and complete", cvGlobalsInv(ga))
	cvEnsures("the change is recorded last at its offset", len(ga.itinerary[offset]) == was+1 && cvEq(ga.itinerary[offset][was], update))
	cvEnsures("earlier changes at the offset are kept", cvForall(0, was, func(i int) bool { return cvEq(ga.itinerary[offset][i], old.itinerary[offset][i]) }))
	cvEnsures("other offsets are unchanged", cvForallKey(ga.itinerary, func(o float64, us []PartUpdate) bool {
		return o == offset || cvSameSlice(us, old.itinerary[o])
	}) && cvForallKey(old.itinerary, func(o float64, us []PartUpdate) bool {
		return o == offset || cvSameSlice(us, ga.itinerary[o])
	}))
}

// cvOverrides: an attribute of that kind was changed locally.
func cvOverrides(locals []PartUpdate, u PartUpdate) bool {
	return cvExists(0, len(locals), func(i int) bool { return reflect.TypeOf(locals[i]) == reflect.TypeOf(u) })
}

//cv:contract (*Part).overridesLocally
//cv:props P07
func cvOverridesLocally(part *Part, update PartUpdate) {
	cvRequires(part != nil)
	b := part.overridesLocally(update)
	cvEnsures("whether such an attribute was changed locally", b == cvOverrides(part.localAttributeOverrides, update))
}

//cv:loop (*Part).overridesLocally
func cvLoopOverrides(part *Part, update PartUpdate, k int) bool {
	return !cvExists(0, k, func(i int) bool { return reflect.TypeOf(part.localAttributeOverrides[i]) == reflect.TypeOf(update) })
}

// cvApply: the changes us[0:n] were made to the part, but for those of a kind
// it changed locally.
//
//cv:rec
func cvApply(t cvTrace, part *Part, locals []PartUpdate, us []PartUpdate, n int) cvTrace {
	if n <= 0 {
		return t
	}
	if cvOverrides(locals, us[n-1]) {
		return cvApply(t, part, locals, us, n-1)
	}
	return cvCalled(cvApply(t, part, locals, us, n-1), "updatePart", us[n-1], part, true)
}

// cvApplyParts: the first n current parts were brought up to date.
//
//cv:rec
func cvApplyParts(t cvTrace, s *Score, old *Score, n int) cvTrace {
	if n <= 0 {
		return t
	}
	p := old.CurrentParts[n-1]
	w := cvCalled(cvApplyParts(t, s, old, n-1), "InWindow", *old.GlobalAttributes, p.LastOffset, p.CurrentOffset)
	us := cvResult[[]PartUpdate](w)
	return cvApply(w, s.CurrentParts[n-1], p.localAttributeOverrides, us, len(us))
}

// cvKeptAttrs: the part has kept its attributes.
func cvKeptAttrs(a, b *Part) bool {
	return a.Octave == b.Octave && a.Tempo == b.Tempo && a.Volume == b.Volume && a.TrackVolume == b.TrackVolume &&
		a.Panning == b.Panning && a.Quantization == b.Quantization && a.Transposition == b.Transposition &&
		a.ReferencePitch == b.ReferencePitch && cvKept(a.Duration.Components, b.Duration.Components) && cvKept(a.KeySignature, b.KeySignature)
}

// cvPending: a recorded change is due for the part.
func cvPending(s *Score, p *Part) bool {
	return cvExists(0, len(s.GlobalAttributes.offsets), func(i int) bool {
		return s.GlobalAttributes.offsets[i] > p.LastOffset && s.GlobalAttributes.offsets[i] <= p.CurrentOffset
	})
}

//cv:contract (*Score).ApplyGlobalAttributes
//cv:props P07
//cv:partial
func cvApplyGlobalKeeps(s *Score) {
	cvRequires(cvScoreInv(s))
	cvModifiesEach(s.CurrentParts, "Tempo", "Octave", "Volume", "TrackVolume", "Panning", "Quantization", "Duration",
		"KeySignature", "Transposition", "ReferencePitch", "MidiChannel", "HasExplicitMidiChannel", "localAttributeOverrides*")
	cvModifies("map[float64]float64*")
	s.ApplyGlobalAttributes()
	cvEnsures("every part stays well formed", cvPartsInv(s))
}

//cv:contract (*Score).ApplyGlobalAttributes
//cv:extra
//cv:props P07 P09
//cv:partial
func cvApplyGlobal(s *Score) {
	cvRequires(cvScoreInv(s))
	cvModifiesEach(s.CurrentParts, "Tempo", "Octave", "Volume", "TrackVolume", "Panning", "Quantization", "Duration",
		"KeySignature", "Transposition", "ReferencePitch", "MidiChannel", "HasExplicitMidiChannel", "localAttributeOverrides*")
	cvModifies("map[float64]float64*")
	t := cvTraceStart()
	old := cvSnap(s)
	err := s.ApplyGlobalAttributes()
	cvEnsures("every part stays well formed", cvPartsInv(s))
	cvEnsures("local changes no longer override later global ones", err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		return len(s.CurrentParts[i].localAttributeOverrides) == 0
	}))
	cvEnsures("a part with no change due keeps its attributes", err != nil || !cvDistinct(old) || cvForall(0, len(s.CurrentParts), func(i int) bool {
		p, q := s.CurrentParts[i], old.CurrentParts[i]
		return cvPending(old, q) || cvKeptAttrs(p, q) && p.MidiChannel == q.MidiChannel
	}))
	cvShows("every part gets the changes due, in order, but for those it overrides", err != nil || !cvDistinct(old) ||
		cvProof(func() bool { return cvTraceIs(cvApplyParts(t, s, old, len(s.CurrentParts))) }) &&
			cvConcrete(func() bool {
				w := t
				for i := range s.CurrentParts {
					q := old.CurrentParts[i]
					for _, o := range old.GlobalAttributes.offsets {
						if o > q.LastOffset && o <= q.CurrentOffset {
							us := old.GlobalAttributes.itinerary[o]
							w = cvApply(w, s.CurrentParts[i], q.localAttributeOverrides, us, len(us))
						}
					}
				}
				return cvTraceIs(w)
			}))
}

//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyInv(s *Score) bool { return cvPartsInv(s) }

//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyDone(s *Score, k int) bool {
	return cvForall(0, k, func(i int) bool { return len(s.CurrentParts[i].localAttributeOverrides) == 0 })
}

//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyTrace(s *Score, k int) bool {
	return !cvDistinct(s) || cvTraceIs(cvApplyParts(cvTraceStart(), s, cvOld(s), k))
}

//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyAhead(s *Score, k int) bool {
	return !cvDistinct(s) || cvForall(k, len(s.CurrentParts), func(i int) bool {
		return cvKept(s.CurrentParts[i].localAttributeOverrides, cvOld(s).CurrentParts[i].localAttributeOverrides) &&
			cvKeptAttrs(s.CurrentParts[i], cvOld(s).CurrentParts[i]) && s.CurrentParts[i].MidiChannel == cvOld(s).CurrentParts[i].MidiChannel
	})
}

//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyIdle(s *Score, k int) bool {
	return !cvDistinct(s) || cvForall(0, k, func(i int) bool {
		p, q := s.CurrentParts[i], cvOld(s).CurrentParts[i]
		return cvPending(cvOld(s), q) || cvKeptAttrs(p, q) && p.MidiChannel == q.MidiChannel
	})
}

// the changes within one part
//
//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyWithin(s *Score, locPart *Part, locUpdates []PartUpdate, k int) bool {
	return cvTraceIs(cvApply(cvTracePre(), locPart, locPart.localAttributeOverrides, locUpdates, k))
}

// cvUntouched: part i has the attributes it had when the loop began.
func cvUntouched(s, pre *Score, i int) bool {
	return cvKeptAttrs(s.CurrentParts[i], pre.CurrentParts[i]) && s.CurrentParts[i].MidiChannel == pre.CurrentParts[i].MidiChannel
}

//cv:loop (*Score).ApplyGlobalAttributes
func cvLoopApplyOthers(s *Score, locPart *Part, k int) bool {
	return cvForall(0, len(s.CurrentParts), func(i int) bool {
		return k > 0 && s.CurrentParts[i] == locPart || cvUntouched(s, cvPre(s), i)
	})
}

// cvChanged: the change was made to each of the first n current parts.
//
//cv:rec
func cvChanged(t cvTrace, s *Score, u PartUpdate, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvChanged(t, s, u, n-1), "updatePart", u, s.CurrentParts[n-1], false)
}

//cv:contract AttributeUpdate.UpdateScore
//cv:props P07
//cv:extra
//cv:noframe
//cv:partial
func cvLocalUpdate(au AttributeUpdate, s *Score) {
	cvRequires(cvScoreInv(s))
	t := cvTraceStart()
	old := cvSnap(s)
	err := au.UpdateScore(s)
	cvEnsures("every current part gets the change, as a local one", err != nil || cvTraceIs(cvChanged(t, s, au.PartUpdate, len(s.CurrentParts))))
	cvEnsures("the change is remembered as local, after the ones already made", err != nil || !cvDistinct(old) || cvForall(0, len(s.CurrentParts), func(i int) bool {
		a, b := s.CurrentParts[i].localAttributeOverrides, old.CurrentParts[i].localAttributeOverrides
		return len(a) == len(b)+1 && cvEq(a[len(b)], au.PartUpdate) && cvForall(0, len(b), func(j int) bool { return cvEq(a[j], b[j]) })
	}))
	cvEnsures("no change to the global itinerary", cvSameSlice(s.GlobalAttributes.offsets, old.GlobalAttributes.offsets) &&
		cvSameMap(s.GlobalAttributes.itinerary, old.GlobalAttributes.itinerary))
}

//cv:loop AttributeUpdate.UpdateScore
func cvLoopLocalTrace(au AttributeUpdate, score *Score, k int) bool {
	return cvTraceIs(cvChanged(cvTraceStart(), score, au.PartUpdate, k))
}

//cv:loop AttributeUpdate.UpdateScore
func cvLoopLocalSaved(au AttributeUpdate, score *Score, k int) bool {
	return !cvDistinct(score) || cvForall(0, k, func(i int) bool {
		a, b := score.CurrentParts[i].localAttributeOverrides, cvOld(score).CurrentParts[i].localAttributeOverrides
		return len(a) == len(b)+1 && cvEq(a[len(b)], au.PartUpdate) && cvForall(0, len(b), func(j int) bool { return cvEq(a[j], b[j]) })
	})
}

//cv:loop AttributeUpdate.UpdateScore
func cvLoopLocalAhead(score *Score, k int) bool {
	return !cvDistinct(score) || cvForall(k, len(score.CurrentParts), func(i int) bool {
		return cvKept(score.CurrentParts[i].localAttributeOverrides, cvOld(score).CurrentParts[i].localAttributeOverrides)
	})
}

// cvTogether: all current parts are at the same place.
func cvTogether(s *Score) bool {
	return cvForall(0, len(s.CurrentParts), func(i int) bool { return s.CurrentParts[i].CurrentOffset == s.CurrentParts[0].CurrentOffset })
}

//cv:contract GlobalAttributeUpdate.UpdateScore
//cv:props P07
//cv:extra
//cv:partial
func cvGlobalUpdate(gau GlobalAttributeUpdate, s *Score) {
	cvRequires(cvScoreInv(s))
	cvModifiesAt(s.GlobalAttributes, "offsets")
	cvModifiesAt(s.GlobalAttributes.itinerary)
	old := cvSnap(s)
	err := gau.UpdateScore(s)
	cvEnsures("refused exactly when the current parts are at different places", (err != nil) == !cvTogether(old))
	at := 0.0
	if len(s.CurrentParts) > 0 {
		at = s.CurrentParts[0].CurrentOffset
	}
	was := len(old.GlobalAttributes.itinerary[at])
	us := s.GlobalAttributes.itinerary[at]
	cvEnsures("recorded at the place the current parts have reached (at 0 without any), after what was recorded there", err != nil ||
		len(us) == was+1 && cvEq(us[was], gau.PartUpdate) && cvForall(0, was, func(i int) bool { return cvEq(us[i], old.GlobalAttributes.itinerary[at][i]) }))
	cvEnsures("nothing else is recorded", err == nil || cvSameMap(s.GlobalAttributes.itinerary, old.GlobalAttributes.itinerary))
	cvEnsures("other places keep what was recorded", cvForallKey(s.GlobalAttributes.itinerary, func(o float64, us []PartUpdate) bool {
		return o == at || cvSameSlice(us, old.GlobalAttributes.itinerary[o])
	}) && cvForallKey(old.GlobalAttributes.itinerary, func(o float64, us []PartUpdate) bool {
		return o == at || cvSameSlice(us, s.GlobalAttributes.itinerary[o])
	}))
}

//cv:loop GlobalAttributeUpdate.UpdateScore
func cvLoopTogether(score *Score, k int) bool {
	return cvForall(0, k+1, func(i int) bool { return score.CurrentParts[i].CurrentOffset == score.CurrentParts[0].CurrentOffset })
}
