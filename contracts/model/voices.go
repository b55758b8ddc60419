package model

func cvAllParts(p *Part) bool {
	return cvForallRef(p, func(q *Part) bool { return cvPartInv(q) })
}

//cv:contract (*Part).GetVoice
//cv:props P13
//cv:partial
func cvGetVoice(part *Part, voiceNumber int32) {
	cvRequires(part != nil && cvAllParts(part))
	cvModifies("alloc$model.Part")
	cvModifiesAt(part, "voiceTemplate")
	cvModifiesAt(part.voices, "insertionOrder")
	cvModifiesAt(part.voices.voices)
	old := cvSnap(part)
	known, had := part.voices.voices[voiceNumber]
	none := len(part.voices.voices) == 0
	v := part.GetVoice(voiceNumber)
	now, ok := part.voices.voices[voiceNumber]
	cvEnsures("there is a voice", v != nil)
	cvEnsures("every part stays well formed", cvAllParts(part))
	cvEnsures("a known voice is found again", !had || v == known && len(part.voices.voices) == len(old.voices.voices) && len(part.voices.insertionOrder) == len(old.voices.insertionOrder))
	cvEnsures("finding a known voice changes nothing", !had || cvSameMap(part.voices.voices, old.voices.voices) &&
		cvSameSlice(part.voices.insertionOrder, old.voices.insertionOrder) && cvSame(part.voiceTemplate, old.voiceTemplate))
	cvEnsures("the voice is kept under its number", ok && now == v)
	cvEnsures("other voices are kept", cvForallKey(old.voices.voices, func(n int32, p *Part) bool {
		q, has := part.voices.voices[n]
		return has && (n == voiceNumber || cvSame(q, p))
	}))
	cvEnsures("a new voice is the last of the group", had || len(part.voices.insertionOrder) == len(old.voices.insertionOrder)+1 &&
		part.voices.insertionOrder[len(old.voices.insertionOrder)] == voiceNumber)
	cvEnsures("a new voice starts where the group started", had || part.voiceTemplate != nil && v.CurrentOffset == part.voiceTemplate.CurrentOffset &&
		v.LastOffset == part.voiceTemplate.LastOffset)
	cvEnsures("a new voice starts with the attributes of the group", had || v.Octave == part.voiceTemplate.Octave && v.Tempo == part.voiceTemplate.Tempo &&
		v.Volume == part.voiceTemplate.Volume && v.TrackVolume == part.voiceTemplate.TrackVolume && v.Panning == part.voiceTemplate.Panning &&
		v.Quantization == part.voiceTemplate.Quantization && v.Transposition == part.voiceTemplate.Transposition && v.TimeScale == part.voiceTemplate.TimeScale &&
		cvSameSlice(v.Duration.Components, part.voiceTemplate.Duration.Components))
	cvEnsures("a new voice belongs to the same instrument", had || v.origin == part.voiceTemplate.origin && v.voices == part.voiceTemplate.voices)
	cvEnsures("the group starts in the state the part had", had || !none || part.voiceTemplate.CurrentOffset == old.CurrentOffset && part.voiceTemplate.LastOffset == old.LastOffset &&
		part.voiceTemplate.Octave == old.Octave && part.voiceTemplate.Tempo == old.Tempo && part.voiceTemplate.Volume == old.Volume &&
		part.voiceTemplate.TrackVolume == old.TrackVolume && part.voiceTemplate.Panning == old.Panning && part.voiceTemplate.Quantization == old.Quantization &&
		part.voiceTemplate.Transposition == old.Transposition && part.voiceTemplate.TimeScale == old.TimeScale &&
		cvSame(part.voiceTemplate.origin, old.origin) && cvSameSlice(part.voiceTemplate.Duration.Components, old.Duration.Components))
	cvEnsures("later voices start where the first did", none || cvSame(part.voiceTemplate, old.voiceTemplate))
}

//cv:contract (*Part).Clone
//cv:props P13
//cv:partial
func cvClone(part *Part) {
	cvModifies("alloc$model.Part")
	wf := cvAllParts(part)
	c := part.Clone()
	cvEnsures("a new part", part != nil && c != nil && c != part && cvFresh(c))
	cvEnsures("every part stays well formed", !wf || cvAllParts(part))
	cvEnsures("in the same place", c.CurrentOffset == part.CurrentOffset && c.LastOffset == part.LastOffset && c.currentRepetition == part.currentRepetition)
	cvEnsures("with the same attributes", cvSameAttrs(c, part))
	cvEnsures("of the same instrument", c.Name == part.Name && cvEq(c.StockInstrument, part.StockInstrument) && c.TempoRole == part.TempoRole &&
		c.MidiChannel == part.MidiChannel && c.HasExplicitMidiChannel == part.HasExplicitMidiChannel && c.origin == part.origin)
	cvEnsures("in the same group of voices", c.voiceTemplate == part.voiceTemplate && c.voices == part.voices)
	cvEnsures("with the same local changes", len(c.localAttributeOverrides) == len(part.localAttributeOverrides) &&
		cvForall(0, len(part.localAttributeOverrides), func(i int) bool {
			return cvEq(c.localAttributeOverrides[i], part.localAttributeOverrides[i])
		}))
	cvEnsures("with its own tempo history", part.TempoValues == nil || cvSameMap(c.TempoValues, part.TempoValues) && cvFresh(c.TempoValues))
}

// cvSameAttrs: the two parts have the same attributes.
func cvSameAttrs(a, b *Part) bool {
	return a.Octave == b.Octave && a.Tempo == b.Tempo && a.Volume == b.Volume && a.TrackVolume == b.TrackVolume &&
		a.Panning == b.Panning && a.Quantization == b.Quantization && a.Transposition == b.Transposition && a.TimeScale == b.TimeScale &&
		a.ReferencePitch == b.ReferencePitch && cvSameSlice(a.Duration.Components, b.Duration.Components) && cvSameMap(a.KeySignature, b.KeySignature)
}

// cvVoicesApart: different parts have their own voices.
func cvVoicesApart(ps []*Part) bool {
	return cvForall(0, len(ps), func(i int) bool {
		return cvForall(0, len(ps), func(j int) bool {
			return i == j || ps[i].origin != ps[j].origin && ps[i].voices != ps[j].voices &&
				cvProof(func() bool { return !cvKept(ps[i].voices.voices, ps[j].voices.voices) })
		})
	})
}

// cvVoicesOwn: the voices of a part belong to the same instrument.
func cvVoicesOwn(p *Part) bool {
	return cvForallKey(p.voices.voices, func(n int32, v *Part) bool { return v != nil && v.origin == p.origin })
}

func cvVoicesThere(p *Part) bool { return p.voices != nil && p.voices.voices != nil }

func cvTemplateOwn(p *Part) bool {
	return p.voiceTemplate == nil && len(p.voices.voices) == 0 || p.voiceTemplate.origin == p.origin && len(p.voices.voices) != 0
}

// cvAllVoices: the current parts have voices, each their own.
func cvAllVoices(ps []*Part) bool {
	return cvForall(0, len(ps), func(i int) bool { return cvVoicesThere(ps[i]) }) &&
		cvForall(0, len(ps), func(i int) bool { return cvVoicesOwn(ps[i]) }) &&
		cvForall(0, len(ps), func(i int) bool { return cvTemplateOwn(ps[i]) })
}

func cvKeptVoices(p, q *Part) bool {
	return p.voiceTemplate == q.voiceTemplate && cvKept(p.voices.insertionOrder, q.voices.insertionOrder) && cvSameMap(p.voices.voices, q.voices.voices)
}

//cv:contract VoiceMarker.UpdateScore
//cv:props P13
//cv:extra
//cv:noframe
//cv:partial
func cvVoiceMarker(vm VoiceMarker, s *Score) {
	cvRequires(cvPartsInv(s))
	cvRequires(cvAllVoices(s.CurrentParts))
	cvRequires(cvVoicesApart(s.CurrentParts))
	old := cvSnap(s)
	err := vm.UpdateScore(s)
	cvEnsures("never refused", err == nil)
	cvEnsures("the number of current parts stays", len(s.CurrentParts) == len(old.CurrentParts))
	cvEnsures("every current part goes on in its voice of that number, which belongs to the same instrument", cvConcrete(func() bool {
		return cvForall(0, len(s.CurrentParts), func(i int) bool { return cvInVoice(s, old, i, vm.VoiceNumber) })
	}))
	cvEnsures("a voice already begun goes on where it was", cvConcrete(func() bool {
		return cvForall(0, len(s.CurrentParts), func(i int) bool { return cvVoiceKept(old, i, vm.VoiceNumber) })
	}))
	cvEnsures("a new voice begins where the first voice began, with the attributes the part had then", cvConcrete(func() bool {
		return cvForall(0, len(s.CurrentParts), func(i int) bool { return cvVoiceBegun(old, i, vm.VoiceNumber) })
	}))
}

// cvInVoice: part i has gone on to its voice n.
func cvInVoice(s, old *Score, i int, n int32) bool {
	q := old.CurrentParts[i]
	v, ok := cvNow(q).voices.voices[n]
	return ok && cvSame(s.CurrentParts[i], v) && cvSame(v.origin, q.origin)
}

// cvVoiceKept: a voice already begun is still the same.
func cvVoiceKept(old *Score, i int, n int32) bool {
	q := old.CurrentParts[i]
	was, had := q.voices.voices[n]
	return !had || cvSame(cvNow(q).voices.voices[n], was)
}

// cvVoiceBegun: a new voice begins where the group of voices began.
func cvVoiceBegun(old *Score, i int, n int32) bool {
	q := old.CurrentParts[i]
	if _, had := q.voices.voices[n]; had {
		return true
	}
	v := cvNow(q).voices.voices[n]
	from := q
	if len(q.voices.voices) != 0 {
		from = q.voiceTemplate
	}
	return v.CurrentOffset == from.CurrentOffset && v.LastOffset == from.LastOffset && cvSameAttrs(v, from)
}

// cvOneOf: p is one of the voices of q.
func cvOneOf(p, q *Part) bool {
	return cvExists(0, len(q.voices.insertionOrder), func(j int) bool { return cvSame(q.voices.voices[q.voices.insertionOrder[j]], p) })
}

//cv:contract VoiceGroupEndMarker.UpdateScore
//cv:props P13
//cv:extra
//cv:bounded
//cv:noframe
//cv:partial
func cvGroupEnd(vm VoiceGroupEndMarker, s *Score) {
	cvRequires(cvPartsInv(s))
	cvRequires(cvAllVoices(s.CurrentParts))
	cvRequires(cvVoicesApart(s.CurrentParts))
	old := cvSnap(s)
	err := vm.UpdateScore(s)
	cvEnsures("never refused", err == nil)
	cvEnsures("the number of parts stays", len(s.CurrentParts) == len(old.CurrentParts) && len(s.Parts) == len(old.Parts))
	cvEnsures("a part without voices goes on", cvConcrete(func() bool {
		return cvForall(0, len(s.CurrentParts), func(i int) bool {
			q := old.CurrentParts[i]
			return len(q.voices.voices) != 0 || cvSame(s.CurrentParts[i], q)
		})
	}))
	cvEnsures("a part goes on with the voice that ends last, the latest of those begun if there are several", cvConcrete(func() bool {
		return cvForall(0, len(s.CurrentParts), func(i int) bool {
			q, p := old.CurrentParts[i], s.CurrentParts[i]
			n := len(q.voices.insertionOrder)
			return len(q.voices.voices) == 0 || cvOneOf(p, q) && cvForall(0, n, func(j int) bool {
				v := q.voices.voices[q.voices.insertionOrder[j]]
				return v.CurrentOffset < p.CurrentOffset || v.CurrentOffset == p.CurrentOffset &&
					(j < n-1 || cvSame(v, p))
			})
		})
	}))
	cvEnsures("the voice goes on where it is, as it is, and without voices of its own", cvConcrete(func() bool {
		return cvForall(0, len(s.CurrentParts), func(i int) bool {
			q, p := old.CurrentParts[i], s.CurrentParts[i]
			return len(q.voices.voices) == 0 || cvExists(0, len(q.voices.insertionOrder), func(j int) bool {
				v := q.voices.voices[q.voices.insertionOrder[j]]
				return cvSame(v, p) && p.CurrentOffset == v.CurrentOffset && p.LastOffset == v.LastOffset && cvSameAttrs(p, v)
			}) && len(p.voices.voices) == 0 && len(p.voices.insertionOrder) == 0 && p.voiceTemplate == nil
		})
	}))
	cvEnsures("the score's list of parts follows", cvConcrete(func() bool { return cvFollow(s, old, s.Parts, old.Parts) }))
	cvEnsures("the aliases follow", cvConcrete(func() bool {
		return len(s.Aliases) == len(old.Aliases) && cvForallKey(old.Aliases, func(n string, ps []*Part) bool { return cvFollow(s, old, s.Aliases[n], ps) })
	}))
}

// cvFollow: a list of parts has the voice that goes on in place of its part.
func cvFollow(s, old *Score, now, was []*Part) bool {
	return len(now) == len(was) && cvForall(0, len(now), func(i int) bool {
		return cvExists(0, len(s.CurrentParts), func(j int) bool {
			q := old.CurrentParts[j]
			return len(q.voices.voices) != 0 && cvSame(was[i].origin, q.origin) && now[i] == s.CurrentParts[j]
		}) || cvSame(now[i], was[i]) && !cvExists(0, len(s.CurrentParts), func(j int) bool {
			q := old.CurrentParts[j]
			return len(q.voices.voices) != 0 && cvSame(was[i].origin, q.origin)
		})
	})
}
