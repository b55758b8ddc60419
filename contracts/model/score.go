package model

//cv:tracked Part

//cv:nonnilelems Part

//cv:nonnil ScoreUpdate PartUpdate DurationComponent PitchIdentifier ScoreEvent

// ---- well-formedness of a score (what every constructor and update keeps)

// cvPartInv holds of every part in existence.
func cvPartInv(p *Part) bool {
	return p.TempoValues != nil && cvIs[MidiInstrument](p.StockInstrument) &&
		p.origin != nil && cvAllocated(p.origin) && p.origin.origin == p.origin &&
		cvPerc(p) == cvPerc(p.origin) && cvChannelOK(p)
}

// cvVoicesInv: the voices of a part are voices of the same instrument, and there
// is a template exactly as long as there may be voices.
func cvVoicesInv(p *Part) bool {
	return p.voices != nil && p.voices.voices != nil &&
		(len(p.voices.voices) != 0 || len(p.voices.insertionOrder) == 0 && p.voiceTemplate == nil) &&
		(len(p.voices.voices) == 0 || len(p.voices.insertionOrder) != 0) &&
		(p.voiceTemplate == nil || p.voiceTemplate.voiceTemplate == p.voiceTemplate && p.voiceTemplate.origin == p.origin) &&
		cvForallKey(p.voices.voices, func(n int32, v *Part) bool { return v != nil && v.origin == p.origin }) &&
		cvForall(0, len(p.voices.insertionOrder), func(i int) bool {
			_, ok := p.voices.voices[p.voices.insertionOrder[i]]
			return ok
		})
}

// cvChannelOK: a part's channel is unassigned or 0-15, and channel 9 only for
// percussion.
func cvChannelOK(p *Part) bool {
	return p.MidiChannel >= -1 && p.MidiChannel <= 15 && (p.MidiChannel != 9 || cvPerc(p)) &&
		(!p.HasExplicitMidiChannel || p.MidiChannel >= 0)
}

func cvPartsInv(s *Score) bool {
	return cvForallRef(s, func(p *Part) bool { return cvPartInv(p) })
}

// cvCurrentOK: the current parts are distinct, and are not voices of one part.
func cvCurrentOK(s *Score) bool {
	return cvForall(0, len(s.CurrentParts), func(i int) bool { return s.CurrentParts[i] != nil }) &&
		cvForall(0, len(s.CurrentParts), func(i int) bool {
			return cvForall(0, len(s.CurrentParts), func(j int) bool {
				return i == j || s.CurrentParts[i] != s.CurrentParts[j] &&
					s.CurrentParts[i].origin != s.CurrentParts[j].origin
			})
		})
}

// cvGlobalsInv: the itinerary of global attributes is sorted, without repeats,
// and has an entry for every offset.
func cvGlobalsInv(ga *GlobalAttributes) bool {
	return ga != nil && ga.itinerary != nil &&
		cvForall(0, len(ga.offsets), func(i int) bool {
			_, ok := ga.itinerary[ga.offsets[i]]
			return ok && cvForall(0, i, func(j int) bool { return ga.offsets[j] < ga.offsets[i] })
		}) &&
		cvForallKey(ga.itinerary, func(o float64, us []PartUpdate) bool {
			return cvExists(0, len(ga.offsets), func(i int) bool { return ga.offsets[i] == o })
		})
}

// cvListsInv: the lists of parts a score keeps hold parts.
func cvListsInv(s *Score) bool {
	return cvForall(0, len(s.CurrentParts), func(i int) bool { return s.CurrentParts[i] != nil }) &&
		cvForall(0, len(s.Parts), func(i int) bool { return s.Parts[i] != nil }) &&
		cvForallKey(s.Aliases, func(n string, ps []*Part) bool {
			return cvForall(0, len(ps), func(i int) bool { return ps[i] != nil })
		})
}

// cvScoreInv holds between any two updates of a score.
func cvScoreInv(s *Score) bool {
	return s != nil && cvGlobalsInv(s.GlobalAttributes) && cvPartsInv(s) && cvChanInv(s)
}

func cvOverlap(s1, d1, s2, d2 float64) bool { return s1 < s2+d2 && s2 < s1+d1 }

func cvNote(e ScoreEvent) NoteEvent { return cvAs[NoteEvent](e) }

// cvEventOK: a note event sits on a channel its part may use and is recorded as
// using.
func cvEventOK(s *Score, e ScoreEvent) bool {
	n := cvNote(e)
	return cvIs[NoteEvent](e) && n.Part != nil && n.Part.origin == n.Part &&
		n.MidiChannel >= 0 && n.MidiChannel <= 15 &&
		(n.MidiChannel == 9) == cvPerc(n.Part) &&
		cvExists(0, len(s.midiChannelUsage[n.MidiChannel]), func(j int) bool {
			return s.midiChannelUsage[n.MidiChannel][j] == n.Part
		})
}

// cvNoClash: two notes of different parts never sound at once on one channel
// (percussion parts share channel 9).
func cvNoClash(a, b ScoreEvent) bool {
	m, n := cvNote(a), cvNote(b)
	return m.Part == n.Part || m.MidiChannel != n.MidiChannel || m.MidiChannel == 9 ||
		!cvOverlap(m.Offset, m.AudibleDuration, n.Offset, n.AudibleDuration)
}

// cvChanInv: the channel bookkeeping of a whole score.
func cvChanInv(s *Score) bool {
	return cvForall(0, len(s.Events), func(i int) bool { return cvEventOK(s, s.Events[i]) }) &&
		cvForall(0, len(s.Events), func(i int) bool {
			return cvForall(0, len(s.Events), func(j int) bool { return cvNoClash(s.Events[i], s.Events[j]) })
		})
}
