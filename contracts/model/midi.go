package model

// cvFree: nothing of another part sounds on channel ch during the note.
func cvFree(s *Score, part *Part, ch int32, d float64) bool {
	return cvForall(0, len(s.Events), func(i int) bool {
		n := cvNote(s.Events[i])
		return n.Part == part.origin || n.MidiChannel != ch ||
			!cvOverlap(n.Offset, n.AudibleDuration, part.CurrentOffset, d)
	})
}

// cvExclusive: no other part has ever used the channel.
func cvExclusive(s *Score, part *Part, ch int32) bool {
	return cvForall(0, len(s.midiChannelUsage[ch]), func(j int) bool {
		return s.midiChannelUsage[ch][j] == part.origin
	})
}

//cv:contract (*Score).simpleCheck
//cv:props P04
func cvSimpleCheck(s *Score, part *Part) {
	cvRequires(s != nil && part != nil && cvPartInv(part))
	ok, ch := s.simpleCheck(part)
	cvEnsures("a channel 0-15 other than 9", !ok || (ch >= 0 && ch <= 15 && ch != 9))
	cvEnsures("no other part ever used it", !ok || cvExclusive(s, part, ch))
}

//cv:contract (*Score).complexCheck
//cv:props P04
func cvComplexCheck(s *Score, part *Part, noteDurationMs float64) {
	cvRequires(s != nil && part != nil && cvPartInv(part))
	cvRequires(cvChanInv(s))
	ok, ch := s.complexCheck(part, noteDurationMs)
	cvEnsures("a channel 0-15", !ok || (ch >= 0 && ch <= 15))
	cvEnsures("channel 9 only if already assigned", !ok || ch != 9 || part.MidiChannel == 9)
	cvEnsures("nothing of another part sounds on it during the note", !ok || cvFree(s, part, ch, noteDurationMs))
	cvEnsures("otherwise no channel", ok || ch == -1)
}

//cv:loop (*Score).complexCheck
func cvLoopComplex(s *Score, part *Part, noteDurationMs float64, k int, locUnavailable map[int32]bool) bool {
	return cvForall(0, k, func(i int) bool {
		n := cvNote(s.Events[i])
		_, un := locUnavailable[n.MidiChannel]
		return un || n.Part == part.origin || !cvOverlap(n.Offset, n.AudibleDuration, part.CurrentOffset, noteDurationMs)
	})
}

//cv:contract (*Score).determineMidiChannel
//cv:props P04
func cvDetermine(s *Score, part *Part, noteDurationMs float64) {
	cvRequires(s != nil && part != nil && cvPartInv(part))
	cvRequires(cvChanInv(s))
	ch, err := s.determineMidiChannel(part, noteDurationMs)
	cvEnsures("a channel 0-15", err != nil || (ch >= 0 && ch <= 15))
	cvEnsures("channel 9 exactly for percussion", err != nil || (ch == 9) == cvPerc(part))
	cvEnsures("an explicit channel is honoured", err != nil || !part.HasExplicitMidiChannel || cvPerc(part) || ch == part.MidiChannel)
	cvEnsures("nothing of another part sounds on it during the note", err != nil || cvPerc(part) || cvFree(s, part, ch, noteDurationMs))
}

//cv:contract (*Score).assignMidiChannel
//cv:props P04
func cvAssign(s *Score, part *Part, noteDurationMs float64) {
	cvRequires(s != nil && part != nil && cvPartInv(part))
	cvRequires(cvChanInv(s))
	cvModifiesAt(s, "midiChannelUsage*")
	old := cvSnap(s)
	ch, err := s.assignMidiChannel(part, noteDurationMs)
	cvEnsures("a channel 0-15", err != nil || (ch >= 0 && ch <= 15))
	cvEnsures("channel 9 exactly for percussion", err != nil || (ch == 9) == cvPerc(part))
	cvEnsures("an explicit channel is honoured", err != nil || !part.HasExplicitMidiChannel || cvPerc(part) || ch == part.MidiChannel)
	cvEnsures("nothing of another part sounds on it during the note", err != nil || cvPerc(part) || cvFree(s, part, ch, noteDurationMs))
	cvEnsures("the part is recorded as a user of the channel", err != nil || cvExists(0, len(s.midiChannelUsage[ch]), func(j int) bool { return s.midiChannelUsage[ch][j] == part.origin }))
	cvEnsures("recorded users stay recorded", cvForall(0, 16, func(c int) bool {
		return len(old.midiChannelUsage[c]) <= len(s.midiChannelUsage[c]) &&
			cvForall(0, len(old.midiChannelUsage[c]), func(j int) bool {
				return cvSame(s.midiChannelUsage[c][j], old.midiChannelUsage[c][j])
			})
	}))
	cvEnsures("the score's invariant is kept", cvChanInv(s))
}

//cv:loop (*Score).assignMidiChannel
func cvLoopAssign(s *Score, part *Part, acc bool, locCh int32) bool {
	return !acc || cvExists(0, len(s.midiChannelUsage[locCh]), func(j int) bool {
		return s.midiChannelUsage[locCh][j] == part.origin
	})
}
