package model

// Semitones above C of a natural note letter, from music theory (not read from
// the code's own table).
func cvLetterSemitones(l NoteLetter) int32 {
	switch l {
	case C:
		return 0
	case D:
		return 2
	case E:
		return 4
	case F:
		return 5
	case G:
		return 7
	case A:
		return 9
	case B:
		return 11
	}
	return 0
}

func cvLetter(l NoteLetter) bool { return A <= l && l <= G }

func cvShift(a Accidental) int32 {
	if a == Sharp {
		return 1
	}
	if a == Flat {
		return -1
	}
	return 0
}

// cvAccSum is the semitone shift of the first n accidentals.
//
//cv:rec
func cvAccSum(a []Accidental, n int) int32 {
	if n <= 0 {
		return 0
	}
	return cvAccSum(a, n-1) + cvShift(a[n-1])
}

// cvEffective: explicit accidentals win; otherwise the key signature decides.
func cvEffective(laa LetterAndAccidentals, ks KeySignature) []Accidental {
	if laa.Accidentals != nil {
		return laa.Accidentals
	}
	return ks[laa.NoteLetter]
}

//cv:contract LetterAndAccidentals.CalculateMidiNote
//cv:props P01
func cvLaaMidi(laa LetterAndAccidentals, octave int32, keySignature KeySignature, transposition int32) {
	r := laa.CalculateMidiNote(octave, keySignature, transposition)
	accs := cvEffective(laa, keySignature)
	cvEnsures("12-tone pitch of octave, letter, accidentals and transposition",
		!cvLetter(laa.NoteLetter) || r == (octave+1)*12+cvLetterSemitones(laa.NoteLetter)+cvAccSum(accs, len(accs))+transposition)
}

//cv:loop LetterAndAccidentals.CalculateMidiNote
func cvLoopLaa(laa LetterAndAccidentals, octave int32, keySignature KeySignature, k int, acc int32) bool {
	return !cvLetter(laa.NoteLetter) || acc == (octave+1)*12+cvLetterSemitones(laa.NoteLetter)+cvAccSum(cvEffective(laa, keySignature), k)
}

//cv:contract MidiNoteNumber.CalculateMidiNote
//cv:props P01
func cvMnnMidi(mnn MidiNoteNumber, octave int32, keySignature KeySignature, transposition int32) {
	r := mnn.CalculateMidiNote(octave, keySignature, transposition)
	cvEnsures("explicit MIDI number plus transposition", r == mnn.MidiNote+transposition)
}

//cv:contract NewNoteLetter
//cv:props P01
func cvNewNoteLetter(letter rune) {
	l, err := NewNoteLetter(letter)
	cvEnsures("letters a-g are accepted", (err == nil) == (letter >= 'a' && letter <= 'g'))
	cvEnsures("letter maps to itself", err != nil || l == NoteLetter(letter-'a'))
}

// cvPitchIs: midi is the MIDI note a pitch denotes (any number when the letter is not
// one of the seven).
func cvPitchIs(p PitchIdentifier, octave int32, ks KeySignature, transposition int32, midi int32) bool {
	if cvIs[LetterAndAccidentals](p) {
		laa := cvAs[LetterAndAccidentals](p)
		accs := cvEffective(laa, ks)
		return !cvLetter(laa.NoteLetter) || midi == (octave+1)*12+cvLetterSemitones(laa.NoteLetter)+cvAccSum(accs, len(accs))+transposition
	}
	if cvIs[MidiNoteNumber](p) {
		return midi == cvAs[MidiNoteNumber](p).MidiNote+transposition
	}
	return true
}
