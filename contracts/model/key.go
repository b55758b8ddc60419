package model

import "strings"

// Key signatures. The oracle is music theory: a key signature is right when the
// seven letters, counted from the tonic, sound the steps of the scale.

// cvSemis: how many semitones a key signature raises the letter.
func cvSemis(ks KeySignature, l NoteLetter) int {
	accs := ks[l]
	if len(accs) == 0 {
		return 0
	}
	if accs[0] == Sharp {
		return len(accs)
	}
	return -len(accs)
}

// cvOnly: the list holds nothing but the accidental.
func cvOnly(accs []Accidental, a Accidental) bool {
	return cvForall(0, len(accs), func(i int) bool { return accs[i] == a })
}

// cvPure: the letter has only sharps, or only flats.
func cvPure(ks KeySignature, l NoteLetter) bool {
	return cvOnly(ks[l], Sharp) || cvOnly(ks[l], Flat)
}

func cvPureKey(ks KeySignature) bool {
	return cvForall(0, 7, func(l int) bool { return cvPure(ks, NoteLetter(l)) })
}

//cv:contract orderOfSharps
//cv:props P08
func cvOrderOfSharps() {
	r := orderOfSharps()
	cvEnsures("the seven letters, a fifth apart, from F", len(r) == 7 && r[0] == F && r[1] == C && r[2] == G && r[3] == D && r[4] == A && r[5] == E && r[6] == B)
}

//cv:contract orderOfFlats
//cv:props P08
func cvOrderOfFlats() {
	r := orderOfFlats()
	cvEnsures("the seven letters, a fifth apart, down from B", len(r) == 7 && r[0] == B && r[1] == E && r[2] == A && r[3] == D && r[4] == G && r[5] == C && r[6] == F)
}

// cvSharpsPlace: the place of the letter in the order of sharps.
func cvSharpsPlace(l NoteLetter) int {
	switch l {
	case F:
		return 0
	case C:
		return 1
	case G:
		return 2
	case D:
		return 3
	case A:
		return 4
	case E:
		return 5
	case B:
		return 6
	}
	return 0
}

// cvBrightness: how far around the circle of fifths the scale on C is.
func cvBrightness(t ScaleType) int {
	switch t {
	case Ionian:
		return 0
	case Dorian:
		return -2
	case Phrygian:
		return -4
	case Lydian:
		return 1
	case Mixolydian:
		return -1
	case Aeolian:
		return -3
	case Locrian:
		return -5
	}
	return 0
}

func cvMode(t ScaleType) bool { return Ionian <= t && t <= Locrian }

//cv:contract partialCircleOfFifths
//cv:props P08
//cv:unroll 7
func cvPartialCircle(scaleType ScaleType) {
	r := partialCircleOfFifths(scaleType)
	cvEnsures("each letter at its place around the circle of fifths",
		!cvMode(scaleType) || cvForall(0, 7, func(l int) bool {
			v, ok := r[NoteLetter(l)]
			return ok && v == cvSharpsPlace(NoteLetter(l))-1+cvBrightness(scaleType)
		}))
}

// cvTimes: how many of the first n steps around the circle fall on the p-th letter.
func cvTimes(n, p int) int {
	if n <= p {
		return 0
	}
	return (n-p-1)/7 + 1
}

//cv:contract KeySignatureFromCircleOfFifths
//cv:props P08
func cvFromCircle(fifths int) {
	r := KeySignatureFromCircleOfFifths(fifths)
	cvEnsures("only sharps going up, only flats going down", cvForall(0, 7, func(l int) bool {
		return (fifths < 0 || cvOnly(r[NoteLetter(l)], Sharp)) && (fifths > 0 || cvOnly(r[NoteLetter(l)], Flat))
	}))
	cvEnsures("as many as the steps around the circle that fall on the letter", cvForall(0, 7, func(l int) bool {
		if fifths >= 0 {
			return len(r[NoteLetter(l)]) == cvTimes(fifths, cvSharpsPlace(NoteLetter(l)))
		}
		return len(r[NoteLetter(l)]) == cvTimes(-fifths, 6-cvSharpsPlace(NoteLetter(l)))
	}))
	cvEnsures("the given key signature is new", cvFresh(r))
}

//cv:loop KeySignatureFromCircleOfFifths
func cvLoopCircleKind(fifths int, locKey KeySignature) bool {
	return cvForall(0, 7, func(l int) bool {
		return (fifths < 0 || cvOnly(locKey[NoteLetter(l)], Sharp)) && (fifths > 0 || cvOnly(locKey[NoteLetter(l)], Flat))
	})
}

//cv:loop KeySignatureFromCircleOfFifths
func cvLoopCircleCount(fifths int, locKey KeySignature, acc int) bool {
	return acc >= 0 && (acc <= fifths || acc <= -fifths) && cvForall(0, 7, func(l int) bool {
		if fifths >= 0 {
			return len(locKey[NoteLetter(l)]) == cvTimes(acc, cvSharpsPlace(NoteLetter(l)))
		}
		return len(locKey[NoteLetter(l)]) == cvTimes(acc, 6-cvSharpsPlace(NoteLetter(l)))
	})
}

// One semitone up or down.
//
//cv:contract shiftKey
//cv:unroll 0
//cv:props P08
func cvShiftKey(k KeySignature, this Accidental, that Accidental) {
	cvRequires(cvPureKey(k))
	cvRequires((this == Sharp && that == Flat) || (this == Flat && that == Sharp))
	r := shiftKey(k, this, that)
	cvEnsures("still only sharps or only flats on each letter", cvPureKey(r))
	cvEnsures("every letter a semitone in that direction", cvForall(0, 7, func(l int) bool {
		return cvSemis(r, NoteLetter(l)) == cvSemis(k, NoteLetter(l))+int(cvShift(this))
	}))
	cvEnsures("the given key signature is new", cvFresh(r))
}

//cv:loop shiftKey
func cvLoopShift(ks KeySignature, this Accidental, locResult KeySignature, over []NoteLetter, k int) bool {
	return cvForall(0, 7, func(l int) bool {
		if l >= k {
			return len(locResult[NoteLetter(l)]) == 0
		}
		return cvPure(locResult, NoteLetter(l)) && cvSemis(locResult, NoteLetter(l)) == cvSemis(ks, NoteLetter(l))+int(cvShift(this))
	})
}

//cv:loop shiftKey
func cvLoopShiftInner(this Accidental, that Accidental, locResult KeySignature, locLetter NoteLetter, over []Accidental, k int, acc bool) bool {
	if len(over) > 0 && over[0] == this {
		return !acc && len(locResult[locLetter]) == k && cvOnly(locResult[locLetter], this)
	}
	if k == 0 {
		return !acc && len(locResult[locLetter]) == 0
	}
	return acc && len(locResult[locLetter]) == k-1 && cvOnly(locResult[locLetter], that)
}

//cv:loop shiftKey
func cvLoopShiftOthers(locResult KeySignature, locLetter NoteLetter, over []Accidental) bool {
	return cvForall(0, 7, func(l int) bool {
		return NoteLetter(l) == locLetter || cvKept(locResult[NoteLetter(l)], cvPre(locResult)[NoteLetter(l)])
	})
}

//cv:contract KeySignature.Flatten
//cv:props P08
func cvFlatten(k KeySignature) {
	cvRequires(cvPureKey(k))
	r := k.Flatten()
	cvEnsures("still only sharps or only flats on each letter", cvPureKey(r))
	cvEnsures("every letter a semitone lower", cvForall(0, 7, func(l int) bool {
		return cvSemis(r, NoteLetter(l)) == cvSemis(k, NoteLetter(l))-1
	}))
}

//cv:contract KeySignature.Sharpen
//cv:props P08
func cvSharpen(k KeySignature) {
	cvRequires(cvPureKey(k))
	r := k.Sharpen()
	cvEnsures("still only sharps or only flats on each letter", cvPureKey(r))
	cvEnsures("every letter a semitone higher", cvForall(0, 7, func(l int) bool {
		return cvSemis(r, NoteLetter(l)) == cvSemis(k, NoteLetter(l))+1
	}))
}

// cvStep: the semitones from the tonic to each degree of a major scale, going on
// into the next octave.
func cvMajor(degree int) int {
	switch degree {
	case 0:
		return 0
	case 1:
		return 2
	case 2:
		return 4
	case 3:
		return 5
	case 4:
		return 7
	case 5:
		return 9
	case 6:
		return 11
	case 7:
		return 12
	case 8:
		return 14
	case 9:
		return 16
	case 10:
		return 17
	case 11:
		return 19
	case 12:
		return 21
	case 13:
		return 23
	}
	return 0
}

// cvModeStep: a mode is the major scale begun on another degree.
func cvModeStep(t ScaleType, degree int) int {
	return cvMajor(int(t)+degree) - cvMajor(int(t))
}

// cvDegree: how many letters above the tonic's a letter is.
func cvDegree(tonic, l NoteLetter) int {
	if l >= tonic {
		return int(l - tonic)
	}
	return int(l-tonic) + 7
}

// cvLettersApart: semitones from letter to letter upwards, without accidentals.
func cvLettersApart(tonic, l NoteLetter) int {
	d := int(cvLetterSemitones(l) - cvLetterSemitones(tonic))
	if d < 0 {
		return d + 12
	}
	return d
}

// cvSounds: counted from the tonic, shift semitones from the letter, the seven
// letters sound the steps of the scale.
func cvSounds(ks KeySignature, tonic NoteLetter, shift int, t ScaleType) bool {
	return cvForall(0, 7, func(l int) bool {
		return cvLettersApart(tonic, NoteLetter(l))+cvSemis(ks, NoteLetter(l))-shift == cvModeStep(t, cvDegree(tonic, NoteLetter(l)))
	})
}

// The seven letters from the tonic sound the scale.
//
//cv:contract KeySignatureFromScale
//cv:props P08
func cvFromScale(tonic LetterAndAccidentals, scaleType ScaleType) {
	cvRequires(cvLetter(tonic.NoteLetter))
	cvRequires(cvMode(scaleType))
	r := KeySignatureFromScale(tonic, scaleType)
	cvEnsures("only sharps or only flats on each letter", cvPureKey(r))
	cvEnsures("the letters counted from the tonic sound the steps of the scale",
		cvSounds(r, tonic.NoteLetter, int(cvAccSum(tonic.Accidentals, len(tonic.Accidentals))), scaleType))
}

//cv:loop KeySignatureFromScale
func cvLoopScale(tonic LetterAndAccidentals, scaleType ScaleType, accKey KeySignature, k int) bool {
	return cvPureKey(accKey) && cvSounds(accKey, tonic.NoteLetter, int(cvAccSum(tonic.Accidentals, k)), scaleType)
}

//cv:contract NewAccidental
//cv:props P01, P08
func cvNewAccidental(accidental string) {
	a, err := NewAccidental(accidental)
	cvEnsures("flat, natural and sharp are the accidentals", (err == nil) == (accidental == "flat" || accidental == "natural" || accidental == "sharp"))
	cvEnsures("each is itself", err != nil || a == cvNamedAccidental(accidental))
}

func cvNamedAccidental(accidental string) Accidental {
	switch accidental {
	case "flat":
		return Flat
	case "sharp":
		return Sharp
	}
	return Natural
}

// cvModeNamed: the mode of the name, -1 when there is none.
func cvModeNamed(name string) ScaleType {
	switch name {
	case "major", "ionian":
		return Ionian
	case "dorian":
		return Dorian
	case "phrygian":
		return Phrygian
	case "lydian":
		return Lydian
	case "mixolydian":
		return Mixolydian
	case "minor", "aeolian":
		return Aeolian
	case "locrian":
		return Locrian
	}
	return -1
}

func cvSymbol(f LispForm) string {
	if cvIs[LispSymbol](f) {
		return cvAs[LispSymbol](f).Name
	}
	return ""
}

//cv:contract scaleType
//cv:props P08
func cvScaleType(forms []LispForm) {
	t, err := scaleType(forms)
	cvEnsures("the name of one mode, and nothing else, is a mode", (err == nil) == (len(forms) == 1 && cvModeNamed(cvSymbol(forms[0])) >= 0))
	cvEnsures("the mode of that name", err != nil || t == cvModeNamed(cvSymbol(forms[0])))
}

// cvWordOf: the accidentals of a word such as "f++"; nil when it is none.
func cvWordOf(word string) (NoteLetter, []Accidental) {
	if len(word) < 2 || word[0] < 'a' || word[0] > 'g' {
		return 0, nil
	}
	var accs []Accidental
	for _, c := range word[1:] {
		switch c {
		case '+':
			accs = append(accs, Sharp)
		case '-':
			accs = append(accs, Flat)
		default:
			return 0, nil
		}
	}
	return NoteLetter(word[0] - 'a'), accs
}

func cvSameKey(a, b KeySignature) bool {
	for l := A; l <= G; l++ {
		if len(a[l]) != len(b[l]) {
			return false
		}
		for i := range a[l] {
			if a[l][i] != b[l][i] {
				return false
			}
		}
	}
	return true
}

// A key signature written out: "f+ c+ g+".
//
//cv:contract keySignatureFromString
//cv:props P08
//cv:bounded
func cvKeyFromString(form LispForm) {
	cvRequires(cvIs[LispString](form))
	want, ok := KeySignature{}, true
	for _, word := range strings.Fields(cvAs[LispString](form).Value) {
		l, accs := cvWordOf(word)
		ok = ok && accs != nil
		want[l] = accs
	}
	r, err := keySignatureFromString(form)
	cvEnsures("letters with sharps or flats, and nothing else, are accepted", (err == nil) == ok)
	cvEnsures("the accidentals written on each letter", err != nil || cvSameKey(r, want))
}

// A key signature as a list: (a (flat)) or (a flat major).
//
//cv:contract keySignatureFromList
//cv:props P08
//cv:bounded
func cvKeyFromList(form LispForm) {
	cvRequires(cvIs[LispList](form))
	forms := cvAs[LispList](form).Elements
	cvRequires(cvForall(0, len(forms), func(i int) bool { return !cvIs[LispSymbol](forms[i]) || cvSymbol(forms[i]) != "" }))
	r, err := keySignatureFromList(form)
	if len(forms) < 2 || len(cvSymbol(forms[0])) == 0 {
		cvEnsures("too little is refused", err != nil)
		return
	}
	if cvIs[LispSymbol](forms[1]) {
		tonic := cvSymbol(forms[0])
		ok, shift := len(tonic) == 1 && tonic >= "a" && tonic <= "g", 0
		for _, f := range forms[1 : len(forms)-1] {
			a, err := NewAccidental(cvSymbol(f))
			ok = ok && err == nil
			shift += int(cvShift(a))
		}
		t := cvModeNamed(cvSymbol(forms[len(forms)-1]))
		cvEnsures("a letter, its accidentals and a mode, and nothing else, name a scale", (err == nil) == (ok && t >= 0))
		cvEnsures("the letters counted from the tonic sound the scale", err != nil || cvSounds(r, NoteLetter(tonic[0]-'a'), shift, t))
		return
	}
	want, ok := KeySignature{}, len(forms)%2 == 0
	for i := 0; i+1 < len(forms); i += 2 {
		letter := cvSymbol(forms[i])
		if !cvIs[LispList](forms[i+1]) || letter == "" || letter[0] < 'a' || letter[0] > 'g' {
			ok = false
			break
		}
		accs := []Accidental{}
		for _, f := range cvAs[LispList](forms[i+1]).Elements {
			name := cvSymbol(f)
			ok = ok && (name == "flat" || name == "sharp")
			accs = append(accs, cvNamedAccidental(name))
		}
		want[NoteLetter(letter[0]-'a')] = accs
	}
	cvEnsures("pairs of a letter and its accidentals, and nothing else, are accepted", (err == nil) == ok)
	cvEnsures("the accidentals written on each letter", err != nil || cvSameKey(r, want))
}
