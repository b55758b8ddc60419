package model

import "math"

// Expected length of one component, in beats / milliseconds, from the language
// documentation (a denominator-N note is 4/N beats; dots halve progressively).
//
//cv:rec
func cvMsOf(c DurationComponent, tempo float64) float64 {
	switch c := c.(type) {
	case NoteLength:
		return (4 / c.Denominator) * (2 - math.Pow(2, float64(-c.Dots))) * (60000 / tempo)
	case NoteLengthBeats:
		return c.Quantity * (60000 / tempo)
	case NoteLengthMs:
		return c.Quantity
	case NoteLengthSeconds:
		return c.Quantity * 1000
	case Duration:
		return cvMsSum(c.Components, len(c.Components), tempo)
	}
	return 0
}

//cv:rec
func cvMsSum(cs []DurationComponent, n int, tempo float64) float64 {
	if n <= 0 {
		return 0
	}
	return cvMsSum(cs, n-1, tempo) + cvMsOf(cs[n-1], tempo)
}

//cv:rec
func cvBeatsOf(c DurationComponent) float64 {
	switch c := c.(type) {
	case NoteLength:
		return (4 / c.Denominator) * (2 - math.Pow(2, float64(-c.Dots)))
	case NoteLengthBeats:
		return c.Quantity
	case Duration:
		return cvBeatsSum(c.Components, len(c.Components))
	}
	return 0
}

//cv:rec
func cvBeatsSum(cs []DurationComponent, n int) float64 {
	if n <= 0 {
		return 0
	}
	return cvBeatsSum(cs, n-1) + cvBeatsOf(cs[n-1])
}

// cvValid: every length in c is positive.
//
//cv:rec
func cvValid(c DurationComponent) bool {
	switch c := c.(type) {
	case NoteLength:
		return c.Denominator > 0
	case NoteLengthBeats:
		return c.Quantity > 0
	case NoteLengthMs:
		return c.Quantity > 0
	case NoteLengthSeconds:
		return c.Quantity > 0
	case Barline: // a barline takes no time
		return true
	case Duration:
		return cvForall(0, len(c.Components), func(i int) bool { return c.Components[i] != nil && cvValid(c.Components[i]) })
	}
	return false
}

// cvWF: well formed, as the parser builds it (no nil components, no negative
// dot counts).
//
//cv:rec
func cvWF(c DurationComponent) bool {
	switch c := c.(type) {
	case nil:
		return false
	case NoteLength:
		return c.Dots >= 0
	case Duration:
		return cvForall(0, len(c.Components), func(i int) bool { return c.Components[i] != nil && cvWF(c.Components[i]) })
	}
	return true
}

// cvBeaty: c is expressible in beats.
//
//cv:rec
func cvBeaty(c DurationComponent) bool {
	switch c := c.(type) {
	case NoteLength, NoteLengthBeats, Barline:
		return true
	case Duration:
		return cvForall(0, len(c.Components), func(i int) bool { return c.Components[i] != nil && cvBeaty(c.Components[i]) })
	}
	return false
}

//cv:contract iface DurationComponent.Ms
//cv:props P02
func cvIfaceMs(c DurationComponent, tempo float64) {
	ms := c.Ms(tempo)
	cvEnsures("length in milliseconds at the given tempo", !cvWF(c) || cvNear(ms, cvMsOf(c, tempo)))
	cvEnsures("a valid length is not negative", !(tempo > 0 && cvWF(c) && cvValid(c)) || cvLe(0, ms))
}

//cv:loop Duration.Ms
func cvLoopMs(d Duration, tempo float64, k int, acc float64) bool {
	return !cvWF(d) || cvNear(acc, cvMsSum(d.Components, k, tempo))
}

//cv:loop Duration.Ms
func cvLoopMsPos(d Duration, tempo float64, acc float64) bool {
	return !(tempo > 0 && cvWF(d) && cvValid(d)) || cvLe(0, acc)
}

//cv:contract iface DurationComponent.Beats
//cv:props P02
func cvIfaceBeats(c DurationComponent) {
	cvRequires(cvBeaty(c))
	b := c.Beats()
	cvEnsures("length in beats", !cvWF(c) || cvNear(b, cvBeatsOf(c)))
}

//cv:loop Duration.Beats
func cvLoopBeats(d Duration, k int, acc float64) bool {
	return !cvWF(d) || cvNear(acc, cvBeatsSum(d.Components, k))
}

//cv:contract iface DurationComponent.Validate
//cv:props P02
func cvIfaceValidate(c DurationComponent) {
	err := c.Validate()
	cvEnsures("accepted exactly when every length is positive", !cvWF(c) || (err == nil) == cvValid(c))
}

//cv:loop Duration.Validate
func cvLoopValidate(d Duration, k int) bool {
	return !cvWF(d) || cvForall(0, k, func(i int) bool { return cvValid(d.Components[i]) })
}
