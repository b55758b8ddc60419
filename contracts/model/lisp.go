package model

import (
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

// S-expressions: what an attribute function makes of its arguments.

func cvValue(f LispForm) float64 { return cvAs[LispNumber](f).Value }

//cv:contract positiveNumber
//cv:props P06
func cvPositiveNumber(form LispForm) {
	cvRequires(cvIs[LispNumber](form))
	r, err := positiveNumber(form)
	cvEnsures("accepted exactly when it is positive", (err == nil) == (cvValue(form) > 0))
	cvEnsures("the number itself", err != nil || r == cvValue(form))
}

//cv:contract nonNegativeNumber
//cv:props P06
func cvNonNegativeNumber(form LispForm) {
	cvRequires(cvIs[LispNumber](form))
	r, err := nonNegativeNumber(form)
	cvEnsures("accepted exactly when it is not negative", (err == nil) == (cvValue(form) >= 0))
	cvEnsures("so many hundredths", err != nil || r == cvValue(form)/100)
}

//cv:contract percentage
//cv:props P06
func cvPercentage(form LispForm) {
	cvRequires(cvIs[LispNumber](form))
	r, err := percentage(form)
	cvEnsures("accepted exactly from 0 to 100", (err == nil) == (cvValue(form) >= 0 && cvValue(form) <= 100))
	cvEnsures("so many hundredths", err != nil || r == cvValue(form)/100)
}

// cvWhole: a whole number of 32 bits.
func cvWhole(v float64) bool {
	return v >= -(1<<31) && v < 1<<31 && float64(int64(v)) == v
}

//cv:contract integer
//cv:props P06
func cvInteger(form LispForm) {
	cvRequires(cvIs[LispNumber](form))
	r, err := integer(form)
	cvEnsures("accepted exactly when it is whole", (err == nil) == cvWhole(cvValue(form)))
	cvEnsures("the number itself", err != nil || float64(r) == cvValue(form))
}

//cv:contract integerInRange
//cv:props P06
func cvIntegerInRange(form LispForm, lower int32, upper int32) {
	cvRequires(cvIs[LispNumber](form))
	r, err := integerInRange(form, lower, upper)
	cvEnsures("accepted exactly when it is whole and within the bounds", (err == nil) == (cvWhole(cvValue(form)) && cvValue(form) >= float64(lower) && cvValue(form) <= float64(upper)))
	cvEnsures("the number itself", err != nil || float64(r) == cvValue(form))
}

// cvReadLengths: the lengths a string such as "4.~8" stands for.
func cvReadLengths(s string) (Duration, bool) {
	d := Duration{}
	for _, part := range strings.Split(s, "~") {
		m := regexp.MustCompile(`\A([0-9]+(?:\.[0-9]+)?)(\.*)\z`).FindStringSubmatch(part)
		if m == nil {
			return d, false
		}
		n, _ := strconv.ParseFloat(m[1], 64)
		if n <= 0 {
			return d, false
		}
		d.Components = append(d.Components, NoteLength{Denominator: n, Dots: int32(len(m[2]))})
	}
	return d, true
}

//cv:contract duration
//cv:props P06
//cv:bounded
func cvStringDuration(form LispForm) {
	cvRequires(cvIs[LispString](form))
	want, ok := cvReadLengths(cvAs[LispString](form).Value)
	r, err := duration(form)
	cvEnsures("positive lengths, tied, and nothing else, are accepted", (err == nil) == ok)
	cvEnsures("the lengths written", err != nil || reflect.DeepEqual(r, want))
}

// cvHowLong: beats of a number or a string as a note length.
func cvHowLong(f LispForm) (float64, bool) {
	if cvIs[LispNumber](f) {
		return 4 / cvValue(f), cvValue(f) > 0
	}
	if !cvIs[LispString](f) {
		return 0, false
	}
	d, ok := cvReadLengths(cvAs[LispString](f).Value)
	beats := 0.0
	for _, c := range d.Components {
		l := cvAs[NoteLength](c)
		beats += 4 / l.Denominator * (2 - math.Pow(2, -float64(l.Dots)))
	}
	return beats, ok
}

// cvAttribute: the change an attribute function makes, and whether it accepts
// the arguments.
func cvAttribute(name string, args []LispForm) (PartUpdate, bool) {
	number := len(args) == 1 && cvIs[LispNumber](args[0])
	str := len(args) == 1 && cvIs[LispString](args[0])
	v := 0.0
	if number {
		v = cvValue(args[0])
	}
	switch name {
	case "octave":
		if number {
			return OctaveSet{OctaveNumber: int32(v)}, cvWhole(v)
		}
		if len(args) == 1 && cvSymbol(args[0]) == "up" {
			return OctaveUp{}, true
		}
		return OctaveDown{}, len(args) == 1 && cvSymbol(args[0]) == "down"
	case "tempo":
		if number {
			return TempoSet{Tempo: v}, v > 0
		}
		if len(args) == 2 && cvIs[LispNumber](args[1]) {
			beats, ok := cvHowLong(args[0])
			return TempoSet{Tempo: beats * cvValue(args[1])}, ok && cvValue(args[1]) > 0
		}
	case "metric-modulation":
		if len(args) == 2 {
			old, ok := cvHowLong(args[0])
			beats, good := cvHowLong(args[1])
			return MetricModulation{Ratio: beats / old}, ok && good
		}
	case "quantization", "quantize", "quant":
		return QuantizationSet{Quantization: v / 100}, number && v >= 0
	case "volume", "vol":
		return VolumeSet{Volume: v / 100}, number && v >= 0 && v <= 100
	case "track-volume", "track-vol":
		return TrackVolumeSet{TrackVolume: v / 100}, number && v >= 0 && v <= 100
	case "panning", "pan":
		return PanningSet{Panning: v / 100}, number && v >= 0 && v <= 100
	case "pppppp", "ppppp", "pppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffff", "fffff", "ffffff":
		return DynamicMarking{Marking: name}, len(args) == 0
	case "set-duration":
		return DurationSet{Duration: Duration{Components: []DurationComponent{NoteLengthBeats{Quantity: v}}}}, number && v > 0
	case "set-duration-ms":
		return DurationSet{Duration: Duration{Components: []DurationComponent{NoteLengthMs{Quantity: v}}}}, number && v > 0
	case "set-note-length":
		if str {
			d, ok := cvReadLengths(cvAs[LispString](args[0]).Value)
			return DurationSet{Duration: d}, ok
		}
		return DurationSet{Duration: Duration{Components: []DurationComponent{NoteLength{Denominator: v}}}}, number && v > 0
	case "transposition", "transpose":
		return TranspositionSet{Semitones: int32(v)}, number && cvWhole(v)
	case "reference-pitch", "tuning-constant":
		return ReferencePitchSet{Frequency: v}, number && v > 0
	case "midi-channel":
		return MidiChannelSet{ChannelNumber: int32(v)}, number && cvWhole(v) && v >= 0 && v <= 15
	}
	return nil, false
}

// cvSameChange: the same change, up to rounding.
func cvSameChange(a, b PartUpdate) bool {
	switch x := a.(type) {
	case TempoSet:
		y, ok := b.(TempoSet)
		return ok && cvNear(x.Tempo, y.Tempo)
	case MetricModulation:
		y, ok := b.(MetricModulation)
		return ok && cvNear(x.Ratio, y.Ratio)
	}
	return reflect.DeepEqual(a, b)
}

// An attribute function applied to quoted and plain values.
//
//cv:contract LispList.Eval
//cv:props P06
//cv:bounded
//cv:extra
func cvEval(l LispList) {
	cvRequires(len(l.Elements) > 0 && cvIs[LispSymbol](l.Elements[0]))
	name := cvSymbol(l.Elements[0])
	var args []LispForm
	for _, f := range l.Elements[1:] {
		if cvIs[LispQuotedForm](f) {
			f = cvAs[LispQuotedForm](f).Form
		} else {
			cvRequires(cvIs[LispNumber](f) || cvIs[LispString](f))
		}
		args = append(args, f)
	}
	want, ok := cvAttribute(strings.TrimSuffix(name, "!"), args)
	cvRequires(name != "quote" && name != "list" && !strings.HasPrefix(name, "key-sig"))
	r, err := l.Eval()
	cvEnsures("the arguments are accepted exactly when they make sense", (err == nil) == ok)
	if err != nil || !ok {
		return
	}
	if strings.HasSuffix(name, "!") {
		u, is := unpackScoreUpdate(r).(GlobalAttributeUpdate)
		cvEnsures("with an exclamation mark, a global change", is)
		cvEnsures("the change it says", cvSameChange(u.PartUpdate, want))
		return
	}
	u, is := unpackScoreUpdate(r).(AttributeUpdate)
	cvEnsures("without, a change of the current parts", is)
	cvEnsures("the change it says", cvSameChange(u.PartUpdate, want))
}
