package model

// Generators for the executable contracts: scores as a user can reach them.

import (
	"errors"
	"math/rand"
	"reflect"

	"alda.io/client/json"
)

// cvSpy is a score update that records that it was called.
type cvSpy struct {
	ID      int
	Fail    bool
	Advance float64
	Ms      float64
	Clobber bool
}

var errSpy = errors.New("spy")

func (s cvSpy) cvSpyID() int                        { return s.ID }
func (s cvSpy) GetSourceContext() AldaSourceContext { return AldaSourceContext{} }
func (s cvSpy) JSON() *json.Container               { return json.Object("spy", s.ID) }

func (s cvSpy) UpdateScore(score *Score) error {
	i := cvSpyCall("UpdateScore", s, score)
	for _, p := range score.CurrentParts {
		if !score.chordMode {
			p.CurrentOffset += s.Advance
		}
		if s.Clobber {
			p.Duration = Duration{Components: []DurationComponent{NoteLength{Denominator: 8}}}
			p.Octave++
		}
	}
	var err error
	if s.Fail {
		err = errSpy
	}
	cvSpyReturn(i, err)
	return err
}

func (s cvSpy) DurationMs(part *Part) float64 {
	i := cvSpyCall("DurationMs", s, part)
	if s.Clobber {
		part.Duration = Duration{Components: []DurationComponent{NoteLength{Denominator: 8}}}
	}
	cvSpyReturn(i, s.Ms)
	return s.Ms
}

func (s cvSpy) VariableValue(score *Score) (ScoreUpdate, error) {
	i := cvSpyCall("VariableValue", s, score)
	if s.Fail {
		cvSpyReturn(i, ScoreUpdate(nil), errSpy)
		return nil, errSpy
	}
	var out ScoreUpdate = cvSpy{ID: s.ID + 1000, Advance: s.Advance, Ms: s.Ms}
	cvSpyReturn(i, out, error(nil))
	return out, nil
}

// cvSpyA and cvSpyB are part updates of two types.
type cvSpyA struct{ ID int }
type cvSpyB struct{ ID int }

func (s cvSpyA) cvSpyID() int          { return s.ID }
func (s cvSpyB) cvSpyID() int          { return s.ID }
func (s cvSpyA) JSON() *json.Container { return json.Object("spy", s.ID) }
func (s cvSpyB) JSON() *json.Container { return json.Object("spy", s.ID) }
func (s cvSpyA) updatePart(part *Part, global bool) error {
	cvSpyReturn(cvSpyCall("updatePart", s, part, global), nil)
	return nil
}
func (s cvSpyB) updatePart(part *Part, global bool) error {
	cvSpyReturn(cvSpyCall("updatePart", s, part, global), nil)
	return nil
}

var cvSpyCount int

func cvNewSpy(r *rand.Rand) cvSpy {
	cvSpyCount++
	return cvSpy{ID: cvSpyCount % 1000, Fail: r.Intn(12) == 0, Advance: float64(r.Intn(3)) * 250, Ms: float64(r.Intn(4)) * 125, Clobber: r.Intn(3) == 0}
}

func cvRandLen(r *rand.Rand) DurationComponent {
	switch r.Intn(8) {
	case 0:
		return NoteLengthMs{Quantity: float64(1 + r.Intn(900))}
	case 1:
		return NoteLengthBeats{Quantity: []float64{0.5, 1, 1.5, 2, 3}[r.Intn(5)]}
	case 2:
		return NoteLength{Denominator: []float64{1, 2, 4, 8}[r.Intn(4)], Dots: int32(1 + r.Intn(3))}
	}
	return NoteLength{Denominator: []float64{1, 2, 4, 8, 16, 3, 6, 0.5, 32}[r.Intn(9)]}
}

func cvRandDuration(r *rand.Rand) Duration {
	switch r.Intn(5) {
	case 0, 1:
		return Duration{}
	case 2:
		return Duration{Components: []DurationComponent{cvRandLen(r), cvRandLen(r)}}
	case 3:
		if r.Intn(8) == 0 {
			return Duration{Components: []DurationComponent{cvRandLen(r), Barline{}}}
		}
	}
	return Duration{Components: []DurationComponent{cvRandLen(r)}}
}

func cvRandPitch(r *rand.Rand) PitchIdentifier {
	if r.Intn(6) == 0 {
		return MidiNoteNumber{MidiNote: int32(r.Intn(128))}
	}
	p := LetterAndAccidentals{NoteLetter: NoteLetter(r.Intn(7))}
	if es := cvEnums[reflect.TypeOf(p.NoteLetter)]; len(es) > 0 {
		p.NoteLetter = es[r.Intn(len(es))].Interface().(NoteLetter)
	}
	if as := cvEnums[reflect.TypeOf(Flat)]; len(as) > 0 {
		for i := r.Intn(3); i > 0; i-- {
			p.Accidentals = append(p.Accidentals, as[r.Intn(len(as))].Interface().(Accidental))
		}
	}
	return p
}

func cvRandNote(r *rand.Rand) Note {
	return Note{Pitch: cvRandPitch(r), Duration: cvRandDuration(r), Slurred: r.Intn(5) == 0}
}

func cvRandKeySig(r *rand.Rand) KeySignature {
	k := KeySignature{}
	ls, as := cvEnums[reflect.TypeOf(NoteLetter(0))], cvEnums[reflect.TypeOf(Flat)]
	for i := r.Intn(5); i > 0; i-- {
		k[ls[r.Intn(len(ls))].Interface().(NoteLetter)] = []Accidental{as[r.Intn(len(as))].Interface().(Accidental)}
	}
	return k
}

func cvRandPartUpdate(r *rand.Rand, s *Score) PartUpdate {
	switch r.Intn(15) {
	case 0:
		return TempoSet{Tempo: float64(30 + r.Intn(300))}
	case 1:
		return MetricModulation{Ratio: []float64{0.5, 2, 1.5, 0.75}[r.Intn(4)]}
	case 2:
		return OctaveSet{OctaveNumber: int32(r.Intn(9))}
	case 3:
		return OctaveUp{}
	case 4:
		return OctaveDown{}
	case 5:
		return VolumeSet{Volume: float64(r.Intn(101)) / 100}
	case 6:
		return TrackVolumeSet{TrackVolume: float64(r.Intn(101)) / 100}
	case 7:
		return DynamicMarking{Marking: []string{"pp", "p", "mf", "f", "ff", "ppppp"}[r.Intn(6)]}
	case 8:
		return PanningSet{Panning: float64(r.Intn(101)) / 100}
	case 9:
		return QuantizationSet{Quantization: []float64{0, 0.1, 0.5, 0.9, 1, 1.5}[r.Intn(6)]}
	case 10:
		d := cvRandDuration(r)
		if d.Components == nil {
			d.Components = []DurationComponent{cvRandLen(r)}
		}
		return DurationSet{Duration: d}
	case 11:
		return KeySignatureSet{KeySignature: cvRandKeySig(r)}
	case 12:
		return TranspositionSet{Semitones: int32(r.Intn(25) - 12)}
	case 13:
		return ReferencePitchSet{Frequency: []float64{440, 432, 442}[r.Intn(3)]}
	}
	ch := int32(r.Intn(16))
	if ch == 9 && s != nil {
		for _, p := range s.CurrentParts {
			if !cvPerc(p) {
				ch = 8
			}
		}
	}
	return MidiChannelSet{ChannelNumber: ch}
}

var cvInstNames = []string{"piano", "violin", "cello", "flute", "midi-percussion", "electric-bass", "viola", "tuba", "trumpet", "oboe",
	"banjo", "sitar", "koto", "shamisen", "guitar", "harp", "organ", "clarinet", "bassoon"}

func cvRandDecl(r *rand.Rand, s *Score) PartDeclaration {
	var names []string
	known := append([]string{}, cvInstNames...)
	for a := range s.Aliases {
		known = append(known, a)
	}
	n := 1
	if r.Intn(3) == 0 {
		n = 2 + r.Intn(2)
	}
	lim := len(known)
	if r.Intn(2) == 0 {
		lim = 4
	}
	for i := 0; i < n; i++ {
		names = append(names, known[r.Intn(lim)])
	}
	d := PartDeclaration{Names: names}
	if r.Intn(3) == 0 {
		d.Alias = []string{"foo", "bar", "baz", "piano-1"}[r.Intn(4)]
	}
	return d
}

func cvRandEvents(r *rand.Rand, s *Score, d, max int) []ScoreUpdate {
	es := []ScoreUpdate{}
	for i := r.Intn(max + 1); i > 0; i-- {
		es = append(es, cvRandInner(r, s, d))
	}
	return es
}

// cvRandInner is an event that may occur inside other events.
func cvRandInner(r *rand.Rand, s *Score, d int) ScoreUpdate {
	n := 16
	if d <= 0 {
		n = 10
	}
	switch r.Intn(n) {
	case 6:
		return Rest{Duration: cvRandDuration(r)}
	case 7:
		return AttributeUpdate{PartUpdate: cvRandPartUpdate(r, s)}
	case 8:
		if r.Intn(2) == 0 {
			return Barline{}
		}
		return Marker{Name: []string{"m1", "m2"}[r.Intn(2)]}
	case 9:
		if r.Intn(2) == 0 {
			return AtMarker{Name: []string{"m1", "m2"}[r.Intn(2)]}
		}
		return VariableReference{VariableName: []string{"v1", "v2"}[r.Intn(2)]}
	case 10, 11:
		c := Chord{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			c.Events = append(c.Events, cvRandNote(r))
			if r.Intn(4) == 0 {
				c.Events = append(c.Events, AttributeUpdate{PartUpdate: OctaveUp{}})
			}
		}
		return c
	case 12:
		return Cram{Events: append(cvRandEvents(r, s, d-1, 2), cvRandNote(r)), Duration: cvRandDuration(r)}
	case 13:
		return EventSequence{Events: cvRandEvents(r, s, d-1, 3)}
	case 14:
		return Repeat{Event: cvRandInner(r, s, d-1), Times: int32(r.Intn(4))}
	case 15:
		if r.Intn(2) == 0 {
			return GlobalAttributeUpdate{PartUpdate: cvRandPartUpdate(r, s)}
		}
		return OnRepetitions{Repetitions: []RepetitionRange{{First: int32(1 + r.Intn(3)), Last: int32(1 + r.Intn(4))}}, Event: cvRandInner(r, s, d-1)}
	}
	return cvRandNote(r)
}

// cvRandUpdate is a top-level event.
func cvRandUpdate(r *rand.Rand, s *Score, d int) ScoreUpdate {
	switch r.Intn(14) {
	case 0, 1:
		return cvRandDecl(r, s)
	case 2, 3:
		return VoiceMarker{VoiceNumber: int32(r.Intn(4))}
	case 4:
		return VoiceGroupEndMarker{}
	case 5:
		return VariableDefinition{VariableName: []string{"v1", "v2"}[r.Intn(2)], Events: cvRandEvents(r, s, 1, 3)}
	case 6:
		return GlobalAttributeUpdate{PartUpdate: cvRandPartUpdate(r, s)}
	}
	return cvRandInner(r, s, d)
}

// cvRandScore applies a few updates to a new score.
func cvRandScore(r *rand.Rand) *Score {
	s := NewScore()
	if r.Intn(30) == 0 {
		return s
	}
	cvTry(s, cvRandDecl(r, s))
	for i := r.Intn(9); i > 0; i-- {
		if !cvTry(s, cvRandUpdate(r, s, 2)) {
			break
		}
	}
	return s
}

func cvTry(s *Score, u ScoreUpdate) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return s.Update(u) == nil
}

func cvRandPartOf(r *rand.Rand, s *Score) *Part {
	var ps []*Part
	ps = append(ps, s.CurrentParts...)
	ps = append(ps, s.Parts...)
	if len(ps) == 0 {
		cvTry(s, PartDeclaration{Names: []string{"piano"}})
		ps = s.Parts
	}
	if len(ps) == 0 {
		return nil
	}
	return ps[r.Intn(len(ps))]
}

// cvComposite builds events that hold spies only.
func cvSpies(r *rand.Rand, max int) []ScoreUpdate {
	es := []ScoreUpdate{}
	for i := r.Intn(max + 1); i > 0; i-- {
		es = append(es, cvNewSpy(r))
	}
	return es
}

// cvTarget is an event of the kind the contract speaks of, with spies inside
// half of the time.
func cvRandComposite(r *rand.Rand, s *Score, spies bool) ScoreUpdate {
	ev := func(max int) []ScoreUpdate {
		if spies {
			return cvSpies(r, max)
		}
		return cvRandEvents(r, s, 2, max)
	}
	one := func() ScoreUpdate {
		if spies {
			return cvNewSpy(r)
		}
		return cvRandInner(r, s, 2)
	}
	switch r.Intn(9) {
	case 0:
		return Chord{Events: ev(4)}
	case 1:
		return Cram{Events: ev(4), Duration: cvRandDuration(r)}
	case 2:
		return EventSequence{Events: ev(4)}
	case 3:
		return Repeat{Event: one(), Times: int32(r.Intn(5))}
	case 4:
		o := OnRepetitions{Event: one()}
		for i := r.Intn(3); i >= 0; i-- {
			o.Repetitions = append(o.Repetitions, RepetitionRange{First: int32(r.Intn(4)), Last: int32(r.Intn(5))})
		}
		return o
	case 5:
		return VariableDefinition{VariableName: []string{"v1", "v2"}[r.Intn(2)], Events: ev(4)}
	case 6:
		n := []string{"v1", "v2", "v3"}[r.Intn(3)]
		if spies && n != "v3" {
			s.Variables[n] = cvSpies(r, 4)
		}
		return VariableReference{VariableName: n}
	}
	return cvRandUpdate(r, s, 2)
}

func init() {
	cvGenT[*Score](func(r *rand.Rand, d int) *Score { return cvRandScore(r) })
	cvGenT[Duration](func(r *rand.Rand, d int) Duration { return cvWildDuration(r, d) })
}

func cvWildDuration(r *rand.Rand, d int) Duration {
	if r.Intn(3) > 0 || d < 1 {
		return cvRandDuration(r)
	}
	var x Duration
	for i := r.Intn(4); i > 0; i-- {
		x.Components = append(x.Components, cvAny(r, reflect.TypeOf((*DurationComponent)(nil)).Elem(), d-1).Interface().(DurationComponent))
	}
	return x
}

// cvEither is what a contract on a kind of event with a score is run on.
func cvUpdateArgs(mk func(r *rand.Rand, s *Score, spies bool) ScoreUpdate) func(r *rand.Rand) []any {
	return cvUpdateArgsOf(mk, 2)
}

// cvSpyArgs: events that hold spies only (for contracts on the calls made).
func cvSpyArgs(mk func(r *rand.Rand, s *Score, spies bool) ScoreUpdate) func(r *rand.Rand) []any {
	return cvUpdateArgsOf(mk, 1)
}

func cvUpdateArgsOf(mk func(r *rand.Rand, s *Score, spies bool) ScoreUpdate, n int) func(r *rand.Rand) []any {
	return func(r *rand.Rand) []any {
		s := cvRandScore(r)
		if len(s.CurrentParts) == 0 && r.Intn(5) > 0 {
			cvTry(s, cvRandDecl(r, s))
		}
		same := int32(r.Intn(4))
		for _, p := range s.CurrentParts {
			if r.Intn(6) > 0 {
				p.currentRepetition = same
			} else {
				p.currentRepetition = int32(r.Intn(4))
			}
		}
		return []any{mk(r, s, r.Intn(n) == 0), s}
	}
}

func init() {
	cvArgs["model.addNoteOrRest"] = func(r *rand.Rand) []any {
		s := cvRandScore(r)
		s.chordMode = r.Intn(5) == 0
		var u ScoreUpdate = cvRandNote(r)
		if r.Intn(5) == 0 {
			u = Rest{Duration: cvRandDuration(r)}
		}
		if r.Intn(12) == 0 {
			u = Note{Pitch: cvRandPitch(r), Duration: cvWildDuration(r, 3)}
		}
		return []any{s, u}
	}
	cvArgs["model.iface ScoreUpdate.UpdateScore"] = func(r *rand.Rand) []any {
		s := cvRandScore(r)
		return []any{cvRandUpdate(r, s, 2), s}
	}
	withPart := func(r *rand.Rand) (*Score, *Part) {
		s := cvRandScore(r)
		return s, cvRandPartOf(r, s)
	}
	for _, n := range []string{"complexCheck", "determineMidiChannel", "assignMidiChannel"} {
		cvArgs["model.(*Score)."+n] = func(r *rand.Rand) []any {
			s, p := withPart(r)
			if r.Intn(3) == 0 {
				p.CurrentOffset = float64(r.Intn(8)) * 250
			}
			return []any{s, p, float64(r.Intn(5)) * 225}
		}
	}
	cvArgs["model.(*Score).simpleCheck"] = func(r *rand.Rand) []any {
		s, p := withPart(r)
		return []any{s, p}
	}
}

func cvRandPart(r *rand.Rand) *Part {
	p := cvRandPartOf(r, cvRandScore(r))
	if p == nil {
		return nil
	}
	for i := r.Intn(4); i > 0; i-- {
		if u := cvRandPartUpdate(r, nil); u != nil {
			if m, ok := u.(MidiChannelSet); !ok || m.ChannelNumber != 9 || cvPerc(p) {
				u.updatePart(p, false)
			}
		}
	}
	return p
}

func cvRandGlobals(r *rand.Rand) *GlobalAttributes {
	ga := NewGlobalAttributes()
	for i := r.Intn(7); i > 0; i-- {
		ga.Record(float64(r.Intn(6))*250, cvRandPartUpdate(r, nil))
	}
	return ga
}

func init() {
	cvGenT[*Part](func(r *rand.Rand, d int) *Part { return cvRandPart(r) })
	cvGenT[*GlobalAttributes](func(r *rand.Rand, d int) *GlobalAttributes { return cvRandGlobals(r) })
	cvGenT[GlobalAttributes](func(r *rand.Rand, d int) GlobalAttributes { return *cvRandGlobals(r) })
	cvGenT[MidiChannelSet](func(r *rand.Rand, d int) MidiChannelSet { return MidiChannelSet{ChannelNumber: int32(r.Intn(16))} })
	cvGenT[PartUpdate](func(r *rand.Rand, d int) PartUpdate { return cvRandPartUpdate(r, nil) })
	cvArgs["model.(*GlobalAttributes).Record"] = func(r *rand.Rand) []any {
		return []any{cvRandGlobals(r), float64(r.Intn(7)) * 250, cvRandPartUpdate(r, nil)}
	}
	cvArgs["model.GlobalAttributes.InWindow"] = func(r *rand.Rand) []any {
		return []any{*cvRandGlobals(r), float64(r.Intn(8)-1) * 250, float64(r.Intn(8)-1) * 250}
	}
}
