package parser

import (
	"bytes"
	"math/rand"
	"reflect"
	"strings"

	"alda.io/client/model"
)

// cvUnplaced: the events without their places.
func cvUnplaced(us []model.ScoreUpdate) (r []model.ScoreUpdate) {
	for _, u := range cvPlainAll(us, "") {
		switch x := u.(type) {
		case model.Note:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.Rest:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.AttributeUpdate:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.VariableReference:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.Marker:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.AtMarker:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.VoiceMarker:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.VoiceGroupEndMarker:
			u = model.VoiceGroupEndMarker{}
		case model.PartDeclaration:
			x.SourceContext = model.AldaSourceContext{}
			u = x
		case model.Chord:
			u = model.Chord{Events: cvUnplaced(x.Events)}
		case model.EventSequence:
			u = model.EventSequence{Events: cvUnplaced(x.Events)}
		case model.Cram:
			u = model.Cram{Events: cvUnplaced(x.Events), Duration: x.Duration}
		case model.VariableDefinition:
			u = model.VariableDefinition{VariableName: x.VariableName, Events: cvUnplaced(x.Events)}
		case model.Repeat:
			u = model.Repeat{Event: cvUnplaced([]model.ScoreUpdate{x.Event})[0], Times: x.Times}
		case model.OnRepetitions:
			u = model.OnRepetitions{Event: cvUnplaced([]model.ScoreUpdate{x.Event})[0], Repetitions: x.Repetitions}
		}
		r = append(r, u)
	}
	return r
}

// Formatting changes the layout only.
//
//cv:contract FormatASTToCode
//cv:props P18
//cv:bounded
func cvFormat(input string, seed int64, wrap int, indent string) {
	text, want, _ := cvCompose(seed)
	cvRequires(input == text && strings.TrimLeft(indent, " \t") == "" && wrap >= 0)
	ast, err := Parse("", text)
	cvRequires(err == nil)
	out := &bytes.Buffer{}
	err = FormatASTToCode(ast, out, ConfigureSoftWrapLen(wrap), ConfigureIndentText(indent))
	cvEnsures("whatever can be read can be formatted", err == nil)
	again, err := Parse("", out.String())
	cvEnsures("what is written is well-formed", err == nil)
	us, err := again.Updates()
	cvEnsures("and stands for the same events", err == nil && reflect.DeepEqual(cvUnplaced(us), cvUnplaced(want)))
	twice := &bytes.Buffer{}
	err = FormatASTToCode(again, twice, ConfigureSoftWrapLen(wrap), ConfigureIndentText(indent))
	cvEnsures("formatting it again changes nothing", err == nil && twice.String() == out.String())
}

// cvImported: the events of a composed piece, with attribute changes such as
// those of an imported score among them.
func cvImported(seed int64) []model.ScoreUpdate {
	_, us, _ := cvCompose(seed)
	r := rand.New(rand.NewSource(seed + 1))
	var all []model.ScoreUpdate
	for i := 0; i <= len(us); i++ {
		if r.Intn(4) == 0 {
			ks := model.KeySignature{}
			for j := r.Intn(4); j > 0; j-- {
				l := []model.NoteLetter{model.A, model.B, model.C, model.D, model.E, model.F, model.G}[r.Intn(7)]
				for k := 1 + r.Intn(2); k > 0; k-- {
					ks[l] = append(ks[l], []model.Accidental{model.Flat, model.Sharp}[r.Intn(2)])
				}
			}
			all = append(all, model.AttributeUpdate{PartUpdate: []model.PartUpdate{
				model.TranspositionSet{Semitones: int32(r.Intn(25) - 12)},
				model.KeySignatureSet{KeySignature: ks},
				model.DynamicMarking{Marking: []string{"pp", "mf", "ffff"}[r.Intn(3)]},
			}[r.Intn(3)]})
		}
		if i < len(us) {
			all = append(all, us[i])
		}
	}
	return all
}

// A score that was imported, written down and read again stands for the same events.
//
//cv:contract GenerateASTFromScoreUpdates
//cv:props P18
//cv:bounded
func cvGenerate(updates []model.ScoreUpdate) {
	for _, u := range updates {
		cvRequires(u != nil)
	}
	ast, err := GenerateASTFromScoreUpdates(updates)
	cvEnsures("accepted", err == nil)
	out := &bytes.Buffer{}
	err = FormatASTToCode(ast, out)
	cvEnsures("written", err == nil)
	again, err := Parse("", out.String())
	cvEnsures("well-formed", err == nil)
	us, err := again.Updates()
	cvEnsures("events", err == nil)
	got, want := cvUnplaced(us), cvUnplaced(updates)
	cvEnsures("as many events", len(got) == len(want))
	for i := range want {
		if i >= len(got) {
			break
		}
		g := got[i]
		if a, is := want[i].(model.AttributeUpdate); is {
			if l, lisp := g.(model.LispList); lisp {
				f, err := l.Eval()
				cvEnsures("an attribute change that means something", err == nil)
				s, _ := f.(model.LispScoreUpdate)
				x, _ := s.ScoreUpdate.(model.AttributeUpdate)
				cvEnsures("the attribute change", reflect.DeepEqual(x.PartUpdate, a.PartUpdate))
				continue
			}
		}
		cvEnsures("the same events in the same order", reflect.DeepEqual(g, want[i]))
	}
}
