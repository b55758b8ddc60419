package parser

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"alda.io/client/model"
)

// Reading Alda code: the oracle writes random events, in a random layout, and
// knows what they are and where they stand.

type cvWriter struct {
	r       *rand.Rand
	b       strings.Builder
	line    int
	col     int
	inLine  bool // inside a variable definition: no line breaks
	gaps    []cvGap
	nesting int
}

// cvGap: a place between two top-level events.
type cvGap struct{ at, line, col, nesting int }

func (w *cvWriter) put(s string) {
	for _, c := range s {
		if c == '\n' {
			w.line, w.col = w.line+1, 1
		} else {
			w.col++
		}
	}
	w.b.WriteString(s)
}

func (w *cvWriter) here() model.AldaSourceContext {
	return model.AldaSourceContext{Line: w.line, Column: w.col}
}

func (w *cvWriter) pick(ss ...string) string { return ss[w.r.Intn(len(ss))] }

// some space.
func (w *cvWriter) gap() {
	if w.inLine {
		w.put(w.pick(" ", "  ", " \t "))
		return
	}
	w.put(w.pick(" ", " ", " ", "  ", "\n", " \t", "\r\n", "\n\n  ", " # c4 [ ( \" comment\n", "\n#\n"))
}

// perhaps some space.
func (w *cvWriter) maybe() {
	if w.r.Intn(3) == 0 {
		w.gap()
	}
}

var cvNumbers = map[string]float64{"1": 1, "2": 2, "4": 4, "8": 8, "16": 16, "0.5": 0.5, "3": 3, "12.25": 12.25, "350": 350, "33.333333333": 33.333333333, "1000000.5": 1000000.5}

func (w *cvWriter) number() (string, float64) {
	s := w.pick("1", "2", "4", "8", "16", "0.5", "3", "12.25", "350", "33.333333333", "1000000.5")
	return s, cvNumbers[s]
}

// a duration; the first component stands at the current place.
func (w *cvWriter) duration() (d model.Duration) {
	for i := 0; ; i++ {
		s, n := w.number()
		switch w.r.Intn(6) {
		case 0:
			w.put(s + "ms")
			d.Components = append(d.Components, model.NoteLengthMs{Quantity: n})
		case 1:
			w.put(s + "s")
			d.Components = append(d.Components, model.NoteLengthSeconds{Quantity: n})
			w.put(" ")
		default:
			k := w.r.Intn(4)
			if k == 3 {
				k = 0
			}
			w.put(s + strings.Repeat(".", k))
			d.Components = append(d.Components, model.NoteLength{Denominator: n, Dots: int32(k)})
		}
		if i == 3 || w.r.Intn(3) != 0 {
			return d
		}
		if w.r.Intn(4) == 0 {
			w.maybe()
			w.put("|")
		}
		w.maybe()
		w.put("~")
		if w.r.Intn(4) == 0 {
			w.maybe()
			w.put("|")
			w.maybe()
			if w.r.Intn(2) == 0 {
				w.put("~")
			}
		}
		w.maybe()
	}
}

func (w *cvWriter) note() model.ScoreUpdate {
	at := w.here()
	if w.r.Intn(5) == 0 {
		rest := model.Rest{SourceContext: at}
		w.put("r")
		if w.r.Intn(2) == 0 {
			rest.Duration = w.duration()
		}
		return rest
	}
	k := w.r.Intn(7)
	w.put(string("cdefgab"[k]))
	pitch := model.LetterAndAccidentals{NoteLetter: []model.NoteLetter{model.C, model.D, model.E, model.F, model.G, model.A, model.B}[k]}
	for w.r.Intn(3) == 0 {
		i := w.r.Intn(3)
		w.put([]string{"-", "_", "+"}[i])
		pitch.Accidentals = append(pitch.Accidentals, []model.Accidental{model.Flat, model.Natural, model.Sharp}[i])
	}
	n := model.Note{SourceContext: at, Pitch: pitch}
	if w.r.Intn(2) == 0 {
		n.Duration = w.duration()
	}
	if w.r.Intn(5) == 0 {
		if n.Duration.Components != nil && w.r.Intn(4) == 0 {
			w.maybe()
			w.put("|")
			w.maybe()
		}
		w.put("~")
		n.Slurred = true
	}
	return n
}

func (w *cvWriter) octave() model.ScoreUpdate {
	at := w.here()
	switch w.r.Intn(3) {
	case 0:
		w.put(">")
		return model.AttributeUpdate{SourceContext: at, PartUpdate: model.OctaveUp{}}
	case 1:
		w.put("<")
		return model.AttributeUpdate{SourceContext: at, PartUpdate: model.OctaveDown{}}
	}
	w.put(" ")
	at = w.here()
	k := w.r.Intn(12)
	w.put(fmt.Sprint("o", k, " "))
	return model.AttributeUpdate{SourceContext: at, PartUpdate: model.OctaveSet{OctaveNumber: int32(k)}}
}

func (w *cvWriter) form(depth int) model.LispForm {
	switch k := w.r.Intn(6 + depth); {
	case k < 2:
		s := w.pick("vol", "tempo!", "key-signature", "up", "a", "set-duration", "foo_bar", "minor", "o4", "c+")
		w.put(s)
		return model.LispSymbol{Name: s}
	case k < 4:
		s, n := w.number()
		if w.r.Intn(4) == 0 {
			s, n = "-"+s, -n
		}
		w.put(s)
		return model.LispNumber{Value: n}
	case k < 6:
		s := w.pick("", "f+ c+", "4.~8", "# no [comment", "a'b|", "two\nlines")
		if w.inLine {
			s = "one line"
		}
		w.put("\"" + s + "\"")
		return model.LispString{Value: s}
	}
	return w.list(depth - 1)
}

func (w *cvWriter) list(depth int) model.LispList {
	l := model.LispList{}
	w.put("(")
	w.maybe()
	for i := w.r.Intn(4); i > 0; i-- {
		if w.r.Intn(4) == 0 {
			w.put("'")
			l.Elements = append(l.Elements, model.LispQuotedForm{Form: w.form(depth)})
		} else {
			l.Elements = append(l.Elements, w.form(depth))
		}
		if i > 1 {
			w.gap()
		}
	}
	w.maybe()
	w.put(")")
	return l
}

func (w *cvWriter) name() string {
	return w.pick("foo", "bar", "bazQux", "xy1", "theme", "aa", "ceg", "violin-2", "two_words", "ab.c", "or+")[:]
}

// repeated: the event, with a number of repetitions perhaps.
func (w *cvWriter) repeated(u model.ScoreUpdate) model.ScoreUpdate {
	if w.r.Intn(5) != 0 {
		return u
	}
	k := w.r.Intn(12)
	w.maybe()
	w.put("*" + w.pick("", "", " ", "  ") + fmt.Sprint(k))
	w.put(" ")
	return model.Repeat{Event: u, Times: int32(k)}
}

// event writes an event; endings says that repetitions may follow it.
func (w *cvWriter) event(depth int, endings bool) model.ScoreUpdate {
	w.nesting++
	defer func() { w.nesting-- }()
	var u model.ScoreUpdate
	switch k := w.r.Intn(14 + 4*depth); {
	case k < 6:
		u = w.repeatedNote(w.note())
	case k < 7:
		c := model.Chord{Events: []model.ScoreUpdate{w.note()}}
		for i := 1 + w.r.Intn(3); i > 0; i-- {
			for w.r.Intn(4) == 0 {
				w.maybe()
				c.Events = append(c.Events, w.octave())
			}
			w.maybe()
			w.put("/")
			for w.r.Intn(3) == 0 {
				w.maybe()
				c.Events = append(c.Events, w.octave())
			}
			w.maybe()
			c.Events = append(c.Events, w.note())
		}
		u = w.repeatedNote(c)
	case k < 9:
		u = w.octave()
	case k < 10:
		l := w.list(2)
		u = w.repeated(l)
	case k < 11:
		at, name := w.here(), w.name()
		w.put(name)
		u = w.repeated(model.VariableReference{SourceContext: at, VariableName: name})
	case k < 12:
		w.put("|")
		u = model.Barline{}
	case k < 13:
		at, name := w.here(), w.name()
		w.put("%" + name)
		u = model.Marker{SourceContext: at, Name: name}
	case k < 14:
		at, name := w.here(), w.name()
		w.put("@" + name)
		u = model.AtMarker{SourceContext: at, Name: name}
	case (k-14)%4 < 2:
		w.put("[")
		w.maybe()
		s := model.EventSequence{Events: w.events(depth-1, w.r.Intn(5), true)}
		if w.r.Intn(6) == 0 {
			s.Events = append(s.Events, w.voices(depth-1)...)
		}
		w.put("]")
		u = w.repeated(s)
	default:
		w.put("{")
		w.maybe()
		c := model.Cram{Events: w.events(depth-1, 1+w.r.Intn(4), false)}
		if w.r.Intn(6) == 0 {
			c.Events = append(c.Events, w.voices(depth-1)...)
		}
		w.put("}")
		if w.r.Intn(2) == 0 {
			c.Duration = w.duration()
		}
		u = w.repeated(c)
	}
	if _, bar := u.(model.Barline); endings && !bar && w.r.Intn(5) == 0 {
		e := model.OnRepetitions{Event: u}
		w.put(" '")
		for i := w.r.Intn(3); ; i-- {
			a := 1 + w.r.Intn(20)
			b := a
			w.put(fmt.Sprint(a))
			if w.r.Intn(2) == 0 {
				if b = a + w.r.Intn(5) - 2; b < 0 { // backwards is never
					b = 0
				}
				w.put(fmt.Sprint("-", b))
			}
			e.Repetitions = append(e.Repetitions, model.RepetitionRange{First: int32(a), Last: int32(b)})
			if i <= 0 {
				break
			}
			w.put(",")
		}
		u = e
	}
	return u
}

// after a slur, a repeat belongs to the note as well.
func (w *cvWriter) repeatedNote(u model.ScoreUpdate) model.ScoreUpdate { return w.repeated(u) }

func (w *cvWriter) events(depth, n int, endings bool) (us []model.ScoreUpdate) {
	for ; n > 0; n-- {
		us = append(us, w.event(depth, endings))
		w.gap()
	}
	return us
}

// voices: some voices; the last is still open.
func (w *cvWriter) voices(depth int) (us []model.ScoreUpdate) {
	for k := 1 + w.r.Intn(3); k > 0; k-- {
		n := 1 + w.r.Intn(11)
		us = append(us, model.VoiceMarker{SourceContext: w.here(), VoiceNumber: int32(n)})
		w.put(fmt.Sprint("V", n, ":"))
		w.maybe()
		us = append(us, w.events(depth, w.r.Intn(4), false)...)
	}
	return us
}

// cvCompose: a piece of Alda code, the events it stands for, and the places
// between its top-level events.
func cvCompose(seed int64) (string, []model.ScoreUpdate, []cvGap) {
	w := &cvWriter{r: rand.New(rand.NewSource(seed)), line: 1, col: 1}
	var us []model.ScoreUpdate
	parts := w.r.Intn(3)
	if w.r.Intn(2) == 0 {
		w.gap()
	}
	for p := 0; p <= parts; p++ {
		if p > 0 || w.r.Intn(2) == 0 {
			d := model.PartDeclaration{SourceContext: w.here()}
			for i := w.r.Intn(3); ; i-- {
				d.Names = append(d.Names, w.name())
				w.put(d.Names[len(d.Names)-1])
				w.maybe()
				if i <= 0 {
					break
				}
				w.put("/")
				w.maybe()
			}
			if w.r.Intn(3) == 0 {
				d.Alias = w.name()
				w.put(" \"" + d.Alias + "\"")
				w.maybe()
			}
			w.put(":")
			us = append(us, d)
			w.gap()
		}
		for i := w.r.Intn(6); i > 0; i-- {
			w.gaps = append(w.gaps, cvGap{w.b.Len(), w.line, w.col, 0})
			switch w.r.Intn(8) {
			case 0: // a definition takes the rest of the line
				v := model.VariableDefinition{VariableName: w.name()}
				w.put(v.VariableName)
				w.inLine = true
				w.maybe()
				w.put("=")
				w.maybe()
				v.Events = w.events(1, 1+w.r.Intn(3), false)
				w.inLine = false
				w.put(w.pick("\n", " # done\n", "\r\n"))
				us = append(us, v)
				continue
			case 1: // voices
				us = append(us, w.voices(1)...)
				us = append(us, model.VoiceGroupEndMarker{SourceContext: w.here()})
				w.put("V0:")
			default:
				us = append(us, w.event(2, false))
			}
			w.gap()
		}
	}
	w.gaps = append(w.gaps, cvGap{w.b.Len(), w.line, w.col, 0})
	return w.b.String(), us, w.gaps
}

// cvPlain: the event without bar lines, which mean nothing, and without the
// places of composite events.
func cvPlain(u model.ScoreUpdate, file string) model.ScoreUpdate {
	place := func(c model.AldaSourceContext) model.AldaSourceContext {
		c.Filename = file
		return c
	}
	dur := func(d model.Duration) (r model.Duration) {
		for _, c := range d.Components {
			if _, bar := c.(model.Barline); !bar {
				r.Components = append(r.Components, c)
			}
		}
		return r
	}
	switch x := u.(type) {
	case model.Note:
		x.SourceContext, x.Duration = place(x.SourceContext), dur(x.Duration)
		return x
	case model.Rest:
		x.SourceContext, x.Duration = place(x.SourceContext), dur(x.Duration)
		return x
	case model.AttributeUpdate:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.VariableReference:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.Marker:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.AtMarker:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.VoiceMarker:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.VoiceGroupEndMarker:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.PartDeclaration:
		x.SourceContext = place(x.SourceContext)
		return x
	case model.LispList:
		return cvPlainForm(x).(model.LispList)
	case model.Chord:
		return model.Chord{Events: cvPlainAll(x.Events, file)}
	case model.EventSequence:
		return model.EventSequence{Events: cvPlainAll(x.Events, file)}
	case model.Cram:
		return model.Cram{Events: cvPlainAll(x.Events, file), Duration: dur(x.Duration)}
	case model.VariableDefinition:
		return model.VariableDefinition{VariableName: x.VariableName, Events: cvPlainAll(x.Events, file)}
	case model.Repeat:
		return model.Repeat{Event: cvPlain(x.Event, file), Times: x.Times}
	case model.OnRepetitions:
		return model.OnRepetitions{Event: cvPlain(x.Event, file), Repetitions: x.Repetitions}
	}
	return u
}

func cvPlainAll(us []model.ScoreUpdate, file string) (r []model.ScoreUpdate) {
	for _, u := range us {
		if _, bar := u.(model.Barline); !bar {
			r = append(r, cvPlain(u, file))
		}
	}
	return r
}

func cvPlainForm(f model.LispForm) model.LispForm {
	switch x := f.(type) {
	case model.LispList:
		r := model.LispList{}
		for _, e := range x.Elements {
			r.Elements = append(r.Elements, cvPlainForm(e))
		}
		return r
	case model.LispQuotedForm:
		return model.LispQuotedForm{Form: cvPlainForm(x.Form)}
	case model.LispNumber:
		return model.LispNumber{Value: x.Value}
	case model.LispString:
		return model.LispString{Value: x.Value}
	case model.LispSymbol:
		return model.LispSymbol{Name: x.Name}
	}
	return f
}

// Code means the events it spells, wherever they stand on the page.
//
//cv:contract Parse
//cv:props P16
//cv:bounded
func cvParse(filepath string, input string, seed int64) {
	text, want, _ := cvCompose(seed)
	cvRequires(input == text)
	ast, err := Parse(filepath, input)
	cvEnsures("well-formed code is accepted", err == nil)
	us, err := ast.Updates()
	cvEnsures("and stands for events", err == nil)
	cvEnsures("the events written, each at its place", reflect.DeepEqual(cvPlainAll(us, filepath), cvPlainAll(want, filepath)))
}

// cvSpoil breaks a piece of code at one of its gaps; exact says that the
// error is at that very place.
func cvSpoil(seed int64, how int) (text string, line, col int, exact bool) {
	text, _, gaps := cvCompose(seed)
	g := gaps[int(uint64(seed)%uint64(len(gaps)))]
	s := []string{"$", "]", "}", "!", "^c", "& d", ";", "\\", "[c", "{c", "{}", "V", "xx \"y", "xx \"y!: c", "xx/: c", "c*", "c*2d", "[c '1-]", "[c ',]", "%", "c/ |", "c/[d]", "%!", "o4x", "V1 c", "ff = \n c", "(", "(vol 5", "(vol 5 'q", "4 4", "xx/yy c"}
	exact = how < 8
	return text[:g.at] + s[how%len(s)] + " " + text[g.at:], g.line, g.col, exact
}

// Code that is not well-formed is refused, with the place of the error.
//
//cv:contract Parse
//cv:props P16
//cv:bounded
//cv:extra
func cvParseSpoilt(filepath string, input string, seed int64, how int) {
	cvRequires(0 <= how && how < 31)
	text, line, col, exact := cvSpoil(seed, how)
	cvRequires(input == text)
	_, err := Parse(filepath, input)
	cvEnsures("refused", err != nil)
	var e *model.AldaSourceError
	cvEnsures("as a mistake in the code", errors.As(err, &e))
	if exact && e != nil {
		cvEnsures("at its place", e.Context.Filename == filepath && e.Context.Line == line && e.Context.Column == col)
	}
}
