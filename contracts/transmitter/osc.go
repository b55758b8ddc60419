package transmitter

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"alda.io/client/model"
	"github.com/daveyarwood/go-osc/osc"
)

// cvPlayed is a note as a player hears it.
type cvPlayed struct {
	track, channel, offset, note, duration, audible, velocity int32
	patch, volume, panning                                   int32
}

func cvInt(m *osc.Message, i int) int32 {
	if i < len(m.Arguments) {
		if v, ok := m.Arguments[i].(int32); ok {
			return v
		}
	}
	return -99999
}

// cvHear: what a player makes of the messages: the notes, each with the patch,
// volume and panning of its channel; the tempo changes; and the rest.
// wrong says what is not as it should be.
func cvHear(messages []*osc.Message) (notes []cvPlayed, tempos [][2]float64, rest []string, wrong string) {
	patch, volume, panning := map[int32]int32{}, map[int32]int32{}, map[int32]int32{}
	last := int32(math.MinInt32)
	for _, m := range messages {
		var track int32
		kind := m.Address
		if strings.HasPrefix(m.Address, "/track/") {
			fmt.Sscanf(m.Address, "/track/%d/midi/", &track)
			kind = strings.TrimPrefix(m.Address, fmt.Sprintf("/track/%d/", track))
			if cvInt(m, 1) < last {
				wrong = "out of order"
			}
			last = cvInt(m, 1)
		}
		channel := cvInt(m, 0)
		state := map[string]map[int32]int32{"midi/patch": patch, "midi/volume": volume, "midi/panning": panning}[kind]
		switch {
		case state != nil:
			if len(m.Arguments) != 3 {
				wrong = "arguments of " + m.Address
			}
			if kind == "midi/patch" && channel == 9 {
				wrong = "a patch for percussion"
			}
			state[channel] = cvInt(m, 2)
		case kind == "midi/note":
			if len(m.Arguments) != 6 {
				wrong = "arguments of " + m.Address
			}
			n := cvPlayed{track, channel, cvInt(m, 1), cvInt(m, 2), cvInt(m, 3), cvInt(m, 4), cvInt(m, 5), -1, -1, -1}
			if v, ok := patch[channel]; ok {
				n.patch = v
			}
			if v, ok := volume[channel]; ok {
				n.volume = v
			}
			if v, ok := panning[channel]; ok {
				n.panning = v
			}
			notes = append(notes, n)
		case kind == "/system/tempo":
			t, _ := m.Arguments[1].(float32)
			tempos = append(tempos, [2]float64{float64(cvInt(m, 0)), float64(t)})
		default:
			rest = append(rest, fmt.Sprint(m.Address, m.Arguments))
		}
	}
	return
}

func cvSortPlayed(ns []cvPlayed) {
	sort.Slice(ns, func(i, j int) bool { return fmt.Sprint(ns[i]) < fmt.Sprint(ns[j]) })
}

func cvRound(x float64) int32 { return int32(math.Round(x)) }

// What is sent is what the score says.
//
//cv:contract OSCTransmitter.ScoreToOSCBundle
//cv:props P17
//cv:bounded
func cvScoreToBundle(oe OSCTransmitter, score *model.Score, opts ...TransmissionOption) {
	ctx := &TransmissionContext{toIndex: -1}
	for _, o := range opts {
		o(ctx)
	}
	if ctx.toIndex == -1 {
		ctx.toIndex = len(score.Events)
	}
	cvRequires(0 <= ctx.fromIndex && ctx.fromIndex <= ctx.toIndex && ctx.toIndex <= len(score.Events))
	from, to, refused := 0.0, math.MaxFloat64, false
	if ctx.from != "" {
		o, err := score.InterpretOffsetReference(ctx.from)
		from, refused = o, err != nil
	}
	if ctx.to != "" {
		o, err := score.InterpretOffsetReference(ctx.to)
		to, refused = o, refused || err != nil
	}
	var want []cvPlayed
	length := 0.0
	tracks := score.Tracks()
	for _, e := range score.Events[ctx.fromIndex:ctx.toIndex] {
		n := e.(model.NoteEvent)
		if n.Offset < from || n.Offset >= to {
			continue
		}
		at := n.Offset - from - ctx.syncOffsets[n.Part]
		p := cvPlayed{tracks[n.Part], n.MidiChannel, cvRound(at), n.MidiNote, cvRound(n.Duration), cvRound(n.AudibleDuration), cvRound(n.Volume * 127),
			-1, cvRound(n.TrackVolume * 127), cvRound(n.Panning * 127)}
		if n.MidiChannel != 9 {
			p.patch = n.Part.StockInstrument.(model.MidiInstrument).PatchNumber
		}
		want = append(want, p)
		length = math.Max(length, at+n.AudibleDuration)
	}
	before := len(score.Events)

	bundle, err := oe.ScoreToOSCBundle(score, opts...)

	cvEnsures("refused exactly when there is no such place", (err != nil) == refused)
	if err != nil || refused {
		return
	}
	notes, tempos, rest, wrong := cvHear(bundle.Messages)
	cvEnsures("well-formed messages, in order of time", wrong == "" || len(ctx.syncOffsets) > 0 && wrong == "out of order")
	cvSortPlayed(notes)
	cvSortPlayed(want)
	cvEnsures("exactly the notes of the score within the limits", len(notes) == len(want))
	for i := range want {
		if i < len(notes) {
			cvEnsures("each note sounds as the score says", notes[i] == want[i])
		}
	}
	cvEnsures("no event is lost", len(score.Events) == before)
	var wantRest []string
	if !ctx.loadOnly {
		wantRest = append(wantRest, "/system/play[]")
	}
	if ctx.oneOff {
		wantRest = append(wantRest, fmt.Sprintf("/system/shutdown[%d]", cvRound(length+10000)))
	}
	cvEnsures("played unless only loaded, and shut down after the end if asked", fmt.Sprint(rest) == fmt.Sprint(wantRest))
	// the tempo: for every moment of the excerpt, the one the score says
	if len(ctx.syncOffsets) > 0 {
		cvEnsures("no tempo in an incremental update", len(tempos) == 0)
		return
	}
	var at []float64
	itinerary := score.TempoItinerary()
	for o := range itinerary {
		at = append(at, o)
	}
	sort.Float64s(at)
	var wantTempos [][2]float64
	for i, o := range at {
		if o < to && (o >= from || i+1 == len(at) || at[i+1] > from) {
			wantTempos = append(wantTempos, [2]float64{float64(cvRound(math.Max(0, o-from))), float64(float32(itinerary[o]))})
		}
	}
	cvEnsures("the tempo at the start and every change within the limits", fmt.Sprint(tempos) == fmt.Sprint(wantTempos))
}
