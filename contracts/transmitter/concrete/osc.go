package transmitter

import (
	"fmt"
	"math/rand"

	"alda.io/client/model"
)

// cvMakeScore plays a random piece.
func cvMakeScore(r *rand.Rand) *model.Score {
	s := model.NewScore()
	names := []string{"piano", "violin", "midi-percussion", "cello", "flute"}
	k := 0
	if r.Intn(6) == 0 { // more parts than channels
		names = nil
		for i := 0; i < 17; i++ {
			names = append(names, fmt.Sprint("x", i))
			s.Update(model.PartDeclaration{Names: []string{[]string{"piano", "violin", "midi-percussion", "cello", "flute"}[r.Intn(5)]}, Alias: names[i]})
		}
	}
	for i := 1 + r.Intn(14+len(names)); i > 0; i-- {
		var u model.ScoreUpdate
		up := func(p model.PartUpdate) model.ScoreUpdate {
			if r.Intn(3) == 0 {
				return model.GlobalAttributeUpdate{PartUpdate: p}
			}
			return model.AttributeUpdate{PartUpdate: p}
		}
		dur := func() model.Duration {
			if r.Intn(2) == 0 {
				return model.Duration{}
			}
			return model.Duration{Components: []model.DurationComponent{model.NoteLength{Denominator: float64(1 + r.Intn(8))}}}
		}
		note := func() model.ScoreUpdate {
			return model.Note{Pitch: model.LetterAndAccidentals{NoteLetter: model.NoteLetter(r.Intn(7))}, Duration: dur(), Slurred: r.Intn(3) == 0}
		}
		switch r.Intn(20) {
		case 0, 1:
			u = model.PartDeclaration{Names: []string{names[r.Intn(len(names))]}}
		case 2:
			u = model.PartDeclaration{Names: []string{names[r.Intn(2)], names[2+r.Intn(3)]}}
		case 3:
			u = up(model.VolumeSet{Volume: float64(r.Intn(5)) / 4})
		case 4:
			u = up(model.TrackVolumeSet{TrackVolume: float64(r.Intn(5)) / 4})
		case 5:
			u = up(model.PanningSet{Panning: float64(r.Intn(5)) / 4})
		case 6:
			u = up(model.TempoSet{Tempo: float64(60 + 30*r.Intn(5))})
		case 7:
			k++
			u = model.Marker{Name: fmt.Sprint("m", k)}
		case 8:
			u = model.Rest{Duration: dur()}
		case 9:
			u = model.Chord{Events: []model.ScoreUpdate{note(), note()}}
		case 10:
			u = up(model.MidiChannelSet{ChannelNumber: int32(r.Intn(16))})
		case 11:
			u = up(model.QuantizationSet{Quantization: float64(r.Intn(7)) / 4})
		case 12:
			u = []model.ScoreUpdate{model.VoiceMarker{VoiceNumber: 1 + int32(r.Intn(2))}, model.VoiceGroupEndMarker{}}[r.Intn(2)]
		default:
			u = note()
		}
		func() {
			defer func() { recover() }()
			s.Update(u)
		}()
	}
	return s
}

func init() {
	cvArgs["transmitter.OSCTransmitter.ScoreToOSCBundle"] = func(r *rand.Rand) []any {
		s := cvMakeScore(r)
		place := func() string {
			switch r.Intn(5) {
			case 0:
				return fmt.Sprintf("0:%02d", r.Intn(4))
			case 1:
				return fmt.Sprintf("%d:%d", r.Intn(2), r.Intn(100))
			case 2:
				return "nowhere"
			}
			return fmt.Sprint("m", 1+r.Intn(2))
		}
		opts := []TransmissionOption{}
		if r.Intn(3) == 0 {
			opts = append(opts, TransmitFrom(place()))
		}
		if r.Intn(3) == 0 {
			opts = append(opts, TransmitTo(place()))
		}
		if r.Intn(4) == 0 {
			n := len(s.Events)
			i := r.Intn(n + 1)
			opts = append(opts, TransmitFromIndex(i))
			if r.Intn(2) == 0 {
				opts = append(opts, TransmitToIndex(i+r.Intn(n-i+1)))
			}
		}
		if r.Intn(4) == 0 {
			offsets := s.PartOffsets()
			for p := range offsets {
				if r.Intn(2) == 0 {
					offsets[p] /= 2
				}
			}
			opts = append(opts, SyncOffsets(offsets))
		}
		if r.Intn(3) == 0 {
			opts = append(opts, OneOff())
		}
		if r.Intn(3) == 0 {
			opts = append(opts, LoadOnly())
		}
		return []any{OSCTransmitter{}, s, opts}
	}
}
