package model

// cvPartWF: a part as NewPart and Clone build it.
func cvPartWF(p *Part) bool {
	return p != nil && p.TempoValues != nil && cvIs[MidiInstrument](p.StockInstrument)
}

func cvPerc(p *Part) bool { return cvAs[MidiInstrument](p.StockInstrument).IsPercussion }

// cvChannelSetOK: the channel a channel attribute carries (checked where Lisp
// builds it).
//
//cv:typeinv
func cvChannelSetOK(u MidiChannelSet) bool { return u.ChannelNumber >= 0 && u.ChannelNumber <= 15 }

//cv:contract iface PartUpdate.updatePart
//cv:props P05
//cv:logged
func cvUpdatePartCall(pu PartUpdate, part *Part, globalUpdate bool) {
	cvRequires(pu != nil && cvPartWF(part))
	cvModifiesAt(part, "Tempo", "Octave", "Volume", "TrackVolume", "Panning", "Quantization", "Duration",
		"KeySignature", "Transposition", "ReferencePitch", "MidiChannel", "HasExplicitMidiChannel")
	cvModifiesAt(part.TempoValues)
	wf := cvPartInv(part)
	pu.updatePart(part, globalUpdate)
	cvEnsures("a well-formed part stays so", !wf || cvPartInv(part))
}

//cv:contract iface PartUpdate.updatePart
//cv:extra
//cv:props P05
func cvUpdatePart(pu PartUpdate, part *Part, globalUpdate bool) {
	cvRequires(pu != nil && cvPartWF(part))
	cvModifiesAt(part, "Tempo", "Octave", "Volume", "TrackVolume", "Panning", "Quantization", "Duration",
		"KeySignature", "Transposition", "ReferencePitch", "MidiChannel", "HasExplicitMidiChannel")
	cvModifiesAt(part.TempoValues)
	old := cvSnap(part)
	err := pu.updatePart(part, globalUpdate)

	reserved := cvIs[MidiChannelSet](pu) && cvAs[MidiChannelSet](pu).ChannelNumber == 9 && !cvPerc(part)
	cvEnsures("rejected exactly when the percussion channel is given to another instrument", (err != nil) == reserved)

	tempo, octave, volume, trackVolume, panning := old.Tempo, old.Octave, old.Volume, old.TrackVolume, old.Panning
	quant, trans, ref := old.Quantization, old.Transposition, old.ReferencePitch
	ch, explicit := old.MidiChannel, old.HasExplicitMidiChannel
	recorded, durSet, keySet := false, false, false
	if err == nil {
		switch u := pu.(type) {
		case TempoSet:
			tempo = u.Tempo
			recorded = !globalUpdate
		case MetricModulation:
			tempo = old.Tempo * u.Ratio
			recorded = !globalUpdate
		case OctaveSet:
			octave = u.OctaveNumber
		case OctaveUp:
			octave = old.Octave + 1
		case OctaveDown:
			octave = old.Octave - 1
		case VolumeSet:
			volume = u.Volume
		case DynamicMarking:
			volume = DynamicVolumes[u.Marking]
		case TrackVolumeSet:
			trackVolume = u.TrackVolume
		case PanningSet:
			panning = u.Panning
		case QuantizationSet:
			quant = u.Quantization
		case TranspositionSet:
			trans = u.Semitones
		case ReferencePitchSet:
			ref = u.Frequency
		case MidiChannelSet:
			ch, explicit = u.ChannelNumber, true
		case DurationSet:
			durSet = true
			cvEnsures("default duration set", cvSameSlice(part.Duration.Components, u.Duration.Components))
		case KeySignatureSet:
			keySet = true
			cvEnsures("key signature set", cvSameMap(part.KeySignature, u.KeySignature))
		}
	}
	cvEnsures("tempo set or modulated, else unchanged", part.Tempo == tempo)
	cvEnsures("octave set or shifted, else unchanged", part.Octave == octave)
	cvEnsures("volume set, else unchanged", part.Volume == volume)
	cvEnsures("track volume set, else unchanged", part.TrackVolume == trackVolume)
	cvEnsures("panning set, else unchanged", part.Panning == panning)
	cvEnsures("quantization set, else unchanged", part.Quantization == quant)
	cvEnsures("transposition set, else unchanged", part.Transposition == trans)
	cvEnsures("reference pitch set, else unchanged", part.ReferencePitch == ref)
	cvEnsures("MIDI channel set, else unchanged", part.MidiChannel == ch && part.HasExplicitMidiChannel == explicit)
	cvEnsures("default duration unchanged by other attributes", durSet || cvSameSlice(part.Duration.Components, old.Duration.Components))
	cvEnsures("key signature unchanged by other attributes", keySet || cvSameMap(part.KeySignature, old.KeySignature))
	off := old.CurrentOffset
	t, has := part.TempoValues[off]
	cvEnsures("local tempo change recorded at the part's position", !recorded || (has && t == tempo))
	cvEnsures("tempo history otherwise unchanged", cvForallKey(part.TempoValues, func(k float64, v float64) bool {
		o, was := old.TempoValues[k]
		return (recorded && k == off) || (was && o == v)
	}) && cvForallKey(old.TempoValues, func(k float64, v float64) bool {
		o, is := part.TempoValues[k]
		return (recorded && k == off) || (is && o == v)
	}))
}
