package model

import (
	"regexp"
	"strconv"
)

// What a player is told about a score: tracks, positions, tempo.

// cvOwnOrigins: no two parts of the score are the same instrument.
func cvOwnOrigins(s *Score) bool {
	return cvForall(0, len(s.Parts), func(i int) bool {
		return cvForall(0, len(s.Parts), func(j int) bool { return i == j || s.Parts[i].origin != s.Parts[j].origin })
	})
}

//cv:contract (*Score).Tracks
//cv:props P17
func cvTracks(score *Score) {
	cvRequires(score != nil)
	cvRequires(cvForall(0, len(score.Parts), func(i int) bool { return score.Parts[i] != nil }))
	cvRequires(len(score.Parts) < 1<<31-1)
	cvRequires(cvOwnOrigins(score))
	r := score.Tracks()
	cvEnsures("the parts are numbered from one, in order", cvForall(0, len(score.Parts), func(i int) bool {
		v, ok := r[score.Parts[i].origin]
		return ok && int(v) == i+1
	}))
}

//cv:loop (*Score).Tracks
func cvLoopTracks(score *Score, locTracks map[*Part]int32, k int) bool {
	return cvForall(0, k, func(i int) bool {
		v, ok := locTracks[score.Parts[i].origin]
		return ok && int(v) == i+1
	})
}

//cv:contract (*Score).PartOffsets
//cv:props P17
func cvPartOffsets(score *Score) {
	cvRequires(score != nil)
	cvRequires(cvForall(0, len(score.Parts), func(i int) bool { return score.Parts[i] != nil }))
	cvRequires(cvOwnOrigins(score))
	r := score.PartOffsets()
	cvEnsures("each part is where it is", cvForall(0, len(score.Parts), func(i int) bool {
		v, ok := r[score.Parts[i].origin]
		return ok && v == score.Parts[i].CurrentOffset
	}))
}

//cv:loop (*Score).PartOffsets
func cvLoopPartOffsets(score *Score, locOffsets map[*Part]float64, k int) bool {
	return cvForall(0, k, func(i int) bool {
		v, ok := locOffsets[score.Parts[i].origin]
		return ok && v == score.Parts[i].CurrentOffset
	})
}

//cv:contract (*Score).InterpretOffsetReference
//cv:props P17
//cv:bounded
func cvReference(score *Score, reference string) {
	cvRequires(score != nil)
	r, err := score.InterpretOffsetReference(reference)
	if m := regexp.MustCompile(`\A([0-9]+):([0-9]+)\z`).FindStringSubmatch(reference); m != nil && len(reference) < 12 {
		minutes, _ := strconv.Atoi(m[1])
		seconds, _ := strconv.Atoi(m[2])
		cvEnsures("minutes and seconds", err == nil && r == float64(minutes)*60000+float64(seconds)*1000)
		return
	}
	at, ok := score.Markers[reference]
	cvEnsures("the place of a marker; an unknown name is refused", len(reference) >= 12 || (err == nil) == ok && (!ok || r == at))
}

// cvTempoAfter: the global tempo after the first n changes of a list.
//
//cv:rec
func cvTempoAfter(list []PartUpdate, n int, before float64) float64 {
	if n <= 0 {
		return before
	}
	if cvIs[TempoSet](list[n-1]) {
		return cvAs[TempoSet](list[n-1]).Tempo
	}
	return cvTempoAfter(list, n-1, before)
}

// cvTempoBefore: the global tempo after the changes at the first n offsets.
//
//cv:rec
func cvTempoBefore(ga *GlobalAttributes, n int) float64 {
	if n <= 0 {
		return 120
	}
	list := ga.itinerary[ga.offsets[n-1]]
	return cvTempoAfter(list, len(list), cvTempoBefore(ga, n-1))
}

// cvSpeaks: the change says something about the tempo.
func cvSpeaks(u PartUpdate) bool { return cvIs[TempoSet](u) || cvIs[MetricModulation](u) }

// cvTempoSaid: what the last of the first n changes of the list that says
// something about the tempo says.
//
//cv:rec
func cvTempoSaid(list []PartUpdate, n int, before float64, otherwise float64) float64 {
	if n <= 0 {
		return otherwise
	}
	u := list[n-1]
	if cvIs[TempoSet](u) {
		return cvAs[TempoSet](u).Tempo
	}
	if cvIs[MetricModulation](u) {
		return cvTempoAfter(list, n-1, before) * cvAs[MetricModulation](u).Ratio
	}
	return cvTempoSaid(list, n-1, before, otherwise)
}

// cvSilent: none of the first n changes says anything about the tempo.
func cvSilent(list []PartUpdate, n int) bool {
	return cvForall(0, n, func(i int) bool { return !cvSpeaks(list[i]) })
}

// The tempo of the score as a whole.
//
//cv:contract (*Score).TempoItinerary
//cv:props P17
//cv:bounded
func cvTempoItinerary(score *Score) {
	cvRequires(cvScoreInv(score))
	r := score.TempoItinerary()
	want := map[float64]float64{0: 120}
	for _, p := range score.Parts {
		if p.TempoRole == TempoRoleMaster {
			for o, t := range p.TempoValues {
				want[o] = t
			}
		}
	}
	ga := score.GlobalAttributes
	for i, o := range ga.offsets {
		list := ga.itinerary[o]
		if !cvSilent(list, len(list)) {
			want[o] = cvTempoSaid(list, len(list), cvTempoBefore(ga, i), 0)
		}
	}
	same := len(want) == len(r)
	for o, t := range want {
		v, ok := r[o]
		same = same && ok && cvNear(v, t)
	}
	cvEnsures("the tempo changes of the master part and the global ones", same)
}
