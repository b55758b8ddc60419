package model

// Markers: names for places in a score.

//cv:contract Marker.UpdateScore
//cv:props P12
//cv:extra
func cvMarker(m Marker, s *Score) {
	cvRequires(cvScoreInv(s) && s.Markers != nil)
	cvModifiesAt(s.Markers)
	old := cvSnap(s)
	err := m.UpdateScore(s)
	cvEnsures("refused exactly when there is no current part, or they are at different places", (err != nil) == (len(s.CurrentParts) == 0 || !cvTogether(old)))
	at, ok := s.Markers[m.Name]
	cvEnsures("the name stands for the place the current parts have reached", err != nil || ok && at == old.CurrentParts[0].CurrentOffset)
	cvEnsures("a refused marker changes nothing", err == nil || cvSameMap(s.Markers, old.Markers))
	cvEnsures("other markers are kept", cvForallKey(s.Markers, func(n string, o float64) bool {
		p, had := old.Markers[n]
		return n == m.Name || had && p == o
	}) && cvForallKey(old.Markers, func(n string, o float64) bool {
		p, has := s.Markers[n]
		return n == m.Name || has && p == o
	}))
}

//cv:loop Marker.UpdateScore
func cvLoopMarker(score *Score, k int) bool {
	return cvForall(0, k+1, func(i int) bool { return score.CurrentParts[i].CurrentOffset == score.CurrentParts[0].CurrentOffset })
}

//cv:contract AtMarker.UpdateScore
//cv:props P12
//cv:extra
//cv:partial
func cvAtMarker(m AtMarker, s *Score) {
	cvRequires(cvScoreInv(s) && cvDistinct(s))
	cvModifies("model.Part*", "map[float64]float64*")
	cvModifiesAt(s, "midiChannelUsage*")
	old := cvSnap(s)
	err := m.UpdateScore(s)
	at, ok := old.Markers[m.Name]
	cvEnsures("an unknown marker is refused", err != nil || ok)
	cvEnsures("every current part goes to the place of the marker, and remembers the one it left", err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		p, q := s.CurrentParts[i], old.CurrentParts[i]
		return p.CurrentOffset == at && p.LastOffset == q.CurrentOffset
	}))
	cvEnsures("none moves when it is refused", err == nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		p, q := s.CurrentParts[i], old.CurrentParts[i]
		return p.CurrentOffset == q.CurrentOffset && p.LastOffset == q.LastOffset
	}))
	cvEnsures("other parts stay where they are", cvForall(0, len(s.Parts), func(i int) bool {
		p, q := s.Parts[i], old.Parts[i]
		return p.CurrentOffset == q.CurrentOffset && p.LastOffset == q.LastOffset ||
			cvExists(0, len(s.CurrentParts), func(j int) bool { return s.CurrentParts[j] == p })
	}))
	cvEnsures("the markers stay what they are", cvSameMap(s.Markers, old.Markers))
}

//cv:loop AtMarker.UpdateScore
func cvLoopAtMarker(score *Score, locOffset float64, k int) bool {
	return cvForall(0, k, func(i int) bool {
		return score.CurrentParts[i].CurrentOffset == locOffset && score.CurrentParts[i].LastOffset == cvOld(score).CurrentParts[i].CurrentOffset
	}) && cvForall(k, len(score.CurrentParts), func(i int) bool {
		return score.CurrentParts[i].CurrentOffset == cvOld(score).CurrentParts[i].CurrentOffset &&
			score.CurrentParts[i].LastOffset == cvOld(score).CurrentParts[i].LastOffset
	})
}

//cv:loop AtMarker.UpdateScore
func cvLoopAtMarkerOthers(score *Score) bool {
	return cvForall(0, len(score.Parts), func(i int) bool {
		p, q := score.Parts[i], cvOld(score).Parts[i]
		return p.CurrentOffset == q.CurrentOffset && p.LastOffset == q.LastOffset ||
			cvExists(0, len(score.CurrentParts), func(j int) bool { return score.CurrentParts[j] == p })
	})
}
