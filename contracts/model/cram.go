package model

import "math"

// Cram expressions: events squeezed into a given duration.

// cvLengths: the lengths of the first n of the events were asked for, in
// order, in the context of the part.
//
//cv:rec
func cvLengths(t cvTrace, us []ScoreUpdate, p *Part, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvLengths(t, us, p, n-1), "DurationMs", us[n-1], p)
}

// cvTotal is the sum of the lengths answered.
//
//cv:rec
func cvTotal(t cvTrace, us []ScoreUpdate, p *Part, n int) float64 {
	if n <= 0 {
		return 0
	}
	return cvTotal(t, us, p, n-1) + cvResult[float64](cvLengths(t, us, p, n))
}

// cvLeast is the least of the positive lengths answered.
//
//cv:rec
func cvLeast(t cvTrace, us []ScoreUpdate, p *Part, n int) float64 {
	if n <= 0 {
		return math.MaxFloat64
	}
	ms := cvResult[float64](cvLengths(t, us, p, n))
	if ms > 0 {
		return math.Min(cvLeast(t, us, p, n-1), ms)
	}
	return cvLeast(t, us, p, n-1)
}

//cv:contract EventSequence.DurationMs
//cv:extra
//cv:props P10
//cv:noframe
//cv:partial
func cvSequenceMs(es EventSequence, part *Part) {
	cvRequires(cvPartInv(part))
	t := cvTraceStart()
	ms := es.DurationMs(part)
	cvEnsures("every event counts, once, in order", cvTraceIs(cvLengths(t, es.Events, part, len(es.Events))))
	cvEnsures("a sequence lasts as long as its events together", cvNear(ms, cvTotal(t, es.Events, part, len(es.Events))))
}

//cv:loop EventSequence.DurationMs+cvSequenceMs
func cvLoopSequenceMs(es EventSequence, part *Part, k int, acc float64) bool {
	return cvTraceIs(cvLengths(cvTraceStart(), es.Events, part, k)) && cvNear(acc, cvTotal(cvTraceStart(), es.Events, part, k))
}

//cv:contract VariableReference.DurationMs
//cv:extra
//cv:props P10
//cv:noframe
//cv:partial
func cvReferenceMs(vr VariableReference, part *Part) {
	cvRequires(cvPartInv(part) && part.score != nil)
	us, known := part.score.Variables[vr.VariableName]
	t := cvTraceStart()
	ms := vr.DurationMs(part)
	cvEnsures("every event of the variable counts, once, in order", !known || cvTraceIs(cvLengths(t, us, part, len(us))))
	cvEnsures("a variable lasts as long as its events together", !known || cvNear(ms, cvTotal(t, us, part, len(us))))
	cvEnsures("an unknown variable counts nothing", known || ms == 0 && cvCalls() == 0)
}

//cv:loop VariableReference.DurationMs+cvReferenceMs
func cvLoopReferenceMs(over []ScoreUpdate, part *Part, k int, acc float64) bool {
	return cvTraceIs(cvLengths(cvTraceStart(), over, part, k)) && cvNear(acc, cvTotal(cvTraceStart(), over, part, k))
}

//cv:contract Chord.DurationMs
//cv:extra
//cv:props P09
//cv:noframe
//cv:partial
func cvChordMs(c Chord, part *Part) {
	cvRequires(cvPartInv(part))
	t := cvTraceStart()
	ms := c.DurationMs(part)
	cvEnsures("every event counts, once, in order", cvTraceIs(cvLengths(t, c.Events, part, len(c.Events))))
	cvEnsures("a chord lasts as long as its shortest note or rest", ms == cvLeast(t, c.Events, part, len(c.Events)))
}

//cv:loop Chord.DurationMs+cvChordMs
func cvLoopChordMs(chord Chord, part *Part, k int, acc float64) bool {
	return cvTraceIs(cvLengths(cvTraceStart(), chord.Events, part, k)) && acc == cvLeast(cvTraceStart(), chord.Events, part, k)
}

// cvPassMs: the length of the event was asked for n times, the part knowing
// each time which pass it is.
//
//cv:rec
func cvPassMs(t cvTrace, u ScoreUpdate, p *Part, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvPassMs(t, u, p, n-1), "DurationMs", u, p, true)
}

//cv:rec
func cvPassTotal(t cvTrace, u ScoreUpdate, p *Part, n int) float64 {
	if n <= 0 {
		return 0
	}
	return cvPassTotal(t, u, p, n-1) + cvResult[float64](cvPassMs(t, u, p, n))
}

//cv:contract Repeat.DurationMs
//cv:extra
//cv:props P10
//cv:noframe
//cv:partial
func cvRepeatMs(r Repeat, part *Part) {
	cvRequires(cvPartInv(part) && r.Times < math.MaxInt32)
	t := cvTraceStart()
	cvObserve("DurationMs", func(u ScoreUpdate, p *Part) bool { return int(p.currentRepetition) == cvCalls()+1 })
	pass := part.currentRepetition
	n := int(r.Times)
	if n < 0 {
		n = 0
	}
	ms := r.DurationMs(part)
	cvEnsures("every pass counts, the part knowing which it is", cvTraceIs(cvPassMs(t, r.Event, part, n)))
	cvEnsures("a repeat lasts as long as its passes together", cvNear(ms, cvPassTotal(t, r.Event, part, n)))
	cvEnsures("an outer repeat goes on with its own pass", part.currentRepetition == pass)
}

//cv:loop Repeat.DurationMs+cvRepeatMs
func cvLoopRepeatMs(repeat Repeat, part *Part, accRepetition int32, acc float64) bool {
	n := int(accRepetition) - 1
	return n >= 0 && (n <= int(repeat.Times) || n == 0) && cvCalls() == n && cvTraceIs(cvPassMs(cvTraceStart(), repeat.Event, part, n)) && cvNear(acc, cvPassTotal(cvTraceStart(), repeat.Event, part, n))
}

//cv:contract OnRepetitions.DurationMs
//cv:extra
//cv:props P10
//cv:noframe
//cv:partial
func cvOnRepetitionsMs(or OnRepetitions, part *Part) {
	cvRequires(cvPartInv(part))
	on := cvApplies(or.Repetitions, part.currentRepetition)
	t := cvTraceStart()
	ms := or.DurationMs(part)
	cvEnsures("on the passes listed, it counts as its event does", !on || cvTraceIs(cvCalled(t, "DurationMs", or.Event, part)) &&
		ms == cvResult[float64](cvCalled(t, "DurationMs", or.Event, part)))
	cvEnsures("on the others, it counts nothing", on || ms == 0 && cvCalls() == 0)
}

// cvMsSays: ms is the length written, or else the part's default, at the
// part's tempo.
func cvMsSays(ms float64, written, now Duration, p *Part) bool {
	d := now
	if written.Components != nil {
		d = written
	}
	return !cvWF(d) || cvNear(ms, cvMsSum(d.Components, len(d.Components), p.Tempo))
}

func cvBecomes(p *Part, written, before Duration) bool {
	if written.Components != nil {
		return cvKept(p.Duration.Components, written.Components)
	}
	return cvKept(p.Duration.Components, before.Components)
}

//cv:contract Note.DurationMs
//cv:extra
//cv:props P10
//cv:partial
func cvNoteMs(n Note, part *Part) {
	cvRequires(cvPartInv(part))
	cvModifiesAt(part, "Duration*")
	before := part.Duration
	ms := n.DurationMs(part)
	cvEnsures("its own length, or else the default", cvMsSays(ms, n.Duration, before, part))
	cvEnsures("a length written becomes the default of what follows", cvBecomes(part, n.Duration, before))
}

//cv:contract Rest.DurationMs
//cv:extra
//cv:props P10
//cv:partial
func cvRestMs(n Rest, part *Part) {
	cvRequires(cvPartInv(part))
	cvModifiesAt(part, "Duration*")
	before := part.Duration
	ms := n.DurationMs(part)
	cvEnsures("its own length, or else the default", cvMsSays(ms, n.Duration, before, part))
	cvEnsures("a length written becomes the default of what follows", cvBecomes(part, n.Duration, before))
}

//cv:contract Cram.DurationMs
//cv:extra
//cv:props P10
//cv:partial
func cvCramMs(n Cram, part *Part) {
	cvRequires(cvPartInv(part))
	cvModifiesAt(part, "Duration*")
	before := part.Duration
	ms := n.DurationMs(part)
	cvEnsures("its own length, or else the default", cvMsSays(ms, n.Duration, before, part))
	cvEnsures("a length written becomes the default of what follows", cvBecomes(part, n.Duration, before))
}

// Events of the other kinds take no time.
//
//cv:contract iface ScoreUpdate.DurationMs
//cv:extra
//cv:props P10
//cv:partial
//cv:only AttributeUpdate GlobalAttributeUpdate Barline Marker AtMarker VoiceMarker VoiceGroupEndMarker VariableDefinition PartDeclaration LispNil
func cvNoMs(u ScoreUpdate, part *Part) {
	cvRequires(cvIs[AttributeUpdate](u) || cvIs[GlobalAttributeUpdate](u) || cvIs[Barline](u) || cvIs[Marker](u) || cvIs[AtMarker](u) ||
		cvIs[VoiceMarker](u) || cvIs[VoiceGroupEndMarker](u) || cvIs[VariableDefinition](u) || cvIs[PartDeclaration](u) || cvIs[LispNil](u))
	ms := u.DurationMs(part)
	cvEnsures("no time", ms == 0)
}

// The events of a cram expression are measured on a copy of the part.
//
//cv:contract innerDurationMs
//cv:props P10
//cv:inline
//cv:partial
func cvInner(cram Cram, part *Part) {
	cvRequires(cvPartInv(part))
	cvModifies("alloc$model.Part")
	t := cvTraceStart()
	wf := cvAllParts(part)
	ms, err := innerDurationMs(cram, part)
	cvEnsures("every part stays well formed", !wf || cvAllParts(part))
	cvEnsures("no error", err == nil)
	cvEnsures("every event is measured, once, in order, on the same part", cvProof(func() bool {
		return !cvForallRef(part, func(p *Part) bool {
			return !(cvFresh(p) && cvTraceIs(cvLengths(t, cram.Events, p, len(cram.Events))) && cvNear(ms, cvTotal(t, cram.Events, p, len(cram.Events))))
		})
	}))
	cvEnsures("the sum of the lengths of the events, each following the others", cvConcrete(func() bool {
		return cvNear(ms, EventSequence{Events: cram.Events}.DurationMs(part.Clone()))
	}))
}

//cv:loop innerDurationMs
func cvLoopInner(cram Cram, locCopy *Part, k int, acc float64) bool {
	return cvTraceIs(cvLengths(cvTraceStart(), cram.Events, locCopy, k)) && cvNear(acc, cvTotal(cvTraceStart(), cram.Events, locCopy, k))
}

// The events are played at the speed that makes them fit.
//
//cv:contract timeScale
//cv:props P10
//cv:partial
func cvTimeScale(cram Cram, part *Part) {
	cvRequires(cvPartInv(part))
	cvModifies("alloc$model.Part")
	t := cvTraceStart()
	d := part.Duration
	if cram.Duration.Components != nil {
		d = cram.Duration
	}
	wf := cvAllParts(part)
	ts, err := timeScale(cram, part)
	cvEnsures("every part stays well formed", !wf || cvAllParts(part))
	cvEnsures("no error", err == nil)
	cvEnsures("as much faster or slower as it takes for the events to last as long as the expression", cvProof(func() bool {
		return !cvWF(d) || !cvForallRef(part, func(p *Part) bool {
			inner := cvTotal(t, cram.Events, p, len(cram.Events))
			return !(cvTraceIs(cvLengths(t, cram.Events, p, len(cram.Events))) &&
				(inner == 0 || cvNear(ts, (part.TimeScale/inner)*cvMsSum(d.Components, len(d.Components), part.Tempo))))
		})
	}))
	cvEnsures("the speed makes the events last as long as the expression", cvConcrete(func() bool {
		inner := EventSequence{Events: cram.Events}.DurationMs(part.Clone())
		return inner == 0 || !cvWF(d) || cvNear(ts*inner, part.TimeScale*cvMsSum(d.Components, len(d.Components), part.Tempo))
	}))
}

//cv:contract Cram.UpdateScore
//cv:extra
//cv:props P10
//cv:noframe
//cv:partial
func cvCram(cram Cram, s *Score) {
	cvRequires(cvScoreInv(s))
	t := cvTraceStart()
	old := cvSnap(s)
	err := cram.UpdateScore(s)
	cvEnsures("its events are applied in order, once each", cvProof(func() bool {
		return cvTraceIs(cvRun(t, cram.Events, s, cvCalls())) && (err != nil || cvCalls() == len(cram.Events))
	}))
	cvEnsures("an error stops it and is reported", cvProof(func() bool { return cvStops(t, cram.Events, s, cvCalls(), err != nil) }))
	cvEnsures("what follows is played at the speed of before, even after an error", cvForall(0, len(s.CurrentParts), func(i int) bool {
		return cvForall(0, len(old.CurrentParts), func(j int) bool {
			return !cvSame(s.CurrentParts[i], old.CurrentParts[j]) || s.CurrentParts[i].TimeScale == old.CurrentParts[j].TimeScale
		})
	}))
	cvEnsures("its own length, if written, is the default of what follows, and otherwise the default stays", err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		return cvForall(0, len(old.CurrentParts), func(j int) bool {
			return !cvSame(s.CurrentParts[i], old.CurrentParts[j]) || cvBecomes(s.CurrentParts[i], cram.Duration, old.CurrentParts[j].Duration)
		})
	}))
	cvEnsures("it lasts exactly as long as written", cvConcrete(func() bool { return err != nil || cvCramLasts(cram, s, old) }))
	cvEnsures("its notes keep their proportions", cvConcrete(func() bool { return err != nil || cvCramPlays(cram, s, old) }))
}

//cv:loop Cram.UpdateScore+cvCram
func cvLoopCramRun(cram Cram, score *Score, over []ScoreUpdate, k int) bool {
	return cvTraceIs(cvRun(cvTraceStart(), cram.Events, score, k)) && cvCalls() == k && cvStops(cvTraceStart(), cram.Events, score, k, false)
}

// cvKeeps: the map holds what the parts had when the expression began.
func cvKeeps(score *Score, scales map[*Part]float64, lengths map[*Part]Duration, n int) bool {
	return cvForall(0, n, func(j int) bool {
		q := cvOld(score).CurrentParts[j]
		v, ok := scales[q]
		d, has := lengths[q]
		return ok && has && v == q.TimeScale && cvKept(d.Components, q.Duration.Components)
	})
}

//cv:loop Cram.UpdateScore+cvCram
func cvLoopCramSaved(score *Score, locScales map[*Part]float64, locLengths map[*Part]Duration, over []*Part, k int) bool {
	return cvForall(0, k, func(j int) bool {
		q := score.CurrentParts[j]
		v, ok := locScales[q]
		d, has := locLengths[q]
		return ok && has && v == q.TimeScale && cvKept(d.Components, q.Duration.Components)
	})
}

//cv:loop Cram.UpdateScore+cvCram
func cvLoopCramBack(cram Cram, score *Score, locScales map[*Part]float64, over []*Part, k int) bool {
	return cvForall(0, k, func(i int) bool { return score.CurrentParts[i].TimeScale == locScales[score.CurrentParts[i]] })
}

//cv:loop Cram.UpdateScore+cvCram
func cvLoopCramDefault(cram Cram, score *Score, locLengths map[*Part]Duration, over []*Part, k int) bool {
	return cvForall(0, k, func(i int) bool {
		return cvBecomes(score.CurrentParts[i], cram.Duration, locLengths[score.CurrentParts[i]])
	})
}

// cvPlainTime: nothing but notes, rests and what is made of them.
func cvPlainTime(us []ScoreUpdate) bool {
	for _, u := range us {
		ok := false
		switch u := u.(type) {
		case Note:
			ok = u.Duration.Components == nil || cvWF(u.Duration)
		case Rest:
			ok = u.Duration.Components == nil || cvWF(u.Duration)
		case Barline:
			ok = true
		case EventSequence:
			ok = cvPlainTime(u.Events)
		case Cram:
			ok = cvPlainTime(u.Events) && (u.Duration.Components == nil || cvWF(u.Duration))
		case Repeat:
			ok = cvPlainTime([]ScoreUpdate{u.Event})
		case OnRepetitions:
			ok = cvPlainTime([]ScoreUpdate{u.Event})
		case Chord:
			ok = len(u.Events) > 0
			for _, e := range u.Events {
				if !(cvIs[Note](e) || cvIs[Rest](e)) || !cvPlainTime([]ScoreUpdate{e}) {
					ok = false
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func cvCramLength(cram Cram, q *Part) Duration {
	if cram.Duration.Components != nil {
		return cram.Duration
	}
	return q.Duration
}

// cvAheadOf: a global change is recorded after the part's last position.
func cvAheadOf(s *Score, q *Part) bool {
	return cvExists(0, len(s.GlobalAttributes.offsets), func(i int) bool { return s.GlobalAttributes.offsets[i] > q.LastOffset })
}

func cvCramLasts(cram Cram, s, old *Score) bool {
	if !cvPlainTime(cram.Events) || len(s.CurrentParts) != len(old.CurrentParts) {
		return true
	}
	for _, q := range old.CurrentParts {
		if q.currentRepetition != old.CurrentParts[0].currentRepetition {
			return true // parts are never in different passes
		}
	}
	for i, p := range s.CurrentParts {
		q := old.CurrentParts[i]
		d := cvCramLength(cram, q)
		if !cvWF(d) || !cvWF(q.Duration) || cvAheadOf(old, q) || !(cvPlainInner(cram.Events, q) > 0) {
			continue
		}
		if !cvNear(p.CurrentOffset, q.CurrentOffset+q.TimeScale*cvMsSum(d.Components, len(d.Components), q.Tempo)) {
			return false
		}
	}
	return true
}

// cvPlainInner is the length of plain events before they are squeezed.
func cvPlainInner(us []ScoreUpdate, q *Part) float64 {
	ms, _ := cvPlainMs(us, q.Duration, q.Tempo, q.currentRepetition)
	return ms
}

func cvPlainMs(us []ScoreUpdate, d Duration, tempo float64, pass int32) (float64, Duration) {
	total := 0.0
	for _, u := range us {
		ms := 0.0
		own := Duration{}
		switch u := u.(type) {
		case Note:
			own = u.Duration
		case Rest:
			own = u.Duration
		case Cram:
			own = u.Duration
		case EventSequence:
			ms, d = cvPlainMs(u.Events, d, tempo, pass)
		case Repeat:
			for n := int32(1); n <= u.Times; n++ {
				one := 0.0
				one, d = cvPlainMs([]ScoreUpdate{u.Event}, d, tempo, n)
				ms += one
			}
		case OnRepetitions:
			if cvApplies(u.Repetitions, pass) {
				ms, d = cvPlainMs([]ScoreUpdate{u.Event}, d, tempo, pass)
			}
		case Chord:
			ms = math.MaxFloat64
			for _, e := range u.Events {
				one := 0.0
				one, d = cvPlainMs([]ScoreUpdate{e}, d, tempo, pass)
				ms = math.Min(ms, one)
			}
		}
		if own.Components != nil {
			d = own
		}
		if cvIs[Note](u) || cvIs[Rest](u) || cvIs[Cram](u) {
			ms = cvMsSum(d.Components, len(d.Components), tempo)
		}
		total += ms
	}
	return total, d
}

// cvCramPlays: in an expression of notes and rests, every note starts and
// lasts in proportion.
func cvCramPlays(cram Cram, s, old *Score) bool {
	for _, u := range cram.Events {
		if !cvIs[Note](u) && !cvIs[Rest](u) {
			return true
		}
	}
	if !cvPlainTime(cram.Events) || len(s.CurrentParts) != len(old.CurrentParts) {
		return true
	}
	for i, p := range s.CurrentParts {
		q := old.CurrentParts[i]
		d := cvCramLength(cram, q)
		inner := cvPlainInner(cram.Events, q)
		if !cvWF(d) || !cvWF(q.Duration) || cvAheadOf(old, q) || !(inner > 0) {
			continue
		}
		outer := q.TimeScale * cvMsSum(d.Components, len(d.Components), q.Tempo)
		n, at := len(old.Events), q.CurrentOffset
		for k, u := range cram.Events {
			cs := cvInForce(cram.Events, k+1, q.Duration.Components)
			ms := cvMsSum(cs, len(cs), q.Tempo) * outer / inner
			heard := ms * q.Quantization
			if cvIs[Note](u) && cvAs[Note](u).Slurred {
				heard = ms
			}
			if cvIs[Note](u) && heard > 0 {
				for n < len(s.Events) && cvNote(s.Events[n]).Part != p.origin {
					n++
				}
				if n == len(s.Events) {
					return false
				}
				v := cvNote(s.Events[n])
				if !cvNear(v.Offset, at) || !cvNear(v.Duration, ms) || !cvNear(v.AudibleDuration, heard) {
					return false
				}
				n++
			}
			at += ms
		}
	}
	return true
}
