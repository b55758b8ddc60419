package model

// How events that hold other events apply them.

// cvRun: the first n of the events were applied, in order, once each.
//
//cv:rec
func cvRun(t cvTrace, us []ScoreUpdate, s *Score, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvRun(t, us, s, n-1), "UpdateScore", us[n-1], s)
}

// cvStops: every event applied went well but for the last, if there was an
// error.
func cvStops(t cvTrace, us []ScoreUpdate, s *Score, n int, failed bool) bool {
	return cvForall(0, n, func(i int) bool {
		return (cvResult[error](cvRun(t, us, s, i+1)) != nil) == (failed && i == n-1)
	})
}

//cv:contract (*Score).Update
//cv:props P11
//cv:extra
//cv:noframe
//cv:partial
func cvUpdateInOrder(s *Score, us []ScoreUpdate) {
	cvRequires(cvScoreInv(s))
	t := cvTraceStart()
	err := s.Update(us...)
	cvEnsures("the events are applied one after the other, in order", cvTraceIs(cvRun(t, us, s, cvCalls())))
	cvEnsures("all of them unless one fails", cvCalls() == len(us) || err != nil && cvCalls() >= 1 && cvCalls() < len(us)+1)
	cvEnsures("an error stops it and is reported", cvStops(t, us, s, cvCalls(), err != nil))
	cvEnsures("an error carries the place of the event that failed", err == nil || cvIs[*AldaSourceError](err) &&
		cvEq(cvAs[*AldaSourceError](err).Context, us[cvCalls()-1].GetSourceContext()) &&
		cvEq(cvAs[*AldaSourceError](err).Err, cvResult[error](cvRun(t, us, s, cvCalls()))))
}

//cv:loop (*Score).Update
func cvLoopUpdateTrace(score *Score, updates []ScoreUpdate, k int) bool {
	return cvTraceIs(cvRun(cvTraceStart(), updates, score, k)) && cvCalls() == k && cvStops(cvTraceStart(), updates, score, k, false)
}

//cv:contract EventSequence.UpdateScore
//cv:props P11
//cv:extra
//cv:noframe
//cv:partial
func cvSequence(es EventSequence, s *Score) {
	cvRequires(cvScoreInv(s))
	t := cvTraceStart()
	err := es.UpdateScore(s)
	cvEnsures("the events are applied one after the other, in order", cvTraceIs(cvRun(t, es.Events, s, cvCalls())))
	cvEnsures("all of them unless one fails", cvCalls() == len(es.Events) || err != nil)
	cvEnsures("an error stops it and is reported", cvStops(t, es.Events, s, cvCalls(), err != nil))
}

// cvOnPass: every current part knows that the pass is n.
func cvOnPass(s *Score, n int) bool {
	return cvForall(0, len(s.CurrentParts), func(i int) bool { return int(s.CurrentParts[i].currentRepetition) == n })
}

// cvPasses: the event was applied n times, each time with the parts knowing
// which time it is.
//
//cv:rec
func cvPasses(t cvTrace, u ScoreUpdate, s *Score, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvPasses(t, u, s, n-1), "UpdateScore", u, s, true)
}

func cvPassStops(t cvTrace, u ScoreUpdate, s *Score, n int, failed bool) bool {
	return cvForall(0, n, func(i int) bool {
		return (cvResult[error](cvPasses(t, u, s, i+1)) != nil) == (failed && i == n-1)
	})
}

//cv:contract Repeat.UpdateScore
//cv:props P11
//cv:extra
//cv:noframe
//cv:partial
func cvRepeat(r Repeat, s *Score) {
	cvRequires(cvScoreInv(s))
	t := cvTraceStart()
	cvObserve("UpdateScore", func(u ScoreUpdate, s *Score) bool { return cvOnPass(s, cvCalls()+1) })
	old := cvSnap(s)
	err := r.UpdateScore(s)
	cvEnsures("the event is performed again and again, the parts knowing each time which pass it is", cvTraceIs(cvPasses(t, r.Event, s, cvCalls())))
	cvEnsures("as often as written, unless it fails", err != nil || cvCalls() == int(r.Times) || r.Times < 0 && cvCalls() == 0)
	cvEnsures("no more than written", cvCalls() <= int(r.Times) || cvCalls() == 0)
	cvEnsures("an error stops it and is reported", cvPassStops(t, r.Event, s, cvCalls(), err != nil))
	cvEnsures("an outer repeat goes on with its own pass", err != nil || cvForall(0, len(s.CurrentParts), func(i int) bool {
		return cvForall(0, len(old.CurrentParts), func(j int) bool {
			return !cvSame(s.CurrentParts[i], old.CurrentParts[j]) || s.CurrentParts[i].currentRepetition == old.CurrentParts[j].currentRepetition
		})
	}))
}

//cv:loop Repeat.UpdateScore
func cvLoopRepeatTrace(repeat Repeat, score *Score, accRepetition int32) bool {
	return cvTraceIs(cvPasses(cvTraceStart(), repeat.Event, score, cvCalls())) && cvPassStops(cvTraceStart(), repeat.Event, score, cvCalls(), false)
}

//cv:loop Repeat.UpdateScore
func cvLoopRepeatCount(repeat Repeat, score *Score, accRepetition int32) bool {
	return cvCalls() == int(accRepetition)-1 && (int(accRepetition) <= int(repeat.Times)+1 || accRepetition == 1)
}

//cv:loop Repeat.UpdateScore
func cvLoopRepeatSet(score *Score, locRepetition int32, k int) bool {
	return cvForall(0, k, func(i int) bool { return score.CurrentParts[i].currentRepetition == locRepetition })
}

//cv:loop Repeat.UpdateScore
func cvLoopRepeatSaved(score *Score, locPrevious map[*Part]int32, k int) bool {
	return cvForall(0, k, func(i int) bool {
		n, ok := locPrevious[score.CurrentParts[i]]
		return ok && n == score.CurrentParts[i].currentRepetition
	})
}

//cv:loop Repeat.UpdateScore
func cvLoopRepeatRestored(score *Score, locPrevious map[*Part]int32, k int) bool {
	return cvForall(0, k, func(i int) bool {
		n, ok := locPrevious[score.CurrentParts[i]]
		return !ok || n == score.CurrentParts[i].currentRepetition
	})
}

func cvApplies(rs []RepetitionRange, n int32) bool {
	return cvExists(0, len(rs), func(i int) bool { return rs[i].First <= n && n <= rs[i].Last })
}

//cv:contract OnRepetitions.AppliesTo
//cv:props P11
func cvAppliesTo(or OnRepetitions, repetition int32) {
	b := or.AppliesTo(repetition)
	cvEnsures("exactly on the passes listed", b == cvApplies(or.Repetitions, repetition))
}

//cv:loop OnRepetitions.AppliesTo
func cvLoopAppliesTo(or OnRepetitions, repetition int32, k int) bool {
	return !cvExists(0, k, func(i int) bool { return or.Repetitions[i].First <= repetition && repetition <= or.Repetitions[i].Last })
}

//cv:contract OnRepetitions.UpdateScore
//cv:props P11
//cv:extra
//cv:noframe
//cv:partial
func cvOnRepetitions(or OnRepetitions, s *Score) {
	cvRequires(cvScoreInv(s))
	// a repeat tells every current part the same pass
	cvRequires(cvForall(0, len(s.CurrentParts), func(i int) bool { return s.CurrentParts[i].currentRepetition == s.CurrentParts[0].currentRepetition }))
	t := cvTraceStart()
	now := len(s.CurrentParts) > 0 && cvApplies(or.Repetitions, s.CurrentParts[0].currentRepetition)
	once := cvCalled(t, "UpdateScore", or.Event, s)
	err := or.UpdateScore(s)
	cvEnsures("performed once, on the passes it is marked with", !now || cvTraceIs(once) && (err != nil) == (cvResult[error](once) != nil))
	cvEnsures("skipped on the others", now || cvTraceIs(t) && err == nil)
}

//cv:loop OnRepetitions.UpdateScore
func cvLoopOnRepsTrace(or OnRepetitions, score *Score, k int) bool {
	return cvTraceIs(cvTraceStart()) && cvCalls() == 0 &&
		cvForall(0, k, func(i int) bool { return !cvApplies(or.Repetitions, score.CurrentParts[i].currentRepetition) })
}

//cv:contract VariableReference.UpdateScore
//cv:props P11 P15
//cv:extra
//cv:noframe
//cv:partial
func cvVariableReference(vr VariableReference, s *Score) {
	cvRequires(cvScoreInv(s))
	t := cvTraceStart()
	us, known := s.Variables[vr.VariableName]
	err := vr.UpdateScore(s)
	cvEnsures("an unknown variable is an error", known || err != nil && cvTraceIs(t))
	cvEnsures("the events of the variable are applied one after the other, in order", !known || cvTraceIs(cvRun(t, us, s, cvCalls())))
	cvEnsures("all of them unless one fails", !known || cvCalls() == len(us) || err != nil)
	cvEnsures("an error stops it and is reported", !known || cvStops(t, us, s, cvCalls(), err != nil))
}

//cv:loop VariableReference.UpdateScore
func cvLoopVarRefTrace(locEvents []ScoreUpdate, score *Score, k int) bool {
	return cvTraceIs(cvRun(cvTraceStart(), locEvents, score, k)) && cvCalls() == k && cvStops(cvTraceStart(), locEvents, score, k, false)
}
