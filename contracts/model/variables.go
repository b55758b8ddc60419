package model

// Variables: events kept to be played later.

// cvCapture: the values of the first n events were captured, in order.
//
//cv:rec
func cvCapture(t cvTrace, us []ScoreUpdate, s *Score, n int) cvTrace {
	if n <= 0 {
		return t
	}
	return cvCalled(cvCapture(t, us, s, n-1), "VariableValue", us[n-1], s)
}

// cvCaptured: vs are the values captured of the first n events.
func cvCaptured(t cvTrace, vs, us []ScoreUpdate, s *Score, n int) bool {
	return len(vs) == n && cvForall(0, n, func(i int) bool {
		return cvEq(vs[i], cvResult[ScoreUpdate](cvCapture(t, us, s, i+1)))
	})
}

// cvCaptureOK: none of the first n captures failed.
func cvCaptureOK(t cvTrace, us []ScoreUpdate, s *Score, n int) bool {
	return cvForall(0, n, func(i int) bool { return cvResult[error](cvCapture(t, us, s, i+1)) == nil })
}

//cv:contract VariableDefinition.UpdateScore
//cv:props P15
//cv:extra
func cvDefine(vd VariableDefinition, s *Score) {
	cvRequires(s != nil && s.Variables != nil)
	cvModifiesAt(s.Variables)
	t := cvTraceStart()
	old := cvSnap(s)
	err := vd.UpdateScore(s)
	us, ok := s.Variables[vd.VariableName]
	cvEnsures("the value of every event is captured, in order", cvTraceIs(cvCapture(t, vd.Events, s, cvCalls())) && (err != nil || cvCalls() == len(vd.Events)))
	cvEnsures("the name stands for those values", err != nil || ok && cvCaptured(t, us, vd.Events, s, len(vd.Events)))
	cvEnsures("an error stops it, and defines nothing", (err == nil) == cvCaptureOK(t, vd.Events, s, cvCalls()) && (err == nil || cvSameMap(s.Variables, old.Variables)))
	cvEnsures("other variables are kept", cvForallKey(s.Variables, func(n string, us []ScoreUpdate) bool {
		vs, had := old.Variables[n]
		return n == vd.VariableName || had && cvKept(us, vs)
	}) && cvForallKey(old.Variables, func(n string, us []ScoreUpdate) bool {
		_, has := s.Variables[n]
		return n == vd.VariableName || has
	}))
}

//cv:loop VariableDefinition.UpdateScore
func cvLoopDefine(vd VariableDefinition, score *Score, acc []ScoreUpdate, k int) bool {
	return cvCalls() == k && cvTraceIs(cvCapture(cvTraceStart(), vd.Events, score, k)) && cvCaptured(cvTraceStart(), acc, vd.Events, score, k) &&
		cvCaptureOK(cvTraceStart(), vd.Events, score, k)
}

//cv:contract VariableReference.VariableValue
//cv:props P15
//cv:extra
func cvReferenceValue(vr VariableReference, s *Score) {
	cvRequires(s != nil)
	v, err := vr.VariableValue(s)
	us, ok := s.Variables[vr.VariableName]
	cvEnsures("an unknown variable is refused", (err == nil) == ok)
	cvEnsures("the value a variable has now is captured", err != nil || cvIs[EventSequence](v) && cvKept(cvAs[EventSequence](v).Events, us))
}

//cv:contract EventSequence.VariableValue
//cv:props P15
//cv:extra
func cvSequenceValue(es EventSequence, s *Score) {
	t := cvTraceStart()
	v, err := es.VariableValue(s)
	cvEnsures("the value of every event is captured, in order", cvTraceIs(cvCapture(t, es.Events, s, cvCalls())) && (err != nil || cvCalls() == len(es.Events)))
	cvEnsures("as a sequence of those values", err != nil || cvIs[EventSequence](v) && cvCaptured(t, cvAs[EventSequence](v).Events, es.Events, s, len(es.Events)))
	cvEnsures("an error stops it", (err == nil) == cvCaptureOK(t, es.Events, s, cvCalls()))
}

//cv:loop EventSequence.VariableValue
func cvLoopEventSequenceValue(over []ScoreUpdate, score *Score, locResult *EventSequence, k int) bool {
	return cvCalls() == k && cvTraceIs(cvCapture(cvTraceStart(), over, score, k)) && cvCaptureOK(cvTraceStart(), over, score, k) &&
		cvCaptured(cvTraceStart(), locResult.Events, over, score, k)
}

//cv:loop Chord.VariableValue
func cvLoopChordValue(over []ScoreUpdate, score *Score, locResult *Chord, k int) bool {
	return cvCalls() == k && cvTraceIs(cvCapture(cvTraceStart(), over, score, k)) && cvCaptureOK(cvTraceStart(), over, score, k) &&
		cvCaptured(cvTraceStart(), locResult.Events, over, score, k)
}

//cv:loop Cram.VariableValue
func cvLoopCramValue(cram Cram, over []ScoreUpdate, score *Score, locResult *Cram, k int) bool {
	return cvSameSlice(locResult.Duration.Components, cram.Duration.Components) && cvCalls() == k && cvTraceIs(cvCapture(cvTraceStart(), over, score, k)) && cvCaptureOK(cvTraceStart(), over, score, k) &&
		cvCaptured(cvTraceStart(), locResult.Events, over, score, k)
}

//cv:contract Chord.VariableValue
//cv:props P15
//cv:extra
func cvChordValue(c Chord, s *Score) {
	t := cvTraceStart()
	v, err := c.VariableValue(s)
	cvEnsures("the value of every event is captured, in order", cvTraceIs(cvCapture(t, c.Events, s, cvCalls())) && (err != nil || cvCalls() == len(c.Events)))
	cvEnsures("as a chord of those values", err != nil || cvIs[Chord](v) && cvCaptured(t, cvAs[Chord](v).Events, c.Events, s, len(c.Events)))
	cvEnsures("an error stops it", (err == nil) == cvCaptureOK(t, c.Events, s, cvCalls()))
}

//cv:contract Cram.VariableValue
//cv:props P15
//cv:extra
func cvCramValue(c Cram, s *Score) {
	t := cvTraceStart()
	v, err := c.VariableValue(s)
	cvEnsures("the value of every event is captured, in order", cvTraceIs(cvCapture(t, c.Events, s, cvCalls())) && (err != nil || cvCalls() == len(c.Events)))
	cvEnsures("as a cram expression of those values, as long", err != nil || cvIs[Cram](v) && cvCaptured(t, cvAs[Cram](v).Events, c.Events, s, len(c.Events)) &&
		cvSameSlice(cvAs[Cram](v).Duration.Components, c.Duration.Components))
	cvEnsures("an error stops it", (err == nil) == cvCaptureOK(t, c.Events, s, cvCalls()))
}

//cv:contract Repeat.VariableValue
//cv:props P15
//cv:extra
func cvRepeatValue(r Repeat, s *Score) {
	t := cvTraceStart()
	v, err := r.VariableValue(s)
	run := cvCalled(t, "VariableValue", r.Event, s)
	cvEnsures("the value of the event is captured", cvTraceIs(run) && (err == nil) == (cvResult[error](run) == nil))
	cvEnsures("repeated as often", err != nil || cvIs[Repeat](v) && cvAs[Repeat](v).Times == r.Times && cvEq(cvAs[Repeat](v).Event, cvResult[ScoreUpdate](run)))
}

//cv:contract OnRepetitions.VariableValue
//cv:props P15
//cv:extra
func cvOnRepetitionsValue(o OnRepetitions, s *Score) {
	t := cvTraceStart()
	v, err := o.VariableValue(s)
	run := cvCalled(t, "VariableValue", o.Event, s)
	cvEnsures("the value of the event is captured", cvTraceIs(run) && (err == nil) == (cvResult[error](run) == nil))
	cvEnsures("for the same passes", err != nil || cvIs[OnRepetitions](v) && cvSameSlice(cvAs[OnRepetitions](v).Repetitions, o.Repetitions) &&
		cvEq(cvAs[OnRepetitions](v).Event, cvResult[ScoreUpdate](run)))
}

func cvPlain(u ScoreUpdate) bool {
	return cvIs[Note](u) || cvIs[Rest](u) || cvIs[Barline](u) || cvIs[AttributeUpdate](u) || cvIs[GlobalAttributeUpdate](u) || cvIs[Marker](u) ||
		cvIs[AtMarker](u) || cvIs[VoiceMarker](u) || cvIs[VoiceGroupEndMarker](u) || cvIs[LispNil](u)
}

// Events without parts stand for themselves.
//
//cv:contract iface ScoreUpdate.VariableValue
//cv:props P15
//cv:extra
//cv:only Note Rest Barline AttributeUpdate GlobalAttributeUpdate Marker AtMarker VoiceMarker VoiceGroupEndMarker LispNil
func cvSelfValue(u ScoreUpdate, s *Score) {
	cvRequires(cvPlain(u))
	v, err := u.VariableValue(s)
	cvEnsures("the event itself", err == nil && cvEq(v, u))
}

//cv:contract PartDeclaration.VariableValue
//cv:props P15
//cv:extra
func cvDeclarationValue(d PartDeclaration, s *Score) {
	_, err := d.VariableValue(s)
	cvEnsures("a part cannot be declared in a variable", err != nil)
}

// A definition within a definition keeps its name, and the values it has now.
//
//cv:contract VariableDefinition.VariableValue
//cv:props P15
//cv:extra
func cvDefinitionValue(vd VariableDefinition, s *Score) {
	t := cvTraceStart()
	v, err := vd.VariableValue(s)
	cvEnsures("the value of every event is captured, in order", cvTraceIs(cvCapture(t, vd.Events, s, cvCalls())) && (err != nil || cvCalls() == len(vd.Events)))
	cvEnsures("as a definition of that name with those values", err != nil || cvIs[VariableDefinition](v) && cvAs[VariableDefinition](v).VariableName == vd.VariableName &&
		cvCaptured(t, cvAs[VariableDefinition](v).Events, vd.Events, s, len(vd.Events)))
	cvEnsures("an error stops it", (err == nil) == cvCaptureOK(t, vd.Events, s, cvCalls()))
}

//cv:loop VariableDefinition.VariableValue
func cvLoopDefinitionValue(vd VariableDefinition, over []ScoreUpdate, score *Score, locResult *VariableDefinition, k int) bool {
	return locResult.VariableName == vd.VariableName && cvCalls() == k && cvTraceIs(cvCapture(cvTraceStart(), over, score, k)) && cvCaptureOK(cvTraceStart(), over, score, k) &&
		cvCaptured(cvTraceStart(), locResult.Events, over, score, k)
}
