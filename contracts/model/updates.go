package model

// What every update of a score keeps, whatever it is made of.

//cv:contract iface ScoreUpdate.UpdateScore
//cv:props P04
//cv:logged
//cv:slow
//cv:partial
//cv:bounded VoiceMarker VoiceGroupEndMarker PartDeclaration
func cvUpdateScore(u ScoreUpdate, s *Score) {
	cvRequires(cvScoreInv(s))
	cvModifies("model.Part*", "model.Score*", "model.Voices*", "model.GlobalAttributes*", "[]*model.Part", "[]float64",
		"map[string][]*model.Part*", "map[string]float64*", "map[string][]model.ScoreUpdate*",
		"map[float64][]model.PartUpdate*", "map[float64]float64*", "map[int32]*model.Part*")
	u.UpdateScore(s)
	cvEnsures("the global itinerary stays sorted and complete", cvGlobalsInv(s.GlobalAttributes))
	cvEnsures("every part stays well formed", cvPartsInv(s))
	cvEnsures("the channel bookkeeping is kept", cvChanInv(s))
}

// Summing up the inner duration of a cram expression changes only the default
// duration and the repetition of the part it is given (a copy).
//
//cv:contract iface ScoreUpdate.DurationMs
//cv:props P10
//cv:logged
//cv:partial
func cvDurationMs(u ScoreUpdate, part *Part) {
	cvRequires(cvPartInv(part))
	cvModifiesAt(part, "Duration*", "currentRepetition")
	u.DurationMs(part)
	cvEnsures("the part stays well formed", cvPartInv(part))
}

// Capturing the value of an event changes nothing.
//
//cv:contract iface ScoreUpdate.VariableValue
//cv:props P15
//cv:logged
//cv:partial
func cvVariableValue(u ScoreUpdate, s *Score) {
	v, err := u.VariableValue(s)
	cvEnsures("a value or an error", err != nil || v != nil)
}

// Evaluating a form builds values; it does not reach any score.
//
//cv:contract iface LispForm.Eval
//cv:trusted
//cv:partial
func cvLispEval(f LispForm) { f.Eval() }

//cv:loop (*Score).Update
func cvLoopUpdate(score *Score) bool { return cvScoreInv(score) }

//cv:loop Chord.UpdateScore
func cvLoopChord(score *Score) bool { return cvScoreInv(score) }

//cv:loop Cram.UpdateScore
func cvLoopCram(score *Score) bool { return cvScoreInv(score) }

//cv:loop Repeat.UpdateScore
func cvLoopRepeat(score *Score) bool { return cvScoreInv(score) }

//cv:loop OnRepetitions.UpdateScore
func cvLoopOnReps(score *Score) bool { return cvScoreInv(score) }

//cv:loop VariableReference.UpdateScore
func cvLoopVarRef(score *Score) bool { return cvScoreInv(score) }

//cv:loop AttributeUpdate.UpdateScore
func cvLoopAttr(score *Score) bool { return cvScoreInv(score) }

//cv:loop VoiceMarker.UpdateScore
func cvLoopVoiceGlobals(score *Score) bool { return cvGlobalsInv(score.GlobalAttributes) }

//cv:loop VoiceMarker.UpdateScore
func cvLoopVoiceParts(score *Score) bool { return cvPartsInv(score) }

//cv:loop VoiceMarker.UpdateScore
func cvLoopVoiceChan(score *Score) bool { return cvChanInv(score) }

//cv:loop VoiceGroupEndMarker.UpdateScore
func cvLoopVoiceEndGlobals(score *Score) bool { return cvGlobalsInv(score.GlobalAttributes) }

//cv:loop VoiceGroupEndMarker.UpdateScore
func cvLoopVoiceEndParts(score *Score) bool { return cvPartsInv(score) }

//cv:loop VoiceGroupEndMarker.UpdateScore
func cvLoopVoiceEndChan(score *Score) bool { return cvChanInv(score) }

//cv:loop PartDeclaration.UpdateScore
func cvLoopDeclGlobals(score *Score) bool { return cvGlobalsInv(score.GlobalAttributes) }

//cv:loop PartDeclaration.UpdateScore
func cvLoopDeclParts(score *Score) bool { return cvPartsInv(score) }

//cv:loop PartDeclaration.UpdateScore
func cvLoopDeclChan(score *Score) bool { return cvChanInv(score) }

//cv:loop addNoteOrRest
func cvLoopNoteGlobals(score *Score) bool { return cvGlobalsInv(score.GlobalAttributes) }

//cv:loop addNoteOrRest
func cvLoopNoteParts(score *Score) bool { return cvPartsInv(score) }

//cv:loop addNoteOrRest
func cvLoopNoteEvents(score *Score) bool {
	return cvForall(0, len(score.Events), func(i int) bool { return cvEventOK(score, score.Events[i]) })
}

//cv:loop addNoteOrRest
func cvLoopNoteClash(score *Score) bool {
	return cvForall(0, len(score.Events), func(i int) bool {
		return cvForall(0, len(score.Events), func(j int) bool { return cvNoClash(score.Events[i], score.Events[j]) })
	})
}
