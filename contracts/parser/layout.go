package parser

import "alda.io/client/model"

// The layout: words are never lost, and nothing breaks a definition's line.

//cv:contract (*formatter).flush
//cv:props P18
func cvFlush(f *formatter) {
	cvRequires(f != nil && f.out != nil)
	cvModifiesAt(f, "texts")
	old := cvSnap(f)
	f.flush()
	if old.varDef == None && len(old.texts) > 0 {
		cvEnsures("a new line begins", len(f.texts) == 0)
	} else {
		cvEnsures("the line goes on", cvSameSlice(f.texts, old.texts))
	}
}

//cv:contract (*formatter).write
//cv:props P18
func cvFormatWrite(f *formatter, text string) {
	cvRequires(f != nil && f.out != nil)
	cvModifiesAt(f, "texts")
	old := cvSnap(f)
	f.write(text)
	n := len(f.texts)
	cvEnsures("the word is the last of the line", n > 0 && f.texts[n-1] == text)
	cvEnsures("the line goes on, or a new one begins with the word", n == len(old.texts)+1 && cvForall(0, n-1, func(i int) bool { return f.texts[i] == old.texts[i] }) ||
		n == 1 && old.varDef == None)
}

//cv:contract (*formatter).indent
//cv:props P18
func cvIndent(f *formatter) {
	cvRequires(f != nil && f.out != nil && (f.varDef == None || f.varDef == Defining || f.varDef == LastNode))
	cvModifiesAt(f, "texts", "varDef", "indentLevel")
	old := cvSnap(f)
	f.indent()
	if old.varDef == Defining {
		cvEnsures("a definition stays on its line", f.varDef == old.varDef && f.indentLevel == old.indentLevel && cvSameSlice(f.texts, old.texts))
	} else {
		cvEnsures("on a new line, further in", f.varDef == None && f.indentLevel == old.indentLevel+1 && len(f.texts) == 0)
	}
}

//cv:contract (*formatter).unindent
//cv:props P18
func cvUnindent(f *formatter) {
	cvRequires(f != nil && f.out != nil)
	cvModifiesAt(f, "texts", "indentLevel")
	old := cvSnap(f)
	f.unindent()
	if old.varDef == None {
		cvEnsures("on a new line, further out", f.indentLevel == old.indentLevel-1 && len(f.texts) == 0)
	} else {
		cvEnsures("a definition stays on its line", f.indentLevel == old.indentLevel && cvSameSlice(f.texts, old.texts))
	}
}

// cvComponent: the node stands for the part of a duration.
func cvComponent(n ASTNode, c model.DurationComponent) bool {
	if cvIs[model.Barline](c) {
		return n.Type == BarlineNode
	}
	if cvIs[model.NoteLengthMs](c) {
		return n.Type == NoteLengthMsNode && cvEq(n.Literal, any(cvAs[model.NoteLengthMs](c).Quantity))
	}
	if cvIs[model.NoteLengthSeconds](c) {
		return n.Type == NoteLengthSecondsNode && cvEq(n.Literal, any(cvAs[model.NoteLengthSeconds](c).Quantity))
	}
	if cvIs[model.NoteLength](c) {
		l := cvAs[model.NoteLength](c)
		return n.Type == NoteLengthNode && len(n.Children) == 1+cvDotted(l) && n.Children[0].Type == DenominatorNode && cvEq(n.Children[0].Literal, any(l.Denominator)) &&
			(l.Dots <= 0 || n.Children[1].Type == DotsNode && cvEq(n.Children[1].Literal, any(l.Dots)))
	}
	return false
}

func cvDotted(l model.NoteLength) int {
	if l.Dots > 0 {
		return 1
	}
	return 0
}

// cvWritable: a part of a duration that can be written.
func cvWritable(c model.DurationComponent) bool {
	return cvIs[model.Barline](c) || cvIs[model.NoteLength](c) || cvIs[model.NoteLengthMs](c) || cvIs[model.NoteLengthSeconds](c)
}

//cv:contract withDuration
//cv:props P18
func cvWithDuration(node ASTNode, duration model.Duration) {
	cs := duration.Components
	r, err := withDuration(node, duration)
	can := cvForall(0, len(cs), func(i int) bool { return cvWritable(cs[i]) })
	cvEnsures("refused exactly when it cannot be written", (err == nil) == can)
	if err != nil {
		return
	}
	n := len(node.Children)
	cvEnsures("the node", r.Type == node.Type && cvEq(r.Literal, node.Literal) && cvForall(0, n, func(i int) bool { return cvSameNode(r.Children[i], node.Children[i]) }))
	if len(cs) == 0 {
		cvEnsures("no duration", len(r.Children) == n)
	} else {
		cvEnsures("and the duration", len(r.Children) == n+1 && r.Children[n].Type == DurationNode && len(r.Children[n].Children) == len(cs))
		cvEnsures("each of its parts in order", cvForall(0, len(cs), func(i int) bool { return cvComponent(r.Children[n].Children[i], cs[i]) }))
	}
}

//cv:loop withDuration
func cvLoopWithDuration(locDuration *ASTNode, duration model.Duration, k int) bool {
	cs := duration.Components
	return cvForall(0, k, func(i int) bool { return cvWritable(cs[i]) }) && locDuration.Type == DurationNode && len(locDuration.Children) == k && cvForall(0, k, func(i int) bool { return cvComponent(locDuration.Children[i], cs[i]) })
}

// Events without events of their own are written down as themselves.
//
//cv:contract mapIsolatedUpdate
//cv:props P18
func cvMapIsolated(scoreUpdate model.ScoreUpdate) {
	isUpdate := cvIs[model.AttributeUpdate](scoreUpdate)
	pu := cvAs[model.AttributeUpdate](scoreUpdate).PartUpdate
	cvRequires(cvIs[model.AtMarker](scoreUpdate) || cvIs[model.Marker](scoreUpdate) || cvIs[model.Barline](scoreUpdate) || cvIs[model.VariableReference](scoreUpdate) ||
		isUpdate && (cvIs[model.OctaveSet](pu) || cvIs[model.OctaveUp](pu) || cvIs[model.OctaveDown](pu) || cvIs[model.DynamicMarking](pu) || cvIs[model.TranspositionSet](pu)))
	r, err := mapIsolatedUpdate(scoreUpdate)
	cvEnsures("written", err == nil)
	if cvIs[model.AtMarker](scoreUpdate) {
		cvEnsures("the jump", r.Type == AtMarkerNode && cvEq(r.Literal, any(cvAs[model.AtMarker](scoreUpdate).Name)))
	}
	if cvIs[model.Marker](scoreUpdate) {
		cvEnsures("the marker", r.Type == MarkerNode && cvEq(r.Literal, any(cvAs[model.Marker](scoreUpdate).Name)))
	}
	if cvIs[model.Barline](scoreUpdate) {
		cvEnsures("the barline", r.Type == BarlineNode)
	}
	if cvIs[model.VariableReference](scoreUpdate) {
		cvEnsures("the name", r.Type == VariableReferenceNode && cvEq(r.Literal, any(cvAs[model.VariableReference](scoreUpdate).VariableName)))
	}
	if !isUpdate {
		return
	}
	if cvIs[model.OctaveSet](pu) {
		cvEnsures("the octave", r.Type == OctaveSetNode && cvEq(r.Literal, any(cvAs[model.OctaveSet](pu).OctaveNumber)))
	}
	if cvIs[model.OctaveUp](pu) {
		cvEnsures("an octave up", r.Type == OctaveUpNode)
	}
	if cvIs[model.OctaveDown](pu) {
		cvEnsures("an octave down", r.Type == OctaveDownNode)
	}
	if cvIs[model.DynamicMarking](pu) {
		cvEnsures("the marking", r.Type == LispListNode && len(r.Children) == 1 && r.Children[0].Type == LispSymbolNode && cvEq(r.Children[0].Literal, any(cvAs[model.DynamicMarking](pu).Marking)))
	}
	if cvIs[model.TranspositionSet](pu) {
		cvEnsures("the transposition", r.Type == LispListNode && len(r.Children) == 2 && r.Children[0].Type == LispSymbolNode && cvEq(r.Children[0].Literal, any("transpose")) &&
			r.Children[1].Type == LispNumberNode && cvEq(r.Children[1].Literal, any(cvAs[model.TranspositionSet](pu).Semitones)))
	}
}
