package parser

import "alda.io/client/model"

// Moving over the characters: nothing is skipped, and lines and columns are
// counted.

//cv:contract (*scanner).peek
//cv:props P16
func cvPeek(s *scanner) {
	cvRequires(s != nil && 0 <= s.current)
	r := s.peek()
	if s.current < len(s.input) {
		cvEnsures("the character that comes next", r == s.input[s.current])
	} else {
		cvEnsures("nothing at the end", r == 0)
	}
}

//cv:contract (*scanner).peekNext
//cv:props P16
func cvPeekNext(s *scanner) {
	cvRequires(s != nil && 0 <= s.current)
	r := s.peekNext()
	if s.current+1 < len(s.input) {
		cvEnsures("the character after the next", r == s.input[s.current+1])
	} else {
		cvEnsures("nothing at the end", r == 0)
	}
}

// cvMoved: one character on.
func cvMoved(s, old *scanner) bool {
	if s.current != old.current+1 {
		return false
	}
	if s.input[old.current] == '\n' {
		return s.line == old.line+1 && s.column == 1
	}
	return s.line == old.line && s.column == old.column+1
}

//cv:contract (*scanner).advance
//cv:props P16
func cvScanAdvance(s *scanner) {
	cvRequires(s != nil && 0 <= s.current && s.current < len(s.input))
	cvModifiesAt(s, "current", "line", "column")
	old := cvSnap(s)
	r := s.advance()
	cvEnsures("the character that comes next", r == s.input[old.current])
	cvEnsures("one on, on the next line after a line break", cvMoved(s, old))
}

//cv:contract (*scanner).match
//cv:props P16
func cvScanMatch(s *scanner, expected rune) {
	cvRequires(s != nil && 0 <= s.current)
	cvModifiesAt(s, "current", "line", "column")
	old := cvSnap(s)
	ok := s.match(expected)
	cvEnsures("exactly when it is the expected one", ok == (old.current < len(s.input) && s.input[old.current] == expected))
	if ok {
		cvEnsures("moves on", cvMoved(s, old))
	} else {
		cvEnsures("stays", s.current == old.current && s.line == old.line && s.column == old.column)
	}
}

//cv:contract (*scanner).errorAtPosition
//cv:props P16
func cvErrorAtPosition(s *scanner, line, column int, msg string) {
	cvRequires(s != nil)
	e := s.errorAtPosition(line, column, msg)
	cvEnsures("an error at the place", e != nil && e.Err != nil && e.Context == model.AldaSourceContext{Filename: s.filename, Line: line, Column: column})
}

// Moving over the tokens.

// cvTokens: the tokens end with EOF, and the parser stands on one of them.
func cvTokens(p *parser) bool {
	n := len(p.input)
	return n > 0 && p.input[n-1].tokenType == EOF && 0 <= p.current && p.current < n &&
		cvForall(0, n-1, func(i int) bool { return p.input[i].tokenType != EOF })
}

//cv:contract (*parser).match
//cv:props P16
func cvParseMatch(p *parser, types ...TokenType) {
	cvRequires(p != nil && cvTokens(p))
	cvRequires(cvForall(0, len(types), func(i int) bool { return types[i] != EOF }))
	cvModifiesAt(p, "current")
	old := cvSnap(p)
	t, ok := p.match(types...)
	next := old.input[old.current]
	cvEnsures("exactly when the next token is of one of the kinds", ok == cvExists(0, len(types), func(i int) bool { return types[i] == next.tokenType }))
	if ok {
		cvEnsures("the token", t == next)
		cvEnsures("one on", p.current == old.current+1)
	} else {
		cvEnsures("stays", p.current == old.current)
	}
	cvEnsures("the tokens stay", cvTokens(p) && cvSameSlice(p.input, old.input))
}

//cv:contract (*parser).consume
//cv:props P16
func cvParseConsume(p *parser, tokenType TokenType, context string) {
	cvRequires(p != nil && cvTokens(p) && tokenType != EOF)
	cvModifiesAt(p, "current")
	old := cvSnap(p)
	t, err := p.consume(tokenType, context)
	next := old.input[old.current]
	cvEnsures("accepted exactly when the next token is of the kind", (err == nil) == (next.tokenType == tokenType))
	if err == nil {
		cvEnsures("the token", t == next)
		cvEnsures("one on", p.current == old.current+1)
	} else {
		cvEnsures("stays", p.current == old.current)
		e := cvAs[*model.AldaSourceError](err)
		cvEnsures("an error at the token", e.Context == next.sourceContext)
	}
	cvEnsures("the tokens stay", cvTokens(p) && cvSameSlice(p.input, old.input))
}

//cv:loop (*parser).match
func cvLoopMatch(p *parser, types []TokenType, k int) bool {
	return p.current == cvOld(p).current && cvForall(0, k, func(i int) bool { return types[i] != p.input[p.current].tokenType })
}

// cvSameNode: the very same node.
func cvSameNode(a, b ASTNode) bool {
	return a.Type == b.Type && a.SourceContext == b.SourceContext && a.Literal == b.Literal && cvSameSlice(a.Children, b.Children)
}

//cv:contract (*parser).singleOrRepeated
//cv:props P16
func cvSingleOrRepeated(p *parser, node ASTNode) {
	cvRequires(p != nil && cvTokens(p))
	cvModifiesAt(p, "current")
	old := cvSnap(p)
	r := p.singleOrRepeated(node)
	next := old.input[old.current]
	if next.tokenType == Repeat {
		cvEnsures("a repeat of the event, as often as written", r.Type == RepeatNode && len(r.Children) == 2 && cvSameNode(r.Children[0], node) &&
			r.Children[1].Type == TimesNode && r.Children[1].Literal == next.literal)
		cvEnsures("one on", p.current == old.current+1)
	} else {
		cvEnsures("the event itself", cvSameNode(r, node))
		cvEnsures("stays", p.current == old.current)
	}
	cvEnsures("the tokens stay", cvTokens(p) && cvSameSlice(p.input, old.input))
}

//cv:contract (*parser).octaveSet
//cv:props P16
func cvParseOctaveSet(p *parser) {
	cvRequires(p != nil && cvTokens(p) && p.current > 0)
	t := p.input[p.current-1]
	r, err := p.octaveSet()
	cvEnsures("the octave written", err == nil && r.Type == OctaveSetNode && r.Literal == t.literal && (p.suppressSourceContext || r.SourceContext == t.sourceContext))
}

//cv:contract (*parser).variableReference
//cv:props P16
func cvParseReference(p *parser) {
	cvRequires(p != nil && cvTokens(p) && p.current > 0)
	cvModifiesAt(p, "current")
	old := cvSnap(p)
	t, next := p.input[p.current-1], p.input[p.current]
	r, err := p.variableReference()
	cvEnsures("never refused", err == nil)
	if next.tokenType != Repeat {
		cvEnsures("the name written", r.Type == VariableReferenceNode && cvEq(r.Literal, any(t.text)) && (p.suppressSourceContext || r.SourceContext == t.sourceContext))
		cvEnsures("stays", p.current == old.current)
	} else {
		cvEnsures("a repeat of it", r.Type == RepeatNode && len(r.Children) == 2 && r.Children[0].Type == VariableReferenceNode && cvEq(r.Children[0].Literal, any(t.text)) &&
			r.Children[1].Type == TimesNode && r.Children[1].Literal == next.literal)
		cvEnsures("one on", p.current == old.current+1)
	}
	cvEnsures("the tokens stay", cvTokens(p) && cvSameSlice(p.input, old.input))
}

// cvDurationNode: the node stands for the part of a duration, at its place.
func cvDurationNode(n ASTNode, c model.DurationComponent) bool {
	if n.Type == BarlineNode {
		return cvIs[model.Barline](c) && cvAs[model.Barline](c).SourceContext == n.SourceContext
	}
	if n.Type == NoteLengthMsNode {
		return cvIs[model.NoteLengthMs](c) && cvAs[model.NoteLengthMs](c).Quantity == cvAs[float64](n.Literal)
	}
	if n.Type == NoteLengthSecondsNode {
		return cvIs[model.NoteLengthSeconds](c) && cvAs[model.NoteLengthSeconds](c).Quantity == cvAs[float64](n.Literal)
	}
	if n.Type == NoteLengthNode && cvIs[model.NoteLength](c) {
		l := cvAs[model.NoteLength](c)
		return l.Denominator == cvAs[float64](n.Children[0].Literal) &&
			(len(n.Children) > 1 && l.Dots == cvAs[int32](n.Children[1].Literal) || len(n.Children) == 1 && l.Dots == 0)
	}
	return false
}

// cvReadable: the node stands for a part of a duration.
func cvReadable(n ASTNode) bool {
	if n.Type == NoteLengthNode {
		return len(n.Children) > 0 && n.Children[0].Type == DenominatorNode && cvIs[float64](n.Children[0].Literal) &&
			(len(n.Children) == 1 || n.Children[1].Type == DotsNode && cvIs[int32](n.Children[1].Literal))
	}
	return n.Type == BarlineNode || (n.Type == NoteLengthMsNode || n.Type == NoteLengthSecondsNode) && cvIs[float64](n.Literal)
}

//cv:contract duration
//cv:props P16
func cvReadDuration(node ASTNode) {
	cs := node.Children
	cvRequires(cvForall(0, len(cs), func(i int) bool { return cvReadable(cs[i]) }))
	d, err := duration(node)
	cvEnsures("read", err == nil)
	cvEnsures("each part of it in order", len(d.Components) == len(cs) && cvForall(0, len(cs), func(i int) bool { return cvDurationNode(cs[i], d.Components[i]) }))
}

//cv:loop duration
func cvLoopReadDuration(node ASTNode, locDuration *model.Duration, k int) bool {
	cs := node.Children
	return len(locDuration.Components) == k && cvForall(0, k, func(i int) bool { return cvDurationNode(cs[i], locDuration.Components[i]) })
}

//cv:contract (*parser).durationComponent
//cv:props P16
func cvDurationComponent(p *parser) {
	cvRequires(p != nil && cvTokens(p) && p.current > 0)
	t := p.input[p.current-1]
	cvRequires(t.tokenType == NoteLength && cvIs[noteLength](t.literal) || t.tokenType == NoteLengthMs || t.tokenType == NoteLengthSeconds)
	r := p.durationComponent()
	cvEnsures("at its place", p.suppressSourceContext || r.SourceContext == t.sourceContext)
	if t.tokenType == NoteLength {
		l := cvAs[noteLength](t.literal)
		cvEnsures("the length written", r.Type == NoteLengthNode && len(r.Children) > 0 && r.Children[0].Type == DenominatorNode && cvEq(r.Children[0].Literal, any(l.denominator)))
		if l.dots > 0 {
			cvEnsures("with its dots", len(r.Children) == 2 && r.Children[1].Type == DotsNode && cvEq(r.Children[1].Literal, any(l.dots)))
		} else {
			cvEnsures("without dots", len(r.Children) == 1)
		}
	} else if t.tokenType == NoteLengthMs {
		cvEnsures("the milliseconds written", r.Type == NoteLengthMsNode && r.Literal == t.literal)
	} else {
		cvEnsures("the seconds written", r.Type == NoteLengthSecondsNode && r.Literal == t.literal)
	}
}

// cvOnLine: only characters of one line were passed.
func cvOnLine(s, old *scanner) bool {
	return s.line == old.line && s.column-old.column == s.current-old.current && old.current <= s.current && s.current <= len(s.input) &&
		cvForall(old.current, s.current, func(i int) bool { return s.input[i] != '\n' })
}

//cv:contract (*scanner).skipComment
//cv:props P16
func cvSkipComment(s *scanner) {
	cvRequires(s != nil && 0 <= s.current && s.current <= len(s.input))
	cvModifiesAt(s, "current", "line", "column")
	old := cvSnap(s)
	s.skipComment()
	cvEnsures("up to the end of the line, and no further", cvOnLine(s, old) && (s.current == len(s.input) || s.input[s.current] == '\n'))
}

//cv:loop (*scanner).skipComment
func cvLoopSkipComment(s *scanner) bool {
	return cvOnLine(s, cvOld(s))
}

// cvNext: c is the character that comes next.
func cvNext(s *scanner, c rune) bool {
	return s.current < len(s.input) && c == s.input[s.current] || s.current == len(s.input) && c == 0
}

//cv:contract (*scanner).consumeDigits
//cv:props P16
func cvConsumeDigits(s *scanner) {
	cvRequires(s != nil && 0 <= s.current && s.current <= len(s.input))
	cvModifiesAt(s, "current", "line", "column")
	old := cvSnap(s)
	s.consumeDigits()
	cvEnsures("all the digits, and nothing else", cvOnLine(s, old) && cvForall(old.current, s.current, func(i int) bool { return '0' <= s.input[i] && s.input[i] <= '9' }) &&
		(s.current == len(s.input) || s.input[s.current] < '0' || s.input[s.current] > '9'))
}

//cv:loop (*scanner).consumeDigits
func cvLoopConsumeDigits(s *scanner) bool {
	return cvOnLine(s, cvOld(s)) && cvForall(cvOld(s).current, s.current, func(i int) bool { return '0' <= s.input[i] && s.input[i] <= '9' })
}

//cv:loop (*scanner).consumeDigits
func cvLoopNextDigits(s *scanner, accNext rune) bool {
	return cvNext(s, accNext)
}

//cv:contract (*scanner).consumeSpaces
//cv:props P16
func cvConsumeSpaces(s *scanner) {
	cvRequires(s != nil && 0 <= s.current && s.current <= len(s.input))
	cvModifiesAt(s, "current", "line", "column")
	old := cvSnap(s)
	s.consumeSpaces()
	cvEnsures("all the spaces, and nothing else", cvOnLine(s, old) && cvForall(old.current, s.current, func(i int) bool { return s.input[i] == ' ' }) &&
		(s.current == len(s.input) || s.input[s.current] != ' '))
}

//cv:loop (*scanner).consumeSpaces
func cvLoopConsumeSpaces(s *scanner) bool {
	return cvOnLine(s, cvOld(s)) && cvForall(cvOld(s).current, s.current, func(i int) bool { return s.input[i] == ' ' })
}

//cv:loop (*scanner).consumeSpaces
func cvLoopNextSpaces(s *scanner, accNext rune) bool {
	return cvNext(s, accNext)
}
