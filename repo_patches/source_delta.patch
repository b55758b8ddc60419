From 775d656272d8799496d9a2f1281bf0b9a7942653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 01/16] fix: report an empty cram expression instead of
 crashing

---
 client/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 817c83e..77f9de9 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -900,6 +900,10 @@ func (p *parser) cram() (ASTNode, error) {
 		return ASTNode{}, err
 	}
 
+	if len(allEvents) == 0 {
+		return ASTNode{}, p.errorAtToken(cramOpenToken, "empty cram expression")
+	}
+
 	eventsNode := ASTNode{
 		Type:          EventSequenceNode,
 		SourceContext: allEvents[0].SourceContext,
-- 
2.43.0


From 3ef7ad14f00ad9b3a92c7e7e2633d169b398b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 02/16] fix: evaluating () or (quote) crashed

---
 client/model/lisp.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c8965fc..217cc4d 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1671,6 +1671,11 @@ func (l LispList) Eval() (LispForm, error) {
 		}
 	}
 
+	// The empty list evaluates to nil.
+	if len(l.Elements) == 0 {
+		return LispNil{}, nil
+	}
+
 	operator, err := l.Elements[0].Eval()
 	if err != nil {
 		return nil, err
@@ -1680,7 +1685,7 @@ func (l LispList) Eval() (LispForm, error) {
 	// TODO: consider turning this into an interface?
 	switch operator.(type) {
 	case LispSpecialFormQuote:
-		if len(l.Elements[1:]) > 1 {
+		if len(l.Elements[1:]) != 1 {
 			return nil, fmt.Errorf(
 				"expected 1 argument to quote, got %d", len(l.Elements[1:]),
 			)
-- 
2.43.0


From 4b13fefec40278a731d4c84c6b16d47a2ebe7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 03/16] fix: reject a note length followed by one stray
 character

---
 client/model/lisp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 217cc4d..ec90da4 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -537,7 +537,7 @@ func noteLength(str string) (NoteLength, error) {
 
 	// At this point, we should be at the end of the string. If there's anything
 	// left over, consider the string invalid.
-	if i < len(chars)-1 {
+	if i < len(chars) {
 		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
 	}
 
-- 
2.43.0


From 4d3263413f23809197b7f753dd0e857879b2d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 04/16] fix: accept positive numbers smaller than 1

---
 client/model/lisp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index ec90da4..374a25e 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -418,7 +418,7 @@ func defattribute(names []string, signatures ...attributeFunctionSignature) {
 func positiveNumber(form LispForm) (float64, error) {
 	number := form.(LispNumber)
 
-	if number.Value < 1 {
+	if number.Value <= 0 {
 		return 0, &AldaSourceError{
 			Context: number.SourceContext,
 			Err:     fmt.Errorf("expected positive number, got %f", number.Value),
-- 
2.43.0


From 7bdb105e9789d4ad9dbeb72b82533a8ef4e63773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 05/16] fix: apply an event marked with repetitions once, not
 once per current part

---
 client/model/repetitions.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/client/model/repetitions.go b/client/model/repetitions.go
index e2d98f6..626f622 100644
--- a/client/model/repetitions.go
+++ b/client/model/repetitions.go
@@ -63,9 +63,8 @@ func (or OnRepetitions) AppliesTo(repetition int32) bool {
 func (or OnRepetitions) UpdateScore(score *Score) error {
 	for _, part := range score.CurrentParts {
 		if or.AppliesTo(part.currentRepetition) {
-			if err := score.Update(or.Event); err != nil {
-				return err
-			}
+			// The event is applied to all of the current parts at once.
+			return score.Update(or.Event)
 		}
 	}
 
-- 
2.43.0


From 8ede5f015a39ea24ee75472e4228b7a8a8a506a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 06/16] fix: a voice keeps the local attribute override of its
 part

---
 client/model/part.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/model/part.go b/client/model/part.go
index a925f04..2283e00 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -147,6 +147,7 @@ func (part *Part) Clone() *Part {
 	clone.voiceTemplate = part.voiceTemplate
 	clone.voices = part.voices
 	clone.score = part.score
+	clone.localAttributeOverride = part.localAttributeOverride
 
 	return clone
 }
-- 
2.43.0


From 025012fada5889f4f3b8f9031a744de3420741af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 07/16] fix: a nested cram expression's duration is the default
 of what follows it

---
 client/model/cram.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/model/cram.go b/client/model/cram.go
index 13809c9..9ba664e 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -136,7 +136,9 @@ func (cram Cram) UpdateScore(score *Score) error {
 // duration of the Cram expression, i.e. either the specified duration of the
 // Cram expression or the part's default duration.
 func (cram Cram) DurationMs(part *Part) float64 {
-	return effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+	durationMs := effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+	updateDefaultDuration(part, cram.Duration)
+	return durationMs
 }
 
 // VariableValue implements ScoreUpdate.VariableValue by returning a version of
-- 
2.43.0


From a627c816624fc91e0c8c1400ba50e64bd43ad7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 08/16] fix: report the offset a part has reached after a voice
 group

---
 client/model/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index 0473d9d..24c6118 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -162,7 +162,7 @@ func (score *Score) PartOffsets() map[*Part]float64 {
 	offsets := map[*Part]float64{}
 
 	for _, part := range score.Parts {
-		offsets[part.origin] = part.origin.CurrentOffset
+		offsets[part.origin] = part.CurrentOffset
 	}
 
 	return offsets
-- 
2.43.0


From d5dbf807a087362124b636f9ada6fe5c1de378cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 09/16] fix: a repeat inside a repeat does not change the
 repetition of the outer one

---
 client/model/repeat.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/client/model/repeat.go b/client/model/repeat.go
index d30d53f..c7e091e 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -31,6 +31,13 @@ func (repeat Repeat) JSON() *json.Container {
 // UpdateScore implements ScoreUpdate.UpdateScore by repeatedly updating the
 // score with an event a specified number of times.
 func (repeat Repeat) UpdateScore(score *Score) error {
+	// This might be inside of another repeat, which continues with its own
+	// repetition number afterwards.
+	previousRepetitions := map[*Part]int32{}
+	for _, part := range score.CurrentParts {
+		previousRepetitions[part] = part.currentRepetition
+	}
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		for _, part := range score.CurrentParts {
 			part.currentRepetition = repetition
@@ -41,6 +48,12 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 		}
 	}
 
+	for _, part := range score.CurrentParts {
+		if previousRepetition, hit := previousRepetitions[part]; hit {
+			part.currentRepetition = previousRepetition
+		}
+	}
+
 	return nil
 }
 
@@ -48,12 +61,15 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 // of the event being repeated the specified number of times.
 func (repeat Repeat) DurationMs(part *Part) float64 {
 	durationMs := 0.0
+	previousRepetition := part.currentRepetition
 
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		part.currentRepetition = repetition
 		durationMs += repeat.Event.DurationMs(part)
 	}
 
+	part.currentRepetition = previousRepetition
+
 	return durationMs
 }
 
-- 
2.43.0


From 8a92f488eda46575990ea78d6b89203977bc1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 10/16] fix: leave chord mode when an event of a chord fails

---
 client/model/chord.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/model/chord.go b/client/model/chord.go
index af8363f..1ea7dfc 100644
--- a/client/model/chord.go
+++ b/client/model/chord.go
@@ -72,6 +72,7 @@ func (chord Chord) UpdateScore(score *Score) error {
 		// Now, we update the score with the event, in "chord mode," which means
 		// that notes all start at the same offset.
 		if err := event.UpdateScore(score); err != nil {
+			score.chordMode = false
 			return err
 		}
 	}
-- 
2.43.0


From 9722ec5db5437521d7e3ef7048e0d08ded9ee9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 11/16] fix: restore the time scale when an event of a cram
 expression fails

---
 client/model/cram.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/model/cram.go b/client/model/cram.go
index 9ba664e..3219e0f 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -112,6 +112,9 @@ func (cram Cram) UpdateScore(score *Score) error {
 
 	for _, event := range cram.Events {
 		if err := event.UpdateScore(score); err != nil {
+			for _, part := range score.CurrentParts {
+				part.TimeScale = previousTimeScales[part]
+			}
 			return err
 		}
 	}
-- 
2.43.0


From 736c8cbdb57fec2705ac6f6af004045bc5a9208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 12/16] fix: remember every local attribute change that
 overrides a global one, not just the last

---
 client/model/attributes.go | 22 ++++++++++++++++++----
 client/model/part.go       |  6 ++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc53be3..0985c35 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -39,7 +39,9 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 		// This is so that we can track the case where a local attribute change is
 		// applied at the exact same time as a global attribute change, and we want
 		// the local attribute change to take precedence.
-		part.localAttributeOverride = au.PartUpdate
+		part.localAttributeOverrides = append(
+			part.localAttributeOverrides, au.PartUpdate,
+		)
 	}
 
 	return nil
@@ -132,6 +134,18 @@ func (ga GlobalAttributes) InWindow(
 	return updates
 }
 
+// overridesLocally returns true if the attribute that the update would change
+// was changed locally since global attributes were last applied to the part.
+func (part *Part) overridesLocally(update PartUpdate) bool {
+	for _, localUpdate := range part.localAttributeOverrides {
+		if reflect.TypeOf(localUpdate) == reflect.TypeOf(update) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // ApplyGlobalAttributes uses a score's itinerary of global attribute updates to
 // update the attributes of all current parts.
 //
@@ -142,11 +156,11 @@ func (score *Score) ApplyGlobalAttributes() error {
 		for _, update := range score.GlobalAttributes.InWindow(
 			part.LastOffset, part.CurrentOffset,
 		) {
-			if reflect.TypeOf(part.localAttributeOverride) == reflect.TypeOf(update) {
+			if part.overridesLocally(update) {
 				log.Debug().
 					Str("part", part.Name).
 					Interface("globalUpdate", update).
-					Interface("localUpdate", part.localAttributeOverride).
+					Interface("localUpdates", part.localAttributeOverrides).
 					Msg("Skipping global attribute update. " +
 						"Overridden by local attribute update.")
 			} else {
@@ -161,7 +175,7 @@ func (score *Score) ApplyGlobalAttributes() error {
 			}
 		}
 
-		part.localAttributeOverride = nil
+		part.localAttributeOverrides = nil
 	}
 
 	return nil
diff --git a/client/model/part.go b/client/model/part.go
index 2283e00..fade2ef 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -71,7 +71,7 @@ type Part struct {
 	// Used in order to track the case where a part overrides a global attribute
 	// change with a local attribute change just for that part, at the exact same
 	// offset.
-	localAttributeOverride PartUpdate
+	localAttributeOverrides []PartUpdate
 	// Used for conditionally playing or not playing an event based on how many
 	// times through a repeated sequence the part has played so far.
 	//
@@ -147,7 +147,9 @@ func (part *Part) Clone() *Part {
 	clone.voiceTemplate = part.voiceTemplate
 	clone.voices = part.voices
 	clone.score = part.score
-	clone.localAttributeOverride = part.localAttributeOverride
+	clone.localAttributeOverrides = append(
+		[]PartUpdate{}, part.localAttributeOverrides...,
+	)
 
 	return clone
 }
-- 
2.43.0


From 51a7643a3d806b8dd76771db86d0af3dc05a0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 13/16] fix: refuse note lengths of zero in strings

---
 client/model/lisp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 374a25e..d5ef06a 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -541,6 +541,11 @@ func noteLength(str string) (NoteLength, error) {
 		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
 	}
 
+	// As with note lengths expressed as numbers, only positive ones make sense.
+	if denominator <= 0 {
+		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
+	}
+
 	return NoteLength{Denominator: denominator, Dots: int32(dots)}, nil
 }
 
-- 
2.43.0


From 761b4bf3dacd20f1242aacaff596836f7042acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 14/16] fix: honour a repeat of zero times after a note, rest
 or chord

---
 client/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 77f9de9..af664c7 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -701,12 +701,13 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 	allNodes := []ASTNode{}
 
 	type maybeRepeat struct {
+		present       bool
 		sourceContext model.AldaSourceContext
 		times         int32
 	}
 
 	// We're essentially using this as a nil value. Below, we check whether
-	// `repeat.times` > 0, which will be true if we don't reassign `repeat`.
+	// `repeat.present`, which will be false if we don't reassign `repeat`.
 	repeat := maybeRepeat{}
 
 	for {
@@ -718,6 +719,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		if token, matched := p.match(Repeat); matched {
 			allNodes = append(allNodes, noteOrRest)
 			repeat = maybeRepeat{
+				present:       true,
 				sourceContext: p.sourceContext(token),
 				times:         token.literal.(int32),
 			}
@@ -794,7 +796,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		}
 	}
 
-	if repeat.times > 0 {
+	if repeat.present {
 		if len(allNodes) != 1 {
 			panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
 		}
-- 
2.43.0


From 967792211d5be40d342665d7d8dd14c68cb4e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 15/16] fix: report an unexpected character in an alias

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index b4434e0..9f6e8d3 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -571,7 +571,7 @@ func (s *scanner) parseAlias() error {
 	}
 
 	if c := s.peek(); c != '"' {
-		s.unexpectedCharError(c, "in alias", s.line, s.column)
+		return s.unexpectedCharError(c, "in alias", s.line, s.column)
 	}
 
 	// Consume the closing ".
-- 
2.43.0


From 643ed0f07d32c48185de819b038ee77ccf3b8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 16/16] fix: keep a slur with the barline it follows when
 formatting

---
 client/parser/format.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/client/parser/format.go b/client/parser/format.go
index 6ea8ad5..2af87e3 100644
--- a/client/parser/format.go
+++ b/client/parser/format.go
@@ -129,7 +129,7 @@ func (f *formatter) formatWithDuration(
 	text.WriteString(pre)
 	shouldTie := false
 
-	for i, child := range duration.Children {
+	for _, child := range duration.Children {
 		switch child.Type {
 
 		default:
@@ -138,12 +138,6 @@ func (f *formatter) formatWithDuration(
 			)
 
 		case BarlineNode:
-			if i == len(duration.Children)-1 {
-				// The final duration is a barline
-				// We write out any post text before the barline for clarity
-				text.WriteString(post)
-			}
-
 			// Barlines in a duration split formatting into separate texts
 			if text.Len() > 0 {
 				f.write(text.String())
@@ -211,8 +205,11 @@ func (f *formatter) formatWithDuration(
 		}
 	}
 
+	// Any post text goes last, even when the final duration is a barline: the
+	// barline is part of what the post text (and whatever follows) belongs to.
+	text.WriteString(post)
+
 	if text.Len() > 0 {
-		text.WriteString(post)
 		f.write(text.String())
 	}
 
-- 
2.43.0

