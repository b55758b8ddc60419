_P = P
def P(*a): props.append(_P(*a))
A = "client/model/attributes.go"
P("P07", "Global attribute changes reach every part at their moment",
  "A global attribute change is recorded at the place the current parts have reached (the beginning when there are none; it is refused when they are at different places), after the changes already recorded there, and disturbs nothing recorded elsewhere. A part receives, whenever it moves on, exactly the global changes recorded after its last position and up to its current one, in order of place and then of recording, except those of a kind it has changed locally since its last event; a part with no change due keeps all its attributes. A local change is made to every current part, takes precedence over the global changes due at the same moment, and never enters the global itinerary.",
  ["inputs", "histories"], "every itinerary of global changes, every set of current parts and every history of local changes",
  "The tests record one or two changes for one part; which changes fall in a window, their order and what overrides them depend on the whole history.",
  [A], [("ApplyGlobalAttributes", A), ("GlobalAttributes.Record, InWindow", A), ("AttributeUpdate.UpdateScore, GlobalAttributeUpdate.UpdateScore", A), ("overridesLocally", "client/model/part.go")],
  [{"name": "itinerary, offsets", "meaning": "global changes by offset, and the sorted offsets", "where": A}, {"name": "localAttributeOverrides", "meaning": "local changes since the part's last event", "where": "client/model/part.go"}],
  ["part attributes", "recorded global changes"])
P("P11", "Sequences, repeats, endings and variable references play their events in order, the right number of times",
  "Applying a list of events, an event sequence or a reference to a variable applies each of its events once, in order, until one fails; the failure is reported, with the place of the failing event for top-level lists, and an unknown variable is an error that applies nothing. A repeat applies its event exactly as many times as written, every current part knowing during each pass which pass it is, and an inner repeat does not disturb the pass of an outer one; an event marked with repetitions is applied exactly once on the passes listed and not at all on the others.",
  ["inputs", "histories"], "every list of events of any kind and length, every number of repetitions, nested to any depth",
  "Tests run a handful of repeats; order, count and the pass each inner event sees must hold for any events and any nesting.",
  ["client/model/repeat.go", "client/model/repetitions.go", "client/model/variable.go", "client/model/score.go", "client/model/event_sequence.go"],
  [("Repeat.UpdateScore, OnRepetitions.UpdateScore, AppliesTo", "client/model/repeat.go, client/model/repetitions.go"), ("EventSequence.UpdateScore", "client/model/event_sequence.go"), ("Score.Update", "client/model/score.go"), ("VariableReference.UpdateScore", "client/model/variable.go")],
  [{"name": "currentRepetition", "meaning": "the pass a part is in", "where": "client/model/part.go"}], ["calls of UpdateScore", "currentRepetition", "errors"])
claimed["P07"] = ""
claimed["P11"] = ""
P("P12", "Markers name one place, and jumping to one moves exactly the current parts there",
  "A marker names the place all the current parts have reached: it is refused exactly when there is no current part or they are at different places, and otherwise changes that one name and nothing else. Jumping to a marker takes every current part to the place the name stands for, its last position becoming the one it left, and leaves every other part and every marker alone; an unknown marker is refused and moves nothing.",
  ["inputs", "histories"], "every set of markers, every set of parts at any positions",
  "The tests define and use a few markers with one or two parts.",
  ["client/model/marker.go"], [("Marker.UpdateScore, AtMarker.UpdateScore", "client/model/marker.go")],
  [{"name": "Markers", "meaning": "places by name", "where": "client/model/score.go"}], ["markers", "part offsets"])
claimed["P12"] = ""
P("P13", "Voices fork a part and the last one to end carries on",
  "Entering a voice takes every current part to its voice of that number: a voice already begun goes on where it stopped, and a new one begins where the group of voices began, with the attributes the part had there, whatever the other voices have done since; every voice belongs to the same instrument. When the group of voices ends, each part carries on as the voice that ends last (the latest begun, when several end together), at that voice's place and with its attributes, and the score's list of parts and its aliases refer to that voice; parts without voices are untouched.",
  ["inputs", "histories"], "every number of voices begun, resumed and left in any order, by any set of current parts with any attributes",
  "The tests use two or three voices and one part.",
  ["client/model/voice.go", "client/model/part.go"], [("GetVoice, NewVoice, AddVoice", "client/model/voice.go"), ("Part.Clone", "client/model/part.go"), ("VoiceMarker.UpdateScore, VoiceGroupEndMarker.UpdateScore", "client/model/voice.go")],
  [{"name": "voices, voiceTemplate", "meaning": "the voices of a part by number and in order, and the part's state where they began", "where": "client/model/part.go"}], ["current parts", "part offsets and attributes"])
P("P15", "Variables keep the values their events had when they were defined",
  "Defining a variable captures, in order, the value every event of the definition has at that moment and makes the name stand for exactly those; an error in any of them is reported and defines nothing, and no other variable changes. Plain events stand for themselves, a reference for the events the variable holds at that moment (an unknown name is an error), and sequences, chords, cram expressions, repeats, repetition endings and inner definitions for the same thing made of the captured values, with the same duration, count, passes and name; a part declaration cannot be captured.",
  ["inputs", "histories"], "every definition, nested to any depth, of events of every kind, in every state of the variables",
  "The tests define a handful of variables; that what is captured is unaffected by later definitions must hold for any nesting.",
  ["client/model/variable.go"], [("VariableDefinition.UpdateScore, VariableValue", "client/model/variable.go"), ("VariableReference.VariableValue", "client/model/variable.go"), ("VariableValue of each container of events", "client/model/chord.go, cram.go, event_sequence.go, repeat.go, repetitions.go")],
  [{"name": "Variables", "meaning": "events by name", "where": "client/model/score.go"}], ["variables", "errors"])
claimed["P13"] = "What becomes of each current part at a voice marker and at the end of a group of voices is only checked on generated scores (bounded); finding and creating voices, and cloning parts, is proved. "
claimed["P15"] = "Evaluating an S-expression inside a definition is not specified. "
P("P09", "The notes of a chord start together and the chord lasts as long as its shortest note",
  "Applying a chord applies each of its events once, in order. Every note of it starts, for each current part, where the part was, and sounds at its own pitch (octave changes between the notes of the chord count) and for its own duration; a note without a duration takes the last one written before it. Then each part moves on by the shortest of the chord's notes and rests, its last position being the chord's, and the last duration written is the default of what follows. An error in any of its events is reported, and in any case the following events are not part of the chord.",
  ["inputs", "histories"], "every chord of notes, rests and octave changes, of any length, applied to any number of parts in any state",
  "The tests play a few chords on one part.",
  ["client/model/chord.go", "client/model/note.go"], [("Chord.UpdateScore, Chord.DurationMs", "client/model/chord.go"), ("addNoteOrRest", "client/model/note.go")],
  [{"name": "chordMode", "meaning": "the score is inside a chord", "where": "client/model/score.go"}], ["note events", "part offsets"])
P("P10", "A cram expression lasts exactly as long as written, its events keeping their proportions",
  "A cram expression applies its events in order, once each, at the speed that makes them together last exactly the duration written on the expression (the part's default if none is), for each current part, the proportions between them being kept; nested expressions, repeats, endings, chords, variables and sequences count with the time they take. Measuring changes nothing of the part. Afterwards, also after an error, which is reported, the parts play at the speed of before, and the default duration is the one written on the expression, or the one before it.",
  ["inputs", "histories"], "every cram expression, with events of every kind, nested to any depth, applied to any number of parts in any state",
  "The tests play a few cram expressions of single notes.",
  ["client/model/cram.go"], [("Cram.UpdateScore, timeScale, innerDurationMs", "client/model/cram.go"), ("DurationMs of every kind of event", "client/model/note.go, chord.go, repeat.go, repetitions.go, variable.go, event_sequence.go")],
  [{"name": "TimeScale", "meaning": "the speed at which a part plays", "where": "client/model/part.go"}], ["note events", "part offsets", "errors"])
claimed["P09"] = "The length and the notes of a chord are proved event by event (each event leaves the parts where they are, its written duration sticks, new events start at a part's offset); their combination over the whole chord is only checked on generated chords (bounded). "
claimed["P10"] = "The speed, the calls made and what is restored are proved; that the events so played end exactly at the end of the expression is only checked on generated expressions (bounded). S-expressions inside are not specified. "
P("P14", "A part declaration means the instruments it names, and refuses what is ambiguous",
  "A declaration of one name means, in this order: the parts that name stands for; the instances of that instrument that no name stands for; a new instance. With an alias it always brings in a new part (for a group of instruments, one per instrument), and the alias then stands for the parts declared, and the alias, a dot and a part's instrument or own alias for each of them; no other alias changes. A group means the parts of all its names, each part once. Refused, without bringing in any part or name, are exactly: an unknown instrument, an alias on an existing name or already taken (for a single name), an instrument used both with and without a name, a name repeated within a group, and a group mixing named parts and instruments. New parts start at the beginning with the defaults and are added after the parts of before, the first part of a score sets its tempo, and all other parts stay as they are.",
  ["inputs", "histories"], "every declaration in every score with any parts, groups and aliases",
  "The tests declare a few parts and groups; which parts a name means depends on the whole history of declarations.",
  ["client/model/part.go"], [("determineParts, PartDeclaration.UpdateScore", "client/model/part.go"), ("UnnamedParts, AliasedStockInstruments, AliasesFor, NamedParts, NewPart", "client/model/part.go")],
  [{"name": "Aliases, Parts, CurrentParts", "meaning": "the parts a name stands for, all parts, and those that events apply to", "where": "client/model/score.go"}], ["current parts", "aliases", "errors"])
claimed["P14"] = "Declarations of a single name, the look-up functions and new parts are proved; groups and what a declaration leaves in the score are only checked on generated histories of declarations (bounded). "
K = "client/model/key.go"
P("P08", "Key signatures sound the scale they name",
  "The key signature of a scale, given by its tonic (a letter with any accidentals) and its mode, makes the seven letters counted from the tonic sound exactly the steps of that mode, however many accidentals the tonic has: each letter has only sharps or only flats, as many as it takes. A place on the circle of fifths gives one accidental per step, in the order of sharps or of flats, starting over after seven. A key signature written out letter by letter has exactly the accidentals written, and anything else is refused.",
  ["inputs"], "every tonic letter with any number of accidentals, every mode, every place on the circle of fifths, every written key signature",
  "The tests list some of the scales with at most one accidental; tonics with more are unbounded.",
  [K, "client/model/lisp.go"], [("shiftKey, partialCircleOfFifths, KeySignatureFromCircleOfFifths, KeySignatureFromScale", K), ("scaleType, keySignatureFromString, keySignatureFromList", "client/model/lisp.go")],
  None, ["accidentals of a key signature by letter"])
claimed["P08"] = "Reading a key signature from text (keySignatureFromString, keySignatureFromList) is only checked on generated forms (bounded); the scales themselves are proved. "
T = "client/transmitter/"
P("P17", "What is sent to the player is what the score says",
  "For a score and any choice of excerpt, the messages sent make a player play exactly the notes of the score within the limits, each on its own track and channel, at its offset counted from where the excerpt begins (less the offset given for its part in an incremental update), with its pitch, duration, audible duration and velocity, and with the patch (except for percussion), track volume and panning it was written with in force on its channel; the messages come in order of time. The tempo sent is, for the start and for every later moment of the excerpt, the one the score has there; an incremental update sends none. Tracks number the parts from one. The score is played unless it is only to be loaded, and shut down ten seconds after its audible end if asked. Limits are minutes and seconds or the names of markers; anything else is refused.",
  ["inputs"], "every score and every combination of limits, indices, part offsets and options",
  "The repository has no test of the transmitter at all.",
  [T+"osc.go", T+"transmitter.go", "client/model/score.go"], [("ScoreToOSCBundle, tempoMessages", T+"osc.go"), ("TransmissionOption", T+"transmitter.go"), ("Tracks, PartOffsets, TempoItinerary, InterpretOffsetReference", "client/model/score.go")],
  None, ["OSC messages"])
claimed["P17"] = "The bundle as a whole, the tempo itinerary and offset references are only checked on generated scores (bounded); the transmission options, track numbers and part offsets are proved. "
L = "client/model/lisp.go"
P("P06", "Attribute expressions take effect exactly as written, and nonsense is refused",
  "An S-expression that sets an attribute - octave, tempo (also in terms of a note length), metric modulation, quantization, volume, track volume, panning, a dynamic marking, the default duration as note length, beats or milliseconds, transposition, reference pitch, MIDI channel - is accepted exactly when its arguments make sense: percentages from 0 to 100, quantization not negative, tempos, frequencies, durations and note lengths positive, transposition and octave whole numbers, the MIDI channel a whole number from 0 to 15, a note length in a string one or more positive lengths, with any dots, tied together. It then makes exactly the change written, to the current parts, or, with an exclamation mark after its name, to all of them; anything else is an error and changes nothing.",
  ["inputs"], "every attribute function, every number, every string, every combination of arguments",
  "The tests set each attribute once or twice, with values that make sense.",
  [L], [("positiveNumber, nonNegativeNumber, percentage, integer, integerInRange", L), ("noteLength, duration", L), ("LispList.Eval and the attribute functions", L)],
  None, ["attribute updates", "errors"])
claimed["P06"] = "The checks on numbers are proved for every number; reading note lengths from strings and evaluating whole expressions is only checked on generated expressions (bounded). Key signatures are P08. "
S, R, F = "client/parser/scanner.go", "client/parser/parser.go", "client/parser/format.go"
P("P16", "Alda code means the events it spells, and malformed code is refused at its place",
  "Code made of well-formed events, in any nesting and with any layout (spaces, line breaks, comments, barlines), is read as exactly those events, in order: notes and rests with their accidentals, durations (each part with its dots, milliseconds or seconds, ties and barlines in between) and slurs, chords, octave changes, sequences, crams, repeats of any number of times (zero too), endings, variables, markers, voices, S-expressions and part declarations; each event carries the line and column where it was written. Code that is not well-formed - an unclosed bracket, a stray character or token - is refused, with an error that names the place; nothing makes the reader crash.",
  ["inputs"], "every text",
  "The tests read a few dozen snippets; nesting and layout are unbounded.",
  [S, R, "client/parser/ast.go"], [("scanner.advance, match, peek, errorAtPosition", S), ("parser.match, consume, singleOrRepeated, octaveSet, variableReference, durationComponent", R), ("duration, ASTNode.Updates", "client/parser/ast.go"), ("Parse", R)],
  [{"name": "current, line, column", "meaning": "the place reached in the text", "where": S}], ["events", "source contexts", "errors"])
P("P18", "Formatting or writing down a score keeps its meaning",
  "Formatting code changes its layout only: whatever can be read can be formatted, for any line length and indentation, the result is well-formed and stands for the same events in the same order, a variable definition stays on its line until its last event, and formatting the result again changes nothing. A list of events - such as an imported score - written down as code and read again stands for the same events and attribute changes; an event that cannot be written is an error.",
  ["inputs"], "every score, line length and indentation",
  "The tests format a few dozen snippets and import a few scores.",
  [F, "client/parser/gen.go"], [("formatter.write, flush, indent, unindent, FormatASTToCode", F), ("withDuration, mapIsolatedUpdate, GenerateASTFromScoreUpdates", "client/parser/gen.go")],
  [{"name": "texts, varDef, indentLevel", "meaning": "the words of the line being written, and whether it belongs to a definition", "where": F}], ["formatted code", "events"])
claimed["P16"] = "Moving over characters and tokens (with their lines and columns), and reading durations, octaves, repeats and references from tokens are proved; the reader as a whole is only checked on generated code (bounded). "
claimed["P18"] = "The layout rules (words, lines, indentation) and writing down durations and events without inner events are proved; whole scores are only checked on generated ones (bounded). "
