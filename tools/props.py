#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
M = "client/model/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        **({"state": state} if state else {}), **({"observe_at": observe} if observe else {})}}
props = [
P("P01", "Pitch of a note",
  "A note written as a letter sounds at the twelve-tone pitch of its octave and letter, raised one semitone per sharp and lowered one per flat, then shifted by the part's transposition; a note written as a MIDI note number sounds at that number shifted by the transposition. Accidentals written on the note (including a natural) replace those of the key signature; a note with none takes the key signature's for its letter. The letters a to g, and only those, are note letters.",
  ["inputs"], "every letter, accidental sequence of any length, octave, key signature and transposition",
  "The tests sample a handful of letter/octave/key combinations; the accidental sequences and key signatures are unbounded.",
  [M+"pitch.go"], [("CalculateMidiNote", M+"pitch.go"), ("NewNoteLetter", M+"pitch.go"), ("NoteLetterIntervals", M+"pitch.go")], None, ["MIDI note numbers"]),
P("P02", "Duration arithmetic and validation",
  "A note length of denominator N lasts 4/N beats, each dot adding half of what the previous one added; beat, millisecond and second lengths last what they say, a barline lasts nothing, and tied lengths add up, at 60000/tempo milliseconds per beat. A duration is accepted exactly when every length in it is positive, and an accepted duration never lasts less than zero.",
  ["inputs"], "every duration, nested and tied to any length, at every tempo",
  "The tests compute a few fixed durations; ties have any number of components of four kinds with any number of dots.",
  [M+"duration.go", M+"barline.go"], [("Ms, Beats, Validate of each length", M+"duration.go"), ("Barline", M+"barline.go")], None, ["durations in milliseconds and beats; accepted/rejected"]),
P("P03", "Placement of notes and rests",
  "A note or rest outside a chord starts, for each current part, at the part's current offset and moves the part forward by exactly its duration at the part's tempo and time scale; the part's last offset becomes the offset it started at. A note with a positive audible duration adds for each current part exactly one note event carrying the part's pitch, volume, track volume and panning, sounding for its duration times the part's quantization (all of it when slurred); rests add none, and events already in the score are never altered. A written duration becomes the default of the following notes and rests; notes without one use it, and a MIDI note outside 0-127 or an invalid duration is rejected.",
  ["inputs", "histories"], "every note or rest applied to every reachable score, with any number of current parts",
  "The tests play a few short melodies on one or two parts; the claim is over every state of every part.",
  [M+"note.go"], [("addNoteOrRest", M+"note.go"), ("effectiveDuration, updateDefaultDuration", M+"note.go")],
  [{"name": "CurrentOffset, LastOffset, Duration", "meaning": "a part's position and sticky duration", "where": M+"part.go"}, {"name": "Events", "meaning": "the score's notes", "where": M+"score.go"}], ["note events of a score", "part offsets"]),
P("P04", "MIDI channels never clash",
  "No two notes of different parts ever sound at the same time on the same MIDI channel, except percussion parts, which all use channel 9; only percussion uses channel 9. An explicitly chosen channel is always used by the notes of the part that chose it (unless it is percussion), and when no channel is free the note is rejected instead of clashing.",
  ["histories", "inputs"], "every history of notes by any number of parts, at any offsets and durations",
  "The tests walk a few hand-made channel assignments; clashes depend on the whole history of overlapping notes of up to 16+ parts.",
  [M+"midi.go", M+"note.go"], [("assignMidiChannel", M+"midi.go"), ("simpleCheck, complexCheck", M+"midi.go"), ("addNoteOrRest", M+"note.go")],
  [{"name": "midiChannelUsage", "meaning": "parts that ever used each channel", "where": M+"midi.go"}], ["channels of note events"]),
P("P05", "Attribute changes do exactly what they say",
  "Setting an attribute of a part (tempo, octave, volume, dynamic marking, track volume, panning, quantization, default duration, key signature, transposition, reference pitch, MIDI channel) gives exactly that attribute the given value, octave up/down moves it by one, and a metric modulation multiplies the tempo; every other attribute of the part, and every other part, is unchanged. A local tempo change is recorded in the part's tempo history at its current position and nothing else in that history changes; choosing the percussion channel for another kind of instrument is rejected and changes nothing.",
  ["inputs"], "every attribute change applied to every part state, locally or globally",
  "The tests set each attribute once on a fresh part; that nothing else changes, in any state, cannot be sampled.",
  [M+"attributes.go"], [("updatePart of each attribute", M+"attributes.go"), ("RecordTempoValue", M+"part.go")], None, ["part attributes", "tempo history"]),
]
claimed = {
 "P01": "",
 "P02": "",
 "P03": "Run-time failures inside addNoteOrRest are not excluded (partial correctness). ",
 "P04": "The invariant is discharged for every kind of update except voice markers and part declarations, where it is only checked on generated scores (bounded). ",
 "P05": "",
}
pending = "contracts for it are still under construction"
na_reasons = {}
exec(open(__file__.replace("props.py", "props2.py")).read()) if __import__("os").path.exists(__file__.replace("props.py", "props2.py")) else None
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
note = ("Every obligation generated from the current source of the functions under contract, for all inputs and all loop iterations, is discharged by an SMT solver; "
        "machine integers are mathematical, floats are reals, append never aliases; the full list of trusted and assumed items is in the evidence. ")
man = {"version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
   "technique": "contract-based deductive verification: contracts in Go on the real functions, obligations from go/ssa discharged by z3/cvc5",
   "level": "proof", "level_note": (note + claimed[p["id"]]).strip()} for p in props if p["id"] in claimed],
 "not_applicable": [{"property": p["id"], "reason": na_reasons.get(p["id"], pending)} for p in props if p["id"] not in claimed],
 "hooks": {"guard": "none", "enable": "no hooks: contracts are laid over /repo with a build overlay", "source_commits": []},
 "notes": "See DESIGN.md. check.sh builds the verifier (gocv) from this directory and runs it on /repo's working tree."}
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
