#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})


GP = "gsapi/gspattern.py"
prop("C01", "Cutting a pattern into equal lengths conserves the music",
     "Cutting a pattern (notes from time 0 on, its duration covering them) into consecutive slices of a given length yields slices in time order, each "
     "knowing the time it was cut from and lasting exactly the requested length, such that at every instant the notes (pitch, velocity, tag) sounding in the original are exactly "
     "those sounding in the slice for that instant, no piece crosses a slice border, has zero length or is duplicated, and a note that fits in one slice stays one note. "
     "Slices with no notes are left out by default and reported as empty place-holders on request; the name, tempo, metre and key are inherited, also by unnamed patterns. "
     "Unless the caller asks for the original events to be reused, the original pattern is left untouched, and slicing a named viewpoint slices that viewpoint.",
     ["inputs", "configurations"],
     "all patterns (any number of notes, any start/duration >= 0, any order, overlapping or not), all slice lengths, both copy modes, with and without empty slices, named or not",
     "The tests slice a couple of corpus files at length 4 and look only at whether durations are positive; nothing compares the slices with the original, and notes spanning several slices are rare in drum files.",
     [GP], [("recursive event cutting", GP + ":Pattern.splitInEqualLengthPatterns"), ("metadata copy", GP + ":Pattern.copyWithoutEvents")],
     [("events", "list of notes of a pattern", GP + ":Pattern"), ("startTime/duration", "slice position and length", GP + ":Pattern")],
     ["the returned list of patterns"])

prop("C02", "A time slice holds exactly the notes that start in its window",
     "Extracting the slice [start, start+length) of a pattern returns, in the original order, exactly the notes whose start lies in that window, moved so that the window begins at 0 and otherwise identical, in a pattern that records the window's start and length. "
     "With end trimming, a note running past the window's end is shortened to end exactly there and no other note changes; without trimming every note keeps its duration. "
     "The source pattern and its notes are never modified.",
     ["inputs", "configurations"], "all patterns, all windows, with and without trimming",
     "One test slices one file with the window (0, 4), where offset arithmetic is invisible and boundary cases do not occur.",
     [GP], [("window test and cropping", GP + ":Pattern.patternFromTimeSlice")], [("events", "notes", GP + ":Pattern")], ["returned pattern"])

prop("C03", "Filling silences leaves no gap and touches no note",
     "After filling a pattern with silences every note is still there unchanged, the silences have positive length, velocity 0 and the requested tag and pitch, never overlap a note or another silence, and together with the notes cover every instant from 0 to the pattern's duration. "
     "When a maximum silence length is given no silence exceeds it; when filling per tag, each voice (the notes sharing one tag) is filled that way on its own, and no note is duplicated. "
     "The copying variant returns the same result and leaves its source unmodified.",
     ["inputs", "configurations"], "all patterns with notes at times >= 0 in any order and overlap, all maximum lengths, both modes, all tag sets including tags that contain one another",
     "The silence test only checks positive durations on one imported file; it never looks for gaps, for lost notes or for tags that are substrings of other tags.",
     [GP], [("gap scan", GP + ":Pattern.fillWithSilences"), ("per tag voices", GP + ":Pattern.getPatternWithTags")], [("events", "notes", GP + ":Pattern")], ["pattern.events"])

prop("C04", "Overlap removal leaves at most one note per voice at any time",
     "After removing overlaps, no two notes of the same voice (same tag, or same pitch when asked to use pitches) sound at the same instant, and the notes are in time order. "
     "Each start time a voice had is still the start of exactly one of its notes, every remaining note is one of the original notes with at most its end moved earlier, and it is moved only to the start of the voice's next note. "
     "Notes of other voices do not influence the result.",
     ["inputs"], "all patterns with positive durations: any order, any number of simultaneous or nested notes, both discrimination modes",
     "Corpus files contain few overlaps of one voice, hardly ever three notes of which two start together, and no test looks at the result beyond its validity.",
     [GP], [("pairwise scan", GP + ":Pattern.removeOverlapped"), ("sorting", GP + ":Pattern.reorderEvents")], [("events", "notes", GP + ":Pattern")], ["pattern.events"])

prop("C05", "Grid alignment gives step-sequenced patterns",
     "After aligning a pattern on a grid, every note starts on a multiple of the step and before the pattern's end, lasts exactly one step, and no tag has two notes on the same step. "
     "A note is on the step nearest to where it was (halves go up), a voice has a note on a step exactly when one of its notes rounds to it, and repeatable notes (silences by default) contribute one event for each whole step they last, and at least one. "
     "Cutting a note into steps likewise yields contiguous copies of one step each, at least one.",
     ["inputs", "configurations"], "all patterns and step sizes, all lists of repeatable tags",
     "The tests align one pattern on a grid of 1 and check only the last start time; rounding boundaries, collisions and long silences do not occur.",
     [GP], [("rounding and collision removal", GP + ":Pattern.alignOnGrid"), ("step cutting", GP + ":Event.cutInSteps"), ("overlap removal", GP + ":Pattern.removeOverlapped")],
     [("events", "notes", GP + ":Pattern")], ["pattern.events"])

prop("C06", "Quantising moves every time to the nearest grid point",
     "Quantising with a given step puts each selected start time on the nearest multiple of the step (ties to the earlier one) and each selected duration on the nearest positive multiple (ties to the longer one), so a note never disappears or gets zero length. "
     "Quantities that were not selected, pitches, velocities, tags, the number and the order of notes stay as they were. "
     "Quantising twice is the same as quantising once.",
     ["inputs", "configurations"], "all patterns, all steps, all combinations of what to quantise",
     "No test calls quantisation at all.",
     [GP], [("half-grid rounding", GP + ":Pattern.quantize")], [("startTime/duration", "note times", GP + ":Event")], ["pattern.events"])

prop("C07", "Gap closing stretches notes exactly up to the next onset",
     "Applying legato stretches notes, and only by moving ends later, so that each voice (notes sharing a tag) sounds without interruption from its first onset to the end of the pattern, without creating any overlap between a note it stretched and its voice's next onset. "
     "Filling with the previous event makes every note last exactly until the pattern's next later onset (whatever the voice), or until the end of the pattern for the last ones. "
     "Onsets, pitches, velocities, tags and the number of notes never change, in whatever order the notes were stored.",
     ["inputs"], "all patterns whose notes lie within the pattern, in any order, with any tags",
     "test_legato has never been able to pass, and nothing checks filling with previous events; voices whose tag is part of another tag and unsorted patterns are not sampled.",
     [GP], [("per voice stretching", GP + ":Pattern.applyLegato"), ("onset list", GP + ":Pattern.fillWithPreviousEvent")], [("duration", "note lengths", GP + ":Event")], ["pattern.events"])

prop("C08", "A pattern's duration always covers its notes",
     "The last note-off of a pattern is the latest end of any of its notes (none when it is empty); adding a note or fitting the duration to the notes makes the duration at least that, and never changes it otherwise unless shrinking is asked for, in which case it becomes exactly that. "
     "Rounding the duration to bars gives the smallest whole number of bars (of as many beats as the time signature's numerator) that is not shorter. "
     "None of these changes, loses or duplicates a note.",
     ["inputs", "histories"], "all sequences of notes added in any order with any overlap, all durations and time signatures",
     "Tests add no events by hand; imported files have their longest note last, so a wrong maximum is never visible.",
     [GP], [("last note off", GP + ":Pattern.lastNoteOff"), ("fit", GP + ":Pattern.durationToLastEvent"), ("add", GP + ":Pattern.addEvent"), ("bars", GP + ":Pattern.durationToBar")],
     [("duration", "pattern length", GP + ":Pattern")], ["pattern.duration", "pattern.events"])

prop("C09", "Removing events removes all of the requested and nothing else",
     "Removing an event removes every note equal to it (same times, pitch, velocity and tag) and no other; removing by tags removes every note having one of the tags, and no other, whichever notes happen to be adjacent, equal or last. "
     "The remaining notes keep their order and content, and removing something absent changes nothing.",
     ["inputs", "histories"], "all patterns, including repeated equal notes and adjacent notes to remove, all tag lists",
     "No test removes anything directly; deletion mistakes only show when two of the removed notes are adjacent or equal.",
     [GP], [("removal", GP + ":Pattern.removeEvent"), ("removal by tag", GP + ":Pattern.removeByTags"), ("equality", GP + ":Event.__eq__")], [("events", "notes", GP + ":Pattern")], ["pattern.events"])

prop("C10", "Selecting by tag or pitch partitions a pattern and keeps copies apart",
     "Selecting notes by tag (a tag, a list of tags or a predicate; exact or contained in a compound tag), by pitch or by excluding tags returns exactly the matching notes in order, so that with the same criterion 'with' and 'without' split the pattern into two complementary parts, and the result inherits tempo, metre, key, name and duration. "
     "Notes of a copied result, and copies of notes and patterns, share no mutable state with the original, while uncopied results hold the very same notes. "
     "The lists of all tags and all pitches contain each value that occurs, once; comparing the tags of two notes tells whether they are equal or share one, and finding the notes identical to a given one returns exactly those.",
     ["inputs", "configurations"], "all patterns, tags (strings, compound tags), criteria and copy modes",
     "Tests use one exact string tag; compound tags, lists, exclusion, and the absence of aliasing are not looked at.",
     [GP], [("tag filter", GP + ":Pattern.getPatternWithTags"), ("exclusion", GP + ":Pattern.getPatternWithoutTags"), ("pitch filter", GP + ":Pattern.getPatternWithPitch"), ("metadata", GP + ":Pattern.copyWithoutEvents"), ("tag tests", GP + ":Event.hasOneOfTags")],
     [("tag", "note label", GP + ":Event")], ["returned patterns"])

prop("C11", "All time queries agree on when a note sounds",
     "A note sounds from its start (included) to its end (excluded), its end being start plus duration: the note's own test, the list of active notes at a time, and the end time all agree on this for every time. "
     "Asking which notes start at a time returns, in order, exactly those that started at that time or no more than the tolerance before it. "
     "Two notes are equal exactly when their times, pitch, velocity and tag are, two patterns exactly when their notes, duration, metre and start are, and inequality is the negation of equality.",
     ["inputs"], "all patterns, times and tolerances",
     "The tests rely on these queries but never test their boundaries.",
     [GP], [("interval test", GP + ":Event.containsTime"), ("active", GP + ":Pattern.activeEventsAtTime"), ("starting", GP + ":Pattern.getStartingEventsAtTime")], [], ["query results"])

prop("C12", "Transposing and stretching are exact and reversible",
     "Transposing by an interval shifts every pitch by it, labels every note with the name of its new pitch (as MIDI import does, letter names in octaves numbered so that 60 is C4), changes nothing else and is undone by transposing back. "
     "Stretching by a ratio multiplies every start, every duration and the pattern's duration by it, changes nothing else, and stretching by reciprocal ratios restores the pattern. "
     "Distinct MIDI pitches have distinct names, and a transposed or stretched pattern can be used in every further operation.",
     ["inputs"], "all patterns, all pitches and intervals within the MIDI range, all positive ratios",
     "No test transposes; stretching is tested with one ratio on one file.",
     [GP, "gsapi/gsutil.py", "gsapi/gsdefs.py"], [("transpose", GP + ":Pattern.transpose"), ("stretch", GP + ":Pattern.timeStretch"), ("naming", "gsapi/gsutil.py:pitch2name")], [], ["pattern.events"])

GI = "gsapi/gsio.py"
prop("C13", "A pattern survives saving to JSON or pickle and loading back",
     "Saving any pattern to a JSON or pickle file and loading it back gives an equal pattern: the same notes in time order with the same times, pitches, velocities and tags, and the same name, duration (extended to cover the notes), tempo, key and metre. "
     "This holds with and without tag indexing, for string and for compound (tuple) tags, with or without tuple preservation, and viewpoints are restored with their values (tuple-valued ones when tuples are preserved) and know the pattern they came from. "
     "Files written in the older indexed layout (a list of tag indices per note) still load, and saving does not alter the pattern's notes.",
     ["inputs", "configurations"], "all patterns, tags and option combinations",
     "The JSON test uses one option combination on string tags; the default option combination is not exercised at all and viewpoints are skipped.",
     [GI, GP], [("serialise", GP + ":Pattern.toJSONDict"), ("parse", GP + ":Pattern.fromJSONDict"), ("file", GI + ":toJSONFile"), ("file", GI + ":fromJSONFile"), ("pickle", GI + ":toPickleFile")], [], ["files", "loaded pattern"])

prop("C14", "A pattern exported to MIDI and imported again is the same music",
     "For every pattern whose notes of equal pitch do not overlap and last at least a tick, exporting to a MIDI file and importing it gives back the same notes: same number, pitch and velocity, starts and ends within one tick (and exactly where they were if that was on a tick, as in a pattern that was itself imported), whatever the order of the notes in the pattern. "
     "Duration (within a tick), metre, key and resolution are preserved, and tempo up to MIDI's microsecond resolution. "
     "When a tag-to-pitch map is given to the export, mapped tags determine the pitches written; exporting leaves the pattern unchanged.",
     ["inputs", "configurations"], "all patterns, resolutions, metres, keys and tempi; any order of notes, repeated and back-to-back notes included",
     "The only round-trip test fails on an unrelated tolerance comparison; back-to-back notes in unsorted order and the key/tempo metadata are not sampled.",
     [GI, "gsapi/midiio.py"], [("export", GI + ":toMidiFile"), ("import", GI + ":fromMidiFile"), ("meta events", GI + ":__metaEventsFromMidiFile"), ("key", GI + ":__keyToMidiFormat")], [], ["re-imported pattern"])

MI = "gsapi/midiio.py"
prop("C15", "MIDI files are encoded and decoded losslessly",
     "Writing any sequence of MIDI events to a file and reading it gives back the same tracks, resolution and format and the same events: kind, channel, data bytes, text and delta times up to the format's 28-bit limit, including under running status, on any supported Python version. "
     "The bytes written are a well-formed file: correct header and track lengths and minimal variable-length quantities, and such files are decoded likewise when produced by other software with headers longer than usual. "
     "Values set on an event (pitch, velocity, bend, controller, programme, tempo, metre, key) read back as set, and converting a track between relative and absolute ticks and back changes nothing.",
     ["inputs"], "all event sequences, all field values in range, all delta times below 2^28",
     "Tests only read corpus files; writing is exercised by one failing test and most event kinds, tick sizes and field values never occur.",
     [MI], [("reader", MI + ":FileReader"), ("writer", MI + ":FileWriter"), ("varlen", MI + ":read_varlen/write_varlen"), ("events", MI + ":AbstractEvent and subclasses"), ("ticks", MI + ":Track.make_ticks_abs")],
     [("RunningStatus", "last status byte", MI)], ["bytes written", "events read"])

prop("C16", "MIDI import turns each note into one event with the mapped tags",
     "Importing a MIDI file creates exactly one event per note-on (a velocity of 0 counts as a note-off) whose pitch and channel some rule of the map accepts, tagged with the label (or labels) of those rules, with its velocity, its start at tick/resolution beats and its length up to the matching note-off; without a filter unmapped notes are kept untagged. "
     "A rule is a pitch or a (pitch, channel) pair where '*' accepts anything, alone or in a list; pitch names are used when asked for, labels are taken from the track name when asked for, and only the requested tracks are read. "
     "The caller's map is not modified, importing a collection equals importing each file, and the pattern carries the file's metre, tempo, key and resolution.",
     ["inputs", "configurations"], "all note sequences (ticks, pitches, channels, velocities), rule sets and options",
     "The tests import corpus files and never compare the events with the notes in the file; channel rules, label lists and track names are not exercised.",
     [GI], [("tag rules", GI + ":__tagsFromMidiNoteAndChannel"), ("rule normalisation", GI + ":__tagFromMidiNote"), ("note pairing", GI + ":__fromMidiFormat"), ("track names", GI + ":__tagFromTrackName"), ("collections", GI + ":fromMidiCollection")], [], ["imported pattern"])

GD = "gsapi/gsdescriptors.py"
prop("C17", "Density and tag count measure exactly the selected notes",
     "The density of a pattern is the sum of the durations of its notes that are not ignored (silences by default) and, if a selection of tags was given, are in it; the tag count is the number of distinct tags among the same notes. "
     "Hence densities add up over the tags of a pattern, scale with time stretching, do not depend on note order, and are never negative; the drum-space features are such densities and counts. "
     "Computing them does not modify the pattern.",
     ["inputs", "configurations"], "all patterns, ignored and included tags",
     "The density test compares two numbers on one file with an inequality.",
     [GD, "gsapi/gsextractors.py"], [("density", GD + ":Density"), ("count", GD + ":NumberOfTags"), ("features", "gsapi/gsextractors.py:DensityDrumSpace")], [], ["returned number"])

prop("C18", "Syncopation follows its definition whatever was computed before",
     "The syncopation of a pattern is the sum, over the beats that sound and are followed (cyclically) by a silent beat, of the difference of the two beats' metrical weights, a beat's weight being the number of binary subdivision levels of the (rounded up) duration on which it falls. "
     "It is never negative, is 0 for empty and for uninterrupted patterns, and does not depend on pitches, velocities or the order of notes. "
     "The value depends on the given pattern alone, not on which patterns the same descriptor measured before, and measuring does not modify the pattern.",
     ["inputs", "histories"], "all patterns and durations, all sequences of measurements with one descriptor",
     "The syncopation test uses slices of length 1, for which the value is always 0.",
     [GD], [("weights", GD + ":Syncopation"), ("sounding beats", GP + ":Pattern.activeEventsAtTime")], [("weights", "cached metrical weights", GD + ":Syncopation")], ["returned number"])

prop("C19", "Chord recognition names the notes that sound",
     "For a pattern sounding exactly the notes of a known chord type on some root, each equally long, the recognised chord (root and type) spells exactly the sounding pitch classes, and when only major and minor are considered a major or minor triad is recognised with its root and mode; with duplicates allowed every proposal is such a spelling and the right type is among them. "
     "This holds in every transposition, octave, inversion, doubling-free voicing and note order, and for any common length; a pattern without sounding notes is reported as silence. "
     "Recognition does not modify the pattern.",
     ["inputs", "configurations"], "all roots, octaves, voicings, orders and lengths, for all shipped chord types",
     "The chord test only logs wrong recognitions and never fails on them.",
     [GD, "gsapi/gsdefs.py"], [("profile matching", GD + ":findBestScoreForProfiles"), ("chroma", GD + ":Chord.getDescriptorForPattern"), ("chord tables", "gsapi/gsdefs.py:chordTypes")], [], ["returned tag"])

prop("C20", "Viewpoints describe each slice of the pattern and leave it alone",
     "Generating a viewpoint with a descriptor yields one event per slice carrying the descriptor's value of exactly that slice, placed and lasting as the slice: per equal length (slices without notes skipped), per distinct onset (the notes then active, up to the end of the longest), or once for the whole pattern. "
     "The viewpoint is stored under its name, records the pattern it comes from, and each of its events records the notes it describes. "
     "The pattern's own notes and attributes are not altered, and regenerating a viewpoint replaces the earlier one; vertical chord slicing likewise gives one chord per distinct onset with the notes then active.",
     ["inputs", "configurations"], "all patterns, descriptors and slicing modes",
     "The viewpoint tests cannot run to completion; nothing compares viewpoint events with the slices.",
     [GP, GD, "gsapi/gstransformers.py"], [("viewpoint", GP + ":Pattern.generateViewpoint"), ("slices", GP + ":Pattern.splitInEqualLengthPatterns"), ("vertical slices", "gsapi/gstransformers.py:Chordify")], [("viewpoints", "named derived patterns", GP + ":Pattern")], ["viewpoint pattern"])

GS = "gsapi/gsstyles.py"
prop("C21", "A learned Markov style holds the corpus' transition frequencies",
     "After learning from patterns of the loop's duration, the style gives for each step and each context (the tags sounding at the preceding steps, cyclically) occurring in the corpus a probability distribution over the tags of that step, proportional to how often they follow in the corpus: probabilities are positive and add up to 1, and nothing else is in the table. "
     "The patterns learned from are not modified, the order of the corpus does not matter, learning again replaces the earlier style, and the reported states and matrices agree with the table. "
     "The style's state can be read out and loaded into another style that then behaves the same.",
     ["inputs", "histories", "configurations"], "all corpora, orders, step counts and loop durations",
     "The Markov tests have never been able to generate and never look at the table.",
     [GS], [("counting and normalising", GS + ":PatternMarkov.buildTransitionTable"), ("formatting", GS + ":PatternMarkov.formatPattern"), ("contexts", GS + ":PatternMarkov.getLastEvents"), ("state", GS + ":PatternMarkov.getInternalState")], [("transitionTable", "per-step conditional distributions", GS + ":PatternMarkov")], ["transition table", "matrices"])

prop("C22", "Generated patterns follow the style, with its probabilities",
     "A pattern generated from a learned style has the loop's duration, its notes lie on the step grid, last one step and bear only tags of the corpus, and every step follows from the preceding ones by a transition the corpus contains; generation never runs into a dead end after a valid start. "
     "At each step the outcome is chosen according to the learned probabilities, so that every continuation is reachable with its share of the random draws. "
     "The same seed gives the same pattern, and generation does not alter the style; a database style returns only patterns it was given, in order when asked to.",
     ["inputs", "histories", "schedules"], "all corpora and all outcomes of the random source",
     "Generation raised a name error in every test, and random outcomes cannot be enumerated by sampling.",
     [GS], [("generation", GS + ":PatternMarkov.generatePattern"), ("database", GS + ":DatabaseStyle.generatePattern")], [("transitionTable", "per-step conditional distributions", GS + ":PatternMarkov")], ["generated pattern"])

GT = "gsapi/gstransformers.py"
prop("C23", "Density transformation adds and removes just the notes asked for",
     "Transforming a pattern with a normalised density per tag gives the pattern itself (on its grid) at density 1, no note of the tag at 0, a note of the tag on every step at 2, and in between the number of notes changes in proportion, never the other way; below 1 only notes of the original remain and above 1 all of them remain. "
     "Tags not mentioned keep their notes, each note lies on a step of its own within the pattern's duration, and the input pattern is not modified. "
     "This holds along any sequence of density changes made with the same transformer.",
     ["inputs", "histories"], "all patterns, densities and sequences of densities, all random choices",
     "The only test draws a few random densities on one file and needs a validity check that cannot run.",
     [GT], [("incremental adding/removing", GT + ":AgnosticDensity.updateNormalizedDensities"), ("state", GT + ":AgnosticDensity.createCurrentState")], [("currentState", "notes/silences per tag", GT + ":AgnosticDensity")], ["returned pattern"])

GB = "gsapi/bassmine.py"
prop("C24", "Bass rhythm codes and onsets describe the same rhythm",
     "Binarising onsets puts each onset on the nearest sixteenth of its beat and nothing anywhere else, ignoring onsets beyond the last beat; the code of a beat is the binary number its four sixteenths spell, and the generation dictionary maps every code back to exactly those sixteenths. "
     "So decoding the codes of a rhythm on the sixteenth grid gives back exactly its set of onsets, and the sixteen codes are in one-to-one correspondence with the sixteen beat patterns. ",
     ["inputs"], "all onset lists, numbers of beats",
     "No test touches the bass line modules.",
     [GB], [("binarise", GB + ":binaryBeatPattern"), ("code", GB + ":translate_rhythm"), ("decode", GB + ":createMarkovGenerationDictionary")], [], ["codes and onsets"])

prop("C25", "Bass line models are proper and constrained generation never gets stuck",
     "The bass model counts each observed initial beat, each pair of consecutive beats of a sequence and each simultaneous kick/bass pair, and normalising turns counts into rows that add up to 1 (rows never observed stay zero). "
     "Sampling from a distribution returns each index with its probability. "
     "A model constrained by a kick pattern or a variation mask only contains continuations that the unconstrained model allows and the constraint accepts, every continuation has a successor distribution at the next beat, and its probabilities are the renormalised original ones, so walking it never fails; the transition and interval tables listed from a model, and the files they are saved to, hold exactly its positive chances.",
     ["inputs", "histories"], "all models (count matrices), all target patterns and masks, all random draws",
     "No test touches the bass line modules.",
     [GB], [("counting", GB + ":MarkovModel"), ("normalise", GB + ":normalize"), ("constraint propagation", GB + ":constrainMM/variationMM"), ("sampling", GB + ":pdf_sampling")], [], ["models", "generated bass lines"])

prop("C26", "Note and chord tables and spelling helpers agree with each other",
     "The two chord tables give the same intervals for every chord type they share, so a chord spelled from the letter-name intervals sounds exactly the semitones of the chord type (where no note needs more than two alterations); spelling a pitch class in sharps or flats gives a name that sounds that pitch class and uses only that kind of accidental, and the named-note table, the pitch-name helper and the MIDI key table agree on which pitch every name denotes. "
     "Chord spelling is transposition invariant: transposing the root by any base-40 interval transposes every note of the chord by it, and the given structure is not modified. No two names of a drum map share a pitch.",
     ["inputs"], "all pitch classes, pitches, roots and chord types",
     "No test touches these tables or helpers.",
     ["gsapi/gsdefs.py", "gsapi/gsutil.py"], [("tables", "gsapi/gsdefs.py"), ("spelling", "gsapi/gsutil.py:makeChord/pc2note/pc2base40/pitch2name")], [], ["returned names"])

prop("C27", "Datasets hold exactly the music of their files",
     "A dataset holds one pattern per file matching its folder and pattern, equal to importing that file on its own with the dataset's map and overlap option; importing again replaces the patterns instead of accumulating them. "
     "Its slices are the slices of its patterns in order, viewpoints are generated on every pattern, and indexing the dataset is indexing its patterns.",
     ["inputs", "configurations", "histories"], "all sets of files and file contents, maps and options",
     "Tests construct datasets from the corpus but never compare them with the files.",
     ["gsapi/gsdataset.py", GI], [("import", "gsapi/gsdataset.py:Dataset.importMidi"), ("glob", "gsapi/gsdataset.py:Dataset.setMidiGlob"), ("slices", "gsapi/gsdataset.py:Dataset.getAllSliceOfDuration")], [("patterns", "imported patterns", "gsapi/gsdataset.py:Dataset")], ["dataset.patterns"])

prop("C28", "Saved styles can be loaded again",
     "A style saved to a JSON or pickle file and loaded into a new style object of the same kind has the same state: a Markov style the same order, step count, loop duration and transition table, a database style equal patterns in the same order; whether a style is built is reported truthfully before and after. "
     "The loaded style generates the same pattern for the same seed.",
     ["inputs", "configurations"], "all learned styles",
     "No test saves or loads a style.",
     [GS], [("save/load", GS + ":BaseStyle.saveToJSON/loadFromJSON/saveToPickle/loadFromPickle"), ("state", GS + ":getInternalState/setInternalState")], [], ["loaded style"])

prop("C29", "Slices and copies of MIDI tracks, patterns and events keep their meaning",
     "A slice of a MIDI pattern or track holds the same tracks or events in the order of the slice, in the same tick mode, resolution and format, so that converting it to absolute or relative ticks gives the times it stands for; the sliced container keeps its contents. "
     "A copy of a MIDI event (of any kind, meta and sysex events included) has the same kind, tick, channel and data except for the values asked for, and changing the copy never changes the original.",
     ["inputs", "configurations"], "all tracks, slices and events",
     "No test slices a MIDI container or copies a MIDI event.",
     ["gsapi/midiio.py"], [("slices", "gsapi/midiio.py:Pattern.__getitem__/Track.__getitem__"), ("copies", "gsapi/midiio.py:AbstractEvent.copy/Event.copy/UnknownMetaEvent.copy")], [], ["returned slices and copies"])

prop("C30", "Corpus files are found by suffix and paired by name",
     "Searching a folder, a file or a list of these for a suffix (or one of several, or any) returns, sorted and each once, exactly the files that have it, and fails for what does not exist. Matching a name against a list returns, in the list's order, exactly the entries with the same base name once folder and given suffixes are taken off, whatever characters the names contain; stripping a suffix takes it off the end where it is there and changes nothing else. "
     "The corpus analysis uses each bass line that has a drum file of the same name exactly once, together with that file, whichever other files there are and however the folders are written.",
     ["inputs", "configurations"], "all sets of files, names and suffixes",
     "No test touches these helpers.",
     ["gsapi/gsutil.py", GB], [("search", "gsapi/gsutil.py:search_files"), ("match", "gsapi/gsutil.py:match_files/strip_suffix"), ("pairing", GB + ":corpus_analysis")], [], ["returned names", "learned model"])

prop("C31", "Drawing, ordering and listing a pattern show all of its notes once",
     "Drawing a pattern on a grid prints one line per tag, of any kind of tag, with one cell per whole block of the pattern's duration: '|' where a note of that tag is heard first, '>' where the same note goes on, and '-' where none sounds or the tag is silence, wherever the notes start and in whatever order they are stored. "
     "Reordering puts the same notes in order of their starts, those starting together in the order they were in. "
     "The list of a pattern has pitch, start and duration of each note in stored order, indexing and iterating a pattern is indexing and iterating its notes, and none of this alters a note.",
     ["inputs"], "all patterns, all block sizes",
     "No test draws, lists or reorders a pattern; an imported file is in order already.",
     [GP], [("drawing", GP + ":Pattern.printASCIIGrid"), ("ordering", GP + ":Pattern.reorderEvents"), ("listing", GP + ":patternToList"), ("indexing", GP + ":Pattern.__getitem__/__setitem__/__len__")], [("events", "notes", GP + ":Pattern")], ["printed text", "pattern.events"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
