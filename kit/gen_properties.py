#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Every VGM command is framed exactly",
  "Iterating an opened VGM stream yields one command per opcode, in file order, until the data ends, and each command consumes exactly the operand bytes the VGM format assigns to its opcode, including variable-length data blocks (whose 32-bit size uses bit 31 as a chip flag). "
  "So no operand byte is ever taken for a command and no command is swallowed. "
  "Operands are handed on unchanged: register and value for a YM2151 write, the raw operand bytes (or block data) as payload for commands the tool does not interpret.",
  ["inputs"], "every opcode 0..255, every operand content, every data block size, every position in every stream",
  "The tests feed one stream in which each opcode occurs once with one operand pattern and tiny blocks; framing must hold for every opcode/operand/size combination at every position, and one wrong length desynchronises the rest of the file.",
  ["src/vgm/core.py", "src/vgm/command.py", "src/vgm/ym2151/config.py"],
  [("command dispatch by opcode", "src/vgm/core.py:command"), ("iterator", "src/vgm/core.py:Vgm.__next__"), ("fixed-width readers", "src/vgm/core.py:_read8/_read16/_read32")],
  [("stream position", "offset of the next unread byte", "the file object held by the reader")],
  ["bytes consumed per yielded command", "command_id, reg/value, payload of yielded commands"])

p("C02", "Wait commands carry the exact VGM sample count",
  "The delay decoded from a wait command is the one the VGM format defines: the 16-bit little-endian operand for 0x61, 735 for 0x62, 882 for 0x63, n+1 for 0x7n and n for 0x8n. "
  "Commands of any other opcode are not waits.",
  ["inputs"], "every opcode and every operand value",
  "Tests sample seven waits; the mapping must hold for all 256 opcodes and all 65536 operands, since any error shifts every later note.",
  ["src/vgm/core.py", "src/vgm/command.py"],
  [("wait decoding", "src/vgm/core.py:command"), ("short waits", "src/vgm/command.py:WaitCommand.__init__")],
  observe=["samples of yielded wait commands"])

p("C03", "A stream cut inside a command never yields invented operands",
  "If the data ends inside a register write, a wait or a block header, iteration raises an error instead of yielding a command with made-up or shifted operands, and the commands before the cut are the same as for the uncut stream. "
  "A payload that is cut short contains exactly the bytes that are present, and a stream that ends between commands just ends.",
  ["inputs", "fault_sequences"], "every stream and every cut point",
  "Tests only call the fixed-width readers with short input; no test cuts a stream inside a command, and there is one cut point per byte of every possible file.",
  ["src/vgm/core.py"],
  [("length checks", "src/vgm/core.py:_read8/_read16/_read32/_read_bcd"), ("end of data", "src/vgm/core.py:Vgm.__next__")],
  observe=["sequence of yielded commands and the final exception"])

p("C04", "Headers are accepted and decoded exactly",
  "A file is accepted as VGM if and only if its content, after transparent gzip decompression, starts with the magic 'Vgm '; any other readable content is rejected without error and a header cut short raises an error. "
  "For an accepted file the reported size, BCD version, YM2151 clock and chip support (taken from the YM2413 clock field before version 1.10) and data start (offset 0x40 before version 1.50, else 0x34 plus the stored offset) equal what the header encodes, and iteration starts at the data start. "
  "What one open file reports is unaffected by opening another.",
  ["inputs", "configurations", "histories"], "every header content, version and clock value, plain or gzip, any number of files open at once",
  "Tests check five literal headers; fields, version thresholds and relative offsets must be right for every combination, and no test opens two files.",
  ["src/vgm/core.py"],
  [("reader", "src/vgm/core.py:reader"), ("header parsing", "src/vgm/core.py:Vgm.__init__"), ("BCD", "src/vgm/core.py:_read_bcd")],
  [("clocks", "clock per chip", "Vgm.clocks"), ("data_start", "absolute offset of the first command", "Vgm.data_start")],
  ["version, size(), clock(), supports(), data_start, first yielded command"])

p("C05", "A register write updates exactly the fields it addresses",
  "Applying a YM2151 register write sets precisely the parameters that the YM2151 register map assigns to that address (of the addressed channel and operator) to the values of the corresponding bit fields, in full width. "
  "Every other parameter of every channel and operator keeps its value, and unmapped addresses change nothing.",
  ["inputs", "histories"], "every register 0..255, every value 0..255, every prior chip state",
  "Tests write a handful of values per register from the reset state; the map must hold for 65536 writes in every state, with a frame over more than 400 parameters.",
  ["src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py"],
  [("register decoder", "src/vgm/ym2151/state.py:State.apply"), ("parameter holders", "src/vgm/ym2151/config.py:BaseConfig/ChannelConfig/OperatorConfig/NoteConfig")],
  [("current parameters", "8 channels x 4 operators plus global LFO/noise", "State")],
  ["parameters of the next recorded instrument and event"])

p("C06", "Every key event is recorded once, in order, with its own data",
  "Each key-on write (at least one operator bit) appends exactly one event to the addressed channel, carrying the current sample time and that channel's current note, octave, key fraction and stereo flags; each key-off write after the first key-on appends exactly one off event in the same way, and key-offs before the first key-on are ignored. "
  "Events of each channel are therefore in time order, and no other write and no wait adds, drops or alters an event.",
  ["inputs", "histories"], "every history of register writes and waits",
  "It quantifies over all histories: the tests that look at events use at most three key writes at sample 0 on one channel.",
  ["src/vgm/ym2151/state.py", "src/vgm/ym2151/note.py"],
  [("key on/off branch", "src/vgm/ym2151/state.py:State.apply"), ("event", "src/vgm/ym2151/note.py:Note.__init__")],
  [("events", "per-channel list of key events", "State._channel_key_presses"), ("first key-on seen", "gate for key-offs", "State._first_beat")],
  ["key_presses(channel)"])

p("C07", "The instrument table is dense, duplicate-free and correctly referenced",
  "The instrument id of a key-on event denotes a table entry whose parameters (LFO and waveform, channel settings, all four operators, set of enabled operators) equal the sounding parameters of that channel at that moment. "
  "Two key-ons get the same id if and only if all these parameters are equal. "
  "Ids are the table positions 0, 1, 2, ... in order of first use, an entry is added only by a key-on that needs it, and off events refer to no instrument.",
  ["inputs", "histories"], "every history of register writes and waits, any number of instruments",
  "It relates every pair of key-ons in an unbounded history over all parameters; tests compare at most three key-ons differing in one parameter.",
  ["src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py"],
  [("lookup of an equal entry", "src/vgm/ym2151/state.py:State.apply"), ("comparison", "src/vgm/ym2151/config.py:Config.compare and __eq__ methods"), ("snapshot", "src/vgm/ym2151/config.py:__deepcopy__ methods")],
  [("instrument table", "list of distinct parameter sets", "State.configs")],
  ["State.configs and config_id of events"])

p("C08", "Recorded instruments and events never change afterwards",
  "Once an instrument or a key event has been recorded, no later register write, wait, key event, tempo estimation or export alters it, removes it or reorders it. "
  "In particular it shares no mutable data with the live chip state or with other entries.",
  ["histories"], "every history that extends a recorded state, any table size",
  "Aliasing only shows when a later write hits the shared parameter; tests look at one or two parameters after one later write.",
  ["src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/vgm/ym2151/note.py", "src/extractors.py"],
  [("deep snapshots", "src/vgm/ym2151/state.py:State.apply"), ("copy constructors", "src/vgm/ym2151/config.py"), ("event copies scalars", "src/vgm/ym2151/note.py:Note.__init__")],
  observe=["instruments and events read before and after any continuation"])

p("C09", "The sample clock and the onset list are exact",
  "The time stamped on an event is the sum of all waits before it, and waits change nothing but the clock. "
  "The onset list handed to tempo estimation contains, in strictly increasing order and without duplicates, exactly the sample times at which at least one key-on happened.",
  ["inputs", "histories"], "every history of register writes and waits",
  "No test advances the clock at all; the claim is about arbitrary sums and arbitrary interleavings.",
  ["src/vgm/ym2151/state.py"],
  [("clock", "src/vgm/ym2151/state.py:State.beat"), ("onset set", "src/vgm/ym2151/state.py:State.apply, State.ticks")],
  [("clock", "samples elapsed", "State._samples"), ("onsets", "set of key-on times", "State._note_beats")],
  ["event.sample, ticks()"])

p("C10", "The analysed song is the fold of the stream up to its end marker",
  "Processing a stream leaves the state reached by performing, in stream order, every YM2151 write and every wait that precede the first end-of-sound marker (or the end of the data), each exactly once. "
  "All other commands, and everything after the marker, have no influence on the result.",
  ["inputs", "histories"], "every command sequence, with and without end marker and trailing data",
  "No test runs the processing loop; the claim is about every sequence of commands of any length and whatever trails the marker.",
  ["src/main.py"],
  [("processing loop", "src/main.py:process_vgm_file")],
  observe=["the returned state"])

p("C11", "The tempo estimate is the best self-alignment of the onsets",
  "The estimated samples per row is the shift between 1000 and 7999 that minimises the number of mismatches between the onsets in the first 32000 samples and the same onsets delayed by that shift (onsets without partner, counted up to the last onset); the smallest such shift on ties. "
  "The estimation always terminates with such a value and does not alter the analysis.",
  ["inputs"], "every set of onset times",
  "No test calls it; optimality is a statement over 7000 shifts for every possible onset set, and rests on a merge loop whose correctness needs an invariant.",
  ["src/vgm/ym2151/state.py"],
  [("correlation loop and ranking", "src/vgm/ym2151/state.py:State.ticks_per_note")],
  observe=["value returned by ticks_per_note"])

p("C12", "Every key event lands in its song cell",
  "In the exported song, with T > 0 ticks per row, a key event at sample s on channel c appears in pattern (s div T) div 64, line (s div T) mod 64, track c, carrying its note name, its instrument number as two upper-case hex digits (none for an off event) and its panning mark (none if both outputs are on, 00 if only the right one is, F0 otherwise); of several events in one cell the last one stays, and no other cell is filled. "
  "Patterns 0 to the last used one all exist and are each played once, in order, there are 8 tracks and as many instruments as were recorded. "
  "The tempo is floor(60*44100/(4T)) beats per minute at 4 lines per beat.",
  ["inputs"], "every list of events per channel, every T >= 1",
  "No test touches the exporter; placement, gaps between patterns and collisions depend on arbitrary event times and T.",
  ["src/extractors.py", "src/xrns/parts/pattern.py", "src/xrns/parts/pattern_sequence.py", "src/xrns/parts/song.py", "src/xrns/parts/globals.py"],
  [("placement", "src/extractors.py:extract_tracks_to_xrns"), ("cell update", "src/xrns/parts/pattern.py:PatternPool.add_note"), ("play order", "src/xrns/parts/pattern_sequence.py:PatternSequence.add_pattern")],
  [("song cells", "pattern x track x line -> note", "PatternPool.patterns")],
  ["Song.xml of the written file, the song handed to the writer"])

p("C13", "The song document carries the song without loss",
  "The document written for a song contains the same patterns, tracks per pattern, and lines per track, each line with its index, note, instrument and panning, in the same order, the same play sequence, the same global settings (tempo, lines per beat, ticks per line, signature, metronome, shuffle, octave, name, artist), one track entry per track with its name and state, and one instrument entry per instrument. "
  "It is stored as the single member Song.xml of a zip container, under the element and attribute names of the Renoise song format, document version 65.",
  ["inputs"], "every song with any number of patterns and lines",
  "No test renders a song; a dropped or swapped field is invisible without comparing every field of an arbitrary song.",
  ["src/xrns/xrns_serializer.py", "src/xrns/writer.py", "src/xrns/xml/song/renoise_song65.py"],
  [("rendering", "src/xrns/xrns_serializer.py:XrnsSerializer"), ("container", "src/xrns/writer.py:writer"), ("vocabulary", "src/xrns/xml/song/renoise_song65.py")],
  observe=["parsed Song.xml of the written file"])

p("C14", "Note names denote the chip's pitch",
  "For every octave and each of the chip's twelve note codes, the exported note name and octave denote the same pitch as the chip plays (the chip's octaves run from C# up to C, so its C belongs to the next named octave), so a higher chip pitch always exports as a higher note. "
  "The four unused codes still give a legal note name, off events give Off, and the textual rendering shows the same note letter, the chip octave, the detune in cents if noticeable, the instrument id and the panned side.",
  ["inputs"], "all octaves, note codes, fractions, stereo flags and instrument ids",
  "No test renders a note; the mapping has 128 pitch cases times fractions and flags and two lookup tables that must agree.",
  ["src/vgm/ym2151/note.py"],
  [("names", "src/vgm/ym2151/note.py:Note.xrns_note, Note.__str__"), ("tables", "src/vgm/ym2151/note.py:_NOTE_LOOKUP, _NOTE_LOOKUP_XRNS")],
  observe=["note column of Song.xml, cells of the tracks CSV"])

p("C15", "The instrument export is complete and lossless",
  "The exported JSON is one array with one object per recorded instrument, in table order with its id, and from it every parameter of the instrument (waveform, LFO, modulation depths, enabled operators by name, feedback, connection, sensitivities, noise, and all eleven parameters of each of the four operators under its own name m1, c1, m2, c2) can be read back exactly. "
  "Exporting does not alter the instruments.",
  ["inputs"], "every instrument content, every table length",
  "Tests encode two toy classes; that no parameter is dropped, swapped or attributed to the wrong operator must hold for all values of 60 parameters.",
  ["src/extractors.py", "src/vgm/ym2151/config.py"],
  [("export", "src/extractors.py:extract_instruments"), ("encoders", "src/vgm/ym2151/config.py:repr_json methods, ConfigEncoder")],
  observe=["parsed JSON file"])

p("C16", "The tracks CSV lists every row and every event",
  "With T > 0 ticks per row, the tracks CSV has a header and then exactly one line for every row number from 0 to the row of the last event, in order, with correct line, pattern and total row columns, and nothing else. "
  "The cell of a channel shows the last event of that channel in that row and is empty if there is none.",
  ["inputs"], "every list of events per channel, every T >= 1",
  "No test produces a CSV; the merge over eight event lists with gaps and collisions depends on arbitrary event times.",
  ["src/extractors.py"],
  [("merge loop", "src/extractors.py:extract_tracks")],
  observe=["the written CSV"])

p("C17", "Parameter sets compare by value and copy by value",
  "Two parameter sets of the same kind (global, channel, operator, note) are equal if and only if all their parameters are equal, and a set never equals a value of another type. "
  "A copy (deep copy or copy construction) is equal to the original and independent of it: no later change to either is visible in the other.",
  ["inputs", "histories"], "all parameter values, all later changes",
  "Tests change a single parameter of the global set; equality and independence must cover each of 26 parameters in four kinds of sets, nested ones included.",
  ["src/vgm/ym2151/config.py"],
  [("equality", "src/vgm/ym2151/config.py:__eq__ methods"), ("copy", "src/vgm/ym2151/config.py:__deepcopy__ methods and copy constructors")],
  observe=["==, copy.deepcopy"])

p("C18", "Streams are chosen and released correctly on every exit",
  "Opening by name opens exactly that file with the requested mode and closes it exactly once when the block is left, whether normally or by an exception; an empty name or '-' designates standard output for write modes and standard input for read modes (their binary form for binary modes) and leaves them open. "
  "Any other mode without a name is refused, and exceptions of the block are propagated unchanged.",
  ["inputs", "fault_sequences"], "every name, every mode, normal and exceptional exit of the block",
  "No test uses it; it is about all exits including exceptions.",
  ["src/tools.py"],
  [("context manager", "src/tools.py:smart_open")],
  observe=["files opened and closed, object handed to the block"])

p("C19", "Analyses in one process do not influence each other",
  "The result of reading, analysing or exporting a file is the same whether or not other files were read, analysed or exported before or in between in the same process. "
  "No operation stores anything in state shared between readers, chip states, songs or serializers.",
  ["histories"], "every interleaving of operations on any number of independent objects",
  "Tests build one object at a time; shared class attributes, mutable default arguments and module tables only show with several objects and particular values.",
  ["src/vgm/core.py", "src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/xrns/parts/pattern.py", "src/xrns/parts/song.py", "src/xrns/xrns_serializer.py"],
  [("per-instance state", "constructors of the reader, chip state, song parts and serializer")],
  observe=["results of one analysis with and without others"])

p("C20", "A run produces the requested outputs from the right data",
  "A run reads the named file, writes the instrument file if and only if one is requested and the song file if and only if one is requested, from the analysis of that file. "
  "The ticks per row used for the song are the ones given on the command line, or the estimate if none are given. "
  "If the input is not a VGM file no output file is created.",
  ["inputs", "configurations"], "every combination of options and inputs",
  "No test runs the program; the combinations of options and inputs decide which files appear.",
  ["src/main.py", "src/extractors.py"],
  [("orchestration", "src/main.py:main and the command line parser")],
  observe=["files written by a run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
