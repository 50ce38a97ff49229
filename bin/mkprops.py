import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=["arm-wt-22k/"+f for f in files],mechanism=[dict(name=n,where="arm-wt-22k/"+w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where="arm-wt-22k/"+c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
T="The 15 existing tests play five well-formed MIDI files and look only at play length, position and state, never at samples, errors or malformed input; "

p("C01","Host file access: exact positions, data and limits",
 "Whatever sequence of open, duplicate, seek, read and close operations is made on files of any size, every read delivers exactly the file's bytes at that handle's own position, reports how many it delivered, and succeeds only when the whole request was met; numbers are read in the requested byte order. The host is never asked for bytes outside the file, seeks outside the file are refused, a duplicate moves independently of its original, closed handles are rejected and the handle table refuses (never overwrites) when full. A short or failed host read never moves a position backwards or past the data delivered.",
 ["histories","inputs","fault_sequences"],"every operation sequence over every file size, content, offset and request size, and every pattern of short or failing host reads",
 T+"all their reads succeed in full and no table limit is ever reached.",
 ["host_src/eas_hostmm.c"],[("range checks against the host-reported size","host_src/eas_hostmm.c EAS_HWReadFile, EAS_HWFileSeek, EAS_HWFileSeekOfs"),("free-slot search in the handle table","host_src/eas_hostmm.c EAS_HWOpenFile, EAS_HWDupHandle, EAS_HWCloseFile"),("byte composition","host_src/eas_hostmm.c EAS_HWGetWord, EAS_HWGetDWord")])

p("C02","A file is opened as MIDI only when its header is a valid one",
 "A file is recognised as Standard MIDI exactly when it begins with the MIDI signature (or, with header search enabled, contains it), and preparing it succeeds only if it announces at least one track and each announced track begins where the header's and the preceding chunks' declared lengths say it does. On success the reader is ready and holds one independent position per track, starting at that track's first event after its first delta time, and the time division is the file's (or the default when the file gives none in ticks per quarter). On any rejection an error is returned, the reader is not ready and cannot be made ready by asking again with things half set up, and closing it leaves no file handle, memory or synthesizer allocated.",
 ["inputs","fault_sequences"],"every byte content of the header and track chunk headers, every file length, and every failing allocation or handle",
 T+"no malformed or truncated header is ever offered.",
 ["lib_src/eas_smf.c","lib_src/eas_smfdata.h"],[("signature match and search","lib_src/eas_smf.c SMF_CheckFileType, host layer EAS_SearchFile in lib_src/eas_public.c"),("header and track chunk walk","lib_src/eas_smf.c SMF_ParseHeader"),("cleanup","lib_src/eas_smf.c SMF_Close")])

p("C03","Arbitrary MIDI file content cannot corrupt memory or hang playback",
 "For every byte content of the track data, parsing one event terminates after reading a bounded part of the file, touches only memory the library owns, and every track afterwards has advanced past the event, has ended, or has put playback in the error state. Truncation in the middle of an event ends that track or reports an error; it never loops, never reads stale data as if it were in the file, and leaves the other tracks as they were.",
 ["inputs"],"every byte sequence and every truncation point of track data, in every parse mode (play, locate, play-length, metadata)",
 T+"every track they read is well formed.",
 ["lib_src/eas_smf.c","lib_src/eas_midi.c"],[("event dispatch","lib_src/eas_smf.c SMF_ParseEvent, SMF_ParseMetaEvent, SMF_ParseSysEx"),("end of track and error handling","lib_src/eas_smf.c SMF_Event")])

p("C04","Event timing follows the file's delta times and tempo",
 "Delta times are decoded as standard variable-length quantities, accumulate without ever going backwards, and are turned into time using the division and the most recent tempo in effect for all tracks (120 quarter notes per minute before the first tempo event). Among all tracks the event with the smallest due time is always delivered next (lower-numbered track first on a tie), so the reported position never decreases during play.",
 ["inputs","histories"],"every delta encoding, tempo value, division and number of tracks",
 T+"tempo and division vary over five files only.",
 ["lib_src/eas_smf.c"],[("variable length decode and delta accumulation","lib_src/eas_smf.c SMF_GetVarLenData, SMF_GetDeltaTime"),("tempo to milliseconds per tick","lib_src/eas_smf.c SMF_UpdateTime, SMF_ParseMetaEvent"),("minimum-tick selection","lib_src/eas_smf.c SMF_Event")])

p("C05","Playback lifecycle: play, pause, resume, reset and end of file",
 "A prepared MIDI file is ready, plays until every track has ended, and then passes through stopping to stopped, only once all of its voices are silent; a pause is accepted exactly while there is something to play and stops the position from the next rendered buffer on, a resume is accepted exactly while paused, and every other request is refused without changing anything. Resetting a finished or playing file returns it to exactly the state it had when first prepared, so that replaying it delivers the same events at the same times.",
 ["histories"],"every order of transport requests and every point in the file at which they arrive",
 T+"one fixed pause/resume/seek history is tried.",
 ["lib_src/eas_smf.c","lib_src/eas_public.c"],[("state transitions","lib_src/eas_smf.c SMF_Event, SMF_State, SMF_Pause, SMF_Resume, SMF_Reset")])

p("C06","Text metadata is delivered bounded and terminated",
 "When a metadata callback is registered, each recognised text event is delivered once, with at most the number of characters the caller's buffer can hold, always terminated within it, with its exact leading bytes and correct kind; longer texts are cut, shorter ones are delivered whole, unrecognised ones are skipped, and the event after a text event is always found at the right place.",
 ["inputs"],"every text length (including zero and beyond the file), buffer size and content",
 T+"no metadata callback is ever registered.",
 ["lib_src/eas_smf.c","lib_src/eas_public.c"],[("metadata read","lib_src/eas_smf.c SMF_ParseMetaEvent"),("callback registration","lib_src/eas_public.c EAS_RegisterMetaDataCallback")])

p("C07","Live MIDI bytes are decoded into exactly the messages they encode",
 "For any byte stream, each complete channel message (including those using running status) has exactly the effect of that message on that channel, once, with its data bytes in order; real-time bytes may appear anywhere without disturbing the message around them, system messages cancel running status, and stray data bytes have no effect. A note-on with velocity zero is a note-off, and the result does not depend on how the bytes are split between writes.",
 ["inputs","histories"],"every byte stream and every way of splitting it",
 T+"no live stream is ever opened, and the files use well-formed messages only.",
 ["lib_src/eas_midi.c","lib_src/eas_public.c"],[("byte state machine","lib_src/eas_midi.c EAS_ParseMIDIStream, ProcessMIDIMessage"),("writes","lib_src/eas_public.c EAS_WriteMIDIStream")])

p("C08","System-exclusive messages do only what they say",
 "Only a complete, correctly addressed GM reset, master volume or scalable-polyphony message has any effect, and that effect is the one it encodes; truncated, interrupted, over-long or unknown system-exclusive data changes nothing and never disturbs the decoding of the messages after it.",
 ["inputs"],"every system-exclusive byte sequence, interrupted anywhere by any status byte",
 T+"none of their files checks the effect of a system-exclusive message.",
 ["lib_src/eas_midi.c","lib_src/eas_voicemgt.c"],[("sysex state machine","lib_src/eas_midi.c ProcessSysExMessage"),("polyphony table","lib_src/eas_voicemgt.c VMUpdateMIPTable and related")])

p("C09","Seeking and scanning stay silent but track controller state",
 "While seeking, every controller, program, pitch and pressure message still takes effect but no note is started, and a seek leaves the stream at the first event not before the requested time (or at its end), paused if it was paused; while measuring length or collecting metadata no message of any kind changes the synthesizer and the file ends up at its beginning.",
 ["inputs"],"every message in every parse mode",
 T+"they observe only the position after a seek.",
 ["lib_src/eas_midi.c","lib_src/eas_smf.c"],[("parser mode tests","lib_src/eas_midi.c ProcessMIDIMessage")])

p("C10","Public calls validate their arguments and settings round-trip",
 "Every public setting (master and stream volume, playback rate, transposition, polyphony, priority, repeat count, effect parameters) accepts exactly its range (a polyphony of 0 meaning unlimited), reads back what was set, and an out-of-range value, unknown module or unknown parameter is refused with an error and leaves every setting unchanged. No combination of module, parameter and value numbers makes the library touch memory it does not own.",
 ["inputs","configurations"],"every argument value of every setter and getter, on file and live streams",
 T+"they call no setter at all.",
 ["lib_src/eas_public.c","host_src/eas_config.c"],[("argument checks","lib_src/eas_public.c EAS_SetVolume, EAS_SetPlaybackRate, EAS_SetTransposition, EAS_SetPolyphony, EAS_SetPriority, EAS_SetParameter, EAS_GetParameter")])

p("C11","Rendering produces exactly one buffer per call and time advances with it",
 "A render call accepts only the library's own buffer size, always delivers exactly that many frames within the caller's buffer, and advances the clock by exactly one buffer's duration; each stream's position advances by that duration scaled by its playback rate, and paused, stopped or unprepared streams do not advance; every event due before that time, and none due after it, is processed.",
 ["histories","inputs"],"every render request, playback rate and stream state",
 T+"only default rate and a single stream are rendered, and samples are never inspected.",
 ["lib_src/eas_public.c","lib_src/eas_mixer.c"],[("buffer size check and frame accounting","lib_src/eas_public.c EAS_Render, EAS_ParseEvents")])

p("C12","Mixing saturates and never wraps or overruns",
 "For every content of the mix bus and every gain, each output sample is the gain-scaled sum clipped to 16 bits: it is never of opposite sign to the sum, zero gain yields silence, and exactly the requested number of frames is written.",
 ["inputs"],"every 32-bit mix value, every gain and every buffer length in range",
 T+"samples are never inspected.",
 ["lib_src/eas_mixer.c"],[("saturation","lib_src/eas_mixer.c SynthMasterGain, EAS_MixEnginePost, EAS_MixStream")])

p("C13","Volume, pan and pitch conversions are bounded and monotone",
 "For every input, volume-to-gain, pan-to-gain, logarithmic-to-linear and pitch-cents-to-ratio conversions stay within their stated range, louder or higher settings never give a smaller result, opposite pan positions mirror left and right, and centre is balanced.",
 ["inputs"],"every volume, pan, attenuation and pitch value",
 T+"no conversion result is ever inspected.",
 ["lib_src/eas_math.c","lib_src/eas_pan.c","lib_src/eas_mixer.c"],[("tables and interpolation","lib_src/eas_math.c EAS_Calculate2toX, EAS_LogToLinear16, EAS_VolumeToGain; lib_src/eas_pan.c EAS_CalcPanControl")])

p("C14","Sample playback never leaves the instrument's sample data",
 "For every sample, loop, pitch and position that a voice can reach, generating a buffer reads only inside that sample's data, keeps the read position inside the loop once a looped sample has entered it, ends one-shot samples at their end, and writes exactly the frames asked for.",
 ["inputs","histories"],"every loop position and length, every pitch increment up to the limit, every phase, looped, one-shot and noise samples",
 T+"only the built-in sounds of five files are rendered.",
 ["lib_src/eas_wtengine.c","lib_src/eas_wtsynth.c","lib_src/eas_dlssynth.c"],[("phase and loop handling","lib_src/eas_wtengine.c WT_Interpolate, WT_InterpolateNoLoop, WT_InterpolateMono"),("end-of-sample limit","lib_src/eas_wtsynth.c WT_CheckSampleEnd"),("pitch limit","lib_src/eas_wtsynth.c WT_UpdateVoice")])

p("C15","Envelopes and LFOs stay in range and voices end",
 "For every instrument articulation each envelope level stays between silence and full scale, rises only in its attack and never in decay or release, a released or muted voice always reaches silence and is then reported finished, and LFO output stays within full scale.",
 ["inputs","histories"],"every attack, decay, sustain, release and rate value and every envelope state",
 T+"envelope state is not observable in them.",
 ["lib_src/eas_wtsynth.c","lib_src/eas_dlssynth.c"],[("envelope state machine","lib_src/eas_wtsynth.c WT_UpdateEG1, WT_UpdateEG2; lib_src/eas_dlssynth.c DLS_UpdateEnvelope"),("LFO","lib_src/eas_wtsynth.c WT_UpdateLFO")])

p("C16","Voice accounting: every voice is counted exactly once",
 "After any sequence of notes, controllers, resets, program changes, stream openings and closings and rendered buffers, the number of voices counted globally, per stream and per channel priority pool is exactly the number of voices in use there, and every voice in use belongs to an open stream. Voices are neither lost nor used twice, a closed or reset stream keeps none, and once everything is released and rendered to silence every count is zero.",
 ["histories"],"every sequence of voice-affecting operations on any number of streams",
 T+"voice counts are never inspected and streams never overlap.",
 ["lib_src/eas_voicemgt.c"],[("count updates","lib_src/eas_voicemgt.c VMStartVoice, VMStolenVoice, VMFreeVoice, VMReleaseVoice, VMAddSamples, VMAllNotesOff, VMMuteAllVoices, VMReset, VMMIDIShutdown")])

p("C17","Polyphony limits are respected and enforced",
 "Setting a polyphony limit is answered with the limit that is then in force (pinned to the supported range), and lowering it silences enough sounding voices to meet it and no more: a stream's limit silences only voices of that stream. A new note never raises the number of sounding voices above the global limit and never claims a free voice for a stream that has used up its own limit; instead an existing voice is taken over, which fades out, then plays the new note, and is counted once throughout.",
 ["histories","configurations"],"every limit, every voice population and every note",
 T+"no test sets a polyphony limit or fills the voices.",
 ["lib_src/eas_voicemgt.c"],[("limit checks and stealing","lib_src/eas_voicemgt.c VMStartNote, VMFindAvailableVoice, VMStealVoice, VMSetPolyphony, VMSetSynthPolyphony")])

p("C18","Note-off and sustain pedal end exactly the notes they should",
 "A note-off ends (or, with the pedal down, defers) exactly the sounding notes of that key on that channel of that stream, a pedal release ends exactly the deferred notes of its channel, a note-off arriving before a note has sounded is honoured after its first buffer, and all-notes-off and all-sound-off affect only their own channel. No note is left sounding after both its note-off and a pedal release have been processed.",
 ["histories"],"every interleaving of note-on, note-off, pedal and buffer boundaries over several channels and streams",
 T+"samples and voices are never inspected, so a stuck note is invisible to them.",
 ["lib_src/eas_voicemgt.c"],[("note-off and pedal handling","lib_src/eas_voicemgt.c VMStopNote, VMReleaseAllDeferredNoteOffs, VMDeferredStopNote, VMCatchNotesForSustainPedal, VMAllNotesOff")])

p("C19","Channel messages set exactly their own channel's state",
 "Each controller, pitch bend, pressure, registered-parameter and reset-controllers message changes exactly the documented setting of exactly its channel and stream to the encoded value; unsupported controllers change nothing; values read back by playing voices stay in range.",
 ["inputs","histories"],"every controller number and value, in every channel state",
 T+"no controller effect is inspected.",
 ["lib_src/eas_voicemgt.c"],[("controller dispatch","lib_src/eas_voicemgt.c VMControlChange, VMPitchBend, VMChannelPressure, VMResetControllers"),("channel parameter update","lib_src/eas_wtsynth.c WT_UpdateChannel")])

p("C20","Streams do not disturb each other",
 "A message, reset, limit or shutdown on one stream never changes the channel settings, sounding notes or counters of another stream; the only interaction is that its notes may take over another stream's voices when all voices are in use.",
 ["histories"],"every operation on every population of voices belonging to several streams",
 T+"only one stream is ever open.",
 ["lib_src/eas_voicemgt.c"],[("virtual synth number in each voice's channel","lib_src/eas_voicemgt.c VMAddChannel, GET_VSYNTH users")])

p("C21","Program and bank selection find an existing instrument",
 "Every program change selects an instrument that exists in the loaded sound library or falls back as documented, and every note-on plays only regions of that instrument whose key range contains the note; no bank, program, key or velocity leads outside the library's tables.",
 ["inputs"],"every bank, program, key, velocity and rhythm/melodic setting over any well-formed library",
 T+"only the default bank of the built-in library is used.",
 ["lib_src/eas_voicemgt.c"],[("program search","lib_src/eas_voicemgt.c VMProgramChange, VMFindProgram, VMFindDLSProgram"),("region search","lib_src/eas_voicemgt.c VMStartNote")])

p("C22","Arbitrary DLS collections are parsed safely or rejected",
 "For every byte content and truncation of a DLS file, loading terminates, never touches memory outside what it allocated, and either fails with an error leaving nothing allocated and no file handle open, or yields a collection in which every program, region, wave and articulation reference is in range, every program's region list is terminated and every sample lies inside the sample data. A file cut short is refused, never loaded in part, and a loop always leaves one sample after its end for interpolation.",
 ["inputs","fault_sequences"],"every file content, truncation point and allocation failure",
 T+"no test loads a DLS file.",
 ["lib_src/eas_mdls.c"],[("chunk walk and bounds","lib_src/eas_mdls.c DLSParser, Parse_lins, Parse_insh, Parse_rgn, Parse_art, Parse_ptbl, Parse_wave"),("cleanup","lib_src/eas_mdls.c DLSCleanup")])

p("C23","DLS articulation values convert into legal synthesis parameters",
 "Every connection a DLS articulation contains (source, control, destination, scale) sets exactly the parameter it names to its value, the last one winning, while parameters no supported connection names keep their defaults; a region uses its own articulation, else its instrument's. Pan, resonance, sustain, LFO and envelope settings come out proportional to what was asked, clamped to the range the synthesizer accepts, a longer time never gives a shorter delay or a faster envelope, and a faster LFO never a slower one.",
 ["inputs"],"every 32-bit scale value and every connection",
 T+"no test loads a DLS file.",
 ["lib_src/eas_mdls.c"],[("value conversion","lib_src/eas_mdls.c ConvertDelay, ConvertRate, ConvertSampleRate, ConvertSustain, ConvertLFOPhaseIncrement, ConvertPan, ConvertQ; Parse_art, Convert_art")])

p("C24","Reverb parameters and output stay valid",
 "Reverb settings accept exactly their legal values, read back what is in effect, and refuse everything else unchanged; for every input signal, preset and wet/dry level processing writes exactly one buffer of saturated samples, keeps every delay-line index inside the delay memory, and with bypass on passes the signal through untouched.",
 ["inputs","histories"],"every parameter value, delay state and input block",
 T+"no effect parameter is set and no sample is inspected.",
 ["lib_src/eas_reverb.c"],[("parameter validation","lib_src/eas_reverb.c ReverbSetParam, ReverbGetParam"),("delay index masking and saturation","lib_src/eas_reverb.c Reverb, ReverbUpdateXfade")])

p("C25","Chorus parameters and output stay valid",
 "Chorus settings accept exactly their legal ranges, read back what was set, and refuse everything else unchanged; for every input signal, rate, depth and level processing writes exactly one buffer of saturated samples and keeps every delay-line and LFO table index in range, and with bypass on passes the signal through untouched.",
 ["inputs","histories"],"every parameter value, delay state, LFO phase and input block",
 T+"no effect parameter is set and no sample is inspected.",
 ["lib_src/eas_chorus.c"],[("parameter validation","lib_src/eas_chorus.c ChorusSetParam, ChorusGetParam"),("delay position and LFO lookup","lib_src/eas_chorus.c WeightedTap, EAS_Calculate_Chorus, ChorusReadInPresets")])

p("C26","Everything acquired is released, even when allocations fail",
 "Whichever allocation or file handle fails, every public open, prepare, load and initialise call either succeeds or returns an error leaving nothing newly allocated or open; closing a stream releases everything it acquired, and shutting down releases everything, after any history of calls.",
 ["fault_sequences","histories"],"every position of a failing allocation or handle in every open/prepare/close/shutdown history",
 T+"allocations never fail in them and nothing checks for leaks.",
 ["lib_src/eas_public.c","lib_src/eas_smf.c","lib_src/eas_voicemgt.c","lib_src/eas_mdls.c"],[("open, prepare and close","lib_src/eas_public.c EAS_Init, EAS_OpenFile, EAS_Prepare, EAS_CloseFile, EAS_Shutdown, EAS_OpenMIDIStream, EAS_CloseMIDIStream")])

p("C27","Stream slots: limited, distinct and safe to misuse",
 "At most the fixed number of streams can be open; each open returns a distinct handle, opening more is refused, a closed slot becomes available again, and calls that do not apply to a stream (wrong state, wrong kind, not prepared) are refused with an error and have no effect. Streams sharing a synthesizer keep it until the last of them is closed.",
 ["histories","inputs"],"every sequence of opens, closes and calls on file and live streams",
 T+"one stream is opened in the right order.",
 ["lib_src/eas_public.c"],[("slot search and state guards","lib_src/eas_public.c EAS_AllocateStream, EAS_StreamReady, EAS_Prepare, EAS_Locate, EAS_Pause, EAS_Resume")])

p("C28","DLS collections are loaded faithfully",
 "A well-formed DLS collection with at least one articulation loads, and every instrument answers to its bank and program with exactly the regions it lists (up to the number it announces), each covering its key and velocity range with its key group, exclusiveness, attenuation, tuning, wave, loop and articulation; the waves play exactly the samples of the file, 8- or 16-bit. Unknown chunks and the order of chunks make no difference, and a collection, region or articulation guarded by a condition is used exactly if the condition (any operation or query, in 32-bit arithmetic) holds. Loops must leave one sample after their end unless the wave itself is looped.",
 ["inputs"],"every content of well-formed collections: identities, ranges, sample values, loops, conditions",
 T+"no test loads a DLS file.",
 ["lib_src/eas_mdls.c"],[("parsing","lib_src/eas_mdls.c DLSParser, Parse_lins, Parse_ins, Parse_insh, Parse_lrgn, Parse_rgn, Parse_rgnh, Parse_wsmp, Parse_wave, Parse_data"),("conditions","lib_src/eas_mdls.c Parse_cdl, QueryGUID"),("conversion","lib_src/eas_mdls.c Convert_rgn")])

with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        n=len([s for s in d["statement"].replace("e.g.","").split(". ") if s.strip()])
        assert n<=3,(d["id"],n)
        f.write(json.dumps(d)+"\n")
print(len(P))
