"""Property -> solver jobs."""
SPECS = {}
NOT_APPLICABLE = {}

_HOST = ["eas_hostmm.c"]
SPECS["C01"] = dict(jobs=[
    dict(name="c01_table", harness="c01_file.c", only=_HOST, defines=["EAS_MAX_FILE_HANDLES=2"],
         hdefines=["K=4", "OPLO=0", "OPHI=2"], unwind=9,
         bounds="4 symbolic operations (open/duplicate/close) on a table of 2 slots, 2 files",
         what="handle table: exhaustion, distinctness, closed handles rejected"),
    dict(name="c01_io", harness="c01_file.c", only=_HOST, defines=["EAS_MAX_FILE_HANDLES=2"],
         hdefines=["K=3", "OPLO=3", "OPHI=6", "PREOPEN"], unwind=9,
         bounds="3 symbolic operations (seek/relative seek/read/16- and 32-bit read) on a handle and its duplicate, file of 0..6 symbolic bytes",
         what="positions, data, byte order and end-of-file against a reference model"),
    dict(name="c01_reuse", harness="c01_file.c", only=_HOST, defines=["EAS_MAX_FILE_HANDLES=2"],
         hdefines=["K=2", "OPLO=0", "OPHI=3", "PREOPEN", "RESEEK"], unwind=9,
         bounds="two handles moved to symbolic positions, one closed, then 2 symbolic operations (open/duplicate/close/seek)",
         what="positions of handles that reuse a table slot"),
    dict(name="c01_faults", harness="c01_file.c", only=_HOST, defines=["EAS_MAX_FILE_HANDLES=2"],
         hdefines=["K=2", "OPLO=3", "OPHI=5", "PREOPEN", "FAULTS"], unwind=9,
         bounds="2 symbolic operations; the host may return short counts or an error",
         what="the same model with host read faults", thorough=dict(hdefines=["K=3", "OPLO=3", "OPHI=5", "PREOPEN", "FAULTS"])),
])

_MIX = ["eas_mixer.c", "eas_math.c", "eas_hostmm.c"]
SPECS["C12"] = dict(jobs=[
    dict(name="c12_post", harness="c12_mix.c", only=_MIX, hdefines=["N=2"], unwind=8, solver="cadical",
         bounds="0..2 stereo frames, every 32-bit mix value, every gain", what="exact gain-scaled clipped value, sign, silence and frame count of the output stage",
         thorough=dict(hdefines=["N=4"], unwind=11, bounds="0..4 stereo frames")),
    dict(name="c12_prep", harness="c12_mix.c", only=_MIX, hdefines=["PREP", "N=4"], unwind=70, memloops=True,
         bounds="0..4 stereo frames", what="mix bus clearing"),
])

SPECS["C13"] = dict(jobs=[
    dict(name="c13_" + t, harness="c13_math.c", only=["eas_math.c", "eas_pan.c"], hdefines=["T_" + t.upper()], unwind=3,
         bounds=b, what=w) for t, b, w in [
        ("exp", "every 32-bit pitch in cents", "pitch ratio range and monotonicity"),
        ("expval", "every octave", "pitch ratio accuracy"),
        ("log", "attenuation -200000..200000", "log to linear gain"),
        ("vol", "every 32-bit volume", "volume to gain"),
        ("pan", "every 32-bit pan position", "pan law")]])

_MIDI = ["eas_midi.c"]
_MB = "%d symbolic bytes (every value), any order of status, data, real-time and system bytes"
SPECS["C07"] = dict(jobs=[
    dict(name="c07_bytes", harness="c07_midi.c", only=_MIDI, hdefines=["NB=6"], unwind=9, bounds=_MB % 6,
         what="EAS_ParseMIDIStream against a message-level decoder", thorough=dict(hdefines=["NB=9"], unwind=12)),
] + [
    dict(name="c07_split%d" % c, harness="c07_midi.c", only=_MIDI + ["eas_public.c"], hdefines=["NB=6", "SPLIT", "CUT=%d" % c], unwind=9,
         bounds=_MB % 6 + ", split after byte %d into two writes" % c,
         what="EAS_WriteMIDIStream: the result does not depend on how bytes are split") for c in (4, 5)
])
SPECS["C08"] = dict(jobs=[
    dict(name="c08_any", harness="c07_midi.c", only=_MIDI, hdefines=["NB=7", "PREFIX=0xf0", "WANT=E_VOL"], unwind=9,
         bounds="F0 followed by " + _MB % 7, what="any system-exclusive message against the reference decoder",
         thorough=dict(hdefines=["NB=9", "PREFIX=0xf0", "WANT=E_VOL"], unwind=12)),
    dict(name="c08_gm", harness="c07_midi.c", only=_MIDI, hdefines=["NB=6", "PREFIX=0xf0,0x7e", "WANT=E_RESET"], unwind=9,
         bounds="F0 7E followed by " + _MB % 6, what="GM reset"),
    dict(name="c08_mip", harness="c07_midi.c", only=_MIDI, hdefines=["NB=7", "PREFIX=0xf0,0x7f,0x7f,0x0b,1", "WANT=E_MIPUPD"], unwind=9,
         bounds="SP-MIDI header followed by " + _MB % 7, what="scalable polyphony entries, termination and interruption"),
    dict(name="c08_mip16", harness="c07_midi.c", only=_MIDI, hdefines=["NB=36", "PREFIX=0xf0,0x7f,0x7f,0x0b,1", "WANT=E_MIPUPD", "DATAONLY"], unwind=38,
         bounds="SP-MIDI header followed by 36 symbolic data/real-time/end bytes", what="complete 16-channel scalable polyphony table"),
])
SPECS["C09"] = dict(jobs=[
    dict(name="c09_locate", harness="c07_midi.c", only=_MIDI, hdefines=["NB=6", "MODE=eParserModeLocate"], unwind=9, bounds=_MB % 6,
         what="while seeking, everything but note starts takes effect"),
    dict(name="c09_mute", harness="c07_midi.c", only=_MIDI, hdefines=["NB=6", "MODE=eParserModeMute"], unwind=9, bounds=_MB % 6, what="muted parsing"),
    dict(name="c09_meta", harness="c07_midi.c", only=_MIDI, hdefines=["NB=6", "MODE=eParserModeMetaData", "META"], unwind=9, bounds=_MB % 6,
         what="while measuring, nothing takes effect"),
    dict(name="c09_sysex", harness="c07_midi.c", only=_MIDI, hdefines=["NB=6", "MODE=eParserModeMetaData", "META", "PREFIX=0xf0"], unwind=9, bounds="F0 + " + _MB % 6,
         what="while measuring, no system-exclusive message takes effect"),
])

_ENG = ["eas_wtengine.c"]
_VOI = ["eas_wtsynth.c", "eas_dlssynth.c"]
SPECS["C14"] = dict(jobs=[
    dict(name="c14_loop", harness="c14_engine.c", only=_ENG, hdefines=["LOOP", "NS=5", "F=3", "MAXINC=(4L<<15)", "SMALL"], unwind=10,
         bounds="5 symbolic samples (16 levels), every loop start after the first sample, every position and fraction, increments up to 4 samples per frame, 0..3 frames",
         what="looped playback against a reference interpolator"),
    dict(name="c14_oneshot", harness="c14_engine.c", only=_ENG, hdefines=["NS=6", "F=3", "SMALL", "MAXINC=(10L<<15)"], unwind=10,
         bounds="6 symbolic samples (16 levels), every position and fraction, increments up to 10 samples per frame, 0..3 frames", what="one-shot playback against a reference interpolator"),
    dict(name="c14_oneshot1", harness="c14_engine.c", only=_ENG, hdefines=["NS=4", "F=1", "MAXINC=(30L<<15)"], unwind=10,
         bounds="4 symbolic 16-bit samples, one frame", what="exact interpolation of a frame"),
] + [
    dict(name="c14_%s_%s" % (t, k), harness="c14_voice.c", only=_VOI,
         hdefines=(["DLS"] if t == "dls" else []) + (["NS=40", "LOOPED=1", "INCMASK=0x7fffffff", "UPDATES=2"] if k == "loop" else ["NS=20", "LOOPED=0", "INCMASK=0x3ff80", "UPDATES=2"]),
         unwind=4, defines=["MAX_SYNTH_VOICES=2"], timeout=240,
         bounds="every region and sample of 2..%s samples, pitch, note, channel state; %s" % (("40", "two consecutive buffers") if k == "loop" else ("20", "increments on a grid of 1/256 sample, up to 8; two buffers")),
         what="%s voices obey the sample engine's contract" % ("library" if t == "voice" else "DLS"))
    for t in ("voice", "dls") for k in ("loop", "once")
] + [dict(name="c14_lib", harness="c14_lib.c", only=["wt_200k_G.c"], full_lib=True, unwind=3,
          bounds="every bank entry, program, region, articulation and sample of the built-in library", what="the library's data is what the voice code assumes")])

SPECS["C15"] = dict(jobs=[
    dict(name="c15_%s_%s" % (k, o), harness="c15_env.c", only=_VOI + ["eas_flog.c"], hdefines=(["DLS"] if k == "dls" else []) + ["OP=%d" % i], unwind=34,
         defines=["MAX_SYNTH_VOICES=2"],
         bounds="one voice in every consistent envelope and LFO state, every articulation, one %s (inductive step)" % w, what="%s: %s" % ("library voices" if k == "lib" else "DLS voices", w))
    for k in ("lib", "dls") for i, (o, w) in enumerate((("start", "note start"), ("update", "rendered buffer"), ("release", "release"), ("mute", "mute"), ("sustain", "pedal press")))
])

_VM = ["eas_voicemgt.c"]
_VMOPS = ["start", "stop", "ctrl", "alloff", "resetf", "resets", "muteall", "relall", "setpoly", "setsynth", "render", "shut", "open", "mip", "misc"]
_VMWHAT = dict(start="a note-on", stop="a note-off", ctrl="a controller", alloff="all notes off", resetf="a forced reset", resets="a soft reset",
               muteall="muting a stream", relall="releasing a stream", setpoly="a stream polyphony limit", setsynth="the global polyphony limit",
               render="one rendered buffer", shut="closing a stream", open="opening a stream", mip="a scalable-polyphony update", misc="program/bend/pressure/volume/priority/transposition")
def _vm(tag, op, prop, nv=3, s=None, extra=(), **kw):
    k = _VMOPS.index(op)
    h = ["OP=%d" % k, prop] + (["TWO=0", "S=0"] if op == "open" else []) + list(extra)
    if s is not None:
        h += ["S=%d" % s, "CH=0"]
    j = dict(name="%s_%s%s" % (tag, op, "" if s is None else s), harness="vm.c", only=_VM, undefs=["_SAMPLE_RATE_44100"],
             defines=["MAX_SYNTH_VOICES=%d" % nv, "_SAMPLE_RATE_8000", "NUM_SYNTH_CHANNELS=2", "UNASSIGNED_SYNTH_CHANNEL=16", "MAX_VIRTUAL_SYNTHESIZERS=2"],
             hdefines=h, unwind=nv + 2,
             bounds="%d voices, two streams of two channels, in every consistent state, one operation (inductive step)" % nv, what=_VMWHAT[op])
    j.update(kw)
    return j
def _vms(tag, ops, prop, **kw):
    return [_vm(tag, o, prop, s=s, **kw) for o in ops for s in ((None,) if o in ("open", "setsynth", "render") else (0, 1))]
SPECS["C16"] = dict(jobs=_vms("c16", _VMOPS, "P16"))
SPECS["C17"] = dict(jobs=_vms("c17", ("start", "setpoly", "setsynth"), "P17"))
SPECS["C18"] = dict(jobs=_vms("c18", ("stop", "ctrl", "alloff", "relall", "render"), "P18"))
SPECS["C20"] = dict(jobs=_vms("c20", [o for o in _VMOPS if o not in ("open", "setsynth", "render")], "P20"))

def _c19(name, k, s, extra=(), **kw):
    j = dict(name=name, harness="c19_chan.c", only=["eas_wtsynth.c" if extra else "eas_voicemgt.c"], undefs=["_SAMPLE_RATE_44100"],
         defines=["MAX_SYNTH_VOICES=2", "_SAMPLE_RATE_8000", "NUM_SYNTH_CHANNELS=2", "UNASSIGNED_SYNTH_CHANNEL=16", "MAX_VIRTUAL_SYNTHESIZERS=2"],
         hdefines=["K=%d" % k, "S=%d" % s] + list(extra), unwind=5,
         bounds="%d symbolic message (every controller, bend, pressure, stream volume; every value) on 2 channels in every state (inductive step)" % k,
         what="settings of every channel against a reference model; derived values refreshed by the next buffer")
    j.update(kw)
    return j
_C19B = "every channel state; one factor of each product from %s values"
SPECS["C19"] = dict(jobs=[
    _c19("c19_msgs0", 1, 0, thorough=dict(hdefines=["K=3", "S=0"], timeout=2000)), _c19("c19_msgs1", 1, 1),
] + [_c19("c19_" + n, 0, 0, ("RENDERED=%d" % i,), bounds=b, what="real channel update: exact gain and pitch") for i, (n, b) in enumerate([
    ("gain_e", "every expression; volume and stream volume from 4 values"), ("gain_v", "every volume; expression and stream volume from 4 values"),
    ("pitch_b", "every bend and tuning; bend range from 4 values"), ("pitch_s", "every bend range and tuning; bend from 4 values")])])

SPECS["C21"] = dict(jobs=[
    dict(name="c21_" + n, harness="c21_prog.c", only=["eas_voicemgt.c"], undefs=["_SAMPLE_RATE_44100"],
         defines=["MAX_SYNTH_VOICES=4", "_SAMPLE_RATE_8000", "NUM_SYNTH_CHANNELS=2", "UNASSIGNED_SYNTH_CHANNEL=16", "MAX_VIRTUAL_SYNTHESIZERS=1"],
         hdefines=["DLS=%d" % d], unwind=6, unwindset={"harness.0": 130},
         bounds="every library of one bank (any locale, two symbolic entries), 3 programs and 4 regions%s; every bank, program, key, velocity, tuning and transposition" % (", every collection of 3 programs and 3 layered regions" if d else ""),
         what="program change then note-on against a reference lookup") for n, d in (("lib", 0), ("dls", 1))])

_8K = dict(undefs=["_SAMPLE_RATE_44100"], defines=["_SAMPLE_RATE_8000"])
def _c24(n, op, what, bounds, *h, **kw):
    j = dict(name="c24_" + n, harness="c24_reverb.c", only=["eas_reverb.c"], hdefines=["OP=%d" % op] + list(h), unwind=2050,
             cbmc_args=["--max-field-sensitivity-array-size", "2050"], bounds=bounds, what=what, **_8K)
    j.update(kw)
    return j
_44K = dict(undefs=[], defines=[], unwind=8200, cbmc_args=[])
SPECS["C24"] = dict(jobs=[
    _c24("params", 0, "settings against a model", "any two setting calls with any 32-bit values, with or without rendering in between", **_44K),
    _c24("init", 1, "start-up and shut-down", "both memory models, allocation failure"),
] + [_c24("frame%d" % p, 2, "one frame against a reference model", "preset %d, every signal and filter state, one wet level and one pair of modulation gains per preset" % p, "PRESET=%d" % p, "BASE=%d" % b)
     for p, b in enumerate((0, 70, 65535, 2047))] + [
    _c24("any", 3, "safety, bypass and bounds", "2 frames from every position and modulation state, 8 wet levels", "NF=2", "PRESET=0", cbmc_args=["--arrays-uf-always"]),
    _c24("mod", 4, "modulation", "every modulation state", **_44K),
    _c24("silence", 5, "silence", "2 frames, every position and gain", "NF=2", "PRESET=0", cbmc_args=["--arrays-uf-always"]),
])

def _c25(n, op, what, bounds, *h, **kw):
    j = dict(name="c25_" + n, harness="c25_chorus.c", only=["eas_chorus.c"], hdefines=["OP=%d" % op] + list(h), unwind=170,
             cbmc_args=["--max-field-sensitivity-array-size", "170"], bounds=bounds, what=what, **_8K)
    j.update(kw)
    return j
SPECS["C25"] = dict(jobs=[
    _c25("params", 0, "settings against a model", "any two setting calls with any 32-bit values, with or without rendering in between", undefs=[], defines=[], unwind=900, cbmc_args=[]),
    _c25("init", 1, "start-up and shut-down", "both memory models, allocation failure", undefs=[], defines=[], unwind=900, cbmc_args=["--max-field-sensitivity-array-size", "900"]),
] + [_c25("frames%d" % k, 2, "frames with a known delayed signal", "one frame (inductive), every modulation phase, rate and depth, 4 levels, any other delay content; delay positions %d and %d" % (a, b), "NF=1", "IXL=%d" % a, "IXR=%d" % b)
     for k, (a, b) in enumerate(((0, 159), (80, 40)))])

_SMF = ["eas_smf.c", "eas_midi.c", "eas_smfdata.c"]
_ST2 = ["MAX_SMF_STREAMS=2"]
def _open(name, nt, fs, what, **kw):
    h = ["OP_OPEN", "FS=%d" % fs, "NT=%d" % nt, "VL=5"] + kw.pop("h", [])
    return dict(dict(name=name, harness="smf.c", only=_SMF, defines=["MAX_SMF_STREAMS=%d" % nt], hdefines=h, unwind=6,
                unwindset={"content.0": fs + 1, "EAS_HWReadFile.0": fs + 1}, what=what,
                bounds="every file of %d bytes, delta times of at most four bytes" % fs), **kw)
SPECS["C02"] = dict(jobs=[
    _open("c02_one", 1, 30, "recognition, header walk and close, one track"),
    _open("c02_two", 2, 34, "recognition, header walk and close, two tracks", thorough=dict(hdefines=["OP_OPEN", "FS=46", "NT=2", "VL=5"], unwind=8, unwindset={"content.0": 47, "EAS_HWReadFile.0": 47}, timeout=800, bounds="every file of 46 bytes")),
    _open("c02_many", 1, 30, "more tracks announced than supported", h=["COUNT=0x101"]),
    _open("c02_none", 1, 30, "no track announced", h=["COUNT=0"]),
    _open("c02_cut11", 1, 11, "file ending in the header"), _open("c02_cut13", 1, 13, "file ending in the header"),
    _open("c02_cut22", 1, 22, "file ending after the first track's header"),
    _open("c02_offset", 1, 30, "header at offset 3", h=["OFFS=3"]),
] + [_open("c02_fault%d" % i, 2, 34, w + ", then the preparation tried again", h=["FAULT=%d" % i, "RETRY"])
     for i, w in ((0, "malformed header"), (2, "no memory for the tracks"), (3, "no synthesizer"), (4, "no file handle"))] + [
    dict(name="c02_type", harness="smf.c", only=_SMF, hdefines=["OP_TYPE", "FS=8"], unwind=9,
         bounds="every file of 0..8 bytes, offset 0..3, allocation failure", what="recognition by signature"),
    dict(name="c02_search", harness="smf.c", only=_SMF + ["eas_public.c"], hdefines=["OP_SEARCH", "FS=10"], unwind=12,
         bounds="every file of 0..10 bytes", what="header search"),
])
def _ev(name, first, what, fs=12, **kw):
    h = ["OP_EVENT", "PPQN=%d" % kw.pop("ppqn", 96), "FS=%d" % fs] + ([] if first is None else ["FIRST=%s" % first]) + kw.pop("h", [])
    nt = kw.pop("nt", 2); h.append("NT=%d" % nt)
    return dict(dict(name=name, harness="smf.c", only=_SMF, hdefines=h, unwind=fs + 2, what=what,
                bounds="one event from every playing state, %d tracks, every content of up to %d bytes, every parser mode" % (nt, fs - 2)), **kw)
SPECS["C03"] = dict(jobs=[
    _ev("c03_meta", "0xff", "meta events"),
    _ev("c03_sysex", "0xf0", "system-exclusive events"),
    _ev("c03_sysex7", "0xf7", "system-exclusive continuation events"),
    _ev("c03_midi", None, "channel messages, running status, stray bytes", h=["CHANNEL"]),
])
SPECS["C04"] = dict(jobs=[
    _ev("c04_tempo%d" % p, "0xff", "tempo change at %d ticks per quarter" % p, h=["SECOND=0x51"], ppqn=p) for p in (1, 96, 480)
] + [
    _ev("c04_time%d" % tc, "0xd0", "elapsed time at tick length %d/1024 ms" % tc, nt=2, h=["TIMING", "TC=%d" % tc, "CUR=1"], fs=9) for tc in (1067, 65535, 1)
] + [_ev("c04_time5333", "0xd0", "elapsed time at tick length 5333/1024 ms", h=["TIMING", "TC=5333", "CUR=1", "TLIM=0xffff"], fs=8)] + [
    _ev("c04_order%d" % c, "0xc0", "selection among three tracks", nt=3, h=["CUR=%d" % c], fs=10) for c in (0, 1, 2)
] + [_open("c04_division%d" % dv, 1, 24, "initial tempo and first due time, time division %d" % dv, h=["DIVISION=%d" % dv]) for dv in (0, 1, 7, 8, 480, 0xe728)])
SPECS["C05"] = dict(jobs=[
    dict(name="c05_state", harness="smf.c", only=_SMF, hdefines=["OP_STATE", "NT=1", "FS=4"], unwind=5,
         bounds="one state query, pause, resume, time query or event from every state", what="state transitions"),
    dict(name="c05_reset1", harness="smf.c", only=_SMF, hdefines=["OP_RESET", "NT=1", "FS=26", "PPQN=96"], unwind=6,
         unwindset={"content.0": 27, "EAS_HWReadFile.0": 27, "harness.0": 23}, bounds="one track, first delta time of up to three bytes, every playback state", what="reset restores the prepared state"),
    dict(name="c05_reset2", harness="smf.c", only=_SMF, hdefines=["OP_RESET", "NT=2", "FS=38", "PPQN=480"], unwind=6,
         unwindset={"content.0": 39, "EAS_HWReadFile.0": 39, "harness.0": 23, "harness.1": 9}, bounds="two tracks, first delta times of up to three bytes, every playback state", what="reset restores the prepared state"),
])
SPECS["C06"] = dict(jobs=[
    _ev("c06_text%d" % t, "0xff", "metadata delivery", nt=1, h=["META", "SECOND=%d" % t], fs=11) for t in (1, 2, 3, 5)
] + [ _ev("c06_other", "0xff", "metadata delivery, every kind", nt=1, h=["META"], fs=11) ])

_PUB = ["eas_public.c", "eas_math.c"]
def _pub(name, op, what, bounds, **kw):
    h = [op] + kw.pop("h", [])
    return dict(dict(name=name, harness="pub.c", only=_PUB, hdefines=h, unwind=10, what=what, bounds=bounds), **kw)
_SMALLVM = dict(undefs=["_SAMPLE_RATE_44100"], defines=["_SAMPLE_RATE_8000", "NUM_SYNTH_CHANNELS=2", "UNASSIGNED_SYNTH_CHANNEL=16", "MAX_VIRTUAL_SYNTHESIZERS=2", "MAX_SYNTH_VOICES=3"])
SPECS["C10"] = dict(jobs=[
    _pub("c10_" + n, "OP_ARGS", "every setting and query on " + w, "one call with any arguments, stream in any state, voices idle", h=["REALVM", "KIND=%d" % k], only=_PUB + ["eas_voicemgt.c"], **_SMALLVM)
    for n, k, w in (("file", 1, "a file stream"), ("live", 2, "a live MIDI stream"), ("closed", 0, "a closed stream"))])
SPECS["C11"] = dict(jobs=[
    _pub("c11_two", "OP_RENDER", "one buffer, two file streams", "any request size, both streams in any state at any rate and position, up to 2 events each", h=["NEV=2"], unwind=5),
    _pub("c11_live", "OP_RENDER", "one buffer, a file and a live stream", "any request size, up to 3 events", h=["NEV=3", "KIND1=2"], unwind=6),
])
SPECS["C05"]["jobs"] += [
    _pub("c05_transport", "OP_TRANSPORT", "pause, resume, seek and render against a model", "4 requests from any state, 3 events", h=["K=4"], unwind=6),
    _pub("c05_repeat", "OP_RENDER", "repeats", "one buffer, a file in any state with any repeat count, up to 3 events, and a live stream", h=["NEV=3", "KIND1=2"], unwind=6),
    _pub("c05_prepare", "OP_PREPARE", "preparing a stream", "any state"),
]
SPECS["C09"]["jobs"] += [
    _pub("c09_seek", "OP_LOCATE", "seeking", "any state, position and target, up to 3 events", unwind=6),
    _pub("c09_scan", "OP_LOCATE", "measuring the length", "any state and position, up to 3 events", h=["SCAN"], unwind=6),
]
_LIFE = dict(harness="c27_synth.c", only=["eas_voicemgt.c"], undefs=["_SAMPLE_RATE_44100"], unwind=18,
    defines=["_SAMPLE_RATE_8000", "NUM_SYNTH_CHANNELS=2", "UNASSIGNED_SYNTH_CHANNEL=16", "MAX_VIRTUAL_SYNTHESIZERS=2", "MAX_SYNTH_VOICES=3"],
    bounds="one call on every population of two synthesizers of up to 4 streams each, with or without collections, any allocation failing",
    what="reference counts of synthesizers and collections in the real voice manager")
_LIFE16 = dict(_LIFE, defines=["_SAMPLE_RATE_8000", "MAX_VIRTUAL_SYNTHESIZERS=2", "MAX_SYNTH_VOICES=3"], unwind=130)
SPECS["C08"]["jobs"].append(dict(_LIFE16, name="c08_reset_state", hdefines=["OP=4"], bounds="all 16 channels in any state", what="a GM reset restores the power-on settings"))
SPECS["C19"]["jobs"].append(dict(_LIFE16, name="c19_power_on", hdefines=["OP=1", "FIRST"], bounds="all 16 channels", what="the settings of a new stream"))
_LIFES = [("start", ["OP=0"]), ("open0", ["OP=1", "FIRST"]), ("open1", ["OP=1"]), ("share", ["OP=2"]), ("close0", ["OP=3", "SYN=0"]), ("close1", ["OP=3", "SYN=1"])]
SPECS["C26"] = dict(jobs=[
    dict(_LIFE, name="c26_synths_" + n, hdefines=h) for n, h in _LIFES
] + [
    _open("c26_reader%d" % i, 2, 34, "opening, failing or preparing, and closing the real file reader: " + w, h=["FAULT=%d" % i])
    for i, w in ((0, "malformed header"), (2, "no memory for the tracks"), (3, "no synthesizer"), (4, "no file handle"))] + [
    _pub("c26_init", "OP_INIT", "start-up and shut-down", "a failure at any step"),
    _pub("c26_down", "OP_SLOTS", "shut-down of every population of streams", "every population of the four slots", h=["SHUTDOWN", "K=0"]),
    _pub("c26_dls", "OP_DLS", "sound collections", "per stream or global, replacing a shared or unshared collection, every failure"),
])
SPECS["C27"] = dict(jobs=[
    dict(_LIFE, name="c27_synths_" + n, hdefines=h) for n, h in _LIFES if n != "start"
] + [
    _pub("c27_" + n, "OP_SLOTS", "one call: " + n, "on every population of the four slots, every failure", h=["K=1", "OPSEL=%d" % i])
    for i, n in enumerate(("openfile", "closefile", "openlive", "share", "closelive", "write"))])

_DLS = ["eas_mdls.c", "eas_math.c"]


def _dls(name, hd, **kw):
    return dict(dict(name=name, harness="dls.c", only=_DLS, hdefines=hd, unwind=62, unwindset={}, object_bits=14,
                     cbmc_args=["--max-field-sensitivity-array-size", "900"]), **kw)


_NOPTR = ["--no-standard-checks", "--bounds-check", "--unwinding-assertions"]
_OK = ["FAITHFUL", "SANE"]
SPECS["C28"] = dict(jobs=[
    _dls("c28_" + n, _OK + ([] if "MAYFAIL" in hd else ["MUSTLOAD=0"]) + hd, bounds=b, what=w, **dict({} if n in ("basic", "junk") else dict(checks=_NOPTR), **({"tier": "thorough"} if n == "wloop2" else {})))
    for n, hd, b, w in (
        ("basic", [], "one instrument, region and wave", "a minimal collection"),
        ("many", ["NI=2", "NR=2", "NW=2", "RC=1", "FS=900"], "two instruments of two regions, two waves", "several instruments, regions and waves"),
        ("regions", ["NR=2", "NW=2", "RC=1", "FS=640"], "two regions, each with its own articulation, and two waves", "several regions and waves"),
        ("instruments", ["NI=2", "NW=2", "FS=640"], "two instruments and two waves", "several instruments and waves"),
        ("extra", ["NR=2", "CREG=1"], "more regions than announced", "regions beyond the announced count are ignored"),
        ("fewer", ["NR=1", "CREG=5"], "fewer regions than announced", "a short list of regions"),
        ("rloop", ["RLOOPS=1"], "region loop", "loops given by the region"),
        ("wloop", ["WLOOPS=1"], "wave loop", "loops given by the wave"),
        ("wloop2", ["WLOOPS=1", "NW=2", "WL(i)=((i) ? 1 : -1)"], "second wave looped", "loops given by the wave (second)"),
        ("wloop3", ["WLOOPS=1", "NW=2", "WL(i)=((i) ? -1 : 1)", "WAVE=0"], "first wave looped", "loops given by the wave"),
        ("bothloops", ["WLOOPS=1", "RLOOPS=1"], "both loops", "loops given by both"),
        ("bit8", ["BITS=8", "DLEN=5", "WLOOPS=1"], "8-bit wave of five samples", "8-bit waves"),
        ("long", ["DLEN=70", "FS=640"], "a 16-bit wave of 35 samples, read in three pieces", "waves longer than the loader's buffer"),
        ("long8", ["BITS=8", "DLEN=67", "FS=640"], "an 8-bit wave of 67 samples, read in three pieces", "waves longer than the loader's buffer"),
        ("after", ["RC=1", "IC=1", "ICAFTER=1"], "", "instrument articulation after its regions"),
        ("eof", ["TAIL=-1"], "", "nothing follows the waves"),
        ("junk", ["JUNK=1", "ORDER=1", "RC=1", "FS=640"], "unknown chunks of odd size everywhere, the waves first", "unknown chunks, other order"),
        ("skip", ["CDL=3", "CDLIN=2", "SKIP=1", "NI=2", "NW=2", "FS=640", "CDLSET=cdl_[0] = 0x10; cdl_[1] = cdl_[2] = 0;"], "", "an instrument whose only region is excluded"),
        ("skip2", ["CDL=3", "CDLIN=2", "SKIP=1", "NR=2", "NW=2", "FS=640", "CDLSET=cdl_[0] = 0x10; cdl_[1] = cdl_[2] = 0;"], "", "an excluded region"),
        ("keep", ["CDL=3", "CDLIN=2", "NR=2", "NW=2", "FS=640", "CDLSET=cdl_[0] = 0x10; cdl_[1] = 1; cdl_[2] = 0;"], "", "a region whose condition holds"),
        ("skipart", ["CDL=3", "CDLIN=3", "RC=1", "SKIPART=1", "NR=2", "NW=2", "FS=640", "CDLSET=cdl_[0] = 0x10; cdl_[1] = cdl_[2] = 0;"], "", "an excluded articulation"),
        ("offset", ["OFS=12"], "", "embedded collection"),
    )] + [
    _dls("c28_op%d" % n, ["CDL=7", "CDLIN=1", "CONDONLY", "MAYFAIL", "MUSTFAIL", "CDLSET=cdl_[0] = cdl_[3] = 0x10; cdl_[6] = %d;" % n],
         bounds="operation %d on any two constants" % n, what="conditions", checks=_NOPTR) for n in range(1, 16)
    ] + [
    _dls("c28_query%d" % n, ["CDL=9", "CDLIN=1", "CONDONLY", "MAYFAIL", "MUSTFAIL", "CDLSET=cdl_[0] = 0x1%d;" % n],
         bounds="every query", what="conditions", checks=_NOPTR) for n in (1, 2)
    ])

_ANY = ["MAYFAIL"]
_RICH = ["RC=1", "RLOOPS=0", "WLOOPS=0", "MUSTFAIL"]
SPECS["C22"] = dict(jobs=[
    _dls("c22_" + n, _ANY + hd, bounds=b, what=w)
    for n, hd, b, w in (
        ("content", ["RC=2", "RLOOPS=1", "WLOOPS=1"], "every header, loop, rate and connection value", "any values"),
        ("rate", ["RATE=nd_u32()", "NOPITCH", "WLOOPS=1"], "every rate", "any values"),
        ("wave", ["WAVE=nd_u32()"], "every wave index", "any wave index"),
        ("bits", ["BITSV=nd_u16()", "NOPITCH"], "every sample format", "any sample format"),
        ("count", ["NR=2", "CREG=nd_u32()"], "every region count", "any region count"),
    )] + [
    _dls("c22_trunc%d" % i, ["TRUNC=60", "FROM=%d" % (180 + i), "STEP=4", "TAIL=-1"] + _RICH, what="truncated file", checks=_NOPTR,
         bounds="every truncation of a one-instrument collection from its 180th byte on (every fourth per job), contents symbolic") for i in range(4)
    ] + [
    _dls("c22_fails%d" % i, ["FAILS=60", "FROM=%d" % i, "STEP=8"] + _RICH, what="host failures", checks=_NOPTR, **({} if i % 2 == 0 else dict(tier="thorough")),
         bounds="one failing read, seek, allocation or handle of a one-instrument collection (every eighth per job), contents symbolic") for i in range(8)
    ] + [
    _dls("c22_field%d" % i, ["PATCH=1", "FROM=%d" % i, "STEP=1"] + _RICH, what="damaged structure", checks=_NOPTR,
         bounds="structural field %d of a one-instrument collection damaged (identifiers unknown; numbers 0, 1, 4, 2^32-1; chunk sizes 2^31-1, 2^32-1), contents symbolic" % i) for i in range(1, 61)
    ] + [
    _dls("c22_cdl_" + n, ["CDLIN=1", "CONDONLY", "MAYFAIL", "MUSTFAIL"] + hd, bounds=b, what="malformed conditions", checks=_NOPTR)
    for n, hd, b in (
        ("deep8", ["CDL=24", "CDLSET=for (i = 0; i < CDL; i += 3) cdl_[i] = 0x10;", "CONDIS=(cdl_[22] | cdl_[23]) != 0"], "eight operands"),
        ("deep9", ["CDL=27", "CDLSET=for (i = 0; i < CDL; i += 3) cdl_[i] = 0x10;", "CONDIS=0", "REFUSED"], "one operand too many"),
        ("deep20", ["CDL=20", "CDLSET=for (i = 0; i < CDL; i++) cdl_[i] = 0x20;", "CONDIS=0", "REFUSED"], "twenty unknown operations"),
        ("under1", ["CDL=1", "CDLSET=cdl_[0] = 15;", "CONDIS=0", "REFUSED"], "an operation without operand"),
        ("under2", ["CDL=4", "CDLSET=cdl_[0] = 0x10; cdl_[3] = 1;", "CONDIS=0", "REFUSED"], "a binary operation with one operand"),
    )])

def _pair(d, e):
    return ["IC=3", "CONNSET=if (i) { x->s = 0; x->c = 0; x->d = i == 1 ? %s : %s; }" % (d, e)]


SPECS["C23"] = dict(jobs=[
    _dls("c23_" + n, ["SANE", "MUSTLOAD=0", "ARTMODEL=%d" % m] + hd, bounds=b, what="articulation model", checks=_NOPTR)
    for n, m, hd, b in (
        ("instrument", 1, ["IC=2"], "any connection and value after one known connection"),
        ("region", 2, ["IC=1", "RC=2"], "any connection and value after one known connection, in the region"),
        ("twice", 1, ["IC=3", "CONNSET=if (i == 2) { x->s = icn[1].s; x->c = icn[1].c; x->d = icn[1].d; }"], "any connection given twice"),
        ("only2", 1, ["IC=1", "LARONLY"], "one connection in a second-generation list"),
        ("only2r", 2, ["RC=1", "IC=0-1", "LARONLY"], "one connection in a second-generation list of a region"),
        ("lar2", 1, ["IC=2", "LAR2"], "one known connection in the first list, any in the second one of an instrument"),
        ("lar2r", 2, ["RC=2", "LAR2", "IC=0-1"], "one known connection in the first list, any in the second one of a region"),
        ("lfo", 1, _pair("0x104", "0x114"), "both LFO rates"),
        ("lfodelay", 1, _pair("0x105", "0x115"), "both LFO delays"),
        ("delay", 1, _pair("0x20b", "0x30f"), "both envelope delays"),
        ("release", 1, _pair("0x209", "0x30d"), "both release times"),
    )] + [
    dict(name="c23_time_" + n.lower(), harness="dls_time.c", only=_DLS, hdefines=[n + "=1"], unwind=4, object_bits=12,
         bounds="all times from -65536 to 65278 (a 16-bit value adjusted by another)", what="time conversion") for n in ("ORDERED", "OCTAVE", "ANCHOR")
    ])
