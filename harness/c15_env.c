/* C15: envelopes and LFOs of one voice, one buffer (or note event) from any
 * consistent envelope state, driven through the synthesizer interface. The
 * sample engine is replaced by a recorder. */
#include "verif.h"
#include "eas_data.h"
#include "eas_math.h"
#include "eas_wtengine.h"
#include "eas_synth_protos.h"
#include "eas_wtsynth.h"
#include "eas_dlssynth.h"
#include "eas_mdls.h"
extern const S_SYNTH_INTERFACE wtSynth;
enum { START, UPDATE, RELEASE, MUTE, SUSTAIN };
static S_VOICE_MGR vm;
static S_SYNTH syn;
static S_SYNTH_VOICE *voice = &vm.voices[1];
static S_WT_VOICE *w = &vm.wtVoices[1];
static EAS_I32 mix[4];
static EAS_U32 slen[1], soff[1];
static EAS_SAMPLE pool[4];
#ifdef DLS
static S_DLS dls; static S_DLS_REGION rg[1]; static S_DLS_ARTICULATION art[1];
#define RG rg[0].wtRegion
#define RIDX FLAG_RGN_IDX_DLS_SYNTH
#else
static S_WT_REGION rg[1]; static S_ARTICULATION art[1];
#define RG rg[0]
#define RIDX 0
#endif
static int calls, tgt, prev;

EAS_I32 EAS_Calculate2toX(EAS_I32 c) { EAS_I32 r = nd_u16(); (void) c; ASSUME(r <= 32768); return r; }
#ifdef DLS
static int zrate;
EAS_I16 ConvertDelay(EAS_I32 t) { (void) t; return nd_u16() & 0x7fff; }
EAS_I16 ConvertRate(EAS_I32 t) { (void) t; return nd_u16() & 0x7fff; }
EAS_U16 EAS_LogToLinear16(EAS_I32 c) { (void) c; return nd_u16() & 0x7fff; }
#endif
void EAS_CalcPanControl(EAS_INT pan, EAS_I16 *l, EAS_I16 *r) { (void) pan; *l = nd_u16() & 0x7fff; *r = nd_u16() & 0x7fff; }
void WT_ProcessVoice(S_WT_VOICE *v, S_WT_INT_FRAME *f)
{
    calls++;
    CHECK(v == w, "the voice's own state is played");
    tgt = f->frame.gainTarget; prev = f->prevGain;
}
#define FULL 32767
static int positive(void) { return nd_u16() & 0x7fff; }

#ifdef DLS
static void env(S_DLS_ENVELOPE *e)
{
    e->delayTime = positive(); e->sustainLevel = positive(); e->releaseTime = positive();
    e->attackTime = nd_i16(); e->holdTime = nd_i16(); e->decayTime = nd_i16();
    e->velToAttack = nd_i16(); e->keyNumToDecay = nd_i16(); e->keyNumToHold = nd_i16();
}
/* what holds of an envelope between buffers */
static int consistent(const S_DLS_ENVELOPE *e, int st, int v, int inc)
{
    if (v < 0 || inc < 0) return 0;
    switch (st) {
    case eEnvelopeStateDelay: return v == 0;
    case eEnvelopeStateAttack: case eEnvelopeStateRelease: return 1;
    case eEnvelopeStateHold: return v == FULL;
    case eEnvelopeStateDecay: return v >= e->sustainLevel;
    case eEnvelopeStateSustain: return v == e->sustainLevel;
    case eEnvelopeStateMuted: return v == 0;
    }
    return 0;
}
#define STAGES (st >= eEnvelopeStateDelay && st <= eEnvelopeStateMuted && st != eEnvelopeStateMuting)
#else
static void env(S_ENVELOPE *e) { e->attackTime = positive(); e->decayTime = positive(); e->sustainLevel = positive(); e->releaseTime = positive(); }
static int consistent(const S_ENVELOPE *e, int st, int v, int inc)
{
    if (v < 0 || inc < 0) return 0;
    switch (st) {
    case eEnvelopeStateAttack: case eEnvelopeStateRelease: return 1;
    case eEnvelopeStateDecay: return v >= e->sustainLevel;
    case eEnvelopeStateSustain: return v == e->sustainLevel;
    case eEnvelopeStateMuted: return 1;      /* reaches zero with the next buffer */
    }
    return 0;
}
#define STAGES (st == eEnvelopeStateAttack || st == eEnvelopeStateDecay || st == eEnvelopeStateSustain || st == eEnvelopeStateRelease || st == eEnvelopeStateMuted)
#endif

#if OP == 1
#ifdef DLS
static void step(const S_DLS_ENVELOPE *e, int st, int v, int inc, int st1, int v1, int inc1)
{
    CHECK(consistent(e, st1, v1, inc1), "the envelope stays consistent and within zero and full scale");
    CHECK(st1 >= st, "an envelope only moves forward through its stages");
    switch (st) {
    case eEnvelopeStateDelay:
        if (inc) CHECK(st1 == st && inc1 == inc - 1, "the delay counts down one buffer at a time");
        else CHECK(st1 != st, "after the delay the attack begins");
        if (st1 == eEnvelopeStateAttack) CHECK(v1 == 0, "the attack begins at zero");
        if (e->attackTime == ZERO_TIME_IN_CENTS && !inc) CHECK(v1 >= e->sustainLevel && st1 != eEnvelopeStateAttack, "an instant attack reaches full scale at once");
        break;
    case eEnvelopeStateAttack:
        if (v < FULL) CHECK(st1 == st && v1 == (v + inc < FULL ? v + inc : FULL), "the attack rises by its rate to full scale");
        else CHECK(st1 > st && v1 <= v, "at full scale the attack ends");
        break;
    case eEnvelopeStateHold:
        if (inc) CHECK(st1 == st && inc1 == inc - 1 && v1 == v, "the hold counts down one buffer at a time at full scale");
        else CHECK(st1 > st && v1 <= v, "after the hold the decay begins");
        break;
    case eEnvelopeStateDecay:
        CHECK(v1 == (v - inc > e->sustainLevel ? v - inc : e->sustainLevel), "the decay falls by its rate to the sustain level");
        CHECK(st1 == (v > e->sustainLevel ? st : eEnvelopeStateSustain), "at the sustain level the decay ends");
        break;
    case eEnvelopeStateSustain:
        CHECK(st1 == st && v1 == v, "a held note stays at its sustain level");
        break;
    case eEnvelopeStateRelease:
        CHECK(v1 == (v > inc ? v - inc : 0), "the release falls by its rate to zero");
        CHECK(st1 == (v > inc ? st : eEnvelopeStateMuted), "at zero the envelope has ended");
        break;
    case eEnvelopeStateMuted:
        CHECK(st1 == st && v1 == 0, "an ended envelope stays at zero");
        break;
    }
}
#else
static void step(const S_ENVELOPE *e, int eg2, int st, int v, int inc, int st1, int v1, int inc1)
{
    CHECK(consistent(e, st1, v1, inc1), "the envelope stays consistent and within zero and full scale");
    CHECK(st1 >= st, "an envelope only moves forward through its stages");
    switch (st) {
    case eEnvelopeStateAttack:
        CHECK(v1 == (v + inc < FULL ? v + inc : FULL), "the attack rises by its rate to full scale");
        CHECK(st1 == (v + inc < FULL ? st : eEnvelopeStateDecay), "at full scale the attack ends");
        if (st1 != st) CHECK(inc1 == e->decayTime, "the decay uses its own rate");
        break;
    case eEnvelopeStateDecay:
        CHECK(v1 <= v && v1 >= e->sustainLevel, "the decay falls towards the sustain level and not below");
        if (!eg2 && v > e->sustainLevel) CHECK(v1 < v, "the decay makes progress");
        CHECK((st1 == st) == (v1 > e->sustainLevel), "at the sustain level the decay ends");
        if (!eg2 && st1 != st) CHECK(st1 == (e->sustainLevel ? eEnvelopeStateSustain : eEnvelopeStateMuted), "a note that decays to silence has ended");
        break;
    case eEnvelopeStateSustain:
        CHECK(st1 == st && v1 == v, "a held note stays at its sustain level");
        break;
    case eEnvelopeStateRelease:
        CHECK(v1 <= v, "the release falls");
        if (!eg2 && v) CHECK(v1 < v, "the release makes progress");
        if (eg2) CHECK(v1 == (v > inc ? v - inc : 0), "the release falls by its rate to zero");
        CHECK((st1 == eEnvelopeStateMuted) == (v1 == 0), "at zero the envelope has ended");
        break;
    case eEnvelopeStateMuted:
        CHECK(st1 == st && v1 == 0, "a muted envelope is silent from the next buffer on");
        break;
    }
}
#endif

static void lfo_step(int ph, int val, int freq, const S_LFO_CONTROL *l)
{
    int r;
    if (ph < 0) {
        CHECK(l->lfoPhase == ph + 1 && l->lfoValue == val, "the LFO delay counts down one buffer at a time");
        return;
    }
    r = ph < 0x2000 ? 4 * ph : ph < 0x6000 ? 0x7fff - 4 * (ph - 0x2000) : 4 * (ph - 0x8000);
    CHECK(l->lfoValue == r, "the LFO is a triangle over its phase");
    CHECK(l->lfoPhase == ((ph + freq) & 0x7fff), "the LFO phase advances by its rate and wraps");
}
#endif

void harness(void)
{
    S_SYNTH_CHANNEL *c;
    S_SYNTH_VOICE va, vb;
    int s1, v1, i1, s2, v2, i2, st, done = 0, ph, lv;
#ifdef DLS
    int ph2, lv2;
#endif
    slen[0] = 8;
    RG.region.keyGroupAndFlags = REGION_FLAG_IS_LOOPED; RG.loopEnd = 4;
    RG.tuning = nd_irange(-9000, 9000); RG.gain = nd_i16();
    env(&art[0].eg1); env(&art[0].eg2);
#ifdef DLS
    syn.pDLS = &dls; dls.pDLSRegions = rg; dls.pDLSArticulations = art; dls.pDLSSampleLen = slen; dls.pDLSSampleOffsets = soff; dls.pDLSSamples = pool;
    RG.gain = -(nd_u16() & 0xfff);
    art[0].eg1ShutdownTime = positive();
    art[0].modLFO.lfoFreq = nd_i16(); art[0].vibLFO.lfoFreq = nd_i16();
    art[0].modLFO.lfoDelay = -positive(); art[0].vibLFO.lfoDelay = -positive();
    art[0].filterCutoff = DEFAULT_DLS_FILTER_CUTOFF_FREQUENCY;
    art[0].filterQandFlags = nd_bool() ? FLAG_DLS_VELOCITY_SENSITIVE : 0;
#else
    { S_EAS init = { 0, 0, 0, 0, rg, art, slen, soff, pool, 0, 0, 0, 1, 1, 1, 0 }; static S_EAS *pl; pl = (S_EAS *) &init; syn.pEAS = pl;
    art[0].lfoFreq = nd_i16(); art[0].lfoDelay = positive();
#endif
    voice->channel = nd_u8() & 15; voice->note = nd_u8() & 127; voice->velocity = nd_u8() & 127; voice->regionIndex = RIDX;
    voice->voiceFlags = nd_u8() & 0x4f;
    c = &syn.channels[voice->channel];
    c->staticPitch = nd_irange(-20000, 20000); c->staticGain = positive(); c->modWheel = nd_u8() & 127; c->pan = nd_u8() & 127;
    c->channelPressure = nd_u8() & 127; c->channelFlags = nd_u8() & 0x0f & ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    voice->voiceState = nd_u8();
#if OP == 1
    ASSUME(voice->voiceState >= eVoiceStateStart && voice->voiceState <= eVoiceStateStolen);
#elif OP == 2
    ASSUME(voice->voiceState == eVoiceStateStart || voice->voiceState == eVoiceStatePlay);
#elif OP == 3
    ASSUME(voice->voiceState >= eVoiceStateStart && voice->voiceState <= eVoiceStateStolen);
#elif OP == 4
    ASSUME(voice->voiceState == eVoiceStateRelease);
#else
    voice->voiceState = eVoiceStateStart;
#endif
    voice->gain = nd_i16();
    st = w->eg1State = nd_u8(); ASSUME(STAGES);
    w->eg1Value = positive(); w->eg1Increment = positive();
    ASSUME(consistent(&art[0].eg1, st, w->eg1Value, w->eg1Increment));
    st = w->eg2State = nd_u8(); ASSUME(STAGES);
    w->eg2Value = positive(); w->eg2Increment = positive();
    ASSUME(consistent(&art[0].eg2, st, w->eg2Value, w->eg2Increment));
    w->modLFO.lfoPhase = nd_i16(); w->modLFO.lfoValue = nd_i16();
    w->loopStart = 0; w->loopEnd = 4; w->artIndex = 0;
#ifdef DLS
    w->vibLFO.lfoPhase = nd_i16(); w->vibLFO.lfoValue = nd_i16();
    ph2 = w->vibLFO.lfoPhase; lv2 = w->vibLFO.lfoValue;
#endif
    vb = vm.voices[0]; va = *voice;
    s1 = w->eg1State; v1 = w->eg1Value; i1 = w->eg1Increment;
    s2 = w->eg2State; v2 = w->eg2Value; i2 = w->eg2Increment;
    ph = w->modLFO.lfoPhase; lv = w->modLFO.lfoValue;
#if OP == 0
    wtSynth.pfStartVoice(&vm, &syn, voice, 1, RIDX);
    CHECK(w->modLFO.lfoValue == 0, "the LFO starts at rest");
#ifdef DLS
    CHECK(w->modLFO.lfoPhase == art[0].modLFO.lfoDelay && w->vibLFO.lfoPhase == art[0].vibLFO.lfoDelay && w->vibLFO.lfoValue == 0, "the LFOs start with their delays");
    CHECK(consistent(&art[0].eg1, w->eg1State, w->eg1Value, w->eg1Increment) && consistent(&art[0].eg2, w->eg2State, w->eg2Value, w->eg2Increment), "the envelopes start consistent");
    if (art[0].eg1.delayTime) CHECK(w->eg1State == eEnvelopeStateDelay, "a delayed attack starts with its delay");
    if (w->eg1State == eEnvelopeStateDelay) CHECK(w->eg1Increment <= art[0].eg1.delayTime, "the delay is not longer than asked");
    CHECK(w->eg1State < eEnvelopeStateRelease && w->eg2State < eEnvelopeStateRelease, "a new note is not already ending");
#else
    CHECK(w->modLFO.lfoPhase == -art[0].lfoDelay, "the LFO starts with its delay");
    CHECK(w->eg1State == eEnvelopeStateAttack && w->eg1Value == 0 && w->eg1Increment == art[0].eg1.attackTime, "the volume envelope starts its attack at zero");
    CHECK(w->eg2State == eEnvelopeStateAttack && w->eg2Value == 0 && w->eg2Increment == art[0].eg2.attackTime, "the modulation envelope starts its attack at zero");
    CHECK(voice->gain == 0, "a note starts from silence");
#endif
#elif OP == 1
    done = wtSynth.pfUpdateVoice(&vm, &syn, voice, 1, mix, BUFFER_SIZE_IN_MONO_SAMPLES);
    CHECK(calls == 1, "one buffer is generated");
    CHECK(prev == va.gain && voice->gain == tgt, "gain ramps from the last buffer's gain to this one's");
    CHECK(tgt >= -FULL - 1 && tgt <= FULL, "the gain is within full scale");
    if (RG.gain >= 0 || RIDX) CHECK(tgt >= 0, "a positive gain stays positive");
#ifdef DLS
    step(&art[0].eg1, s1, v1, i1, w->eg1State, w->eg1Value, w->eg1Increment);
    step(&art[0].eg2, s2, v2, i2, w->eg2State, w->eg2Value, w->eg2Increment);
    lfo_step(ph, lv, art[0].modLFO.lfoFreq, &w->modLFO);
    lfo_step(ph2, lv2, art[0].vibLFO.lfoFreq, &w->vibLFO);
#else
    step(&art[0].eg1, 0, s1, v1, i1, w->eg1State, w->eg1Value, w->eg1Increment);
    step(&art[0].eg2, 1, s2, v2, i2, w->eg2State, w->eg2Value, w->eg2Increment);
    lfo_step(ph, lv, art[0].lfoFreq, &w->modLFO);
    if (w->eg1Value == 0) CHECK(tgt == 0, "a voice whose envelope is at zero is silent");
#endif
    CHECK(done == (va.voiceState != eVoiceStateStolen && w->eg1State == eEnvelopeStateMuted), "a voice is finished exactly when its volume envelope has ended");
    CHECK(voice->voiceState == va.voiceState && voice->note == va.note && voice->channel == va.channel, "playing changes no assignment");
    if (done) REACH("finished");
#elif OP == 2
    wtSynth.pfReleaseVoice(&vm, &syn, voice, 1);
    CHECK(w->eg1State == eEnvelopeStateRelease && w->eg2State == eEnvelopeStateRelease, "releasing starts the release stage");
    CHECK(w->eg1Increment == art[0].eg1.releaseTime && w->eg2Increment == art[0].eg2.releaseTime, "the release uses its own rate");
    CHECK(w->eg1Value >= 0 && w->eg2Value == v2, "the envelope goes on from where it was");
#ifdef DLS
    if (s1 != eEnvelopeStateAttack)
#endif
    CHECK(w->eg1Value == v1, "the envelope goes on from where it was");
#elif OP == 3
    wtSynth.pfMuteVoice(&vm, &syn, voice, 1);
    CHECK(!(voice->voiceFlags & (VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF | VOICE_FLAG_DEFER_MUTE)), "muting forgets deferred note-offs");
#ifdef DLS
    CHECK(w->eg1State == eEnvelopeStateRelease && w->eg1Increment == art[0].eg1ShutdownTime && w->eg1Value == v1, "muting fades with the shutdown rate");
#else
    CHECK(w->eg1State == eEnvelopeStateMuted, "muting ends the envelope");
#endif
#elif OP == 4
    wtSynth.pfSustainPedal(&vm, &syn, voice, c, 1);
    if (v1 < art[0].eg1.sustainLevel) {
        CHECK(w->eg1State == s1 && voice->voiceState == va.voiceState && voice->voiceFlags == va.voiceFlags, "the pedal does not catch a note below its sustain level");
    } else {
        CHECK(w->eg1State == eEnvelopeStateDecay && voice->voiceState == eVoiceStatePlay, "the pedal catches a releasing note");
        CHECK(voice->voiceFlags == (va.voiceFlags | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF), "a caught note waits for the pedal");
        CHECK(consistent(&art[0].eg1, w->eg1State, w->eg1Value, w->eg1Increment), "a caught note's envelope is consistent");
    }
    CHECK(w->eg1Value == v1, "the pedal does not change the level");
#endif
#if OP != 1 && OP != 0
    CHECK(w->modLFO.lfoPhase == ph && w->modLFO.lfoValue == lv, "a note event leaves the LFO running");
    CHECK(voice->gain == va.gain && calls == 0, "a note event plays nothing");
#endif
    CHECK(vm.voices[0].voiceState == vb.voiceState && vm.voices[0].voiceFlags == vb.voiceFlags && vm.wtVoices[0].eg1State == 0 && vm.wtVoices[0].eg1Value == 0, "another voice is untouched");
    REACH("end");
#ifndef DLS
    }
#endif
}
