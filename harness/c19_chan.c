/* C19: channel messages.  A few symbolic messages on symbolic channels of one
 * stream, from any channel state, against a reference model of the settings;
 * then one buffer is rendered and the values the voices use are compared with
 * the settings.  The other stream must not change. */
#include "verif.h"
#include "eas_data.h"
#include "eas_synth.h"
#include "eas_synth_protos.h"
#include "eas_vm_protos.h"
#include "eas_wtsynth.h"

#define NC NUM_SYNTH_CHANNELS
#ifndef K
#define K 2
#endif
#ifndef S
#define S 0
#endif
static S_VOICE_MGR vm;
static S_SYNTH synA, synB;
#if S
#define OTHER synA
#define SYN synB
#else
#define OTHER synB
#define SYN synA
#endif
static S_SYNTH_CHANNEL o0[NC];
static S_WT_REGION regs[1];
static S_PROGRAM progs[1];
const S_EAS easSoundLib = { .identifier = _EAS_LIBRARY_VERSION, .libAttr = _OUTPUT_SAMPLE_RATE | LIB_FORMAT_16_BIT_SAMPLES,
    .pPrograms = progs, .pWTRegions = regs, .numPrograms = 1, .numWTRegions = 1 };
#ifndef RENDERED
/* which settings the derived values of each channel come from */
static S_SYNTH_CHANNEL seen[2][NC];
static uint16_t seen_master[2][NC];
static void s_chan(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 c)
{
    CHECK(m == &vm && (s == &synA || s == &synB) && c < NC, "a channel update names an existing channel");
    seen[s == &synB][c] = s->channels[c];
    seen_master[s == &synB][c] = s->masterVolume;
    s->channels[c].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
}
const S_SYNTH_INTERFACE wtSynth = { 0, 0, 0, 0, 0, 0, s_chan };
#else
extern const S_SYNTH_INTERFACE wtSynth;
#endif
void WT_ProcessVoice(S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame) { (void) pWTVoice; (void) pWTIntFrame; CHECK(0, "no voice is rendered"); }
void *EAS_CMEnumData(EAS_INT m) { (void) m; return NULL; }

/* the settings, as the MIDI messages define them */
typedef struct { uint16_t bank, bend, rpn; int16_t sens; uint8_t mod, vol, pan, expr, press, pedal, rev, cho; int8_t fine, coarse; uint8_t prog; uint16_t region; uint8_t rhythm, mute, pool, mip; } REF;
static REF ref[NC];
static uint16_t master;

static void apply(int c, uint8_t kind, uint8_t a, uint8_t b)
{
    REF *r = &ref[c];
    if (kind == 1) { r->bend = (b << 7) | a; return; }
    if (kind == 2) { r->press = a; return; }
    switch (a) {
    case 0: r->bank = b << 8; break;
    case 32: r->bank = (r->bank & 0xff00) | b; break;
    case 1: r->mod = b; break;
    case 7: r->vol = b; break;
    case 10: r->pan = b; break;
    case 11: r->expr = b; break;
    case 64: r->pedal = b >= 64; break;
    case 91: r->rev = b; break;
    case 93: r->cho = b; break;
    case 98: case 99: r->rpn = 0x3fff; break;
    case 100: r->rpn = (r->rpn & ~0x7f) | b; break;
    case 101: r->rpn = (r->rpn & 0x7f) | (b << 7); break;
    case 6:
        if (r->rpn == 0) r->sens = 100 * b;
        else if (r->rpn == 1) r->fine = (int8_t) ((b - 64) * 100 >= 0 ? (b - 64) * 100 / 64 : -((64 - b) * 100 + 63) / 64);
        else if (r->rpn == 2) r->coarse = (int8_t) (b - 64);
        break;
    case 121:
        r->mod = 0; r->expr = 127; r->pedal = 0; r->bend = 0x2000; r->press = 0; r->rpn = 0x3fff;
        r->sens = 200; r->fine = 0; r->coarse = 0;
        break;
    default: break;
    }
}
static int16_t gain_of(const REF *r, uint16_t m)
{
    int32_t g = (r->vol * r->expr * 2);
    g = (g * g) >> 15;
    return (int16_t) ((g * m) >> 15);
}
static int32_t pitch_of(const REF *r)
{
    int32_t p = (((int32_t) r->bend * 4 - 32768) * r->sens) >> 15;
    return r->rhythm ? p : p + r->fine + 100 * r->coarse;
}
static int same(const S_SYNTH_CHANNEL *c, const REF *r)
{
    return c->bankNum == r->bank && c->pitchBend == (int16_t) r->bend && c->pitchBendSensitivity == r->sens && c->registeredParam == (int16_t) r->rpn
        && c->programNum == r->prog && c->modWheel == r->mod && c->volume == r->vol && c->pan == r->pan && c->expression == r->expr
        && c->finePitch == r->fine && c->coarsePitch == r->coarse && c->channelPressure == r->press && c->regionIndex == r->region
        && c->pool == r->pool && c->mip == r->mip
        && !(c->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL) == !r->pedal && !(c->channelFlags & CHANNEL_FLAG_MUTE) == !r->mute
        && !(c->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL) == !r->rhythm
#ifdef _REVERB
        && c->reverbSend == r->rev
#endif
#ifdef _CHORUS
        && c->chorusSend == r->cho
#endif
        ;
}
static void symbolic(S_SYNTH *p, int own)
{
    int i;
    p->pEAS = &easSoundLib;
    p->synthFlags = nd_bool() ? SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS : 0;
    p->masterVolume = nd_u16();
    ASSUME(p->masterVolume <= 32767);
#ifdef RENDERED
    if (own) { static const uint16_t m[4] = { 0, 1, 0x4000, 0x7fff }; p->masterVolume = m[nd_u8() & 3]; }
#endif
    for (i = 0; i < NC; i++) {
        S_SYNTH_CHANNEL *c = &p->channels[i];
        REF r;
        r.bank = nd_u16() & 0x7f7f; r.bend = nd_u16() & 0x3fff; r.rpn = nd_u16() & 0x3fff;
        r.sens = (nd_u8() & 127) * 100;
        r.mod = nd_u8() & 127; r.vol = nd_u8() & 127; r.pan = nd_u8() & 127; r.expr = nd_u8() & 127; r.press = nd_u8() & 127;
        r.rev = nd_u8() & 127; r.cho = nd_u8() & 127; r.fine = nd_i8(); r.coarse = nd_i8(); r.prog = nd_u8() & 127; r.region = 0;
        ASSUME(r.fine >= -100 && r.fine <= 99 && r.coarse >= -64 && r.coarse <= 63);
#ifdef RENDERED
        /* products of two unrestricted values are beyond the solver: keep one side of each to a few values */
        static const uint8_t few[4] = { 0, 1, 100, 127 }, sn[4] = { 0, 2, 12, 127 };
        if (RENDERED == 0) r.vol = few[nd_u8() & 3];
        if (RENDERED == 1) r.expr = few[nd_u8() & 3];
        if (RENDERED == 2) r.sens = 100 * sn[nd_u8() & 3];
        if (RENDERED == 3) r.bend = few[nd_u8() & 3] * 129;
#endif
        r.pedal = nd_bool(); r.mute = nd_bool(); r.rhythm = nd_bool(); r.pool = i; r.mip = nd_u8() & 127;
        c->bankNum = r.bank; c->pitchBend = r.bend; c->registeredParam = r.rpn; c->pitchBendSensitivity = r.sens;
        c->modWheel = r.mod; c->volume = r.vol; c->pan = r.pan; c->expression = r.expr; c->channelPressure = r.press;
        c->finePitch = r.fine; c->coarsePitch = r.coarse; c->programNum = r.prog; c->regionIndex = r.region; c->pool = r.pool; c->mip = r.mip;
#ifdef _REVERB
        c->reverbSend = r.rev;
#endif
#ifdef _CHORUS
        c->chorusSend = r.cho;
#endif
        c->channelFlags = (r.pedal ? CHANNEL_FLAG_SUSTAIN_PEDAL : 0) | (r.mute ? CHANNEL_FLAG_MUTE : 0) | (r.rhythm ? CHANNEL_FLAG_RHYTHM_CHANNEL : 0);
        /* the derived values are current, or the channel is waiting for an update */
        c->staticGain = nd_i16(); c->staticPitch = nd_i32();
        if (nd_bool()) c->channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
#ifndef RENDERED
        else if (!p->synthFlags) { seen[p == &synB][i] = *c; seen_master[p == &synB][i] = p->masterVolume; }
#endif
        if (own) ref[i] = r;
    }
}

void harness(void)
{
    int i;
    uint8_t q = nd_u8() & (NC - 1);
    EAS_I32 voices = 0, mix[2];
    vm.pGlobalEAS = (S_EAS *) &easSoundLib;
    vm.maxPolyphony = MAX_SYNTH_VOICES;
    synA.vSynthNum = 0; synB.vSynthNum = 1;
    synA.priority = synB.priority = 5;
    vm.pSynth[0] = &synA; vm.pSynth[1] = &synB;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) vm.voices[i].channel = vm.voices[i].nextChannel = UNASSIGNED_SYNTH_CHANNEL;
    symbolic(&synA, S == 0);
    symbolic(&synB, S == 1);
    for (i = 0; i < NC; i++) o0[i] = OTHER.channels[i];
    master = SYN.masterVolume;
    for (i = 0; i < K; i++) {
        uint8_t ch = nd_u8() & (NC - 1), kind = nd_u8() & 3, a = nd_u8() & 127, b = nd_u8() & 127;
        if (kind == 0) VMControlChange(&vm, &SYN, ch, a, b);
        else if (kind == 1) VMPitchBend(&SYN, ch, a, b);
        else if (kind == 2) VMChannelPressure(&SYN, ch, a);
        else { uint16_t v = nd_u16(); ASSUME(v <= 32767); VMSetVolume(&SYN, v); master = v; }
        if (kind < 3) apply(ch, kind, a, b);
#if K > 0
        if (kind == 0 && a == 6 && ref[ch].rpn == 1) REACH("fine tuning");
        if (kind == 0 && a == 121) REACH("reset controllers");
#endif
    }
    CHECK(same(&SYN.channels[q], &ref[q]), "every setting of every channel is what the messages say");
    CHECK(SYN.masterVolume == master, "the stream volume is the one last set");
    CHECK(OTHER.channels[q].staticGain == o0[q].staticGain && OTHER.channels[q].staticPitch == o0[q].staticPitch && OTHER.channels[q].channelFlags == o0[q].channelFlags
        && OTHER.channels[q].volume == o0[q].volume && OTHER.channels[q].pitchBend == o0[q].pitchBend && OTHER.channels[q].expression == o0[q].expression
        && OTHER.channels[q].registeredParam == o0[q].registeredParam && OTHER.channels[q].bankNum == o0[q].bankNum && OTHER.channels[q].pan == o0[q].pan, "the other stream's channels are untouched");
#ifndef RENDERED
    VMRender(&vm, 1, mix, &voices);
    {
        const S_SYNTH_CHANNEL *u = &seen[S][q], *c = &SYN.channels[q];
        CHECK(u->volume == c->volume && u->expression == c->expression && seen_master[S][q] == master, "the gain the voices use follows the settings in force");
        CHECK(u->pitchBend == c->pitchBend && u->pitchBendSensitivity == c->pitchBendSensitivity && u->finePitch == c->finePitch && u->coarsePitch == c->coarsePitch
            && !((u->channelFlags ^ c->channelFlags) & CHANNEL_FLAG_RHYTHM_CHANNEL), "the pitch the voices use follows the settings in force");
    }
#else
    wtSynth.pfUpdateChannel(&vm, &SYN, q);
#if RENDERED < 2
    CHECK(SYN.channels[q].staticGain == gain_of(&ref[q], master), "the channel gain the voices use follows volume, expression and stream volume");
    CHECK(SYN.channels[q].staticGain >= 0 && SYN.channels[q].staticGain <= master, "the channel gain never exceeds the stream volume");
    CHECK((ref[q].vol && ref[q].expr) || SYN.channels[q].staticGain == 0, "volume or expression zero silences the channel");
#else
    CHECK(SYN.channels[q].staticPitch == pitch_of(&ref[q]), "the channel pitch the voices use follows bend, bend range and tuning");
#endif
#endif
    CHECK(same(&SYN.channels[q], &ref[q]), "rendering changes no setting");
    (void) mix; (void) voices;
    REACH("end");
}
