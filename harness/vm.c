/* C16 C17 C18 C20 (and C08's scalable polyphony): one operation of the voice
 * manager from any state that satisfies the representation invariant.
 *
 * The state (voices, channels, counters, limits of two streams) is symbolic;
 * the sample-level synthesizer is replaced by a contract that is itself
 * checked against the real one in C15.  Each job runs one operation (OP). */
#include "verif.h"
#include "eas_data.h"
#include "eas_synth.h"
#include "eas_synth_protos.h"
#include "eas_vm_protos.h"
#include "eas_midictrl.h"
#include "eas_host.h"
#ifdef DLS_SYNTHESIZER
#include "eas_mdls.h"
#endif

#define NV MAX_SYNTH_VOICES
#ifndef NR
#define NR 1
#endif
#define NC NUM_SYNTH_CHANNELS
enum { START, STOP, CTRL, ALLOFF, RESETF, RESETS, MUTEALL, RELALL, SETPOLY, SETSYNTH, RENDER, SHUT, OPEN, MIP, MISC, INIT };

static S_EAS_DATA d;
static S_VOICE_MGR vm;
static S_SYNTH synA, synB;      /* separate objects keep pointers simple for the solver */
#define syn(i) (*((i) ? &synB : &synA))
static S_WT_REGION regs[NR];
static S_PROGRAM progs[1];
const S_EAS easSoundLib = { .identifier = _EAS_LIBRARY_VERSION, .libAttr = _OUTPUT_SAMPLE_RATE | LIB_FORMAT_16_BIT_SAMPLES,
    .pPrograms = progs, .pWTRegions = regs, .numPrograms = 1, .numWTRegions = NR };

/* what the operation asked of the sample-level synthesizer, per voice */
static uint8_t nstart[NV], nrel[NV], nmute[NV], nsus[NV], nupd[NV], ended[NV];
static uint8_t shut;      /* stream number being closed + 1 */

static void who(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n)
{
    CHECK(m == &vm && n >= 0 && n < NV && v == &vm.voices[n], "a synthesizer call names an existing voice");
    CHECK(v->voiceState != eVoiceStateFree, "no synthesizer call for a free voice");
    CHECK(GET_VSYNTH(v->channel) < 2 && s == &syn(GET_VSYNTH(v->channel)) && (vm.pSynth[GET_VSYNTH(v->channel)] == s || shut == GET_VSYNTH(v->channel) + 1),
        "a synthesizer call names the open stream that owns the voice");
}
static EAS_RESULT s_init(S_VOICE_MGR *m) { (void) m; return EAS_SUCCESS; }
static EAS_RESULT s_start(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_U16 r)
{
    who(m, s, v, n);
    nstart[n]++;
    v->regionIndex = r;
    v->voiceFlags = VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET;
    v->gain = 0;
    s->channels[v->channel & 15].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    return EAS_SUCCESS;
}
static EAS_BOOL s_update(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_I32 *mix, EAS_I32 num)
{
    uint8_t done = nd_bool();
    (void) mix; (void) num;
    who(m, s, v, n);
    nupd[n]++;
    v->voiceFlags &= ~VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET;
    v->gain = nd_i16();
    ended[n] = done;
    return done ? EAS_TRUE : EAS_FALSE;
}
static void s_release(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n) { who(m, s, v, n); nrel[n]++; }
static void s_mute(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n)
{
    who(m, s, v, n);
    nmute[n]++;
    v->voiceFlags &= ~(VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF | VOICE_FLAG_DEFER_MUTE);
}
static void s_sustain(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, S_SYNTH_CHANNEL *c, EAS_I32 n)
{
    who(m, s, v, n);
    CHECK(c == &s->channels[v->channel & 15], "the sustain pedal of the voice's own channel is used");
    nsus[n]++;
    if (nd_bool()) { v->voiceState = eVoiceStatePlay; v->voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF; }
}
static void s_chan(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 c)
{
    CHECK(m == &vm && (s == &syn(0) || s == &syn(1)) && c < NC, "a channel update names an existing channel");
    s->channels[c].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
}
const S_SYNTH_INTERFACE wtSynth = { s_init, s_start, s_update, s_release, s_mute, s_sustain, s_chan };

/* services the operation may use */
static int dls_refs, freed;
#ifdef DLS_SYNTHESIZER
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE h, S_DLS *p) { (void) h; (void) p; dls_refs--; return EAS_SUCCESS; }
void DLSAddRef(S_DLS *p) { (void) p; dls_refs++; }
#endif
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n)
{
    int i;
    (void) h;
    CHECK(n == (EAS_I32) sizeof(S_SYNTH), "a stream's synthesizer state is allocated at its size");
    for (i = 0; i < 2; i++) if (vm.pSynth[i] != &syn(i)) return &syn(i);
    return NULL;
}
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { (void) h; freed++; CHECK(p == &syn(0) || p == &syn(1), "only stream state is freed"); }
void *EAS_HWMemSet(void *p, int c, EAS_I32 n)
{
    CHECK((p == &syn(0) || p == &syn(1)) && c == 0 && n == (EAS_I32) sizeof(S_SYNTH), "stream state is cleared");
    *(S_SYNTH *) p = (S_SYNTH) { 0 };
    return p;
}
void *EAS_CMEnumData(EAS_INT m) { (void) m; return NULL; }

/* ---- representation invariant ---- */
static int eff(const S_SYNTH_VOICE *v) { return v->voiceState == eVoiceStateStolen ? v->nextChannel : v->channel; }
typedef struct { uint16_t act, num[2]; uint8_t pool[2][NUM_SYNTH_CHANNELS]; } CNT;
static void count(CNT *c)
{
    int i;
    *c = (CNT) { 0 };
    for (i = 0; i < NV; i++) {
        S_SYNTH_VOICE *v = &vm.voices[i];
        if (v->voiceState == eVoiceStateFree) continue;
        c->act++;
        c->num[GET_VSYNTH(v->channel) & 1]++;
        if (v->voiceState != eVoiceStateMuting)
            c->pool[GET_VSYNTH(eff(v)) & 1][syn(GET_VSYNTH(eff(v)) & 1).channels[eff(v) & (NC - 1)].pool & (NC - 1)]++;
    }
}
static int alive(int s) { return s < 2 && vm.pSynth[s] == &syn(s); }

/* a sounding note with an early note-off of which its stream has not been told */
static int early(const S_SYNTH_VOICE *v)
{
    return v->voiceState >= eVoiceStateStart && v->voiceState <= eVoiceStateRelease && (v->voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
        && !(syn(GET_VSYNTH(v->channel) & 1).synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING);
}

static uint8_t chan(void) { return (nd_u8() & (NC - 1)) | (nd_bool() << 4); }
static void symbolic_state(int two)
{
    int i, s;
    CNT c;
    vm.pGlobalEAS = (S_EAS *) &easSoundLib;
    vm.maxPolyphony = nd_u8();
    ASSUME(vm.maxPolyphony >= 1 && vm.maxPolyphony <= NV);
    vm.age = nd_u16();
    d.pVoiceMgr = &vm;
    for (s = 0; s < 2; s++) {
        S_SYNTH *p = &syn(s);
        for (i = 0; i < NUM_SYNTH_CHANNELS; i++) {
            S_SYNTH_CHANNEL *ch = &p->channels[i];
            ch->channelFlags = nd_u8() & 0x0f;
            ch->pool = nd_u8() & (NC - 1);
            ch->mip = nd_u8() & 127;
            ch->regionIndex = nd_u8() & (NR - 1);
            ch->volume = i; ch->pan = 64; ch->bankNum = DEFAULT_MELODY_BANK_NUMBER;
            p->poolAlloc[i] = nd_u8();
        }
        p->pEAS = &easSoundLib;
        p->maxPolyphony = nd_u8();
        ASSUME(p->maxPolyphony <= NV);
        p->masterVolume = nd_u16();
        p->synthFlags = nd_u8() & 0x0f;
        p->globalTranspose = nd_i8();
        ASSUME(p->globalTranspose >= -12 && p->globalTranspose <= 12);
        p->vSynthNum = s;
        p->refCount = 1;
        p->priority = nd_u8();
        ASSUME(p->priority >= 1 && p->priority <= 15);
        p->totalNoteCount = nd_u16();
        vm.pSynth[s] = (s == 0 || two) ? p : NULL;
    }
    for (i = 0; i < NR; i++) {
        regs[i].region.keyGroupAndFlags = nd_u16() & 0x8f43;
        regs[i].region.rangeLow = nd_u8();
        regs[i].region.rangeHigh = nd_u8();
    }
    regs[NR - 1].region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
    progs[0].locale = (DEFAULT_MELODY_BANK_NUMBER << 8);
    progs[0].regionIndex = nd_u8() & (NR - 1);
    for (i = 0; i < NV; i++) {
        S_SYNTH_VOICE *v = &vm.voices[i];
        v->voiceState = nd_u8();
        ASSUME(v->voiceState <= eVoiceStateStolen);
        v->voiceFlags = nd_u8() & 0x4f;
        v->gain = nd_i16();
        if (v->voiceState == eVoiceStateFree) {
            v->channel = v->nextChannel = UNASSIGNED_SYNTH_CHANNEL;
            v->note = v->nextNote = DEFAULT_KEY_NUMBER;
            v->velocity = v->nextVelocity = DEFAULT_VELOCITY;
            v->regionIndex = DEFAULT_REGION_INDEX;
            v->nextRegionIndex = nd_u8() & (NR - 1);
            v->age = nd_u16();
            v->voiceFlags &= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;
        } else {
            v->channel = chan();
            v->note = nd_u8() & 127; v->velocity = nd_u8() & 127;
            v->nextNote = nd_u8() & 127; v->nextVelocity = nd_u8() & 127;
            v->regionIndex = nd_u8() & (NR - 1);
            v->nextRegionIndex = nd_u8() & (NR - 1);
            v->age = nd_u16();
            v->nextChannel = UNASSIGNED_SYNTH_CHANNEL;
            if (v->voiceState >= eVoiceStateMuting) v->nextChannel = chan();
            if (!two) ASSUME(v->channel < 16 && (v->voiceState != eVoiceStateStolen || v->nextChannel < 16));
            if (v->voiceState == eVoiceStateStolen || v->voiceState == eVoiceStateStart)
                ASSUME(!(v->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) || v->voiceState == eVoiceStateStart);
        }
    }
    for (i = 0; i < NV; i++) ASSUME(!early(&vm.voices[i]));
    count(&c);
    vm.activeVoices = c.act;
    for (s = 0; s < 2; s++) {
        if (!vm.pSynth[s]) continue;
        syn(s).numActiveVoices = c.num[s];
        for (i = 0; i < NUM_SYNTH_CHANNELS; i++) syn(s).poolCount[i] = c.pool[s][i];
    }
}

static void check_invariant(void)
{
    int i, s;
    CNT c;
    count(&c);
    for (i = 0; i < NV; i++) {
        S_SYNTH_VOICE *v = &vm.voices[i];
        CHECK(v->voiceState <= eVoiceStateStolen, "every voice is in a defined state");
        if (v->voiceState == eVoiceStateFree) {
            CHECK(v->channel == UNASSIGNED_SYNTH_CHANNEL && v->nextChannel == UNASSIGNED_SYNTH_CHANNEL, "a free voice belongs to no stream");
            CHECK(!(v->voiceFlags & ~VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF), "a free voice has nothing pending");
        } else {
            CHECK(!early(v), "an early note-off of a sounding note is announced to its stream");
            CHECK(alive(GET_VSYNTH(v->channel)), "every voice in use belongs to an open stream");
            CHECK(v->voiceState != eVoiceStateStolen || alive(GET_VSYNTH(v->nextChannel)), "every pending note belongs to an open stream");
        }
    }
    CHECK(vm.activeVoices == c.act, "the number of voices in use is exact");
    for (s = 0; s < 2; s++) {
        if (!alive(s)) continue;
        CHECK(syn(s).numActiveVoices == c.num[s], "the number of voices of a stream is exact");
#ifndef NOPOOL
        for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
            CHECK(syn(s).poolCount[i] == c.pool[s][i], "the number of voices of a priority pool is exact");
#endif
    }
}

/* ---- snapshots for the frame properties ---- */
static S_SYNTH_VOICE v0[NV];
static S_SYNTH s0[2];
static uint16_t act0;

static int same_note(const S_SYNTH_VOICE *a, const S_SYNTH_VOICE *b)
{
    return a->voiceState == b->voiceState && a->channel == b->channel && a->nextChannel == b->nextChannel
        && a->note == b->note && a->nextNote == b->nextNote && a->velocity == b->velocity && a->nextVelocity == b->nextVelocity
        && a->regionIndex == b->regionIndex && a->voiceFlags == b->voiceFlags && a->gain == b->gain;
}
static int same_channel(const S_SYNTH_CHANNEL *a, const S_SYNTH_CHANNEL *b)
{
    uint8_t m = OP == RESETF || OP == SHUT ? ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS : 0xff;
    return (a->channelFlags & m) == (b->channelFlags & m) && a->regionIndex == b->regionIndex && a->bankNum == b->bankNum
        && a->pitchBend == b->pitchBend && a->pitchBendSensitivity == b->pitchBendSensitivity && a->registeredParam == b->registeredParam
        && a->programNum == b->programNum && a->modWheel == b->modWheel && a->volume == b->volume && a->pan == b->pan
        && a->expression == b->expression && a->finePitch == b->finePitch && a->coarsePitch == b->coarsePitch
        && a->channelPressure == b->channelPressure && a->pool == b->pool && a->mip == b->mip
        && a->staticGain == b->staticGain && a->staticPitch == b->staticPitch
#ifdef _REVERB
        && a->reverbSend == b->reverbSend
#endif
#ifdef _CHORUS
        && a->chorusSend == b->chorusSend
#endif
        ;
}
static int touched(int i) { return nstart[i] | nrel[i] | nmute[i] | nsus[i] | nupd[i]; }

/* C20: stream s operated; the other stream must be as before */
static void check_isolation(int s)
{
    int o = 1 - s, i;
    uint8_t k = nd_u8() & (NC - 1);
    CHECK(same_channel(&s0[o].channels[k], &syn(o).channels[k]), "another stream's channels are untouched");
    CHECK(syn(o).masterVolume == s0[o].masterVolume && syn(o).maxPolyphony == s0[o].maxPolyphony && syn(o).priority == s0[o].priority
        && syn(o).globalTranspose == s0[o].globalTranspose && ((syn(o).synthFlags ^ s0[o].synthFlags) & (OP == RESETF || OP == SHUT ? ~SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING : 0xff)) == 0
        && syn(o).totalNoteCount == s0[o].totalNoteCount && syn(o).refCount == s0[o].refCount
        && syn(o).poolAlloc[k] == s0[o].poolAlloc[k], "another stream's settings are untouched");
    for (i = 0; i < NV; i++) {
        const S_SYNTH_VOICE *a = &v0[i], *b = &vm.voices[i];
        if (a->voiceState == eVoiceStateFree) {
            CHECK(b->voiceState == eVoiceStateFree || GET_VSYNTH(eff(b)) == s, "a free voice is only taken for the operated stream");
            continue;
        }
        if (GET_VSYNTH(eff(a)) != o) continue;
        if (OP == START && b->voiceState == eVoiceStateStolen && GET_VSYNTH(b->nextChannel) == s) {
            CHECK(syn(s).priority <= syn(o).priority, "a stream takes over voices only of streams of no higher priority");
            continue;
        }
        if ((OP == RESETF || OP == SHUT) && a->voiceState == eVoiceStateStolen && GET_VSYNTH(a->channel) == s) {
            CHECK(b->voiceState == eVoiceStateStart && b->channel == a->nextChannel && b->note == a->nextNote && b->velocity == a->nextVelocity
                || (b->voiceState == eVoiceStateFree && (s0[o].synthFlags & SYNTH_FLAG_SP_MIDI_ON) && (s0[o].channels[a->nextChannel & 15].channelFlags & CHANNEL_FLAG_MUTE)),
                "a note of another stream that waits for a voice of the closed stream is started");
            continue;
        }
        CHECK(same_note(a, b) && !touched(i), "another stream's notes are untouched");
    }
}

#ifndef OP
#define OP START
#endif
#ifndef S
#define S nd_bool()
#endif
#ifndef CH
#define CH (nd_u8() & (NC - 1))
#endif
#ifndef TWO
#define TWO 1
#endif

void harness(void)
{
    int i, s;
    uint8_t ch, note, vel;
    uint16_t live0 = 0, own0 = 0, own1 = 0, live1 = 0, lim;
    symbolic_state(TWO);
    s = S;
    ch = CH; note = nd_u8() & 127; vel = nd_u8() & 127;
    for (i = 0; i < NV; i++) {
        v0[i] = vm.voices[i];
        if (v0[i].voiceState != eVoiceStateFree && v0[i].voiceState != eVoiceStateMuting) {
            live0++;
            if (GET_VSYNTH(eff(&v0[i])) == s) own0++;
        }
    }
    s0[0] = syn(0); s0[1] = syn(1);
    act0 = vm.activeVoices;
#if OP == 0
        VMStartNote(&vm, &syn(s), ch, note, vel);
#elif OP == 1
        VMStopNote(&vm, &syn(s), ch, note, vel);
#elif OP == 2
        static const uint8_t cc[] = { 0, 1, 6, 7, 10, 11, 32, 38, 64, 91, 93, 98, 99, 100, 101, 121, 80, 2 };
        uint8_t k = nd_u8(); ASSUME(k < sizeof cc);
        VMControlChange(&vm, &syn(s), ch, cc[k], vel);
#elif OP == 3
        VMAllNotesOff(&vm, &syn(s), ch);
#elif OP == 4
        VMReset(&vm, &syn(s), EAS_TRUE);
#elif OP == 5
        VMReset(&vm, &syn(s), EAS_FALSE);
#elif OP == 6
        VMMuteAllVoices(&vm, &syn(s));
#elif OP == 7
        VMReleaseAllVoices(&vm, &syn(s));
#elif OP == 8
        EAS_I32 n = nd_i32(); EAS_RESULT r = VMSetPolyphony(&vm, &syn(s), n);
        CHECK((r == EAS_SUCCESS) == (n >= 0), "a negative stream polyphony is refused, everything else accepted");
#elif OP == 9
        EAS_I32 n = nd_i32(); EAS_RESULT r = VMSetSynthPolyphony(&vm, EAS_MCU_SYNTH, n);
        CHECK(r == EAS_SUCCESS, "a global polyphony is pinned to the supported range, not refused");
#elif OP == 10
        EAS_I32 voices = 0, mix[2];
        VMRender(&vm, 1, mix, &voices);
#elif OP == 11
        d.staticMemoryModel = EAS_FALSE; shut = s + 1;
        VMMIDIShutdown(&d, &syn(s));
#elif OP == 12
        S_SYNTH *out = NULL; d.staticMemoryModel = EAS_FALSE;
        EAS_RESULT r = VMInitMIDI(&d, &out);
#elif OP == 13
        VMMIPUpdateChannelMuting(&vm, &syn(s));
#elif OP == 14
        switch (nd_u8() & 7) {
        case 0: VMProgramChange(&vm, &syn(s), ch, vel); break;
        case 1: VMPitchBend(&syn(s), ch, note, vel); break;
        case 2: VMChannelPressure(&syn(s), ch, vel); break;
        case 3: VMSetVolume(&syn(s), vel); break;
        case 4: VMSetPriority(&vm, &syn(s), vel); break;
        case 5: VMSetTranposition(&syn(s), vel); break;
        case 6: VMResetControllers(&syn(s)); break;
        default: VMSetPitchBendRange(&syn(s), ch, vel); break;
        }
#endif
    for (i = 0; i < NV; i++) {
        S_SYNTH_VOICE *v = &vm.voices[i];
        if (v->voiceState != eVoiceStateFree && v->voiceState != eVoiceStateMuting) {
            live1++;
            if (GET_VSYNTH(eff(v)) == s) own1++;
        }
    }
#ifdef P16
    check_invariant();
#if OP == 11
    CHECK(vm.pSynth[s] == NULL && freed == 1, "a closed stream's synthesizer state is released");
#endif
#if OP == 4
    CHECK(own1 == 0, "a forced reset silences every note of the stream");
#endif
#if OP == 5 || OP == 6
    CHECK(own1 == 0, "a reset silences every note of the stream");
#endif
#endif
#ifdef P17
#if OP == 0
    lim = vm.maxPolyphony;
    CHECK(vm.activeVoices <= act0 || vm.activeVoices <= lim, "a new note does not exceed the global polyphony limit");
    if (act0 <= lim) CHECK(live1 <= live0 || live1 <= lim, "a new note does not raise the sounding voices above the global limit");
    if (syn(s).maxPolyphony && syn(s).maxPolyphony < lim) lim = syn(s).maxPolyphony;
    CHECK(syn(s).numActiveVoices <= s0[s].numActiveVoices || syn(s).numActiveVoices <= lim, "a new note does not claim a free voice beyond the stream's limit");
    for (i = 0; i < NV; i++) {
        const S_SYNTH_VOICE *a = &v0[i], *b = &vm.voices[i];
        if (nstart[i]) CHECK(a->voiceState == eVoiceStateFree && nstart[i] == 1 && b->voiceState == eVoiceStateStart
            && b->channel == (ch | s << 4) && b->note == note && b->velocity == vel, "a note starts on a voice that was free");
        if (b->voiceState == eVoiceStateStolen && (a->voiceState != eVoiceStateStolen || a->nextChannel != b->nextChannel || a->nextNote != b->nextNote))
            CHECK(nmute[i] && b->nextChannel == (ch | s << 4) && b->nextNote == note && b->nextVelocity == vel && b->channel == a->channel && a->voiceState != eVoiceStateFree,
                "a voice that is taken over fades out and remembers the new note");
    }
#endif
#if OP == 8
    lim = syn(s).maxPolyphony;
    if (n == 0 || n > NV) CHECK(lim == 0, "a limit of zero or above the supported range means no limit");
    else if (n > 0) CHECK(lim == n, "the stream's polyphony limit reads back");
    else CHECK(lim == s0[s].maxPolyphony, "a refused limit changes nothing");
    if (n > 0 && n <= NV) {
        if (s0[s].numActiveVoices > n) CHECK(own1 <= n, "lowering a stream's limit silences its surplus voices");
        if (!(syn(s).synthFlags & SYNTH_FLAG_SP_MIDI_ON)) CHECK(own1 == own0 || own1 >= n || own1 >= vm.maxPolyphony, "no more voices are silenced than the limit requires");
    }
#endif
#if OP == 9
    CHECK(vm.maxPolyphony == (n < 1 ? 1 : n > NV ? NV : n), "the global polyphony is the requested one, pinned to the supported range");
    if (!((syn(0).synthFlags | syn(1).synthFlags) & SYNTH_FLAG_SP_MIDI_ON)) {
        CHECK(s0[0].numActiveVoices + s0[1].numActiveVoices < live0 || vm.maxPolyphony == 0 || live1 <= vm.maxPolyphony || live0 == live1, "lowering the global limit silences surplus voices");
        CHECK(live1 == live0 || live1 >= vm.maxPolyphony, "no more voices are silenced than the limit requires");
    }
#endif
#endif
#ifdef P18
    for (i = 0; i < NV; i++) {
        const S_SYNTH_VOICE *a = &v0[i];
        S_SYNTH_VOICE *b = &vm.voices[i];
        int key = a->voiceState != eVoiceStateFree && eff(a) == (ch | s << 4);
        uint8_t was = s0[s].channels[ch].channelFlags;
#if OP == 1
        int hit = key && (a->voiceState == eVoiceStateStolen ? a->nextNote : a->note) == note;
        if (!hit) { if (a->voiceState != eVoiceStateFree) CHECK(same_note(a, b) && !touched(i), "a note-off touches no other note"); }
        else if (a->voiceState == eVoiceStateStolen) CHECK((b->voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && b->voiceState == eVoiceStateStolen && !touched(i), "a note-off for a note still waiting for its voice is remembered");
        else if (a->voiceState == eVoiceStateStart || a->voiceState == eVoiceStatePlay) {
            if (was & CHANNEL_FLAG_SUSTAIN_PEDAL) CHECK((b->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) && b->voiceState == a->voiceState && !touched(i), "with the pedal down a note-off is deferred");
            else if (a->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET) CHECK((b->voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && (syn(s).synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING) && b->voiceState == a->voiceState && !nrel[i], "a note-off before the first buffer is remembered");
            else CHECK(b->voiceState == eVoiceStateRelease && nrel[i] == 1 && !nmute[i], "a note-off releases the note");
        } else CHECK(b->voiceState == a->voiceState && !nstart[i], "a note already ending keeps ending");
#elif OP == 2
        if (cc[k] == MIDI_CONTROLLER_RESET_CONTROLLERS) CHECK(!(syn(s).channels[ch].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL), "resetting the controllers lifts the pedal");
        if (cc[k] == MIDI_CONTROLLER_RESET_CONTROLLERS && key && (was & CHANNEL_FLAG_SUSTAIN_PEDAL) && (a->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF)) {
            if (a->voiceState == eVoiceStateStart || a->voiceState == eVoiceStatePlay) CHECK(b->voiceState == eVoiceStateRelease && nrel[i] == 1, "lifting the pedal by a controller reset releases the deferred notes");
        } else if (cc[k] != MIDI_CONTROLLER_SUSTAIN_PEDAL) {
            CHECK(a->voiceState == eVoiceStateFree || (same_note(a, b) && !touched(i)), "other controllers neither start nor end notes");
            if (cc[k] == MIDI_CONTROLLER_RESET_CONTROLLERS) ; else CHECK(((syn(s).channels[ch].channelFlags ^ was) & CHANNEL_FLAG_SUSTAIN_PEDAL) == 0, "only the pedal changes the pedal");
        } else if (!key || a->voiceState == eVoiceStateStolen) CHECK(a->voiceState == eVoiceStateFree || (same_note(a, b) && !touched(i)), "the pedal affects only its channel's notes");
        else if (vel < 64) {
            CHECK(!(syn(s).channels[ch].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL), "the pedal is up");
            if ((was & CHANNEL_FLAG_SUSTAIN_PEDAL) && (a->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) && (a->voiceState == eVoiceStateStart || a->voiceState == eVoiceStatePlay))
                CHECK(b->voiceState == eVoiceStateRelease && nrel[i] == 1, "releasing the pedal releases the deferred notes");
            else if (!(a->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF)) CHECK(same_note(a, b) && !touched(i), "releasing the pedal leaves held keys sounding");
        } else {
            CHECK(syn(s).channels[ch].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL, "the pedal is down");
            if (a->voiceState != eVoiceStateRelease) CHECK(same_note(a, b) && !touched(i), "pressing the pedal leaves notes that are not releasing alone");
            else CHECK((!(was & CHANNEL_FLAG_SUSTAIN_PEDAL)) == (nsus[i] == 1), "pressing the pedal offers it once to releasing notes");
        }
#elif OP == 3
        if (!key) CHECK(a->voiceState == eVoiceStateFree || (same_note(a, b) && !touched(i)), "all-notes-off affects only its channel");
        else CHECK(b->voiceState == eVoiceStateMuting, "all-notes-off silences every note of its channel");
#elif OP == 7
        key = a->voiceState != eVoiceStateFree && GET_VSYNTH(eff(a)) == s;
        if (!key) CHECK(a->voiceState == eVoiceStateFree || (same_note(a, b) && !touched(i)), "releasing a stream affects only its notes");
        else if (a->voiceState == eVoiceStateStart || a->voiceState == eVoiceStatePlay) CHECK(b->voiceState == eVoiceStateRelease && nrel[i] == 1, "releasing a stream releases every note");
        else if (a->voiceState == eVoiceStateStolen) CHECK(b->voiceState == eVoiceStateMuting, "releasing a stream drops notes still waiting");
        else CHECK(b->voiceState == a->voiceState, "notes already ending keep ending");
#elif OP == 10
        /* what the buffer does with a note-off that came early */
        if (a->voiceState == eVoiceStateStart || a->voiceState == eVoiceStatePlay) {
            int q = a->channel;
            int pend = (a->voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && (s0[q >> 4].synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING);
            if (a->voiceFlags & VOICE_FLAG_DEFER_MUTE) CHECK(b->voiceState == eVoiceStateMuting || b->voiceState == eVoiceStateFree, "a note cut by its key group ends after its first buffer");
            else if (!pend) CHECK(!nrel[i] && !nmute[i] && (b->voiceState == eVoiceStateFree || (b->voiceState == eVoiceStatePlay && b->note == a->note && b->channel == q)), "a held note keeps sounding");
            else if (ended[i]) CHECK(b->voiceState == eVoiceStateFree, "a finished voice is freed");
            else if (s0[q >> 4].channels[q & 15].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL) CHECK(!nrel[i] && (b->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) && b->voiceState == eVoiceStatePlay, "an early note-off under the pedal becomes a deferred one");
            else CHECK(nrel[i] == 1 && b->voiceState == eVoiceStateRelease, "an early note-off takes effect after the first buffer");
        }
        if (a->voiceState == eVoiceStateStolen && nstart[i]) {
            CHECK(b->voiceState == eVoiceStateFree || (b->channel == a->nextChannel && b->note == a->nextNote && b->velocity == a->nextVelocity), "a voice that was taken over plays the note it was taken for");
            if ((a->voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && !(a->voiceFlags & VOICE_FLAG_DEFER_MUTE) && !ended[i])
                CHECK(nrel[i] == 1 || (b->voiceFlags & (VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF)), "a note-off for a waiting note is not lost");
        }
        if (a->voiceState == eVoiceStateMuting) CHECK(b->voiceState == (ended[i] ? eVoiceStateFree : eVoiceStateMuting) && !nstart[i] && nupd[i], "a muted voice is freed when its fade has ended");
#endif
    }
#endif
#ifdef P20
    if (OP != OPEN && OP != SETSYNTH && OP != RENDER) check_isolation(s);
#endif
#if OP != 1 && OP != 2 && OP != 12 && OP != 14
    if (live1 != live0) REACH("the operation can change the number of sounding notes");
#endif
    REACH("end");
}
