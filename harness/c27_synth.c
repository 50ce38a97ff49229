/* C26 C27: the life of synthesizers and of the sound collections they use, in the
 * real voice manager (start-up, opening, sharing, collections, closing, shut-down):
 * any sequence of calls, with any allocation failing, against a reference count. */
#include "verif.h"
#include "eas_data.h"
#include "eas_synth.h"
#include "eas_synth_protos.h"
#include "eas_vm_protos.h"
#include "eas_host.h"
#include "eas_mdls.h"

static S_EAS_DATA d;
static S_VOICE_MGR vm;
static S_SYNTH synA, synB;
static S_WT_REGION regs[1];
static S_PROGRAM progs[1];
const S_EAS easSoundLib = { .identifier = _EAS_LIBRARY_VERSION, .libAttr = _OUTPUT_SAMPLE_RATE | LIB_FORMAT_16_BIT_SAMPLES,
    .pPrograms = progs, .pWTRegions = regs, .numPrograms = 1, .numWTRegions = 1 };
static int up, memA, memB, nomem;
static int dlsrefs, dlsfreed;
static S_DLS dls;

static EAS_RESULT s_init(S_VOICE_MGR *m) { CHECK(m == &vm, "the synthesizer starts with its voice manager"); return EAS_SUCCESS; }
static EAS_RESULT s_start(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_U16 r) { CHECK(0, "no note starts"); return EAS_SUCCESS; }
static EAS_BOOL s_update(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_I32 *mix, EAS_I32 num) { return EAS_FALSE; }
static void s_release(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n) { }
static void s_sustain(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, S_SYNTH_CHANNEL *c, EAS_I32 n) { }
static void s_chan(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 c) { }
const S_SYNTH_INTERFACE wtSynth = { s_init, s_start, s_update, s_release, s_release, s_sustain, s_chan };
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE h, S_DLS *p) { CHECK(p == &dls && dlsrefs > 0, "a collection is released once per use"); if (--dlsrefs == 0) dlsfreed++; return EAS_SUCCESS; }
void DLSAddRef(S_DLS *p) { CHECK(p == &dls && dlsrefs > 0, "only a loaded collection is used"); dlsrefs++; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n)
{
    if (nomem) return NULL;
    if (n == sizeof(S_VOICE_MGR)) { CHECK(!up, "one voice manager"); up = 1; return &vm; }
    CHECK(n == sizeof(S_SYNTH), "a synthesizer is allocated at its size");
    if (!memA) { memA = 1; return &synA; }
    if (!memB) { memB = 1; return &synB; }
    CHECK(0, "no more synthesizers than the table holds"); return NULL;
}
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p)
{
    if (p == &vm) { CHECK(up, "the voice manager is freed once"); up = 0; }
    else if (p == &synA) { CHECK(memA, "a synthesizer is freed once"); memA = 0; }
    else { CHECK(p == &synB && memB, "a synthesizer is freed once"); memB = 0; }
}
static S_VOICE_MGR zvm; static S_SYNTH zsyn;
void *EAS_HWMemSet(void *p, int c, EAS_I32 n)
{
    CHECK(c == 0, "memory is cleared");
    if (p == &vm) vm = zvm; else if (p == &synA) synA = zsyn; else if (p == &synB) synB = zsyn; else CHECK(0, "only owned memory is cleared");
    return p;
}
void *EAS_CMEnumData(EAS_INT m) { return NULL; }

/* model: references held by streams on each synthesizer, whether it uses the collection;
 * synthesizer A has the first place in the table, B the second (the order of allocation
 * is the host's) */
static int ref[2], uses[2], glob;
static void inv1(S_SYNTH *s, int i, int mem)
{
    CHECK(mem == (ref[i] > 0), "a synthesizer exists exactly while a stream plays it");
    CHECK(vm.pSynth[i] == (ref[i] ? s : NULL), "a synthesizer is listed exactly while a stream plays it");
    if (ref[i]) {
        CHECK(s->refCount == ref[i], "a synthesizer counts the streams that play it");
        CHECK(s->vSynthNum == i, "a synthesizer knows its place");
        CHECK(s->pDLS == (uses[i] ? &dls : NULL), "a synthesizer uses its collection");
        CHECK(s->numActiveVoices == 0 && s->pEAS == &easSoundLib, "a synthesizer is silent, with the built-in sounds");
    }
}
static void invariant(void)
{
    inv1(&synA, 0, memA); inv1(&synB, 1, memB);
    CHECK(vm.pGlobalDLS == (glob ? &dls : NULL), "the global collection");
    CHECK(dlsrefs == 1 + glob + (ref[0] && uses[0]) + (ref[1] && uses[1]), "a collection is held once by every user");
}
/* the settings of a channel after power-on or a GM reset */
static void fresh(S_SYNTH *s)
{
    int c;
    for (c = 0; c < NUM_SYNTH_CHANNELS; c++) {
        S_SYNTH_CHANNEL *k = &s->channels[c];
        CHECK(k->volume == 100 && k->pan == 64 && k->expression == 127 && k->modWheel == 0 && k->channelPressure == 0, "controllers are at their defaults");
        CHECK(k->pitchBend == 0x2000 && k->pitchBendSensitivity == 200 && k->finePitch == 0 && k->coarsePitch == 0 && k->registeredParam == 0x3fff, "the pitch is untouched");
        CHECK(k->programNum == 0 && k->bankNum == (c == 9 ? 0x7800 : 0x7900), "program 0 of the melodic, or on channel 10 the rhythm, bank is selected");
        CHECK(((k->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL) != 0) == (c == 9), "channel 10 is the rhythm channel");
        CHECK(!(k->channelFlags & (CHANNEL_FLAG_SUSTAIN_PEDAL | CHANNEL_FLAG_MUTE)), "no pedal is down and no channel muted");
        CHECK(k->pool == 0 && s->poolCount[c] == 0 && (c || s->poolAlloc[0] == MAX_SYNTH_VOICES), "every channel shares all voices");
        CHECK((s->synthFlags & SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS) || (k->channelFlags & CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS), "the channel's gain and pitch are worked out before they are used");
    }
    CHECK(!(s->synthFlags & SYNTH_FLAG_RESET_IS_REQUESTED), "no reset is waiting");
}
static void give(S_SYNTH *s, int i, int mem)
{
    s->pEAS = &easSoundLib; s->refCount = ref[i]; s->vSynthNum = i; s->priority = 5; s->masterVolume = 0x7fff;
    s->pDLS = uses[i] ? &dls : NULL; vm.pSynth[i] = ref[i] ? s : NULL;
}
static void state(void)
{
    int i;
    ref[0] = nd_u8max(4); ref[1] = nd_u8max(4); uses[0] = nd_bool(); uses[1] = nd_bool(); glob = nd_bool();
    d.staticMemoryModel = EAS_FALSE; d.pVoiceMgr = &vm; up = 1;
    vm.pGlobalEAS = (S_EAS *) &easSoundLib; vm.maxPolyphony = MAX_SYNTH_VOICES;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) vm.voices[i].channel = vm.voices[i].nextChannel = UNASSIGNED_SYNTH_CHANNEL;
    give(&synA, 0, 1); give(&synB, 1, 1); memA = ref[0] > 0; memB = ref[1] > 0;
    vm.pGlobalDLS = glob ? &dls : NULL;
    dlsrefs = 1 + glob + (ref[0] && uses[0]) + (ref[1] && uses[1]);
    invariant();
}
void harness(void)
{
    int i; S_SYNTH *s; EAS_RESULT r;
#if OP == 0         /* starting and stopping the voice manager */
    nomem = nd_bool();
    r = VMInitialize(&d);
    if (nomem) { CHECK(r != EAS_SUCCESS && !up && !d.pVoiceMgr, "without memory there is no voice manager"); REACH("no memory"); return; }
    CHECK(r == EAS_SUCCESS && d.pVoiceMgr == &vm && vm.maxPolyphony == MAX_SYNTH_VOICES && vm.activeVoices == 0, "the voice manager starts with every voice free");
    for (i = 0; i < MAX_SYNTH_VOICES; i++) CHECK(vm.voices[i].voiceState == eVoiceStateFree && vm.voices[i].channel == UNASSIGNED_SYNTH_CHANNEL && vm.voices[i].nextChannel == UNASSIGNED_SYNTH_CHANNEL, "every voice starts free");
    dlsrefs = 1; invariant();
    if (nd_bool()) { DLSAddRef(&dls); VMSetGlobalDLSLib(&d, &dls); glob = 1; invariant(); }
    VMShutdown(&d);
    CHECK(!up && d.pVoiceMgr == NULL, "shutting down frees the voice manager");
    CHECK(dlsrefs == 1, "shutting down gives up the global collection");
    VMShutdown(&d);
    CHECK(!up, "there is nothing left to shut down");
#elif OP == 1       /* a new synthesizer */
    int a, b;
    state(); nomem = nd_bool(); a = ref[0]; b = ref[1]; s = (S_SYNTH *) &d;
#ifdef FIRST
    ASSUME(a == 0);
#else
    ASSUME(a != 0);
#endif
    r = VMInitMIDI(&d, &s);
    CHECK((r == EAS_SUCCESS) == (!nomem && (!a || !b)), "a synthesizer is made exactly when there is room and memory");
    if (r == EAS_SUCCESS) {
        i = !a ? 0 : 1; CHECK(s == (!a ? &synA : &synB), "a new synthesizer is nobody else's"); ref[i] = 1; uses[i] = glob; REACH("made");
        fresh(i ? &synB : &synA);
        CHECK(s->totalNoteCount == 0 && !(s->synthFlags & SYNTH_FLAG_SP_MIDI_ON), "a new synthesizer has played nothing");
        CHECK(s->masterVolume == 0x7fff && s->maxPolyphony == 0 && s->globalTranspose == 0 && s->priority == 5, "a new synthesizer has the default settings");
    } else { CHECK(s == NULL, "a failure yields no synthesizer"); REACH("refused"); }
    invariant();
#elif OP == 2       /* sharing, collections */
    state(); i = nd_bool();
    if (ref[i]) {
        if (i) VMIncRefCount(&synB); else VMIncRefCount(&synA);
        ref[i]++;
        invariant();
    }
    DLSAddRef(&dls); VMSetGlobalDLSLib(&d, &dls); glob = 1;
    invariant();
#elif OP == 3       /* closing */
    state(); ASSUME(ref[SYN]);
    VMMIDIShutdown(&d, SYN ? &synB : &synA);
    ref[SYN]--;
    if (!ref[SYN]) REACH("last stream closed"); else REACH("a stream keeps playing");
    invariant();
#endif
#if OP == 4         /* a GM reset, from any settings */
    int pol;
    state(); ASSUME(ref[0]);
    for (i = 0; i < NUM_SYNTH_CHANNELS; i++) {
        S_SYNTH_CHANNEL *k = &synA.channels[i];
        k->volume = nd_u8() & 127; k->pan = nd_u8() & 127; k->expression = nd_u8() & 127; k->modWheel = nd_u8() & 127; k->channelPressure = nd_u8() & 127;
        k->pitchBend = nd_u16() & 0x3fff; k->pitchBendSensitivity = nd_u16(); k->finePitch = nd_i8(); k->coarsePitch = nd_i8(); k->registeredParam = nd_u16();
        k->programNum = nd_u8() & 127; k->bankNum = nd_u16(); k->channelFlags = nd_u8() & 15; k->pool = nd_u8() & 15; k->mip = nd_u8(); k->regionIndex = 0;
        synA.poolAlloc[i] = nd_u8();
    }
    synA.synthFlags = nd_u8() & 15; synA.totalNoteCount = nd_u16(); synA.maxPolyphony = pol = nd_u8max(MAX_SYNTH_VOICES); synA.globalTranspose = nd_i8();
    VMReset(&vm, &synA, EAS_TRUE);
    fresh(&synA);
    CHECK(synA.maxPolyphony == pol && synA.refCount == ref[0] && synA.vSynthNum == 0, "a reset keeps what the application has set");
#endif
    REACH("end");
}
