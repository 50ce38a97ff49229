/* C14 part 2: what the voice code hands to the sample engine, for every
 * region, sample, pitch and position. The engine itself (part 1) is replaced
 * by its contract. */
#include "verif.h"
#include "eas_data.h"
#include "eas_math.h"
#include "eas_wtengine.h"
#include "eas_synth_protos.h"
#include "eas_wtsynth.h"
#include "eas_dlssynth.h"
extern const S_SYNTH_INTERFACE wtSynth;
#ifndef NS
#define NS 600
#endif
static EAS_SAMPLE pool[NS];
static S_VOICE_MGR vm;
static S_SYNTH syn;
static S_SYNTH_VOICE *voice = &vm.voices[1];
static S_WT_VOICE *w = &vm.wtVoices[1];
static EAS_I32 mix[4];
static EAS_U32 slen[1], soff[1];
#ifdef DLS
static S_DLS dls; static S_DLS_REGION rg[1]; static S_DLS_ARTICULATION art[1];
#define RG rg[0].wtRegion
#define RIDX FLAG_RGN_IDX_DLS_SYNTH
#else
static S_WT_REGION rg[1]; static S_ARTICULATION art[1];
#define RG rg[0]
#define RIDX 0
#endif
static long off, len, ls, le, looped, calls;
static long last_inc, last_n;

EAS_I32 EAS_Calculate2toX(EAS_I32 c) { (void) c; return nd_u32() & INCMASK; }   /* C13: a positive 32-bit ratio */
#ifdef DLS
EAS_I16 ConvertDelay(EAS_I32 t) { (void) t; return nd_u16() & 0x7fff; }
EAS_I16 ConvertRate(EAS_I32 t) { (void) t; return nd_u16() & 0x7fff; }
#endif
EAS_U16 EAS_LogToLinear16(EAS_I32 c) { (void) c; return nd_u16() & 0x7fff; }
void EAS_CalcPanControl(EAS_INT pan, EAS_I16 *l, EAS_I16 *r) { (void) pan; *l = nd_u16() & 0x7fff; *r = nd_u16() & 0x7fff; }
EAS_I32 EAS_flog2(EAS_U32 n) { (void) n; return nd_u16() & 0x7fff; }

void WT_ProcessVoice(S_WT_VOICE *v, S_WT_INT_FRAME *f)
{
    long base = (long) (EAS_U32) &pool[0];
    long p = ((long) v->phaseAccum - base), fr = (long) v->phaseFrac, n = f->numSamples, inc = f->frame.phaseIncrement;
    calls++;
    CHECK(v == w, "the voice's own state is played");
    CHECK(f->pMixBuffer == mix && f->pAudioBuffer == vm.voiceBuffer, "the voice plays into its own buffers");
    CHECK(n >= 0 && n <= BUFFER_SIZE_IN_MONO_SAMPLES, "the frame count fits the buffer");
    CHECK(inc >= 0 && inc <= 0x7fffffff, "the pitch increment is not negative");
    CHECK(fr >= 0 && fr <= 0x7fff, "the fraction is below one sample");
    if (RG.region.keyGroupAndFlags & REGION_FLAG_USE_WAVE_GENERATOR) return;
    if (looped) {
        CHECK((long) v->loopStart == base + 2 * (off + ls), "the loop starts where the region says");
        CHECK((long) v->loopEnd == base + 2 * (off + le - 1), "the loop ends where the region says");
        CHECK(n == BUFFER_SIZE_IN_MONO_SAMPLES, "a looped sample fills the buffer");
#ifndef DLS
        CHECK(inc <= (le - 1 - ls) << 15, "the increment never skips a whole loop");
#endif
        /* contract of the engine: any position it can leave */
        p = off + nd_irange(0, NS);
        ASSUME(p >= off && p <= off + le - 1);
        v->phaseAccum = base + 2 * p; v->phaseFrac = nd_u16() & 0x7fff;
    } else {
        long room = off + len - 1 - p / 2;  /* sample pairs left */
        CHECK(v->loopStart == v->loopEnd && (long) v->loopEnd == base + 2 * (off + len - 1), "a one-shot sample ends at its last sample");
        CHECK(p / 2 >= off && !(p & 1), "the position is a sample of this wave");
        if (n) CHECK(fr + (n - 1) * inc < (room << 15), "no frame reads past the end of the sample");
        last_inc = inc; last_n = n;
        if (n < BUFFER_SIZE_IN_MONO_SAMPLES)
            CHECK(fr + n * inc >= (room << 15), "a one-shot sample plays to its end");
        p = nd_irange(0, NS); ASSUME(p >= off && p <= off + len - 2);
        v->phaseAccum = base + 2 * p; v->phaseFrac = nd_u16() & 0x7fff;
    }
}

static void channel(S_SYNTH_CHANNEL *c)
{
    c->staticPitch = nd_irange(-20000, 20000); c->staticGain = nd_u16() & 0x7fff; c->modWheel = nd_u8() & 127;
    c->channelPressure = nd_u8() & 127; c->pan = nd_u8() & 127; c->volume = nd_u8() & 127;
    c->channelFlags = nd_bool() ? CHANNEL_FLAG_RHYTHM_CHANNEL : 0;
}

void harness(void)
{
    int done;
    off = nd_irange(0, NS); len = nd_irange(2, NS); ASSUME(off + len <= NS);
    looped = LOOPED;
    ls = nd_irange(0, NS); le = nd_irange(0, NS); ASSUME(ls >= 0 && ls + 2 <= le && le <= len);
    slen[0] = len * 2; soff[0] = off * 2;
    RG.region.keyGroupAndFlags = (looped ? REGION_FLAG_IS_LOOPED : 0);
#ifndef DLS
    if (nd_bool()) RG.region.keyGroupAndFlags |= REGION_FLAG_USE_WAVE_GENERATOR;
#endif
    RG.loopStart = ls; RG.loopEnd = le; RG.tuning = nd_i16(); RG.gain = nd_i16();
#ifdef DLS
    syn.pDLS = &dls; dls.pDLSRegions = rg; dls.pDLSArticulations = art; dls.pDLSSampleLen = slen; dls.pDLSSampleOffsets = soff; dls.pDLSSamples = pool;
    art[0].eg1.attackTime = art[0].eg2.attackTime = -32768;
    RG.gain = -(nd_u16() & 0xfff);
#else
    { S_EAS init = { 0, 0, 0, 0, rg, art, slen, soff, pool, 0, 0, 0, 1, 1, 1, 0 }; static S_EAS *pl; pl = (S_EAS *) &init; syn.pEAS = pl;
#endif
    voice->channel = nd_u8() & 15; voice->note = nd_u8() & 127; voice->velocity = nd_u8() & 127;
    w->phaseFrac = nd_u16() & 0x7fff;   /* left over from the voice's previous note */
    channel(&syn.channels[voice->channel]);
    syn.globalTranspose = nd_irange(-12, 12);
    wtSynth.pfStartVoice(&vm, &syn, voice, 1, RIDX);
    done = wtSynth.pfUpdateVoice(&vm, &syn, voice, 1, mix, BUFFER_SIZE_IN_MONO_SAMPLES);
    CHECK(calls == 1, "one buffer is generated");
    if (!looped && !(RG.region.keyGroupAndFlags & REGION_FLAG_USE_WAVE_GENERATOR)) {
        if (last_n < BUFFER_SIZE_IN_MONO_SAMPLES) { CHECK(done, "a finished one-shot sample is reported finished");
#if !LOOPED
            REACH("finished");
#endif
        }
    }
#if LOOPED
    CHECK(!done, "a looped sample does not finish by itself");
#endif
    if (!done && UPDATES > 1) {
        channel(&syn.channels[voice->channel]);
        wtSynth.pfUpdateVoice(&vm, &syn, voice, 1, mix, BUFFER_SIZE_IN_MONO_SAMPLES);
        CHECK(calls == 2, "one buffer is generated");
#if UPDATES > 1
        REACH("second buffer");
#endif
    }
#ifndef DLS
    }
#endif
}
