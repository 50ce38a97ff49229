/* C14 part 1: the sample engine, for every legal voice position, loop and
 * increment: reads stay inside the sample, the loop holds, output is exact. */
#include "verif.h"
#include "eas_data.h"
#include "eas_math.h"
#include "eas_wtengine.h"
#include "eas_wtsynth.h"
#ifndef NS
#define NS 6            /* samples; the last one is the end of the loop / of the wave */
#endif
#ifndef F
#define F 3             /* frames */
#endif
/* the sample sits inside a larger object only so that an address past it can be
 * formed and compared, as the engine does; a read there breaks the checks below */
#define PAD 40
static EAS_SAMPLE pool[PAD + NS + PAD];
#define S (pool + PAD)
static EAS_PCM audio[F];
static EAS_I32 mix[2 * F];
static S_WT_VOICE v;
static S_WT_INT_FRAME f;

void harness(void)
{
    int i, n, p0, ls = 0, le = NS - 1;
    uint32_t frac0;
    long inc;
    n = nd_irange(0, F);
#ifdef SMALL
    for (i = 0; i < NS; i++) S[i] = (EAS_SAMPLE) ((long) (nd_u8() & 15) * 256 - 2048);
#else
    for (i = 0; i < NS; i++) S[i] = nd_i16();
#endif
    for (i = 0; i < F; i++) audio[i] = 0x1234;
#ifdef LOOP
    p0 = nd_u8max(NS - 1);
#else
    p0 = nd_u8max(NS - 2);
#endif
    frac0 = nd_u16() & 0x7fff;
#ifdef LOOP
    ls = nd_u8max(NS - 2);
    inc = nd_u32();
    ASSUME(inc <= MAXINC);
    v.loopStart = (EAS_U32) &S[ls];
    v.loopEnd = (EAS_U32) &S[le];
#else
    inc = nd_u32();
    ASSUME(inc <= MAXINC);
    v.loopStart = v.loopEnd = (EAS_U32) &S[le];
    /* the caller asks for the frames left before the end, at most */
    ASSUME(n == 0 || p0 + ((long) (frac0 + (n - 1) * inc) >> 15) < le);
#endif
    v.phaseAccum = (EAS_U32) &S[p0];
    v.phaseFrac = frac0;
    f.frame.phaseIncrement = inc; f.frame.k = 0;
    f.frame.gainTarget = f.prevGain = 0;
    f.pAudioBuffer = audio; f.pMixBuffer = mix; f.numSamples = n;
    v.gainLeft = nd_i16(); v.gainRight = nd_i16();
    WT_ProcessVoice(&v, &f);
    {
        long p = p0, fr = frac0, step; int entered = p0 >= ls, last = 0;
        for (i = 0; i < F; i++) {
            if (i >= n) { CHECK(audio[i] == 0x1234, "no more frames are written than asked for"); continue; }
            {
                long a = S[p], b = p < le ? S[p + 1] : S[ls];
                CHECK(audio[i] == (EAS_I16) ((a + (((b - a) * fr) >> 15)) >> 2), "each frame interpolates the samples at the voice's position");
            }
            fr += inc; step = fr >> 15;
#ifndef LOOP
            if (p + step >= le) { CHECK(i == n - 1, "a one-shot sample ends at its end"); last = 1; break; }
#endif
            p += step; fr &= 0x7fff;
#ifdef LOOP
            while (p > le) p -= le + 1 - ls;
            if (p >= ls) entered = 1;
#endif
        }
#ifdef LOOP
        CHECK(v.phaseAccum == (EAS_U32) &S[p] || n == 0, "the position advances by the pitch and wraps in the loop");
        CHECK(v.phaseFrac == (EAS_U32) fr, "the fractional position advances by the pitch");
        CHECK(v.phaseAccum <= v.loopEnd, "the position is inside the sample");
        if (entered && n) CHECK(v.phaseAccum >= v.loopStart, "once in the loop the position stays in the loop");
        if (n == F && v.phaseAccum < (EAS_U32) &S[p0]) REACH("wrapped");
#else
        CHECK(v.phaseAccum < v.loopEnd || n == 0, "the position stays inside the sample");
        if (!last) CHECK(v.phaseAccum == (EAS_U32) &S[p], "the position advances by the pitch");
        if (n == F) REACH("played");
#endif
        (void) entered; (void) last;
    }
    for (i = 0; i < 2 * F; i++) CHECK(mix[i] == 0, "a voice at zero gain adds nothing");
}
