/* C24: the reverb, driven through its effects interface.
 * OP 0 parameters, 1 start-up, 2 one frame against a reference model,
 * 3 safety and bounds of a frame from any state, 4 modulation, 5 silence */
#include "verif.h"
#include "eas_data.h"
#include "eas_effects.h"
#include "eas_reverb.h"
/* only the object's layout is needed from the private header */
#include "eas_math.h"
#include "eas_audioconst.h"
#define ReverbUpdateXfade verif_unused1
#define ReverbCalculateNoise verif_unused2
#define ReverbCalculateSinCos verif_unused3
#define Reverb verif_unused4
#define ReverbReadInPresets verif_unused5
#define ReverbUpdateRoom verif_unused6
#include "eas_reverbdata.h"
#ifndef NF
#define NF 1
#endif
extern const S_EFFECTS_INTERFACE EAS_Reverb;
static S_EAS_DATA ed;
static S_REVERB_OBJECT obj, zero, run;
static S_REVERB_OBJECT *R = &obj;
static int freed, fail_alloc;
static EAS_PCM buf[2 * NF + 2], in[2 * NF + 2];

EAS_VOID_PTR EAS_CMEnumFXData(EAS_INT module) { CHECK(module == EAS_MODULE_REVERB, "the reverb asks for its own memory"); return fail_alloc ? NULL : &obj; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { (void) h; CHECK(n >= (EAS_I32) sizeof obj, "enough memory is requested"); return fail_alloc ? NULL : &obj; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { (void) h; CHECK(p == &obj, "only the reverb's own memory is released"); freed++; }
void *EAS_HWMemSet(void *p, int v, EAS_I32 n) { CHECK(p == &obj && v == 0 && n == (EAS_I32) sizeof obj, "start-up clears the reverb's memory"); obj = zero; return p; }
void *EAS_HWMemCpy(void *d, const void *s, EAS_I32 n) { EAS_I32 i; for (i = 0; i < n; i++) ((EAS_U8 *) d)[i] = ((const EAS_U8 *) s)[i]; return d; }

static EAS_RESULT set(EAS_I32 p, EAS_I32 v) { return EAS_Reverb.pFSetParam(R, p, v); }
static EAS_RESULT get(EAS_I32 p, EAS_I32 *v) { return EAS_Reverb.pFGetParam(R, p, v); }
static long clip16(long v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }
static long mul(long a, long b) { return (a * b) >> 15; }
static EAS_PCM *tap(unsigned off) { return &R->m_nDelayLine[(R->m_nBaseIndex + off) & REVERB_BUFFER_MASK]; }
static void start(int preset)
{
    EAS_VOID_PTR inst = NULL;
    ed.staticMemoryModel = nd_bool();
    CHECK(EAS_Reverb.pfInit(&ed, &inst) == EAS_SUCCESS && inst == (EAS_VOID_PTR) &obj, "the reverb starts");
    if (preset >= 0) { CHECK(set(EAS_PARAM_REVERB_PRESET, preset) == EAS_SUCCESS, "every preset is accepted"); CHECK(set(EAS_PARAM_REVERB_BYPASS, EAS_FALSE) == EAS_SUCCESS, "the reverb can be switched on"); }
}
/* the same, leaving the delay memory as one opaque array */
static void start_opaque(int preset)
{
    start(preset);
    R = &run;
    run.m_sAp0 = obj.m_sAp0; run.m_sAp1 = obj.m_sAp1; run.m_sEarlyL = obj.m_sEarlyL; run.m_sEarlyR = obj.m_sEarlyR; run.m_sPreset = obj.m_sPreset;
    run.m_zD0In = obj.m_zD0In; run.m_zD1In = obj.m_zD1In; run.m_zD0Self = obj.m_zD0Self; run.m_zD1Self = obj.m_zD1Self;
    run.m_zD0Cross = obj.m_zD0Cross; run.m_zD1Cross = obj.m_zD1Cross; run.m_nMaxExcursion = obj.m_nMaxExcursion;
    run.m_nLpfFwd = obj.m_nLpfFwd; run.m_nLpfFbk = obj.m_nLpfFbk; run.m_nXfadeInterval = obj.m_nXfadeInterval; run.m_nXfadeCounter = obj.m_nXfadeCounter;
    run.m_nPhase = obj.m_nPhase; run.m_nPhaseIncrement = obj.m_nPhaseIncrement; run.m_nNoise = obj.m_nNoise; run.m_nMinSamplesToAdd = obj.m_nMinSamplesToAdd;
    run.m_bBypass = obj.m_bBypass; run.m_nCurrentRoom = obj.m_nCurrentRoom; run.m_nNextRoom = obj.m_nNextRoom; run.m_nWet = obj.m_nWet; run.m_nDry = obj.m_nDry; run.m_nEarly = obj.m_nEarly;
}
static int level(void)
{   /* a wet level out of a few representative ones (products of two free values are out of the solver's reach) */
    static const EAS_I16 l[8] = { 0, 1, 255, 8192, 16384, 21125, 27690, 32767 };
    return l[nd_u8() & 7];
}
/* every tap lies in the section of the delay memory it belongs to */
static int sections(void)
{
    return R->m_sAp0.m_zApIn == AP0_IN && R->m_sAp0.m_zApOut > AP0_IN && R->m_sAp0.m_zApOut < AP1_IN
        && R->m_sAp1.m_zApIn == AP1_IN && R->m_sAp1.m_zApOut > AP1_IN && R->m_sAp1.m_zApOut < DELAY0_IN
        && R->m_zD0In == DELAY0_IN && R->m_zD0Self > DELAY0_IN && R->m_zD0Self < DELAY1_IN && R->m_zD0Cross > DELAY0_IN && R->m_zD0Cross < DELAY1_IN
        && R->m_zD1In == DELAY1_IN && R->m_zD1Self > DELAY1_IN && R->m_zD1Self <= DELAY1_OUT && R->m_zD1Cross > DELAY1_IN && R->m_zD1Cross <= DELAY1_OUT
        && DELAY1_OUT < REVERB_BUFFER_SIZE_IN_SAMPLES;
}
#define GAIN(x) ((x) >= -260 && (x) <= 32767) /* rounding may leave a hair below zero */

void harness(void)
{
    int i;
#if OP == 0
    {   /* any call on a running reverb, against a model of its four settings */
        EAS_I32 m[4], g, p = nd_i32(), v = nd_i32(), j;
        EAS_RESULT r;
        int ok, steps;
        static const EAS_I16 wet[4] = { 27690, 21125, 16384, 10000 };
        start(nd_u8() & 3);
        for (j = 0; j < 4; j++) CHECK(get(j, &m[j]) == EAS_SUCCESS, "every setting can be read");
        for (steps = 0; steps < 2; steps++) {
            int render = nd_bool();
            if (steps) { p = nd_i32(); v = nd_i32(); }
            if (p == EAS_PARAM_REVERB_BYPASS) ASSUME(v == 0 || v == 1);
            ok = p == EAS_PARAM_REVERB_BYPASS || (p == EAS_PARAM_REVERB_PRESET && v >= 0 && v <= 3)
                || ((p == EAS_PARAM_REVERB_WET || p == EAS_PARAM_REVERB_DRY) && v >= 0 && v <= 32767);
            r = set(p, v);
            CHECK((r == EAS_SUCCESS) == ok, "exactly the legal values are accepted");
            if (!ok) CHECK(r == EAS_ERROR_INVALID_PARAMETER, "anything else is refused as an invalid parameter");
            if (ok) {
                m[p] = v;
                if (p == EAS_PARAM_REVERB_PRESET) {
                    CHECK(get(EAS_PARAM_REVERB_WET, &m[EAS_PARAM_REVERB_WET]) == EAS_SUCCESS && get(EAS_PARAM_REVERB_DRY, &m[EAS_PARAM_REVERB_DRY]) == EAS_SUCCESS, "levels can be read");
                    CHECK(m[EAS_PARAM_REVERB_WET] == obj.m_sPreset.m_sPreset[v].m_nWet && m[EAS_PARAM_REVERB_DRY] == obj.m_sPreset.m_sPreset[v].m_nDry, "a preset brings its own levels");
                }
            }
            if (render) EAS_Reverb.pfProcess(R, buf, buf, 0);
            for (j = 0; j < 4; j++) CHECK(get(j, &g) == EAS_SUCCESS && g == m[j], "settings read back as set and nothing else changes, before and after rendering");
            CHECK(obj.m_nLpfFwd == obj.m_sPreset.m_sPreset[m[1]].m_nLpfFwd && obj.m_sAp0.m_nApGain == obj.m_sPreset.m_sPreset[m[1]].m_nAp0_ApGain, "the selected preset is the one in effect");
            if (ok) REACH("accepted"); else REACH("refused");
        }
        p = nd_i32(); g = 0x1234;
        r = get(p, &g);
        CHECK((r == EAS_SUCCESS) == (p >= 0 && p <= 3), "only the four settings can be read");
        (void) wet;
    }
#elif OP == 1
    {
        EAS_VOID_PTR inst = NULL;
        EAS_I32 v;
        fail_alloc = nd_bool();
        ed.staticMemoryModel = nd_bool();
        EAS_RESULT r = EAS_Reverb.pfInit(&ed, &inst);
        if (fail_alloc) { CHECK(r == EAS_ERROR_MALLOC_FAILED && inst == NULL, "no memory is reported"); REACH("no memory"); return; }
        CHECK(r == EAS_SUCCESS && inst == (EAS_VOID_PTR) &obj, "the reverb starts");
        CHECK(get(EAS_PARAM_REVERB_BYPASS, &v) == EAS_SUCCESS && v == EAS_TRUE, "the reverb starts switched off");
        CHECK(get(EAS_PARAM_REVERB_PRESET, &v) == EAS_SUCCESS && v >= 0 && v <= 3, "the reverb starts with one of its presets");
        CHECK(obj.m_nLpfFwd == obj.m_sPreset.m_sPreset[v].m_nLpfFwd && obj.m_nWet == obj.m_sPreset.m_sPreset[v].m_nWet && obj.m_sAp1.m_nApGain == obj.m_sPreset.m_sPreset[v].m_nAp1_ApGain, "the preset reported is the one in effect");
        i = nd_irange(0, REVERB_BUFFER_SIZE_IN_SAMPLES - 1);
        CHECK(obj.m_nDelayLine[i] == 0, "the delay memory starts silent");
        CHECK(obj.m_nRevOutFbkL == 0 && obj.m_nRevOutFbkR == 0 && obj.m_zLpf0 == 0 && obj.m_zLpf1 == 0 && obj.m_sEarlyL.m_zLpf == 0 && obj.m_sEarlyR.m_zLpf == 0, "the filters start silent");
        for (i = 0; i < 4; i++) {
            const S_REVERB_PRESET *p = &obj.m_sPreset.m_sPreset[i];
            CHECK(p->m_nWet >= 0 && p->m_nDry >= 0 && p->m_nLpfFwd >= 0 && p->m_nLpfFbk >= 0 && p->m_nLpfFwd + p->m_nLpfFbk < 32768, "each preset's damping filter has a gain below one");
            CHECK(p->m_nAp0_ApGain > -32768 && p->m_nAp1_ApGain > -32768 && p->m_nXfadeInterval > 0 && (p->m_nMaxExcursion & (p->m_nMaxExcursion + 1)) == 0, "each preset is well formed");
        }
        CHECK(EAS_Reverb.pfShutdown(&ed, inst) == EAS_SUCCESS && freed == !ed.staticMemoryModel, "shutting down releases the memory exactly when it was allocated");
        REACH("started");
    }
#elif OP == 2
    {   /* one frame from any signal state, fixed taps */
        long ap, d, o, t, late[2], lpf[2], fb[2], wet, want[2], apin[2];
        long v[2], sin, cos;
        static const EAS_I16 gains[4] = { 0, 32767, 23170, 12345 };
        EAS_PCM *a0, *a1;
        start(PRESET);
        R->m_nBaseIndex = BASE;
        R->m_nXfadeCounter = 0;
        { static const EAS_I16 l[4] = { 32767, 21125, 8192, 300 }; wet = l[PRESET]; }
        CHECK(set(EAS_PARAM_REVERB_WET, wet) == EAS_SUCCESS, "legal level");
        *tap(R->m_sAp0.m_zApOut) = nd_i16(); *tap(R->m_sAp1.m_zApOut) = nd_i16();
        *tap(R->m_zD0Self) = nd_i16(); *tap(R->m_zD1Self) = nd_i16(); *tap(R->m_zD0Cross = DELAY0_OUT - 3) = nd_i16(); *tap(R->m_zD1Cross = DELAY1_OUT - 2) = nd_i16();
        R->m_nRevOutFbkL = nd_i16(); R->m_nRevOutFbkR = nd_i16(); R->m_zLpf0 = nd_i16(); R->m_zLpf1 = nd_i16();
        R->m_nSin = sin = gains[PRESET]; R->m_nCos = cos = gains[(PRESET + 1) & 3];
        R->m_nPhase = 0;
        for (i = 0; i < 2 * NF + 2; i++) buf[i] = in[i] = 0x55AA;
        in[1] = buf[1] = nd_i16(); in[2] = buf[2] = nd_i16();
        /* reference: two all-pass sections feeding two delays, cross-mixed, damped, fed back crosswise */
        fb[0] = R->m_nRevOutFbkL; fb[1] = R->m_nRevOutFbkR;
        ap = (in[1] >> 2) + fb[1]; d = *tap(R->m_sAp0.m_zApOut);
        o = clip16(d - mul(ap, R->m_sAp0.m_nApGain)); apin[0] = clip16(ap + mul(o, R->m_sAp0.m_nApGain)); v[0] = o;
        ap = (in[2] >> 2) + fb[0]; d = *tap(R->m_sAp1.m_zApOut);
        o = clip16(d - mul(ap, R->m_sAp1.m_nApGain)); apin[1] = clip16(ap + mul(o, R->m_sAp1.m_nApGain)); v[1] = o;
        t = clip16(mul(*tap(R->m_zD0Self), sin) + mul(*tap(R->m_zD1Cross), cos));
        lpf[0] = clip16(mul(t, R->m_nLpfFwd) + mul(R->m_zLpf0, R->m_nLpfFbk));
        t = clip16(mul(*tap(R->m_zD1Self), sin) + mul(*tap(R->m_zD0Cross), cos));
        lpf[1] = clip16(mul(t, R->m_nLpfFwd) + mul(R->m_zLpf1, R->m_nLpfFbk));
        late[0] = clip16(lpf[1] + lpf[0]); late[1] = clip16(lpf[1] - lpf[0]);
        want[0] = clip16(in[1] + mul(late[0], wet << 1)); want[1] = clip16(in[2] + mul(late[1], wet << 1));
        a0 = tap(R->m_sAp0.m_zApIn); a1 = tap(R->m_sAp1.m_zApIn);
        {
            EAS_PCM *d0 = tap(R->m_zD0In), *d1 = tap(R->m_zD1In);
            EAS_Reverb.pfProcess(R, buf + 1, buf + 1, 1);
            CHECK(buf[1] == want[0] && buf[2] == want[1], "each output sample is the input plus the scaled, saturated reverberation");
            CHECK(buf[0] == 0x55AA && buf[3] == 0x55AA, "exactly one frame is written");
            CHECK(*a0 == apin[0] && *a1 == apin[1], "the all-pass sections are fed the saturated signal");
            CHECK(*d0 == v[0] && *d1 == v[1], "the delays are fed the all-pass outputs");
            CHECK(R->m_nRevOutFbkL == late[0] && R->m_nRevOutFbkR == late[1] && R->m_zLpf0 == lpf[0] && R->m_zLpf1 == lpf[1], "the saturated reverberation is fed back");
            CHECK(R->m_nBaseIndex == (EAS_U16) (BASE - 1), "the delay memory advances by one position");
        }
#if PRESET == 0
        if (want[0] == 32767 && in[1] < 30000) REACH("saturated");
#endif
        REACH("framed");
    }
#elif OP == 3
    {   /* NF frames from any modulation state and base position, any switches */
        int n = NF, byp, wet = level();
        start_opaque(PRESET);
        byp = nd_bool();
        CHECK(set(EAS_PARAM_REVERB_WET, wet) == EAS_SUCCESS && set(EAS_PARAM_REVERB_BYPASS, byp) == EAS_SUCCESS, "legal");
        R->m_nBaseIndex = nd_u16();
        *tap(R->m_sAp0.m_zApOut) = nd_i16(); *tap(R->m_sAp1.m_zApOut) = nd_i16();
        *tap(R->m_zD0Self) = nd_i16(); *tap(R->m_zD1Self) = nd_i16();
        R->m_nXfadeCounter = nd_u16(); R->m_nPhase = nd_i16(); R->m_nNoise = nd_i16(); if (nd_bool()) R->m_nPhaseIncrement = -R->m_nPhaseIncrement;
        R->m_nSin = nd_u16() & 0x7fff; R->m_nCos = nd_u16() & 0x7fff;
        R->m_nRevOutFbkL = nd_i16(); R->m_nRevOutFbkR = nd_i16(); R->m_zLpf0 = nd_i16(); R->m_zLpf1 = nd_i16();
        for (i = 0; i < 2 * NF + 2; i++) buf[i] = in[i] = nd_i16();
        if (nd_bool()) EAS_Reverb.pfProcess(R, buf, buf, n);
        else if (byp) { EAS_PCM src[2 * NF]; for (i = 0; i < 2 * NF; i++) { src[i] = in[i]; buf[i] = 77; } EAS_Reverb.pfProcess(R, src, buf, n); REACH("separate buffers"); }
        else ASSUME(0);
        for (i = 0; i < 2 * NF + 2; i++) {
            if (i >= 2 * n || byp || !wet) CHECK(buf[i] == in[i], "bypass and zero level pass the signal through; nothing beyond the buffer is written");
            else CHECK(buf[i] >= clip16(in[i] - 2L * wet) && buf[i] <= clip16(in[i] + 2L * wet), "the reverberation is bounded by its level and never wraps");
        }
        if (byp) REACH("bypassed"); else REACH("processed");
    }
#elif OP == 4
    {   /* modulation of the taps, no signal */
        EAS_I16 s, c; long k = NF;
        start(nd_u8() & 3);
        R->m_nXfadeCounter = nd_u16(); ASSUME(R->m_nXfadeCounter <= 32767 + k);
        R->m_nPhase = nd_i16(); R->m_nNoise = nd_i16(); if (nd_bool()) R->m_nPhaseIncrement = -R->m_nPhaseIncrement;
        R->m_zD0Self = DELAY0_OUT - nd_u8(); R->m_zD1Self = DELAY1_OUT - nd_u8();
        R->m_zD0Cross = DELAY0_OUT - nd_u8(); R->m_zD1Cross = DELAY1_OUT - nd_u8();
        ASSUME(sections());
        s = R->m_nSin = nd_i16(); c = R->m_nCos = nd_i16();
        ASSUME(GAIN(s) && GAIN(c));
        EAS_U16 cross = R->m_zD0Cross, self = R->m_zD0Self, cross1 = R->m_zD1Cross, self1 = R->m_zD1Self;
        EAS_Reverb.pfProcess(R, buf, buf, 0);
        CHECK(sections(), "taps stay in their sections");
        for (k = 0; k <= 256; k += 256)
            CHECK(GAIN(R->m_nSin + k * R->m_nSinIncrement) && GAIN(R->m_nCos + k * R->m_nCosIncrement), "tap gains stay within range through a whole buffer");
        if (cross != R->m_zD0Cross || cross1 != R->m_zD1Cross) { CHECK(R->m_nCos == 0, "a tap is moved only while it is silent"); REACH("cross taps moved"); }
        if (self != R->m_zD0Self || self1 != R->m_zD1Self) { CHECK(R->m_nSin == 0, "a tap is moved only while it is silent"); REACH("self taps moved"); }
    }
#else
    {   /* silence in, silence out, for a whole buffer */
        start_opaque(PRESET);
        R->m_nBaseIndex = nd_u16();
        R->m_nXfadeCounter = 0; R->m_nPhase = nd_i16();
        R->m_nSin = nd_u16() & 0x7fff; R->m_nCos = nd_u16() & 0x7fff;
        EAS_Reverb.pfProcess(R, buf, buf, NF);
        for (i = 0; i < 2 * NF; i++) CHECK(buf[i] == 0, "silence stays silent");
        i = nd_u16() & REVERB_BUFFER_MASK;
        CHECK(R->m_nDelayLine[i] == 0 && R->m_nRevOutFbkL == 0 && R->m_nRevOutFbkR == 0, "silence feeds back silence");
        REACH("silent");
    }
#endif
}
