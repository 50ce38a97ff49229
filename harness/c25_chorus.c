/* C25: the chorus, driven through its effects interface.
 * OP 0 parameters, 1 start-up, 2 frames from any state */
#include "verif.h"
#include "eas_data.h"
#include "eas_effects.h"
#include "eas_math.h"
#include "eas_audioconst.h"
#define WeightedTap verif_unused1
#define ChorusReadInPresets verif_unused2
#define ChorusUpdate verif_unused3
#include "eas_chorusdata.h"
#undef _EAS_CHORUS_H
#include "eas_chorus.h"
#ifndef NF
#define NF 1
#endif
extern const S_EFFECTS_INTERFACE EAS_Chorus;
static S_EAS_DATA ed;
static S_CHORUS_OBJECT obj, zero;
static S_CHORUS_OBJECT *C = &obj;
static int freed, fail_alloc;
static EAS_PCM buf[2 * NF + 2], in[2 * NF + 2];

EAS_VOID_PTR EAS_CMEnumFXData(EAS_INT module) { CHECK(module == EAS_MODULE_CHORUS, "the chorus asks for its own memory"); return fail_alloc ? NULL : &obj; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { (void) h; CHECK(n >= (EAS_I32) sizeof obj, "enough memory is requested"); return fail_alloc ? NULL : &obj; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { (void) h; CHECK(p == &obj, "only the chorus's own memory is released"); freed++; }
void *EAS_HWMemSet(void *p, int v, EAS_I32 n) { CHECK(p == &obj && v == 0 && n == (EAS_I32) sizeof obj, "start-up clears the chorus's memory"); obj = zero; return p; }
void *EAS_HWMemCpy(void *d, const void *s, EAS_I32 n) { EAS_I32 i; for (i = 0; i < n; i++) ((EAS_U8 *) d)[i] = ((const EAS_U8 *) s)[i]; return d; }

static EAS_RESULT set(EAS_I32 p, EAS_I32 v) { return EAS_Chorus.pFSetParam(C, p, v); }
static EAS_RESULT get(EAS_I32 p, EAS_I32 *v) { return EAS_Chorus.pFGetParam(C, p, v); }
static long clip16(long v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }
static void start(void)
{
    EAS_VOID_PTR inst = NULL;
    CHECK(EAS_Chorus.pfInit(&ed, &inst) == EAS_SUCCESS && inst == (EAS_VOID_PTR) &obj, "the chorus starts");
}
/* what a rate (0.05 Hz steps) and depth (0.05 ms steps) mean in samples */
static long inc_of(long rate) { return (((long) CHORUS_SHAPE_SIZE << 16) / (20 * (long) _OUTPUT_SAMPLE_RATE)) * rate; }
static long depth_of(long depth) { return (((depth * _OUTPUT_SAMPLE_RATE) >> 5) * 105) >> 16; }
static int legal(EAS_I32 p, EAS_I32 v)
{
    switch (p) {
    case EAS_PARAM_CHORUS_BYPASS: return 1;
    case EAS_PARAM_CHORUS_PRESET: return v >= 0 && v <= 3;
    case EAS_PARAM_CHORUS_RATE: return v >= EAS_CHORUS_RATE_MIN && v <= EAS_CHORUS_RATE_MAX;
    case EAS_PARAM_CHORUS_DEPTH: return v >= EAS_CHORUS_DEPTH_MIN && v <= EAS_CHORUS_DEPTH_MAX;
    case EAS_PARAM_CHORUS_LEVEL: return v >= 0 && v <= 32767;
    }
    return 0;
}
#define in_effect(m) (C->m_nRate == inc_of(m[EAS_PARAM_CHORUS_RATE]) && C->m_nDepth == depth_of(m[EAS_PARAM_CHORUS_DEPTH]) && C->m_nLevel == m[EAS_PARAM_CHORUS_LEVEL])

void harness(void)
{
    int i;
    EAS_I32 m[5], g, j;
#if OP == 0
    EAS_I32 p, v;
    int steps;
    EAS_RESULT r;
    start();
    for (j = 0; j < 5; j++) CHECK(get(j, &m[j]) == EAS_SUCCESS, "every setting can be read");
    for (steps = 0; steps < 2; steps++) {
        int render = nd_bool(), ok;
        p = nd_i32(); v = nd_i32();
        ok = legal(p, v);
        if (p == EAS_PARAM_CHORUS_BYPASS) ASSUME(v == 0 || v == 1);
        r = set(p, v);
        CHECK((r == EAS_SUCCESS) == ok, "exactly the legal values are accepted");
        if (!ok) CHECK(r == EAS_ERROR_INVALID_PARAMETER, "anything else is refused as an invalid parameter");
        if (ok) {
            m[p] = v;
            if (p == EAS_PARAM_CHORUS_PRESET) {
                const S_CHORUS_PRESET *q = &obj.m_sPreset.m_sPreset[v];
                m[EAS_PARAM_CHORUS_RATE] = q->m_nRate; m[EAS_PARAM_CHORUS_DEPTH] = q->m_nDepth; m[EAS_PARAM_CHORUS_LEVEL] = q->m_nLevel;
            }
        }
        if (render) EAS_Chorus.pfProcess(C, buf, buf, 0);
        for (j = 0; j < 5; j++) CHECK(get(j, &g) == EAS_SUCCESS && g == m[j], "settings read back as set and nothing else changes, before and after rendering");
        CHECK(in_effect(m), "rate, depth and level set are the ones in effect");
        if (ok) REACH("accepted"); else REACH("refused");
    }
    p = nd_i32(); g = 0x1234;
    r = get(p, &g);
    CHECK((r == EAS_SUCCESS) == (p >= 0 && p <= 4), "only the five settings can be read");
#elif OP == 1
    EAS_VOID_PTR inst = NULL;
    EAS_RESULT r;
    fail_alloc = nd_bool();
    ed.staticMemoryModel = nd_bool();
    r = EAS_Chorus.pfInit(&ed, &inst);
    if (fail_alloc) { CHECK(r == EAS_ERROR_MALLOC_FAILED && inst == NULL, "no memory is reported"); REACH("no memory"); return; }
    CHECK(r == EAS_SUCCESS && inst == (EAS_VOID_PTR) &obj, "the chorus starts");
    for (j = 0; j < 5; j++) CHECK(get(j, &m[j]) == EAS_SUCCESS, "every setting can be read");
    CHECK(m[EAS_PARAM_CHORUS_BYPASS] == EAS_TRUE, "the chorus starts switched off");
    for (j = 1; j < 5; j++) CHECK(legal(j, m[j]), "the chorus starts with legal settings");
    CHECK(in_effect(m), "the settings reported are the ones in effect");
    for (i = 0; i < 4; i++) {
        const S_CHORUS_PRESET *q = &obj.m_sPreset.m_sPreset[i];
        CHECK(legal(EAS_PARAM_CHORUS_RATE, q->m_nRate) && legal(EAS_PARAM_CHORUS_DEPTH, q->m_nDepth) && legal(EAS_PARAM_CHORUS_LEVEL, q->m_nLevel), "every preset is legal");
    }
    for (i = 0; i < CHORUS_L_SIZE; i++) CHECK(obj.chorusDelayL[i] == 0 && obj.chorusDelayR[i] == 0, "the delay memory starts silent");
    CHECK(obj.lfoLPhase >= 0 && obj.lfoLPhase < (CHORUS_SHAPE_SIZE << 16) && obj.lfoRPhase >= 0 && obj.lfoRPhase < (CHORUS_SHAPE_SIZE << 16), "the modulation starts in range");
    CHECK(obj.chorusTapPosition == CHORUS_DELAY_MS * _OUTPUT_SAMPLE_RATE / 1000, "the delay is the documented one");
    CHECK(EAS_Chorus.pfShutdown(&ed, inst) == EAS_SUCCESS && freed == !ed.staticMemoryModel, "shutting down releases the memory exactly when it was allocated");
    REACH("started");
#else
    /* NF frames from any state. The delayed signal is a constant (one per
     * channel) around the documented delay and anything elsewhere, so that
     * the output is known whatever the modulation does. */
    long rate, depth, lvl, cl = nd_i16(), cr = nd_i16(), D, phL, phR, back;
    int byp = nd_bool(), ixL = IXL, ixR = IXR;
    static const EAS_I16 l[4] = { 0, 1, 20000, 32767 };
    start();
    rate = nd_irange(EAS_CHORUS_RATE_MIN, EAS_CHORUS_RATE_MAX); depth = nd_irange(EAS_CHORUS_DEPTH_MIN, EAS_CHORUS_DEPTH_MAX); lvl = l[nd_u8() & 3];
    CHECK(set(EAS_PARAM_CHORUS_RATE, rate) == EAS_SUCCESS && set(EAS_PARAM_CHORUS_DEPTH, depth) == EAS_SUCCESS && set(EAS_PARAM_CHORUS_LEVEL, lvl) == EAS_SUCCESS && set(EAS_PARAM_CHORUS_BYPASS, byp) == EAS_SUCCESS, "legal settings");
    D = depth_of(depth);
    C->chorusIndexL = ixL; C->chorusIndexR = ixR;
    C->lfoLPhase = phL = nd_irange(0, (CHORUS_SHAPE_SIZE << 16) - 1); C->lfoRPhase = phR = nd_irange(0, (CHORUS_SHAPE_SIZE << 16) - 1);
    for (i = 0; i < CHORUS_L_SIZE; i++) {
        /* how many samples ago position i was written, when the next one is processed */
        back = (ixL - i + CHORUS_L_SIZE) % CHORUS_L_SIZE;
        C->chorusDelayL[i] = back >= C->chorusTapPosition - D - 2 && back <= C->chorusTapPosition + D + 2 ? cl : nd_i16();
        back = (ixR - i + CHORUS_R_SIZE) % CHORUS_R_SIZE;
        C->chorusDelayR[i] = back >= C->chorusTapPosition - D - 2 && back <= C->chorusTapPosition + D + 2 ? cr : nd_i16();
    }
    for (i = 0; i < 2 * NF + 2; i++) buf[i] = in[i] = nd_i16();
    if (nd_bool()) EAS_Chorus.pfProcess(C, buf, buf, NF);
    else { EAS_PCM src[2 * NF]; for (i = 0; i < 2 * NF; i++) { src[i] = in[i]; buf[i] = 77; } EAS_Chorus.pfProcess(C, src, buf, NF); REACH("separate buffers"); }
    for (i = 0; i < 2 * NF; i++) {
        if (byp) CHECK(buf[i] == in[i], "bypass passes the signal through");
        else CHECK(buf[i] == clip16(in[i] + (((i & 1 ? cr : cl) * lvl) >> 15)), "the output is the input plus the scaled signal of the same channel from the documented time ago, saturated");
    }
    CHECK(buf[2 * NF] == in[2 * NF] && buf[2 * NF + 1] == in[2 * NF + 1], "exactly the requested frames are written");
    if (byp) REACH("bypassed");
    else if (lvl) {
        CHECK(C->chorusDelayL[ixL] == in[0] && C->chorusDelayR[ixR] == in[1], "the input enters the delay memory");
        CHECK(C->chorusIndexL == (ixL + NF) % CHORUS_L_SIZE && C->chorusIndexR == (ixR + NF) % CHORUS_R_SIZE, "the delay memory advances");
        CHECK(C->lfoLPhase == (phL + NF * inc_of(rate)) % (CHORUS_SHAPE_SIZE << 16) && C->lfoRPhase == (phR + NF * inc_of(rate)) % (CHORUS_SHAPE_SIZE << 16), "the modulation advances at the set rate");
        REACH("processed");
    }
#endif
}
