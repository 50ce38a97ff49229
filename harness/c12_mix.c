/* C12: mix bus to 16-bit output. */
#include "verif.h"
#include "eas_data.h"
#include "eas_mixer.h"
#include "eas_math.h"
#ifndef N
#define N 2
#endif
/* N frames allocated; 2 channels */

static S_EAS_DATA d;
static EAS_I32 mix[2 * N + 1];
static EAS_PCM out[2 * N + 2];

static long clip16(long v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }

void harness(void)
{
    int i, n = nd_u8max(N);
    int gain = nd_irange(0, 32767);
    d.pMixBuffer = mix; d.pOutputAudioBuffer = out; d.masterGain = (EAS_I16) gain;
    for (i = 0; i < 2 * N + 1; i++) mix[i] = nd_i32();
    for (i = 0; i < 2 * N + 2; i++) out[i] = 0x5A5A;
#ifdef PREP
    {   /* preparing a buffer clears exactly the frames that will be used */
        long keep = mix[2 * N], last = mix[2 * N - 1];
        EAS_MixEnginePrep(&d, n);
        for (i = 0; i < 2 * N; i++) if (i < 2 * n) CHECK(mix[i] == 0, "the mix bus is silent before voices are added");
        CHECK(mix[2 * N] == keep, "clearing the mix bus stays inside it");
        if (n < N) CHECK(mix[2 * N - 1] == last, "clearing the mix bus stays inside the requested frames");
        REACH("prepared");
    }
#else
    EAS_MixEnginePost(&d, n);
    for (i = 0; i < 2 * N + 2; i++) {
        if (i >= 2 * n) { CHECK(out[i] == 0x5A5A, "exactly the requested number of frames is written"); continue; }
        /* sum * gain, 7+9 bit fixed point with the documented 24 dB of guard bits */
        CHECK(out[i] == clip16(((long) (mix[i] >> 7) * (gain >> 4)) >> 9), "every sample is the gain-scaled sum clipped to 16 bits");
        if (mix[i] >= 0) CHECK(out[i] >= 0, "a positive sum never comes out negative");
        else CHECK(out[i] <= 0, "a negative sum never comes out positive");
        if ((gain >> 4) == 0) CHECK(out[i] == 0, "zero gain is silence");
    }
    REACH("mixed");
    if (n == N && gain == 32767 && mix[0] > 0x40000000) REACH("full scale");
#endif
}
