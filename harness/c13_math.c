/* C13: conversions. */
#include "verif.h"
#include "eas.h"
#include "eas_math.h"
#include "eas_pan.h"

static int absdiff(int a, int b) { return a > b ? a - b : b - a; }

void harness(void)
{
#if defined(T_EXP)
    int32_t c = nd_i32();
    EAS_I32 a = EAS_Calculate2toX(c);
    CHECK(a >= 0 && a <= 0x7fffffff, "a pitch ratio is never negative and fits 32 bits");
    if (c < 0x7fffffff) {
        EAS_I32 b = EAS_Calculate2toX((EAS_I32) c + 1);
        CHECK(a <= b, "a higher pitch never gives a smaller ratio");
    }
    if (c < -18000) CHECK(a == 0, "below range is zero");
    if (c > 19200) CHECK(a == EAS_Calculate2toX(19200), "above range saturates");
    REACH("exp");
#elif defined(T_EXPVAL)
    int32_t k = nd_irange(-15, 15);
    EAS_I32 a = EAS_Calculate2toX(k * 1200);
    EAS_I32 want = k >= 0 ? (32768L << k) : (32768L >> -k);
    CHECK(a - want <= want / 1000 + 1 && want - a <= want / 1000 + 1, "whole octaves double the ratio (within 0.1%)");
    REACH("octaves");
#elif defined(T_LOG)
    int32_t g = nd_irange(-200000, 200000);
    EAS_U16 a = EAS_LogToLinear16(g), b = EAS_LogToLinear16((EAS_I32) g + 1);
    CHECK(a <= 0x7fff, "a linear gain never exceeds full scale");
    CHECK(a <= b, "less attenuation never gives a smaller gain");
    if (g < -32767) CHECK(a == 0, "infinite attenuation is silence");
    if (g >= 1) CHECK(a == 0x7fff, "gain saturates at full scale");
    if (g <= 0 && g >= -20 * 1024) {
        EAS_U16 h = EAS_LogToLinear16((EAS_I32) g - 1024);
        CHECK(absdiff(h * 2, a) <= 2, "1024 units of attenuation halve the gain");
    }
    REACH("log");
#elif defined(T_VOL)
    int32_t v = nd_i32();
    EAS_I16 a = EAS_VolumeToGain(v);
    CHECK(a >= 0, "gain is never negative");
    if (v < 0x7fffffff) CHECK(a <= EAS_VolumeToGain(v + 1), "a louder volume never gives a smaller gain");
    if (v <= 0) CHECK(a == 0, "volume zero is silence");
    if (v >= 100) CHECK(a == 0x7fff, "full volume is unity gain");
    if (v >= 10 && v <= 100) { int h = EAS_VolumeToGain(v - 6);
        CHECK(a >= 2 * h - a / 50 - 2 && a <= 2 * h + a / 50 + 2, "six volume steps are six decibels"); }
    REACH("volume");
#elif defined(T_PAN)
    int32_t p = nd_i32();
    EAS_I16 l = -1, r = -1, l2, r2;
    EAS_CalcPanControl(p, &l, &r);
    CHECK(l >= 0 && r >= 0, "pan gains are never negative");
    if (p < 0x7fffffff) {
        EAS_CalcPanControl(p + 1, &l2, &r2);
        CHECK(l2 <= l && r2 >= r, "moving right never makes the left louder or the right quieter");
    }
    if (p > -0x7fffffff) {
        EAS_CalcPanControl(-p, &l2, &r2);
        CHECK(absdiff(l, r2) <= 1 && absdiff(r, l2) <= 1, "opposite positions mirror left and right");
    }
    if (p == 0) CHECK(l == r && absdiff(l, 23170) <= 1, "centre is balanced at -3 dB");
    if (p <= -63) CHECK(r < 500 && l > 32700, "hard left");
    if (p >= 63) CHECK(l < 500 && r > 32700, "hard right");
    { long e = (long) l * l + (long) r * r;
      CHECK(e >= 32767L * 32767 / 100 * 90 && e <= 32767L * 32767 / 100 * 101, "total power is constant across the pan range within half a decibel"); }
    REACH("pan");
#endif
}
