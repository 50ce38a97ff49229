/* C23: times in DLS units (1200 * log2 seconds) become frames and envelope rates */
#include "verif.h"
#include "eas_data.h"
#include "eas_mdls.h"

void harness(void)
{
    int t = nd_i32(), u = nd_i32(), a, b, c, d;
    /* a time is a 16-bit value of the collection, adjusted by at most 127/128 of another */
    ASSUME(t >= -65536 && t <= 65278 && u >= -65536 && u <= 65278);
    a = ConvertDelay(t); b = ConvertDelay(u); c = ConvertRate(t); d = ConvertRate(u);
    CHECK(a >= 0 && c >= 0, "frames and rates are not negative");
#if ORDERED
    ASSUME(t <= u && t != -32768 && u != -32768);
    CHECK(a <= b, "a longer delay is not shorter");
    CHECK(c >= d, "a longer time is not faster");
    REACH("ordered");
#endif
#if OCTAVE
    ASSUME(u == t + 1200 && t != -32768 && u != -32768);
    if (b < 32767) CHECK(b - 2 * a <= 2 + b / 64 && 2 * a - b <= 2 + b / 64, "twice the time is twice the frames");
    if (c < 32767) CHECK(c - 2 * d <= 2 + c / 64 && 2 * d - c <= 2 + c / 64, "twice the time is half the rate");
    REACH("octave");
#endif
#if ANCHOR
    ASSUME(t == 0);
    CHECK(a >= 171 && a <= 183, "a second is 172 frames, within six percent");
    CHECK(c >= 188 && c <= 192, "a change within one second takes 172 frames");
    CHECK(ConvertDelay(-32768) == 0 && ConvertRate(-32768) == 32767, "no time is none");
    REACH("anchor");
#endif
}
