/* C14 part 3: the built-in sound library obeys what the voice code assumes of
 * its data, for every program, key region, articulation and sample. */
#include "verif.h"
#include "eas_data.h"
#include "eas_sndlib.h"
#include "eas_synth.h"
#include "eas_wtengine.h"
extern const S_EAS easSoundLib;

void harness(void)
{
    const S_EAS *l = &easSoundLib;
    unsigned r = nd_u16(), a = nd_u16(), w = nd_u16(), b = nd_u16(), p = nd_u16(), k = nd_u8() & 127, i;
    const S_WT_REGION *g;
    unsigned long off, len;
    ASSUME(r < l->numWTRegions && a < l->numArticulations && w < l->numSamples && b < l->numBanks && p < l->numPrograms);
    CHECK(l->identifier == _EAS_LIBRARY_VERSION, "the library has the version the synthesizer expects");
    g = &l->pWTRegions[r];
    CHECK(g->artIndex < l->numArticulations && g->waveIndex < l->numSamples, "a region names an existing articulation and sample");
    CHECK(g->region.rangeLow <= g->region.rangeHigh && g->region.rangeHigh <= 127, "a region covers a key range");
    if (g->waveIndex < l->numSamples) {
        len = l->pSampleLen[g->waveIndex];
        if (g->region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED) {
            CHECK(g->loopStart + 2u <= g->loopEnd, "a loop spans at least two samples");
            CHECK(2ul * g->loopEnd <= len, "a loop lies within its sample");
            REACH("looped");
        }
    }
    off = l->pSampleOffsets[w]; len = l->pSampleLen[w];
    CHECK(len >= 4 && (len & 1) == 0 && (off & 1) == 0, "a sample is a whole number of 16-bit values");
#ifdef __CPROVER__
    CHECK(off + len <= __CPROVER_OBJECT_SIZE(l->pSamples), "a sample lies within the sample pool");
#endif
    CHECK(l->pArticulations[a].eg1.attackTime > 0 && l->pArticulations[a].eg1.decayTime >= 0 && l->pArticulations[a].eg1.sustainLevel >= 0 && l->pArticulations[a].eg1.releaseTime >= 0,
        "volume envelope rates are not negative and the attack makes progress");
    CHECK(l->pArticulations[a].eg2.attackTime >= 0 && l->pArticulations[a].eg2.decayTime >= 0 && l->pArticulations[a].eg2.sustainLevel >= 0 && l->pArticulations[a].eg2.releaseTime >= 0,
        "modulation envelope rates are not negative");
    CHECK(l->pArticulations[a].filterQ <= 30, "filter resonance is within the coefficient tables");
    CHECK(l->pArticulations[a].lfoDelay >= 0, "an LFO delay is not negative");
    CHECK(l->pPrograms[p].regionIndex < l->numWTRegions, "a program names an existing region");
    i = l->pBanks[b].regionIndex[k];
    CHECK(i < l->numWTRegions || i == INVALID_REGION_INDEX, "a bank entry names an existing region or none");
    CHECK(l->pWTRegions[l->numWTRegions - 1].region.keyGroupAndFlags & REGION_FLAG_LAST_REGION, "every region list is terminated");
    REACH("end");
}
