/* C21: program change and note-on against any small well-formed sound library
 * (one bank, two loose programs, WT regions) with or without a DLS collection
 * laid over it. */
#include "verif.h"
#include "eas_data.h"
#include "eas_synth.h"
#include "eas_synth_protos.h"
#include "eas_vm_protos.h"
#ifdef DLS_SYNTHESIZER
#include "eas_mdls.h"
#endif
#define NP 3
#define NR 4
#define ND 3
#define NVO MAX_SYNTH_VOICES

static S_VOICE_MGR vm;
static S_SYNTH syn;
static S_WT_REGION regs[NR];
static S_PROGRAM progs[NP];
static S_BANK banks[1];
static S_EAS lib = { .identifier = _EAS_LIBRARY_VERSION, .libAttr = _OUTPUT_SAMPLE_RATE | LIB_FORMAT_16_BIT_SAMPLES,
    .pBanks = banks, .pPrograms = progs, .pWTRegions = regs, .numBanks = 1, .numPrograms = NP, .numWTRegions = NR };
static S_DLS dls;
static S_PROGRAM dprogs[NP];
static S_DLS_REGION dregs[ND];

static uint8_t started, region_of[NVO], isdls[NVO], bad;
static EAS_RESULT s_start(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_U16 r)
{
    CHECK(m == &vm && s == &syn && n >= 0 && n < NVO && v == &vm.voices[n], "a voice of this stream is started");
    if (started < NVO) { region_of[started] = r & 0xff; isdls[started] = !!(r & FLAG_RGN_IDX_DLS_SYNTH); }
    bad |= (r & REGION_INDEX_MASK) >= ((r & FLAG_RGN_IDX_DLS_SYNTH) ? ND : NR) || (r & FLAG_RGN_IDX_FM_SYNTH);
    started++;
    v->regionIndex = r;
    v->voiceFlags = VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET;
    return EAS_SUCCESS;
}
static void s_mute(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n) { (void) m; (void) s; (void) v; (void) n; }
const S_SYNTH_INTERFACE wtSynth = { 0, s_start, 0, s_mute, s_mute, 0, 0 };
void *EAS_CMEnumData(EAS_INT m) { (void) m; return NULL; }

/* reference: where (bank, program) leads in the built-in library; -1: nowhere */
static int find(uint32_t bank, uint8_t prog)
{
    int i;
    if (banks[0].locale == bank && banks[0].regionIndex[prog] != INVALID_REGION_INDEX) return banks[0].regionIndex[prog];
    for (i = 0; i < NP; i++) if (progs[i].locale == ((EAS_U32) bank << 8 | prog)) return progs[i].regionIndex;
    return -1;
}
static int dfind(uint32_t bank, uint8_t prog)
{
    int i;
    for (i = 0; i < NP; i++) if (dprogs[i].locale == ((EAS_U32) bank << 8 | prog)) return dprogs[i].regionIndex;
    return -1;
}
/* which of several candidate instruments is used: the first that exists */
static int dls_lookup(uint32_t bank, uint32_t drum, uint8_t prog)
{
    int r = dfind(drum | bank, prog);
    uint32_t def = drum ? DEFAULT_RHYTHM_BANK_NUMBER : DEFAULT_MELODY_BANK_NUMBER;
    if (r < 0 && ((bank & 0xff00) == DEFAULT_MELODY_BANK_NUMBER || (bank & 0xff00) == DEFAULT_RHYTHM_BANK_NUMBER)) r = dfind(drum | (bank & 0xff), prog);
    if (r < 0 && bank != def) {
        r = dfind(drum | def, prog);
        if (r < 0) r = dfind(drum, prog);
    }
    if (r < 0 && drum && prog) {
        r = dfind(drum | def, 0);
        if (r < 0) r = dfind(drum, 0);
    }
    return r;
}

void harness(void)
{
    int i, r, q, drum, use_dls = DLS, key, n = 0, hit;
    uint32_t bank;
    uint8_t ch = nd_u8() & (NUM_SYNTH_CHANNELS - 1), prog = nd_u8() & 127, note = nd_u8() & 127, vel = nd_u8() & 127, k;
    S_SYNTH_CHANNEL *c = &syn.channels[ch], other;
    /* the library */
    banks[0].locale = nd_u16() & 0x7f7f;
    for (i = 0; i < 128; i++) banks[0].regionIndex[i] = INVALID_REGION_INDEX;
    for (i = 0; i < 2; i++) {
        uint8_t p = i ? prog : 0, v = nd_u8() & 7;
        banks[0].regionIndex[p] = v < NR ? v : INVALID_REGION_INDEX;
    }
    for (i = 0; i < NP; i++) {
        progs[i].locale = (EAS_U32) (nd_u32() & 0x7f7f7f); progs[i].regionIndex = nd_u8() & (NR - 1);
        dprogs[i].locale = (EAS_U32) (nd_u32() & 0x17f7f7f); r = nd_u8() & 3;
        dprogs[i].regionIndex = (r < ND ? r : 0) | FLAG_RGN_IDX_DLS_SYNTH;
    }
    for (i = 0; i < NR; i++) {
        regs[i].region.rangeLow = nd_u8(); regs[i].region.rangeHigh = nd_u8();
        regs[i].region.keyGroupAndFlags = nd_u16() & 0x8f41;
    }
    regs[NR - 1].region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
    for (i = 0; i < ND; i++) {
        dregs[i].wtRegion.region.rangeLow = nd_u8(); dregs[i].wtRegion.region.rangeHigh = nd_u8();
        dregs[i].wtRegion.region.keyGroupAndFlags = (nd_u16() & 0x8001) | REGION_FLAG_NON_SELF_EXCLUSIVE;
        dregs[i].velLow = nd_u8(); dregs[i].velHigh = nd_u8();
    }
    dregs[ND - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
    dls.pDLSPrograms = dprogs; dls.pDLSRegions = dregs; dls.numDLSPrograms = NP; dls.numDLSRegions = ND; dls.refCount = 1;
    /* the stream */
    vm.pGlobalEAS = &lib; vm.maxPolyphony = NVO; vm.pSynth[0] = &syn;
    for (i = 0; i < NVO; i++) vm.voices[i].channel = vm.voices[i].nextChannel = UNASSIGNED_SYNTH_CHANNEL;
    syn.pEAS = &lib; syn.pDLS = use_dls ? &dls : NULL; syn.priority = 5;
    syn.globalTranspose = nd_i8(); ASSUME(syn.globalTranspose >= -12 && syn.globalTranspose <= 12);
    for (i = 0; i < NUM_SYNTH_CHANNELS; i++) {
        syn.channels[i].pool = i; syn.poolAlloc[i] = NVO;
        syn.channels[i].coarsePitch = nd_i8(); ASSUME(syn.channels[i].coarsePitch >= -64 && syn.channels[i].coarsePitch <= 63);
        syn.channels[i].bankNum = nd_u16() & 0x7f7f;
        syn.channels[i].channelFlags = nd_bool() ? CHANNEL_FLAG_RHYTHM_CHANNEL : 0;
        syn.channels[i].regionIndex = nd_u8() & (NR - 1); syn.channels[i].programNum = nd_u8() & 127;
    }
    q = nd_u8() & (NUM_SYNTH_CHANNELS - 1); ASSUME(q != ch);
    other = syn.channels[q];
    /* reference */
    bank = c->bankNum;
    drum = (bank >> 8) == DEFAULT_RHYTHM_BANK_MSB ? 1 : (bank >> 8) == DEFAULT_MELODY_BANK_MSB ? 0 : !!(c->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL);
    r = use_dls ? dls_lookup(bank, drum ? 0x10000 : 0, prog) : -1;
#if DLS
    if (r >= 0) REACH("an instrument is found in the collection");
#endif
    if (r < 0) {
        uint32_t def = drum ? DEFAULT_RHYTHM_BANK_NUMBER : DEFAULT_MELODY_BANK_NUMBER;
        r = find(bank, prog);
        if (r >= 0) REACH("an instrument is found in the library");
        if (r < 0) r = find(def, prog);
        if (r < 0) r = find(def, 0);
        if (r < 0) r = DEFAULT_REGION_INDEX;
    }
    VMProgramChange(&vm, &syn, ch, prog);
    CHECK(c->regionIndex == r, "the program change selects the first instrument that exists in the documented order");
    CHECK(c->programNum == prog && c->bankNum == bank, "the program is remembered");
    CHECK(!(c->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL) == !drum, "the bank makes the channel rhythmic or melodic");
    CHECK(syn.channels[q].regionIndex == other.regionIndex && syn.channels[q].programNum == other.programNum && syn.channels[q].channelFlags == other.channelFlags, "other channels keep their instruments");
    CHECK(started == 0, "a program change starts nothing");
    key = note + c->coarsePitch + (drum ? 0 : syn.globalTranspose);
    key = key < 0 ? 0 : key > 127 ? 127 : key;
    VMStartNote(&vm, &syn, ch, note, vel);
    CHECK(!bad, "every region played exists");
    r = c->regionIndex;
    if (r & FLAG_RGN_IDX_DLS_SYNTH) {
        for (i = r & REGION_INDEX_MASK; i < ND; i++) {
            if (key >= dregs[i].wtRegion.region.rangeLow && key <= dregs[i].wtRegion.region.rangeHigh && vel >= dregs[i].velLow && vel <= dregs[i].velHigh) {
                CHECK(n < started && region_of[n] == i && isdls[n], "every matching layer of the instrument is played");
                n++;
            }
            if (dregs[i].wtRegion.region.keyGroupAndFlags & REGION_FLAG_LAST_REGION) break;
        }
    } else {
        for (i = r; i < NR; i++) {
            if (key >= regs[i].region.rangeLow && key <= regs[i].region.rangeHigh) {
                CHECK(started == 1 && region_of[0] == i && !isdls[0], "the first matching region of the instrument is played");
                n = 1;
                break;
            }
            if (regs[i].region.keyGroupAndFlags & REGION_FLAG_LAST_REGION) break;
        }
    }
    CHECK(started == n, "no other region is played");
    k = 0; hit = 0;
    for (i = 0; i < NVO; i++) if (vm.voices[i].voiceState != eVoiceStateFree) {
        k++;
        if (vm.voices[i].channel != ch || vm.voices[i].note != note || vm.voices[i].velocity != vel) hit = 1;
    }
    CHECK(k == n && !hit, "each played region uses one voice, with the note's own channel, key and velocity");
    if (n) REACH("a note is played");
    if (n == 0) REACH("a note outside every region is silent");
    REACH("end");
}
