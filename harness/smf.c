/* C02-C06, C09: the Standard MIDI File reader, driven through its parser table,
 * over a symbolic file.  The host file layer is replaced by its C01 contract, the
 * synthesizer by recorders; the MIDI byte decoder is the real one. */
#include "verif.h"
#include "eas_data.h"
#include "eas_miditypes.h"
#include "eas_parser.h"
#include "eas_midi.h"
#include "eas_smf.h"
#include "eas_smfdata.h"
#include "eas_config.h"
#include "eas_vm_protos.h"

#ifndef FS
#define FS 16
#endif
#ifndef NT
#define NT 2            /* tracks */
#endif
extern S_FILE_PARSER_INTERFACE EAS_SMF_Parser;

/* ---- host layer by contract (C01) ---- */
struct eas_hw_file_tag { int open; long pos; };
#define NH 4
static struct eas_hw_file_tag h0, h1, h2, h3;
static uint8_t file[FS];
static long fsize = FS;
static int nopen, bad_handle, dup_fail;

static struct eas_hw_file_tag *H(int i) { return i == 0 ? &h0 : i == 1 ? &h1 : i == 2 ? &h2 : &h3; }
static int valid(EAS_FILE_HANDLE f)
{
    if ((f == &h0 || f == &h1 || f == &h2 || f == &h3) && f->open) return 1;
    CHECK(0, "only open file handles are used");
    bad_handle = 1; return 0;
}
static int byte_at(EAS_FILE_HANDLE f, uint8_t *c)
{
    if (!valid(f)) return 0;
    if (f->pos < 0 || f->pos >= fsize) return 0;
    *c = file[f->pos]; f->pos++;
    return 1;
}
EAS_RESULT EAS_HWReadFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p, EAS_I32 n, EAS_I32 *pn)
{
    EAS_I32 i, avail;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (n < 0) return EAS_EOF;
    avail = fsize - f->pos;
    if (avail > n) avail = n;
    if (avail < 0) return EAS_EOF;
    for (i = 0; i < FS; i++) if (i < avail) ((uint8_t *) p)[i] = file[f->pos + i];
    f->pos += avail; *pn = avail;
    return avail == n ? EAS_SUCCESS : EAS_EOF;
}
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p)
{
    uint8_t c;
    if (!byte_at(f, &c)) return EAS_EOF;
    *(uint8_t *) p = c; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWGetWord(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p, EAS_BOOL msb)
{
    uint8_t a, b;
    if (!byte_at(f, &a) || !byte_at(f, &b)) return EAS_EOF;
    *(EAS_U16 *) p = msb ? a << 8 | b : b << 8 | a; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWGetDWord(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p, EAS_BOOL msb)
{
    uint8_t a, b, c, e;
    if (!byte_at(f, &a) || !byte_at(f, &b) || !byte_at(f, &c) || !byte_at(f, &e)) return EAS_EOF;
    *(EAS_U32 *) p = msb ? (EAS_U32) a << 24 | (EAS_U32) b << 16 | (EAS_U32) c << 8 | e
                         : (EAS_U32) e << 24 | (EAS_U32) c << 16 | (EAS_U32) b << 8 | a;
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFilePos(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 *p)
{
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    *p = f->pos; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 p)
{
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (p < 0 || p > fsize) return EAS_ERROR_FILE_SEEK;
    f->pos = p; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFileSeekOfs(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 p)
{
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (p < -f->pos || p > fsize - f->pos) return EAS_ERROR_FILE_SEEK;
    f->pos += p; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWDupHandle(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_FILE_HANDLE *q)
{
    struct eas_hw_file_tag *n = !h1.open ? &h1 : !h2.open ? &h2 : !h3.open ? &h3 : 0;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (dup_fail || !n) return EAS_ERROR_MAX_FILES_OPEN;
    n->open = 1; n->pos = f->pos; nopen++; *q = n; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f)
{
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    f->open = 0; nopen--; return EAS_SUCCESS;
}
static S_SMF_DATA mem_d, zero_d;
static S_SMF_STREAM mem_1[1], mem_2[2], mem_3[3];
static int have_d, have_s, fail_d, fail_s, bad_alloc;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE hw, EAS_I32 n)
{
    if (n == sizeof(S_SMF_DATA)) { if (fail_d) return 0; if (have_d) bad_alloc = 1; have_d = 1; return &mem_d; }
    if (fail_s) return 0;
    if (have_s) bad_alloc = 1;
    have_s = 1;
    if (n == sizeof mem_1) return mem_1;
    if (n == sizeof mem_2) return mem_2;
    if (n == sizeof mem_3) return mem_3;
    bad_alloc = 1; return 0;
}
void EAS_HWFree(EAS_HW_DATA_HANDLE hw, void *p)
{
    if (p == &mem_d) { if (!have_d) bad_alloc = 1; have_d = 0; }
    else if (p == mem_1 || p == mem_2 || p == mem_3) { if (!have_s) bad_alloc = 1; have_s = 0; }
    else bad_alloc = 1;
}
static S_SMF_STREAM zero_s;
void *EAS_HWMemSet(void *p, int v, EAS_I32 n)
{
    if (p == &mem_d) mem_d = zero_d;
    else if (p == mem_1) mem_1[0] = zero_s;
    else if (p == mem_2) mem_2[0] = mem_2[1] = zero_s;
    else if (p == mem_3) mem_3[0] = mem_3[1] = mem_3[2] = zero_s;
    else CHECK(0, "only owned memory is cleared");
    return p;
}
void *EAS_HWMemCpy(void *a, const void *b, EAS_I32 n)
{
    if (n == sizeof(S_METADATA_CB)) *(S_METADATA_CB *) a = *(const S_METADATA_CB *) b;
    else memcpy(a, b, n);
    return a;
}

/* ---- synthesizer recorders ---- */
static S_EAS_DATA d;
static S_VOICE_MGR vm;
static S_SYNTH syn;
static int vminit_fail, nsynth, nsynth_bad, released, muted, vmreset, wrong;
static int voices;
EAS_RESULT VMInitMIDI(S_EAS_DATA *e, S_SYNTH **s) { if (vminit_fail) return EAS_ERROR_MALLOC_FAILED; nsynth++; *s = &syn; return EAS_SUCCESS; }
void VMMIDIShutdown(S_EAS_DATA *e, S_SYNTH *s) { if (s != &syn) nsynth_bad = 1; nsynth--; }
void VMReleaseAllVoices(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &vm || s != &syn) wrong = 1; released++; }
void VMMuteAllVoices(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &vm || s != &syn) wrong = 1; muted++; }
EAS_I32 VMActiveVoices(S_SYNTH *s) { if (s != &syn) wrong = 1; return voices; }
static int ev_n, ev_kind, ev_ch, ev_a, ev_b, n_on, n_any;
static void ev(int k, int ch, int a, int b) { ev_n++; n_any++; ev_kind = k; ev_ch = ch; ev_a = a; ev_b = b; }
void VMStartNote(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { if (m != &vm || s != &syn) wrong = 1; n_on++; ev(9, ch, n, v); }
void VMStopNote(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { if (m != &vm || s != &syn) wrong = 1; ev(8, ch, n, 0); }
void VMControlChange(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { if (m != &vm || s != &syn) wrong = 1; ev(11, ch, n, v); }
void VMProgramChange(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 p) { if (m != &vm || s != &syn) wrong = 1; ev(12, ch, p, 0); }
void VMChannelPressure(S_SYNTH *s, EAS_U8 ch, EAS_U8 v) { if (s != &syn) wrong = 1; ev(13, ch, v, 0); }
void VMPitchBend(S_SYNTH *s, EAS_U8 ch, EAS_U8 l, EAS_U8 h) { if (s != &syn) wrong = 1; ev(14, ch, l, h); }
void VMReset(S_VOICE_MGR *m, S_SYNTH *s, EAS_BOOL f) { if (m != &vm || s != &syn) wrong = 1; vmreset++; n_any++; }
void VMInitMIPTable(S_SYNTH *s) { n_any++; }
void VMSetVolume(S_SYNTH *s, EAS_U16 v) { n_any++; }
void VMSetMIPEntry(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 pri, EAS_U8 mip) { n_any++; }
void VMUpdateMIPTable(S_VOICE_MGR *m, S_SYNTH *s) { n_any++; }

/* ---- reference: variable-length quantity at p; returns position after it, or -1 when truncated ---- */
#ifndef VL
#define VL FS
#endif
static long vlq(long p, uint64_t *v)
{
    int i;
    *v = 0;
    for (i = 0; i < VL; i++) {
        if (p >= fsize) return -1;
        *v = *v << 7 | (file[p] & 0x7f);
        if (!(file[p++] & 0x80)) return p;
    }
    return -1;
}
static uint32_t be(long p, int n)
{
    uint32_t v = 0; int i;
    for (i = 0; i < n; i++) v = v << 8 | file[p + i];
    return v;
}
static void content(void) { int i; for (i = 0; i < FS; i++) file[i] = nd_u8(); }
#define MIN_(a,b) ((a) < (b) ? (a) : (b))

#ifdef OP_OPEN
/* open, prepare, prepare again, close: every file content, every failure point */
#ifndef FAULT
#define FAULT 0
#endif
#ifndef COUNT
#define COUNT NT       /* announced tracks */
#endif
#ifndef OFFS
#define OFFS 0
#endif
void harness(void)
{
    EAS_VOID_PTR inst = &d;
    EAS_RESULT r;
    int i, want_ok = 0, n = 0, first;
    long pos[3] = {0}, q; uint64_t tk[3] = {0}; uint32_t size;
    unsigned div = 0;

    content();
    h0.open = 1; nopen = 1; h0.pos = nd_range(0, 3);
    d.pVoiceMgr = &vm;
    if (FS > OFFS + 11) { file[OFFS + 10] = COUNT >> 8; file[OFFS + 11] = COUNT & 255; }
#ifdef DIVISION
    file[12] = DIVISION >> 8; file[13] = DIVISION & 255;
#endif
    if (FAULT == 1) fail_d = 1;
    if (FAULT == 2) fail_s = 1;
    if (FAULT == 3) vminit_fail = 1;
    if (FAULT == 4) dup_fail = 1;
    if (FS > OFFS + 3) { file[OFFS] = 'M'; file[OFFS + 1] = 'T'; file[OFFS + 2] = 'h'; file[OFFS + 3] = 'd'; }
    r = EAS_SMF_Parser.pfCheckFileType(&d, &h0, &inst, OFFS);
#if FS < OFFS + 4 || FAULT == 1
    CHECK(r != EAS_SUCCESS && !inst && !have_d, "recognition fails only without memory or data, and yields no reader");
    CHECK(nopen == 1 && h0.open, "recognition leaves the file open");
    REACH("not recognised");
    return;
#else
    CHECK(r == EAS_SUCCESS && inst == &mem_d && have_d, "recognition allocates one reader");
    inst = &mem_d;
#endif

    /* reference header walk */
    if (fsize >= OFFS + 14 && (n = COUNT) != 0) {
        if (n > NT) n = NT;
        want_ok = 1; q = OFFS; size = be(OFFS + 4, 4);
        for (i = 0; i < n && want_ok; i++) {
            int k, found = 0;
            for (k = 0; k < (FS - 14) / 8 + 1; k++) if (!found) {
                q = q + 8 + (long) size;
                if (q + 8 > fsize) break;
                size = be(q + 4, 4);
                if (be(q, 4) == 0x4d54726b) found = 1;
            }
            if (!found) { want_ok = 0; break; }
            pos[i] = vlq(q + 8, &tk[i]);
            ASSUME(!(q + 12 <= fsize && (file[q + 8] & file[q + 9] & file[q + 10] & file[q + 11] & 0x80)));  /* quantities of at most four bytes */
            if (pos[i] < 0 || tk[i] > 0xffffffffUL) want_ok = 0;
        }
        div = be(OFFS + 12, 2);
    }
    ASSUME(!want_ok || n < 1 || tk[0] < 0x7fffffff);
    ASSUME(!want_ok || n < 2 || tk[1] < 0x7fffffff);
    r = EAS_SMF_Parser.pfPrepare(&d, inst);
    if (r == EAS_SUCCESS) {
        CHECK(want_ok, "a file is prepared only when its header and tracks are where the lengths say");
        CHECK(mem_d.numStreams == n, "one track position per announced track");
        CHECK(mem_d.state == EAS_STATE_READY, "a prepared file is ready");
        CHECK(nsynth == 1, "a prepared file owns one synthesizer");
        CHECK(nopen == n, "one file handle per track");
        first = 0;
        for (i = 0; i < NT; i++) if (i < n) {
            S_SMF_STREAM *s = &mem_d.streams[i];
            CHECK(s->fileHandle && s->fileHandle->open, "each track has an open handle");
            CHECK(s->fileHandle->pos == pos[i], "each track is positioned at its first event");
            CHECK(s->ticks == tk[i], "each track starts after its first delta time");
            CHECK(!s->midiStream.pending && !s->midiStream.byte3 && !s->midiStream.runningStatus, "each track starts with no message in progress");
            if (tk[i] < tk[first]) first = i;
        }
        if (n == 2) CHECK(mem_d.streams[0].fileHandle != mem_d.streams[1].fileHandle, "track positions are independent");
        CHECK(mem_d.nextStream == &mem_d.streams[first], "the earliest track is first");
        CHECK(mem_d.ppqn == ((div == 0 || div >= 0x8000) ? 192 : div), "time division");
#ifdef DIVISION
        {
            uint32_t x = (512000000u / mem_d.ppqn + 500) / 1000;
            CHECK(mem_d.tickConv == (x > 65535 ? 65535 : x), "the initial tempo is 120 quarters per minute");
            CHECK(mem_d.time == (long) ((tk[0] * mem_d.tickConv) >> 2), "the first event is due after its delta time");
        }
#endif
#if FAULT == 0 && COUNT > 0 && FS >= 14 + 9 * NT
        REACH("prepared");
#endif
    } else {
        CHECK(!want_ok || FAULT == 2 || FAULT == 3 || (n > 1 && FAULT == 4), "a well-formed file is prepared");
        CHECK(mem_d.state != EAS_STATE_READY, "a rejected file is not ready");
        REACH("rejected");
    }
    {
#ifdef RETRY
        int was = r == EAS_SUCCESS;
        EAS_STATE st;
        CHECK(EAS_SMF_Parser.pfState(&d, inst, &st) == EAS_SUCCESS, "the state can be asked after preparing");
        /* the failure may be over by the time the application tries again */
        fail_s = 0; vminit_fail = 0; dup_fail = 0;
        r = EAS_SMF_Parser.pfPrepare(&d, inst);
        CHECK(!was || r != EAS_SUCCESS, "a file is prepared once");
        CHECK(nsynth <= 1, "no second synthesizer");
        CHECK(r == EAS_SUCCESS || was || mem_d.state != EAS_STATE_READY, "a failed retry is not ready");
#endif
    }
    CHECK(EAS_SMF_Parser.pfClose(&d, inst) == EAS_SUCCESS, "closing works");
    CHECK(nopen == 0 && !h0.open && !h1.open && !h2.open && !h3.open, "closing closes every handle once");
    CHECK(!have_d && !have_s && !bad_alloc, "closing frees everything once");
    CHECK(nsynth == 0 && !nsynth_bad, "closing releases the synthesizer");
}
#endif

#ifdef OP_TYPE
/* recognition: every content, size, offset */
void harness(void)
{
    EAS_VOID_PTR inst = &d;
    EAS_RESULT r;
    long at = nd_range(0, 3);
    int sig;
    content();
    fsize = nd_range(0, FS);
    h0.open = 1; nopen = 1; h0.pos = nd_range(0, 3);
    sig = fsize >= at + 4 && be(at, 4) == 0x4d546864;
    fail_d = nd_bool();
    r = EAS_SMF_Parser.pfCheckFileType(&d, &h0, &inst, at);
    CHECK((inst != 0) == (sig && !fail_d), "a file is recognised exactly when the signature is at the given offset");
    CHECK(r == EAS_SUCCESS || !inst, "a failed recognition yields no reader");
    CHECK(!sig || (r == EAS_SUCCESS) == !fail_d, "recognition fails only without memory");
    CHECK(have_d == (inst != 0), "memory is held only for a recognised file");
    CHECK(nopen == 1 && h0.open, "recognition leaves the file open");
    if (inst) { CHECK(inst == &mem_d && mem_d.state == EAS_STATE_OPEN && mem_d.fileOffset == at && mem_d.fileHandle == &h0 && !mem_d.pSynth && !mem_d.streams, "a recognised file is open but not prepared"); REACH("yes"); }
    else REACH("no");
}
#endif

#ifdef OP_SEARCH
/* header search over an arbitrary file */
void harness(void)
{
    EAS_VOID_PTR inst = &d;
    EAS_RESULT r;
    long i, at = -1;
    content();
    fsize = nd_range(0, FS);
    h0.open = 1; nopen = 1; d.searchHeaderFlag = 1;
    for (i = FS - 4; i >= 0; i--) if (i + 4 <= fsize && be(i, 4) == 0x4d546864) at = i;
    r = EAS_SMF_Parser.pfCheckFileType(&d, &h0, &inst, 0);
    CHECK(r == EAS_SUCCESS, "searching succeeds");
    CHECK((inst != 0) == (at >= 0), "a file is recognised exactly when it contains the signature");
    if (inst) { CHECK(mem_d.fileOffset == at, "the first signature is found"); REACH("found"); }
    else REACH("absent");
    CHECK(h0.open && nopen == 1, "the file stays open");
}
#endif

#ifdef OP_EVENT
/* One event from an arbitrary state in play, on arbitrary bytes. */
#ifndef POS
#define POS 2
#endif
#ifndef CUR
#define CUR 0           /* the track that is due */
#endif
static S_SMF_DATA *s = &mem_d;
static S_SMF_STREAM *tr = NT == 1 ? mem_1 : NT == 2 ? mem_2 : mem_3;
#ifdef META
static char mbuf[8];
static int cb_n, cb_type, cb_bad;
static void cb(E_EAS_METADATA_TYPE t, char *b, EAS_VOID_PTR u) { cb_n++; cb_type = t; if (b != mbuf || u != (void *) mbuf) cb_bad = 1; }
#endif
void harness(void)
{
    EAS_RESULT r;
    int i, best, mode, c, kind = 0, nd = 0, rs, over = 0, eot = 0, unread = 0;
    long p, e = -1, len = 0, t0; uint64_t dt = 0, v, tk0, old[3], nt[3];
    unsigned tc0, tc;

    content();
    fsize = nd_range(POS, FS);
#ifdef FIRST
    file[POS] = FIRST;
#endif
#ifdef SECOND
    file[POS + 1] = SECOND;
#endif
    c = file[POS];
#ifdef CHANNEL
    ASSUME(c < 0xf0 || (c > 0xf0 && c != 0xf7 && c != 0xff));
#endif
    have_d = 1; have_s = 1;
    d.pVoiceMgr = &vm;
    s->streams = tr; s->numStreams = NT; s->pSynth = &syn;
    h0.open = 1; h0.pos = POS; nopen = NT;
    h1.open = NT > 1; h2.open = NT > 2;
    for (i = 0; i < NT; i++) {
        tr[i].fileHandle = H(i == CUR ? 0 : i == 0 ? CUR : i);
#ifdef TLIM
        tr[i].ticks = nd_u32() & TLIM;
#else
        tr[i].ticks = nd_u32();
#endif
        old[i] = tr[i].ticks;
    }
    /* the due track is the earliest, lower-numbered tracks are strictly later */
    for (i = 0; i < NT; i++) if (i != CUR) ASSUME(i < CUR ? old[i] > old[CUR] : old[i] >= old[CUR]);
    ASSUME(old[CUR] < 0x7fffffff);
    tk0 = old[CUR];
    s->nextStream = &tr[CUR];
    rs = nd_u8(); ASSUME(rs == 0 || rs >= 0x80);
    tr[CUR].midiStream.runningStatus = rs;
    tr[CUR].midiStream.sysExState = nd_u8max(12);
#ifdef SXLO
    ASSUME(tr[CUR].midiStream.sysExState >= SXLO && tr[CUR].midiStream.sysExState <= SXHI);
#endif
    tr[CUR].midiStream.d1 = nd_u8() & 0x7f; tr[CUR].midiStream.d2 = nd_u8() & 0x7f;
    s->state = nd_bool() ? EAS_STATE_PLAY : EAS_STATE_READY;
    s->time = t0 = nd_u32();
    tc0 = s->tickConv = nd_u16();
#ifdef TC
    s->tickConv = tc0 = TC;
#endif
    s->flags = nd_u8() & (SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
    s->ppqn = PPQN;
    mode = nd_range(eParserModePlay, eParserModeMetaData);
#ifdef META
    for (i = 0; i < 8; i++) mbuf[i] = 0x55;
    {
        S_METADATA_CB m;
        m.callback = cb; m.buffer = mbuf; m.pUserData = mbuf; m.bufferSize = nd_range(1, 4);
        CHECK(EAS_SMF_Parser.pfSetData(&d, s, PARSER_DATA_METADATA_CB, (EAS_I32) &m) == EAS_SUCCESS, "a metadata callback can be registered");
    }
#endif

    /* ---- reference: what the bytes mean ---- */
    p = POS;
    if (p >= fsize) eot = 1;
    else if (c == 0xff) {                       /* meta event: type, length, data */
        kind = 1;
        if (p + 1 >= fsize || (p = vlq(p + 2, &v)) < 0) eot = 1;
        else if (v > 0x7fffffffUL - FS) over = 1;
        else { len = v; e = p + len; if (e > fsize) over = 1; }
    } else if (c == 0xf0 || c == 0xf7) {
        kind = 2;
        if ((p = vlq(p + 1, &v)) < 0) eot = 1;
        else { len = v; if (v > FS || p + len > fsize) eot = 1; else e = p + len; }
    } else if ((c >= 0x80 && c < 0xf0) || (c < 0x80 && rs >= 0x80 && rs < 0xf0)) {
        int stt = c >= 0x80 ? c : rs, b = p + (c >= 0x80);
        nd = (stt >= 0xc0 && stt < 0xe0) ? 1 : 2;
        kind = 3;
        for (i = 0; i < nd; i++) if (!eot) {
            if (b + i >= fsize) eot = 1;
            else if (file[b + i] >= 0x80) { kind = 4; }
        }
        if (kind == 3 && !eot) {
            e = b + nd;
            rs = stt;
        }
    } else kind = 4;                            /* stray bytes: only safety is claimed */

    r = EAS_SMF_Parser.pfEvent(&d, s, mode);
    CHECK(!wrong, "events act on this file's synthesizer");
    CHECK(nopen == NT && have_d && have_s, "nothing is released while playing");
    CHECK(h0.pos >= 0 && h0.pos <= fsize, "the position stays inside the file");
    CHECK(tr[CUR].ticks >= tk0, "a track never goes back in time");
    CHECK(s->time >= t0, "time never goes back");
    for (i = 0; i < NT; i++) if (i != CUR) CHECK(tr[i].ticks == old[i], "other tracks are untouched");
    CHECK(mode == eParserModePlay || !n_on, "no note starts unless playing");
    CHECK(mode != eParserModeMetaData || !n_any, "scanning changes nothing in the synthesizer");
    if (r != EAS_SUCCESS) {
        CHECK(s->state == EAS_STATE_ERROR, "a failed event puts playback in the error state");
        CHECK(kind == 4 || over || (e >= 0 && (vlq(e, &v) >= 0 && v > 0xffffffffUL - tk0)), "only malformed data fails");
    } else if (fsize > POS) CHECK(h0.pos > POS, "an event consumes file data");
    if (kind == 3 && mode == eParserModePlay) {
        int stt = rs >> 4;
        if (e < 0) CHECK(ev_n == 0, "a truncated message is not delivered");
        else if (stt == 10) CHECK(ev_n == 0, "key pressure is ignored");
        else {
            int a = file[e - nd], b2 = nd == 2 ? file[e - 1] : 0;
            if (stt == 9 && b2 == 0) stt = 8;
            if (stt == 8) b2 = 0;
            CHECK(ev_n == 1 && ev_kind == stt && ev_ch == (rs & 15) && ev_a == a && ev_b == b2, "the message in the file is delivered");
        }
    }
    if (kind == 1) CHECK(!n_any, "meta events do not reach the synthesizer");

    /* ---- due time of this track ---- */
    if (kind != 4 && r == EAS_SUCCESS && !over) {
        if (e >= 0) {
            if (kind == 1 && file[POS + 1] == SMF_META_END_OF_TRACK) eot = 1;
            else if (kind == 1 && file[POS + 1] == SMF_META_TEMPO) {
                /* tempo: only the standard three-byte form is specified */
                if (len == 3) {
                    uint64_t us = be(p, 3), x = (us * 1024 / PPQN + 500) / 1000;
                    CHECK(s->tickConv == (x > 65535 ? 65535 : x), "tempo in effect");
                }
            } else CHECK(s->tickConv == tc0, "only tempo events change the tempo");
            if (!eot) {
                long q = vlq(e, &dt);
                if (q < 0) eot = 1;
                else CHECK(h0.pos == q, "the next event starts right after this one and its delta time");
            }
        }
        if (eot || e < 0) CHECK(tr[CUR].ticks == SMF_END_OF_TRACK, "the track has ended");
        else CHECK(tr[CUR].ticks == tk0 + dt, "the delta time is added to the track");
    }
    if (r == EAS_SUCCESS) {
        /* ---- selection ---- */
        best = -1;
        for (i = 0; i < NT; i++) nt[i] = tr[i].ticks;
        for (i = 0; i < NT; i++) if (nt[i] < 0x7fffffff && (best < 0 || nt[i] < nt[best])) best = i;
        if (best < 0) {
            CHECK(s->state == EAS_STATE_STOPPING && !s->nextStream, "playback stops when every track has ended");
            CHECK(released == 1, "the remaining notes are released at the end");
#ifndef TLIM
            REACH("ended");
#endif
        } else {
            CHECK(s->state == EAS_STATE_PLAY, "playback continues");
            CHECK(s->nextStream == &tr[best], "the earliest track is due next, lower-numbered first");
            CHECK(!released, "notes are released only at the end");
#ifdef TIMING
            tc = s->tickConv;
            if (!(s->flags & SMF_FLAGS_CHASE_MODE))
                CHECK((uint64_t) (s->time - t0) == (((nt[best] - tk0) * (uint64_t) tc) >> 2), "time advances by the elapsed ticks at the tempo in effect");
#endif
            REACH("next");
        }
    }
#ifndef TLIM
    else REACH("error");
#endif
#ifdef META
    {
        int ty = file[POS + 1], want = ty == 1 ? EAS_METADATA_TEXT : ty == 2 ? EAS_METADATA_COPYRIGHT : ty == 3 ? EAS_METADATA_TITLE : ty == 5 ? EAS_METADATA_LYRIC : -1;
        long bs = s->metadata.bufferSize;
        CHECK(!cb_bad, "the callback gets the caller's buffer and data");
        if (kind == 1 && e >= 0 && !over && want >= 0) {
            long k = MIN_(len, bs - 1);
            CHECK(cb_n == 1 && cb_type == want, "a text event is delivered once with its kind");
            for (i = 0; i < 4; i++) if (i < k) CHECK((uint8_t) mbuf[i] == file[p + i], "the text is exactly the file's");
            CHECK(mbuf[k] == 0, "the text is terminated");
            REACH("text");
        } else if (kind != 1 || want < 0 || eot) CHECK(cb_n == 0, "nothing else is delivered");
        for (i = 0; i < 8; i++) if (i >= bs) CHECK(mbuf[i] == 0x55, "nothing is written beyond the caller's buffer");
    }
#endif
}
#endif

#ifdef OP_RESET
/* Reset from any state reached in playback restores the state after preparing. */
static struct snap { uint64_t tk[2]; long pos[2]; S_MIDI_STREAM ms[2]; int next, state, flags; long time; unsigned tc; } a, b;
static void take(struct snap *q)
{
    int i;
    for (i = 0; i < NT; i++) {
        S_SMF_STREAM *t = &(NT == 1 ? mem_1 : mem_2)[i];
        q->tk[i] = t->ticks; q->pos[i] = t->fileHandle->pos; q->ms[i] = t->midiStream;
    }
    q->next = mem_d.nextStream - (NT == 1 ? mem_1 : mem_2);
    q->state = mem_d.state; q->flags = mem_d.flags; q->time = mem_d.time; q->tc = mem_d.tickConv;
}
void harness(void)
{
    static const uint8_t head[] = { 'M','T','h','d', 0,0,0,6, 0,1, 0,NT, PPQN >> 8,PPQN & 255, 'M','T','r','k', 0,0,0,4 };
    static const uint8_t head2[] = { 'M','T','r','k', 0,0,0,4 };
    EAS_VOID_PTR inst = 0;
    int i;
    content();
    for (i = 0; i < 22; i++) file[i] = head[i];
#if NT == 2
    for (i = 0; i < 8; i++) file[26 + i] = head2[i];
    ASSUME(!(file[34] & file[35] & file[36] & 0x80));
#endif
    ASSUME(!(file[22] & file[23] & file[24] & 0x80));        /* first delta of at most three bytes */
    h0.open = 1; nopen = 1; d.pVoiceMgr = &vm;
    if (EAS_SMF_Parser.pfCheckFileType(&d, &h0, &inst, 0) != EAS_SUCCESS) return;
    CHECK(EAS_SMF_Parser.pfPrepare(&d, inst) == EAS_SUCCESS, "a well-formed file is prepared");
    take(&a);
    /* anything playback may have changed */
    for (i = 0; i < NT; i++) {
        S_SMF_STREAM *t = &(NT == 1 ? mem_1 : mem_2)[i];
        t->ticks = nd_u32(); t->fileHandle->pos = nd_range(0, FS);
        t->midiStream.byte3 = nd_bool(); t->midiStream.pending = nd_bool(); t->midiStream.runningStatus = nd_u8();
        t->midiStream.sysExState = nd_u8max(12); t->midiStream.status = nd_u8(); t->midiStream.flags = nd_u8() & 3;
    }
    mem_d.nextStream = nd_bool() ? 0 : NT == 1 ? mem_1 : mem_2;
    mem_d.time = nd_u32(); mem_d.tickConv = nd_u16(); mem_d.flags = nd_u8() & (SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
    mem_d.state = nd_u8max(EAS_STATE_PAUSED);
    CHECK(EAS_SMF_Parser.pfReset(&d, inst) == EAS_SUCCESS, "a prepared file can be reset");
    take(&b);
    CHECK(vmreset == 1 && !wrong, "resetting resets the synthesizer");
    for (i = 0; i < NT; i++) {
        CHECK(a.tk[i] == b.tk[i] && a.pos[i] == b.pos[i], "each track is back at its first event");
        CHECK(!b.ms[i].byte3 && !b.ms[i].pending && b.ms[i].runningStatus == a.ms[i].runningStatus && b.ms[i].flags == a.ms[i].flags && b.ms[i].sysExState == a.ms[i].sysExState, "no message is in progress");
    }
    CHECK(a.next == b.next, "the same track is due first");
    CHECK(a.time == b.time, "the first event is due at the same time");
    CHECK(a.tc == b.tc, "the tempo is the initial one");
    CHECK(a.flags == b.flags && a.state == b.state, "the state is ready");
    CHECK(nopen == NT && have_d && have_s, "nothing is released or acquired");
    REACH("reset");
}
#endif

#ifdef OP_STATE
/* one query, pause or resume request from any state */
void harness(void)
{
    EAS_STATE st; EAS_U32 ms; EAS_I32 v;
    EAS_RESULT r;
    int s0 = nd_u8max(EAS_STATE_EMPTY), want, op = nd_range(0, 4);
    EAS_VOID_PTR inst = &mem_d;
    d.pVoiceMgr = &vm;
    have_d = have_s = 1; mem_d.streams = mem_1; mem_d.numStreams = 1; mem_d.pSynth = &syn; mem_d.nextStream = nd_bool() ? &mem_1[0] : 0;
    mem_1[0].fileHandle = &h0; h0.open = 1; nopen = 1;
    mem_d.state = s0; mem_d.time = nd_range(0, 0x7fffffffffL);
    voices = nd_range(0, 8);
    want = s0;
    if (op == 0) {
        if (!voices && s0 == EAS_STATE_STOPPING) want = EAS_STATE_STOPPED;
        if (!voices && s0 == EAS_STATE_PAUSING) want = EAS_STATE_PAUSED;
        r = EAS_SMF_Parser.pfState(&d, inst, &st);
        CHECK(r == EAS_SUCCESS && st == want && mem_d.state == want, "stopping and pausing complete exactly when the voices are silent");
        REACH("state");
    } else if (op == 1) {
        ASSUME(s0 == EAS_STATE_PLAY || s0 == EAS_STATE_READY || s0 == EAS_STATE_STOPPED);
        r = EAS_SMF_Parser.pfPause(&d, inst);
        if (s0 == EAS_STATE_STOPPED) CHECK(r != EAS_SUCCESS && mem_d.state == s0 && !muted, "a stopped file cannot be paused");
        else CHECK(r == EAS_SUCCESS && mem_d.state == EAS_STATE_PAUSING && muted == 1, "pausing silences the file");
        REACH("pause");
    } else if (op == 2) {
        ASSUME(s0 == EAS_STATE_PAUSED || s0 == EAS_STATE_PAUSING || s0 == EAS_STATE_STOPPED);
        r = EAS_SMF_Parser.pfResume(&d, inst);
        if (s0 == EAS_STATE_STOPPED) CHECK(r != EAS_SUCCESS && mem_d.state == s0, "a stopped file cannot be resumed");
        else CHECK(r == EAS_SUCCESS && mem_d.state == EAS_STATE_PLAY, "resuming continues playback");
        REACH("resume");
    } else if (op == 3) {
        r = EAS_SMF_Parser.pfTime(&d, inst, &ms);
        CHECK(r == EAS_SUCCESS && ms == mem_d.time >> 8 && mem_d.state == s0, "the time of the next event is reported in milliseconds");
        REACH("time");
    } else {
        ASSUME(s0 >= EAS_STATE_OPEN);
        r = EAS_SMF_Parser.pfEvent(&d, inst, eParserModePlay);
        CHECK(mem_d.state == s0 && h0.pos == 0 && !n_any, "nothing is played unless the file is prepared");
        REACH("event");
    }
    CHECK(!wrong && nopen == 1, "only this file is affected");
}
#endif
