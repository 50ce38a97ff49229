/* C05, C09, C10, C11, C26, C27: the real public interface (eas_public.c) over stand-ins
 * for the file parsers (obeying the contract the real SMF reader is checked against in
 * C02-C06), the host layer, the voice manager and the mixer. */
#include "verif.h"
#include "eas.h"
#include "eas_data.h"
#include "eas_config.h"
#include "eas_parser.h"
#include "eas_midi.h"
#include "eas_mixer.h"
#include "eas_pcm.h"
#include "eas_mdls.h"
#include "eas_vm_protos.h"
#include "eas_miditypes.h"
#include "eas_build.h"

static S_EAS_DATA d;
static S_VOICE_MGR vm;
static S_SYNTH syn0, syn1, syn2, syn3, syn4;
struct eas_hw_inst_data_tag { int dummy; };
static struct eas_hw_inst_data_tag hwinst;

/* ---- counted resources ---- */
static int n_hw, n_data, n_vm, n_mix, n_pe, n_fxr, n_fxc, n_files, n_live, n_synth, n_bad;
static int n_dls;

/* ---- stand-in parser ---- */
struct P { int open; EAS_STATE st; EAS_U32 t, t0, dt; int left, n0; S_SYNTH *syn; int fail;
           int nev, npause, nresume, nreset, nprep, nclose, nset, setp; EAS_I32 setv; EAS_U32 last, first; int mode; };
static struct P p0, p1, p2, p3, p4;
static int silent;              /* no voice of the streams sounds any more */
static EAS_I32 gainoff; static int has_gainoff, prep_fail, recognised, check_fail, close_fail;

static struct P *pp(void *h)
{
    struct P *p = (struct P *) h;
    CHECK(p == &p0 || p == &p1 || p == &p2 || p == &p3 || p == &p4, "the parser is called with a parser's handle");
    CHECK(p->open, "the parser is called with an open handle");
    return p;
}
static EAS_RESULT sState(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_STATE *s)
{
    struct P *p = pp(h);
    if (p->st == EAS_STATE_STOPPING && silent) p->st = EAS_STATE_STOPPED;
    if (p->st == EAS_STATE_PAUSING && silent) p->st = EAS_STATE_PAUSED;
    *s = p->st; return EAS_SUCCESS;
}
static EAS_RESULT sTime(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_U32 *t) { *t = pp(h)->t; return EAS_SUCCESS; }
static EAS_RESULT sEvent(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_INT mode)
{
    struct P *p = pp(h);
    if (p->st >= EAS_STATE_OPEN) return EAS_SUCCESS;
    if (p->left == 0) return EAS_ERROR_FILE_FORMAT;
    if (p->fail) { p->st = EAS_STATE_ERROR; return EAS_ERROR_FILE_FORMAT; }
    if (!p->nev) p->first = p->t;
    p->nev++; p->last = p->t; p->mode |= 1 << mode;
    if (--p->left == 0) p->st = EAS_STATE_STOPPING;
    else { p->st = EAS_STATE_PLAY; p->t += p->dt; }
    return EAS_SUCCESS;
}
static EAS_RESULT sPrepare(S_EAS_DATA *e, EAS_VOID_PTR h)
{
    struct P *p = pp(h); p->nprep++;
    if (prep_fail) { p->st = EAS_STATE_ERROR; return EAS_ERROR_FILE_FORMAT; }
    p->st = EAS_STATE_READY;
    if (!p->syn) { p->syn = p == &p0 ? &syn0 : p == &p1 ? &syn1 : p == &p2 ? &syn2 : p == &p3 ? &syn3 : &syn4; p->syn->refCount = 1; n_synth++; }
    return EAS_SUCCESS;
}
static EAS_RESULT sReset(S_EAS_DATA *e, EAS_VOID_PTR h) { struct P *p = pp(h); p->nreset++; p->t = p->t0; p->left = p->n0; p->st = EAS_STATE_READY; return EAS_SUCCESS; }
static EAS_RESULT sPause(S_EAS_DATA *e, EAS_VOID_PTR h)
{
    struct P *p = pp(h);
    if (p->st == EAS_STATE_STOPPED) return EAS_ERROR_ALREADY_STOPPED;
    p->npause++; p->st = EAS_STATE_PAUSING; return EAS_SUCCESS;
}
static EAS_RESULT sResume(S_EAS_DATA *e, EAS_VOID_PTR h)
{
    struct P *p = pp(h);
    if (p->st == EAS_STATE_STOPPED) return EAS_ERROR_ALREADY_STOPPED;
    p->nresume++; p->st = EAS_STATE_PLAY; return EAS_SUCCESS;
}
static S_METADATA_CB md;
static EAS_RESULT sSet(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_I32 prm, EAS_I32 v)
{
    struct P *p = pp(h); p->nset++; p->setp = prm; p->setv = v;
    if (prm == PARSER_DATA_METADATA_CB) { md = *(S_METADATA_CB *) v; return EAS_SUCCESS; }
    return EAS_ERROR_INVALID_PARAMETER;
}
static EAS_RESULT sGet(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_I32 prm, EAS_I32 *v)
{
    struct P *p = pp(h);
    if (prm == PARSER_DATA_FILE_TYPE) { *v = EAS_FILE_SMF1; return EAS_SUCCESS; }
    if (prm == PARSER_DATA_SYNTH_HANDLE) { *v = (EAS_I32) p->syn; return EAS_SUCCESS; }
    if (prm == PARSER_DATA_GAIN_OFFSET && has_gainoff) { *v = gainoff; return EAS_SUCCESS; }
    return EAS_ERROR_INVALID_PARAMETER;
}
void VMMIDIShutdown(S_EAS_DATA *e, S_SYNTH *s);
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f);
static EAS_RESULT sCheck(S_EAS_DATA *e, EAS_FILE_HANDLE f, EAS_VOID_PTR *h, EAS_I32 ofs);
static EAS_RESULT sClose(S_EAS_DATA *e, EAS_VOID_PTR h)
{
    struct P *p = pp(h); p->nclose++;
    p->open = 0; n_files--;
    if (p->syn) { VMMIDIShutdown(e, p->syn); p->syn = 0; }
    return close_fail ? EAS_ERROR_CLOSE_FAILED : EAS_SUCCESS;
}
static const S_FILE_PARSER_INTERFACE PARSER = { sCheck, sPrepare, sTime, sEvent, sState, sClose, sReset, sPause, sResume, NULL, sSet, sGet, NULL };

static S_EAS_STREAM snap0, snap1;
#define SAME(a, b) ((a).pParserModule == (b).pParserModule && (a).time == (b).time && (a).frameLength == (b).frameLength && (a).repeatCount == (b).repeatCount && (a).handle == (b).handle && (a).volume == (b).volume && (a).streamFlags == (b).streamFlags)

/* a stream slot; kinds: 0 closed, 1 file, 2 raw MIDI */
static void slot_init(S_EAS_STREAM *s, int kind, void *h)
{
    s->pParserModule = kind == 1 ? (void *) &PARSER : 0;
    s->handle = kind ? h : 0;
    s->frameLength = AUDIO_FRAME_LENGTH; s->volume = DEFAULT_STREAM_VOLUME; s->time = 0; s->repeatCount = 0; s->streamFlags = 0;
}
static void file_init(struct P *p, EAS_STATE st)
{
    p->open = 1; p->st = st; n_files++;
    p->syn = 0;
}

/* ---- raw MIDI streams ---- */
static S_INTERACTIVE_MIDI m0, m1, m2;
static int live0, live1, live2, malloc_fail, parsed, parse_syn_bad;
static S_SYNTH *want_syn; static S_MIDI_STREAM *want_ms; static unsigned bytesum;
EAS_RESULT EAS_ParseMIDIStream(S_EAS_DATA *e, S_SYNTH *s, S_MIDI_STREAM *ms, EAS_U8 c, EAS_INT mode)
{
    parsed++; bytesum = bytesum * 31 + c;
    if (s != want_syn || ms != want_ms || mode != eParserModePlay || !s) parse_syn_bad = 1;
    return EAS_SUCCESS;
}
void EAS_InitMIDIStream(S_MIDI_STREAM *ms) { }

#ifndef REALVM
void VMInitWorkload(S_VOICE_MGR *v) { }
EAS_BOOL VMCheckWorkload(S_VOICE_MGR *v) { return EAS_FALSE; }
static int r_prep, r_vm, r_pe, r_post, r_order, r_n; static EAS_PCM *r_out; static int ev_at_render0, ev_at_render1, vm_fail, pe_fail;
EAS_RESULT VMRender(S_VOICE_MGR *v, EAS_I32 n, EAS_I32 *mix, EAS_I32 *nv)
{
    r_vm++; if (n != BUFFER_SIZE_IN_MONO_SAMPLES || mix != d.pMixBuffer || !r_prep || r_post || v != &vm) r_order = 1;
    ev_at_render0 = p0.nev; ev_at_render1 = p1.nev; *nv = 0; return vm_fail ? EAS_ERROR_DATA_INCONSISTENCY : EAS_SUCCESS;
}
void EAS_MixEnginePrep(S_EAS_DATA *e, EAS_I32 n) { r_prep++; if (n != BUFFER_SIZE_IN_MONO_SAMPLES || r_vm || r_pe || r_post) r_order = 1; }
void EAS_MixEnginePost(S_EAS_DATA *e, EAS_I32 n) { r_post++; if (n != BUFFER_SIZE_IN_MONO_SAMPLES || !r_vm || !r_pe) r_order = 1; r_out = e->pOutputAudioBuffer; }
EAS_RESULT EAS_PERender(S_EAS_DATA *e, EAS_I32 n) { r_pe++; if (n != BUFFER_SIZE_IN_MONO_SAMPLES || !r_prep || r_post) r_order = 1; return pe_fail ? EAS_ERROR_DATA_INCONSISTENCY : EAS_SUCCESS; }
static S_SYNTH *set_syn; static EAS_I32 set_val; static int n_vmset, vmset_fail, n_reset;
EAS_RESULT VMSetPolyphony(S_VOICE_MGR *v, S_SYNTH *s, EAS_I32 x) { n_vmset++; set_syn = s; set_val = x; return EAS_SUCCESS; }
EAS_RESULT VMGetPolyphony(S_VOICE_MGR *v, S_SYNTH *s, EAS_I32 *x) { *x = set_val; return EAS_SUCCESS; }
EAS_RESULT VMSetPriority(S_VOICE_MGR *v, S_SYNTH *s, EAS_I32 x) { n_vmset++; set_syn = s; set_val = x; return EAS_SUCCESS; }
EAS_RESULT VMGetPriority(S_VOICE_MGR *v, S_SYNTH *s, EAS_I32 *x) { *x = set_val; return EAS_SUCCESS; }
EAS_RESULT VMSetSynthPolyphony(S_VOICE_MGR *v, EAS_I32 n, EAS_I32 x) { n_vmset++; return EAS_SUCCESS; }
EAS_RESULT VMGetSynthPolyphony(S_VOICE_MGR *v, EAS_I32 n, EAS_I32 *x) { *x = 0; return EAS_SUCCESS; }
void VMSetTranposition(S_SYNTH *s, EAS_I32 x) { n_vmset++; set_syn = s; set_val = x; }
void VMGetTranposition(S_SYNTH *s, EAS_I32 *x) { *x = set_val; }
EAS_I32 VMGetNoteCount(S_SYNTH *s) { return 0; }
void VMSetWorkload(S_VOICE_MGR *v, EAS_I32 x) { }
EAS_RESULT VMSetEASLib(S_SYNTH *s, EAS_SNDLIB_HANDLE x) { n_vmset++; return EAS_SUCCESS; }
EAS_RESULT VMSetGlobalEASLib(S_VOICE_MGR *v, EAS_SNDLIB_HANDLE x) { n_vmset++; return EAS_SUCCESS; }
void VMSetVolume(S_SYNTH *s, EAS_U16 x) { n_vmset++; set_syn = s; set_val = x; }
void VMReset(S_VOICE_MGR *v, S_SYNTH *s, EAS_BOOL f) { n_reset++; if (v != &vm || !f) n_bad = 1; s->numActiveVoices = 0; }
void VMInitializeAllChannels(S_VOICE_MGR *v, S_SYNTH *s) { }
EAS_RESULT VMSetDLSLib(S_SYNTH *s, EAS_DLSLIB_HANDLE x) { s->pDLS = x; return EAS_SUCCESS; }
void VMIncRefCount(S_SYNTH *s) { CHECK(s == &syn0 || s == &syn1 || s == &syn2 || s == &syn3 || s == &syn4, "an existing synthesizer is shared"); CHECK(s->refCount > 0, "only a live synthesizer is shared"); s->refCount++; }
static int nosynth;
EAS_RESULT VMInitMIDI(S_EAS_DATA *e, S_SYNTH **s)
{
    S_SYNTH *n = !syn2.refCount ? &syn2 : !syn3.refCount ? &syn3 : !syn4.refCount ? &syn4 : !syn0.refCount ? &syn0 : &syn1;
    *s = 0;
    if (nosynth || n->refCount) return EAS_ERROR_NO_VIRTUAL_SYNTHESIZER;
    n->refCount = 1; n_synth++; *s = n; return EAS_SUCCESS;
}
void DLSAddRef(S_DLS *x) { if (x) x->refCount++; }
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE hw, S_DLS *x)
{
    if (!x) return EAS_SUCCESS;
    CHECK(x->refCount > 0, "a collection is released once per reference");
    if (--x->refCount == 0) n_dls--;
    return EAS_SUCCESS;
}
void VMMIDIShutdown(S_EAS_DATA *e, S_SYNTH *s)
{
    CHECK(s == &syn0 || s == &syn1 || s == &syn2 || s == &syn3 || s == &syn4, "only a synthesizer is released");
    CHECK(s->refCount > 0, "a synthesizer is released once per reference");
    if (--s->refCount == 0) { n_synth--; if (s->pDLS) { DLSCleanup(0, s->pDLS); s->pDLS = 0; } }
}
#else
void EAS_MixEnginePrep(S_EAS_DATA *e, EAS_I32 n) { }
void EAS_MixEnginePost(S_EAS_DATA *e, EAS_I32 n) { }
EAS_RESULT EAS_PERender(S_EAS_DATA *e, EAS_I32 n) { return EAS_SUCCESS; }
void DLSAddRef(S_DLS *x) { }
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE hw, S_DLS *x) { return EAS_SUCCESS; }
#endif
static S_DLS *vmdls;
#ifndef REALVM
EAS_RESULT VMSetGlobalDLSLib(EAS_DATA_HANDLE e, EAS_DLSLIB_HANDLE x) { if (vmdls) DLSCleanup(0, vmdls); vmdls = x; return EAS_SUCCESS; }
#endif

/* ---- host layer ---- */
static int ff0, ff1, ff2, open_fail, seek_fail;
static struct eas_hw_file_tag { int open; } f0, f1, f2;
EAS_RESULT EAS_HWOpenFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_LOCATOR l, EAS_FILE_HANDLE *f, EAS_FILE_MODE m)
{
    struct eas_hw_file_tag *n = !f0.open ? &f0 : !f1.open ? &f1 : &f2;
    *f = 0;
    if (open_fail || n->open) return EAS_ERROR_MAX_FILES_OPEN;
    n->open = 1; n_files++; *f = n; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f)
{
    CHECK(f == &f0 || f == &f1 || f == &f2, "only a file is closed");
    CHECK(f->open, "a file is closed once");
    f->open = 0; n_files--; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 pos) { return seek_fail ? EAS_ERROR_FILE_SEEK : EAS_SUCCESS; }
static EAS_RESULT sCheck(S_EAS_DATA *e, EAS_FILE_HANDLE f, EAS_VOID_PTR *h, EAS_I32 ofs)
{
    struct P *p = !p4.open ? &p4 : !p3.open ? &p3 : !p2.open ? &p2 : !p1.open ? &p1 : &p0;
    if (check_fail) return EAS_ERROR_MALLOC_FAILED;
    if (!recognised) return EAS_SUCCESS;
    CHECK(!p->open, "parser handles suffice");
    /* the parser takes the file over: closing the parser closes it */
    p->open = 1; p->st = EAS_STATE_OPEN; p->syn = 0; p->nclose = 0; f->open = 0;
    *h = p; return EAS_SUCCESS;
}
EAS_BOOL EAS_HWYield(EAS_HW_DATA_HANDLE hw) { return EAS_FALSE; }
static int mod_bad;
EAS_VOID_PTR EAS_CMEnumModules(EAS_INT m) { if (m < 0 || m > 1) mod_bad = 1; return m == 0 ? (void *) &PARSER : 0; }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { return 0; }
EAS_BOOL EAS_CMStaticMemoryModel(void) { return EAS_FALSE; }
static int dls_parse_fail, dls_parsed;
static S_DLS dlsA, dlsB, dlsG;
EAS_RESULT DLSParser(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 ofs, EAS_DLSLIB_HANDLE *x)
{
    CHECK(f->open, "the collection is read from an open file");
    *x = 0; dls_parsed++;
    if (dls_parse_fail) return EAS_ERROR_FILE_FORMAT;
    dlsB.refCount = 1; n_dls++; *x = &dlsB; return EAS_SUCCESS;
}

/* ---- start-up ---- */
static int i_fail;
EAS_RESULT EAS_HWInit(EAS_HW_DATA_HANDLE *h) { if (i_fail == 1) return EAS_ERROR_MALLOC_FAILED; n_hw++; *h = &hwinst; return EAS_SUCCESS; }
EAS_RESULT EAS_HWShutdown(EAS_HW_DATA_HANDLE h) { if (h != &hwinst) n_bad = 1; n_hw--; return EAS_SUCCESS; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n)
{
    if (n == sizeof(S_EAS_DATA)) { if (i_fail == 2) return 0; n_data++; return &d; }
    if (n == sizeof(S_INTERACTIVE_MIDI)) {
        if (malloc_fail) return 0;
        n_live++;
        if (!live2) { live2 = 1; return &m2; }
        if (!live1) { live1 = 1; return &m1; }
        if (!live0) { live0 = 1; return &m0; }
        n_live--; return 0;
    }
    n_bad = 1; return 0;
}
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p)
{
    if (h != &hwinst) n_bad = 1;
    if (p == &d) n_data--;
    else if (p == &m0 && live0) { live0 = 0; n_live--; }
    else if (p == &m1 && live1) { live1 = 0; n_live--; }
    else if (p == &m2 && live2) { live2 = 0; n_live--; }
    else CHECK(0, "only memory that is allocated is freed");
}
static S_EAS_DATA zero_data; static S_INTERACTIVE_MIDI zero_m;
void *EAS_HWMemSet(void *p, int c, EAS_I32 n)
{
    if (p == &d) d = zero_data;
    else if (p == &m0) m0 = zero_m; else if (p == &m1) m1 = zero_m; else if (p == &m2) m2 = zero_m;
    else n_bad = 1;
    return p;
}
#ifndef REALVM
EAS_RESULT VMInitialize(S_EAS_DATA *e) { if (i_fail == 3) return EAS_ERROR_MALLOC_FAILED; n_vm++; e->pVoiceMgr = &vm; return EAS_SUCCESS; }
void VMShutdown(S_EAS_DATA *e) { if (!e->pVoiceMgr) return; if (vmdls) { DLSCleanup(0, vmdls); vmdls = 0; } n_vm--; e->pVoiceMgr = 0; }
#endif
static EAS_I32 mixbuf[2];
EAS_RESULT EAS_MixEngineInit(S_EAS_DATA *e) { if (i_fail == 4) return EAS_ERROR_MALLOC_FAILED; n_mix++; e->pMixBuffer = mixbuf; return EAS_SUCCESS; }
EAS_RESULT EAS_MixEngineShutdown(S_EAS_DATA *e) { if (e->pMixBuffer) n_mix--; return EAS_SUCCESS; }
EAS_RESULT EAS_PEInit(S_EAS_DATA *e) { if (i_fail == 7) return EAS_ERROR_MALLOC_FAILED; n_pe++; e->pPCMStreams = (S_PCM_STATE *) mixbuf; return EAS_SUCCESS; }
EAS_RESULT EAS_PEShutdown(S_EAS_DATA *e) { if (e->pPCMStreams) { n_pe--; e->pPCMStreams = 0; } return EAS_SUCCESS; }
static int fxr, fxc, fx_mod, fx_op; static EAS_I32 fx_p, fx_v; static void *fx_d; static int fx_n;
static EAS_RESULT rInit(EAS_DATA_HANDLE e, EAS_VOID_PTR *x) { if (i_fail == 5) return EAS_ERROR_MALLOC_FAILED; n_fxr++; *x = &fxr; return EAS_SUCCESS; }
static EAS_RESULT rDown(EAS_DATA_HANDLE e, EAS_VOID_PTR x) { if (x) { if (x != &fxr) n_bad = 1; n_fxr--; } return EAS_SUCCESS; }
static EAS_RESULT cInit(EAS_DATA_HANDLE e, EAS_VOID_PTR *x) { if (i_fail == 6) return EAS_ERROR_MALLOC_FAILED; n_fxc++; *x = &fxc; return EAS_SUCCESS; }
static EAS_RESULT cDown(EAS_DATA_HANDLE e, EAS_VOID_PTR x) { if (x) { if (x != &fxc) n_bad = 1; n_fxc--; } return EAS_SUCCESS; }
static void fxProc(EAS_VOID_PTR x, EAS_PCM *a, EAS_PCM *b, EAS_I32 n) { }
static EAS_RESULT fxGet(EAS_VOID_PTR x, EAS_I32 p, EAS_I32 *v) { fx_n++; fx_d = x; fx_p = p; *v = fx_v; return p == 0 ? EAS_SUCCESS : EAS_ERROR_INVALID_PARAMETER; }
static EAS_RESULT fxSet(EAS_VOID_PTR x, EAS_I32 p, EAS_I32 v) { fx_n++; fx_d = x; fx_p = p; fx_v = v; return p == 0 ? EAS_SUCCESS : EAS_ERROR_INVALID_PARAMETER; }
static S_EFFECTS_INTERFACE FXR = { rInit, fxProc, rDown, fxGet, fxSet }, FXC = { cInit, fxProc, cDown, fxGet, fxSet };
EAS_VOID_PTR EAS_CMEnumFXModules(EAS_INT m) { return m == EAS_MODULE_REVERB ? (void *) &FXR : m == EAS_MODULE_CHORUS ? (void *) &FXC : 0; }

static void common(void)
{
    d.hwInstData = &hwinst; d.pVoiceMgr = &vm; d.pMixBuffer = mixbuf;
    d.effectsModules[EAS_MODULE_REVERB].effect = &FXR; d.effectsModules[EAS_MODULE_REVERB].effectData = &fxr;
    d.effectsModules[EAS_MODULE_CHORUS].effect = &FXC; d.effectsModules[EAS_MODULE_CHORUS].effectData = &fxc;
}
static EAS_STATE nd_state(void) { return nd_u8max(EAS_STATE_ERROR); }

#ifdef OP_ARGS
/* one call with any arguments on a file stream (KIND 1), a raw MIDI stream (2) or a closed one (0) */
#ifndef KIND
#define KIND 1
#endif
static char mdbuf[4];
static void cb(E_EAS_METADATA_TYPE t, char *b, EAS_VOID_PTR u) { }
void harness(void)
{
    S_EAS_STREAM *s = &d.streams[0], *o = &d.streams[1];
    EAS_RESULT r = EAS_SUCCESS, g; EAS_I32 v = nd_i64(), w = nd_i64(), x = nd_i64(), y; EAS_U8 mv, hs; EAS_I16 mg;
    EAS_STATE st, st1 = EAS_STATE_OPEN; int op = nd_u8max(23), ok, ready, changed = 0, mchanged = 0, hchanged = 0, nset;
    unsigned char pri, tr; EAS_U16 pol, spol; EAS_I32 sv;

    common();
    has_gainoff = nd_bool(); gainoff = nd_irange(-100, 100);
    silent = 0;
    file_init(&p1, EAS_STATE_PLAY); p1.syn = &syn1; syn1.refCount = 1;
    slot_init(o, 1, &p1);
#if KIND == 1
    st = nd_state(); file_init(&p0, st); slot_init(s, 1, &p0);
    ready = st < EAS_STATE_OPEN;
    if (ready) { p0.syn = &syn0; syn0.refCount = 1; }
#elif KIND == 2
    live0 = 1; n_live = 1; m0.pSynth = &syn0; syn0.refCount = 1; slot_init(s, 2, &m0); ready = 0; st = EAS_STATE_OPEN;
#else
    slot_init(s, 0, 0); ready = 0; st = EAS_STATE_OPEN;
#endif
    s->time = nd_u32(); s->repeatCount = nd_i32(); s->volume = nd_u8max(100);
    d.masterVolume = nd_u8max(100); d.renderTime = nd_u32();
    vm.maxPolyphony = nd_range(1, MAX_SYNTH_VOICES);
    syn0.priority = nd_range(1, 255); syn0.maxPolyphony = nd_range(0, MAX_SYNTH_VOICES); syn0.globalTranspose = nd_range(-12, 12); syn0.totalNoteCount = nd_u32();
    vm.pSynth[0] = &syn0; vm.pSynth[1] = &syn1; syn1.vSynthNum = 1;
    snap0 = *s; snap1 = *o; mv = d.masterVolume; mg = d.masterGain; hs = d.searchHeaderFlag;
    pri = syn0.priority; tr = (unsigned char) syn0.globalTranspose; pol = syn0.maxPolyphony; spol = vm.maxPolyphony; sv = syn0.masterVolume;
    nset = p0.nset;
    ok = 1;
    switch (op) {
    case 0: /* master volume */
        r = EAS_SetVolume(&d, NULL, v); ok = v >= 0 && v <= 100; mchanged = ok;
        if (ok) CHECK(EAS_GetVolume(&d, NULL) == v, "the master volume reads back");
        break;
    case 1: /* stream volume */
        r = EAS_SetVolume(&d, s, v); ok = v >= 0 && v <= 100 && ready; changed = ok;
        if (ok) CHECK(EAS_GetVolume(&d, s) == v, "a stream volume reads back");
        else if (!ready) CHECK(EAS_GetVolume(&d, s) < 0, "a stream that is not ready has no volume");
        break;
    case 2: r = EAS_SetPlaybackRate(&d, s, (EAS_U32) v); ok = (EAS_U32) v >= MIN_PLAYBACK_RATE && (EAS_U32) v <= MAX_PLAYBACK_RATE; changed = ok;
        if (ok) {
            EAS_U32 exact = ((EAS_U32) AUDIO_FRAME_LENGTH * (EAS_U32) v) >> 28;
            CHECK(s->frameLength <= exact && exact - s->frameLength <= 1, "the stream advances by the frame length times the rate");
        }
        break;
    case 3: r = EAS_SetTransposition(&d, s, v); ok = v >= -12 && v <= 12 && ready;
        if (ok) CHECK(syn0.globalTranspose == v, "the stream's transposition is set");
        break;
    case 4: r = EAS_SetPolyphony(&d, s, v); ok = ready && v >= 0;
        if (ok) { CHECK(EAS_GetPolyphony(&d, s, &y) == EAS_SUCCESS, "the polyphony can be read"); CHECK(y == (v > MAX_SYNTH_VOICES ? 0 : v), "the polyphony reads back, pinned"); }
        break;
    case 5: r = EAS_SetPriority(&d, s, v); ok = ready && v >= 1 && v <= 255;
        if (ok) { CHECK(EAS_GetPriority(&d, s, &y) == EAS_SUCCESS, "the priority can be read"); CHECK(y == v, "the priority reads back"); }
        break;
    case 6: r = EAS_SetSynthPolyphony(&d, w, v); ok = w == 0;
        if (ok) { CHECK(EAS_GetSynthPolyphony(&d, w, &y) == EAS_SUCCESS, "the synthesizer polyphony can be read"); CHECK(y == (v < 1 ? 1 : v > MAX_SYNTH_VOICES ? MAX_SYNTH_VOICES : v), "the synthesizer polyphony reads back, pinned"); }
        break;
    case 7: r = EAS_SetRepeat(&d, s, v); changed = 1;
        CHECK(EAS_GetRepeat(&d, s, &y) == EAS_SUCCESS && y == v, "the repeat count reads back");
        break;
    case 8: r = EAS_SetParameter(&d, w, x, v); ok = (w == EAS_MODULE_REVERB || w == EAS_MODULE_CHORUS) && x == 0;
        CHECK((r == EAS_SUCCESS) == ok, "a parameter of an unknown or absent module is refused");
        if (w == EAS_MODULE_REVERB || w == EAS_MODULE_CHORUS) CHECK(fx_n == 1 && fx_p == x && fx_v == v && fx_d == (w == EAS_MODULE_REVERB ? &fxr : &fxc), "a parameter reaches its own module");
        else CHECK(!fx_n, "no module is called for a wrong number");
        break;
    case 9: fx_v = x; r = EAS_GetParameter(&d, w, v, &y); ok = (w == EAS_MODULE_REVERB || w == EAS_MODULE_CHORUS) && v == 0;
        if (w == EAS_MODULE_REVERB || w == EAS_MODULE_CHORUS) CHECK(fx_n == 1 && fx_p == v && y == x && fx_d == (w == EAS_MODULE_REVERB ? &fxr : &fxc), "a parameter is read from its own module");
        else CHECK(!fx_n, "no module is called for a wrong number");
        break;
    case 10: r = EAS_GetLocation(&d, s, &y); ok = ready; if (ok) CHECK(y == (EAS_I32) (s->time >> 8), "the position is in milliseconds"); break;
    case 11: r = EAS_GetFileType(&d, s, &y); ok = ready; if (ok) CHECK(y == EAS_FILE_SMF1, "the file type is the parser's"); break;
    case 12: r = EAS_GetNoteCount(&d, s, &y); ok = ready; if (ok) CHECK(y == (EAS_I32) syn0.totalNoteCount, "the note count is the stream's"); break;
    case 13: r = EAS_RegisterMetaDataCallback(&d, s, cb, mdbuf, w, &d); ok = ready;
        if (ok) CHECK(md.callback == cb && md.buffer == mdbuf && md.bufferSize == w && md.pUserData == &d, "the callback is registered as given");
        break;
    case 14: r = EAS_SetPlayMode(&d, s, v); ok = 0; break;
    case 15: r = EAS_SetMaxPCMStreams(&d, s, v); ok = 0; break;
    case 16: r = EAS_SetHeaderSearchFlag(&d, v != 0); hchanged = 1; CHECK(d.searchHeaderFlag == (v != 0), "header search is switched"); break;
    case 17: r = EAS_GetRenderTime(&d, &y); CHECK(y == (EAS_I32) (d.renderTime >> 8), "the render time is in milliseconds"); break;
    case 18: case 19: return;
    case 20: r = EAS_State(&d, s, &y); ok = KIND == 1;
        if (ok) CHECK(y == (st == EAS_STATE_STOPPED && s->repeatCount ? EAS_STATE_PLAY : st), "the state is the parser's");
        break;
    case 21: r = EAS_GetPolyphony(&d, s, &y); ok = ready; break;
    case 22: r = EAS_GetPriority(&d, s, &y); ok = ready; break;
    case 23: r = EAS_GetSynthPolyphony(&d, w, &y); ok = w == 0; break;
    }
    CHECK((r == EAS_SUCCESS) == ok, "a call is accepted exactly for legal arguments and streams");
    CHECK(!nset || KIND == 1, "no parser is asked for a stream without one");
    /* a refusal changes nothing; an accepted setting changes only its own stream */
    if (!changed) CHECK(SAME(*s, snap0), "a refused or unrelated call leaves the stream's settings");
    CHECK(SAME(*o, snap1), "no call changes another stream");
    CHECK(p1.nset == 0, "no call reaches another stream's parser");
    if (!mchanged) CHECK(d.masterVolume == mv && d.masterGain == mg, "the master volume changes only when it is set");
    if (!hchanged) CHECK(d.searchHeaderFlag == hs, "header search changes only when it is set");
    if (!(op == 5 && ok)) CHECK(syn0.priority == pri, "the priority changes only when it is set");
    if (!(op == 4 && ok)) CHECK(syn0.maxPolyphony == pol, "the polyphony changes only when it is set");
    if (!(op == 3 && ok)) CHECK((unsigned char) syn0.globalTranspose == tr, "the transposition changes only when it is set");
    if (!(op == 6 && ok)) CHECK(vm.maxPolyphony == spol, "the synthesizer polyphony changes only when it is set");
    if (!(op == 1 && ok)) CHECK(syn0.masterVolume == sv, "the stream gain changes only when it is set");
    CHECK(syn1.priority == 0 && syn1.maxPolyphony == 0 && syn1.globalTranspose == 0 && syn1.masterVolume == 0, "another stream's synthesizer keeps its settings");
    if (r == EAS_SUCCESS) REACH("accepted"); else REACH("refused");
}
#endif

#ifdef OP_RENDER
/* one buffer, two streams in any state */
#ifndef NEV
#define NEV 2
#endif
#ifndef KIND1
#define KIND1 1
#endif
static void setup(S_EAS_STREAM *s, struct P *p)
{
    file_init(p, nd_state());
    slot_init(s, 1, p);
    s->frameLength = nd_range(AUDIO_FRAME_LENGTH / 2, AUDIO_FRAME_LENGTH * 2);
    s->time = nd_u32(); s->repeatCount = nd_i32();
    s->streamFlags = nd_u8() & (STREAM_FLAGS_PARSED | STREAM_FLAGS_LOCATE);
    p->t = nd_u32() >> 8; p->dt = nd_u16(); p->n0 = p->left = nd_range(0, NEV); p->t0 = nd_u16();
    if (p->left == 0) ASSUME(p->st != EAS_STATE_READY && p->st != EAS_STATE_PLAY);
    /* events of earlier buffers have been delivered */
    if (p->left && (p->st == EAS_STATE_READY || p->st == EAS_STATE_PLAY)) ASSUME(p->t >= (s->time >> 8));
}
static void verify(S_EAS_STREAM *s, struct P *p, S_EAS_STREAM *o, EAS_STATE st, int left, EAS_U32 t, int nev)
{
    int playing = st == EAS_STATE_READY || st == EAS_STATE_PLAY, i, want = 0;
    EAS_U32 end = o->time + o->frameLength;
    int parsed = o->streamFlags & STREAM_FLAGS_PARSED;
    int wrapped;
    if (playing && !parsed) for (i = 0; i < NEV; i++) if (i < left && t + i * p->dt < (end >> 8)) want++;
    CHECK(nev == want, "exactly the events due within the buffer are delivered before it is rendered");
    CHECK(p->nev == want, "no event is delivered after rendering");
    if (p->nev) CHECK(p->mode == 1 << eParserModePlay, "events are played");
    wrapped = o->repeatCount && p->st == EAS_STATE_READY && p->nreset;
    CHECK(p->nreset == (wrapped ? 1 : 0), "a stream restarts only to repeat");
    CHECK(!wrapped || left == want || st == EAS_STATE_STOPPED || st == EAS_STATE_STOPPING, "only an ended stream repeats");
    CHECK(wrapped || !(o->repeatCount && p->st == EAS_STATE_STOPPED), "a stopped stream with repeats left restarts");
    CHECK(s->repeatCount == o->repeatCount - (wrapped && o->repeatCount > 0 ? 1 : 0), "each restart uses up one repeat, unless it repeats forever");
    if (wrapped) CHECK(s->time == 0, "a restarted stream is at its beginning");
    else if (playing && !parsed && p->st != EAS_STATE_STOPPING && p->st != EAS_STATE_STOPPED) CHECK(s->time == end, "a playing stream advances by its frame length");
    else CHECK(s->time == o->time, "a stream that does not play does not advance");
    CHECK(s->handle == o->handle && s->pParserModule == o->pParserModule && s->frameLength == o->frameLength && s->volume == o->volume, "rendering changes no setting");
    CHECK(!(s->streamFlags & (STREAM_FLAGS_PARSED | STREAM_FLAGS_LOCATE)), "the next buffer parses again");
}
void harness(void)
{
    EAS_PCM out[2]; EAS_I32 n = nd_i64(), got = 77; EAS_U32 rt; EAS_RESULT r; EAS_STATE st0, st1 = 0; int l0, l1 = 0; EAS_U32 t0, t1 = 0;
    common();
    silent = nd_bool();
    setup(&d.streams[0], &p0);
#if KIND1 == 1
    setup(&d.streams[1], &p1);
    st1 = p1.st; l1 = p1.left; t1 = p1.t;
#else
    live0 = 1; slot_init(&d.streams[1], 2, &m0); m0.pSynth = &syn0;
#endif
    d.renderTime = rt = nd_u32();
    vm_fail = nd_bool(); pe_fail = nd_bool();
    p0.fail = nd_bool();
    st0 = p0.st; l0 = p0.left; t0 = p0.t;
    snap0 = d.streams[0]; snap1 = d.streams[1];
    r = EAS_Render(&d, out, n, &got);
    if (n != BUFFER_SIZE_IN_MONO_SAMPLES) {
        CHECK(r != EAS_SUCCESS && got == 0, "a wrong buffer size is refused");
        CHECK(!r_prep && !r_vm && !r_pe && !r_post && !p0.nev && !p1.nev && d.renderTime == rt, "a refused request renders nothing");
        CHECK(SAME(d.streams[0], snap0) && SAME(d.streams[1], snap1), "a refused request changes no stream");
        REACH("refused"); return;
    }
    CHECK(r_vm <= 1 && r_pe <= 1 && r_post <= 1 && r_prep <= 1 && !r_order, "one buffer is prepared, rendered and finished in order");
    if (r != EAS_SUCCESS) {
        CHECK(got == 0 && !r_post && d.renderTime == rt, "a failed call delivers nothing");
        CHECK(vm_fail || pe_fail || p0.st == EAS_STATE_ERROR, "a call fails only when a part fails");
        REACH("failed"); return;
    }
    CHECK(!vm_fail && !pe_fail, "a failure is reported");
    CHECK(got == BUFFER_SIZE_IN_MONO_SAMPLES, "exactly one buffer is delivered");
    CHECK(r_prep == 1 && r_vm == 1 && r_pe == 1 && r_post == 1 && r_out == out, "the caller's buffer is filled once");
    CHECK(d.renderTime == rt + AUDIO_FRAME_LENGTH, "the clock advances by one buffer");
    verify(&d.streams[0], &p0, &snap0, st0, l0, t0, ev_at_render0);
#if KIND1 == 1
    verify(&d.streams[1], &p1, &snap1, st1, l1, t1, ev_at_render1);
#else
    CHECK(SAME(d.streams[1], snap1), "a live stream has no position");
#endif
    REACH("rendered");
}
#endif

#ifdef OP_TRANSPORT
/* K transport requests and buffers on one file stream against a model of pausing */
#ifndef K
#define K 4
#endif
void harness(void)
{
    S_EAS_STREAM *s = &d.streams[0];
    int i, paused = 0, rendered = 0, ended = 0; EAS_I32 got, y; EAS_PCM out[2];
    common();
    file_init(&p0, nd_state()); slot_init(s, 1, &p0);
    ASSUME(p0.st != EAS_STATE_PAUSED && p0.st != EAS_STATE_PAUSING);
    p0.n0 = 3; p0.left = p0.st == EAS_STATE_READY || p0.st == EAS_STATE_PLAY ? nd_range(1, 3) : nd_range(0, 3);
    p0.t0 = nd_u8max(8); p0.t = nd_u8max(20); p0.dt = nd_u8max(8); s->time = (EAS_U32) nd_u8max(20) << 8;
    for (i = 0; i < K; i++) {
        int op = nd_u8max(4), nev = p0.nev, loc = 0; EAS_STATE st; EAS_U32 t = s->time; EAS_RESULT r;
        silent = nd_bool();
        sState(&d, &p0, &st);
        /* a paused stream whose end was reached by seeking is no longer paused */
        if (st == EAS_STATE_STOPPING || st == EAS_STATE_STOPPED || st == EAS_STATE_ERROR) paused = 0;
        switch (op) {
        case 0:
            r = EAS_Pause(&d, s);
            CHECK((r == EAS_SUCCESS) == (st == EAS_STATE_READY || st == EAS_STATE_PLAY), "pausing is accepted exactly when there is something to pause");
            if (r == EAS_SUCCESS) { paused = 1; rendered = 0; } else CHECK(p0.st == st, "a refused pause changes nothing");
            break;
        case 1:
            r = EAS_Resume(&d, s);
            CHECK((r == EAS_SUCCESS) == paused, "resuming is accepted exactly when the stream is paused");
            if (r == EAS_SUCCESS) paused = 0; else CHECK(p0.st == st, "a refused resume changes nothing");
            break;
        case 2: {
            EAS_I32 ms = nd_u8max(40); int was = p0.nreset;
            ASSUME(!ended); /* whether a stream paused, moved to its end and back is still paused is left open */
            r = EAS_Locate(&d, s, ms, EAS_FALSE);
            CHECK((r == EAS_SUCCESS) == (st < EAS_STATE_OPEN), "seeking is accepted exactly on a prepared stream");
            if (r != EAS_SUCCESS) CHECK(p0.st == st && s->time == t && p0.nev == nev, "a refused seek changes nothing");
            else CHECK(s->time >> 8 == (EAS_U32) ms || p0.left == 0, "a seek moves to the requested time or to the end");
            CHECK(p0.nreset == was || p0.nreset == was + 1, "a seek restarts the file at most once");
            if (st >= EAS_STATE_STOPPING && st != EAS_STATE_PAUSED && st != EAS_STATE_PAUSING) paused = 0;
            if ((p0.st == EAS_STATE_STOPPING || p0.st == EAS_STATE_STOPPED) && paused) { paused = 0; ended = 1; }
            nev = p0.nev; t = s->time; rendered = 0;
            break; }
        case 3:
            loc = s->streamFlags & STREAM_FLAGS_PARSED;
            r = EAS_Render(&d, out, BUFFER_SIZE_IN_MONO_SAMPLES, &got);
            CHECK(r == EAS_SUCCESS, "rendering succeeds whatever was requested before");
            r_prep = r_vm = r_pe = r_post = 0;
            if (paused) CHECK(p0.nev == nev && s->time == t, "a paused stream stands still until it is resumed");
            else if ((st == EAS_STATE_READY || st == EAS_STATE_PLAY) && !loc) CHECK(p0.nev > nev || s->time == t + s->frameLength, "a playing stream goes on");
            rendered = 1;
            break;
        case 4:
            r = EAS_State(&d, s, &y);
            CHECK(r == EAS_SUCCESS, "the state can always be asked");
            sState(&d, &p0, &st);
            if (paused && rendered) CHECK(y == EAS_STATE_PAUSING || y == EAS_STATE_PAUSED, "a paused stream says so");
            if (paused && rendered && silent) CHECK(y == EAS_STATE_PAUSED, "a silent paused stream is paused");
            if (!paused) CHECK(y == st && y != EAS_STATE_PAUSING && y != EAS_STATE_PAUSED, "a stream that is not paused reports its parser's state");
            break;
        }
        if (op != 2 && op != 3) CHECK(s->time == t && p0.nev == nev, "only rendering and seeking move a stream");
    }
    if (paused) REACH("paused"); else REACH("not paused");
}
#endif

#ifdef OP_LOCATE
/* one seek or one length scan from any state */
void harness(void)
{
    S_EAS_STREAM *s = &d.streams[0];
    EAS_RESULT r; EAS_I32 ms = nd_i32(), y = -1; int ofs = nd_bool(), i, before = 0, fl, scan; EAS_STATE st; EAS_U32 target, now, end;
    common();
    silent = nd_bool();
    file_init(&p0, nd_state()); slot_init(s, 1, &p0);
    file_init(&p1, EAS_STATE_PLAY); slot_init(&d.streams[1], 1, &p1);
    p0.n0 = nd_range(1, 3); p0.left = nd_range(0, 3); p0.t0 = nd_u32() >> 12; p0.dt = nd_u16(); p0.t = nd_u32() >> 12;
    s->time = nd_u32(); s->streamFlags = nd_u8() & 15; fl = s->streamFlags;
    ms = nd_bool() ? ms : (EAS_I32) (s->time >> 8);
    sState(&d, &p0, &st);
    snap0 = *s; snap1 = d.streams[1];
    now = s->time >> 8;
#ifdef SCAN
    r = EAS_ParseMetaData(&d, s, &y); scan = 1; target = 0x7fffffff >> 8;
#else
    r = EAS_Locate(&d, s, ms, ofs); scan = 0;
    target = ofs ? (ms + (long) now < 0 ? 0 : ms + (long) now) : ms < 0 ? 0 : ms;
#endif
    CHECK(SAME(d.streams[1], snap1) && p1.nreset == 0 && p1.nev == 0, "another stream is not moved");
    CHECK((r == EAS_SUCCESS) == (st < EAS_STATE_OPEN), "only a prepared file can be searched");
    if (r != EAS_SUCCESS) { CHECK(SAME(*s, snap0) && p0.nreset == 0 && p0.nev == 0 && p0.st == st, "a refused seek changes nothing"); REACH("refused"); return; }
    if (!scan && target == now) { CHECK(p0.nreset == 0 && p0.nev == 0 && s->time == snap0.time, "seeking to the present position does nothing"); return; }
    for (i = 0; i < 3; i++) if (i < p0.n0 && p0.t0 + i * p0.dt < target) before++;
    end = p0.t0 + (p0.n0 - 1) * p0.dt;
    CHECK(p0.nev == before, "every event before the target is processed, and none after it");
    if (p0.nev) CHECK(p0.mode == 1 << (scan ? eParserModeMetaData : eParserModeLocate), "nothing is played while searching");
    if (scan) {
        CHECK(p0.nreset == 2 && p0.st == EAS_STATE_READY && s->time == 0, "a scanned file is at its beginning");
        CHECK(y == (EAS_I32) (before == p0.n0 ? end : target), "the length is the time of the last event");
#ifdef SCAN
        REACH("scanned");
#endif
    } else {
        CHECK(p0.nreset == 1, "seeking starts from the beginning");
        CHECK(s->time >> 8 == (before == p0.n0 ? end : target), "the position is the target, or the end when the file is shorter");
        CHECK(s->streamFlags & STREAM_FLAGS_PARSED, "the next buffer starts at the target");
        if ((st == EAS_STATE_PAUSED || st == EAS_STATE_PAUSING) && !(fl & STREAM_FLAGS_RESUME)) CHECK(s->streamFlags & STREAM_FLAGS_PAUSE, "a paused stream stays paused");
#ifndef SCAN
        if (before == p0.n0) REACH("beyond the end"); else REACH("located");
#endif
    }
}
#endif

#ifdef OP_SLOTS
/* K opening, closing and writing calls on any population of the four slots, then shut-down */
#ifndef K
#define K 2
#endif
static int kind[4];
#if defined(OPSEL) && OPSEL != 5 || K == 0
#define REACH_5 ((void) 0)
#else
#define REACH_5 REACH("written")
#endif
#if defined(OPSEL) && OPSEL != 4 || K == 0
#define REACH_4 ((void) 0)
#else
#define REACH_4 REACH("live stream closed")
#endif
#if defined(OPSEL) && OPSEL != 3 || K == 0
#define REACH_3 ((void) 0)
#else
#define REACH_3 REACH("shared")
#endif
#if defined(OPSEL) && OPSEL != 2 || K == 0
#define REACH_2 ((void) 0)
#else
#define REACH_2 REACH("live stream opened")
#endif
#if defined(OPSEL) && OPSEL != 1 || K == 0
#define REACH_1 ((void) 0)
#else
#define REACH_1 REACH("file closed")
#endif
#if defined(OPSEL) && OPSEL != 0 || K == 0
#define REACH_0 ((void) 0)
#else
#define REACH_0 REACH("file opened")
#endif
static void *h[4];
#ifndef OPSEL
#define OPSEL nd_u8max(5)
#endif
#ifndef POP0
#define POP0 nd_u8max(2)
#define POP1 nd_u8max(2)
#define POP2 nd_u8max(2)
#endif
static int expect_open(void) { int i, n = 0; for (i = 0; i < 4; i++) if (kind[i] == 1) n++; return n; }
static int expect_live(void) { int i, n = 0; for (i = 0; i < 4; i++) if (kind[i] == 2) n++; return n; }
static int owners(S_SYNTH *x)
{
    int i, n = 0;
    for (i = 0; i < 4; i++) {
        if (kind[i] == 1 && ((struct P *) h[i])->syn == x) n++;
        if (kind[i] == 2 && ((S_INTERACTIVE_MIDI *) h[i])->pSynth == x) n++;
    }
    return n;
}
static void invariant(void)
{
    int i;
    for (i = 0; i < 4; i++) {
        CHECK((d.streams[i].handle != 0) == (kind[i] != 0), "a slot is taken exactly while its stream is open");
        CHECK((d.streams[i].pParserModule == (void *) &PARSER) == (kind[i] == 1), "a slot has a parser exactly for a file");
        if (kind[i]) CHECK(d.streams[i].handle == h[i], "an open stream keeps its own data");
    }
    CHECK(n_files == expect_open(), "one file per open file stream");
    CHECK(n_live == expect_live(), "one block of memory per live stream");
    CHECK(!n_bad && !mod_bad, "memory is used as allocated");
    CHECK(syn0.refCount == owners(&syn0) && syn1.refCount == owners(&syn1) && syn2.refCount == owners(&syn2) && syn3.refCount == owners(&syn3) && syn4.refCount == owners(&syn4), "a synthesizer is held once by each stream that plays it");
}
void harness(void)
{
    int i, k, op, j, free_; EAS_HANDLE hs; EAS_RESULT r; EAS_U8 buf[2];
    common(); n_hw = 1; n_data = 1; n_vm = 1; n_mix = 1; n_fxr = n_fxc = 1; n_pe = 1; d.pPCMStreams = (S_PCM_STATE *) mixbuf;
    kind[0] = POP0; kind[1] = POP1; kind[2] = POP2; kind[3] = nd_bool();
    /* slot 0 may be a ready file, the others unprepared or broken ones */
    if (kind[0] == 1) { file_init(&p0, EAS_STATE_READY); p0.syn = &syn0; syn0.refCount = 1; n_synth++; }
    if (kind[0] == 2) { live0 = 1; n_live++; m0.pSynth = &syn0; syn0.refCount = 1; n_synth++; }
    h[0] = kind[0] == 1 ? (void *) &p0 : kind[0] == 2 ? (void *) &m0 : 0;
    if (kind[1] == 1) file_init(&p1, EAS_STATE_OPEN);
    if (kind[1] == 2) { live1 = 1; n_live++; m1.pSynth = &syn1; syn1.refCount = 1; n_synth++; }
    h[1] = kind[1] == 1 ? (void *) &p1 : kind[1] == 2 ? (void *) &m1 : 0;
    if (kind[2] == 1) file_init(&p2, EAS_STATE_ERROR);
    if (kind[2] == 2) { live2 = 1; n_live++; m2.pSynth = &syn2; syn2.refCount = 1; n_synth++; }
    h[2] = kind[2] == 1 ? (void *) &p2 : kind[2] == 2 ? (void *) &m2 : 0;
    slot_init(&d.streams[0], kind[0], h[0]); slot_init(&d.streams[1], kind[1], h[1]); slot_init(&d.streams[2], kind[2], h[2]);     if (kind[3]) { file_init(&p3, nd_bool() ? EAS_STATE_OPEN : EAS_STATE_ERROR); h[3] = &p3; }
    slot_init(&d.streams[3], kind[3], h[3]);
    /* the live stream in slot 1 may share the synthesizer of slot 0 */
    if (kind[0] == 1 && kind[1] == 2 && nd_bool()) { m1.pSynth = &syn0; syn0.refCount = 2; syn1.refCount = 0; n_synth--; }
    invariant();
    for (k = 0; k < K; k++) {
        op = OPSEL; j = nd_u8max(3);
        free_ = 4; for (i = 3; i >= 0; i--) if (!kind[i]) free_ = i;
        recognised = nd_bool(); check_fail = nd_bool(); open_fail = nd_bool(); malloc_fail = nd_bool(); nosynth = nd_bool(); seek_fail = nd_bool(); close_fail = 0;
        hs = 0;
        switch (op) {
        case 0:
            r = EAS_OpenFile(&d, (EAS_FILE_LOCATOR) &d, &hs);
            CHECK((r == EAS_SUCCESS) == (free_ < 4 && !open_fail && !check_fail && recognised), "a file is opened exactly when it can be");
            CHECK(r == EAS_SUCCESS || hs == 0, "a failed opening yields no stream");
            if (r == EAS_SUCCESS) {
                CHECK(hs == &d.streams[free_], "a free slot is used"); kind[free_] = 1; h[free_] = hs->handle;
                CHECK(hs->time == 0 && hs->repeatCount == 0 && hs->streamFlags == 0 && hs->frameLength == AUDIO_FRAME_LENGTH && hs->volume == DEFAULT_STREAM_VOLUME, "a new stream starts with the default settings");
                REACH_0;
            }
            break;
        case 1:
            r = EAS_CloseFile(&d, &d.streams[j]);
            CHECK((r == EAS_SUCCESS) == (kind[j] == 1), "exactly an open file can be closed as a file");
            if (kind[j] == 1) { kind[j] = 0; REACH_1; }
            break;
        case 2:
            r = EAS_OpenMIDIStream(&d, &hs, NULL);
            CHECK((r == EAS_SUCCESS) == (free_ < 4 && !malloc_fail && !nosynth && hs != 0), "a live stream is opened exactly when it can be");
            CHECK(r == EAS_SUCCESS || hs == 0, "a failed opening yields no stream");
            if (r == EAS_SUCCESS) { CHECK(hs == &d.streams[free_], "a free slot is used"); kind[free_] = 2; h[free_] = hs->handle;
                CHECK(((S_INTERACTIVE_MIDI *) hs->handle)->pSynth != 0, "a live stream has a synthesizer"); REACH_2; }
            break;
        case 3:
            r = EAS_OpenMIDIStream(&d, &hs, &d.streams[j]);
            CHECK((r == EAS_SUCCESS) == (free_ < 4 && !malloc_fail && kind[j] == 1 && ((struct P *) h[j])->syn != 0 && hs != 0), "a live stream shares the synthesizer of a prepared file only");
            CHECK(r == EAS_SUCCESS || hs == 0, "a failed opening yields no stream");
            if (r == EAS_SUCCESS) { CHECK(hs == &d.streams[free_], "a free slot is used"); kind[free_] = 2; h[free_] = hs->handle;
                CHECK(((S_INTERACTIVE_MIDI *) hs->handle)->pSynth == ((struct P *) h[j])->syn, "the synthesizer is shared"); REACH_3; }
            break;
        case 4:
            r = EAS_CloseMIDIStream(&d, &d.streams[j]);
            CHECK((r == EAS_SUCCESS) == (kind[j] == 2), "exactly an open live stream can be closed as one");
            if (kind[j] == 2) { kind[j] = 0; REACH_4; }
            break;
        case 5: {
            EAS_I32 n = nd_range(-1, 2); buf[0] = nd_u8(); buf[1] = nd_u8();
            parsed = 0; bytesum = 0; parse_syn_bad = 0;
            want_syn = kind[j] == 2 ? ((S_INTERACTIVE_MIDI *) h[j])->pSynth : 0;
            want_ms = kind[j] == 2 ? &((S_INTERACTIVE_MIDI *) h[j])->stream : 0;
            r = EAS_WriteMIDIStream(&d, &d.streams[j], buf, n);
            CHECK((r == EAS_SUCCESS) == (kind[j] == 2 && n > 0), "exactly an open live stream can be written to");
            CHECK(parsed == (r == EAS_SUCCESS ? n : 0) && !parse_syn_bad, "every byte reaches the stream's own decoder once");
            if (r == EAS_SUCCESS) { CHECK(bytesum == (n == 1 ? buf[0] : buf[0] * 31u + buf[1]), "bytes are decoded in order"); REACH_5; }
            break; }
        }
        invariant();
    }
#ifdef SHUTDOWN
    r = EAS_Shutdown(&d);
    CHECK(r == EAS_SUCCESS, "shutting down succeeds");
    CHECK(n_files == 0, "shutting down closes every file");
    CHECK(n_live == 0 && n_data == 0 && !n_bad, "shutting down frees everything once");
    CHECK(n_synth == 0, "shutting down releases every synthesizer");
    CHECK(n_vm == 0 && n_mix == 0 && n_pe == 0 && n_fxr == 0 && n_fxc == 0 && n_hw == 0, "shutting down stops every part once");
    REACH("shut down");
#endif
}
#endif

#ifdef OP_INIT
/* start-up with a failure at any point */
void harness(void)
{
    EAS_DATA_HANDLE e = (EAS_DATA_HANDLE) &vm; EAS_RESULT r; int i;
    i_fail = nd_u8max(7);
    r = EAS_Init(&e);
    CHECK((r == EAS_SUCCESS) == (i_fail == 0), "starting up succeeds exactly when every part does");
    if (r != EAS_SUCCESS) {
        CHECK(e == 0, "a failed start yields no handle");
        CHECK(n_hw == 0 && n_data == 0 && n_vm == 0 && n_mix == 0 && n_pe == 0 && n_fxr == 0 && n_fxc == 0 && !n_bad, "a failed start leaves nothing allocated");
        REACH("failed"); return;
    }
    CHECK(e == &d, "a successful start yields the handle");
    CHECK(n_hw == 1 && n_data == 1 && n_vm == 1 && n_mix == 1 && n_pe == 1 && n_fxr == 1 && n_fxc == 1, "every part is started once");
    CHECK(d.renderTime == 0 && EAS_GetVolume(&d, NULL) == DEFAULT_VOLUME && d.masterGain > 0, "defaults");
    for (i = 0; i < MAX_NUMBER_STREAMS; i++) CHECK(!d.streams[i].handle && !d.streams[i].pParserModule, "no stream is open");
    r = EAS_Shutdown(e);
    CHECK(r == EAS_SUCCESS, "shutting down succeeds");
    CHECK(n_hw == 0 && n_data == 0 && n_vm == 0 && n_mix == 0 && n_pe == 0 && n_fxr == 0 && n_fxc == 0 && !n_bad, "shutting down stops every part once");
    CHECK(EAS_Shutdown(NULL) != EAS_SUCCESS, "there is nothing to shut down without a handle");
    REACH("started");
}
#endif

#ifdef OP_PREPARE
/* prepare from any state */
void harness(void)
{
    S_EAS_STREAM *s = &d.streams[0]; EAS_RESULT r; EAS_STATE st; int vol;
    common(); silent = nd_bool(); prep_fail = nd_bool(); has_gainoff = nd_bool(); gainoff = nd_irange(-100, 100);
    file_init(&p0, nd_state()); slot_init(s, 1, &p0); s->volume = vol = nd_u8max(100);
    sState(&d, &p0, &st); snap0 = *s;
    r = EAS_Prepare(&d, s);
    CHECK((r == EAS_SUCCESS) == (st == EAS_STATE_OPEN && !prep_fail), "exactly an open stream is prepared");
    CHECK(p0.nprep == (st == EAS_STATE_OPEN), "a stream is prepared at most once");
    CHECK(SAME(*s, snap0), "preparing keeps the stream's settings");
    if (r == EAS_SUCCESS) {
        CHECK(p0.st == EAS_STATE_READY, "a prepared stream is ready");
        CHECK(n_vmset == 1 && set_syn == &syn0 && EAS_GetVolume(&d, s) == vol, "a prepared stream has its own volume");
        REACH("prepared");
    } else { CHECK(n_vmset == 0, "nothing is set up for a stream that was not prepared"); REACH("refused"); }
}
#endif

#ifdef OP_DLS
/* loading a sound collection for one stream, or globally */
void harness(void)
{
    S_EAS_STREAM *s = &d.streams[0]; EAS_RESULT r; int global = nd_bool(), had = nd_bool(), shared = nd_bool(), ready; EAS_STATE st = nd_state();
    S_DLS *old;
    common(); n_hw = 1; n_data = 1; n_vm = 1; n_mix = 1; n_fxr = n_fxc = 1; n_pe = 1; d.pPCMStreams = (S_PCM_STATE *) mixbuf;
    file_init(&p0, st); slot_init(s, 1, &p0); ready = st < EAS_STATE_OPEN;
    if (ready) { p0.syn = &syn0; syn0.refCount = 1; n_synth++; syn0.numActiveVoices = nd_u8max(3); }
    /* the stream (or the library) may already use a collection, which another stream may share */
    if (had) {
        n_dls = 1; dlsA.refCount = 1;
        if (global) vmdls = &dlsA; else { ASSUME(ready); syn0.pDLS = &dlsA; }
        if (shared) { dlsA.refCount = 2; syn1.refCount = 1; syn1.pDLS = &dlsA; n_synth++; file_init(&p1, EAS_STATE_PLAY); p1.syn = &syn1; slot_init(&d.streams[1], 1, &p1); }
    }
    open_fail = nd_bool(); dls_parse_fail = nd_bool();
    r = EAS_LoadDLSCollection(&d, global ? NULL : s, (EAS_FILE_LOCATOR) &d);
    CHECK((r == EAS_SUCCESS) == ((global || ready) && !open_fail && !dls_parse_fail), "a collection is loaded exactly when it can be");
    CHECK(n_files == 1 + (had && shared), "the collection's file is closed");
    if (r == EAS_SUCCESS) {
        CHECK(dlsB.refCount == 1, "a loaded collection has one owner");
        if (global) CHECK(vmdls == &dlsB, "the collection is used from now on");
        else { CHECK(syn0.pDLS == &dlsB, "the collection is used from now on"); CHECK(syn0.numActiveVoices == 0, "no voice plays on from the collection it replaces"); }
        if (had) CHECK(dlsA.refCount == (shared ? 1 : 0), "the collection it replaces is released once");
        REACH("loaded");
    } else {
        CHECK(n_dls == had && (!had || dlsA.refCount == 1 + shared), "a failed loading leaves the previous collection, and nothing else");
        CHECK(global ? vmdls == (had ? &dlsA : 0) : syn0.pDLS == (had ? &dlsA : 0), "a failed loading leaves the previous collection in use");
        REACH("failed");
    }
    CHECK(EAS_Shutdown(&d) == EAS_SUCCESS, "shutting down succeeds");
    CHECK(n_dls == 0, "shutting down frees every collection");
    CHECK(n_synth == 0 && n_files == 0 && n_hw == 0 && n_data == 0, "shutting down releases everything");
}
#endif
