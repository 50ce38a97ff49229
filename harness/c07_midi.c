/* C07/C08/C09: live MIDI byte decoding against a message-level reference.
 * The synthesizer entry points are replaced by recorders. */
#include "verif.h"
#include "eas_data.h"
#include "eas_midi.h"
#include "eas_parser.h"
#include "eas_vm_protos.h"

#ifndef NB
#define NB 6
#endif
#ifndef MODE
#define MODE eParserModePlay
#endif

enum { E_NONE, E_ON, E_OFF, E_CC, E_PC, E_CP, E_PB, E_RESET, E_MIPINIT, E_VOL, E_MIPSET, E_MIPUPD };
typedef struct { uint8_t kind, ch, a, b, c; uint16_t v; } EV;
#define MAXEV 5
static EV got[MAXEV], want[MAXEV];
static int ngot, nwant;
static S_EAS_DATA d;
static S_VOICE_MGR vm;
static S_SYNTH syn, other;
static int wrong_target;

static void put(EV *l, int *n, int kind, int ch, int a, int b, int v)
{
    if (*n < MAXEV) { l[*n].kind = kind; l[*n].ch = ch; l[*n].a = a; l[*n].b = b; l[*n].v = v; }
    (*n)++;
}
static void rec(S_VOICE_MGR *m, S_SYNTH *s, int kind, int ch, int a, int b, int v)
{
    if ((m && m != &vm) || s != &syn) wrong_target = 1;
    put(got, &ngot, kind, ch, a, b, v);
}
void VMStartNote(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { rec(m, s, E_ON, ch, n, v, 0); }
void VMStopNote(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { rec(m, s, E_OFF, ch, n, 0, 0); (void) v; }
void VMControlChange(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { rec(m, s, E_CC, ch, n, v, 0); }
void VMProgramChange(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 p) { rec(m, s, E_PC, ch, p, 0, 0); }
void VMChannelPressure(S_SYNTH *s, EAS_U8 ch, EAS_U8 v) { rec(0, s, E_CP, ch, v, 0, 0); }
void VMPitchBend(S_SYNTH *s, EAS_U8 ch, EAS_U8 l, EAS_U8 h) { rec(0, s, E_PB, ch, l, h, 0); }
void VMReset(S_VOICE_MGR *m, S_SYNTH *s, EAS_BOOL force) { rec(m, s, E_RESET, 0, force != 0, 0, 0); }
void VMInitMIPTable(S_SYNTH *s) { rec(0, s, E_MIPINIT, 0, 0, 0, 0); }
void VMSetVolume(S_SYNTH *s, EAS_U16 v) { rec(0, s, E_VOL, 0, 0, 0, v); }
void VMSetMIPEntry(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 pri, EAS_U8 mip) { rec(m, s, E_MIPSET, ch, pri, mip, 0); }
void VMUpdateMIPTable(S_VOICE_MGR *m, S_SYNTH *s) { rec(m, s, E_MIPUPD, 0, 0, 0, 0); }

/* ---- reference decoder ---- */
static uint8_t m_cur, m_have, m_d1;     /* current status, first data byte held */
static uint8_t m_buf[4], m_done;        /* system-exclusive payload: first bytes, completed/ignored */
static int m_len, m_mipn;
static uint8_t m_ch, m_inmip;
static int w_note;

static void expect(int kind, int ch, int a, int b, int v)
{
    if (MODE == eParserModeMetaData) return;
    if (kind == E_ON && MODE != eParserModePlay) return;
    put(want, &nwant, kind, ch, a, b, v);
}
static void message(uint8_t s, uint8_t a, uint8_t b)
{
    int ch = s & 15;
    switch (s >> 4) {
    case 8: expect(E_OFF, ch, a, 0, 0); break;
    case 9: if (b) { expect(E_ON, ch, a, b, 0); w_note = 1; } else expect(E_OFF, ch, a, 0, 0); break;
    case 11: expect(E_CC, ch, a, b, 0); break;
    case 12: expect(E_PC, ch, a, 0, 0); break;
    case 13: expect(E_CP, ch, a, 0, 0); break;
    case 14: expect(E_PB, ch, a, b, 0); break;
    }
}
static void sysex_data(uint8_t c)
{
    int i = m_len;
    if (m_done) return;
    if (m_len < 1000) m_len++;
    if (m_inmip) {                      /* 7F 7F 0B 01 then (channel, level) pairs */
        if (!(i & 1)) {
            if (c >= 16) { expect(E_MIPINIT, 0, 0, 0, 0); m_done = 1; m_inmip = 0; }
            else m_ch = c;
        } else {
            expect(E_MIPSET, m_ch, m_mipn, c, 0);
            if (++m_mipn == 16) { expect(E_MIPUPD, 0, 0, 0, 0); m_done = 1; m_inmip = 0; }
        }
        return;
    }
    if (i < 4) m_buf[i] = c;
    if (i == 3) {
        if (m_buf[0] == 0x7e && m_buf[1] == 0x7f && m_buf[2] == 9 && (c == 1 || c == 3)) {
            expect(E_RESET, 0, 0, 0, 0); expect(E_MIPINIT, 0, 0, 0, 0); m_done = 1;
        } else if (m_buf[0] == 0x7f && m_buf[1] == 0x7f && m_buf[2] == 0x0b && c == 1) {
            expect(E_MIPINIT, 0, 0, 0, 0); m_inmip = 1; m_mipn = 0;
        } else if (!(m_buf[0] == 0x7f && m_buf[1] == 0x7f && m_buf[2] == 4 && c == 1)) m_done = 1;
    } else if (i == 4) m_ch = c;        /* volume, low seven bits */
    else if (i == 5) {
        long g = ((long) c << 7 | m_ch) << 1;
        expect(E_VOL, 0, 0, 0, (g * g) >> 15); m_done = 1;
    }
}
static void ref(uint8_t c)
{
    if (c >= 0xf8) return;
    if (c >= 0x80) {
        m_cur = c; m_have = 0;
        if (MODE == eParserModeMetaData) return;
        if (c == 0xf0) { m_len = 0; m_done = 0; m_inmip = 0; }
        if (c == 0xf7) { if (m_inmip && !(m_len & 1)) expect(E_MIPUPD, 0, 0, 0, 0); m_done = 1; m_inmip = 0; }
        return;
    }
    if (m_cur < 0x80) return;
    if (m_cur < 0xc0 || (m_cur >= 0xe0 && m_cur < 0xf0)) {
        if (m_have) { m_have = 0; message(m_cur, m_d1, c); }
        else { m_have = 1; m_d1 = c; }
    } else if (m_cur < 0xe0) message(m_cur, c, 0);
    else if (m_cur == 0xf0) { if (MODE != eParserModeMetaData) sysex_data(c); }
}
static int same(EV *a, EV *b) { return a->kind == b->kind && a->ch == b->ch && a->a == b->a && a->b == b->b && a->v == b->v; }
static int seen;
static void compare(void)
{
    int i;
    CHECK(!wrong_target, "the message acts on the stream it was written to");
    CHECK(ngot == nwant, "exactly the encoded messages take effect");
    for (i = 0; i < MAXEV; i++) if (i < nwant) {
        CHECK(same(&got[i], &want[i]), "each message has its own channel and data");
        seen |= 1 << want[i].kind;
    }
}

#ifdef SPLIT
/* through the public call, with the bytes split between two writes */
static S_INTERACTIVE_MIDI im;
static EAS_U8 buf[NB];
#endif

#ifndef PREFIX
#define PREFIX
#endif
void harness(void)
{
    static const uint8_t prefix[] = { 0, PREFIX };
    int i;
    d.pVoiceMgr = &vm;
#ifdef SPLIT
    {
        int cut = CUT;
        S_EAS_STREAM *st = &d.streams[1];
        EAS_InitMIDIStream(&im.stream);
        im.pSynth = &syn; st->handle = &im;
        for (i = 0; i < NB; i++) buf[i] = nd_u8();
        CHECK(EAS_WriteMIDIStream(&d, st, buf, 0) != EAS_SUCCESS, "an empty write is refused");
        for (i = 0; i < cut; i++) ref(buf[i]);
        CHECK(EAS_WriteMIDIStream(&d, st, buf, cut) == EAS_SUCCESS, "a write succeeds");
        compare();
        if (nwant == 2) REACH("two messages in one write");
        ngot = nwant = 0;
        for (i = cut; i < NB; i++) ref(buf[i]);
        CHECK(EAS_WriteMIDIStream(&d, st, buf + cut, NB - cut) == EAS_SUCCESS, "a write succeeds");
        compare();
        if (nwant == 1) REACH("a message completed by the second write");
    }
#else
    S_MIDI_STREAM st;
    st.flags = 0; st.sysExState = 0; st.d1 = st.d2 = 0;
    EAS_InitMIDIStream(&st);
    for (i = 1; i < (int) sizeof prefix; i++) {
        ngot = nwant = 0; ref(prefix[i]);
        CHECK(EAS_ParseMIDIStream(&d, &syn, &st, prefix[i], MODE) == EAS_SUCCESS, "any byte is accepted");
        compare();
    }
    for (i = 0; i < NB; i++) {
        uint8_t c = nd_u8();
#ifdef DATAONLY
        ASSUME(c < 0x80 || c >= 0xf7);
#endif
        ngot = nwant = 0; ref(c);
        CHECK(EAS_ParseMIDIStream(&d, &syn, &st, c, MODE) == EAS_SUCCESS, "any byte is accepted");
        compare();
    }
#ifdef WANT
    if (seen & (1 << WANT)) REACH("the message of interest takes effect");
#else
#ifdef META
    CHECK(seen == 0, "measuring changes nothing"); REACH("scanned");
#else
    {
        if (seen & (1 << E_PB)) REACH("pitch bend"); 
        if (seen & (1 << E_PC)) REACH("program change");
        if (seen & (1 << E_OFF)) REACH("note off");
    }
#endif
#endif
#endif
}
