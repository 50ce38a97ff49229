/* C01: the host file layer.  K symbolic operations over a table of NH handle
 * slots and two host files with symbolic size and contents are compared, step
 * by step, with a reference model.  The host may deliver short reads or fail. */
#include "verif.h"
#include "eas_types.h"
#include "eas.h"
#include "eas_host.h"

#ifndef K
#define K 3
#endif
#define NH EAS_MAX_FILE_HANDLES
#if OPLO == 0
#define REACH_T(m) REACH(m)
#define REACH_I(m)
#define REACH_N(m)
#else
#define REACH_T(m)
#define REACH_I(m) REACH(m)
#ifdef FAULTS
#define REACH_N(m)
#else
#define REACH_N(m) REACH(m)
#endif
#endif
#define FS 6

static uint8_t content[2][FS];
static int fsize[2];
static int id0, id1;
static int misread;             /* library asked the host for bytes outside the file */
static int last_ret, n_calls, last_full;
static int allow_fault;

static int host_size(void *h) { return fsize[*(int *) h]; }
static int host_read(void *h, void *buf, int off, int n)
{
    int f = *(int *) h, i, got;
    n_calls++;
    if (off < 0 || n < 0 || off > fsize[f] || n > fsize[f] - off) { misread = 1; return 0; }
    got = n;
    if (allow_fault) {
        got = nd_i8();
        ASSUME(got <= n);       /* a host never returns more than asked */
    }
    for (i = 0; i < FS; i++)
        if (i < got) ((uint8_t *) buf)[i] = content[f][off + i];
    last_ret = got; last_full = (got == n);
    return got;
}

/* reference model of one slot */
typedef struct { EAS_FILE_HANDLE h; int used; int file; long pos; } MODEL;
static MODEL m[NH];

static int free_slots(void) { int i, n = 0; for (i = 0; i < NH; i++) n += !m[i].used; return n; }

static void check_all(EAS_HW_DATA_HANDLE hw)
{
    int i;
    for (i = 0; i < NH; i++) if (m[i].used) {
        EAS_I32 p = -5;
        CHECK(EAS_HWFilePos(hw, m[i].h, &p) == EAS_SUCCESS, "an open handle always reports its position");
        CHECK(p == m[i].pos, "position of every handle is exactly where its own operations left it");
        CHECK(p >= 0 && p <= fsize[m[i].file], "position stays within the file");
    }
}

static EAS_FILE loc[2];
static void step(EAS_HW_DATA_HANDLE hw, int op, int s)
{
    int i, t;
    if (op == 0) {                              /* open */
        EAS_FILE_HANDLE h = (EAS_FILE_HANDLE) 1;
        int f = nd_bool(), fs = free_slots();
        EAS_RESULT r = EAS_HWOpenFile(hw, &loc[f], &h, EAS_FILE_READ);
        if (fs == 0) {
            CHECK(r == EAS_ERROR_MAX_FILES_OPEN && h == NULL, "opening beyond the table limit is refused");
            REACH_T("table exhausted on open");
        } else {
            CHECK(r == EAS_SUCCESS && h != NULL, "open succeeds while a slot is free");
            for (t = 0; t < NH; t++) CHECK(!(m[t].used && m[t].h == h), "a new handle is distinct from every open handle");
            for (t = 0; t < NH; t++) if (!m[t].used) { m[t].used = 1; m[t].h = h; m[t].file = f; m[t].pos = 0; break; }
        }
    } else if (!m[s].used) {
        return;
    } else if (op == 1) {                       /* dup */
        EAS_FILE_HANDLE h = NULL; int fs = free_slots();
        EAS_RESULT r = EAS_HWDupHandle(hw, m[s].h, &h);
        if (fs == 0) {
            CHECK(r == EAS_ERROR_MAX_FILES_OPEN, "duplicating beyond the table limit is refused");
        } else {
            CHECK(r == EAS_SUCCESS && h != NULL, "duplicate succeeds while a slot is free");
            for (t = 0; t < NH; t++) CHECK(!(m[t].used && m[t].h == h), "a duplicate is distinct from every open handle");
            for (t = 0; t < NH; t++) if (!m[t].used) { m[t].used = 1; m[t].h = h; m[t].file = m[s].file; m[t].pos = m[s].pos; break; }
            REACH_T("duplicated");
        }
    } else if (op == 2) {                       /* close */
        CHECK(EAS_HWCloseFile(hw, m[s].h) == EAS_SUCCESS, "close of an open handle succeeds");
        CHECK(EAS_HWCloseFile(hw, m[s].h) == EAS_ERROR_INVALID_HANDLE, "a closed handle is rejected");
        { EAS_I32 p; uint8_t b;
          CHECK(EAS_HWFilePos(hw, m[s].h, &p) == EAS_ERROR_INVALID_HANDLE, "position of a closed handle is rejected");
          CHECK(EAS_HWGetByte(hw, m[s].h, &b) == EAS_ERROR_INVALID_HANDLE, "read of a closed handle is rejected"); }
        m[s].used = 0;
    } else if (op == 3) {                       /* seek absolute */
        EAS_I32 p = nd_i64();
        EAS_RESULT r = EAS_HWFileSeek(hw, m[s].h, p);
        if (p >= 0 && p <= fsize[m[s].file]) {
            CHECK(r == EAS_SUCCESS, "seek inside the file succeeds"); m[s].pos = p;
        } else CHECK(r == EAS_ERROR_FILE_SEEK, "seek outside the file is refused");
    } else if (op == 4) {                       /* seek relative */
        EAS_I32 p = nd_i64();
        ASSUME(p >= -0x7fffffffffffL && p <= 0x7fffffffffffL);
        EAS_RESULT r = EAS_HWFileSeekOfs(hw, m[s].h, p);
        if (m[s].pos + p >= 0 && m[s].pos + p <= fsize[m[s].file]) {
            CHECK(r == EAS_SUCCESS, "relative seek inside the file succeeds"); m[s].pos += p;
        } else CHECK(r == EAS_ERROR_FILE_SEEK, "relative seek outside the file is refused");
    } else if (op == 5) {                       /* read */
        uint8_t buf[FS + 2]; EAS_I32 n = nd_range(-2, FS + 1), cnt = -9;
        long left = fsize[m[s].file] - m[s].pos;
        EAS_RESULT r;
        for (i = 0; i < FS + 2; i++) buf[i] = 0xA5;
        n_calls = 0;
        r = EAS_HWReadFile(hw, m[s].h, buf, n, &cnt);
        if (n < 0) CHECK(r != EAS_SUCCESS, "negative read size is refused");
        else {
            long want = n < left ? n : left, got;
            got = n_calls ? (last_ret > 0 ? last_ret : 0) : 0;
            if (!allow_fault) { CHECK(got == want, "a read delivers all bytes that remain, up to the request"); }
            CHECK(n_calls > 0 || want == 0, "a read asks the host when there is data to deliver");
            CHECK(cnt == got, "the count reported is the count delivered");
            CHECK((r == EAS_SUCCESS) == (got == n), "a read succeeds exactly when it is complete");
            for (i = 0; i < FS + 2; i++) {
                if (i < got) CHECK(buf[i] == content[m[s].file][m[s].pos + i], "the bytes read are the file's bytes at the position");
                else CHECK(buf[i] == 0xA5, "nothing is written past the bytes delivered");
            }
            m[s].pos += got;
            if (r == EAS_SUCCESS && n > 1) REACH_I("multi-byte read");
        }
    } else if (op == 6 && !allow_fault) {       /* 16/32-bit */
        int w = nd_bool(), msb = nd_bool(), n = w ? 4 : 2;
        long left = fsize[m[s].file] - m[s].pos;
        const uint8_t *b = content[m[s].file] + m[s].pos;
        EAS_U16 v16 = 0; EAS_U32 v32 = 0; EAS_RESULT r;
        if (w) r = EAS_HWGetDWord(hw, m[s].h, &v32, msb); else r = EAS_HWGetWord(hw, m[s].h, &v16, msb);
        CHECK((r == EAS_SUCCESS) == (left >= n), "a multi-byte number reads exactly when all its bytes exist");
        if (r == EAS_SUCCESS) {
            unsigned long e = 0;
            for (i = 0; i < 4; i++) if (i < n) e = msb ? (e << 8) | b[i] : e | ((unsigned long) b[i] << (8 * i));
            CHECK((w ? v32 : v16) == e, "byte order is the one requested");
            m[s].pos += n;
            REACH_N("number read");
        } else m[s].pos += left < 0 ? 0 : left;
    }
}

void harness(void)
{
    EAS_HW_DATA_HANDLE hw = NULL;
    int i, j, k, s, t;
    id0 = 0; id1 = 1;
    for (i = 0; i < 2; i++) {
        fsize[i] = nd_u8max(FS);
        for (j = 0; j < FS; j++) content[i][j] = nd_u8();
        loc[i].handle = i ? (void *) &id1 : (void *) &id0; loc[i].readAt = host_read; loc[i].size = host_size;
    }
#ifdef FAULTS
    allow_fault = 1;
#endif
    if (EAS_HWInit(&hw) != EAS_SUCCESS) return;

#ifdef PREOPEN      /* two handles on the same file: an original and its duplicate */
    {
        EAS_FILE_HANDLE h = NULL, d = NULL;
        CHECK(EAS_HWOpenFile(hw, &loc[0], &h, EAS_FILE_READ) == EAS_SUCCESS, "open succeeds on an empty table");
        CHECK(EAS_HWDupHandle(hw, h, &d) == EAS_SUCCESS && d != h, "duplicate succeeds while a slot is free");
        m[0].used = 1; m[0].h = h; m[0].file = 0; m[0].pos = 0;
        m[1].used = 1; m[1].h = d; m[1].file = 0; m[1].pos = 0;
    }
#endif
#ifdef RESEEK       /* both handles used, the duplicate closed again: its slot will be reused */
    step(hw, 3, 0); step(hw, 3, 1); step(hw, 2, 1);
#endif
    for (k = 0; k < K; k++) {
        int op = nd_u8();
        ASSUME(op >= OPLO && op <= OPHI);
        s = nd_u8max(NH - 1);
        for (t = 0; t < NH; t++) if (s == t) step(hw, op, t);   /* case split keeps handles concrete */
        CHECK(!misread, "the host is never asked for bytes outside the file");
        check_all(hw);
    }
    EAS_HWShutdown(hw);
    REACH("sequence complete");
}
