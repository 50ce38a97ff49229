/* C22, C23, C28: loading a DLS collection through DLSParser, from a file whose
 * chunk skeleton is chosen by the job and whose contents are symbolic. */
#include "verif.h"
#include "eas_data.h"
#include "eas_host.h"
#include "eas_sndlib.h"
#include "eas_mdls.h"

#ifndef NI
#define NI 1            /* instruments */
#endif
#ifndef NR
#define NR 1            /* regions of each instrument */
#endif
#ifndef NW
#define NW 1            /* waves */
#endif
#ifndef RC
#define RC -1           /* connections of each region's articulation; -1: none */
#endif
#ifndef IC
#define IC 1            /* connections of each instrument's articulation */
#endif
#ifndef ICAFTER
#define ICAFTER 0       /* the instrument's articulation follows its regions */
#endif
#ifndef WLOOPS
#define WLOOPS -1       /* loops in each wave's sample information; -1: none */
#endif
#ifndef WL
#define WL(i) WLOOPS       /* the same, of wave i */
#endif
#ifndef RLOOPS
#define RLOOPS -1       /* loops in each region's sample information */
#endif
#ifndef BITS
#define BITS 16
#endif
#ifndef BITSV
#define BITSV BITS      /* what the wave's header says */
#endif
#ifndef DLEN
#define DLEN 8          /* bytes of sample data in each wave */
#endif
#ifndef TAIL
#define TAIL 0          /* bytes in a chunk after everything else; -1: none */
#endif
#ifndef CREG
#define CREG NR         /* regions the instrument header announces */
#endif
#ifndef WAVE
#define WAVE ((k + 1) % NW)     /* the wave region k plays */
#endif
#ifndef CDL
#define CDL 0           /* 16-bit units in a condition, see CDLIN */
#endif
#ifndef CDLIN
#define CDLIN 0         /* 1 collection, 2 first region, 3 region articulation */
#endif
#ifndef SKIP
#define SKIP 0          /* the first region's condition is false */
#endif
#ifndef SKIPART
#define SKIPART 0       /* its articulation's condition is false */
#endif
#ifndef ARTS
#define ARTS ((RC > 0 ? NI * NR : 0) + (IC > 0 ? NI : 0))
#endif
#ifndef FS
#define FS 480
#endif
#ifndef OFS
#define OFS 0           /* where in the file the collection starts */
#endif
#ifndef JUNK
#define JUNK 0          /* an unknown chunk of odd size in every list */
#endif
#ifndef ORDER
#define ORDER 0         /* the waves come first */
#endif
#ifndef TRUNC
#define TRUNC 0
#endif
#ifndef FAILS
#define FAILS 0
#endif
#ifndef RATE
#define RATE 44100
#endif

/* ---- the file ---- */
static uint8_t file[FS];
static unsigned wp = OFS, fsize;
static void p8(uint8_t b) { file[wp++] = b; }
static void p16(unsigned v) { p8(v); p8(v >> 8); }
static void p32(uint32_t v) { p8(v); p8(v >> 8); p8(v >> 16); p8(v >> 24); }
static void tag(char a, char b, char c, char d) { p8(a); p8(b); p8(c); p8(d); }
/* where the structural fields are: chunk identifiers, list kinds, structure sizes, counts, offsets and indices */
static unsigned field_at[120], nfields;
static uint8_t field_id[120];
#ifdef PATCH
static void field(int id) { field_id[nfields] = id; field_at[nfields++] = wp; }
#else
#define field(id) ((void) 0)
#endif
#ifdef PATCH
#define LISTFIELD field_id[nfields - 1] = 3
#else
#define LISTFIELD
#endif
static void s32(uint32_t v) { field(0); p32(v); }
static unsigned begin(char a, char b, char c, char d) { field(1); tag(a, b, c, d); field(2); p32(0); return wp; }
static unsigned list(char a, char b, char c, char d) { unsigned r = begin('L', 'I', 'S', 'T'); LISTFIELD; field(1); tag(a, b, c, d); return r; }
static void end(unsigned at) { unsigned n = wp - at, w = wp; wp = at - 4; p32(n); wp = w; if (n & 1) p8(0); }

/* ---- symbolic contents, kept for the oracle ---- */
typedef struct { uint16_t s, c, d, t; uint32_t v; } CONN;
typedef struct { uint16_t unity; uint16_t fine; uint32_t gain, opt, start, len; } WSMP;
static struct { uint32_t bank, prog; } ins_[NI];
static struct { uint16_t kl, kh, vl, vh, opt, grp; uint32_t wave; } rgn_[NI * NR];
static WSMP rws[NI * NR], wws[NW];
static uint32_t rate_[NW];
#define CONNS(n) ((n) > 0 ? (n) : 1)
static CONN rcn[NI * NR * CONNS(RC)], icn[NI * CONNS(IC)];
static uint8_t data_[NW * (DLEN + 1)];
#if CDL
static uint16_t cdl_[CDL];
#endif

#if JUNK
static void junk(void) { unsigned b = begin('j', 'u', 'n', 'k'); p8(nd_u8()); p8(nd_u8()); p8(nd_u8()); end(b); }
#else
#define junk() ((void) 0)
#endif
static void put_wsmp(WSMP *x, int loops, int guard)
{
    unsigned b = begin('w', 's', 'm', 'p');
    (void) guard;
    x->unity = nd_u16(); x->fine = nd_u16(); x->gain = nd_u32(); x->opt = nd_u32();
#ifdef SANE
    ASSUME(x->unity <= 127 && (x->gain >> 31 || x->gain == 0));
#endif
    s32(20); p16(x->unity); p16(x->fine); p32(x->gain); p32(x->opt); s32(loops);
    if (loops) {
        x->start = nd_u32(); x->len = nd_u32();
#ifdef SANE
        { unsigned n = DLEN * 8 / BITS - guard; ASSUME(x->len >= 1 && x->len <= n && x->start <= n - x->len); }
#endif
        s32(16); p32(0); p32(x->start); p32(x->len);
    }
    end(b);
}
static void put_conn(CONN *x, int i)
{
    x->t = nd_u16(); x->v = nd_u32();
#ifndef CONNFREE
    if (!i) { x->s = 0; x->c = 0; x->d = 0x206; } else   /* attack time */
#endif
    { x->s = nd_u16(); x->c = nd_u16(); x->d = nd_u16(); }
#ifdef CONNSET
    CONNSET
#endif
    p16(x->s); p16(x->c); p16(x->d); p16(x->t); p32(x->v);
}
#if CDL
static void put_cdl(void)
{
    unsigned c = begin('c', 'd', 'l', ' '); int i;
    for (i = 0; i < CDL; i++) p16(cdl_[i]);
    end(c);
}
#endif
static void put_art(CONN *x, int n, int cond)
{
    unsigned l, a; int i;
#ifdef LARONLY          /* a second-generation list instead */
    l = list('l', 'a', 'r', '2'); junk();
#else
    l = list('l', 'a', 'r', 't'); junk();
#endif
#if CDLIN == 3
    if (cond) put_cdl();
#endif
    (void) cond;
#ifdef LAR2             /* the last connection is in a second list */
    n--;
#endif
#ifdef LARONLY
    a = begin('a', 'r', 't', '2'); s32(8); s32(n);
#else
    a = begin('a', 'r', 't', '1'); s32(8); s32(n);
#endif
    for (i = 0; i < n; i++) put_conn(&x[i], i);
    end(a); end(l);
#ifdef LAR2
    l = list('l', 'a', 'r', '2'); junk();
    a = begin('a', 'r', 't', '2'); s32(8); s32(1);
    put_conn(&x[n], n);
    end(a); end(l);
#endif
}

static unsigned wave_at[NW], pool_at;
static void put_instruments(void)
{
    unsigned a, b, c, d, e; int i, j, k;
    (void) d; (void) e; (void) j; (void) k;
    a = list('l', 'i', 'n', 's'); junk();
    for (i = 0; i < NI; i++) {
        b = list('i', 'n', 's', ' '); junk();
        c = begin('i', 'n', 's', 'h');
        ins_[i].bank = nd_u32(); ins_[i].prog = nd_u32();
        s32(CREG); p32(ins_[i].bank); p32(ins_[i].prog);
        end(c);
        if (IC >= 0 && !ICAFTER) put_art(&icn[i * CONNS(IC)], IC, 0);
        c = list('l', 'r', 'g', 'n'); junk();
        for (j = 0; j < NR; j++) {
            k = i * NR + j;
            d = list('r', 'g', 'n', ' '); junk();
#if CDLIN == 2
            if (!k) put_cdl();
#endif
            e = begin('r', 'g', 'n', 'h');
            rgn_[k].kl = nd_u16(); rgn_[k].kh = nd_u16(); rgn_[k].vl = nd_u16(); rgn_[k].vh = nd_u16(); rgn_[k].opt = nd_u16(); rgn_[k].grp = nd_u16();
#ifdef SANE
            ASSUME(rgn_[k].kl <= 127 && rgn_[k].kh <= 127 && rgn_[k].vl <= 127 && rgn_[k].vh <= 127 && rgn_[k].grp <= 15);
#endif
            p16(rgn_[k].kl); p16(rgn_[k].kh); p16(rgn_[k].vl); p16(rgn_[k].vh); p16(rgn_[k].opt); p16(rgn_[k].grp);
            end(e);
            if (RLOOPS >= 0) put_wsmp(&rws[k], RLOOPS, WLOOPS <= 0);
            e = begin('w', 'l', 'n', 'k');
            rgn_[k].wave = WAVE;
            p16(nd_u16()); p16(nd_u16()); p32(1); s32(rgn_[k].wave);
            end(e);
            if (RC >= 0) put_art(&rcn[k * CONNS(RC)], RC, !k);
            end(d);
        }
        end(c);
        if (IC >= 0 && ICAFTER) put_art(&icn[i * CONNS(IC)], IC, 0);
        end(b);
    }
    end(a);
}
static void put_pool(void)
{
    unsigned a, b, c, d, e; int i, j, k;
    (void) d; (void) e; (void) j; (void) k;
    a = begin('p', 't', 'b', 'l');
    s32(8); s32(NW); pool_at = wp; for (i = 0; i < NW; i++) { field(0); wp += 4; } wp = pool_at; wp += 4 * NW;
    end(a);
    a = list('w', 'v', 'p', 'l');
    for (i = 0; i < NW; i++) {
        wave_at[i] = wp - a - 4;
        b = list('w', 'a', 'v', 'e'); junk();
        c = begin('f', 'm', 't', ' ');
        rate_[i] = RATE;
        p16(1); p16(1); p32(rate_[i]); p32(nd_u32()); p16(nd_u16()); p16(BITSV);
        end(c);
        if (WL(i) >= 0) put_wsmp(&wws[i], WL(i), 0);
        c = begin('d', 'a', 't', 'a');
        for (j = 0; j < DLEN; j++) p8(data_[i * (DLEN + 1) + j] = nd_u8());
        end(c);
        end(b);
    }
    end(a);
}
static void build(void)
{
    unsigned R, a; int i;
#if CDL
    for (i = 0; i < CDL; i++) cdl_[i] = nd_u16();
#ifdef CDLSET
    CDLSET
#endif
#endif
    R = begin('R', 'I', 'F', 'F'); tag('D', 'L', 'S', ' ');
#if CDLIN == 1
    put_cdl();
#endif
    junk();
#if ORDER
    put_pool(); put_instruments();
#else
    put_instruments(); put_pool();
#endif
    if (TAIL >= 0) { a = begin('I', 'N', 'F', 'O'); for (i = 0; i < TAIL; i++) p8(nd_u8()); end(a); }
    end(R);
    fsize = wp;
    wp = pool_at;
    for (i = 0; i < NW; i++) p32(wave_at[i]);
}

/* ---- host layer ---- */
static struct eas_hw_file_tag { int open; EAS_I32 pos; } h0 = { 1, 0 }, h1;
static int nopen = 1, nalloc, nmalloc, dups;
static int fail_at = -1;        /* which host request fails */
static int requests;
static int faulty(void) { return FAILS && requests++ == fail_at; }
static int valid(EAS_FILE_HANDLE f) { int ok = f == (void *) &h0 || (f == (void *) &h1 && h1.open); CHECK(ok, "only open files are read"); return ok; }
static int byte_at(EAS_FILE_HANDLE f, uint8_t *c)
{
    struct eas_hw_file_tag *h = (void *) f;
    if (h->pos < 0 || h->pos >= (EAS_I32) fsize || h->pos >= FS) return 0;
    *c = file[h->pos++];
    return 1;
}
EAS_RESULT EAS_HWReadFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p, EAS_I32 n, EAS_I32 *pn)
{
    struct eas_hw_file_tag *h = (void *) f; EAS_I32 i;
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    *pn = 0;
    if (n < 0) return EAS_EOF;
    if (faulty()) return EAS_ERROR_FILE_READ_FAILED;
    for (i = 0; i < 80 && i < n; i++) { uint8_t c; if (!byte_at(f, &c)) break; ((uint8_t *) p)[i] = c; }
    CHECK(i == n || h->pos >= (EAS_I32) fsize, "model: reads fit the model's buffer");
    *pn = i;
    return i == n ? EAS_SUCCESS : EAS_EOF;
}
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p)
{
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    return byte_at(f, p) ? EAS_SUCCESS : EAS_EOF;
}
EAS_RESULT EAS_HWGetWord(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p, EAS_BOOL msb)
{
    uint8_t a, b;
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (faulty()) return EAS_ERROR_FILE_READ_FAILED;
    if (!byte_at(f, &a) || !byte_at(f, &b)) return EAS_EOF;
    *(EAS_U16 *) p = msb ? (EAS_U16) (a << 8 | b) : (EAS_U16) (b << 8 | a);
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWGetDWord(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, void *p, EAS_BOOL msb)
{
    uint8_t a, b, c, e;
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (faulty()) return EAS_ERROR_FILE_READ_FAILED;
    if (!byte_at(f, &a) || !byte_at(f, &b) || !byte_at(f, &c) || !byte_at(f, &e)) return EAS_EOF;
    *(EAS_U32 *) p = msb ? (EAS_U32) a << 24 | (EAS_U32) b << 16 | (EAS_U32) c << 8 | e
                         : (EAS_U32) e << 24 | (EAS_U32) c << 16 | (EAS_U32) b << 8 | a;
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 pos)
{
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (faulty()) return EAS_ERROR_FILE_SEEK;
    if (pos < 0 || pos > (EAS_I32) fsize) return EAS_ERROR_FILE_SEEK;
    ((struct eas_hw_file_tag *) f)->pos = pos;
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFilePos(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 *p)
{
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    *p = ((struct eas_hw_file_tag *) f)->pos;
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFileLength(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_I32 *p)
{
    (void) hw; (void) f; *p = fsize; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWDupHandle(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f, EAS_FILE_HANDLE *q)
{
    (void) hw;
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    if (faulty() || h1.open) return EAS_ERROR_MAX_FILES_OPEN;
    h1.open = 1; h1.pos = ((struct eas_hw_file_tag *) f)->pos; nopen++; dups++; *q = (EAS_FILE_HANDLE) &h1;
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE hw, EAS_FILE_HANDLE f)
{
    (void) hw;
    CHECK(f != (void *) &h0, "the caller's file stays open");
    if (!valid(f)) return EAS_ERROR_INVALID_HANDLE;
    h1.open = 0; nopen--;
    return EAS_SUCCESS;
}

#ifdef CONDIS
static int condition(void) { return CONDIS; }
#elif CDL == 7    /* constant a, constant b, operation */
static int condition(void)
{
    uint32_t y = cdl_[1] | (uint32_t) cdl_[2] << 16, x = cdl_[4] | (uint32_t) cdl_[5] << 16;
    switch (cdl_[6]) {
    case 1: return (x & y) != 0;
    case 2: return (x | y) != 0;
    case 3: return (x ^ y) != 0;
    case 4: return (uint32_t) (x + y) != 0;
    case 5: return x != y;
    case 6: return (uint32_t) (x * y) != 0;
    case 7: return y != 0 && x >= y;
    case 8: return x && y;
    case 9: return x || y;
    case 10: return x < y;
    case 11: return x <= y;
    case 12: return x > y;
    case 13: return x >= y;
    case 14: return x == y;
    default: return !x;         /* logical not of the top */
    }
}
#elif CDL == 9    /* query by identifier */
static int condition(void)
{
    static const uint16_t known[9][8] = {
        { 0x2f24, 0x178f, 0xc364, 0x11d1, 0x60a7, 0, 0x75f8, 0x12ac }, { 0x2f25, 0x178f, 0xc364, 0x11d1, 0x60a7, 0, 0x75f8, 0x12ac },
        { 0x2f26, 0x178f, 0xc364, 0x11d1, 0x60a7, 0, 0x75f8, 0x12ac }, { 0x2f27, 0x178f, 0xc364, 0x11d1, 0x60a7, 0, 0x75f8, 0x12ac },
        { 0x2f28, 0x178f, 0xc364, 0x11d1, 0x60a7, 0, 0x75f8, 0x12ac }, { 0x99e5, 0xf145, 0x4689, 0x11d2, 0xa6af, 0xaa00, 0x2400, 0xb6d8 },
        { 0x1181, 0xb03e, 0x8095, 0x11d2, 0xefa1, 0x6000, 0x3308, 0xd8db }, { 0x1182, 0xb03e, 0x8095, 0x11d2, 0xefa1, 0x6000, 0x3308, 0xd8db },
        { 0xf713, 0x2a91, 0xa4bf, 0x11d2, 0xdfbb, 0x6000, 0x3308, 0xd8db } };
    int i, j, hit = -1;
    for (i = 0; i < 9; i++) { int same = 1; for (j = 0; j < 8; j++) if (cdl_[1 + j] != known[i][j]) same = 0; if (same) hit = i; }
    if (cdl_[0] == 0x12) return hit >= 0;
    return hit == 0 || hit == 3 || hit == 4 || hit >= 6;   /* GM, DLS level 1 and the values; not GS, XG, DLS level 2 */
}
#endif

/* ---- memory ---- */
/* room for every wave as 16-bit samples and one more; what lies beyond the size asked for must stay untouched */
#define POOLMAX (NW * (2 * DLEN + 2))
typedef struct __attribute__((packed)) {
    S_DLS hdr; uint8_t pad[sizeof(S_EAS) - sizeof(S_DLS)];
    S_PROGRAM prog[NI]; S_DLS_REGION rgn[NI * NR];
    S_DLS_ARTICULATION art[ARTS + 1];
    EAS_U32 len[NW], ofs[NW];
    EAS_SAMPLE pool[POOLMAX / 2];
} MEM;
#define MEMSIZE ((EAS_I32) sizeof(MEM))
static MEM mem, zero;
static int mem_used;
static EAS_I32 mem_size;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE hw, EAS_I32 size)
{
    (void) hw;
    CHECK(size > 0, "only positive amounts of memory are requested");
    if (faulty()) return 0;
#ifdef CONDONLY         /* the collection's condition is decided before memory is needed */
    CHECK(condition(), "a collection whose condition does not hold is refused");
#ifndef REFUSED
    REACH("accepted");
#endif
    ASSUME(0);
#endif
    nalloc++; nmalloc++;
    if (nmalloc == 1) return malloc(size);
    CHECK(nmalloc == 2 && !mem_used && size <= MEMSIZE, "model: one block of memory for the collection");
#ifdef FIRSTPASS
    REACH("sized");
    ASSUME(0);
#endif
    mem_used = 1; mem_size = size;
    return &mem;
}
void EAS_HWFree(EAS_HW_DATA_HANDLE hw, void *p)
{
    (void) hw;
    CHECK(p != 0, "only allocated memory is freed");
    nalloc--;
    if (p == (void *) &mem) { CHECK(mem_used, "memory is freed once"); mem_used = 0; }
    else free(p);
}
void *EAS_HWMemSet(void *p, int v, EAS_I32 n)
{
    if (p == (void *) &mem) { CHECK(v == 0 && n == mem_size, "the collection's memory is cleared"); mem = zero; return p; }
    return memset(p, v, n);
}
void *EAS_HWMemCpy(void *d, const void *s, EAS_I32 n)
{
    EAS_I32 i;
    if (n & 7) for (i = 0; i < n / 2; i++) ((EAS_I16 *) d)[i] = ((const EAS_I16 *) s)[i];     /* 16-bit tables */
    else for (i = 0; i < n / 8; i++) ((EAS_U32 *) d)[i] = ((const EAS_U32 *) s)[i];
    return d;
}
EAS_I32 EAS_HWMemCmp(const void *a, const void *b, EAS_I32 n)
{
    EAS_I32 i;
    for (i = 0; i < n; i++) if (((const uint8_t *) a)[i] != ((const uint8_t *) b)[i]) return 1;
    return 0;
}
static int rates;
double log10(double x)
{
    CHECK(x > 0.0, "the pitch of a sample is computed from a positive rate");
#ifdef NOPITCH          /* the pitch of the sample does not matter */
    return 1.0;
#endif
    if (x == 2.0) return 0.30102999566398120;
    rates++;
    return 0.0;
}

#define H ((const S_DLS *) lib)
static void sound(const S_DLS *lib)     /* what every collection guarantees */
{
    unsigned i, r, w; int found;
    CHECK(lib->numDLSPrograms > 0 && lib->numDLSRegions > 0 && lib->numDLSArticulations > 0 && lib->numDLSSamples > 0, "a collection is not empty");
    CHECK(lib->refCount == 1, "a collection has one owner");
    for (i = 0; i < lib->numDLSPrograms && i < NI; i++) {
        r = lib->pDLSPrograms[i].regionIndex;
        CHECK(r & FLAG_RGN_IDX_DLS_SYNTH, "a program uses the collection's regions");
        r &= REGION_INDEX_MASK;
        CHECK(r < lib->numDLSRegions, "a program names an existing region");
        found = 0;
        for (w = 0; w < NI * NR; w++) if (w >= r && w < lib->numDLSRegions && (lib->pDLSRegions[w].wtRegion.region.keyGroupAndFlags & REGION_FLAG_LAST_REGION)) found = 1;
        CHECK(found, "every program's list of regions is terminated");
        CHECK(lib->pDLSPrograms[i].locale <= 0x17f7f7f, "a program's bank and number are in range");
    }
    for (r = 0; r < lib->numDLSRegions && r < NI * NR; r++) {
        const S_WT_REGION *g = &lib->pDLSRegions[r].wtRegion;
        CHECK(g->artIndex < lib->numDLSArticulations && g->waveIndex < lib->numDLSSamples, "a region names an existing articulation and sample");
        CHECK(g->region.rangeLow <= 127 && g->region.rangeHigh <= 127 && lib->pDLSRegions[r].velLow <= 127 && lib->pDLSRegions[r].velHigh <= 127, "a region's key and velocity ranges are valid");
        CHECK(g->gain <= 0, "a region never amplifies");
        CHECK(!(g->region.keyGroupAndFlags & ~(REGION_FLAG_LAST_REGION | 0xf00 | REGION_FLAG_IS_LOOPED | REGION_FLAG_NON_SELF_EXCLUSIVE)), "a region has no other property than it may have");
        if (g->waveIndex < lib->numDLSSamples && (g->region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED)) {
            CHECK(g->loopStart < g->loopEnd, "a loop is not empty");
            CHECK(2 * ((uint64_t) g->loopEnd + 1) <= lib->pDLSSampleLen[g->waveIndex], "a loop and the value after it lie within their sample");
        }
    }
    for (w = 0; w < lib->numDLSSamples && w < NW; w++) {
        CHECK((lib->pDLSSampleLen[w] & 1) == 0 && (lib->pDLSSampleOffsets[w] & 1) == 0, "a sample is a whole number of 16-bit values");
        if (lib == (const S_DLS *) (void *) &mem)
            CHECK((long) ((uint8_t *) lib->pDLSSamples - (uint8_t *) &mem) + (long) lib->pDLSSampleOffsets[w] + (long) lib->pDLSSampleLen[w] <= mem_size, "a sample lies within the collection's memory");
    }
    if (lib == (const S_DLS *) (void *) &mem)
        for (i = 0; i < POOLMAX / 2; i++)
            if ((long) sizeof(MEM) - 2 * (POOLMAX / 2 - (long) i) >= mem_size) CHECK(mem.pool[i] == 0, "nothing is written beyond the collection's memory");
    for (i = 0; i < lib->numDLSArticulations && i < ARTS + 1; i++) {
        const S_DLS_ARTICULATION *a = &lib->pDLSArticulations[i];
        CHECK(a->eg1.sustainLevel >= 0 && a->eg2.sustainLevel >= 0, "sustain levels are not negative");
        CHECK(a->eg1.delayTime >= 0 && a->eg2.delayTime >= 0 && a->modLFO.lfoDelay <= 0 && a->vibLFO.lfoDelay <= 0, "delays are not negative");
        CHECK(a->eg1.releaseTime >= 0 && a->eg2.releaseTime >= 0 && a->eg1ShutdownTime >= 0, "release rates are not negative");
        CHECK(a->modLFO.lfoFreq >= 0 && a->vibLFO.lfoFreq >= 0, "LFO rates are not negative");
        CHECK((a->filterQandFlags & FILTER_Q_MASK) <= 30 && !(a->filterQandFlags & 0x60), "filter resonance is within the coefficient tables");
        CHECK(a->pan >= -63 && a->pan <= 63, "pan is in range");
    }
}

#if defined(FAITHFUL)
static int wsmp_gain(const WSMP *x) { int32_t g = (int32_t) x->gain; return g > 0 ? 0 : g >> 16; }
#define LISTED (NR < CREG ? NR : CREG)          /* regions listed and announced */
#define KEPT(i) (LISTED - (SKIP && !(i)))
static void faithful(const S_DLS *lib)
{
    unsigned i, j, k, w, n = 0, p = 0;
    CHECK(lib->numDLSPrograms == NI - !KEPT(0) && lib->numDLSSamples == NW, "every instrument and wave is loaded");
    CHECK(lib->numDLSRegions == KEPT(0) + (NI - 1) * LISTED, "every region is loaded");
    for (i = 0; i < NI; i++) {
        uint32_t b = ins_[i].bank, want = (b & 0x7f7f) << 8 | (ins_[i].prog & 0x7f);
        if (b >> 31) want |= 0x1000000;
        if (!KEPT(i)) continue;
        CHECK(lib->pDLSPrograms[p].locale == want, "an instrument answers to its bank and program");
        CHECK((lib->pDLSPrograms[p].regionIndex & REGION_INDEX_MASK) == n, "an instrument starts with its first region");
        p++;
      for (j = SKIP && !i; j < LISTED; j++, n++) {
        const S_DLS_REGION *g; const WSMP *x = 0; static const WSMP none = { 60, 0, 0, 0, 0, 0 };
        int looped, start, len, tune;
        g = &lib->pDLSRegions[n];
        k = i * NR + j;
        CHECK(g->wtRegion.region.rangeLow == rgn_[k].kl && g->wtRegion.region.rangeHigh == rgn_[k].kh, "a region covers its keys");
        CHECK(g->velLow == rgn_[k].vl && g->velHigh == rgn_[k].vh, "a region covers its velocities");
        CHECK(((g->wtRegion.region.keyGroupAndFlags >> 8) & 15) == rgn_[k].grp, "a region keeps its key group");
        CHECK(!(g->wtRegion.region.keyGroupAndFlags & REGION_FLAG_NON_SELF_EXCLUSIVE) == !(rgn_[k].opt & 1), "a region keeps its exclusiveness");
        CHECK(!(g->wtRegion.region.keyGroupAndFlags & REGION_FLAG_LAST_REGION) == (j + 1 < LISTED), "an instrument has all its regions and no others");
        CHECK(g->wtRegion.waveIndex == rgn_[k].wave, "a region plays its own wave");
        { int attack = RC > 0 && !(SKIPART && !k) ? (int16_t) (rcn[k * CONNS(RC)].v >> 16) : IC > 0 ? (int16_t) (icn[i * CONNS(IC)].v >> 16) : -32768;
          CHECK(g->wtRegion.artIndex < lib->numDLSArticulations && lib->pDLSArticulations[g->wtRegion.artIndex].eg1.attackTime == attack, "a region is articulated by itself, else by its instrument, else by default"); }
        w = rgn_[k].wave;
#if RLOOPS >= 0
        x = &rws[k];
#elif WLOOPS >= 0
        for (unsigned q = 0; q < NW; q++) if (q == w) x = &wws[q];
#else
        x = &none;
#endif
        CHECK(g->wtRegion.gain == wsmp_gain(x), "a region is attenuated as much as it says");
        tune = (int16_t) (x->fine) - 100 * x->unity;
        CHECK(g->wtRegion.tuning == (int16_t) tune, "a region plays its wave's pitch at its unity note");
#if RLOOPS > 0 || (RLOOPS < 0 && WLOOPS > 0)
        looped = 1; start = x->start; len = x->len;
        CHECK(g->wtRegion.region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED, "a looped wave is looped");
        CHECK(g->wtRegion.loopStart == (unsigned) start && g->wtRegion.loopEnd == (unsigned) (start + len), "a loop has its own bounds");
        REACH("looped region");
#elif RLOOPS < 0 && WLOOPS <= 0
        CHECK(!(g->wtRegion.region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED), "a wave without loop is not looped");
#endif
        (void) looped; (void) start; (void) len; (void) none;
      }
    }
    for (w = 0; w < NW; w++) {
        unsigned n = DLEN * 8 / BITS;
        const EAS_SAMPLE *s = lib->pDLSSamples + lib->pDLSSampleOffsets[w] / 2;
        CHECK(lib->pDLSSampleLen[w] >= 2 * n, "a wave keeps its length");
        for (i = 0; i < n; i++) {
            int16_t v = BITS == 16 ? (int16_t) (data_[w * (DLEN + 1) + 2 * i] | data_[w * (DLEN + 1) + 2 * i + 1] << 8) : (int16_t) ((data_[w * (DLEN + 1) + i] - 128) * 256);
#if WLOOPS > 0
            if (WL(w) > 0)
            /* the sample after the loop may be replaced by the first of the loop */
            if (i == wws[w].start + wws[w].len) { continue; }
#endif
            CHECK(s[i] == v, "a wave plays the samples of the file");
        }
    }
}
#endif

#ifdef ARTMODEL
/* the value a parameter gets: its default, or that of the last connection naming it */
static int16_t want(const CONN *x, int n, uint16_t s, uint16_t c, uint16_t d, int16_t v)
{
    int i;
    for (i = 0; i < n; i++) if (x[i].s == s && x[i].c == c && x[i].d == d) v = (int16_t) (x[i].v >> 16);
    return v;
}
static void near(int got, long want, long unit, long tol, int lo, int hi)  /* got is want / unit within tol / unit, clamped */
{
    if (want > (long) hi * unit) want = (long) hi * unit;
    if (want < (long) lo * unit) want = (long) lo * unit;
    CHECK(got * unit - want <= tol && want - got * unit <= tol, "a converted value is the one asked for");
}
enum { NONE, LFO, VEL, KEY, EG2 = 5, PRESS = 8, VIB = 9, CC1 = 0x81 };
static void articulated(const S_DLS *lib)
{
#if ARTMODEL == 2       /* the region has its own */
    const CONN *x = rcn; int n = RC;
#else
    const CONN *x = icn; int n = IC;
#endif
    const S_DLS_ARTICULATION *a;
    CHECK(lib->pDLSRegions[0].wtRegion.artIndex < lib->numDLSArticulations, "the articulation exists");
    a = &lib->pDLSArticulations[lib->pDLSRegions[0].wtRegion.artIndex];
#define W(s, c, d, v) want(x, n, s, c, d, v)
#define RAW(f, s, c, d, v) CHECK(a->f == W(s, c, d, v), "a parameter has the value its last connection gives it, else its default: " #f)
    RAW(eg1.attackTime, 0, 0, 0x206, -32768); RAW(eg1.holdTime, 0, 0, 0x20c, -32768); RAW(eg1.decayTime, 0, 0, 0x207, -32768);
    RAW(eg1.velToAttack, VEL, 0, 0x206, 0); RAW(eg1.keyNumToDecay, KEY, 0, 0x207, 0); RAW(eg1.keyNumToHold, KEY, 0, 0x20c, 0);
    RAW(eg2.attackTime, 0, 0, 0x30a, -32768); RAW(eg2.holdTime, 0, 0, 0x310, -32768); RAW(eg2.decayTime, 0, 0, 0x30b, -32768);
    RAW(eg2.velToAttack, VEL, 0, 0x30a, 0); RAW(eg2.keyNumToDecay, KEY, 0, 0x30b, 0); RAW(eg2.keyNumToHold, KEY, 0, 0x310, 0);
    RAW(filterCutoff, 0, 0, 0x500, 0x7fff); RAW(modLFOToFc, LFO, 0, 0x500, 0); RAW(modLFOCC1ToFc, LFO, CC1, 0x500, 0);
    RAW(modLFOChanPressToFc, LFO, PRESS, 0x500, 0); RAW(eg2ToFc, EG2, 0, 0x500, 0); RAW(velToFc, VEL, 0, 0x500, 0); RAW(keyNumToFc, KEY, 0, 0x500, 0);
    RAW(modLFOToGain, LFO, 0, 1, 0); RAW(modLFOCC1ToGain, LFO, CC1, 1, 0); RAW(modLFOChanPressToGain, LFO, PRESS, 1, 0);
    RAW(tuning, 0, 0, 3, 0); RAW(keyNumToPitch, KEY, 0, 3, 12800);
    RAW(vibLFOToPitch, VIB, 0, 3, 0); RAW(vibLFOCC1ToPitch, VIB, CC1, 3, 0); RAW(vibLFOChanPressToPitch, VIB, PRESS, 3, 0);
    RAW(modLFOToPitch, LFO, 0, 3, 0); RAW(modLFOCC1ToPitch, LFO, CC1, 3, 0); RAW(modLFOChanPressToPitch, LFO, PRESS, 3, 0); RAW(eg2ToPitch, EG2, 0, 3, 0);
    CHECK(!(a->filterQandFlags & FLAG_DLS_VELOCITY_SENSITIVE) == (W(VEL, 0, 1, 960) == 0), "velocity changes the volume unless the collection says no");
    /* tenths of a percent, of a decibel */
    near(a->pan, 126L * W(0, 0, 4, 0), 1000, 1500, -63, 63);
    near(a->eg1.sustainLevel, 32767L * W(0, 0, 0x20a, 1000), 1000, 2000, 0, 32767);
    near(a->eg2.sustainLevel, 32767L * W(0, 0, 0x30e, 1000), 1000, 2000, 0, 32767);
    near(a->filterQandFlags & FILTER_Q_MASK, 2L * W(0, 0, 0x501, 0), 15, 8, 0, 30);
    /* defaults: 10 ms and 5 Hz at 172.27 frames per second, no delay, immediate release, 15 ms shutdown */
    if (W(0, 0, 0x104, -851) == -851) near(a->modLFO.lfoFreq, 9511, 10, 20, 0, 32767);
    if (W(0, 0, 0x114, -851) == -851) near(a->vibLFO.lfoFreq, 9511, 10, 20, 0, 32767);
    if (W(0, 0, 0x105, -7973) == -7973) near(-a->modLFO.lfoDelay, 172, 100, 100, 0, 32767);
    if (W(0, 0, 0x115, -7973) == -7973) near(-a->vibLFO.lfoDelay, 172, 100, 100, 0, 32767);
    if (W(0, 0, 0x20b, -32768) == -32768) CHECK(a->eg1.delayTime == 0, "no delay is no delay");
    if (W(0, 0, 0x30f, -32768) == -32768) CHECK(a->eg2.delayTime == 0, "no delay is no delay");
    if (W(0, 0, 0x209, -32768) == -32768) CHECK(a->eg1.releaseTime == 32767, "no release time is immediate");
    if (W(0, 0, 0x30d, -32768) == -32768) CHECK(a->eg2.releaseTime == 32767, "no release time is immediate");
    if (W(0, 0, 0x20d, -7271) == -7271) near(a->eg1ShutdownTime, 126804, 10, 300, 0, 32767);
    /* LFO rates: the two LFOs alike, a higher pitch is never slower, an octave doubles */
    { int p = W(0, 0, 0x104, -851), q = W(0, 0, 0x114, -851), f = a->modLFO.lfoFreq, g = a->vibLFO.lfoFreq;
      CHECK(!(p <= q) || f <= g, "a faster LFO is not slower");
      CHECK(!(p >= q) || f >= g, "a faster LFO is not slower");
      if (p >= -7624 && q == p + 1200 && q <= 1549) CHECK(g - 2 * f <= 2 + f / 64 && 2 * f - g <= 2 + f / 64, "an octave doubles the LFO's rate"); }
    /* times: the four delays alike, longer is never shorter; releases too */
    { int p = W(0, 0, 0x20b, -32768), q = W(0, 0, 0x30f, -32768), f = a->eg1.delayTime, g = a->eg2.delayTime;
      CHECK(!(p <= q) || f <= g, "a longer delay is not shorter"); CHECK(!(p >= q) || f >= g, "a longer delay is not shorter"); }
    { int p = W(0, 0, 0x105, -7973), q = W(0, 0, 0x115, -7973), f = -a->modLFO.lfoDelay, g = -a->vibLFO.lfoDelay;
      CHECK(!(p <= q) || f <= g, "a longer delay is not shorter"); CHECK(!(p >= q) || f >= g, "a longer delay is not shorter"); }
    { int p = W(0, 0, 0x209, -32768), q = W(0, 0, 0x30d, -32768), f = a->eg1.releaseTime, g = a->eg2.releaseTime;
      CHECK(!(p <= q) || f >= g, "a longer release is not faster"); CHECK(!(p >= q) || f <= g, "a longer release is not faster"); }
}
#endif

#if TRUNC
static int cut;
#endif
static void run(void)
{
    EAS_DLSLIB_HANDLE lib = (EAS_DLSLIB_HANDLE) &zero;
    EAS_RESULT r;
    r = DLSParser((EAS_HW_DATA_HANDLE) &zero, (EAS_FILE_HANDLE) &h0, OFS, &lib);
    CHECK(nopen == 1 && !h1.open, "no file handle is left open");
#if TRUNC
    if (cut) CHECK(r != EAS_SUCCESS, "a collection cut short is refused");
#endif
#ifdef CONDONLY
    CHECK(r != EAS_SUCCESS && !condition(), "a collection whose condition holds is loaded");
#ifndef ACCEPTED
    REACH("refused");
#endif
#endif
    if (r != EAS_SUCCESS) {
        CHECK(lib == 0, "no collection is returned after a failure");
        CHECK(nalloc == 0, "no memory is left allocated after a failure");
#ifdef MAYFAIL
        REACH("failed");
#endif
#ifdef MUSTLOAD
        CHECK(MUSTLOAD, "a well-formed collection loads");
#endif
    } else {
        CHECK(lib != 0 && nalloc == 1, "a loaded collection owns one block of memory");
        sound(lib);
#ifdef FAITHFUL
        faithful(lib);
#endif
#ifdef ARTMODEL
        articulated(lib);
#endif
#ifndef MUSTFAIL
        REACH("loaded");
#endif
        DLSAddRef(lib);
        DLSCleanup((EAS_HW_DATA_HANDLE) &zero, lib);
        CHECK(nalloc == 1, "a shared collection stays until its last owner releases it");
        DLSCleanup((EAS_HW_DATA_HANDLE) &zero, lib);
        CHECK(nalloc == 0, "a released collection leaves nothing allocated");
    }
}

void harness(void)
{
#if TRUNC || FAILS || defined(PATCH)
    int i; unsigned whole;
#endif
    build();
#ifdef PATCH            /* every STEP-th structural field from FROM on, damaged in every way */
    whole = fsize;
    for (i = 0; i < PATCH; i++) {
        static const uint32_t val[] = { 0, 1, 4, 0xffffffff, 0x7fffffff };
        unsigned k = FROM + i * STEP, at, old, j;
        if (k >= nfields) break;
        at = field_at[k];
        old = (uint32_t) file[at] | (uint32_t) file[at + 1] << 8 | (uint32_t) file[at + 2] << 16 | (uint32_t) file[at + 3] << 24;
        for (j = field_id[k] == 2 ? 3 : field_id[k] == 3 ? 2 : 0; j < (field_id[k] == 1 ? 1 : field_id[k] ? 5 : 4); j++) {
            wp = at; p32(field_id[k] == 1 ? 0x58585858 : val[j]);
            h0.pos = 0; h1.open = 0; nopen = 1; nalloc = nmalloc = dups = mem_used = requests = 0;
            run();
        }
        wp = at; p32(old);
    }
    (void) whole;
    REACH("end");
    return;
#endif
#if TRUNC || FAILS      /* every STEP-th truncation, or failing request, from FROM on */
    whole = fsize;
    for (i = 0; i < (TRUNC ? TRUNC : FAILS); i++) {
        unsigned k = FROM + i * STEP;
        h0.pos = 0; h1.open = 0; nopen = 1; nalloc = nmalloc = dups = mem_used = requests = 0;
#if TRUNC
        if (k > whole) break;
        fsize = k; cut = k < whole;
#else
        fail_at = k;
#endif
        run();
#if FAILS
        if (requests <= fail_at) break;
#endif
    }
    REACH("tried");
    (void) whole;
#else
    run();
#endif
#if defined(MUSTFAIL) && !defined(PATCH)
    REACH("end");
#endif
}
