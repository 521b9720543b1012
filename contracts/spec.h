/* Specification vocabulary shared by all contracts.  Pure C, compiled twice:
 *   - by goto-cc, with CCV_CBMC, for the proof obligations
 *   - by gcc, without it, for the native replay of counterexamples            */
#ifndef CCV_SPEC_H
#define CCV_SPEC_H
#include <stddef.h>
#include <stdint.h>
#include "asn1crt.h"
#include "frag.h"
#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"
#include "asn1crt_encoding_ber.h"
#include "asn1crt_encoding_xer.h"

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef asn1SccUint UI;
typedef asn1SccSint SI;
#define UBITS (8*(int)sizeof(UI))
#define UMAXV ((UI)~(UI)0)
#define SMAXV ((SI)(UMAXV>>1))
#define SMINV (-SMAXV-1)

#define CCV_MAXCOUNT 0x0fffffff      /* bytes; 256 MiB: cursor*8 fits a 32-bit long as well */
#define CCV_SNAPMAX 48


/* Two levels of abstraction of a bit stream.
 *  concrete: the buffer is memory; the snapshot holds the bytes from the cursor on.  Used for the functions
 *            that touch the buffer, and for every native replay.
 *  abstract: the buffer is the sequence of bits appended so far (ghost CCV_G.g, most recent 128 bits) and the
 *            sequence of bits still to be read (ghost CCV_G.r, next 128 bits, left aligned).  Used for the
 *            functions that reach the buffer only through functions that are under contract; buf is then an
 *            invalid pointer, so any direct access is a failed obligation. */
#ifdef CCV_CBMC
#include "ghost.h"
typedef ccv_gw GW;
#elif defined CCV_WID
typedef unsigned _BitInt(384) GW;
#define CCV_GB 384
#else
typedef u128 GW;
#define CCV_GB 128
#endif
typedef struct { BitStream s; byte w[CCV_SNAPMAX]; GW g, r; flag wb; const byte *old; } BSnap;      /* w[i] = byte (cursor+i), 0 past the end */
typedef struct { ByteStream s; byte w[CCV_SNAPMAX]; GW g, r; } YSnap;
static inline GW MASK(long n) { return n >= CCV_GB ? ~(GW)0 : ((((GW)1) << n) - 1); }
static inline GW SHL(GW x, long n) { return n >= CCV_GB ? (GW)0 : x << n; }

/* ---- bit streams ---------------------------------------------------------------------- */
static inline long bs_pos(const BitStream *s) { return s->currentByte * 8 + s->currentBit; }
static inline long bs_end(const BitStream *s) { return s->count * 8; }
/* representation invariant */
static inline flag BSI(const BitStream *s)
{
	return s->count >= 0 && s->count <= CCV_MAXCOUNT && s->currentByte >= 0 && s->currentByte <= s->count
		&& s->currentBit >= 0 && s->currentBit <= 7 && bs_pos(s) <= bs_end(s);
}
static inline flag ROOM(const BitStream *s, long n) { return bs_pos(s) + n <= bs_end(s); }
static inline byte bs_at(const BitStream *s, long i) { return i < s->count ? s->buf[i] : (byte)0; }

/* bytes touched by writing/reading n bits at bit offset `bit` of the first one */
static inline long TOUCHED(int bit, long n) { return n <= 0 ? 0 : (bit + n + 7) / 8; }


/* "virgin tail": every not yet written bit of the bytes the next n bits land in is 0 (BitStream_Init zeroes the
 * buffer, every writer preserves it).  In the abstract view it is an invariant of the stream. */
#ifdef CCV_ABS
#define VIRGIN(s) (!CCV_G.patch)
#define CCV_PATCH CCV_G.patch
#define CLEAN2(s, n) (!CCV_G.patch)
#define CLEAN5(s, n) (!CCV_G.patch)
#define CLEAN10(s, n) (!CCV_G.patch)
#define CLEAN12(s, n) (!CCV_G.patch)
#define CLEAN24(s, n) (!CCV_G.patch)
#define CLEAN44(s, n) (!CCV_G.patch)
#else
#ifdef CCV_CBMC
#define VIRGIN(s) TRUE
#else
static inline flag ccv_virgin(const BitStream *s, long n)      /* n < 0: all of the tail */
{
	if (s->currentByte >= s->count) return TRUE;
	if (s->buf[s->currentByte] & (0xFF >> s->currentBit)) return n == 0;
	for (long i = s->currentByte + 1; i < s->count && (n < 0 || i < s->currentByte + TOUCHED(s->currentBit, n)); i++) if (s->buf[i]) return FALSE;
	return TRUE;
}
#define VIRGIN(s) ccv_virgin(s, -1)
#endif
#define CCV_PATCH TRUE
#ifndef CCV_CBMC
#define DEF_CLEAN(NB) static inline flag CLEAN##NB(const BitStream *s, long n) { return ccv_virgin(s, n < 0 ? 0 : n); }
#else
#define DEF_CLEAN(NB) \
static inline flag CLEAN##NB(const BitStream *s, long n) \
{ \
	long t = TOUCHED(s->currentBit, n); \
	for (int i = 0; i < NB; i++) if (i < t && ROOM(s, n)) { \
		byte b = s->buf[s->currentByte + i]; \
		if (i == 0) b = (byte)(b & (0xFF >> s->currentBit)); \
		if (b) return FALSE; \
	} \
	return TRUE; \
}
#endif
DEF_CLEAN(2)
DEF_CLEAN(5)
DEF_CLEAN(10)
DEF_CLEAN(12)
DEF_CLEAN(24)
DEF_CLEAN(44)
#endif

#ifdef CCV_ABS
#define TRACKED(s) (CCV_G.p == bs_pos(s))
#else
#define TRACKED(s) TRUE
#endif
static inline flag CURSOR(const BitStream *s, const BSnap *o, long n)
{ return TRACKED(s) && s->currentBit >= 0 && s->currentBit <= 7 && s->currentByte >= 0 && s->currentByte <= o->s.count && bs_pos(s) == bs_pos(&o->s) + n; }
#ifdef CCV_ABS
/* the cursor advanced by n bits (over zeros that were never written / over n bits that were read) */
static inline flag ADV(const BitStream *s, const BSnap *o, long n)
#ifdef CCV_WAT
{ return CURSOR(s, o, n) && CCV_G.w == o->wb && (CCV_G.r & ~MASK(n)) == SHL(o->r, n); }
static inline flag PUTabs(const BitStream *s, const BSnap *o, int n, GW v)
{ long k = bs_pos(&o->s) + n - 1 - CCV_G.W; return CURSOR(s, o, n) && CCV_G.w == (k >= 0 && k < n ? (flag)((v >> k) & 1) : o->wb); }
static inline flag PUTabs16(const BitStream *s, const BSnap *o, int n, unsigned v)
{ long k = bs_pos(&o->s) + n - 1 - CCV_G.W; return CURSOR(s, o, n) && CCV_G.w == (k >= 0 && k < n ? (flag)((v >> (k & 15)) & 1) : o->wb); }
#else
{ return CURSOR(s, o, n) && CCV_G.g == SHL(o->g, n) && (CCV_G.r & ~MASK(n)) == SHL(o->r, n); }
static inline flag PUTabs(const BitStream *s, const BSnap *o, int n, GW v)
{ return CURSOR(s, o, n) && CCV_G.g == (SHL(o->g, n) | v); }
#endif
static inline GW GETabs(const BSnap *o, int n) { return n <= 0 ? 0 : o->r >> (CCV_GB - n); }
#define DEF_WIN(NB) \
static inline flag PUT##NB(const BitStream *s, const BSnap *o, int n, GW v) { return PUTabs(s, o, n, v); } \
static inline GW GET##NB(const BSnap *o, int n) { return GETabs(o, n); } \
static inline flag OVR##NB(const BitStream *s, const BSnap *o, int n, GW v) { return PUTabs(s, o, n, v); } \
static inline flag OVRAT##NB(const BitStream *s, const BSnap *o, int n, GW v) { return CCV_G.p == bs_pos(&o->s) + n && CCV_G.g == v; }
#else
static inline flag ADV(const BitStream *s, const BSnap *o, long n) { return CURSOR(s, o, n); }
#ifndef CCV_CBMC
/* native: the whole buffer is compared with the copy taken before the call */
static inline int ccv_bit(const byte *b, long count, long i) { return i >= 0 && i < count * 8 ? (b[i / 8] >> (7 - i % 8)) & 1 : 0; }
static inline flag ccv_nput(const BitStream *s, const BSnap *o, long n, GW v, int put)
{
	long p = bs_pos(&o->s); if (n < 0) n = 0;
	for (long i = n > CCV_GB ? n - CCV_GB : 0; i < n; i++) if (p + i < o->s.count * 8) {     /* the contract speaks of the last CCV_GB bits */
		int e = (int)((v >> (n - 1 - i)) & 1); if (put) e |= ccv_bit(o->old, o->s.count, p + i);
		if (ccv_bit(s->buf, o->s.count, p + i) != e) return FALSE;
	}
	for (long k = 0; k < o->s.count; k++) if (s->buf[k] != o->old[k]) {
		if (8 * k + 7 < p || 8 * k >= p + n) return FALSE;
		for (long i = 8 * k; i < 8 * k + 8; i++) if ((i < p || i >= p + n) && ccv_bit(s->buf, o->s.count, i) != ccv_bit(o->old, o->s.count, i)) return FALSE;
	}
	return TRUE;
}
static inline GW ccv_nget(const BSnap *o, int n) { GW r = 0; for (long i = 0; i < n; i++) r = (r << 1) | (GW)ccv_bit(o->old, o->s.count, bs_pos(&o->s) + i); return r; }
#define DEF_WIN(NB) \
static inline flag PUT##NB(const BitStream *s, const BSnap *o, int n, GW v) { return CURSOR(s, o, n) && ccv_nput(s, o, n, v, 1); } \
static inline flag OVR##NB(const BitStream *s, const BSnap *o, int n, GW v) { return CURSOR(s, o, n) && ccv_nput(s, o, n, v, 0); } \
static inline flag OVRAT##NB(const BitStream *s, const BSnap *o, int n, GW v) { return ccv_nput(s, o, n, v, 0); } \
static inline GW GET##NB(const BSnap *o, int n) { return ccv_nget(o, n); }
#else
#define DEF_WIN(NB) \
static inline GW WIN##NB(const BitStream *s, long from) { GW r = 0; for (int i = 0; i < NB; i++) r = (r << 8) | bs_at(s, from + i); return r; } \
static inline GW OWIN##NB(const BSnap *o) { GW r = 0; for (int i = 0; i < NB; i++) r = (r << 8) | o->w[i]; return r; } \
/* exactly the n bits `v` were appended (most significant first); the tail is still virgin */ \
static inline flag PUT##NB(const BitStream *s, const BSnap *o, int n, GW v) \
{ \
	if (!CURSOR(s, o, n)) return FALSE; \
	GW e = OWIN##NB(o); \
	if (n > 0) e |= v << (8 * NB - o->s.currentBit - n); \
	return WIN##NB(s, o->s.currentByte) == e; \
} \
/* the n bits `v` replace whatever stood at the cursor; every other bit keeps its value */ \
static inline flag OVR##NB(const BitStream *s, const BSnap *o, int n, GW v) \
{ \
	if (!CURSOR(s, o, n)) return FALSE; \
	GW e = OWIN##NB(o); \
	if (n > 0) { int k = 8 * NB - o->s.currentBit - n; e = (e & ~(MASK(n) << k)) | (v << k); } \
	return WIN##NB(s, o->s.currentByte) == e; \
} \
/* the same at the recorded position o stands for, wherever the cursor is now */ \
static inline flag OVRAT##NB(const BitStream *s, const BSnap *o, int n, GW v) \
{ \
	BitStream t = *s; t.currentByte = o->s.currentByte + (o->s.currentBit + n) / 8; t.currentBit = (o->s.currentBit + n) % 8; \
	return OVR##NB(&t, o, n, v); \
} \
/* the next n bits of the old stream, most significant first */ \
static inline GW GET##NB(const BSnap *o, int n) \
{ \
	if (n <= 0) return 0; \
	return (OWIN##NB(o) >> (8 * NB - o->s.currentBit - n)) & ((((GW)1) << n) - 1); \
}
#endif
#endif
#ifdef CCV_WAT
#define PUTabs PUTabs16
DEF_WIN(2)
#undef PUTabs
#else
DEF_WIN(2)
#endif
DEF_WIN(5)
DEF_WIN(9)
DEF_WIN(10)
DEF_WIN(12)
DEF_WIN(14)
DEF_WIN(16)
/* one bit written over whatever was there; all other bits keep their value */
#ifdef CCV_ABS
static inline flag SETBIT(const BitStream *s, const BSnap *o, flag v) { return PUTabs(s, o, 1, v ? 1 : 0); }
#elif !defined CCV_CBMC
static inline flag SETBIT(const BitStream *s, const BSnap *o, flag v) { return OVR2(s, o, 1, v ? 1 : 0); }
#else
static inline flag SETBIT(const BitStream *s, const BSnap *o, flag v)
{ GW m = 0x8000u >> o->s.currentBit; return CURSOR(s, o, 1) && WIN2(s, o->s.currentByte) == (v ? (OWIN2(o) | m) : (OWIN2(o) & ~m)); }
#endif
static inline flag AVAIL(const BSnap *o, long n) { return bs_pos(&o->s) + n <= bs_end(&o->s); }

/* ---- unbounded contents: one arbitrary bit W of the stream and one arbitrary element A of an array are watched.
 * A statement about them, proved for every W and A, is a statement about all bits and all elements.
 *   level wat: the watched bit is ghost state (w: the bit at W among those written; rv: the 64 unread bits from W on)
 *   level big and native replay: the bit is read from the buffer */
#ifndef CCV_CBMC
extern struct CCV_Gn { long W, A; } CCV_G;
#endif
#define IN_BITS(o, n) (CCV_G.W >= bs_pos(&(o)->s) && CCV_G.W < bs_pos(&(o)->s) + (n))
/* offset of the watched bit from the old cursor */
#define WK(o) (CCV_G.W - bs_pos(&(o)->s))
#define ABIT(arr, k) ((flag)(((byte)(arr)[(k) / 8] >> (7 - (k) % 8)) & 1))
static inline uint64_t RDMEM(const byte *b, long count, long pos, int k)
{ u128 r = 0; long i0 = pos / 8; for (int i = 0; i < 9; i++) r = (r << 8) | (i0 + i < count ? b[i0 + i] : (byte)0); return k <= 0 ? 0 : (uint64_t)((r >> (72 - pos % 8 - k)) & ((((u128)1) << k) - 1)); }
#ifdef CCV_WAT
#define WBIT(s) ((flag)CCV_G.w)
#define OWBIT(o) ((o)->wb)
#define RCONS() (CCV_E.norc || RCONS_())
/* E.rc0: only if the cursor is at W (a weaker assumption, enough where W is the start of an element) */
#define RCONS_() (HCONS() && (CCV_E.rc0 ? CCV_G.p != CCV_G.W || CCV_G.rv == (uint64_t)(CCV_G.r >> (CCV_GB - 64)) : !(CCV_G.p <= CCV_G.W && CCV_G.W <= CCV_G.p + CCV_GB - 64) || CCV_G.rv == (uint64_t)(CCV_G.r >> (CCV_GB - 64 - (CCV_G.W - CCV_G.p)))))
/* hypothesis of the round trip statements: from position hp on, the stream holds the fragments of hn items of hu bits */
static inline flag HCONS1_(void)       /* hk 1: the first octet hu is number hn */
{ return L_HCONS1(); }
static inline flag HCONS2_(void)       /* hk 2: every group of hu bits is below hn */
{ return L_HCONS2(); }
static inline flag HCONS_(void)
{ long h = ccv_frhdr(CCV_G.p - CCV_E.hp, CCV_E.hn, CCV_E.hu); return h < 0 || (GW)(h & 0xFFFF) == CCV_G.r >> (CCV_GB - (h >> 16)); }
#define HCONS() (!CCV_E.hyp || (CCV_E.hk == 0 ? HCONS_() : CCV_E.hk == 1 ? HCONS1_() : HCONS2_()))
#define FRBAD(o, u) (CCV_E.hyp && CCV_E.hb != 0 && CCV_E.hp == bs_pos(&(o)->s) && CCV_E.hu == (u))
#define FRHYP(o, u) (CCV_E.hyp && CCV_E.hb == 0 && CCV_E.hp == bs_pos(&(o)->s) && CCV_E.hu == (u))
#define FRNN (CCV_E.hn)
/* x is the value of the k bits at position pos of the stream that was read */
#define RD(o, pos, k, x) (CCV_G.W != (pos) || (uint64_t)(x) == ((k) <= 0 ? 0 : CCV_G.rv >> (64 - (k))))
#else
#define WBIT(s) ((flag)(CCV_G.W < (s)->count * 8 ? ((s)->buf[CCV_G.W / 8] >> (7 - CCV_G.W % 8)) & 1 : 0))
#ifdef CCV_CBMC
#define OWBIT(o) ((o)->wb)
#else
#define OWBIT(o) ((flag)(CCV_G.W < (o)->s.count * 8 ? ((o)->old[CCV_G.W / 8] >> (7 - CCV_G.W % 8)) & 1 : 0))
#endif
#define RD(o, pos, k, x) ((uint64_t)(x) == RDMEM((o)->s.buf, (o)->s.count, (pos), (k)))
#ifdef CCV_CBMC
/* contracts that speak of it are not usable at these levels */
#define FRHYP(o, u) 0
#define FRBAD(o, u) 0
#define FRNN 0L
#else
/* native: parse the headers */
static long ccv_hn; static flag ccv_hbad;
static inline flag ccv_frhyp(const BSnap *o, int u)
{
	ccv_hbad = FALSE;
	long d = 0, n = 0, p0 = bs_pos(&o->s), end = o->s.count * 8; int c = 1;
	for (;;) {
		uint64_t h; if (p0 + d + 8 > end) return FALSE;
		h = RDMEM(o->old, o->s.count, p0 + d, 8); d += 8;
		if (h > 0xC0 && h <= 0xC4) { if (h != 0xC4 || !c) { if (!c) return FALSE; c = 0; } n += (long)(h & 7) * 16384; d += (long)(h & 7) * 16384 * u; continue; }
		if (h & 0x40 && h & 0x80) { ccv_hbad = (flag)(c || h == 0xC0 || h > 0xC4); return FALSE; }
		if (h & 0x80) { if (p0 + d + 8 > end) return FALSE; h = (h & 0x3F) << 8 | RDMEM(o->old, o->s.count, p0 + d, 8); if (h < 128) return FALSE; }
		ccv_hn = n + (long)h; return TRUE;
	}
}
#define FRHYP(o, u) ccv_frhyp(o, u)
#define FRBAD(o, u) (!ccv_frhyp(o, u) && ccv_hbad)
#define FRNN ccv_hn
#endif
#endif
/* n bits were appended; `bit` (in terms of WK) is the watched one if it is among them; every other bit is unchanged */
#define PUTW(s, o, n, bit) (CURSOR(s, o, n) && WBIT(s) == (IN_BITS(o, n) ? (flag)(bit) : OWBIT(o)))
/* the fragmented encoding of the n items of u bits of arr was appended */
#ifdef CCV_CBMC
/* E.eb, with E.fs: the claimed bit, evaluated at entry */
#define PUTFR(s, o, arr, n, u) (CURSOR(s, o, FR_N(n, u)) && (!IN_BITS(o, FR_N(n, u)) ? WBIT(s) == OWBIT(o) : CCV_E.fs ? WBIT(s) == CCV_E.eb : FR_CLAIM(arr, n, u, WK(o), WBIT(s))))
#else
#define PUTFR(s, o, arr, n, u) PUTW(s, o, FR_N(n, u), ccv_frb(arr, n, u, WK(o)))
#endif
/* bits of a string of n items of u bits of a type with size bounds min, max */
#define STRLEN_N(n, u, min, max) ((max) < 65536 ? NBITS((UI)((max) - (min))) + (long)(n) * (u) : FR_N(n, u))
#define KEEPW(s, o) (WBIT(s) == OWBIT(o))
/* zero-terminated strings: Z is the index of the terminator */
#ifdef CCV_CBMC
#define STRZ(str) (CCV_G.Z)
#else
#define STRZ(str) ((long)strlen(str))
#endif
#define ZLEN(str) (STRZ(str) + 1)
/* index of character ch in the n characters of set (0 if it does not occur) */
#ifdef CCV_CBMC
extern int __CPROVER_uninterpreted_chidx(const void *, int, int);
#define CHIDX(set, n, ch) (__CPROVER_uninterpreted_chidx((set), (n), (ch)))
#else
static inline int CHIDX(const byte *set, int n, char ch) { for (int i = 0; i < n; i++) if (ch == set[i]) return i; return 0; }
#endif
#define MINZ(str, max) (STRZ(str) < (max) ? STRZ(str) : (long)(max))
#define POSZ(n) ((n) > 0 ? (long)(n) : 0L)
#define CLAMP(n, max) ((n) > (max) ? (long)(max) : POSZ(n))
#define CHIDX_OK(set, n, ch) (CHIDX(set, n, ch) >= 0 && CHIDX(set, n, ch) < (n) && ((set)[CHIDX(set, n, ch)] == (ch) || (CHIDX(set, n, ch) == 0 && (CCV_G.A < 0 || CCV_G.A >= (n) || (set)[CCV_G.A] != (ch)))))
/* character number X of those encoded in nb bits each from offset hdr on, if it is one of the first k and holds the watched bit */
#ifdef CCV_CBMC
#define CI_X(o, hdr, nb) (CCV_G.X)
#else
#define CI_X(o, hdr, nb) ((nb) > 0 ? (WK(o) - (hdr)) / (nb) : -1L)
#endif
#define CI_IN(o, hdr, nb, k) (CI_X(o, hdr, nb) >= 0 && CI_X(o, hdr, nb) < (k) && FR_IN(WK(o) - (hdr), CI_X(o, hdr, nb) * (nb), (nb)))
#define CI_BIT(o, hdr, nb, idx) ((flag)(((idx) >> (((nb) - 1 - (WK(o) - (hdr) - CI_X(o, hdr, nb) * (nb))) & 15)) & 1))
#ifdef CCV_CBMC
#ifdef CCV_WAT
#define NULZ(o, nul) (CCV_E.hn)
#define CHHYPX(o, hdr, size, k) (((size) & ((size) - 1)) == 0 || (CCV_E.hyp && CCV_E.hk == 2 && CCV_E.hp == bs_pos(&(o)->s) + (hdr) && CCV_E.hu == NBITS((size) - 1) && CCV_E.hn == (size)))
#define RDCH(o, pos, set, size, ch) (CCV_G.W != (pos) || ((size) > 1 ? (CCV_G.rv >> (64 - NBITS((size) - 1))) < (unsigned long)(size) && (byte)(ch) == (set)[CCV_G.rv >> (64 - NBITS((size) - 1))] : (byte)(ch) == (set)[0]))
#else
#define NULZ(o, nul) 0L
#define CHHYPX(o, hdr, size, k) 0
#define RDCH(o, pos, set, size, ch) 1
#endif
#else
static inline int NBITS(uint64_t v);
static inline long NULZ(const BSnap *o, char nul) { long p = bs_pos(&o->s), i = 0; for (; p + 8 * i + 8 <= o->s.count * 8; i++) if (RDMEM(o->s.buf, o->s.count, p + 8 * i, 8) == (byte)nul) return i; return 1L << 40; }
static inline flag CHHYPX(const BSnap *o, long hdr, int size, long k)
{ int nb = NBITS(size - 1); long p = bs_pos(&o->s) + hdr; for (long i = 0; i < k && p + nb * i + nb <= o->s.count * 8; i++) if (RDMEM(o->s.buf, o->s.count, p + nb * i, nb) >= (uint64_t)size) return FALSE; return TRUE; }
#define RDCH(o, pos, set, size, ch) (RDMEM((o)->s.buf, (o)->s.count, (pos), NBITS((size) - 1)) < (uint64_t)(size) && (byte)(ch) == (set)[RDMEM((o)->s.buf, (o)->s.count, (pos), NBITS((size) - 1))])
#endif
#define CHHYP(o, size, k) CHHYPX(o, 0L, size, k)
#ifdef CCV_CBMC
#define IX(arr) (__CPROVER_same_object(CCV_G.wp, (arr)) ? CCV_G.A - (long)((arr) - (__typeof__(arr))CCV_G.wp) : -1L)
#define OLDV(arr) (OLD->arr.a)
#else
#define IX(arr) (CCV_G.A)
#define OLDV(arr) (OLD->arr.p[CCV_G.A])
#endif

/* ---- byte streams ------------------------------------------------------------------------ */
static inline long ys_pos(const ByteStream *s) { return (long)s->currentByte * 8; }
static inline flag YSI(const ByteStream *s) { return s->count >= 0 && s->count <= CCV_MAXCOUNT && s->currentByte >= 0 && s->currentByte <= s->count; }
static inline flag YROOM(const ByteStream *s, long n) { return s->currentByte + n <= s->count; }
static inline flag YAVAIL(const YSnap *o, long n) { return o->s.currentByte + n <= o->s.count; }
#ifdef CCV_ABS
static inline flag YCUR(const ByteStream *s, const YSnap *o, long n)
{ return CCV_G.p == ys_pos(s) && s->currentByte >= 0 && s->currentByte <= o->s.count && s->currentByte == o->s.currentByte + n; }
static inline GW YGET(const YSnap *o, int n) { return n <= 0 ? 0 : o->r >> (CCV_GB - 8 * n); }
/* the n octets v were appended / n octets were consumed */
static inline flag YPUT(const ByteStream *s, const YSnap *o, int n, GW v) { return YCUR(s, o, n) && CCV_G.g == (SHL(o->g, 8 * n) | v); }
static inline flag YADV(const ByteStream *s, const YSnap *o, int n) { return YCUR(s, o, n) && (CCV_G.r & ~MASK(8 * n)) == SHL(o->r, 8 * n); }
/* failed somewhere: wherever the cursor stopped, it is inside */
static inline flag YIN(const ByteStream *s, const YSnap *o) { return CCV_G.p == ys_pos(s) && s->currentByte >= o->s.currentByte && s->currentByte <= o->s.count; }
#else
static inline flag YCUR(const ByteStream *s, const YSnap *o, long n) { return s->currentByte >= 0 && s->currentByte <= o->s.count && s->currentByte == o->s.currentByte + n; }
static inline GW YGET(const YSnap *o, int n) { GW r = 0; for (int i = 0; i < CCV_SNAPMAX; i++) if (i < n) r = (r << 8) | o->w[i]; return r; }
static inline flag YPUT(const ByteStream *s, const YSnap *o, int n, GW v)
{
	if (!YCUR(s, o, n)) return FALSE;
	for (int i = 0; i < CCV_GB / 8; i++) if (i < n && s->buf[o->s.currentByte + i] != (byte)(v >> (8 * (n - 1 - i)))) return FALSE;
	return TRUE;
}
static inline flag YADV(const ByteStream *s, const YSnap *o, int n) { return YCUR(s, o, n); }
static inline flag YIN(const ByteStream *s, const YSnap *o) { return s->currentByte >= o->s.currentByte && s->currentByte <= o->s.count; }
#endif

/* ---- integers ------------------------------------------------------------------------- */
/* number of significant bits of v, 0 for 0 (X.691 10.5: width of a range) */
static inline int NBITS(uint64_t v)
{
	int n = 0;
	if (v >> 32) { n += 32; v >>= 32; } if (v >> 16) { n += 16; v >>= 16; } if (v >> 8) { n += 8; v >>= 8; }
	if (v >> 4) { n += 4; v >>= 4; } if (v >> 2) { n += 2; v >>= 2; } if (v >> 1) { n += 1; v >>= 1; }
	return n + (int)v;
}
/* minimal number of octets of an unsigned value (X.691 10.7/10.3): at least 1 */
static inline int UBYTES(uint64_t v) { return v >> 56 ? 8 : v >> 48 ? 7 : v >> 40 ? 6 : v >> 32 ? 5 : v >> 24 ? 4 : v >> 16 ? 3 : v >> 8 ? 2 : 1; }
/* minimal number of octets of a two's complement value (X.691 10.4): at least 1 */
#define SFITS(v, k) ((v) >> (k) == 0 || (v) >> (k) == -1)
static inline int SBYTES(int64_t v) { return SFITS(v, 7) ? 1 : SFITS(v, 15) ? 2 : SFITS(v, 23) ? 3 : SFITS(v, 31) ? 4 : SFITS(v, 39) ? 5 : SFITS(v, 47) ? 6 : SFITS(v, 55) ? 7 : 8; }
/* sign extension of the low n bits (1 <= n <= 64) */
static inline int64_t SEXT(uint64_t v, int n) { return n >= 64 ? (int64_t)v : (int64_t)((v ^ ((uint64_t)1 << (n - 1))) - ((uint64_t)1 << (n - 1))); }

/* ---- decimal representation ----------------------------------------------------------------
 * Units of u bits (4: BCD, 8: ASCII) are folded, from a position of the stream on, into the number their digits denote.
 * Proofs (level dec): the fold is ghost state; every function that reads or writes a unit at the position the fold has
 * reached contributes that unit (effect clauses of the contracts).  Native: computed from the buffer. */
static inline UI P10(int n) { UI r = 1; for (int i = 0; i < 19; i++) if (i < n && (sizeof(UI) == 8 || i < 9)) r *= 10; return r; }
#ifdef CCV_DEC
static const UI ccv_p10[20] = { 1u, 10u, 100u, 1000u, 10000u, 100000u, 1000000u, 10000000u, 100000000u, 1000000000u,
	10000000000u, 100000000000u, 1000000000000u, 10000000000000u, 100000000000000u, 1000000000000000u, 10000000000000000u, 100000000000000000u, 1000000000000000000u, 10000000000000000000u };
#define LTP10(v, n) ((n) >= 20 || ((n) >= 0 && (v) < ccv_p10[n]))
#else
#define LTP10(v, n) ((n) >= (sizeof(UI) == 8 ? 20 : 10) || ((n) >= 0 && (v) < P10(n)))
#endif
/* number of decimal digits, 0 for 0 */
static inline int NDIG(UI v) { int n = 0; while (n < 20 && !LTP10(v, n)) n++; return n; }
#define NDIG1(v) (NDIG(v) > 0 ? NDIG(v) : 1)
#define FITS10(v, x) ((v) < UMAXV / 10 || ((v) == UMAXV / 10 && (UI)(x) <= UMAXV % 10))
#define SABS(v) ((v) < 0 ? (UI)0 - (UI)(v) : (UI)(v))
#ifdef CCV_CBMC
#ifdef CCV_DEC
static inline void ccv_fold(long p, int u, unsigned x)
{
	if (u != CCV_G.du || p != CCV_G.dp + (u == 8 ? CCV_G.dr << 3 : CCV_G.dr << 2)) return;
	CCV_G.dr++;
	if (CCV_G.dl > 0) { CCV_G.dh = CCV_G.dh << 8 | x; if (CCV_G.dr <= CCV_G.dl) return; x = (unsigned)(CCV_G.dh >> (8 * CCV_G.dl)) & 0xFF; }
	if (CCV_G.dt || !CCV_G.dok) return;
	unsigned d = u == 8 ? x - 48u : x;
	if (d > 9) { CCV_G.dt = 1; return; }
	if (!FITS10(CCV_G.dv, d)) { CCV_G.dok = 0; return; }
	CCV_G.dv = CCV_G.dv * 10 + d; CCV_G.dn++;
}
/* start of the fold */
#define FOLDFROM(pos, u) (CCV_G.dp = (pos), CCV_G.du = (u), CCV_G.dn = 0, CCV_G.dv = 0, CCV_G.dr = 0, CCV_G.dl = 0, CCV_G.dh = 0, CCV_G.dok = 1, CCV_G.dt = 0)
extern UI nondet_s_decq(void); extern unsigned char nondet_s_decd(void);
/* facts about the decimal digits of v (uniquely determined by them) */
static inline void ccv_digits(UI v)
{
	CCV_E.dval = v; CCV_E.q[0] = v; __CPROVER_assume(CCV_E.q[20] == 0); for (int i = 20; i < 32; i++) CCV_E.d[i] = 0;
	for (int i = 0; i < 20; i++) {
		UI n = i < 19 ? nondet_s_decq() : 0; unsigned char d = nondet_s_decd(); CCV_E.q[i + 1] = n; CCV_E.d[i] = d;
		__CPROVER_assume(d <= 9 && n <= UMAXV / 10 && CCV_E.q[i] == n * 10 + d && CCV_E.q[i] >= d && (CCV_E.q[i] == 0) == LTP10(v, i));
	}
}
#define FOLD_AT(o, off, u) (CCV_G.dp == bs_pos(&(o)->s) + (off) && CCV_G.du == (u) && CCV_G.dl == 0)
#define FOLD_ATD(o, off, nz) (CCV_G.dp == bs_pos(&(o)->s) + (off) && CCV_G.du == 8 && CCV_G.dl == (long)(nz) && CCV_G.dn >= 0 && CCV_G.dn <= CCV_MAXCOUNT)
#define DEC_OK(s, o, off, u, n) (FOLD_AT(o, off, u) && CCV_G.dok && !CCV_G.dt && CCV_G.dn == (n) && CCV_G.dr == (n))
#define DEC_END(s, o, off, u) (FOLD_AT(o, off, u) && CCV_G.dok && CCV_G.dt && CCV_G.dn >= 0 && CCV_G.dn <= 2L * CCV_MAXCOUNT)
#define DEC_VAL(s, o, off, u, n) (CCV_G.dv)
#define DEC_N(s, o, off, u) (CCV_G.dn)
/* digits, ended by the nz characters nul: the fold runs nz characters behind */
#define NULOK(s, o, off, nul, nz) (FOLD_ATD(o, off, nz) && CCV_G.dok && !CCV_G.dt && CCV_G.dr == CCV_G.dn + (long)(nz) && (CCV_G.dh & MASK(8 * (int)(nz))) == NULV(nul, nz))
/* not so: too short, or neither a digit nor the end (or a number that is too large) */
#define NULBAD(s, o, off, nul, nz) (FOLD_ATD(o, off, nz) && (!AVAIL(o, (off) + 8 * CCV_G.dr + 8) || ((!CCV_G.dok || CCV_G.dt) && CCV_G.dr == CCV_G.dn + (long)(nz) + 1 && ((CCV_G.dh >> 8) & MASK(8 * (int)(nz))) != NULV(nul, nz))))
#define NULNUM(s, o, off, nul, nz) (CCV_G.dn)
#define NULVAL(s, o, off, nul, nz) (CCV_G.dv)
#define DIGVAL(v) (CCV_E.dval == (v) && CCV_E.n1 == NDIG1(v))
/* what was appended before the last n bits is still there; the k bits before the last n */
#define KEEPG(s, o, n) ((CCV_G.g & ~MASK(n)) == SHL((o)->g, n))
#define TAILG(s, k) (CCV_G.g & MASK(k))
#define BEFG(s, k, n) ((CCV_G.g >> (n)) & MASK(k))
#else
#define ccv_fold(p, u, x) ((void)0)
#define FOLDFROM(pos, u) ((void)0)
#define ccv_digits(v) ((void)0)
#define DEC_OK(s, o, off, u, n) 0
#define DEC_END(s, o, off, u) 0
#define DEC_VAL(s, o, off, u, n) ((UI)0)
#define DEC_N(s, o, off, u) 0L
#define NULOK(s, o, off, nul, nz) 0
#define NULBAD(s, o, off, nul, nz) 0
#define NULNUM(s, o, off, nul, nz) 0L
#define NULVAL(s, o, off, nul, nz) ((UI)0)
#define DIGVAL(v) 0
#define KEEPG(s, o, n) 0
#define TAILG(s, k) ((GW)0)
#define BEFG(s, k, n) ((GW)0)
#endif
#else
typedef struct { UI v; long n; flag ok, end; } Fold;
static inline Fold ccv_foldn(const BitStream *s, long pos, int u, long n)
{
	Fold f = { 0, 0, TRUE, FALSE };
	for (long i = 0; (n < 0 || i < n) && pos + u * i + u <= s->count * 8; i++) {
		unsigned x = (unsigned)RDMEM(s->buf, s->count, pos + u * i, u); if (u == 8) x -= 48u;
		if (x > 9) { f.end = TRUE; break; }
		if (!FITS10(f.v, x)) { f.ok = FALSE; break; }
		f.v = f.v * 10 + x; f.n++;
	}
	return f;
}
#define FOLD_(s, o, off, u, n) ccv_foldn(s, bs_pos(&(o)->s) + (off), u, n)
#define DEC_OK(s, o, off, u, k) (FOLD_(s, o, off, u, k).ok && !FOLD_(s, o, off, u, k).end && FOLD_(s, o, off, u, k).n == (k))
#define DEC_END(s, o, off, u) (FOLD_(s, o, off, u, -1).ok && FOLD_(s, o, off, u, -1).end)
#define DEC_VAL(s, o, off, u, k) (FOLD_(s, o, off, u, k).v)
#define DEC_N(s, o, off, u) (FOLD_(s, o, off, u, -1).n)
static inline int ccv_dig(UI v, int i) { while (i-- > 0) v /= 10; return (int)(v % 10); }
#define DIGVAL(v) TRUE
#define KEEPG(s, o, n) TRUE
static inline Fold ccv_nuln(const BitStream *s, long pos, const byte *nul, long nz)
{
	Fold f = { 0, 0, FALSE, FALSE };
	for (;; f.n++) {
		long p = pos + 8 * f.n, k = 0; if (p + 8 * nz > s->count * 8) return f;
		while (k < nz && RDMEM(s->buf, s->count, p + 8 * k, 8) == nul[k]) k++;
		if (k == nz) { f.ok = TRUE; return f; }
		unsigned x = (unsigned)RDMEM(s->buf, s->count, p, 8) - 48u;
		if (x > 9 || !FITS10(f.v, x)) return f;
		f.v = f.v * 10 + x;
	}
}
#define NUL_(s, o, off, nul, nz) ccv_nuln(s, bs_pos(&(o)->s) + (off), nul, (long)(nz))
#define NULOK(s, o, off, nul, nz) (NUL_(s, o, off, nul, nz).ok)
#define NULBAD(s, o, off, nul, nz) TRUE
#define NULNUM(s, o, off, nul, nz) (NUL_(s, o, off, nul, nz).n)
#define NULVAL(s, o, off, nul, nz) (NUL_(s, o, off, nul, nz).v)
static inline GW ccv_bef(const BitStream *s, int k, int n) { GW r = 0; for (long i = bs_pos(s) - n - k; i < bs_pos(s) - n; i++) r = (r << 1) | (GW)(i >= 0 && i < s->count * 8 ? (s->buf[i / 8] >> (7 - i % 8)) & 1 : 0); return r; }
#define TAILG(s, k) ccv_bef(s, k, 0)
#define BEFG(s, k, n) ccv_bef(s, k, n)
#endif
#define SCHAR(o, k) ((int)(GET2(o, (k) + 8) & 0xFF))
#define SIGNOK(o, k) (SCHAR(o, k) == '+' || SCHAR(o, k) == '-')
#define SNEG(o, k) (SCHAR(o, k) == '-')
#define SVAL(neg, u) ((neg) ? (SI)((UI)0 - (UI)(u)) : (SI)(u))
/* the n <= 10 octets of a, most significant first */
static inline GW NULV(const byte *a, size_t n) { GW r = 0; for (int i = 0; i < 10; i++) if (i < (int)n) r = (r << 8) | a[i]; return r; }
/* a[0..100): the characters of the decimal digits of v, zeros after them */
static inline flag DIGCHARS(const byte *a, UI v)
{
	int n = NDIG1(v); (void)n;
#ifdef CCV_CBMC
#ifdef CCV_DEC
	flag ok = TRUE; n = (int)CCV_E.n1;
	for (int j = 0; j < 100; j++) ok = ok && a[j] == (j < 20 && j < n ? 48 + CCV_E.d[n - 1 - j] : 0);
	return ok;
#else
	return FALSE;
#endif
#else
	for (int j = 0; j < 100; j++) if (a[j] != (j < n ? 48 + ccv_dig(v, n - 1 - j) : 0)) return FALSE;
	return TRUE;
#endif
}

/* IEEE 754 representations */
static inline uint32_t FBITS(float f) { union { float f; uint32_t u; } x; x.f = f; return x.u; }
static inline float BITSF(uint32_t u) { union { float f; uint32_t u; } x; x.u = u; return x.f; }
static inline double BITSD(uint64_t u) { union { double f; uint64_t u; } x; x.u = u; return x.f; }
static inline uint64_t DBITS(double f) { union { double f; uint64_t u; } x; x.f = f; return x.u; }
/* ---- REAL: the IEEE 754 image b of a double as sign, 53 bit mantissa and exponent (value = mantissa * 2^exponent) ---- */
#define RBEXP(b) ((int)((b) >> 52 & 0x7FF))
#define RFRAC(b) ((b) & 0xFFFFFFFFFFFFFULL)
#define RNAN(b) (RBEXP(b) == 0x7FF && RFRAC(b))
#define RINF(b) (RBEXP(b) == 0x7FF && !RFRAC(b))
#define RNEG(b) ((b) >> 63)
#define RZERO(b) (((b) << 1) == 0)
#define RFIN(b) (RBEXP(b) != 0x7FF)
static inline uint64_t RMANT(uint64_t b) { return RBEXP(b) ? RFRAC(b) | 0x10000000000000ULL : RFRAC(b); }
static inline int REXP(uint64_t b) { return (RBEXP(b) ? RBEXP(b) : 1) - 1075; }
/* image of m * 2^e, exact for m < 2^53 unless ones of m fall below the smallest subnormal (RLOSSY) */
static inline flag RLOSSY(uint64_t m, int e) { return m && e < -1074 && (e < -1074 - 52 || (m & (((uint64_t)1 << (-1074 - e)) - 1))); }
static inline uint64_t LDBITS(uint64_t m, int e)
{
	if (m == 0) return 0;
	int bl = NBITS(m); 
	if (e > 1023) return 0x7FF0000000000000ULL;
	int t = e + bl - 1;         /* exponent of the leading bit */
	if (t > 1023) return 0x7FF0000000000000ULL;
	if (t < -1022) return e < -1074 ? m >> (-1074 - e) : m << (e + 1074);
	return ((uint64_t)(t + 1023) << 52) | RFRAC(m << (53 - bl));
}
/* decoding: z = the n octets (at most 16) after the first octet h */
#define RHX(h) (((h) & 3) == 3)
static inline int RHEL(int h, GW z, int n) { return RHX(h) ? (n < 1 ? 0 : (int)(z >> (8 * (n - 1)) & 0xFF)) : (h & 3) + 1; }
/* well-formed: exponent of 1 to 3 octets inside, mantissa of at most 64 bits */
static inline GW RHMANT(int h, GW z, int n) { int ml = n - RHX(h) - RHEL(h, z, n); return ml <= 0 ? 0 : z & MASK(8 * ml); }
static inline flag RHOK(int h, GW z, int n)
{ int el = RHEL(h, z, n); return el >= 1 && el <= 3 && el + RHX(h) <= n && RHMANT(h, z, n) <= (GW)(UMAXV >> (h >> 2 & 3)); }
static inline uint64_t RHM(int h, GW z, int n) { return (uint64_t)RHMANT(h, z, n) << (h >> 2 & 3); }
static inline int RHE(int h, GW z, int n)
{ int el = RHEL(h, z, n), ml = n - RHX(h) - el; if (el < 1 || el > 3 || ml < 0) return 0; return ((h & 0x30) == 0x10 ? 3 : (h & 0x30) == 0x20 ? 4 : 1) * (int)SEXT((uint64_t)(z >> (8 * ml)) & (uint64_t)MASK(8 * el), 8 * el); }
/* the value is claimed where it is exact; its image */
static inline flag RHEXACT(int h, GW z, int n) { uint64_t m = RHM(h, z, n); return !(m >> 53) && !RLOSSY(m, RHE(h, z, n)); }
static inline uint64_t RHBITS(int h, GW z, int n) { return ((uint64_t)(h & 0x40) << 57) | LDBITS(RHM(h, z, n), RHE(h, z, n)); }
/* octets and value of the encoding: length, first octet (0x80 | sign | exponent octets - 1), exponent, mantissa */
static inline int RLEN(uint64_t b)
{
	if (RZERO(b)) return RNEG(b) ? 16 : 8;
	if (!RFIN(b)) return 16;
	return 8 * (2 + SBYTES(REXP(b)) + UBYTES(RMANT(b)));
}
static inline GW RWIRE(uint64_t b)
{
	if (RZERO(b)) return RNEG(b) ? 0x143 : 0;
	if (!RFIN(b)) return RNAN(b) ? 0x142 : RNEG(b) ? 0x141 : 0x140;
	int el = SBYTES(REXP(b)), ml = UBYTES(RMANT(b));
	return ((((((GW)(1 + el + ml) << 8) | 0x80 | (RNEG(b) ? 0x40 : 0) | (el - 1)) << (8 * el)) | ((uint64_t)REXP(b) & MASK(8 * el))) << (8 * ml)) | RMANT(b);
}
static inline flag POSOK(const BitStream *s, AcnBitStreamPos p, long n)
{ return p.currentByte >= 0 && p.currentByte <= s->count && p.currentBit >= 0 && p.currentBit <= 7 && p.currentByte * 8 + p.currentBit + n <= bs_end(s); }

/* the n octets of v (n <= 8) in reversed order */
static inline uint64_t BSWAP(uint64_t v, int n) { uint64_t r = 0; for (int i = 0; i < 8; i++) if (i < n) r = (r << 8) | ((v >> (8 * i)) & 0xFF); return r; }

/* ---- BER ---- */
#define SAMETAG(x,t,n) (((x) ^ (t)) == 0 || ((x) ^ (t)) == (UI)0x20 << (8*((n)-1)))
#define LENN(v) ((v) <= 0x7F ? 1 : 1 + UBYTES((UI)(v)))
#define LENV(v) ((v) <= 0x7F ? (GW)(v) : ((GW)(0x80 | UBYTES((UI)(v))) << (8*UBYTES((UI)(v)))) | (GW)(v))
#define LL(o) ((int)YGET(o,1) & 0x7F)
#define LFORM(o) ((YGET(o,1) & 0x80) != 0)
#define LCONT(o) (YGET(o,1+LL(o)) & MASK(8*LL(o)))
#define LSIZE(o) (LFORM(o) ? 1 + LL(o) : 1)
#define LVALUE(o) (!LFORM(o) ? LL(o) : LL(o) == 0 ? -1 : (int)LCONT(o))
#define LKNOWN(o) (!LFORM(o) || LL(o) <= 46)
#define LOK(o) (YAVAIL(o,1) && (!LFORM(o) || LL(o) == 0 || (YAVAIL(o,1+LL(o)) && LCONT(o) <= 0x7FFFFFFF)))
#define TL(o,tag) UBYTES(tag)
#define TAGOK(o,tag) (YAVAIL(o,UBYTES(tag)) && SAMETAG((UI)YGET(o,UBYTES(tag)),tag,UBYTES(tag)))
#define LEN1(o,tag) ((int)(YGET(o,UBYTES(tag)+1) & 0xFF))

#endif
