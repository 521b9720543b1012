/* Loop contracts.  Force-included when the sources of /repo/asn1crt are compiled for verification (-DASN1SCC_VERIF);
 * the macro ASN1SCC_LOOP(id, variables...) stands in the sources between a loop header and its body and expands to
 * nothing in every other build. */
#include "ghost.h"
#define ASN1SCC_LOOP(id, ...) CCV_LOOP_##id(__VA_ARGS__)
#define INV __CPROVER_loop_invariant
#define ASG __CPROVER_assigns
#define L_MASK(k) ((k) >= CCV_GB ? ~(ccv_gw)0 : (((ccv_gw)1) << (k)) - 1)
#define L_SHL(x, k) ((k) >= CCV_GB ? (ccv_gw)0 : (x) << (k))
#define L_POS(s) ((s)->currentByte * 8 + (s)->currentBit)
#define L_CUR(s, k) ((s)->currentByte >= 0 && (s)->currentByte <= (s)->count && (s)->currentBit >= 0 && (s)->currentBit <= 7 && CCV_G.p == L_POS(s) && L_POS(s) == CCV_E.pos + (k))
#define L_BSI_(s) ((s)->currentByte >= 0 && (s)->currentByte <= (s)->count && (s)->currentBit >= 0 && (s)->currentBit <= 7 && L_POS(s) <= (s)->count * 8)
#define L_STREAM(s) (s)->currentByte, (s)->currentBit, CCV_G.g, CCV_G.r, CCV_G.p

/* n0 = number of one bits requested; n = bits still to append */
#define CCV_LOOP_AppendNBitOne(s, n) \
	ASG(n, L_STREAM(s)) \
	INV(n >= 0 && n <= CCV_E.n0 && (CCV_E.n0 - n) % 8 == 0 && L_CUR(s, CCV_E.n0 - n)) \
	INV(CCV_G.g == (L_SHL(CCV_E.g, CCV_E.n0 - n) | L_MASK(CCV_E.n0 - n)))

/* n bits of v, most significant first; i done */
#define CCV_LOOP_PatchDet(s, i, n, v) \
	ASG(i, L_STREAM(s)) \
	INV(i >= 0 && i <= n && L_CUR(s, i)) \
	INV(CCV_G.g == (((ccv_gw)(v) >> (n - i)) & L_MASK(i)))

#define L_YCUR(s, k) ((s)->currentByte >= 0 && (s)->currentByte <= (s)->count && CCV_G.p == (long)(s)->currentByte * 8 && CCV_G.p == CCV_E.pos + 8 * (k))
#define L_YSTREAM(s) (s)->currentByte, CCV_G.g, CCV_G.r, CCV_G.p
#define L_READ(k) ((CCV_G.r & ~L_MASK(k)) == L_SHL(CCV_E.r, k))
/* content octets of a long form length: i of n read; ret their value */
#define CCV_LOOP_BerDecodeLength(s, i, n, ret, cur, err) \
	ASG(i, ret, cur, *err, L_YSTREAM(s)) \
	INV(i >= 0 && i <= n && L_YCUR(s, 1 + i) && L_READ(8 * (1 + i)) && ret <= 0x7FFFFFFF && *err == CCV_E.n0) \
	INV(i > 46 || (ccv_gw)ret == ((CCV_E.r >> (CCV_GB - 8 * (1 + i))) & L_MASK(8 * i)))

/* ---- decimal digits (see spec.h): E.q, E.d quotients and digits of E.dval ---- */
#ifdef CCV_DEC
#define L_DSTREAM(s) L_STREAM(s), CCV_G.dn, CCV_G.dr, CCV_G.dh, CCV_G.dv, CCV_G.dok, CCV_G.dt
/* k digits taken off v; tmp holds them */
#define L_DIGITS(v, tmp, k, zero) \
	INV(k >= 0 && k <= 20 && (v) == CCV_E.q[k] && (k == 0 || CCV_E.q[(k) - 1] > 0)) \
	INV(__CPROVER_forall { int j_; (0 <= j_ && j_ < 20) ==> (tmp)[j_] == (j_ < k ? (zero) + CCV_E.d[j_] : 0) }) \
	INV(__CPROVER_forall { int j_; (20 <= j_ && j_ < 100) ==> (tmp)[j_] == 0 })
#define CCV_LOOP_DecDigits(v, tmp, k, zero) \
	ASG(v, k, __CPROVER_object_whole(tmp)) L_DIGITS(v, tmp, k, zero)
#define CCV_LOOP_DecReverse(digits, tmp, k, i) \
	ASG(i, __CPROVER_object_whole(digits)) \
	INV(i >= -1 && i < k) \
	INV(__CPROVER_forall { int j_; (0 <= j_ && j_ < 20) ==> (digits)[j_] == (j_ < (int)(k) - 1 - i ? 48 + CCV_E.d[((k) - 1 - j_) & 31] : 0) }) \
	INV(__CPROVER_forall { int j_; (20 <= j_ && j_ < 100) ==> (digits)[j_] == 0 })
#define CCV_LOOP_DecSize(v, k) \
	ASG(v, k) \
	INV(k >= 0 && k <= 20 && v == CCV_E.q[k] && (k == 0 || CCV_E.q[k - 1] > 0))
/* k digits appended, the next n still to come */
#define L_APPENDED(s, u, k, n) \
	INV(L_CUR(s, (long)(u) * (k)) && L_BSI_(s) && CCV_G.dok && !CCV_G.dt && CCV_G.dr == (k) && CCV_G.dn == (k) && CCV_G.dv == ((n) < 20 ? CCV_E.q[n] : 0)) \
	INV((CCV_G.g & ~L_MASK((u) * (k))) == L_SHL(CCV_E.g, (u) * (k)))
#define CCV_LOOP_DecAppend(s, u, i, n) \
	ASG(i, L_DSTREAM(s)) \
	INV(i >= -1 && i < n) L_APPENDED(s, u, n - 1 - i, i + 1)
#define L_NN(i) ((long)(i) < 0 ? 0 : (long)(i))
/* E.n1 digits in all */
#define CCV_LOOP_DecChars(s, i) \
	ASG(i, L_DSTREAM(s)) \
	INV((long)i >= 0 && (long)i <= CCV_E.n1 && CCV_G.p == L_POS(s) && L_BSI_(s) && CCV_G.p == __CPROVER_loop_entry(CCV_G.p) + 8L * (long)i && CCV_G.dok && !CCV_G.dt && CCV_G.dr == (long)i && CCV_G.dn == (long)i && CCV_G.dv == CCV_E.q[CCV_E.n1 - (long)i]) \
	INV((CCV_G.g & ~L_MASK(8 * L_NN(i))) == L_SHL(__CPROVER_loop_entry(CCV_G.g), 8 * L_NN(i)))
#define L_FOLDED(s, u, k, v) \
	INV(L_CUR(s, (long)(u) * (k)) && L_BSI_(s) && CCV_G.dok && !CCV_G.dt && CCV_G.dr == (k) && CCV_G.dn == (k) && CCV_G.dv == v)
#define CCV_LOOP_DecFold(s, u, n, digit, v) \
	ASG(n, digit, v, L_DSTREAM(s)) \
	INV(n >= 0 && n <= CCV_E.n0) L_FOLDED(s, u, CCV_E.n0 - n, v)
#define CCV_LOOP_DecFoldNul(s, u, digit, v) \
	ASG(digit, v, L_DSTREAM(s)) \
	INV(CCV_G.dn >= 0 && CCV_G.dn <= 2L * (s)->count) L_FOLDED(s, u, CCV_G.dn, v)
/* number k of the n characters in the window */
#define L_WCH(n, k) ((unsigned char)((CCV_G.dh >> ((8 * ((int)(n) - 1 - (k))) & 127)) & 0xFF))
#define CCV_LOOP_DecWindow(s, v, digit, tmp, n) \
	ASG(digit, v, __CPROVER_object_whole(tmp), L_DSTREAM(s)) \
	INV(L_CUR(s, 8 * CCV_G.dr) && L_BSI_(s) && CCV_G.dok && !CCV_G.dt && CCV_G.dn >= 0 && CCV_G.dn <= (s)->count && CCV_G.dr == CCV_G.dn + (long)(n) && CCV_G.dv == v) \
	INV(__CPROVER_forall { int k_; (0 <= k_ && k_ < 10) ==> (k_ >= (int)(n) || (tmp)[k_] == L_WCH(n, k_)) })
#define CCV_LOOP_DecWindowShift(tmp, j, n) \
	ASG(j, __CPROVER_object_whole(tmp)) \
	INV(j >= 0 && j <= (int)(n) - 1) \
	INV(__CPROVER_forall { int k_; (0 <= k_ && k_ < 10) ==> (k_ >= (int)(n) || (tmp)[k_] == (k_ < j ? L_WCH(n, k_ + 1) : L_WCH(n, k_))) })
#else
#define CCV_LOOP_DecWindow(...)
#define CCV_LOOP_DecWindowShift(...)
#define CCV_LOOP_DecDigits(...)
#define CCV_LOOP_DecReverse(...)
#define CCV_LOOP_DecSize(...)
#define CCV_LOOP_DecAppend(...)
#define CCV_LOOP_DecChars(...)
#define CCV_LOOP_DecFold(...)
#define CCV_LOOP_DecFoldNul(...)
#endif

/* ---- unbounded contents: watched bit W / watched element A, see spec.h ---- */
#define L_IN(lo, n) (CCV_G.W >= (lo) && CCV_G.W < (lo) + (n))
#define L_ABIT(arr, k) ((_Bool)(((unsigned char)(arr)[(k) / 8] >> (7 - (k) % 8)) & 1))
#define L_MBIT(s) ((_Bool)(CCV_G.W < (s)->count * 8 && (((s)->buf[CCV_G.W / 8] >> (7 - CCV_G.W % 8)) & 1)))
#define L_RDMEM8(s, pos) ((unsigned char)((((unsigned)(s)->buf[(pos) / 8] << 8 | ((pos) / 8 + 1 < (s)->count ? (unsigned)(s)->buf[(pos) / 8 + 1] : 0u)) >> (8 - (pos) % 8)) & 0xFF))
#define L_MCUR(s, k) ((s)->currentByte >= 0 && (s)->currentByte <= (s)->count && (s)->currentBit >= 0 && (s)->currentBit <= 7 && L_POS(s) == CCV_E.pos + (k))
#define L_IX(arr) (__CPROVER_same_object(CCV_G.wp, (arr)) ? CCV_G.A - (long)((arr) - (__typeof__(arr))CCV_G.wp) : -1L)
#ifdef CCV_BIG
#define CCV_LOOP_AppendByteArray(s, arr, i, n) \
	ASG(i, (s)->currentByte, __CPROVER_object_whole((s)->buf)) \
	INV(i >= 1 && (i < n || i == 1) && L_MCUR(s, 8L * i)) \
	INV(L_MBIT(s) == (L_IN(CCV_E.pos, 8L * i) ? L_ABIT(arr, CCV_G.W - CCV_E.pos) : CCV_E.w))
#define CCV_LOOP_ReadByteArray(s, arr, wb, i, n) \
	ASG(i, (s)->currentByte, wb, __CPROVER_object_whole(arr)) \
	INV(i >= 0 && i <= n && wb == arr + i && L_MCUR(s, 8L * i)) \
	INV(!(CCV_G.A < i) || arr[CCV_G.A] == L_RDMEM8(s, CCV_E.pos + 8L * CCV_G.A)) \
	INV(CCV_G.A < i || CCV_G.A >= CCV_G.wn || arr[CCV_G.A] == (unsigned char)CCV_E.n1)
#else
#define CCV_LOOP_AppendByteArray(...)
#define CCV_LOOP_ReadByteArray(...)
#endif
#ifdef CCV_WAT
#define L_FLAG(b) ((b) == 0 || (b) == 1)
#define L_BSI(s) ((s)->currentByte >= 0 && (s)->currentByte <= (s)->count && (s)->currentBit >= 0 && (s)->currentBit <= 7 && L_POS(s) <= (s)->count * 8)
#define L_WSTREAM(s) L_STREAM(s), CCV_G.w
/* the bits appended since entry are those of the expected encoding (E.eb: its bit at W) */
#define L_EB(s) (CCV_G.w == (L_IN(CCV_E.pos, L_POS(s) - CCV_E.pos) ? CCV_E.eb : CCV_E.w))
/* headers before offset `off` at the start of a fragment; state at the start of a fragment of an encoder of n items */
#define L_FRHDRS(off) (((off) >> 16) + (((off) & 0xFFFF) ? 1 : 0))
#define L_FRSTART(n, rem, off) ((off) >= 0 && (off) <= (n) && (rem) == (n) - (off) && (((off) & 0xFFFF) == 0 || ((rem) < 0x4000 && (off) == ((n) & ~0x3FFFL))))
#define CCV_LOOP_EncOctFrag(s, arr, n, rem, blk, off, i, ret) \
	ASG(i, rem, blk, off, ret, L_WSTREAM(s)) \
	INV(ret == 1 && L_FRSTART(n, rem, off) && L_CUR(s, 8L * L_FRHDRS(off) + 8L * off)) \
	INV(L_EB(s))
#define CCV_LOOP_EncOctFragBlock(s, arr, blk, off, i, ret) \
	ASG(i, ret, L_WSTREAM(s)) \
	INV(ret == 1 && i >= off && i <= off + blk && L_CUR(s, 8L * (blk >= 0x4000 ? (off >> 16) + 1 : L_FRHDRS(off)) + (blk >= 0x4000 ? 0 : FR_HL(blk)) + 8L * i)) \
	INV(L_EB(s))
#define CCV_LOOP_EncBitFrag(s, arr, n, rem, blk, off) \
	ASG(rem, blk, off, L_WSTREAM(s)) \
	INV(L_FRSTART(n, rem, off) && L_CUR(s, 8L * L_FRHDRS(off) + off)) \
	INV(L_EB(s))
/* decoders: E.n0 maximum, E.n1 position of the watched element in the stream; E.hyp: the stream holds the encoding of hn items of hu bits */
#define L_RCONS() ((!CCV_E.hyp || L_HCONS()) && (CCV_G.p != CCV_G.W || CCV_G.rv == (unsigned long)(CCV_G.r >> (CCV_GB - 64))))      /* with E.rc0 */
#define L_HCONS() (ccv_frhdr(CCV_G.p - CCV_E.hp, CCV_E.hn, CCV_E.hu) < 0 || (ccv_gw)(ccv_frhdr(CCV_G.p - CCV_E.hp, CCV_E.hn, CCV_E.hu) & 0xFFFF) == CCV_G.r >> (CCV_GB - (ccv_frhdr(CCV_G.p - CCV_E.hp, CCV_E.hn, CCV_E.hu) >> 16)))
#define L_FRFAIL(s) (!CCV_E.hyp || CCV_E.hb || CCV_E.hn > CCV_E.n0 || CCV_E.pos + FR_N(CCV_E.hn, CCV_E.hu) > (s)->count * 8)
#define L_FRHDR1(off) ((off) < (FR_Q(CCV_E.hn) << 16) ? 0xC4 : (off) == (FR_Q(CCV_E.hn) << 16) && FR_K(CCV_E.hn) ? 0xC0 | FR_K(CCV_E.hn) : CCV_E.hb ? CCV_E.hb : FR_M(CCV_E.hn) <= 127 ? FR_M(CCV_E.hn) : 0x80 | FR_M(CCV_E.hn) >> 8)
#define L_FRITEM(arr, done) (!CCV_E.hyp || CCV_G.A >= (done) || CCV_G.W != CCV_E.n1 || (arr)[CCV_G.A] == (unsigned char)(CCV_G.rv >> 56))
#define L_DECFRAG(s, arr, rem, off, len, ret) \
	INV(!ret || !CCV_E.hyp || off != CCV_E.hn - FR_M(CCV_E.hn) || FR_M(CCV_E.hn) <= 127 || CCV_G.r >> (CCV_GB - 8) == (FR_M(CCV_E.hn) & 0xFF)) \
	INV(CCV_G.p == L_POS(s) && L_RCONS() && L_FLAG(ret) && (ret || L_FRFAIL(s))) \
	INV(!ret || (L_BSI(s) && rem >= 0 && rem <= 0xFF && off >= 0 && off <= CCV_E.n0 && len == off && (off & 0x3FFF) == 0 && L_POS(s) >= CCV_E.pos + CCV_E.hu * off)) \
	INV(!ret || !CCV_E.hyp || ((((off & 0xFFFF) == 0 && off <= (FR_Q(CCV_E.hn) << 16)) || off == CCV_E.hn - FR_M(CCV_E.hn)) && L_POS(s) == CCV_E.pos + 8 * (L_FRHDRS(off) + 1) + CCV_E.hu * off && rem == L_FRHDR1(off)))
#define CCV_LOOP_DecOctFrag(s, arr, max, rem, blk, off, len, i, ret) \
	ASG(i, rem, blk, off, len, ret, L_STREAM(s), __CPROVER_object_whole(arr)) \
	L_DECFRAG(s, arr, rem, off, len, ret) \
	INV(!ret || L_FRITEM(arr, off))
#define CCV_LOOP_DecOctFragBlock(s, arr, blk, off, i, ret) \
	ASG(i, ret, L_STREAM(s), __CPROVER_object_whole(arr)) \
	INV(CCV_G.p == L_POS(s) && L_RCONS() && L_FLAG(ret) && (ret || L_FRFAIL(s))) \
	INV(!ret || (i >= off && i <= off + blk && L_BSI(s) && L_POS(s) >= CCV_E.pos + 8L * i)) \
	INV(!ret || !CCV_E.hyp || L_POS(s) == CCV_E.pos + ccv_frh(off, CCV_E.hn) + 8L * i) \
	INV(!ret || L_FRITEM(arr, i))
#define CCV_LOOP_DecBitFrag(s, arr, max, rem, blk, off, len, ret) \
	ASG(rem, blk, off, len, ret, L_STREAM(s), __CPROVER_object_whole(arr)) \
	L_DECFRAG(s, arr, rem, off, len, ret) \
	INV(!ret || L_FRITEM(arr, off / 8))
/* strings */
#define L_KEEP(s, k, bit) (CCV_G.w == (L_IN(CCV_E.pos, k) ? (bit) : CCV_E.w))
#define CCV_LOOP_EncStrAscii(s, str, i, max) \
	ASG(i, L_WSTREAM(s)) \
	INV(i >= 0 && i <= max && L_CUR(s, 8L * i) && L_KEEP(s, 8L * i, L_ABIT(str, CCV_G.W - CCV_E.pos)))
#define CCV_LOOP_EncStrAsciiNul(s, str, i, max) \
	ASG(i, L_WSTREAM(s)) \
	INV(i >= 0 && i <= max && i <= CCV_G.Z && L_CUR(s, 8L * i) && L_KEEP(s, 8L * i, L_ABIT(str, CCV_G.W - CCV_E.pos)))
#define L_Z(max) (CCV_G.Z < (max) ? CCV_G.Z : (max))
#define CCV_LOOP_EncStrTerm(s, str, term, i, n) \
	ASG(i, L_WSTREAM(s)) \
	INV(i <= n && CCV_G.p == L_POS(s) && L_BSI(s) && L_POS(s) == __CPROVER_loop_entry(CCV_G.p) + 8L * (long)i) \
	INV(CCV_G.w == (L_IN(__CPROVER_loop_entry(CCV_G.p), 8L * (long)i) ? L_ABIT(term, CCV_G.W - __CPROVER_loop_entry(CCV_G.p)) : __CPROVER_loop_entry(CCV_G.w)))
#define L_NB(size) ((size) <= 1 ? 0 : (size) <= 2 ? 1 : (size) <= 4 ? 2 : (size) <= 8 ? 3 : (size) <= 16 ? 4 : (size) <= 32 ? 5 : (size) <= 64 ? 6 : (size) <= 128 ? 7 : 8)
#define L_CIX(k, nb) (CCV_G.X >= 0 && CCV_G.X < (k) && FR_IN(CCV_G.W - CCV_E.pos, CCV_G.X * (nb), (nb)))
#define L_CIBIT(nb, idx) ((_Bool)(((idx) >> (((nb) - 1 - (CCV_G.W - CCV_E.pos - CCV_G.X * (nb))) & 15)) & 1))
/* E.n0: index of character X */
#define L_STRIDX(s, str, set, size, i, k) \
	INV(L_CUR(s, (long)L_NB(size) * i) && (L_IN(CCV_E.pos, (long)L_NB(size) * i) ? !L_CIX(i, L_NB(size)) || CCV_G.X >= (k) || (CCV_G.w == L_CIBIT(L_NB(size), CCV_E.n0) && L_CHOK(set, size, (str)[CCV_G.X])) : CCV_G.w == CCV_E.w))
#define L_CHOK(set, n, ch) (CCV_E.n0 >= 0 && CCV_E.n0 < (n) && ((set)[CCV_E.n0] == (ch) || (CCV_E.n0 == 0 && (CCV_G.A < 0 || CCV_G.A >= (n) || (set)[CCV_G.A] != (ch)))))
#define CCV_LOOP_EncStrIndex(s, str, set, size, i, max) \
	ASG(i, L_WSTREAM(s)) \
	INV(i >= 0 && i <= max) L_STRIDX(s, str, set, size, i, max)
#define CCV_LOOP_EncStrIndexNul(s, str, set, size, i, max) \
	ASG(i, L_WSTREAM(s)) \
	INV(i >= 0 && i <= max && i <= CCV_G.Z) L_STRIDX(s, str, set, size, i, L_Z(max))
#define L_RC0() (CCV_G.p != CCV_G.W || CCV_G.rv == (unsigned long)(CCV_G.r >> (CCV_GB - 64)))
#define CCV_LOOP_DecStrAscii(s, str, ch, i, n) \
	ASG(i, ch, L_STREAM(s), __CPROVER_object_whole(str)) \
	INV(i >= 0 && (i <= n || i == 0) && L_CUR(s, 8L * i) && L_BSI(s) && L_RC0() && L_READ(8L * i)) \
	INV(CCV_G.A >= i || CCV_G.W != CCV_E.pos + 8 * CCV_G.A || (unsigned char)(str)[CCV_G.A] == (unsigned char)(CCV_G.rv >> 56)) \
	INV(CCV_G.A < i || CCV_G.A >= CCV_G.wn || (str)[CCV_G.A] == 0)
#define CCV_LOOP_DecStrNul(s, str, nul, ch, i, max) \
	ASG(i, ch, L_STREAM(s), __CPROVER_object_whole(str)) \
	INV(i >= 0 && i <= max + 1 && i <= CCV_E.hn && L_CUR(s, 8L * i) && L_BSI(s) && L_RC0() && L_HCONS1()) \
	INV(CCV_G.A >= i || CCV_G.W != CCV_E.pos + 8 * CCV_G.A || (unsigned char)(str)[CCV_G.A] == (unsigned char)(CCV_G.rv >> 56)) \
	INV(CCV_G.A < i || CCV_G.A >= CCV_G.wn || (str)[CCV_G.A] == 0)
#define CCV_LOOP_DecStrIndex(s, str, set, size, i, n) \
	ASG(i, L_STREAM(s), __CPROVER_object_whole(str)) \
	INV(i >= 0 && (i <= n || i == 0) && L_CUR(s, (long)L_NB(size) * i) && L_BSI(s) && L_RC0() && (!CCV_E.hyp || L_HCONS2())) \
	INV(CCV_G.A >= i || CCV_G.W != CCV_E.pos + L_NB(size) * CCV_G.A || (L_RVX(size) < (size) && (unsigned char)(str)[CCV_G.A] == (set)[L_RVX(size)])) \
	INV(CCV_G.A < i || CCV_G.A >= CCV_G.wn || (str)[CCV_G.A] == 0)
#define L_RVX(size) ((size) > 1 ? (int)(CCV_G.rv >> (64 - L_NB(size))) : 0)
#define CCV_LOOP_CharIndex(ch, set, n, i) \
	ASG(i) \
	INV(i >= 0 && i <= n && ((set)[CCV_E.n0] != ch || i <= CCV_E.n0))
#else
#define CCV_LOOP_EncStrAscii(...)
#define CCV_LOOP_EncStrAsciiNul(...)
#define CCV_LOOP_EncStrTerm(...)
#define CCV_LOOP_EncStrIndex(...)
#define CCV_LOOP_EncStrIndexNul(...)
#define CCV_LOOP_DecStrAscii(...)
#define CCV_LOOP_DecStrNul(...)
#define CCV_LOOP_DecStrIndex(...)
#define CCV_LOOP_CharIndex(...)
#define CCV_LOOP_EncOctFrag(...)
#define CCV_LOOP_EncOctFragBlock(...)
#define CCV_LOOP_DecOctFrag(...)
#define CCV_LOOP_DecOctFragBlock(...)
#define CCV_LOOP_EncBitFrag(...)
#define CCV_LOOP_DecBitFrag(...)
#endif
#define CCV_LOOP_CheckBitPattern(...)
#define CCV_LOOP_ReadBitsNullterminated(...)

/* ---- REAL: ret = mantissa * 2^(steps made); hp mantissa, n0 exponent, hn bits of the mantissa ---- */
#define L_DBITS(ret) (*(const unsigned long long *)&(ret))
#define L_RM ((unsigned long long)CCV_E.hp)
#define L_RNORM(t) (((unsigned long long)((t) + 1023) << 52) | ((L_RM << (53 - CCV_E.hn)) & 0xFFFFFFFFFFFFFULL))
#define CCV_LOOP_RealUp(e, ret) \
	ASG(e, ret) \
	INV(CCV_E.n0 >= 0 ? e >= 0 && e <= CCV_E.n0 : e == CCV_E.n0) \
	INV((L_RM >> 53) != 0 || (L_RM == 0 ? L_DBITS(ret) == 0 && e == CCV_E.n0 : \
		L_DBITS(ret) == (CCV_E.n0 - e + CCV_E.hn - 1 > 1023 ? 0x7FF0000000000000ULL : L_RNORM(CCV_E.n0 - e + CCV_E.hn - 1))))
/* k halvings: the value is exact unless they shift ones out of the subnormal range */
#define L_RLOSSY(k) ((k) > 1074 && ((k) > 1074 + 52 || (L_RM & ((1ULL << ((k) - 1074)) - 1)) != 0))
#define L_RSUB(k) ((k) > 1074 ? L_RM >> ((k) - 1074) : L_RM << (1074 - (k)))
#define CCV_LOOP_RealDown(e, ret) \
	ASG(e, ret) \
	INV(CCV_E.n0 >= 0 ? e == __CPROVER_loop_entry(e) && L_DBITS(ret) == __CPROVER_loop_entry(L_DBITS(ret)) : e <= 0 && e >= CCV_E.n0) \
	INV(CCV_E.n0 >= 0 || (L_RM >> 53) != 0 || (L_RM == 0 ? L_DBITS(ret) == 0 && e == CCV_E.n0 : L_RLOSSY(e - CCV_E.n0) || \
		L_DBITS(ret) == (CCV_E.hn - 1 - (e - CCV_E.n0) >= -1022 ? L_RNORM(CCV_E.hn - 1 - (e - CCV_E.n0)) : L_RSUB(e - CCV_E.n0))))
/* i of n mantissa octets read; N their value (early exit when it would not fit) */
#define CCV_LOOP_RealMantissa(s, i, n, N) \
	ASG(i, N, L_STREAM(s)) \
	INV(i >= 0 && i <= n && L_BSI_(s) && L_CUR(s, __CPROVER_loop_entry(CCV_G.p) - CCV_E.pos + 8 * i)) \
	INV(CCV_G.g == L_SHL(__CPROVER_loop_entry(CCV_G.g), 8 * i)) \
	INV(i > 16 || (CCV_G.r & ~L_MASK(8 * i)) == L_SHL(__CPROVER_loop_entry(CCV_G.r), 8 * i)) \
	INV(i > 16 || (ccv_gw)N == (i == 0 ? 0 : __CPROVER_loop_entry(CCV_G.r) >> ((CCV_GB - 8 * i) & (CCV_GB - 1))))
