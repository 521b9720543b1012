/* X.691 11.9: layout of a length of n items, u bits each, that is not below 64K: q = n/64K fragments of 64K items
 * (header C4), one of k*16K items (header C0+k) if k = (n%64K)/16K > 0, then the last one (length in 8 bits up to 127,
 * in 16 bits otherwise) of the remaining m = n%16K items */
#ifndef CCV_FRAG_H
#define CCV_FRAG_H
#define FR_Q(n) ((long)(n) >> 16)
#define FR_K(n) (((long)(n) >> 14) & 3)
#define FR_M(n) ((long)(n) & 0x3FFF)
/* bits of a full fragment: 64K items and a header octet; Q of them.  u is 8 or 1, n below 2^28: then q full fragments end
 * at q<<FR_SH with the low bits 8q, which gives quotient and remainder by a full fragment without a division */
#define FR_SH(u) ((u) == 8 ? 19 : 16)
#define FR_BL(u) ((1L << FR_SH(u)) + 8)
#define FR_QBL(n, u) ((FR_Q(n) << FR_SH(u)) + (FR_Q(n) << 3))
#define FR_LOW(t, u) ((t) & ((1L << FR_SH(u)) - 1))
#define FR_DIV(t, u) (((t) >> FR_SH(u)) - (FR_LOW(t, u) < 8 * ((t) >> FR_SH(u)) ? 1 : 0))
#define FR_KBL(n, u) (8 + ((FR_K(n) << 14) * (u)))
#define FR_HL(n) (FR_M(n) <= 127 ? 8 : 16)
#define FR_HV(n) (FR_M(n) <= 127 ? FR_M(n) : 0x8000 | FR_M(n))
/* bits of the fragments before the last one */
#define FR_FULL(n, u) (FR_QBL(n, u) + (FR_K(n) ? FR_KBL(n, u) : 0))
#define FR_N(n, u) (FR_FULL(n, u) + FR_HL(n) + FR_M(n) * (u))
/* header bits before item i */
#define ccv_frh(i, n) (((i) >> 16) < FR_Q(n) ? (((i) >> 16) + 1) * 8 : (i) < ((FR_Q(n) << 16) + (FR_K(n) << 14)) ? (FR_Q(n) + 1) * 8 : FR_Q(n) * 8 + (FR_K(n) ? 8 : 0) + FR_HL(n))
/* the items and headers of the encoding, one at a time: bit t of it is b if t lies in item X (F = -1), or in
 * the header of full fragment F, or in one of the other headers (F = Q, Q+1) (every t lies in one of these for some X and F) */
#define FR_ITEM(X, n, u) (ccv_frh(X, n) + (X) * (u))
#define FR_IN(t, lo, k) ((t) >= (lo) && (t) < (lo) + (k))
#define FR_INX(n, u, t) (CCV_G.F == -1 && CCV_G.X >= 0 && CCV_G.X < (n) && FR_IN(t, FR_ITEM(CCV_G.X, n, u), u))
#define FR_INF(n, u, t) (CCV_G.F >= 0 && CCV_G.F < FR_Q(n) && FR_IN(t, (CCV_G.F << FR_SH(u)) + 8 * CCV_G.F, 8))
#define FR_INK(n, u, t) (CCV_G.F == FR_Q(n) && FR_K(n) && FR_IN(t, FR_QBL(n, u), 8))
#define FR_INL(n, u, t) (CCV_G.F == FR_Q(n) + 1 && FR_IN(t, FR_FULL(n, u), FR_HL(n)))
#define FR_WIT(n, u, t) (FR_INX(n, u, t) || FR_INF(n, u, t) || FR_INK(n, u, t) || FR_INL(n, u, t))
#define FR_XBIT(arr, n, u, t) ((u) == 1 ? ((arr)[CCV_G.X / 8] >> (7 - CCV_G.X % 8)) & 1 : ((arr)[CCV_G.X] >> (7 - ((t) - FR_ITEM(CCV_G.X, n, u)))) & 1)
#define FR_FBIT(u, t) ((0xC4 >> (7 - ((t) - (CCV_G.F << FR_SH(u)) - 8 * CCV_G.F))) & 1)
#define FR_KBIT(n, u, t) (((0xC0 | FR_K(n)) >> (7 - ((t) - FR_QBL(n, u)))) & 1)
#define FR_LBIT(n, u, t) ((FR_HV(n) >> (FR_HL(n) - 1 - ((t) - FR_FULL(n, u)))) & 1)
#define FR_CLAIM(arr, n, u, t, b) ((!FR_INX(n, u, t) || (b) == FR_XBIT(arr, n, u, t)) && (!FR_INF(n, u, t) || (b) == FR_FBIT(u, t)) && (!FR_INK(n, u, t) || (b) == FR_KBIT(n, u, t)) && (!FR_INL(n, u, t) || (b) == FR_LBIT(n, u, t)))
#define FR_WBIT(arr, n, u, t) (FR_INX(n, u, t) ? FR_XBIT(arr, n, u, t) : FR_INF(n, u, t) ? FR_FBIT(u, t) : FR_INK(n, u, t) ? FR_KBIT(n, u, t) : FR_INL(n, u, t) ? FR_LBIT(n, u, t) : 0)
/* bit t of the encoding of the n items in arr */
static inline _Bool ccv_frb(const unsigned char *arr, long n, int u, long t)
{
	long i, b, o;
	if (t < FR_QBL(n, u)) { b = FR_DIV(t, u); o = t - (b << FR_SH(u)) - 8 * b; if (o < 8) return (0xC4 >> (7 - o)) & 1; i = (b << FR_SH(u)) + o - 8; }
	else {
		t -= FR_QBL(n, u);
		if (FR_K(n) && t < FR_KBL(n, u)) { if (t < 8) return ((0xC0 | FR_K(n)) >> (7 - t)) & 1; i = (FR_Q(n) << FR_SH(u)) + t - 8; }
		else { if (FR_K(n)) t -= FR_KBL(n, u); if (t < FR_HL(n)) return (FR_HV(n) >> (FR_HL(n) - 1 - t)) & 1; i = (FR_Q(n) << FR_SH(u)) + (FR_K(n) << 14) * u + t - FR_HL(n); }
	}
	return (arr[i / 8] >> (7 - i % 8)) & 1;
}
/* header expected at offset d of the encoding: its value, and its width in bits in the upper half; -1: none starts there */
#define ccv_frhdr(d, n, u) ((d) >= 0 && (d) < FR_QBL(n, u) ? (FR_LOW(d, u) == 8 * ((d) >> FR_SH(u)) ? 0x80000L | 0xC4 : -1L) : \
	FR_K(n) && (d) == FR_QBL(n, u) ? 0x80000L | 0xC0 | FR_K(n) : (d) == FR_FULL(n, u) ? (CCV_E.hb ? 0x80000L | CCV_E.hb : (long)FR_HL(n) << 16 | FR_HV(n)) : -1L)
/* with E.hb (n a multiple of 16K): the last header is not a length but the invalid fragment header hb */
#define FR_BADHB(hb) ((hb) == 0xC0 || ((hb) >= 0xC5 && (hb) <= 0xFF))
#endif
