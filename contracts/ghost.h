/* ghost state shared by the specifications and the loop contracts */
#ifndef CCV_GHOST_H
#define CCV_GHOST_H
#include "frag.h"
typedef unsigned __int128 ccv_u128;
#if defined WORD_SIZE && WORD_SIZE == 4
typedef unsigned int CCV_UI;
#else
typedef unsigned long CCV_UI;
#endif
/* width of the ghost bit sequences: 128 bits, 384 at level wid */
#ifdef CCV_WID
typedef unsigned __CPROVER_bitvector[384] ccv_gw;
#define CCV_GB 384
#else
typedef unsigned __int128 ccv_gw;
#define CCV_GB 128
#endif
/* abstract contents of the stream under proof: g = most recent 128 bits appended, r = next 128 bits to be read */
/* p = bit position both belong to (the cursor, which only functions under contract may move);
 * patch = bits written before are overwritten: the bits at the cursor may be anything */
/* W, w, rv: the watched bit (see spec.h); wp, wn, A: the watched element wp[A] of an array of wn elements */
struct CCV_Gt { ccv_gw g, r; long p; _Bool patch; const void *of; long W; _Bool w; unsigned long rv; const void *wp; long wn, A, X, F, Z; const void *zp;
#ifdef CCV_DEC
  /* decimal fold: dn digits of du bits each from position dp on, their value dv; dok: no overflow so far; dt: ended by something that is no digit;
   * dr: units seen; the fold runs dl units behind them, dh: the last ones seen */
  long dp, dn, dr, dl; int du; CCV_UI dv; _Bool dok, dt; ccv_u128 dh;
#endif
};
/* state at the entry of the function under proof */
struct CCV_Et { long pos, cb, count; int bit; ccv_gw g, r; long n0, n1, n2; _Bool w, eb, hyp, fs, norc, rc0; long hp, hn; int hu, hb, hk;
#ifdef CCV_DEC
  /* the decimal digits of dval, least significant first, and its quotients by the powers of 10 */
  CCV_UI dval, q[21]; unsigned char d[32];
#endif
};
extern struct CCV_Gt CCV_G;
extern struct CCV_Et CCV_E;
/* hypotheses on the stream being read, at the tracked position (see spec.h) */
#define L_HD (CCV_G.p - CCV_E.hp)
#define L_HCONS1() (L_HD < 0 || (L_HD & 7) || (L_HD >> 3) > CCV_E.hn || ((int)(CCV_G.r >> (CCV_GB - 8)) == CCV_E.hu) == ((L_HD >> 3) == CCV_E.hn))
#define L_HMOD(d, k) ((k) == 3 ? (d) % 3 : (k) == 5 ? (d) % 5 : (k) == 6 ? (d) % 6 : (k) == 7 ? (d) % 7 : (d) & ((k) - 1))
#define L_HCONS2() (CCV_E.hu == 0 || L_HD < 0 || L_HMOD((unsigned)L_HD, CCV_E.hu) != 0 || (long)(CCV_G.r >> (CCV_GB - CCV_E.hu)) < CCV_E.hn)
#endif
