/* Models of external functions the runtime depends on (only what CBMC's own library lacks). */
#ifdef CCV_WAT
size_t strlen(const char *s) { __CPROVER_assert(s == CCV_G.zp, "strlen is applied to the zero-terminated string"); return (size_t)CCV_G.Z; }
#endif
#ifdef CCV_DEC
/* without a loop: at most 10 octets */
int memcmp(const void *a, const void *b, size_t n)
{
	const unsigned char *x = a, *y = b; int r;
	__CPROVER_assert(n <= 10, "memcmp of at most 10 octets"); __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp of readable memory");
#define ccv_c1(i) ((i) >= n || x[i] == y[i])
	__CPROVER_assume((r == 0) == (ccv_c1(0) && ccv_c1(1) && ccv_c1(2) && ccv_c1(3) && ccv_c1(4) && ccv_c1(5) && ccv_c1(6) && ccv_c1(7) && ccv_c1(8) && ccv_c1(9)));
	return r;
}
#endif
