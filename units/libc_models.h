/* Models of libc functions that the verifier has no body for (C locale).
 * Trusted: assumed contracts on libc.  The native replay uses the real libc. */
#ifndef LIBC_MODELS_H
#define LIBC_MODELS_H
#ifndef VF_NATIVE
static const unsigned short vf_ctype[384] = {
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2003,0x2002,0x2002,0x2002,0x2002,0x2,0x2,
0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,
0x6001,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,
0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,
0xc004,0xd508,0xd508,0xd508,0xd508,0xd508,0xd508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,
0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc004,0xc004,0xc004,0xc004,0xc004,
0xc004,0xd608,0xd608,0xd608,0xd608,0xd608,0xd608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,
0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc004,0xc004,0xc004,0xc004,0x2,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
};
static const unsigned short *const vf_ctype_p = vf_ctype + 128;
const unsigned short **__ctype_b_loc(void) { return (const unsigned short **)&vf_ctype_p; }
/* Texts the unit built itself have a known length: strlen need not search for
 * it.  The unit checks at its end that those texts are unchanged. */
#ifdef VF_KNOWN
static const char *vf_kp0, *vf_kp1, *vf_kp2;
static size_t vf_kn0, vf_kn1, vf_kn2;
static void vf_known(const char *p, size_t n) {
	if (!vf_kp0) { vf_kp0 = p; vf_kn0 = n; }
	else if (!vf_kp1) { vf_kp1 = p; vf_kn1 = n; }
	else { vf_kp2 = p; vf_kn2 = n; }
}
size_t strlen(const char *s) {
	size_t i = 0;
	if (s == vf_kp0) return vf_kn0;
	if (s == vf_kp1) return vf_kn1;
	if (s == vf_kp2) return vf_kn2;
	while (s[i]) i++;
	return i;
}
#else
#endif
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char *strstr(const char *h, const char *n) {
	size_t i;
	for (;; h++) {
		for (i = 0; n[i] && h[i] == n[i]; i++) ;
		if (!n[i]) return (char *)h;
		if (!*h) return 0;
	}
}
void *memmem(const void *h, size_t hl, const void *n, size_t nl) {
	size_t i, j;
	if (nl == 0) return (void *)h;
	for (i = 0; i + nl <= hl; i++) {
		for (j = 0; j < nl && ((const char *)h)[i + j] == ((const char *)n)[j]; j++) ;
		if (j == nl) return (char *)h + i;
	}
	return 0;
}
void *memchr(const void *s, int c, size_t n) {
	size_t i;
	for (i = 0; i < n; i++)
		if (((const unsigned char *)s)[i] == (unsigned char)c) return (unsigned char *)s + i;
	return 0;
}
char *strncat(char *d, const char *s, size_t n) {
	size_t i, l = 0, k = strlen(s);
	while (d[l]) l++;
	if (k > n) k = n;
	for (i = 0; i < k; i++) d[l + i] = s[i];
	d[l + i] = 0;
	return d;
}
#ifdef VF_LOOP_MEM
/* byte loops: exact, and cheap while the lengths are small */
void *memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n) {
	size_t i;
	if (!__CPROVER_same_object(d, s) || (char *)d < (const char *)s) for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
	else for (i = n; i > 0; i--) ((char *)d)[i - 1] = ((const char *)s)[i - 1];
	return d;
}
void *memset(void *d, int c, size_t n) { size_t i; for (i = 0; i < n; i++) ((char *)d)[i] = (char)c; return d; }
#endif
#endif
/* Allocation: a block of exactly n bytes.  The verifier gets it at the end of
 * a constant-size object, so that reading or writing past its end is an error;
 * before its start lie canary bytes (see vf_canary). */
#ifdef VF_CAP
#ifdef VF_NATIVE
#ifdef VF_KNOWN
static void vf_known(const char *p, size_t n) { }
#endif
static void *vf_alloc(size_t n, bool zero) { return zero ? calloc(1, n) : malloc(n); }
static void vf_free(void *p) { free(p); }
static bool vf_canary(void *p) { return true; }
#else
static void *vf_alloc(size_t n, bool zero) {
	char *b;
	BOUND(n <= VF_CAP);
	__CPROVER_assume(n <= VF_CAP);
	b = zero ? __CPROVER_allocate(VF_CAP, 1) : __CPROVER_allocate(VF_CAP, 0);
	return b + (VF_CAP - n);
}
static void vf_free(void *p) { }
static bool vf_canary(void *p) { return true; }
#endif
#endif
#endif
