/*
Stand-ins for C library functions that AddressSanitizer does not intercept: the same calls, but what they read and
write goes through instrumented copies, so that a buffer which is too small is seen.
*/
#include <stddef.h>
#include <string.h>
#include <uchar.h>
#include <wchar.h>

size_t __real_c32rtomb(char *s, char32_t c, mbstate_t *ps);
size_t __wrap_c32rtomb(char *s, char32_t c, mbstate_t *ps) {
	char tmp[16];
	if (!s) return __real_c32rtomb(s, c, ps);
	size_t n = __real_c32rtomb(tmp, c, ps);
	if (n <= sizeof tmp) for (size_t i = 0; i < n; i++) ((volatile char *)s)[i] = tmp[i];
	return n;
}

size_t __real_mbrtoc32(char32_t *out, const char *s, size_t n, mbstate_t *ps);
size_t __wrap_mbrtoc32(char32_t *out, const char *s, size_t n, mbstate_t *ps) {
	char32_t c = 0;
	size_t r = __real_mbrtoc32(out ? &c : NULL, s, n, ps);
	volatile char sink;
	if (s && r <= n) for (size_t i = 0; i < (r ? r : 1); i++) sink = s[i];
	(void)sink;
	if (out && r <= n) *(volatile char32_t *)out = c;
	return r;
}
