/*
Observer: external functions that generated programs call. Each call appends one line to fd 1.
No stdio, so that it does not depend on how the program starts up.
*/
#include <stdint.h>
#include <stddef.h>
#include <unistd.h>

static char buf[1 << 16];
static size_t len;
static long calls;

__attribute__((constructor(101))) static void obs_noop(void) {}

static void flush(void) {
	size_t at = 0;
	while (at < len) {
		ssize_t w = write(1, buf + at, len - at);
		if (w <= 0) break;
		at += (size_t)w;
	}
	len = 0;
}

static void put(const char *s, size_t n) {
	while (n--) {
		if (len == sizeof buf) flush();
		buf[len++] = *s++;
	}
}

static void put_hex(uint64_t v) {
	char tmp[17];
	int n = 16;
	do {
		tmp[--n] = "0123456789abcdef"[v & 15];
		v >>= 4;
	} while (v);
	put(tmp + n, (size_t)(16 - n));
}

static void line(char tag, uint64_t v) {
	put(&tag, 1);
	put(" ", 1);
	put_hex(v);
	put("\n", 1);
	flush();
	if (++calls > 20000) _exit(199);
}

void obs_int(int64_t v) { line('i', (uint64_t)v); }
void obs_float(double v) {
	union { double d; uint64_t u; } c = { .d = v };
	if (v != v) c.u = 0x7ff8000000000000u;
	line('f', c.u);
}
/* the documented type of a Bool is one byte; only the low bit is defined by the ABI attributes skull uses */
void obs_bool(int v) { line('b', (uint64_t)(v & 1)); }
void obs_rune(uint32_t v) { line('r', v); }
void obs_str(const char *s) {
	put("s ", 2);
	for (; *s; s++) { put_hex((unsigned char)*s); put(".", 1); }
	put("\n", 1);
	flush();
	if (++calls > 20000) _exit(199);
}
/* identity functions: the value is opaque to the compiler, and the call is observable */
int64_t id_int(int64_t v) { line('I', (uint64_t)v); return v; }
double id_float(double v) { union { double d; uint64_t u; } c = { .d = v }; if (v != v) c.u = 0x7ff8000000000000u; line('F', c.u); return v; }
_Bool id_bool(int v) { line('B', (uint64_t)(v & 1)); return v & 1; }
uint32_t id_rune(uint32_t v) { line('R', v); return v; }
const char *id_str(const char *s) {
	const char *at = s;
	put("S ", 2);
	for (; *at; at++) { put_hex((unsigned char)*at); put(".", 1); }
	put("\n", 1);
	flush();
	if (++calls > 20000) _exit(199);
	return s;
}
/* silent identities */
int64_t op_int(int64_t v) { return v; }
double op_float(double v) { return v; }
_Bool op_bool(int v) { return v & 1; }
uint32_t op_rune(uint32_t v) { return v; }
const char *op_str(const char *s) { return s; }
/* writes through a reference */
int64_t *ref_int(int64_t *r) { return r; }
double *ref_float(double *r) { return r; }
unsigned char *ref_bool(unsigned char *r) { return r; }
uint32_t *ref_rune(uint32_t *r) { return r; }
const char **ref_str(const char **r) { return r; }

void poke_int(int64_t *r, int64_t v) { *r = v; }
void poke_float(double *r, double v) { *r = v; }
void poke_bool(unsigned char *r, int v) { *r = v & 1; }
void poke_rune(uint32_t *r, uint32_t v) { *r = v; }
void poke_str(const char **r, const char *v) { *r = v; }
