#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>

int vp_live;
unsigned vp_oom_mask;
unsigned vp_alloc_n;

#ifdef VP_NATIVE
static vp_u64 vec[1 << 20];
static size_t vec_n, vec_i;
static vp_u64 nd_next(void) { return vec_i < vec_n ? vec[vec_i++] : 0; }
void vp_fail(const char *msg, const char *file, int line) {
	fprintf(stderr, "VP-ASSERT-FAILED: %s (%s:%d)\n", msg, file, line);
	fflush(NULL);
	_exit(99);
}
void vp_infeasible(void) { fprintf(stderr, "VP-INFEASIBLE\n"); fflush(NULL); _exit(77); }
void vp_reach(const char *name) { fprintf(stderr, "VP-REACHED %s\n", name); }
#else
vp_u64 vp_nd_log;               /* every symbolic input is assigned here, in order */
vp_u64 nondet_ulonglong(void);
#define nd_next() nondet_ulonglong()
#endif

#ifdef VP_NATIVE
#define ND(T) { return (T)nd_next(); }
#else
uint8_t nondet_u8_(void); uint16_t nondet_u16_(void); uint32_t nondet_u32_(void);
int nondet_int_(void); _Bool nondet_bool_(void);
#endif
#ifdef VP_NATIVE
uint8_t nd_u8(void) ND(uint8_t)
uint16_t nd_u16(void) ND(uint16_t)
uint32_t nd_u32(void) ND(uint32_t)
vp_u64 nd_u64(void) ND(vp_u64)
int nd_int(void) ND(int)
bool nd_bool(void) { return nd_next() != 0; }
#elif defined(VP_NARROW)
/* the inputs fixed to a pattern (see Run.narrowed in vp/run.py) */
static unsigned nd_n;
static vp_u64 nd_pat(void) {
	unsigned k = nd_n++;
#if VP_NARROW == 1
	return 0x41 + k % 7;
#elif VP_NARROW == 2
	return k * 0x9E3779B1u >> 7;
#elif VP_NARROW == 3
	return k * 0x85EBCA6Bu >> 11;
#else
	return 0xC1 + k % 3;
#endif
}
uint8_t nd_u8(void) { uint8_t v = nd_pat(); vp_nd_log = v; return v; }
uint16_t nd_u16(void) { uint16_t v = nd_pat(); vp_nd_log = v; return v; }
uint32_t nd_u32(void) { uint32_t v = nd_pat(); vp_nd_log = v; return v; }
vp_u64 nd_u64(void) { vp_u64 v = nd_pat(); vp_nd_log = v; return v; }
int nd_int(void) { int v = nd_pat(); vp_nd_log = (vp_u64)(long long)v; return v; }
bool nd_bool(void) { bool v = nd_pat() & 1; vp_nd_log = v; return v; }
#else
uint8_t nd_u8(void) { uint8_t v = nondet_u8_(); vp_nd_log = v; return v; }
uint16_t nd_u16(void) { uint16_t v = nondet_u16_(); vp_nd_log = v; return v; }
uint32_t nd_u32(void) { uint32_t v = nondet_u32_(); vp_nd_log = v; return v; }
vp_u64 nd_u64(void) { vp_u64 v = nondet_ulonglong(); vp_nd_log = v; return v; }
int nd_int(void) { int v = nondet_int_(); vp_nd_log = (vp_u64)(long long)v; return v; }
bool nd_bool(void) { bool v = nondet_bool_(); vp_nd_log = v; return v; }
#endif
unsigned nd_range(unsigned lo, unsigned hi) {
	unsigned v;
	if (lo == hi) return lo;
#ifdef VP_NARROW
	v = lo + nd_pat() % ((vp_u64)hi - lo + 1);
	vp_nd_log = v;
	return v;
#endif
	v = nd_u32();
	vp_assume(v >= lo && v <= hi);
	return v;
}
void nd_bytes(uint8_t *p, unsigned n) {
	for (unsigned i = 0; i < n; i++) p[i] = nd_u8();
}

/* byte loops: CBMC's array-copy model does not scale with symbolic lengths */
void *vp_memcpy(void *d, const void *s, size_t n) {
	uint8_t *dd = d; const uint8_t *ss = s;
#ifdef VP_NATIVE
	if (n) return memcpy(d, s, n);
#else
	__CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s) || dd >= ss + n || ss >= dd + n,
	                 "memcpy regions do not overlap");
#endif
	for (size_t i = 0; i < n; i++) dd[i] = ss[i];
	return d;
}
void *vp_memmove(void *d, const void *s, size_t n) {
	uint8_t *dd = d; const uint8_t *ss = s;
#ifdef VP_NATIVE
	return memmove(d, s, n);
#else
	if (__CPROVER_same_object(d, s) && dd > ss) {
		for (size_t i = n; i > 0; i--) dd[i - 1] = ss[i - 1];
	} else {
		for (size_t i = 0; i < n; i++) dd[i] = ss[i];
	}
	return d;
#endif
}

static bool vp_oom(void) {
	unsigned n = vp_alloc_n++;
	return n < 32 && ((vp_oom_mask >> n) & 1);
}
#ifdef VP_NATIVE
#ifndef VP_FILL
#define VP_FILL 0xA5
#endif
#endif
void *vp_malloc(size_t n) {
	void *p;
	if (vp_oom()) return NULL;
	p = malloc(n);
	if (p == NULL) return NULL;
#if defined(VP_NATIVE) && !defined(VP_MSAN)
	memset(p, VP_FILL, n);
#endif
	vp_live++;
	return p;
}
void *vp_calloc(size_t a, size_t b) {
	void *p;
	if (vp_oom()) return NULL;
	p = calloc(a, b);
	if (p != NULL) vp_live++;
	return p;
}
void *vp_realloc(void *o, size_t n) {
	void *p;
	if (vp_oom()) return NULL;
	p = realloc(o, n);
	if (p != NULL && o == NULL) vp_live++;
	return p;
}
void vp_free(void *p) {
	if (p != NULL) vp_live--;
	free(p);
}
char *vp_strdup(const char *s) {
	size_t n = strlen(s) + 1, i;
	char *p = vp_malloc(n);
	if (p == NULL) return NULL;
	for (i = 0; i < n; i++) p[i] = s[i];
	return p;
}

/* console output is not observed unless a harness says so */
#ifndef VP_OWN_PRINT
int vp_fprintf(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }
int vp_printf(const char *fmt, ...) { (void)fmt; return 0; }
int vp_puts(const char *s) { (void)s; return 0; }
int vp_putchar(int c) { return c; }
int vp_fputs(const char *s, FILE *f) { (void)s; (void)f; return 0; }
#endif

#ifdef VP_NATIVE
int main(int argc, char **argv) {
	if (argc > 1) {
		FILE *f = fopen(argv[1], "r");
		if (!f) { perror(argv[1]); return 2; }
		while (vec_n < sizeof(vec) / sizeof(vec[0]) && fscanf(f, "%llu", &vec[vec_n]) == 1) vec_n++;
		fclose(f);
	}
	harness();
	fprintf(stderr, "VP-COMPLETED\n");
	return 0;
}
#endif
