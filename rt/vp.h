/* Runtime shared by every harness: the same harness source is compiled with
 * goto-cc (symbolic) and with gcc/clang + sanitizers (replay of a solver
 * counterexample; -DVP_NATIVE). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

typedef unsigned long long vp_u64;

/* ---- symbolic inputs (each call consumes one entry of the input vector) ---- */
uint8_t  nd_u8(void);
uint16_t nd_u16(void);
uint32_t nd_u32(void);
vp_u64   nd_u64(void);
int      nd_int(void);
bool     nd_bool(void);
/* value in [lo,hi] */
unsigned nd_range(unsigned lo, unsigned hi);
void     nd_bytes(uint8_t *p, unsigned n);

#ifdef VP_NATIVE
void vp_fail(const char *msg, const char *file, int line);
void vp_infeasible(void);
void vp_reach(const char *name);
#define vp_assume(c)       do { if (!(c)) vp_infeasible(); } while (0)
#define vp_assert(c, msg)  do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define vp_witness(name)   vp_reach(name)
#else
#define vp_assume(c)       __CPROVER_assume(c)
#define vp_assert(c, msg)  __CPROVER_assert((c), "PROP: " msg)
/* vacuity guard: the runner requires every one of these to be violated (= reachable) */
#define vp_witness(name)   __CPROVER_assert(0, "WITNESS: " name)
#endif

/* ---- heap accounting (repo sources are compiled with malloc=vp_malloc...) ---- */
extern int vp_live;             /* blocks allocated and not freed */
extern unsigned vp_oom_mask;    /* bit i set: i-th allocation (from arming) fails */
extern unsigned vp_alloc_n;     /* allocations since arming */
void *vp_malloc(size_t);
void *vp_calloc(size_t, size_t);
void *vp_realloc(void *, size_t);
void  vp_free(void *);
char *vp_strdup(const char *);

void harness(void);
#endif
