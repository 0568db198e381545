/* The car simulator. Shape: DBL lines of the database; REQS list of requests, each LENGTH,BYTE.. (a byte of -1 is any byte);
 * BUF size of receive buffers; OOM mask of failing allocations during requests; NONL the last line has no end of line */
#include "vp.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_os.h"
#include "diag_cfg.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
extern const struct diag_l0 diag_l0_sim;
static const char *const db[] = { DBL NULL };
#define NDB (sizeof(db) / sizeof(db[0]) - 1)
static const int reqs[] = { REQS };
static unsigned pos;            /* next line of the database */
static bool opened;
static char fobj[4];
#define FP ((FILE *)fobj)
static unsigned long now;
int diag_l0_debug;
unsigned long diag_os_getms(void) { return now; }
FILE *vp_fopen(const char *n, const char *m) { vp_assert(!opened && m[0] == 'r', "opened once, for reading"); (void)n; if (NOFILE) return NULL; opened = true; pos = 0; return FP; }
int vp_fclose(FILE *f) { vp_assert(f == FP && opened, "closes the open file"); opened = false; return 0; }
void vp_rewind(FILE *f) { vp_assert(f == FP && opened, "open file"); pos = 0; }
static unsigned off;            /* within the line */
char *vp_fgets(char *b, int n, FILE *f) {
	unsigned i;
	vp_assert(f == FP && opened && n > 1, "open file");
	if (pos == 0) off = 0;
	if (pos >= NDB) return NULL;
	const char *l = db[pos];
	for (i = 0; i + 1 < (unsigned)n && l[off]; i++, off++) b[i] = l[off];
	if (!l[off]) {
		if (pos + 1 < NDB || !NONL) { if (i + 1 < (unsigned)n) { b[i++] = '\n'; pos++; off = 0; } }
		else { pos++; off = 0; }
	}
	b[i] = 0;
	if (i == 0) return NULL;
	return b;
}
double sin(double x) { (void)x; return 0.75; } /* nothing is said about the sine */
int vp_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
unsigned long vp_strtoul(const char *s, char **e, int base) {
	const char *b = s;
	unsigned long v = 0;
	bool any = false;
	while (vp_isspace(*s)) s++;
	if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig(s[2]) < 16) s += 2;
	for (; dig(*s) < base; s++) { v = v * base + dig(*s); any = true; }
	if (e) *e = (char *)(any ? s : b);
	return v;
}
int vp_sscanf(const char *s, const char *f, ...) {
	va_list ap;
	char *e;
	va_start(ap, f);
	unsigned *p = va_arg(ap, unsigned *);
	va_end(ap);
	vp_assert(f[0] == '%' && (f[1] == 'X' || f[1] == 'x') && f[2] == 0, "conversion known to the sscanf model");
	unsigned v = vp_strtoul(s, &e, 16);
	if (e == s) return 0;
	*p = v;
	return 1;
}
static char *tp;
static bool in(char c, const char *d) { for (; *d; d++) if (*d == c) return true; return false; }
char *vp_strtok(char *s, const char *d) {
	if (s) tp = s;
	vp_assert(tp != NULL, "strtok continues a text it was given");
	while (*tp && in(*tp, d)) tp++;
	if (!*tp) return NULL;
	char *b = tp;
	while (*tp && !in(*tp, d)) tp++;
	if (*tp) *tp++ = 0;
	return b;
}
static const char *elem(const char *l, unsigned k);
/* The outcome of comparing a symbolic byte is fixed per line (SPLIT), so that the line read next is known: both outcomes are separate cases.
 * That don't care elements match is asserted, not assumed. */
static bool sym[16];            /* bytes of the request that are symbolic */
static bool dec(unsigned line) { return SPLIT >> line & 1; }
int vp_memcmp(const void *a, const void *b, size_t n) {
	const uint8_t *x = a, *y = b;
	for (unsigned i = 0; i < n; i++) {
		const char *w = elem(db[pos - 1], i);
		if (i < 16 && sym[i] && w && *w == 'X') { vp_assert(x[i] == y[i], "don't care elements match"); continue; }
		if (i < 16 && sym[i]) {
			bool e = dec(pos - 1);
			vp_assume((x[i] == y[i]) == e);
			if (!e) return 1;
		} else if (x[i] != y[i]) return 1;
	}
	return 0;
}
/* ---- what the database says ---- */
static bool starts(const char *l, const char *t) { for (; *t; t++, l++) if (*t != *l) return false; return true; }
static const char *word(const char *p, const char **next) {
	while (*p == ' ' || *p == '\t') p++;
	if (!*p) return NULL;
	const char *b = p;
	while (*p && *p != ' ' && *p != '\t') p++;
	*next = p;
	return b;
}
static unsigned hex(const char *w, const char *e) {
	unsigned v = 0;
	if (w[0] == '0' && (w[1] == 'x' || w[1] == 'X')) w += 2;
	for (; w < e; w++) v = v * 16 + dig(*w);
	return v & 0xFF;
}
static const char *elem(const char *l, unsigned k) {
	const char *p, *w = NULL, *e;
	for (p = l + 2; (w = word(p, &e)); p = e) if (k-- == 0) return w;
	return NULL;
}
static int rqline(const uint8_t *d, unsigned n) {
	for (unsigned l = 0; l < NDB; l++) {
		const char *p, *w, *e;
		unsigned k = 0;
		bool ok = true;
		if (!starts(db[l], "RQ") || (n < 16 && elem(db[l], n))) continue; /* more elements than the request has bytes: no match */
		for (p = db[l] + 2; (w = word(p, &e)); p = e, k++) {
			if (k >= n) { ok = false; break; }
			if (*w == 'X') continue;
			if (sym[k]) {
				vp_assert((d[k] == hex(w, e)) == dec(l), "matches as the database says");
				if (!dec(l)) { ok = false; break; }
			} else if (d[k] != hex(w, e)) { ok = false; break; }
		}
		if (ok) return (int)l;
	}
	return -1;
}
/* bytes of a response; tilt: a byte nothing is said about; saw: a byte that is the sawtooth */
static unsigned response(const char *l, const uint8_t *d, unsigned n, uint8_t *o, unsigned *any, unsigned *saw, unsigned *cks) {
	unsigned k = 0;
	const char *p, *w, *e;
	*any = *saw = *cks = 0;
	for (p = l + 2; (w = word(p, &e)); p = e) {
		if (starts(w, "sin1")) *any |= 1u << k;
		else if (starts(w, "swt1")) *saw |= 1u << k;
		else if (starts(w, "cks1")) *cks |= 1u << k; /* the sum of the bytes before it */
		else if (starts(w, "req")) {
			unsigned long i = 0;
			const char *q;
			for (q = w + 3; dig(*q) < 10; q++) i = i * 10 + dig(*q);
			bool bad = q == w + 3 || i < 1 || i > n || (q < e && !(*q == '+' && q + 1 == e));
			o[k] = bad ? 0 : d[i - 1] + (*q == '+');
		} else if (dig(*w) > 15) break; /* not a number: the response ends here */
		else o[k] = hex(w, e);
		k++;
	}
	return k;
}
static bool cfg(const char *t) { for (unsigned l = 0; l < NDB; l++) if (starts(db[l], "CFG ") && starts(db[l] + 4, t)) return true; return false; }
void harness(void) {
	struct diag_l0_device *d = calloc(1, sizeof(*d));
	unsigned i, k, q;
	int rv, want = PROTO, restrict_ = 0;
	uint32_t fl, e;
	static const struct { const char *t; int p; } pr[] = { { "P_9141", DIAG_L1_ISO9141 }, { "P_14230", DIAG_L1_ISO14230 }, { "P_J1850P", DIAG_L1_J1850_PWM }, { "P_J1850V", DIAG_L1_J1850_VPW }, { "P_CAN", DIAG_L1_CAN }, { "P_RAW", DIAG_L1_RAW } };
	d->dl0 = &diag_l0_sim;
	vp_assert(diag_l0_sim.init() == 0, "init");
	vp_assert(diag_l0_sim._new(d) == 0, "made");
	for (unsigned round = 0; round < 2; round++) {
		/* nothing of one session may show in the next */
		rv = diag_l0_sim._open(d, want);
		for (i = 0; i < sizeof(pr) / sizeof(pr[0]); i++) if (cfg(pr[i].t)) restrict_ = pr[i].p;
		if (NOFILE || (restrict_ && restrict_ != want)) {
			vp_assert(rv == (NOFILE ? DIAG_ERR_GENERAL : DIAG_ERR_PROTO_NOTSUPP), "cannot be opened");
			vp_assert(!opened && !d->opened, "and is not open");
			break;
		}
		vp_assert(rv == 0 && opened && d->opened, "open");
		fl = diag_l0_sim._getflags(d);
		e = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY;
		if (cfg("DATAONLY") || cfg("NOL2CKSUM")) e |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_DOESL2FRAME;
		if (cfg("DATAONLY")) e |= DIAG_L1_NOHDRS | DIAG_L1_DATAONLY;
		if (cfg("FRAMED")) e |= DIAG_L1_DOESL2FRAME;
		if (cfg("FULLINIT")) e |= DIAG_L1_DOESFULLINIT;
		vp_assert(fl == e, "flags as configured in the database");
		if (INIT) {
			/* the answer to a wake-up address comes like any other */
			struct diag_l1_initbus_args a = { 0 };
			a.type = INIT; a.addr = 0x33;
			rv = diag_l0_sim._ioctl(d, DIAG_IOCTL_INITBUS, &a);
			vp_assert(rv == (INIT == DIAG_L1_INITBUS_FAST || INIT == DIAG_L1_INITBUS_5BAUD || cfg("FULLINIT") ? 0 : DIAG_ERR_INIT_NOTSUPP), "wake-ups simulated");
		}
		vp_oom_mask = OOM; vp_alloc_n = 0;
		for (i = 0, q = 0; i < sizeof(reqs) / sizeof(reqs[0]); q++) {
			unsigned n = reqs[i++], got = 0;
			uint8_t *r = malloc(n ? n : 1), *b = malloc(BUF);
			for (k = 0; k < n; k++, i++) { r[k] = reqs[i] < 0 ? nd_u8() : reqs[i]; if (k < 16) sym[k] = reqs[i] < 0; }
			int l = -1, left = 0;
			if ((INIT == DIAG_L1_INITBUS_FAST || INIT == DIAG_L1_INITBUS_5BAUD) && q == 0 && !cfg("FULLINIT")) {
				/* responses to the wake-up first; the first one of a 5 baud wake-up was the synch pattern */
				uint8_t w = INIT == DIAG_L1_INITBUS_FAST ? 0 : 0x33;
				int wl = rqline(&w, 1);
				bool skip = INIT == DIAG_L1_INITBUS_5BAUD;
				for (k = wl + 1; wl >= 0 && k < NDB && !starts(db[k], "RQ"); k++) {
					uint8_t o[12];
					unsigned any, saw, cks, m;
					if (!starts(db[k], "RP")) continue;
					if (skip) { skip = false; continue; }
					m = response(db[k], &w, 1, o, &any, &saw, &cks);
					rv = diag_l0_sim._recv(d, b, BUF, 10);
					vp_assert(rv == (int)(m < BUF ? m : BUF), "answer to the wake-up");
					for (unsigned j = 0; j < m && j < BUF; j++) vp_assert(b[j] == o[j], "answer to the wake-up");
				}
			}
			rv = diag_l0_sim._send(d, r, n);
			if (n == 0 || n > 260) vp_assert(rv < 0, "length refused");
			else {
				vp_assert(rv == 0, "request sent");
				l = rqline(r, n);
			}
			uint8_t c = n ? r[0] : 0;
			uint8_t *keep = malloc(n ? n : 1);
			for (k = 0; k < n; k++) { keep[k] = r[k]; r[k] = ~r[k]; }       /* the simulator has its own copy */
			(void)c;
			now = nd_u32();
			for (k = l + 1; l >= 0 && k < NDB && !starts(db[k], "RQ"); k++) {
				uint8_t o[12];
				unsigned any, saw, cks, m, j;
				if (!starts(db[k], "RP")) continue;
				if (ABANDON && q + 1 < 2) { left++; continue; }
				m = response(db[k], keep, n, o, &any, &saw, &cks);
				for (j = 0; j < BUF; j++) b[j] = 0xA5;
				rv = diag_l0_sim._recv(d, b, BUF, 10);
				got++;
				if (OOM) { vp_assert(rv <= (int)m || rv < 0, "no more than the response"); continue; }
				if (m == 0) { vp_assert(rv == DIAG_ERR_TIMEOUT, "empty response: nothing"); continue; }
				vp_assert(rv == (int)(m < BUF ? m : BUF), "as many bytes as the database says");
				for (j = 0; j < m && j < BUF; j++) {
					if (any >> j & 1) continue;
					if (saw >> j & 1) {
						long x = 255 * (long)(now % 1000);
						vp_assert(1000l * b[j] > x - 1000 && 1000l * b[j] < x + 1000, "proportional to time");
					} else if (cks >> j & 1) {
						uint8_t t = 0;
						for (unsigned x = 0; x < j; x++) t += b[x];
						vp_assert(b[j] == t, "the checksum of the bytes before");
					} else vp_assert(b[j] == o[j], "the bytes the database says");
				}
			}
			if (left) {
				/* not all responses read: another request is refused, not mixed up */
				rv = diag_l0_sim._send(d, keep, n);
				vp_assert(rv < 0, "refused");
			} else if (!OOM) {
				for (k = 0; k < BUF; k++) b[k] = 0xA5;
				rv = diag_l0_sim._recv(d, b, BUF, 10);
				vp_assert(rv == DIAG_ERR_TIMEOUT, "no more responses");
			}
			free(r); free(b); free(keep);
			if (left) break;
		}
		vp_oom_mask = 0;
		diag_l0_sim._close(d);
		vp_assert(!opened && !d->opened, "closed");
		if (!TWICE) break;
	}
	diag_l0_sim._del(d);
	vp_assert(vp_live == 0, "no memory lost");
	free(d);
	vp_witness("done");
}
