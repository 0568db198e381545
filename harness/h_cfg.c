/* Configuration items. Shape: KIND ('s','i','u','b','t'), OPS: list of CODE,ARG pairs, OOM mask (bit i: i-th allocation after creation fails), DIG digits of numbers (bit 7: negative) */
#include "vp.h"
#include "diag.h"
#include "diag_cfg.h"
#include "diag_err.h"
#include "diag_tty.h"
#include <stdlib.h>
#include <string.h>
extern void vp_note(const char *, size_t), vp_forget(const char *);
extern uint8_t vp_dd[];
extern unsigned vp_ddn, vp_ddi;
static const int ops[] = { OPS };
#define NOPS (sizeof(ops) / sizeof(ops[0]) / 2)
/* the value and default the item should have */
struct text { char c[12]; unsigned n; };
static struct text v, dv;
static long num, dnum;
static unsigned nport;
static char port[2][4];
static char vp_char(void) { uint8_t x = nd_u8(); vp_assume(x != 0); return (char)x; }
static bool failed(unsigned before) { return (vp_oom_mask >> before) & 1; }
/* the ports found: a list of strings of 2 and 3 characters; owned by the caller */
char **diag_tty_getportlist(int *n) {
	char **l;
	*n = nport;
	if (!nport) return NULL;
	unsigned m = vp_oom_mask, c = vp_alloc_n;
	vp_oom_mask = 0;
	l = vp_malloc(nport * sizeof(char *));
	for (unsigned i = 0; i < nport; i++) {
		l[i] = vp_malloc(3 + i);
		for (unsigned k = 0; k < 2 + i; k++) l[i][k] = port[i][k] = vp_char();
		l[i][2 + i] = 0;
		vp_note(l[i], 2 + i);
	}
	vp_oom_mask = m; vp_alloc_n = c;
	return l;
}
static void is(const char *s, const struct text *t, const char *m) {
	bool ok = s != NULL;
	for (unsigned i = 0; i < t->n && ok; i++) ok &= s[i] == t->c[i];
	vp_assert(ok && s[t->n] == 0, "holds the text that was set");
}
static void check(struct cfgi *c) {
	switch (KIND) {
	case 's': case 't':
		is(c->val.str, &v, "value");
		is(c->dval.str, &dv, "default");
		break;
	case 'i': vp_assert(c->val.i == num && c->dval.i == dnum, "value and default number"); break;
	case 'u': vp_assert(c->val.u8 == num && c->dval.u8 == dnum, "value and default byte"); break;
	case 'b': vp_assert(c->val.b == num && c->dval.b == dnum, "value and default flag"); break;
	}
}
/* a number with the announced sign and digits */
static int number(void) {
	static const long p[] = { 0, 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000 };
	unsigned d = DIG & 0x7F;
	int x = nd_int();
	unsigned long a = x < 0 ? -(long)x : x;
	vp_assume((x < 0) == (DIG >> 7) && a >= (d == 1 ? (DIG >> 7) : (unsigned long)p[d]) && a < 10ul * p[d]);
	return x;
}
void harness(void) {
	struct cfgi *c = calloc(1, sizeof(*c));
	static char *olist[3];
	static struct text ot[3];
	char def[4];
	unsigned i, k;
	int rv, d;
	bool opts = KIND == 's' || KIND == 'i';
	for (i = 0; i < 3; i++) {
		olist[i] = malloc(i + 2);
		for (k = 0; k <= i; k++) olist[i][k] = ot[i].c[k] = vp_char();
		olist[i][i + 1] = 0; ot[i].n = i + 1;
		vp_note(olist[i], i + 1);
	}
	vp_oom_mask = OOM0; vp_alloc_n = 0;
	switch (KIND) {
	case 's':
		for (k = 0; k < 3; k++) def[k] = v.c[k] = dv.c[k] = vp_char();
		def[3] = 0; v.n = dv.n = 3;
		vp_note(def, 3);
		rv = diag_cfgn_str(c, def, "descr", "name");
		break;
	case 't':
		rv = diag_cfgn_tty(c);
		memcpy(v.c, "/dev/null", 10); v.n = 9; dv = v;
		break;
	case 'i': num = number(); dnum = number(); rv = diag_cfgn_int(c, num, dnum); break;
	case 'u': num = nd_u8(); dnum = nd_u8(); rv = diag_cfgn_u8(c, num, dnum); break;
	default: num = nd_bool(); dnum = nd_bool(); rv = diag_cfgn_bool(c, num, dnum); break;
	}
	if (OOM0) {
		vp_assert(rv < 0, "out of memory is reported");
		vp_assert(vp_live == 0, "and nothing is lost");
		goto done;
	}
	vp_assert(rv == 0, "item made");
	check(c);
	if (opts) { c->opt = olist; c->numopts = 3; }
	vp_oom_mask = OOM; vp_alloc_n = 0;
	for (i = 0; i < NOPS; i++) {
		int a = ops[2 * i + 1];
		unsigned al = vp_alloc_n;
		int b = nd_int();
		char *s;
		struct text t;
		switch (ops[2 * i]) {
		case 's':               /* text of a characters */
			s = malloc(a + 1);
			for (k = 0; k < (unsigned)a; k++) s[k] = t.c[k] = vp_char();
			s[a] = 0; t.n = a;
			vp_note(s, a);
			rv = diag_cfg_setstr(c, s);
			vp_assert((rv == 0) == ((KIND == 's' || KIND == 't') && !failed(al)), "text accepted exactly by text items");
			if (rv == 0) v = t;
			vp_forget(s);
			memset(s, '#', a + 1);  /* the item has its own copy */
			free(s);
			break;
		case 'o':               /* option by number; a == 99: any number that is not valid for a text item */
			d = a == 99 ? b : a;
			if (a == 99) vp_assume(KIND == 'i' ? true : d < 0 || d >= c->numopts);
			k = c->numopts;
			s = KIND == 't' && a < c->numopts ? c->opt[a] : NULL;
			rv = diag_cfg_setopt(c, d);
			if (KIND == 'i') {
				vp_assert((rv == 0) == (d >= 0 && d < 3), "only options that exist");
				if (rv == 0) num = d;
			} else if (a == 99 || (unsigned)a >= k) vp_assert(rv < 0, "options that do not exist are refused");
			else {
				vp_assert((rv == 0) == !failed(al), "option accepted");
				if (rv == 0 && KIND == 's') v = ot[a];
				if (rv == 0 && KIND == 't') { for (k = 0; k < 2u + a; k++) v.c[k] = port[a][k]; v.n = 2 + a; }
			}
			break;
		case 'i':
			d = number();
			rv = diag_cfg_setint(c, d);
			vp_assert((rv == 0) == (KIND == 'i'), "number accepted exactly by number items");
			if (rv == 0) num = d;
			break;
		case 'u':
			rv = diag_cfg_setu8(c, (uint8_t)b);
			vp_assert((rv == 0) == (KIND == 'u'), "byte accepted exactly by byte items");
			if (rv == 0) num = (uint8_t)b;
			break;
		case 'b':
			rv = diag_cfg_setbool(c, b & 1);
			vp_assert((rv == 0) == (KIND == 'b'), "flag accepted exactly by flag items");
			if (rv == 0) num = b & 1;
			break;
		case 'g':               /* value as text */
			vp_ddi = 0; vp_ddn = 1; vp_dd[0] = DIG;
			s = diag_cfg_getstr(c);
			if (failed(al)) vp_assert(s == NULL, "out of memory is reported");
			else if (KIND == 'i') {
				char e[24];
				unsigned long u = num < 0 ? -num : num;
				unsigned n = DIG & 0x7F, w, neg = DIG >> 7;
				/* as C's "%7d" */
				w = n + neg < 7 ? 7 : n + neg;
				for (k = 0; k < w; k++) e[k] = ' ';
				if (neg) e[w - n - 1] = '-';
				for (k = 0; k < n; k++) { e[w - 1 - k] = '0' + u % 10; u /= 10; }
				bool ok = true;
				for (k = 0; k < w; k++) ok &= s[k] == e[k];
				vp_assert(ok && s[w] == 0, "the number in decimal");
			} else if (KIND == 'u') {
				static const char hx[] = "0123456789ABCDEF";
				vp_assert(s[0] == '0' && s[1] == 'x' && s[2] == hx[num >> 4] && s[3] == hx[num & 15] && s[4] == 0, "the byte in hexadecimal");
			} else is(s, &v, "text");
			if (s) { vp_assert(s != c->val.str || KIND != 's', "a copy"); vp_forget(s); vp_free(s); }
			break;
		case 'r':
			diag_cfg_reset(c);
			num = dnum;
			if (!failed(al)) v = dv;
			break;
		case 'f':               /* look for ports: a of them */
			nport = a;
			diag_cfg_refresh(c);
			if (KIND == 't') {
				if (a && !failed(al)) { for (k = 0; k < 2; k++) dv.c[k] = port[0][k]; dv.n = 2; }
				vp_assert(c->numopts == (failed(al) ? 0 : a), "as many options as ports");
			}
			break;
		}
		check(c);
	}
	if (KIND == 'b' || KIND == 'u' || KIND == 'i') vp_assert(vp_live == 0, "no memory needed");
	diag_cfg_clear(c);
	vp_assert(vp_live == 0, "all memory returned");
	if (KIND == 's' || KIND == 't') vp_assert(c->val.str == NULL && c->dval.str == NULL && c->numopts == 0, "empty item");
	diag_cfg_clear(c);      /* harmless */
done:
	for (i = 0; i < 3; i++) free(olist[i]);
	free(c);
	vp_witness("done");
}
