/* snprintf for harnesses that decide what text is produced (repo sources are compiled with snprintf=vp_snprintf).
 * Natively the C library's; symbolically this model of the conversions the program uses: %[-0][width][.prec][l|h|hh]{d,i,u,x,X,c,s,%}.
 * A hexadecimal conversion with a width has exactly that many digits (asserted), so that lengths stay concrete. */
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include "vp.h"
/* how many digits the next hexadecimal conversions without width have, for symbolic values */
uint8_t vp_xd[16];
unsigned vp_xdn, vp_xdi;
/* the same for signed decimal conversions; bit 7: negative */
uint8_t vp_dd[4];
unsigned vp_ddn, vp_ddi;
#ifdef VP_NATIVE
#include <string.h>
void vp_note(const char *p, size_t l) { (void)p; (void)l; }
void vp_forget(const char *p) { (void)p; }
size_t vp_strlen(const char *s) { return strlen(s); }
char *vp_strncat(char *d, const char *s, size_t n) { return strncat(d, s, n); }
char *vp_strcpy(char *d, const char *s) { return strcpy(d, s); }
int vp_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
#else
/* Texts contain symbolic digits, which would make every length symbolic. The lengths of texts produced here are known,
 * so they are remembered per buffer; vp_strlen asserts that the remembered length still is the string's length. */
#define NNOTE 8
static const char *np[NNOTE];
static size_t nl[NNOTE];
static unsigned nn;
static void note(const char *p, size_t l) {
	for (unsigned i = 0; i < NNOTE; i++) if (np[i] == p) { nl[i] = l; return; }
	np[nn % NNOTE] = p; nl[nn % NNOTE] = l;
	nn++;
}
void vp_note(const char *p, size_t l) { note(p, l); }
void vp_forget(const char *p) { for (unsigned i = 0; i < NNOTE; i++) if (np[i] == p) np[i] = NULL; }
size_t vp_strlen(const char *s) {
	for (unsigned i = 0; i < NNOTE; i++) if (__CPROVER_same_object(np[i], s) && np[i] == s) {
		bool ok = s[nl[i]] == 0;
		for (size_t k = 0; k < nl[i]; k++) ok &= s[k] != 0;
		vp_assert(ok, "text is as last formatted (limit of the string model)");
		return nl[i];
	}
	size_t k = 0;
	while (s[k]) k++;
	return k;
}
char *vp_strncat(char *d, const char *s, size_t n) {
	size_t a = vp_strlen(d), b = vp_strlen(s);
	if (b > n) b = n;
	for (size_t k = 0; k < b; k++) d[a + k] = s[k];
	d[a + b] = 0;
	note(d, a + b);
	return d;
}
char *vp_strcpy(char *d, const char *s) {
	size_t b = vp_strlen(s);
	for (size_t k = 0; k < b; k++) d[k] = s[k];
	d[b] = 0;
	note(d, b);
	return d;
}
int vp_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	size_t o = 0;
	va_start(ap, f);
#define OUT(c) do { if (o + 1 < n) b[o] = (c); o++; } while (0)
	for (unsigned i = 0; f[i]; i++) {
		if (f[i] != '%') { OUT(f[i]); continue; }
		i++;
		bool zero = false, left = false;
		unsigned width = 0, l = 0;
		int prec = -1;
		for (; f[i] == '0' || f[i] == '-' || f[i] == '+'; i++) { if (f[i] == '0') zero = true; if (f[i] == '-') left = true; }
		for (; f[i] >= '0' && f[i] <= '9'; i++) width = width * 10 + (f[i] - '0');
		if (f[i] == '.') for (prec = 0, i++; f[i] >= '0' && f[i] <= '9'; i++) prec = prec * 10 + (f[i] - '0');
		for (; f[i] == 'l' || f[i] == 'h' || f[i] == 'z'; i++) if (f[i] != 'h') l++;
		char c = f[i];
		if (c == 'c') { int v = va_arg(ap, int); OUT((char)v); }
		else if (c == '%') OUT('%');
		else if (c == 's') {
			const char *s = va_arg(ap, const char *);
			unsigned k = 0;
			for (; s[k] && (prec < 0 || k < (unsigned)prec); k++) ;
			if (!left) for (unsigned j = k; j < width; j++) OUT(' ');
			for (unsigned j = 0; j < k; j++) OUT(s[j]);
			if (left) for (unsigned j = k; j < width; j++) OUT(' ');
		} else if (c == 'x' || c == 'X') {
			unsigned long v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			char a = c == 'X' ? 'A' : 'a';
			unsigned d = width;
			(void)zero;
			if (width) vp_assert(width >= 16 || (v >> (4 * width)) == 0, "hexadecimal value fits its width (limit of the snprintf model)");
			else if (vp_xdi < vp_xdn) {
				d = vp_xd[vp_xdi++];
				vp_assert((v >> (4 * d)) == 0 && (d == 1 || (v >> (4 * (d - 1))) != 0), "number of digits announced by the harness (limit of the snprintf model)");
			} else for (d = 1; d < 16 && (v >> (4 * d)) != 0; d++) ;
			for (unsigned j = d; j > 0; j--) {
				unsigned q = (v >> (4 * (j - 1))) & 15;
				OUT((char)(q < 10 ? '0' + q : a + (q - 10)));
			}
		} else if (c == 'd' || c == 'i' || c == 'u') {
			long v;
			unsigned long u;
			bool neg = false;
			char t[24];
			unsigned k = 0;
			if (c == 'u') u = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			else { v = l ? va_arg(ap, long) : va_arg(ap, int); neg = v < 0; u = neg ? -(unsigned long)v : (unsigned long)v; }
			if (c != 'u' && vp_ddi < vp_ddn) {
				unsigned d = vp_dd[vp_ddi] & 0x7F;
				vp_assert(neg == (vp_dd[vp_ddi] >> 7), "sign announced by the harness (limit of the snprintf model)");
				neg = vp_dd[vp_ddi++] >> 7;
				for (; k < d; u /= 10) { vp_assert(k == 0 || u != 0, "number of digits announced by the harness (limit of the snprintf model)"); t[k++] = '0' + u % 10; }
				vp_assert(u == 0, "number of digits announced by the harness (limit of the snprintf model)");
			} else do { t[k++] = '0' + u % 10; u /= 10; } while (u && k < 20);
			if (!left && !zero) for (unsigned j = k + neg; j < width; j++) OUT(' ');
			if (neg) OUT('-');
			if (zero && !left) for (unsigned j = k + neg; j < width; j++) OUT('0');
			for (unsigned j = k; j > 0; j--) OUT(t[j - 1]);
			if (left) for (unsigned j = k + neg; j < width; j++) OUT(' ');
		} else vp_assert(false, "conversion known to the snprintf model");
	}
	if (n) { b[o < n ? o : n - 1] = 0; note(b, o < n ? o : n - 1); }
	va_end(ap);
	return (int)o;
}
#endif
