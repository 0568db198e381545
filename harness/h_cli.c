/* The command line. Shape: FILEL, STDL: lists of lines of the command file and of the console ('?' any character that is neither blank nor end of
 * line, '~' a blank or tab), RETS: what each handler returns */
#include "vp.h"
#include "libcli.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const char *const fl[] = { FILEL NULL }, *const sl[] = { STDL NULL };
static const int rets[] = { RETS };
#ifndef MAXL
#define MAXL 40
#endif
#ifndef MAXW
#define MAXW 8
#define MAXC 12
#endif
#define MAXA 299 /* arguments of a command at most */
static struct line { const char *pat; char c[MAXL]; unsigned n; } lines[8];
static unsigned nfl, nsl;
static char fileobj[8], stdobj[8];
#define FILEP ((FILE *)fileobj)
#define STDP ((FILE *)stdobj)
static unsigned fpos, spos;
static bool opened, atex;
/* ---- the C library, as far as the command line uses it ---- */
static char *inbuf;
static const struct line *inl;
/* the input buffer is bigger than the solver can handle: only its beginning is allocated, its size remembered */
static size_t inmax;
void *vp_climalloc(size_t n) {
	if (n > 200) inmax = n;
	return vp_malloc(n > 200 ? MAXL + 24 : n);
}
char *vp_fgets(char *b, int n, FILE *f) {
	unsigned k;
	vp_assert(f == FILEP && opened, "reads the open file");
	if (fpos >= nfl) return NULL;
	k = fpos++;
	const struct line *l = &lines[k];
	vp_assert(n >= 0 && (size_t)n <= inmax, "stays in the input buffer");
	vp_assert((int)l->n + 2 <= n, "line fits (limit of the model)");
	for (unsigned i = 0; i < l->n; i++) b[i] = l->c[i];
	b[l->n] = '\n'; b[l->n + 1] = 0;
	inbuf = b; inl = l;
	return b;
}
/* console input */
#include <readline/readline.h>
#include <readline/history.h>
int rl_attempted_completion_over;
rl_completion_func_t *rl_attempted_completion_function;
char *rl_line_buffer;
char **rl_completion_matches(const char *t, rl_compentry_func_t *f) { return NULL; }
void add_history(const char *l) { }
char *readline(const char *prompt) {
	if (spos >= nsl) return NULL;
	const struct line *l = &lines[nfl + spos++];
	char *b = vp_malloc(l->n + 1);
	for (unsigned i = 0; i < l->n; i++) b[i] = l->c[i];
	b[l->n] = 0;
	inbuf = b; inl = l;
	return b;
}
int vp_feof(FILE *f) { return 1; }
void vp_clearerr(FILE *f) { }
int vp_fflush(FILE *f) { return 0; }
FILE *vp_fopen(const char *n, const char *m) {
	vp_assert(!opened && m[0] == 'r' && n[0] == 'f', "the file named");
	if (NOFILE) return NULL;
	opened = true;
	return FILEP;
}
int vp_fclose(FILE *f) { vp_assert(f == FILEP && opened, "closes the open file"); opened = false; return 0; }
static bool in(char c, const char *set) { for (; *set; set++) if (c == *set) return true; return false; }
size_t vp_strcspn(const char *s, const char *set) {
	if (s == inbuf && inl) {
		for (unsigned i = 0; i < inl->n; i++) vp_assert(!in(s[i], set), "the line is kept whole");
		return in('\n', set) ? inl->n : inl->n + 1;
	}
	return strcspn(s, set);
}
static unsigned tok;
static bool isblank_(const struct line *l, unsigned i) { return l->pat[i] == ' ' || l->pat[i] == '~' || l->pat[i] == '\t'; }
/* splits the last line read; where the blanks are is known */
char *vp_strtok(char *s, const char *d) {
	if (s) { vp_assert(s == inbuf, "splits the line read"); tok = 0; }
	const struct line *l = inl;
	for (; tok < l->n && isblank_(l, tok); tok++) vp_assert(in(inbuf[tok], d), "words are split at blanks and tabs");
	if (tok >= l->n) return NULL;
	unsigned b = tok;
	for (; tok < l->n && !isblank_(l, tok); tok++) vp_assert(!in(inbuf[tok], d), "words are split at blanks and tabs only");
	if (tok < l->n) { vp_assert(in(inbuf[tok], d), "words are split at blanks and tabs"); inbuf[tok++] = 0; }
	return inbuf + b;
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vp_strcasecmp(const char *a, const char *b) {
	for (;; a++, b++) {
		if (low(*a) != low(*b)) return (unsigned char)low(*a) - (unsigned char)low(*b);
		if (!*a) return 0;
	}
}
/* ---- what should be called ---- */
struct word { const char *p; unsigned n; };
static struct call { int id; int argc; struct word w[MAXW]; bool menu; } ex[MAXC];
static unsigned nex, got, gotlog;
static enum cli_retval called(int id, int argc, char **argv) {
	vp_assert(got < nex, "only the commands typed are run");
	const struct call *e = &ex[got];
	vp_assert(gotlog == got + 1, "every command is logged first");
	vp_assert(e->id == id && e->argc == argc, "the command typed, with as many arguments");
	for (int i = 0; i < e->argc; i++) {
		bool ok = true;
		for (unsigned k = 0; k < e->w[i].n; k++) ok &= argv[i][k] == e->w[i].p[k];
		vp_assert(ok && argv[i][e->w[i].n] == 0, "the words typed");
	}
	vp_assert(argv[argc] == NULL || argv[argc][0] == 0, "end of the arguments");
	got++;
	return rets[id];
}
static void logcmd(int argc, char **argv) {
	vp_assert(gotlog == got && gotlog < nex, "logs the commands typed");
	const struct call *e = &ex[gotlog];
	if (e->menu) { vp_assert(argc == 1, "name of the menu"); got++; }
	gotlog++;
	for (int i = 0; i < argc; i++) {
		bool ok = i < e->argc;
		for (unsigned k = 0; k < e->w[i].n && ok; k++) ok &= argv[i][k] == e->w[i].p[k];
		vp_assert(ok && argv[i][e->w[i].n] == 0, "the words typed");
	}
}
static void at_exit(void) { vp_assert(!atex, "once"); atex = true; }
#define HND(n) static enum cli_retval h##n(int c, char **v) { return called(n, c, v); }
HND(0) HND(1) HND(2) HND(3) HND(4) HND(5)
static const struct cmd_tbl_entry sub[] = {
	{ "ab", "", "", h2, 0, NULL }, { "any", "", "", h3, CUSTOM ? CLI_CMD_CUSTOM : 0, NULL }, { "y", "", "", h4, CLI_CMD_HIDDEN, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END
};
static const struct cmd_tbl_entry root[] = {
	{ "abc", "", "", h0, 0, NULL }, { "ab", "", "", h1, CLI_CMD_FILEARG, NULL }, { "sub", "", "", NULL, 0, sub }, { "Z", "", "", h5, 0, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END
};
static bool eqw(const struct word *w, const char *s) {
	unsigned k;
	for (k = 0; k < w->n; k++) if (!s[k] || low(w->p[k]) != low(s[k])) return false;
	return s[k] == 0;
}
static unsigned xf, xs;         /* lines consumed */
enum { OK_, EXIT_ = 100, STOP };
/* runs lines from a stream at a level until it ends; returns EXIT_ or OK_ */
static int run1(bool insub, bool file, struct word *w, int n, bool single);
static int runl(bool insub, bool file) {
	for (;;) {
		unsigned *p = file ? &xf : &xs;
		if (*p >= (file ? nfl : nsl)) return OK_;
		const struct line *l = &lines[(file ? 0 : nfl) + *p];
		++*p;
		if (l->pat[0] == '#' || l->pat[0] == '@') continue;
		struct word w[MAXW];
		int n = 0;
		for (unsigned i = 0; i < l->n; ) {
			if (isblank_(l, i)) { i++; continue; }
			w[n].p = l->c + i;
			for (w[n].n = 0; i < l->n && !isblank_(l, i); i++) w[n].n++;
			n++;
		}
		if (!n) continue;
		if (n > MAXA) n = MAXA;
		int r = run1(insub, file, w, n, false);
		if (r == EXIT_) return EXIT_;
		if (r == STOP) return OK_;
	}
}
static int run1(bool insub, bool file, struct word *w, int n, bool single) {
	int id = -1, r;
	struct call *e = &ex[nex];
	for (int i = 0; i < n; i++) e->w[i] = w[i];
	e->argc = n;
	e->menu = false;
	if (eqw(w, "up")) r = CMD_UP;
	else if (eqw(w, "exit") || eqw(w, "quit")) r = CMD_EXIT;
	else if (!insub && eqw(w, "sub")) {
		e->menu = true; e->argc = 1; nex++;
		return n > 1 ? (run1(true, file, w + 1, n - 1, true) == EXIT_ ? EXIT_ : OK_) : runl(true, file);
	} else {
		if (insub) id = eqw(w, "ab") ? 2 : eqw(w, "any") ? 3 : eqw(w, "y") ? 4 : CUSTOM ? 3 : -1;
		else id = eqw(w, "abc") ? 0 : eqw(w, "ab") ? 1 : eqw(w, "z") ? 5 : -1;
		if (id < 0) return file ? STOP : OK_;
		r = rets[id];
	}
	e->id = id;
	if (id < 0) e->menu = true;     /* built in: logged, and not seen here */
	nex++;
	if (r == CMD_EXIT) return EXIT_;
	if (r == CMD_UP && insub) return STOP;
	return OK_;
}
static void mk(struct line *l, const char *p) {
	l->pat = p;
	for (l->n = 0; p[l->n]; l->n++) {
		char c = p[l->n];
		if (c == '?') {
			c = (char)nd_u8();
			vp_assume(c != 0 && c != ' ' && c != '\t' && c != '\n' && c != '\r');
			if (l->n == 0) vp_assume(c != '#' && c != '@');
		} else if (c == '~') c = nd_bool() ? ' ' : '\t';
		l->c[l->n] = c;
	}
	l->c[l->n] = 0;
}
void harness(void) {
	struct cli_callbacks cb = { .cli_logcmd = logcmd, .cli_atexit = at_exit };
	bool withfile = false, console = true;
	stdin = STDP;
	for (nfl = 0; fl[nfl]; nfl++) { mk(&lines[nfl], fl[nfl]); withfile = true; }
	for (nsl = 0; sl[nsl]; nsl++) mk(&lines[nfl + nsl], sl[nsl]);
	if (withfile || NOFILE) console = !NOFILE && runl(false, true) != EXIT_;
	if (console) runl(false, false);
	cli_set_callbacks(&cb);
	cli_enter("top", withfile || NOFILE ? "f" : NULL, root);
	vp_assert(got == nex && gotlog == nex, "every command typed was run");
	vp_assert(xf == fpos && xs == spos, "every line was read");
	vp_assert(atex && !opened, "left in order");
	vp_assert(vp_live == 0, "no memory lost");
	vp_witness("done");
}
