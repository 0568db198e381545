/* Command lines of very many words. Shape: N words typed, SUB: the first names a menu. The words after the command are any one character. */
#include "vp.h"
#include "libcli.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <readline/readline.h>
#include <readline/history.h>
int rl_attempted_completion_over;
rl_completion_func_t *rl_attempted_completion_function;
char *rl_line_buffer;
char **rl_completion_matches(const char *t, rl_compentry_func_t *f) { (void)t; (void)f; return NULL; }
void add_history(const char *l) { (void)l; }
#define MAXA 299 /* so many words of a line are taken, others may be ignored */
static char w_sub[] = "sub", w_ab[] = "ab", w_any[] = "x", *line;
static char stdobj[8];
static unsigned reads, words;
char *readline(const char *p) {
	(void)p;
	if (reads++) return NULL;
	line = vp_malloc(4);
	line[0] = 'q'; line[1] = 0;
	return line;
}
static unsigned called, logged;
static char *word(unsigned k) { return SUB && k == 0 ? w_sub : k == (unsigned)(SUB) ? w_ab : w_any; }
char *vp_strtok(char *s, const char *d) {
	(void)d;
	if (s) { vp_assert(s == line, "splits the line read"); words = 0; }
	if (words >= N) return NULL;
	words++;
	return word(words - 1);
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int vp_strcasecmp(const char *a, const char *b) {
	for (;; a++, b++) {
		if (low(*a) != low(*b)) return (unsigned char)low(*a) - (unsigned char)low(*b);
		if (!*a) return 0;
	}
}
static const unsigned want = ((N) < MAXA ? (N) : MAXA) - (SUB);
static enum cli_retval h_ab(int argc, char **argv) {
	called++;
	vp_assert(argc >= 0 && (N <= MAXA ? (unsigned)argc == want : (unsigned)argc >= want && argc <= (N) - (SUB)), "as many arguments as typed, up to the limit");
	for (unsigned i = 0; i < want; i++) vp_assert(argv[i] == word(i + (SUB)), "the words typed, in order");
	vp_assert(argv[argc] == NULL || argv[argc][0] == 0, "end of the arguments");
	return CMD_OK;
}
static void logcmd(int argc, char **argv) { logged++; vp_assert(argc > 0 && argv[argc - 1] != NULL, "words"); }
static void at_exit(void) { }
static const struct cmd_tbl_entry sub[] = { { "ab", "", "", h_ab, 0, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END };
static const struct cmd_tbl_entry root[] = { { "ab", "", "", h_ab, 0, NULL }, { "sub", "", "", NULL, 0, sub }, CLI_TBL_BUILTINS, CLI_TBL_END };
void harness(void) {
	struct cli_callbacks cb = { .cli_logcmd = logcmd, .cli_atexit = at_exit };
	stdin = (FILE *)stdobj;
	w_any[0] = (char)nd_u8();
	vp_assume(w_any[0] != 0 && w_any[0] != ' ' && w_any[0] != '\t');
	cli_set_callbacks(&cb);
	cli_enter("top", NULL, root);
	vp_assert(called == 1 && logged == 1 + (SUB), "the command is run and logged once");
	vp_assert(vp_live == 0, "no memory lost");
	vp_witness("done");
}
