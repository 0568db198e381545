/* Response lines of the simulator with very many elements: the line reads "RP 9", and the word 9 is there N times when it is split.
 * LAST: what the last word is instead. OOM: mask of failing allocations. */
#define vp_strtok line_strtok
#define harness harness_lines
#define INIT 0
#define ABANDON 0
#define TWICE 0
#include "h_sim.c"
#undef vp_strtok
#undef harness
static unsigned left;
static bool rep;
static char nine[] = "9", last[] = LAST;
char *vp_strtok(char *s, const char *d) {
	if (s) {
		rep = starts(s, " 9") || starts(s, "9");
		left = N;
	}
	if (!rep) return line_strtok(s, d);
	if (!left) return NULL;
	left--;
	if (left) return nine;
	return last;
}
void harness(void) {
	struct diag_l0_device *d = calloc(1, sizeof(*d));
	uint8_t r[1] = { 1 }, *b = malloc(BUF);
	int rv;
	unsigned k, want = N < 260 ? N : 260;
	d->dl0 = &diag_l0_sim;
	vp_assert(diag_l0_sim.init() == 0 && diag_l0_sim._new(d) == 0, "made");
	vp_assert(diag_l0_sim._open(d, PROTO) == 0, "open");
	vp_assert(diag_l0_sim._send(d, r, 1) == 0, "sent");
	rv = diag_l0_sim._recv(d, b, BUF, 100);
	vp_assert(rv == (int)(want < BUF ? want : BUF), "as many bytes as the line has elements, up to the limit");
	for (k = 0; k + 1 < want && k < BUF; k++) vp_assert(b[k] == 9, "the bytes of the line");
	if (N <= 260 && N <= BUF) vp_assert(LAST[0] == 'c' ? b[N - 1] == (uint8_t)(9 * (N - 1)) : LAST[0] == 'r' ? b[N - 1] == 1 : b[N - 1] == 9, "the last byte of the line");
	diag_l0_sim._close(d);
	diag_l0_sim._del(d);
	vp_assert(!opened, "closed");
	free(b); free(d);
	vp_assert(vp_live == 0, "no memory lost");
	vp_witness("answer");
}
