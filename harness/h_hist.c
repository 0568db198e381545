/* Histories over two adapters: open / close / start / stop, everything that can fail may fail.
 * Shape: HIST = histories separated by blanks; an operation is a letter, upper case on the second adapter:
 *  o open with protocol 1, p with 2, q unsupported, c close, s start protocol 1, t start 2, u unknown protocol, x stop, k tick of the keep-alive service
 *  a following '?' lets it fail or succeed (symbolic), '!' makes it fail with any error, '-' makes its first allocation fail.
 *  Error codes, handshake parameters and left-over messages are symbolic throughout. */
#include "vp_bus.h"
#include "diag_l2.h"
static struct diag_l0_device dev[2];
static unsigned nopen[2], nstop, nstart;
static struct diag_l0 drv; static unsigned fl, br; static uint8_t tg, sr;
static unsigned which(const struct diag_l0_device *d) { vp_assert(d == &dev[0] || d == &dev[1], "device handed to the adapter"); return d == &dev[1]; }
static int open_rv, start_rv; static bool leave_msg;
static int d_open(struct diag_l0_device *d, int p) {
	unsigned w = which(d);
	(void)p;
	vp_assert(nopen[w] == 0, "an adapter is not opened twice");
	if (open_rv) return open_rv;
	nopen[w]++; d->opened = 1;
	return 0;
}
static void d_close(struct diag_l0_device *d) { unsigned w = which(d); vp_assert(nopen[w] == 1, "only an open adapter is closed"); nopen[w]--; d->opened = 0; }
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return DIAG_ERR_TIMEOUT; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
static int p_start(struct diag_l2_conn *c, flag_type f, unsigned b, target_type t, source_type s) {
	vp_assert(f == fl && b == br && t == tg && s == sr, "handshake parameters passed on");
	vp_assert(nopen[which(c->diag_link->l2_dl0d)] == 1, "handshake only on an open adapter");
	diag_l2_timer();
	if (leave_msg) { struct diag_msg *m = diag_allocmsg(2); if (m) diag_l2_addmsg(c, m); }
	if (start_rv < 0) return start_rv;
	nstart++;
	return 0;
}
static int p_stop(struct diag_l2_conn *c) { diag_l2_timer(); (void)c; nstop++; return 0; }
static int p_send(struct diag_l2_conn *c, struct diag_msg *m) { (void)c; (void)m; return 0; }
static int p_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { (void)c; (void)t; (void)cb; (void)h; return 0; }
static struct diag_msg *p_req(struct diag_l2_conn *c, struct diag_msg *m, int *e) { (void)c; (void)m; *e = DIAG_ERR_TIMEOUT; return NULL; }
static unsigned ticks;
static void p_timeout(struct diag_l2_conn *c) { (void)c; ticks++; }
static const struct diag_l2_proto pa = { 1, "A", 0, p_start, p_stop, p_send, p_recv, p_req, p_timeout };
static const struct diag_l2_proto pb = { 2, "B", 0, p_start, NULL, p_send, p_recv, p_req, NULL };
const struct diag_l2_proto *l2proto_list[] = { &pa, &pb, NULL };

static int oproto[2], msgs[2], cp[2];
static struct diag_l2_conn *conn[2];
static unsigned expstop, expticks;
static void one(char o, char how) {
	unsigned w = o < 'a';
	int rv;
	bool fail = how == '!' || (how == '?' && nd_bool()), oom = how == '-';
	if (w) o += 'a' - 'A';
	static int nc;
	int code = -(1 + nc++ % 20);   /* concrete, so that the outcome is */
	open_rv = start_rv = fail ? code : 0;
	vp_alloc_n = 0;
	vp_oom_mask = oom;
	switch (o) {
	case 'o': case 'p': case 'q': {
		int pr = o == 'o' ? 1 : o == 'p' ? 2 : 4;
		rv = diag_l2_open(&dev[w], pr);
		if (oproto[w]) vp_assert((rv == 0) == (pr == oproto[w]) && rv <= 0, "reopening succeeds only with the same protocol");
		else {
			vp_assert((rv == 0) == (!fail && pr != 4 && !oom) && rv <= 0, "opening succeeds exactly when the adapter opens");
			if (!fail && pr != 4 && !oom) oproto[w] = pr;
		}
		break; }
	case 'c':
		rv = diag_l2_close(&dev[w]);
		if (conn[w]) vp_assert(rv < 0, "a link in use is not closed");
		else { vp_assert(rv == 0, "closing an unused link"); oproto[w] = 0; }
		break;
	case 's': case 't': case 'u': {
		int pr = o == 's' ? 1 : o == 't' ? 2 : 3;
		fl = nd_u16(); br = nd_u32(); tg = nd_u8(); sr = nd_u8();
		leave_msg = fail || how == 'm';
		vp_assume((fl & DIAG_L2_TYPE_INITMASK) != DIAG_L2_TYPE_MONINIT);
		struct diag_l2_conn *c = diag_l2_StartCommunications(&dev[w], pr, fl, br, tg, sr);
		if (!oproto[w] || conn[w] || pr == 3 || fail || oom) vp_assert(c == NULL, "a start that cannot work or failed yields no connection");
		else {
			vp_assert(c != NULL, "a good handshake yields a connection");
			conn[w] = c; cp[w] = pr;
			vp_assert(c != conn[!w], "connections are distinct");
			vp_assert(c->diag_link->l2_dl0d == &dev[w] && c->l2proto->diag_l2_protocol == pr, "connection of this link and protocol");
			msgs[w] = leave_msg ? 2 : 0;
		}
		break; }
	case 'x':
		if (!conn[w]) break;
		if (cp[w] == 1) expstop++;
		rv = diag_l2_StopCommunications(conn[w]);
		vp_assert(rv == 0, "stopped");
		conn[w] = NULL; msgs[w] = 0;
		break;
	case 'k':
		vp_now += 20000;
		diag_l2_timer();
		expticks += (conn[0] && cp[0] == 1) + (conn[1] && cp[1] == 1);
		if (conn[0]) conn[0]->tlast = vp_now;
		if (conn[1]) conn[1]->tlast = vp_now;
		break;
	}
	vp_assert(vp_locked == 0, "no lock kept");
	vp_assert(nopen[0] == !!oproto[0] && nopen[1] == !!oproto[1], "adapters are open exactly as long as their link");
	vp_assert(nstop == expstop, "the protocol is told of every stop once");
	vp_assert(ticks == expticks, "keep-alives only on open idle connections");
	vp_assert(vp_live == !!oproto[0] + !!oproto[1] + !!conn[0] + !!conn[1] + msgs[0] + msgs[1], "only live links and connections hold memory");
}
void harness(void) {
	const char *h = HIST;
	drv = vp_l0; drv._open = d_open; drv._close = d_close; drv.l1proto_mask = 3;
	dev[0].dl0 = dev[1].dl0 = &drv;
	diag_l2_init();
	for (unsigned k = 0; h[k]; k++) {
		char o = h[k], how = 0;
		if (o != ' ') {
			if (h[k + 1] == '?' || h[k + 1] == '!' || h[k + 1] == '-' || h[k + 1] == 'm') how = h[++k];
			one(o, how);
		}
		if (o == ' ' || !h[k + 1]) {
			for (unsigned w = 0; w < 2; w++) {
				if (conn[w]) one(w ? 'X' : 'x', 0);
				one(w ? 'C' : 'c', 0);
			}
			vp_assert(vp_live == 0 && nopen[0] == 0 && nopen[1] == 0, "everything returned");
		}
	}
	vp_witness("done");
}
