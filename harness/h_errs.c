#ifndef L1F
#define L1F 0
#endif
#ifndef IOC
#define IOC 0
#endif
/* Error passing at L2 and L3: the protocol layer below returns anything. Shape: P = L3 protocol (0 fake, else the base functions), OP */
#include "vp_bus.h"
#include "diag_l3.h"
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return DIAG_ERR_TIMEOUT; }
static int io_rv; static unsigned ios, iocmd; static void *iodat;
int vp_on_ioctl(unsigned c, void *d) { ios++; iocmd = c; iodat = d; return io_rv; }
static int rv; static unsigned calls; static struct diag_msg a, q; static bool give;
static unsigned tmo; static int hnd;
static void cb(void *h, struct diag_msg *m) { (void)h; (void)m; }
static int p_start(struct diag_l2_conn *c, flag_type f, unsigned b, target_type t, source_type s) { (void)f; (void)b; (void)t; (void)s; c->diag_l2_kb1 = 0x01; c->diag_l2_kb2 = 0x8A; c->diag_l2_physaddr = 0x77; return 0; }
static int p_send(struct diag_l2_conn *c, struct diag_msg *m) { (void)c; vp_assert(m == &q, "the message itself"); calls++; vp_now += 7; return rv; }
static int p_recv(struct diag_l2_conn *c, unsigned t, void (*f)(void *, struct diag_msg *), void *h) {
	(void)c; (void)h; vp_assert(t == tmo && f != NULL, "arguments passed on");
	calls++; vp_now += 7;
	if (rv == 0) f(h, &a);
	return rv;
}
static struct diag_msg *p_req(struct diag_l2_conn *c, struct diag_msg *m, int *e) { (void)c; vp_assert(m == &q, "the message itself"); calls++; vp_now += 7; *e = rv; return give ? &a : NULL; }
static const struct diag_l2_proto pa = { 1, "A", 0x15, p_start, NULL, p_send, p_recv, p_req, NULL };
const struct diag_l2_proto *l2proto_list[] = { &pa, NULL };
extern const struct diag_l3_proto diag_l3_vag, diag_l3_iso14230;
const struct diag_l3_proto *diag_l3_protocols[] = { &diag_l3_iso14230, &diag_l3_vag, NULL };
static unsigned ncb;
static void ucb(void *h, struct diag_msg *m) { vp_assert(h == &hnd && m == &a, "delivered to the caller"); ncb++; }

void harness(void) {
	struct diag_l2_conn *c;
	struct diag_l3_conn *c3;
	struct diag_msg *r;
	int e = 12345, x;
	uint8_t d[4];
	vp_l0flags = L1F;
	diag_l2_init(); diag_l3_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO9141);
	c = diag_l2_StartCommunications(&vp_dl0d, 1, 0, 0, 0x33, 0xF1);
	vp_assert(c != NULL, "started");
	a.data = d; a.len = 4; a.fmt = DIAG_FMT_FRAMED; nd_bytes(d, 4);
	if (OP == 'R') { d[0] = 0x61; d[1] = 2; }   /* the text printed for it is C18's subject */
	q.data = d; q.len = 2;
	rv = nd_int(); tmo = nd_u32();
	vp_assume(rv <= 0 && rv > -1000);
	unsigned long t0 = c->tlast;
	vp_now += nd_u8();
	if (OP == 's') {
		x = diag_l2_send(c, &q);
		vp_assert((x == 0) == (rv == 0) && x <= 0, "a failed send is reported, a good one too");
		vp_assert((c->tlast == t0) || rv == 0, "failed traffic does not restart the idle time");
		if (rv == 0) vp_assert(c->tlast == vp_now, "good traffic does");
	} else if (OP == 'r') {
		x = diag_l2_recv(c, tmo, ucb, &hnd);
		vp_assert((x == 0) == (rv == 0) && x <= 0 && ncb == (rv == 0), "a failed receive is reported, a good one too");
		vp_assert(x == rv, "error code passed");
		vp_assert(c->tlast == (rv == 0 ? vp_now : t0), "only good traffic restarts the idle time");
	} else if (OP == 'q') {
		give = nd_bool();
		vp_assume(give || rv < 0);
		r = diag_l2_request(c, &q, &e);
		vp_assert((r == &a) == give && (r != NULL) == give, "answer passed on");
		if (!give) vp_assert(e == rv, "error code passed");
		vp_assert(c->tlast == (give ? vp_now : t0), "only good traffic restarts the idle time");
	} else if (OP == 'i') {
		uint8_t buf[64];
		io_rv = rv;
		x = diag_l2_ioctl(c, IOC, buf);
		uint32_t f = L1F;
		bool skip = IOC == DIAG_IOCTL_SETSPEED ? (f & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY)) != 0 : IOC == DIAG_IOCTL_IFLUSH ? (f & DIAG_L1_NOTTY) != 0 : IOC == DIAG_IOCTL_SETWM ? !(f & DIAG_L1_DOESKEEPALIVE) : false;
		vp_assert(ios == !skip, "passed to the adapter unless it needs no such setting");
		if (!skip) { vp_assert(iocmd == IOC && iodat == buf, "arguments passed on"); vp_assert((x == 0) == (rv == 0) && x <= 0, "result passed on"); }
		else vp_assert(x == 0, "nothing to do");
	} else {        /* L3 */
		c3 = diag_l3_start(OP == 'v' || OP == 'V' || OP == 'W' ? "VAG" : "iso14230", c);
		vp_assert(c3 != NULL, "L3 started");
		vp_assert(c3->d_l3l2_flags == 0x15 && (c3->d_l3l1_flags & ~DIAG_L1_AUTOSPEED) == ((L1F) & ~DIAG_L1_AUTOSPEED), "capabilities of the layers below");
		t0 = c3->timer;
		c3->d_l3l2_flags |= DIAG_L2_FLAG_FRAMED;
		if (OP == 'S') {
			x = diag_l3_send(c3, &q);
			vp_assert(calls == 1 && (x == 0) == (rv == 0) && x <= 0, "a failed send is reported, a good one too");
			vp_assert(c3->timer == (rv == 0 ? vp_now : t0), "only good traffic restarts the idle time");
		} else if (OP == 'R') {
			x = diag_l3_recv(c3, tmo, ucb, &hnd);
			vp_assert(calls == 1 && (x == 0) == (rv == 0) && x <= 0 && ncb == (rv == 0), "a failed receive is reported, a good one too");
			vp_assert((x == DIAG_ERR_TIMEOUT) == (rv == DIAG_ERR_TIMEOUT), "a timeout is told from other errors");
			vp_assert(c3->timer == (rv == 0 ? vp_now : t0), "only good traffic restarts the idle time");
		} else if (OP == 'U') {
			c3->d_l3l2_flags = 0;
			x = diag_l3_recv(c3, tmo, ucb, &hnd);
			vp_assert(x < 0 && ncb == 0 && calls == 0, "unframed link refused");
		} else {        /* Q, V: request */
			give = nd_bool();
			vp_assume(give || rv < 0);
			r = diag_l3_request(c3, &q, &e);
			vp_assert(calls == 1 && (r != NULL) == give && (!r || r == &a), "answer passed on");
			if (!give) vp_assert(e == rv, "error code passed");
			vp_assert(c3->timer == (give ? vp_now : t0), "only good traffic restarts the idle time");
		}
		diag_l3_stop(c3);
	}
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0 && vp_locked == 0, "everything returned");
	vp_witness("done");
}
