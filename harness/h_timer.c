/* Keep-alive service of L2 and L3 over fake protocols. All times are symbolic 64 bit clock values (wrap-around included).
 * Shape: EV = events: t tick, s/r/q send/receive/request that succeeds or fails (symbolic), T tick while the connection is set up / torn down happens inside start and stop always
 *  TYPE = start type, L1F adapter flags, NOHND = protocol without keep-alive handler, HS = the handler itself sends (symbolic outcome) */
#include "vp_bus.h"
#include "diag_l3.h"
#ifndef TYPE
#define TYPE DIAG_L2_TYPE_SLOWINIT
#endif
#ifndef L1F
#define L1F 0
#endif
static unsigned long now;
unsigned long diag_os_getms(void) { return now; }
void diag_os_millisleep(unsigned ms) { now += ms; }
unsigned long long diag_os_gethrt(void) { return 0; }
unsigned long long diag_os_hrtus(unsigned long long d) { return d; }
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return DIAG_ERR_TIMEOUT; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
static unsigned beats, beats3; static unsigned long lastms;
static struct diag_l2_conn *conn;
static int rv_next; static unsigned long dur;
static struct diag_msg hm, *answer;
static bool now_fixed;
static int p_start(struct diag_l2_conn *c, flag_type f, unsigned b, target_type t, source_type s) {
	(void)f; (void)b; (void)t; (void)s;
	c->tinterval = nd_u32();
	if (now_fixed) return 0;
	now += nd_u32();
	diag_l2_timer(); diag_l3_timer();
	return 0;
}
static int p_stop(struct diag_l2_conn *c) { (void)c; now += nd_u32(); diag_l2_timer(); diag_l3_timer(); return 0; }
static int p_send(struct diag_l2_conn *c, struct diag_msg *m) { (void)c; (void)m; now += dur; return rv_next; }
static int p_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { (void)c; (void)t; (void)cb; (void)h; now += dur; return rv_next; }
static struct diag_msg *p_req(struct diag_l2_conn *c, struct diag_msg *m, int *e) { (void)c; (void)m; now += dur; *e = rv_next; return rv_next ? NULL : answer; }
static void p_timeout(struct diag_l2_conn *c) {
	vp_assert(c == conn, "keep-alive on the idle connection");
	beats++;
#ifdef HS
	dur = nd_u32(); rv_next = nd_bool() ? -3 : 0;
	(void)diag_l2_send(c, &hm);
#endif
}
static const struct diag_l2_proto pa = { 1, "A", 0, p_start, p_stop, p_send, p_recv, p_req,
#ifdef NOHND
	NULL
#else
	p_timeout
#endif
};
const struct diag_l2_proto *l2proto_list[] = { &pa, NULL };
static int l3_send(struct diag_l3_conn *c, struct diag_msg *m) { (void)c; (void)m; now += dur; return rv_next; }
static int l3_recv(struct diag_l3_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { (void)c; (void)t; (void)cb; (void)h; now += dur; return rv_next; }
static struct diag_msg *l3_req(struct diag_l3_conn *c, struct diag_msg *m, int *e) { (void)c; (void)m; now += dur; *e = rv_next; return rv_next ? NULL : answer; }
static int l3_timer(struct diag_l3_conn *c, unsigned long ms) { (void)c; beats3++; lastms = ms; return 0; }
static int l3_start(struct diag_l3_conn *c) { (void)c; now += nd_u32(); diag_l3_timer(); return 0; }
static int l3_stop(struct diag_l3_conn *c) { (void)c; diag_l3_timer(); return 0; }
static const struct diag_l3_proto p3 = { "FAKE", l3_start, l3_stop, l3_send, l3_recv, NULL, l3_req, NULL, l3_timer };
const struct diag_l3_proto *diag_l3_protocols[] = { &p3, NULL };

/* TWO: another connection is opened over a second adapter, before (1) or after (2) the first; it only monitors and is never kept alive */
#ifndef TWO
#define TWO 0
#endif
static struct diag_l0_device dl2;
static struct diag_l2_conn *other;
static void second(void) {
	dl2 = vp_dl0d;
	vp_assert(diag_l2_open(&dl2, DIAG_L1_ISO9141) == 0, "open");
	other = diag_l2_StartCommunications(&dl2, 1, DIAG_L2_TYPE_MONINIT, 0, 0x33, 0xF1);
	vp_assert(other != NULL, "second connection");
}

void harness(void) {
	const char *ev = EV;
	struct diag_l3_conn *c3;
	unsigned long last, last3;
	int e;
	vp_l0flags = L1F;
	now = nd_u64();
	answer = &hm;
	diag_l2_init(); diag_l3_init();
	if (TWO == 1) second();
	vp_assert(diag_l2_open(&vp_dl0d, DIAG_L1_ISO9141) == 0, "open");
	conn = diag_l2_StartCommunications(&vp_dl0d, 1, TYPE, 0, 0x33, 0xF1);
	vp_assert(conn != NULL && beats == 0, "a connection being set up is not disturbed");
	last = now;
	if (TWO == 2) { now_fixed = true; second(); now_fixed = false; }
	c3 = diag_l3_start("fake", conn);
	vp_assert(c3 != NULL && beats3 == 0, "a connection being set up is not disturbed");
	last3 = now;
	bool alive = !(L1F & DIAG_L1_DOESKEEPALIVE);
	for (unsigned k = 0; ev[k]; k++) {
		now += nd_u64();
		dur = nd_u32();
		rv_next = nd_bool() ? -(int)nd_range(1, 30) : 0;
		unsigned b = beats, b3 = beats3;
		switch (ev[k]) {
		case 't': {
			bool due = alive && (TYPE & DIAG_L2_TYPE_INITMASK) != DIAG_L2_TYPE_MONINIT && now - last > conn->tinterval;
			unsigned long t0 = now;
			diag_l3_timer();
			vp_assert(beats3 == b3 + alive, "L3 keep-alive consulted");
			if (alive) vp_assert(lastms == t0 - last3, "idle time of the connection");
			diag_l2_timer();
#ifdef NOHND
			due = false;
#endif
			vp_assert(beats == b + due, "keep-alive exactly when the idle time exceeds the interval");
#ifdef HS
			if (due && rv_next == 0) last = now;
#endif
			break; }
		case 's': e = diag_l2_send(conn, &hm); vp_assert((e == 0) == (rv_next == 0), "send result"); if (!e) last = now; break;
		case 'r': e = diag_l2_recv(conn, 10, NULL, NULL); vp_assert((e == 0) == (rv_next == 0), "receive result"); if (!e) last = now; break;
		case 'q': { struct diag_msg *r = diag_l2_request(conn, &hm, &e); vp_assert((r == &hm) == (rv_next == 0), "request result"); if (r) last = now; break; }
		case 'S': e = diag_l3_send(c3, &hm); if (!e) last3 = now; break;
		case 'R': e = diag_l3_recv(c3, 10, NULL, NULL); if (!e) last3 = now; break;
		case 'Q': { struct diag_msg *r = diag_l3_request(c3, &hm, &e); if (r) last3 = now; break; }
		}
		if (ev[k] != 't') vp_assert(beats == b && beats3 == b3, "traffic does not trigger keep-alives");
		vp_assert(vp_locked == 0, "no lock kept");
	}
	unsigned b = beats, b3 = beats3;
	diag_l3_stop(c3);
	diag_l2_StopCommunications(conn);
	now += nd_u64();
	diag_l2_timer(); diag_l3_timer();
	vp_assert(beats == b && beats3 == b3, "a connection being closed or closed is left alone");
	diag_l2_close(&vp_dl0d);
	if (TWO) { diag_l2_StopCommunications(other); diag_l2_close(&dl2); }
	vp_assert(vp_live == 0, "everything returned");
	vp_witness("done");
}
