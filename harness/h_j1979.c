/* SAE J1979 over a scripted L2 protocol. Shape: OP
 *  u  unframed stream: RESP = service, parameter pairs making up the stream; EVS = arriving pieces (>0 bytes, 0 silence, <0 error); TAIL extra bytes of an incomplete last response
 *  f  framed: LENS lengths of the messages of one receive; RRV result of the lower layer
 *  t  keep-alive timer, s start, w send */
#include "vp_bus.h"
#include "diag_l3.h"
#include <string.h>
#ifndef L2F
#define L2F 0
#endif
#ifndef RESP
#define RESP 0x41, 0
#endif
#ifndef EVS
#define EVS 0
#endif
#ifndef LENS
#define LENS 1
#endif
#ifndef TAIL
#define TAIL 0
#endif
#ifndef RRV
#define RRV 0
#endif
#ifndef BYTES
#define BYTES 80
#endif
#ifndef DROP
#define DROP 0       /* more bytes than can be taken at once, before the stream */
#endif
#ifndef KA
#define KA 0
#endif
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return DIAG_ERR_TIMEOUT; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
static const uint8_t resp[] = { RESP };
static const int evs[] = { EVS };
static const int lens[] = { LENS };
#define NR (sizeof(resp) / 2)
#define NE (sizeof(evs) / sizeof(*evs))
#define NL (sizeof(lens) / sizeof(*lens))
static uint8_t st[BYTES];
static unsigned sn, sp, evi, l2calls, tmo;
static int ka = KA;                     /* keep-alive answer: 0 positive, 1 wrong service, 2 empty, <0 error */
static unsigned kan, sendn; static uint8_t kasrc, ka1;
static struct diag_msg fm[NL]; static uint8_t fd[NL][16];
static int hnd;
static unsigned got; static bool bad;
static unsigned want_src;

/* SAE J1979 lengths of requests and responses; 0: not defined by it */
static unsigned j_len(uint8_t s, uint8_t p) {
	switch (s) {
	case 1: case 6: case 9: return 2;
	case 2: case 5: return 3;
	case 3: case 4: case 7: return 1;
	case 8: return 7;
	case 0x43: case 0x46: case 0x47: case 0x48: return 7;
	case 0x44: return 1;
	case 0x45: return p % 32 == 0 ? 7 : p <= 4 ? 4 : 6;
	case 0x49: return p % 32 == 0 || p % 2 == 0 ? 7 : 3;
	case 0x41: case 0x42: {
		unsigned f = s == 0x42, l;
		if (p % 32 == 0) l = 4;
		else if (p == 1) l = f ? 0 : 4;
		else if (p == 2) l = f ? 2 : 0;
		else if (p == 3 || p == 0x0C || p == 0x10 || (p >= 0x14 && p <= 0x1B) || p == 0x1F) l = 2;
		else if ((p >= 4 && p <= 0x13) || (p >= 0x1C && p <= 0x1E) || (p >= 0x55 && p <= 0x58)) l = 1;
		else l = 0;
		return l ? 2 + f + l : 0;
	}
	default: return 0;
	}
}
static int p_start(struct diag_l2_conn *c, flag_type f, unsigned b, target_type t, source_type s) { (void)f; (void)b; (void)t; (void)s; c->diag_l2_kb1 = 1; return 0; }
static struct diag_msg *wmsg;
static int srv;
static int p_send(struct diag_l2_conn *c, struct diag_msg *m) { (void)c; vp_assert(m == wmsg, "the message itself is sent"); sendn++; vp_assert(m->src == want_src, "source address of a request"); return srv; }
static int p_recv(struct diag_l2_conn *c, unsigned t, void (*f)(void *, struct diag_msg *), void *h) {
	(void)c;
	l2calls++;
	if (OP == 'f') {
		vp_assert(t == tmo, "waits as long as told");
		if (RRV == 0) for (unsigned i = 0; i < NL; i++) f(h, &fm[i]);
		return RRV;
	}
	if (evi >= NE) return DIAG_ERR_TIMEOUT;
	int e = evs[evi++];
	if (e <= 0) return e == 0 ? DIAG_ERR_TIMEOUT : e;
	struct diag_msg m = {0};
	m.data = st + sp; m.len = e; m.src = nd_u8(); m.rxtime = vp_now;
	sp += e;
	f(h, &m);
	return 0;
}
static struct diag_msg *p_req(struct diag_l2_conn *c, struct diag_msg *m, int *e) {
	(void)c;
	kan++;
	vp_assert(m->len == 2 && m->data[0] == 1 && m->data[1] == 0, "the keep-alive request is service 1 PID 0");
	kasrc = m->src;
	*e = 0;
	if (ka < 0) { *e = ka; return NULL; }
	struct diag_msg *r = diag_allocmsg(ka == 2 ? 0 : 6);
	if (r == NULL) { *e = DIAG_ERR_NOMEM; return NULL; }
	if (ka != 2) { r->data[0] = ka == 0 ? 0x41 : ka1; r->data[1] = 0; }
	return r;
}
static const struct diag_l2_proto pa = { 1, "A", L2F, p_start, NULL, p_send, p_recv, p_req, NULL };
const struct diag_l2_proto *l2proto_list[] = { &pa, NULL };
extern const struct diag_l3_proto diag_l3_j1979;
const struct diag_l3_proto *diag_l3_protocols[] = { &diag_l3_j1979, NULL };

static void ucb(void *h, struct diag_msg *m) {
	vp_assert(h == &hnd, "delivered to the caller");
	if (OP == 'f') {
		vp_assert(m == &fm[got], "framed messages are passed one to one, in order");
	} else if (OP == 'u') {
		unsigned o = DROP;
		vp_assert(got < NR, "no more messages than complete responses");
		for (unsigned i = 0; i < NR; i++) if (i < got) o += j_len(resp[2 * i], resp[2 * i + 1]);
		vp_assert(m->next == NULL, "one message at a time");
		unsigned l = j_len(resp[2 * got], resp[2 * got + 1]);
		if (l) {
			vp_assert(m->len == l, "a response has the length of its service");
			for (unsigned k = 0; k < l; k++) vp_assert(m->data[k] == st[o + k], "with its own bytes");
		} else {
			vp_assert(m->len == 0, "an unknown message is reported as such");
			bad = true;
		}
	}
	got++;
}
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_l3_conn *c3;
	diag_l2_init(); diag_l3_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO9141);
	c = diag_l2_StartCommunications(&vp_dl0d, 1, 0, 0, 0x33, 0xF1);
	vp_assert(c != NULL, "started");
	unsigned live = vp_live;
	ka1 = nd_u8();
	vp_assume(ka1 != 0x41);
	vp_now += nd_u8();
	c3 = diag_l3_start("SAEJ1979", c);
	if (OP == 's') {
		vp_assert(kan == 1 && kasrc == 0xF1, "a connection is tried with one keep-alive request");
		vp_assert((c3 != NULL) == (KA == 0), "connected only if the ECU answers it");
		if (c3) vp_assert(c3->timer == vp_now, "idle time starts now");
		else { vp_assert(vp_live == live, "a failed start leaves nothing behind"); vp_witness("done"); return; }
	}
	vp_assert(c3 != NULL, "started");
	if (OP == 'u') {
		sn = DROP;
		for (unsigned i = 0; i < NR; i++) {
			unsigned l = j_len(resp[2 * i], resp[2 * i + 1]);
			if (!l) l = 2;
			for (unsigned k = 0; k < l; k++) st[sn++] = k == 0 ? resp[2 * i] : k == 1 ? resp[2 * i + 1] : nd_u8();
		}
		if (TAIL) { st[sn++] = 0x48; for (unsigned k = 1; k < TAIL; k++) st[sn++] = nd_u8(); }
		unsigned total = NE + NR + 2;
		for (unsigned i = 0; i < total; i++) {
			unsigned g0 = got, e0 = evi;
			int rv = diag_l3_recv(c3, 200, ucb, &hnd);
			vp_assert(rv <= 0, "status");
			vp_assert((got != g0) == (rv == 0), "success exactly when something is delivered");
			for (unsigned k = e0; k < evi; k++) if (evs[k] < 0) vp_assert(rv == evs[k], "an error is passed on");
		}
		vp_assert(bad || got == NR, "every complete response is delivered");
	} else if (OP == 'f') {
		for (unsigned i = 0; i < NL; i++) { fm[i].data = fd[i]; fm[i].len = lens[i]; fm[i].fmt = DIAG_FMT_FRAMED; nd_bytes(fd[i], 16); fm[i].src = nd_u8(); }
		tmo = nd_u32();
		unsigned l0 = vp_live;
		int rv = diag_l3_recv(c3, tmo, ucb, &hnd);
		vp_assert((rv == 0) == (RRV == 0) && (RRV == 0 || rv == RRV), "status passed on");
		vp_assert(l2calls == 1 && got == (RRV == 0 ? NL : 0) && vp_live == l0, "everything delivered, nothing kept");
	} else if (OP == 't') {
		extern int diag_l1_debug, diag_l2_debug;
		unsigned long ms = nd_u64();
		int d2 = diag_l2_debug = nd_u8() & 0, d1 = diag_l1_debug;
		unsigned long t0 = c3->timer;
		unsigned k0 = kan;
		ka = nd_bool() ? 0 : -3;
		vp_now += 77;
		int rv = diag_l3_j1979.diag_l3_proto_timer(c3, ms);
		bool due = ms >= 3500 && !((L2F) & DIAG_L2_FLAG_KEEPALIVE);
		vp_assert(kan == k0 + due, "kept alive when due and not done below");
		vp_assert((rv < 0) == (due && ka < 0) && rv <= 0, "a failed keep-alive is reported");
		vp_assert(c3->timer == (due && ka == 0 ? vp_now : t0), "an answered keep-alive restarts the idle time");
		vp_assert(d2 == diag_l2_debug && d1 == diag_l1_debug, "debug settings kept");
	} else if (OP == 'w') {
		uint8_t d[2] = { 1, nd_u8() };
		struct diag_msg m = {0}, m2 = {0};
		m.data = m2.data = d; m.len = m2.len = 2;
		uint8_t s1 = m.src = nd_u8(), s2 = m2.src = nd_u8();
		srv = nd_bool() ? 0 : -5;
		wmsg = &m; want_src = s1 ? s1 : 0xF1;
		int rv = diag_l3_send(c3, &m);
		vp_assert(sendn == 1 && (rv == 0) == (srv == 0) && m.data == d && m.len == 2, "sent once, unchanged");
		wmsg = &m2; want_src = s2 ? s2 : 0xF1;
		diag_l3_send(c3, &m2);
		ka = 0; kan = 0;
		diag_l3_j1979.diag_l3_proto_timer(c3, 3500);
		vp_assert(kan == 1 && kasrc == (s1 ? s1 : 0xF1), "the keep-alive comes from the tester that sent first");
	}
	vp_assert(diag_l3_stop(c3) == 0, "stopped");
	vp_assert(vp_live == live, "stopping returns all memory");
	vp_witness("done");
}
