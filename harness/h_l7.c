/* Application layer services over any lower layer. Shape: FN service, LEN (LEN2) reply lengths (-1: none, error), CHAIN further replies, BUF caller's buffer, NS name space.
 *  p ping, r read, d trouble codes, c clear, o output control, u run routine (D2); capitals: KWP71 */
#include "vp.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_os.h"
#include "diag_l2.h"
#include "diag_l7.h"
#include "diag_l7_d2.h"
#include "diag_l7_kwp71.h"
#include <string.h>
#ifndef LEN2
#define LEN2 LEN
#endif
#ifndef CHAIN
#define CHAIN 0
#endif
#ifndef BUF
#define BUF 4
#endif
#ifndef NS
#define NS 0
#endif
#define KWP (FN < 'a')
unsigned long diag_os_getms(void) { return 5; }
void diag_os_millisleep(unsigned ms) { (void)ms; }
static unsigned nreq, nrecv;
static int err[2];
static const int lens[2] = { LEN, LEN2 };
static uint8_t rd[2][24], rtype[2];     /* replies */
static uint8_t q[2][8]; static unsigned qn[2]; static uint8_t qtype[2];
static struct diag_l2_conn *conn = (struct diag_l2_conn *)&nreq;
struct diag_msg *diag_l2_request(struct diag_l2_conn *c, struct diag_msg *m, int *e) {
	unsigned k = nreq++;
	vp_assert(c == conn && m->next == NULL && m->src == 0 && m->dest == 0 && m->fmt == 0, "one request with default addresses on the caller's connection");
	vp_assert(k < 2 && m->len <= 8, "requests are short");
	qn[k] = m->len; qtype[k] = m->type;
	for (unsigned i = 0; i < m->len; i++) q[k][i] = m->data[i];
	if (lens[k] < 0) { *e = err[k]; return NULL; }
	struct diag_msg *r = NULL;
	for (int i = 0; i <= CHAIN; i++) {
		struct diag_msg *n = diag_allocmsg(i < CHAIN ? 7 : lens[k]);
		vp_assume(n != NULL);
		for (unsigned b = 0; b < n->len; b++) n->data[b] = i < CHAIN ? 0x55 : rd[k][b];
		n->type = rtype[k];
		n->next = r;
		r = n;
	}
	return r;
}
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) {
	(void)t; (void)h;
	vp_assert(c == conn && cb == NULL, "further trouble codes are thrown away");
	nrecv++;
	return nd_bool() ? 0 : DIAG_ERR_TIMEOUT;
}
static uint8_t out[BUF + 1];
static uint16_t addr; static uint8_t id, reps;
#if LEN >= 0
#define NDATA(h) (LEN - (h))
#endif
static bool pos(unsigned k, unsigned min) {      /* D2: positive reply to request k */
	if (lens[k] < (int)min || lens[k] < 1 || rd[k][0] != (q[k][0] ^ 0x40)) return false;
	return qn[k] < 2 || lens[k] < 2 || rd[k][1] == q[k][1];
}
static void isreq(unsigned k, unsigned n, unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f) {
	unsigned x[6] = { a, b, c, d, e, f };
	bool ok = qn[k] == n;
	for (unsigned i = 0; i < 6; i++) if (i < n) ok &= q[k][i] == x[i];
	vp_assert(ok, "the request is the one documented");
}
static void copied(unsigned from, int rv, int avail) {
	(void)rv;
	for (int i = 0; i < BUF; i++)
		if (i < avail) vp_assert(out[i] == rd[0][from + i], "data returned in order");
		else vp_assert(out[i] == 0xEE, "the rest of the buffer is left alone");
}
static int code(int k) { return err[k]; }
void harness(void) {
	int rv, want;
	unsigned live = vp_live;
	memset(out, 0xEE, sizeof(out));
	nd_bytes(rd[0], 24); nd_bytes(rd[1], 24);
	rtype[0] = nd_u8(); rtype[1] = nd_u8();
	err[0] = -(int)nd_range(1, 300); err[1] = -(int)nd_range(1, 300);
	addr = nd_u32(); id = nd_u8(); reps = nd_u8();
	switch (FN) {
	case 'p':
		rv = diag_l7_d2_ping(conn);
		isreq(0, 1, 0xA1, 0, 0, 0, 0, 0);
		vp_assert(rv == (LEN < 0 ? code(0) : pos(0, 1) ? 0 : DIAG_ERR_ECUSAIDNO), "alive only if the ECU confirms");
		break;
	case 'r': {
		rv = diag_l7_d2_read(conn, NS, addr, BUF, out);
		bool valid = NS == NS_MEMORY || NS == NS_LIVEDATA2 || ((NS == NS_LIVEDATA || NS == NS_NV || NS == NS_FREEZE) && addr < 256);
		if (!valid) { vp_assert(rv < 0 && nreq == 0, "what cannot be addressed is refused"); copied(0, 0, 0); break; }
		unsigned h = addr >> 8, l = addr & 255;
		if (NS == NS_MEMORY) isreq(0, 6, 0xA7, 0, h, l, 1, BUF & 255);
		else if (NS == NS_LIVEDATA) isreq(0, 3, 0xA5, l, 1, 0, 0, 0);
		else if (NS == NS_LIVEDATA2) isreq(0, 4, 0xA6, h, l, 1, 0, 0);
		else if (NS == NS_NV) isreq(0, 2, 0xB9, l, 0, 0, 0, 0);
		else isreq(0, 3, 0xAD, l, 0, 0, 0, 0);
		bool ok = LEN >= 2 && pos(0, 2);
		int n = LEN - 2, from = 2;
		if (NS == NS_MEMORY) { n = BUF; from = 4; ok = ok && LEN == BUF + 4 && rd[0][2] == h && rd[0][3] == l; }
		vp_assert(rv == (LEN < 0 ? code(0) : ok ? n : DIAG_ERR_ECUSAIDNO), "data only from a matching reply");
		copied(from, rv, ok ? n : 0);
		break; }
	case 'd':
		rv = diag_l7_d2_dtclist(conn, BUF, out);
		isreq(0, 2, 0xAE, 1, 0, 0, 0, 0);
		want = LEN - 2;
		vp_assert(rv == (LEN < 0 ? code(0) : pos(0, 2) ? want : DIAG_ERR_ECUSAIDNO), "all trouble codes are counted");
		copied(2, rv, LEN >= 2 && pos(0, 2) ? want : 0);
		break;
	case 'c':
	case 'C': {
		rv = KWP ? diag_l7_kwp71_cleardtc(conn) : diag_l7_d2_cleardtc(conn);
		bool first = KWP ? LEN >= 0 && rtype[0] == 0xFC : LEN >= 2 && pos(0, 2);
		bool none = KWP ? LEN == 0 || (LEN == 1 && rd[0][0] == 0) : LEN == 2;
		if (!first || none) { vp_assert(nreq == 1, "nothing is cleared"); vp_assert(rv == (LEN < 0 ? code(0) : !first ? DIAG_ERR_ECUSAIDNO : 0), "no codes, or unreadable"); break; }
		vp_assert(nreq == 2, "asked to clear");
		if (KWP) vp_assert(qtype[1] == 5 && qn[1] == 0, "clear request"); else isreq(1, 2, 0xAF, 1, 0, 0, 0, 0);
		bool ok = LEN2 >= 0 && (KWP ? rtype[1] == 9 : LEN2 == 2 && pos(1, 2));
		vp_assert(rv == (LEN2 < 0 ? code(1) : ok ? 1 : DIAG_ERR_ECUSAIDNO), "cleared only if confirmed");
		break; }
	case 'o':
		rv = diag_l7_d2_io_control(conn, id, reps);
		if (reps) isreq(0, 4, 0xB0, id, 0x32, reps, 0, 0); else isreq(0, 2, 0xB0, id, 0, 0, 0, 0);
		vp_assert(rv == (LEN < 0 ? code(0) : LEN == 2 && pos(0, 2) ? 0 : DIAG_ERR_ECUSAIDNO), "done only if confirmed");
		break;
	case 'u':
		rv = diag_l7_d2_run_routine(conn, id);
		isreq(0, 2, 0xB2, id, 0, 0, 0, 0);
		vp_assert(rv == (LEN < 0 ? code(0) : LEN == 2 && pos(0, 2) ? 0 : DIAG_ERR_ECUSAIDNO), "done only if confirmed");
		break;
	case 'P':
		rv = diag_l7_kwp71_ping(conn);
		vp_assert(qtype[0] == 9 && qn[0] == 0, "acknowledge block sent");
		vp_assert(rv == (LEN < 0 ? code(0) : rtype[0] == 9 ? 0 : DIAG_ERR_ECUSAIDNO), "alive only if the ECU confirms");
		break;
	case 'R': {
		rv = diag_l7_kwp71_read(conn, NS, addr, BUF, out);
		bool valid = NS == NS_MEMORY || NS == NS_ROM || (NS == NS_ADC && addr < 256);
		if (!valid) { vp_assert(rv < 0 && nreq == 0, "what cannot be addressed is refused"); copied(0, 0, 0); break; }
		unsigned t = NS == NS_MEMORY ? 0xFE : NS == NS_ROM ? 0xFD : 0xFB;
		vp_assert(qtype[0] == (NS == NS_MEMORY ? 1 : NS == NS_ROM ? 3 : 8), "block title");
		if (NS == NS_ADC) vp_assert(qn[0] >= 1 && q[0][0] == addr && (qn[0] < 2 || q[0][1] == 0) && (qn[0] < 3 || q[0][2] == 0), "channel requested");
		else isreq(0, 3, BUF & 255, addr >> 8, addr & 255, 0, 0, 0);
		bool ok = LEN >= 0 && rtype[0] == t && LEN == (NS == NS_ADC ? 2 : BUF);
		int n = LEN < BUF ? LEN : BUF;
		vp_assert(rv == (LEN < 0 ? code(0) : ok ? n : DIAG_ERR_ECUSAIDNO), "data only from a matching reply");
		copied(0, rv, ok ? n : 0);
		break; }
	case 'D': {
		rv = diag_l7_kwp71_dtclist(conn, BUF, out);
		vp_assert(qtype[0] == 7 && qn[0] == 0, "trouble codes requested");
		bool ok = LEN >= 0 && rtype[0] == 0xFC;
		want = LEN == 1 && rd[0][0] == 0 ? 0 : LEN;
		vp_assert(rv == (LEN < 0 ? code(0) : ok ? want : DIAG_ERR_ECUSAIDNO), "all trouble codes are counted");
		copied(0, rv, ok ? want : 0);
		break; }
	}
	vp_assert(vp_live == live, "all replies are freed");
	vp_assert(out[BUF] == 0xEE, "nothing written behind the buffer");
	vp_witness("done");
}
