/* RAW protocol. Shape: TXN bytes sent, RXN = adapter read result (bytes, 0 or error), SRV = adapter send result, OP s/r/q (send, recv, request), OOM */
#define RXMAX 1100
#include "l2h.h"
#ifndef SRV
#define SRV 0
#endif
#ifndef OOM
#define OOM 0
#endif
static uint8_t pay[1100], rx[1100];
static unsigned sends, recvs, ncb, timeout, speed;
static bool started;
int vp_on_send(const uint8_t *d, size_t l) {
	if (!started) return 0;
	sends++;
	vp_assert(l == TXN, "the whole message goes out at once");
	for (unsigned i = 0; i < TXN; i++) vp_assert(d[i] == pay[i], "bytes sent untouched");
	return SRV;
}
int vp_on_ioctl(unsigned c, void *d) {
	vp_assert(c == DIAG_IOCTL_SETSPEED, "nothing but the port set-up");
	(void)d;
	return 0;
}
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	recvs++;
	vp_assert(OP == 'q' ? t > 0 : t == timeout, "waits for the given time");
	vp_assert(RXN <= (int)len, "buffer large enough for any message");
	for (int i = 0; i < RXN; i++) d[i] = rx[i];
	return RXN;
}
static int hnd;
static void cb(void *h, struct diag_msg *m) {
	ncb++;
	vp_assert(h == &hnd && m->next == NULL && !(m->fmt & DIAG_FMT_FRAMED), "one unframed message");
	vp_assert(m->len == RXN, "as many bytes as received");
	for (int i = 0; i < RXN; i++) vp_assert(m->data[i] == rx[i], "bytes received untouched");
}
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_msg m = {0}, *r;
	int live, err = 0, rv;
	for (unsigned i = 0; i < TXN; i++) pay[i] = nd_u8();
	for (int i = 0; i < RXN; i++) rx[i] = nd_u8();
	timeout = nd_range(1, 5000);
	vp_l0flags = DIAG_L1_DOESP4WAIT;
	diag_l2_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_RAW);
	live = vp_live;
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_RAW, 0, 9600, 0x33, 0xF1);
	vp_assert(c != NULL, "connected");
	started = true;
	live = vp_live;
	m.data = pay; m.len = TXN;
	vp_alloc_n = 0; vp_oom_mask = OOM;
	if (OP == 's') {
		rv = diag_l2_send(c, &m);
		vp_assert((rv == 0) == (SRV == 0) && rv <= 0 && sends == 1, "success only when the adapter took it");
	} else if (OP == 'r') {
		rv = diag_l2_recv(c, timeout, cb, &hnd);
		vp_assert(ncb == (RXN > 0) && (RXN > 0 ? rv == 0 : rv < 0), "delivered once, or an error");
		vp_assert(sends == 0, "nothing sent");
	} else {
		r = diag_l2_request(c, &m, &err);
		if (r) {
			vp_assert(SRV == 0 && RXN > 0 && !OOM, "an answer only if the request went out and something came back");
			cb(&hnd, r);
			diag_freemsg(r);
			vp_witness("answer");
		} else {
			vp_assert(err < 0, "no answer means an error code");
			vp_assert(SRV || RXN <= 0 || OOM, "answers are not lost");
			vp_witness("no answer");
		}
		vp_assert(sends == 1 && recvs == (SRV == 0), "sent once, read once");
	}
	vp_oom_mask = 0;
	vp_assert(vp_live == live, "nothing leaked");
	started = false;
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "everything returned");
	vp_witness("done");
}
