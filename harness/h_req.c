/* A request over a real L2 protocol whose adapter fails: no answer is always an error.
 * Shape: P protocol number, L1P L1 protocol, L1F adapter flags, SENDS outcome of sending (0 fine, 1 error), EV: what is received: list of {n bytes | 0: nothing | negative: that error} */
#define EVMAX 12
#define RXMAX 64
#include "l2h.h"
#ifndef GOODHDR
#define GOODHDR 0
#endif
#ifndef OOM
#define OOM 0
#endif
static const int ev[] = { EV };
static bool started;
static unsigned sends;
static int s_err;
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; if (!started) return 0; sends++; return SENDS ? s_err : 0; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	vp_assert(t > 0, "waits with a non-zero timeout");
	if (!started) return DIAG_ERR_TIMEOUT;
	return rx_serve(d, len);
}
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_msg m = {0}, *r;
	uint8_t pay[2];
	int e = 12345;
	unsigned i, k;
	bool some = false;
	s_err = -(int)nd_range(1, 30);
	nd_bytes(pay, 2);
	vp_l0flags = DIAG_L1_DOESP4WAIT | DIAG_L1_DOESFULLINIT | (L1F);
	diag_l2_init();
	diag_l2_open(&vp_dl0d, L1P);
	c = diag_l2_StartCommunications(&vp_dl0d, P, DIAG_L2_TYPE_SLOWINIT, 0, 0x33, 0xF1);
	vp_assert(c != NULL, "connected");
	started = true;
	for (i = 0; i < sizeof ev / sizeof ev[0]; i++) {
		for (k = 0; (int)k < ev[i]; k++) {
			uint8_t b = nd_u8();
			if (GOODHDR && k == 0) b = 0x48;
			if (GOODHDR && k == 1) b = 0x6B;
			rx_add(b);
			some = true;
		}
		rx_event(ev[i]);
	}
	m.data = pay; m.len = 2;
	vp_oom_mask = OOM;
	r = diag_l2_request(c, &m, &e);
	vp_oom_mask = 0;
	vp_assert(sends == 1 || (OOM && sends == 0), "the request is sent once");
	if (r == NULL) {
		vp_assert(e < 0, "no answer is reported as an error");
		if (SENDS && sends) vp_assert(e == s_err, "a failure to send is reported as it is");
		vp_witness("no answer");
	} else {
		vp_assert(!SENDS && some, "an answer needs a request sent and something received");
		diag_freemsg(r);
		vp_witness("answer");
	}
	started = false;
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "no leak");
}
