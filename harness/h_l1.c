/* L1 send / receive: adapter failures, echoes and capabilities. Shape: FLAGS, P4, N. */
#include "vp_bus.h"
#include <string.h>

static uint8_t out[N + 1], echo[N + 1];
static unsigned nout, nsend, nrecv;
static int sendrv[N + 1], recvrv[N + 1];
static bool failed;             /* the adapter or the bus failed */
static bool recvphase; static int rrv; static unsigned rlen, rtout;
#define HALF (!!((FLAGS) & DIAG_L1_HALFDUPLEX))
#define BLOCKD (!!((FLAGS) & DIAG_L1_BLOCKDUPLEX))
#define WHOLE ((P4 == 0 && !HALF) || ((FLAGS) & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT)) || (P4 == 0 && BLOCKD))

int vp_on_send(const uint8_t *d, size_t l) {
	vp_assert(!failed, "nothing is sent after a failure");
	vp_assert(l >= 1 && nout + l <= N, "adapter is given no more than the message");
	for (unsigned i = 0; i < l; i++) out[nout + i] = d[i];
	nout += l;
	int r = sendrv[nsend++];
	if (r) failed = true;
	return r;
}
int vp_on_recv(uint8_t *d, size_t l, unsigned t) {
	vp_assert(t > 0, "echo and data are awaited");
	if (recvphase) {
		vp_assert(l == rlen && t == rtout, "length and timeout passed down");
		for (unsigned i = 0; i < l; i++) if ((int)i < rrv) d[i] = out[i];
		return rrv;
	}
	vp_assert(HALF || BLOCKD, "echo read only from half duplex adapters");
	int r = recvrv[nrecv];
	vp_assert(nout >= 1 && l <= nout, "echo of what was sent");
	unsigned base = nout - l;
	if (r > (int)l) r = l;
	for (unsigned i = 0; i < l; i++) if ((int)i < r) d[i] = echo[base + i];
	if (r != (int)l) failed = true;
	for (unsigned i = 0; i < l; i++) if (echo[base + i] != out[base + i]) failed = true;
	nrecv++;
	return r;
}
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }

void harness(void) {
	uint8_t data[N + 1];
	int rv; unsigned i;
	vp_l0flags = FLAGS;
	nd_bytes(data, N);
	nd_bytes(echo, N);
	for (i = 0; i < N; i++) {
		sendrv[i] = nd_bool() ? 0 : -(int)nd_range(1, 50);
		recvrv[i] = (int)nd_range(0, N + 2) - 2;
	}
	rv = diag_l1_send(&vp_dl0d, data, N, P4);
	bool echoed = !(HALF || BLOCKD) || (!WHOLE && !HALF) || (WHOLE && !BLOCKD);
	vp_assert(rv <= 0, "status is 0 or an error");
	for (i = 0; i < N; i++) if (i < nout) vp_assert(out[i] == data[i], "bytes handed to the adapter are the message, in order");
	vp_assert((rv == 0) == (!failed && nout == N), "success exactly when everything was sent and echoed correctly");
	if (rv == 0) {
		vp_assert(nsend == (WHOLE ? 1 : N), "sent as one block or byte by byte");
		vp_assert(nrecv == (echoed ? 0 : WHOLE ? 1 : N), "every byte's echo was read back");
		vp_assert(WHOLE || vp_slept >= (unsigned long)N * P4 , "inter-byte gap kept");
		vp_witness("sent");
	}
	else vp_witness("failed");
	/* receive: pass-through, never an empty success */
	recvphase = true;
	nd_bytes(out, N);
	rrv = (int)nd_range(0, N + 3) - 3;
	if (rrv > (int)N) rrv = N;
	rlen = N; rtout = nd_range(1, 5000);
	memset(data, 0, N);
	vp_assert(diag_l1_recv(&vp_dl0d, data, 0, rtout) < 0, "zero-length receive refused");
	rv = diag_l1_recv(&vp_dl0d, data, N, rtout);
	vp_assert(rrv == 0 ? rv == DIAG_ERR_TIMEOUT : rv == rrv, "adapter result passed on, nothing means timeout");
	for (i = 0; i < N; i++) if ((int)i < rv) vp_assert(data[i] == out[i], "received bytes unchanged");
	if (rv > 0) vp_witness("received");
}
