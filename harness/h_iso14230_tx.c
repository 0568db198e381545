/* ISO14230 transmit framing: every key byte pair, address set, payload. */
#include "vp_bus.h"
#include "diag_iso14230.h"
#include "diag_l2_iso14230.h"
#include <string.h>

static int phase;
static uint8_t hs[7];
static unsigned hs_done;
static uint8_t tx[64 + N];
static unsigned txlen, sends;

int vp_on_send(const uint8_t *data, size_t len) {
	sends++;
	if (phase == 1) {
		vp_assert(len <= N + 5, "frame is no longer than payload + 5");
		for (unsigned i = 0; i < len; i++) tx[i] = data[i];
		txlen = len;
	}
	return 0;
}
int vp_on_recv(uint8_t *data, size_t len, unsigned timeout) {
	if (!hs_done) {
		hs_done = 1;
		data[0] = hs[0];        /* key bytes of the 5-baud init */
		data[1] = hs[1];
		return 2;
	}
	return DIAG_ERR_TIMEOUT;
}
int vp_on_ioctl(unsigned cmd, void *data) { return 0; }

void harness(void) {
	struct diag_l2_conn *c;
	struct diag_msg m = {0};
	uint8_t pay[N];
	const uint8_t kb1 = KB | 0x80*0; uint8_t tgt = nd_u8(), src = nd_u8();
	const bool func = FUNC, l1cks = L1CKS;
	const unsigned n = N; unsigned i, off, sum;
	uint8_t mdest = nd_u8(), msrc = nd_u8();

	vp_l0flags = DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT | (l1cks ? DIAG_L1_DOESL2CKSUM : 0);
	hs[0] = kb1; hs[1] = 0x8F;

	diag_l2_init();
	vp_assert(diag_l2_open(&vp_dl0d, DIAG_L1_ISO14230) == 0, "open");
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_ISO14230,
	    DIAG_L2_TYPE_SLOWINIT | (func ? DIAG_L2_TYPE_FUNCADDR : 0), 0, tgt, src);
	vp_assert(c != NULL, "slow init succeeds");
	phase = 1; sends = 0;
	nd_bytes(pay, N);
	m.data = pay; m.len = n; m.dest = mdest; m.src = msrc;
	int rv = diag_l2_send(c, &m);
	bool fmtlen = kb1 & 1, lenbyte = kb1 & 2, shorth = kb1 & 4, longh = kb1 & 8;
	bool hdr = longh || !shorth;
	bool addl;
	if (fmtlen || !lenbyte) addl = n >= 64; else addl = true;
	if (n > 255 || (n >= 64 && !lenbyte)) {
		vp_assert(rv < 0 && sends == 0, "unframeable payload refused, nothing sent");
		vp_witness("refused");
		return;
	}
	vp_assert(rv == 0 && sends == 1, "sent in one go");
	uint8_t fmt = (hdr ? (func ? 0xC0 : 0x80) : 0) | (addl ? 0 : n);
	vp_assert(tx[0] == fmt, "format byte");
	off = 1;
	if (hdr) {
		vp_assert(tx[1] == (mdest ? mdest : tgt), "target address");
		vp_assert(tx[2] == (msrc ? msrc : src), "source address");
		off = 3;
	}
	if (addl) {
		vp_assert(tx[off] == n, "length byte");
		off++;
	}
	for (i = 0; i < n; i++) vp_assert(tx[off + i] == pay[i], "payload intact");
	vp_assert(txlen == off + n + (l1cks ? 0 : 1), "frame length");
	if (!l1cks) {
		sum = 0;
		for (i = 0; i < off + n; i++) sum += tx[i];
		vp_assert(tx[off + n] == (uint8_t)sum, "checksum");
	}
	vp_witness("sent");
}
