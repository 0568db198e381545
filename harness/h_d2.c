/* Volvo D2. Shape: OP i/s/r/q/t/x (init, send, recv, request, keep-alive, stop), TXN bytes sent, DST/SRC set in the message (1/0),
 * RX = list of receptions: byte counts, 0 = silence, <0 error, 100+n: n byte "in progress" reply frame; SRV, OOM;
 * for OP i: L1F, TYPE, INITRV, SPEEDRV, WMRV, KBS = adapter reports key bytes */
#define RXMAX 300
#include "l2h.h"
#include "diag_tty.h"
#ifndef SRV
#define SRV 0
#endif
#ifndef OOM
#define OOM 0
#endif
#ifndef INITRV
#define INITRV 0
#endif
#ifndef SPEEDRV
#define SPEEDRV 0
#endif
#ifndef WMRV
#define WMRV 0
#endif
#ifndef L1F
#define L1F DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESKEEPALIVE
#endif
#ifndef TYPE
#define TYPE DIAG_L2_TYPE_SLOWINIT
#endif
#ifndef RX
#define RX 0
#endif
#ifndef TXN
#define TXN 3
#endif
#ifndef OWNADDR
#define OWNADDR 0
#endif
static const int rxl[] = { RX };
#define NRX (sizeof(rxl) / sizeof(rxl[0]))
static uint8_t pay[100], fr[NRX][80];
static uint8_t tgt, src, mdst, msrc, kb1, kb2;
static unsigned sends, ncb, timeout, inits, wms, ri;
static bool started;
int vp_on_send(const uint8_t *d, size_t l) {
	vp_assert(started, "nothing but the wake-up during set-up");
	sends++;
	if (OP == 't' || OP == 'x') {
		vp_assert(l == 4 && d[0] == 0x82 && d[1] == tgt && d[2] == src && d[3] == (OP == 't' ? 0xA1 : 0xA0), "tester present / stop session");
		return SRV;
	}
	vp_assert(l == TXN + 3, "whole frame");
	vp_assert(d[0] == 0x80 + TXN + 1, "length code");
	vp_assert(d[1] == (mdst ? mdst : tgt) && d[2] == (msrc ? msrc : src), "addresses");
	for (unsigned i = 0; i < TXN; i++) vp_assert(d[3 + i] == pay[i], "payload");
	return SRV;
}
static uint8_t oddpar(uint8_t v) {
	unsigned n = 0;
	for (int i = 0; i < 7; i++) n += (v >> i) & 1;
	return (v & 0x7f) | (n & 1 ? 0 : 0x80);
}
int vp_on_ioctl(unsigned c, void *d) {
	if (c == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		vp_assert(s->speed == 10400 && s->databits == diag_databits_8 && s->parflag == diag_par_n && s->stopbits == diag_stopbits_1, "10400 8N1");
		return SPEEDRV;
	}
	if (c == DIAG_IOCTL_SETWM) {
		struct diag_msg *m = d;
		vp_assert(m->len == 4 && m->data[0] == 0x82 && m->data[1] == tgt && m->data[2] == src && m->data[3] == 0xA1, "keep-alive message for the adapter");
		vp_assert(inits == 0, "set before the wake-up");
		wms++;
		return WMRV;
	}
	if (c == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *a = d;
		inits++;
		vp_assert(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == oddpar(tgt) && a->testerid == src, "5 baud wake-up of the target with odd parity");
		a->kb1 = kb1; a->kb2 = kb2;
		return INITRV;
	}
	return 0;
}
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	vp_assert(started && t > 0, "waits with a non-zero timeout");
	if (ri >= NRX) return DIAG_ERR_TIMEOUT;
	int e = rxl[ri] >= 100 ? rxl[ri] - 100 : rxl[ri];
	if (e <= 0) { ri++; return e ? e : DIAG_ERR_TIMEOUT; }
	vp_assert(e <= (int)len, "room for a whole frame");
	for (int i = 0; i < e; i++) d[i] = fr[ri][i];
	ri++;
	return e;
}
static int hnd;
static unsigned at;             /* reception that must be delivered */
static void cb(void *h, struct diag_msg *m) {
	ncb++;
	vp_assert(h == &hnd && m->next == NULL && (m->fmt & DIAG_FMT_FRAMED), "one framed message");
	vp_assert(m->len == rxl[at] % 100 - 4, "payload without header and checksum");
	vp_assert(m->src == fr[at][2] && m->dest == fr[at][1], "addresses");
	for (int i = 0; i < rxl[at] % 100 - 4; i++) vp_assert(m->data[i] == fr[at][3 + i], "payload");
}
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_l2_data l2d;
	struct diag_msg m = {0}, *r;
	int live, err = 0, rv;
	tgt = nd_u8(); src = nd_u8();
	if (OWNADDR) { mdst = nd_u8(); msrc = nd_u8(); }
	if (OP == 'i') { kb1 = nd_u8(); kb2 = nd_u8(); } else { kb1 = 0xD3; kb2 = 0xB0; }
	for (unsigned i = 0; i < TXN; i++) pay[i] = nd_u8();
#ifdef REQ0
	pay[0] = REQ0;
#endif
	vp_l0flags = DIAG_L1_DOESP4WAIT | (L1F);
	diag_l2_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO9141);
	live = vp_live;
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_D2, TYPE, 0, tgt, src);
	started = true;
	if (OP == 'i') {
		bool sup = ((L1F) & DIAG_L1_DOESFULLINIT) && ((L1F) & DIAG_L1_DOESL2CKSUM) && (TYPE) == DIAG_L2_TYPE_SLOWINIT;
		bool ok = sup && !SPEEDRV && !INITRV && !WMRV && ((kb1 == 0xD3 && kb2 == 0xB0) || (kb1 == 0 && kb2 == 0));
		vp_assert((c != NULL) == ok, "connected exactly after a valid wake-up");
		vp_assert(inits == (sup && !SPEEDRV && !WMRV), "one wake-up");
		if (!c) { vp_assert(vp_live == live, "failed set-up leaves nothing behind"); vp_witness("refused"); }
		else {
			diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &l2d);
			vp_assert(l2d.kb1 == 0xD3 && l2d.kb2 == 0xB0, "key bytes kept");
			vp_assert(wms == 1, "adapter told to keep the session alive");
			vp_witness("connected");
		}
		return;
	}
	vp_assert(c != NULL, "connected");
	bool final = false, oom = false;
	for (unsigned k = 0; k < NRX; k++) {
		int n = rxl[k] % 100;
		for (int i = 0; i < n; i++) fr[k][i] = nd_u8();
		if (rxl[k] >= 100) { fr[k][3] = 0x7e; fr[k][4] = pay[0]; fr[k][5] = 0x23; }
		else if (rxl[k] == 7) {         /* a 3 byte answer: never mistaken for "in progress" in this shape */
#ifdef REQ0
			fr[k][3] = 0x7e; fr[k][4] = REQ0 + 1; fr[k][5] = 0x23;
#else
			fr[k][3] = 0x41;
#endif
		}
		if (!final && rxl[k] < 100) { final = true; at = k; }
	}
	bool good = final && rxl[at] >= 5;
	live = vp_live;
	timeout = nd_range(1, 5000);
	m.data = pay; m.len = TXN; m.dest = mdst; m.src = msrc;
	vp_alloc_n = 0; vp_oom_mask = OOM;
	if (OP == 's') {
		rv = diag_l2_send(c, &m);
		if (TXN < 1 || TXN > 62) vp_assert(rv < 0 && sends == 0, "what does not fit is refused");
		else vp_assert((rv == 0) == (SRV == 0) && rv <= 0 && sends == 1, "success only when the adapter took it");
	} else if (OP == 'r') {
		rv = diag_l2_recv(c, timeout, cb, &hnd);
		vp_assert(ncb == (good && !OOM), "delivered when whole");
		vp_assert(ncb ? rv == 0 : rv < 0, "delivered, or an error");
		vp_assert(sends == 0, "nothing sent");
		if (ncb) vp_witness("received");
	} else if (OP == 'q') {
		r = diag_l2_request(c, &m, &err);
		vp_assert((r != NULL) == (good && !OOM && !SRV), "the first final answer is returned");
		if (r) {
			vp_assert(err == 0, "no error with an answer");
			cb(&hnd, r);
			diag_freemsg(r);
			vp_witness("answer");
		} else vp_assert(err < 0, "no answer means an error code");
		vp_assert(sends == 1 && ri == (SRV ? 0 : at + 1), "sent once, nothing read beyond the answer");
	} else if (OP == 't') {
		c->l2proto->diag_l2_proto_timeout(c);
		vp_assert(sends == 1, "tester present sent");
	}
	vp_oom_mask = 0;
	vp_assert(vp_live == live, "nothing leaked");
	if (OP != 'x') started = true;
#ifdef STOPIT
	sends = 0;
	diag_l2_StopCommunications(c);
	vp_assert(sends == 1, "session stopped");
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "everything returned");
#endif
	vp_witness("done");
}
