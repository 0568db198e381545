/* MB1. Shape: OP i/s/r/q (init, send, recv, request, t = keep-alive), TXN bytes sent, FR = bytes of the ECU frame that arrive,
 * LENB = value of the length byte, EV = read results (sizes of arriving pieces, 0 silence, <0 error), SRV, OOM,
 * for OP i: KB = key byte reads (1 arrived, 0/<0 not), INITRV, SPEEDRV, BAUD */
#define RXMAX 300
#include "l2h.h"
#include "diag_tty.h"
#ifndef SRV
#define SRV 0
#endif
#ifndef OOM
#define OOM 0
#endif
#ifndef INITRV
#define INITRV 0
#endif
#ifndef SPEEDRV
#define SPEEDRV 0
#endif
#ifndef BAUD
#define BAUD 0
#endif
#ifndef KB
#define KB 1, 1
#endif
#ifndef FR
#define FR 0
#define LENB 0
#define EV 0
#endif
#ifndef TXN
#define TXN 2
#endif
static const int kbrd[] = { KB };
static const int ev[] = { EV };
static uint8_t pay[300], fr[300], kb[2];
static uint8_t tgt;
static unsigned sends, ncb, timeout, inits;
static unsigned stage;          /* 0 opening, 1 handshake, 2 in use */
static unsigned ki;
int vp_on_send(const uint8_t *d, size_t l) {
	uint16_t sum = 0;
	sends++;
	vp_assert(stage == 2, "nothing is sent during the handshake");
	if (OP == 't') {
		vp_assert(l == 6 && d[0] == tgt && d[1] == 0x50 && d[2] == 6 && d[3] == 1, "idle message");
		for (unsigned i = 0; i < 4; i++) sum += d[i];
		vp_assert(d[4] == (sum & 0xff) && d[5] == sum >> 8, "checksum");
		return SRV;
	}
	vp_assert(l == TXN + 4, "whole frame");
	vp_assert(d[0] == tgt && d[1] == pay[0] && d[2] == TXN + 4, "address, command, length");
	for (unsigned i = 1; i < TXN; i++) vp_assert(d[2 + i] == pay[i], "payload");
	for (unsigned i = 0; i < TXN + 2; i++) sum += d[i];
	vp_assert(d[TXN + 2] == (sum & 0xff) && d[TXN + 3] == sum >> 8, "16 bit checksum");
	return SRV;
}
int vp_on_ioctl(unsigned c, void *d) {
	if (c == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		vp_assert(s->speed == (BAUD ? BAUD : 9600) && s->databits == diag_databits_8 && s->parflag == diag_par_n && s->stopbits == diag_stopbits_1, "8N1 at the wanted speed");
		return SPEEDRV;
	}
	if (c == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *a = d;
		inits++;
		vp_assert(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == tgt, "5 baud wake-up of the target");
		return INITRV;
	}
	return 0;
}
static bool started;
static unsigned rdcalls;
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	vp_assert(t > 0, "waits with a non-zero timeout");
	if (stage == 1) {
		if (ki < 2) {
			int e = kbrd[ki];
			if (e <= 0) { return e ? e : DIAG_ERR_TIMEOUT; }
			vp_assert(len == 1, "one key byte at a time");
			d[0] = kb[ki++];
			return 1;
		}
		return DIAG_ERR_TIMEOUT;
	}
	rdcalls++;
	return rx_serve(d, len);
}
static int hnd;
static void cb(void *h, struct diag_msg *m) {
	ncb++;
	vp_assert(h == &hnd && m->next == NULL && (m->fmt & DIAG_FMT_FRAMED), "one framed message");
	vp_assert(m->len == LENB - 4, "command and data, without header and checksum");
	vp_assert(m->data[0] == fr[1], "command");
	for (int i = 1; i < LENB - 4; i++) vp_assert(m->data[i] == fr[i + 2], "data");
}
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_msg m = {0}, *r;
	int live, err = 0, rv;
	bool good = false;
	tgt = nd_u8();
	for (unsigned i = 0; i < TXN; i++) pay[i] = nd_u8();
	if (OP == 'i') { kb[0] = nd_u8(); kb[1] = nd_u8(); } else { kb[0] = 0xC2; kb[1] = 0xCD; }
	vp_l0flags = DIAG_L1_DOESP4WAIT;
	diag_l2_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO9141);
	live = vp_live;
	stage = 1;
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, BAUD, tgt, 0xF1);
	if (OP == 'i') {
		bool ok = !SPEEDRV && !INITRV && kbrd[0] == 1 && sizeof(kbrd) / sizeof(kbrd[0]) > 1 && kbrd[sizeof(kbrd) / sizeof(kbrd[0]) > 1] == 1 && kb[0] == 0xC2 && kb[1] == 0xCD;
		vp_assert((c != NULL) == ok, "connected exactly after the right key bytes");
		vp_assert(inits == !SPEEDRV, "one wake-up");
		if (!c) vp_assert(vp_live == live, "failed set-up leaves nothing behind");
		if (c) vp_witness("connected"); else vp_witness("refused");
		return;
	}
	vp_assert(c != NULL, "connected");
	stage = 2;
	live = vp_live;
	for (unsigned i = 0; i < FR; i++) { fr[i] = nd_u8(); if (i == 2) fr[i] = LENB; rx_add(fr[i]); }
	for (unsigned i = 0; i < sizeof(ev) / sizeof(ev[0]); i++) rx_event(ev[i]);
	if (LENB >= 5 && FR >= LENB) {
		uint16_t sum = 0;
		for (int i = 0; i < LENB - 2; i++) sum += fr[i];
		good = fr[LENB - 2] == (sum & 0xff) && fr[LENB - 1] == sum >> 8;
		for (unsigned i = 0, n = 0; n < LENB; i++) { if (i >= sizeof(ev) / sizeof(ev[0]) || ev[i] <= 0) { good = false; break; } n += ev[i]; }
	}
	timeout = nd_range(1, 5000);
	m.data = pay; m.len = TXN;
	vp_alloc_n = 0; vp_oom_mask = OOM;
	if (OP == 's') {
		rv = diag_l2_send(c, &m);
		if (TXN < 1 || TXN > 251) vp_assert(rv < 0 && sends == 0, "what does not fit is refused");
		else vp_assert((rv == 0) == (SRV == 0) && rv <= 0 && sends == 1, "success only when the adapter took it");
	} else if (OP == 'r') {
		rv = diag_l2_recv(c, timeout, cb, &hnd);
		vp_assert((ncb == 1) == (good && !OOM) && ncb <= 1, "delivered exactly when intact");
		vp_assert(ncb ? rv == 0 : rv < 0, "delivered, or an error");
		vp_assert(sends == 0, "nothing sent");
		if (ncb) vp_witness("received");
	} else if (OP == 'q') {
		r = diag_l2_request(c, &m, &err);
		vp_assert((r != NULL) == (good && !OOM && !SRV), "an answer exactly when it is intact");
		if (r) {
			cb(&hnd, r);
			diag_freemsg(r);
			vp_witness("answer");
		} else vp_assert(err < 0, "no answer means an error code");
		vp_assert(sends == 1, "sent once");
	} else {
		c->l2proto->diag_l2_proto_timeout(c);
		vp_assert(sends == 1 && (SRV || rdcalls > 0), "idle message sent, answer consumed");
	}
	vp_oom_mask = 0;
	vp_assert(vp_live == live, "nothing leaked");
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "everything returned");
	vp_witness("done");
}
