/* Connection set-up for ISO14230 (P14 1) and ISO9141 (P14 0).
 * Shape: TYPE slow/fast, FUNC, L1F, REPLY (list of adapter read results, in order, for the handshake),
 *  FB (fast init: first bytes fixed: format byte, service byte), INITRV, SPEEDRV, DRAIN reads */
#define RXMAX 64
#include "l2h.h"
#include "diag_tty.h"
#include "diag_iso14230.h"
#ifndef INITRV
#define INITRV 0
#endif
#ifndef SPEEDRV
#define SPEEDRV 0
#endif
#ifndef FUNC
#define FUNC 0
#endif
#ifndef DRAIN
#define DRAIN 0
#endif
#ifndef SENDRV
#define SENDRV 0
#endif
#ifndef FIX
#define FIX {-1,0}
#endif
#define FL1(x) (!!((L1F) & DIAG_L1_##x))
static const int reply[] = { REPLY };           /* result of each handshake read: bytes, 0 = silence, <0 error */
#define NR (sizeof(reply) / sizeof(reply[0]))
static const int fix[][2] = { FIX };
static uint8_t tgt, src, hb[32];
static unsigned hn;                             /* handshake bytes delivered */
static unsigned ri, sends, inits, drained;
static bool after;
static uint8_t s0; static unsigned sl;
static uint8_t fr[8];
int vp_on_send(const uint8_t *d, size_t l) {
	sends++;
	if (sends == 1) {
		vp_assert(l <= 8, "short handshake message");
		for (unsigned i = 0; i < l; i++) fr[i] = d[i];
		sl = l;
		return SENDRV;
	}
	return 0;
}
int vp_on_ioctl(unsigned c, void *d) {
	if (c == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		vp_assert(s->speed == 10400 && s->databits == diag_databits_8 && s->parflag == diag_par_n && s->stopbits == diag_stopbits_1, "10400 8N1");
		return SPEEDRV;
	}
	if (c == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *a = d;
		inits++;
		vp_assert(a->type == ((TYPE) == DIAG_L2_TYPE_FASTINIT ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD), "wake-up method");
		vp_assert(a->addr == tgt, "wake-up address");
		if ((TYPE) == DIAG_L2_TYPE_FASTINIT) vp_assert(a->testerid == src && a->physaddr == !FUNC, "wake-up source and addressing");
		return INITRV;
	}
	return 0;
}
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	if (after) return DIAG_ERR_TIMEOUT;
	vp_assert(t > 0, "waits with a non-zero timeout");
	if (ri < NR) {
		int e = reply[ri++];
		if (e <= 0) return e ? e : DIAG_ERR_TIMEOUT;
		if (e > (int)len) { e = len; }
		for (int i = 0; i < e; i++) {
			uint8_t v = nd_u8();
			for (unsigned k = 0; k < sizeof(fix) / sizeof(fix[0]); k++) if (fix[k][0] == (int)hn) v = fix[k][1];
			hb[hn++] = v;
			d[i] = v;
		}
		return e;
	}
	if (drained < DRAIN) {          /* rubbish on the line before it goes idle */
		drained++;
		for (unsigned i = 0; i < 3 && i < len; i++) d[i] = nd_u8();
		return len < 3 ? (int)len : 3;
	}
#ifdef DRAINERR
	return DIAG_ERR_BADIFADAPTER;
#endif
	return DIAG_ERR_TIMEOUT;
}
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_l2_data l2d;
	int live;
	bool ok = false;
#ifdef FULL     /* every byte of the handshake is fixed: the connection is then used and stopped */
	tgt = 0x33; src = 0xF1;
#else
	tgt = nd_u8(); src = nd_u8();
#endif
	vp_l0flags = DIAG_L1_DOESP4WAIT | (L1F);
	diag_l2_init();
	diag_l2_open(&vp_dl0d, P14 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141);
	live = vp_live;
	c = diag_l2_StartCommunications(&vp_dl0d, P14 ? DIAG_L2_PROT_ISO14230 : DIAG_L2_PROT_ISO9141, (TYPE) | (FUNC ? DIAG_L2_TYPE_FUNCADDR : 0), 0, tgt, src);
	after = true;
	uint8_t kb1 = 0, kb2 = 0;
	const bool supported = (TYPE) == DIAG_L2_TYPE_MONINIT || (TYPE) == DIAG_L2_TYPE_SLOWINIT || (P14 && (TYPE) == DIAG_L2_TYPE_FASTINIT);
	if (SPEEDRV < 0) { vp_assert(inits == 0, "nothing sent on a port that cannot be set up"); }
	else if (!supported) vp_assert(inits == 0 && sends == 0, "unsupported wake-up refused");
	else if ((TYPE) == DIAG_L2_TYPE_MONINIT) { ok = true; vp_assert(inits == 0 && sends == 0, "monitoring is silent"); }
	else {
		vp_assert(inits == 1, "one wake-up");
		if (INITRV < 0) ;
		else if (FL1(DOESFULLINIT)) { ok = true; vp_assert(sends == 0, "adapter did the handshake"); }
		else if ((TYPE) == DIAG_L2_TYPE_SLOWINIT) {
			unsigned need = 2;
			int n1 = reply[0];
			bool keys = hn >= 2;
			for (unsigned i = 0; i < NR && i < (P14 ? 1 : 2); i++) if (reply[i] < (P14 ? 2 : 1)) keys = false;
			if (keys && !P14 && !(hb[0] == hb[1] && (hb[0] == 0x08 || hb[0] == 0x94))) keys = false;
			(void)need; (void)n1;
			if (keys) {
				kb1 = P14 ? hb[0] & 0x7f : hb[0]; kb2 = hb[1];
				if (FL1(DOESSLOWINIT)) { ok = true; vp_assert(sends == 0, "adapter echoes the key byte"); }
				else {
					vp_assert(sends == 1 && sl == 1 && fr[0] == (uint8_t)~kb2, "second key byte echoed inverted");
					ok = SENDRV == 0 && hn == 3 && hb[2] == (uint8_t)~tgt;
				}
			} else vp_assert(sends == 0, "no echo without valid key bytes");
		} else {        /* StartCommunication request and response */
			vp_assert(sends == 1 && sl == (FL1(DATAONLY) ? 1 : FL1(DOESL2CKSUM) ? 4 : 5), "one StartCommunication request");
			if (FL1(DATAONLY)) vp_assert(fr[0] == 0x81, "StartCommunication");
			else {
				vp_assert(fr[0] == (FUNC ? 0xC1 : 0x81) && fr[1] == tgt && fr[2] == src && fr[3] == 0x81, "StartCommunication with full header");
				if (!FL1(DOESL2CKSUM)) vp_assert(fr[4] == (uint8_t)(fr[0] + fr[1] + fr[2] + fr[3]), "checksum");
			}
			if (SENDRV == 0 && hn >= 1) {
				/* exactly one frame: format 0x80|n / 0xC0|n, target, source, n bytes, checksum */
				unsigned n = hb[0] & 0x3f, i; uint8_t sum = 0;
				unsigned hl = (hb[0] & 0x80) ? 3 : 1;
				if ((hb[0] & 0xC0) != 0x40 && n && hn == hl + n + !FL1(STRIPSL2CKSUM)) {
					if (!FL1(STRIPSL2CKSUM)) for (i = 0; i < hn - 1; i++) sum += hb[i];
					if (n >= 3 && hb[hl] == 0xC1 && (FL1(STRIPSL2CKSUM) || sum == hb[hn - 1])) {
						ok = true; kb1 = hb[hl + 1]; kb2 = hb[hl + 2];
					}
				}
			}
		}
	}
	vp_assert((c != NULL) == ok, "connected exactly when the handshake was valid");
	if (!c) {
		vp_assert(vp_live == live, "failed set-up leaves nothing behind");
		vp_assert(diag_l2_close(&vp_dl0d) == 0, "link can be closed after a failed set-up");
		vp_witness("refused");
	} else {
		diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &l2d);
		if (!FL1(DOESFULLINIT) && (TYPE) != DIAG_L2_TYPE_MONINIT)
			vp_assert(l2d.kb1 == kb1 && l2d.kb2 == kb2, "key bytes of the ECU are kept");
		if ((TYPE) == DIAG_L2_TYPE_FASTINIT && !FL1(DOESFULLINIT)) vp_assert(l2d.physaddr == ((hb[0] & 0x80) ? hb[2] : 0), "address of the answering ECU is kept");
#ifdef SENDKB   /* the announced key bytes (fixed) govern the next frame */
		struct diag_msg m = {0}; uint8_t p = nd_u8();
		m.data = &p; m.len = 1; sends = 0;
		vp_assert(diag_l2_send(c, &m) == 0 && sends == 1, "sent");
		bool hdr = (SENDKB & 8) || !(SENDKB & 4), addl = !(SENDKB & 1) && (SENDKB & 2);
		unsigned o = hdr ? 3 : 1;
		vp_assert(fr[0] == ((hdr ? (FUNC ? 0xC0 : 0x80) : 0) | (addl ? 0 : 1)), "format byte as announced");
		if (addl) vp_assert(fr[o] == 1, "length byte as announced");
		vp_assert(sl == o + addl + 2 && fr[o + addl] == p, "payload");
#endif
#ifdef FULL
		diag_l2_StopCommunications(c);
		vp_assert(vp_live == live, "nothing left after stopping");
		vp_assert(diag_l2_close(&vp_dl0d) == 0, "closed");
#endif
		vp_witness("connected");
	}
#ifndef FULL
	if (!c)
#endif
	vp_assert(vp_live == 0 && vp_opens == 1 && vp_closes == 1, "everything returned, adapter closed");
}
