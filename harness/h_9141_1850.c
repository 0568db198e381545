/* ISO9141 / J1850 transmit and receive.
 * Shape: PROTO9141 0/1, L1F flags, mode TXN (payload length to send, -1: none), BURSTS (bytes per burst), SPLIT,
 * GOODHDR (ISO9141: header bytes fixed to 48 6B), ERRAT (adapter error after the bursts) */
#define RXMAX 600
#define EVMAX 64
#include "l2h.h"
#ifndef H0
#define H0 0x48
#define H1 0x6B
#endif
#ifndef ERRAT
#define ERRAT 0
#endif
#ifndef SPLIT
#define SPLIT 0
#endif
#ifndef PWM
#define PWM 0
#endif
#ifndef TXN
#define TXN -1
#endif
#define FL1(x) (!!((L1F) & DIAG_L1_##x))
#define FRAMED_L1 FL1(DOESL2FRAME)
#define STRIP FL1(STRIPSL2CKSUM)
#define HDRS (!FL1(NOHDRS))
static const int burst[] = { BURSTS };
#define NB (sizeof(burst) / sizeof(burst[0]))
static bool started;
static unsigned sends, calls;
static uint8_t pay[(TXN > 0 ? TXN : 0) + 1], tgt, src;

#if !PROTO9141
uint8_t dl2p_j1850_crc(uint8_t *msg_buf, int nbytes);   /* decided against the SAE definition by h_crc1850.c */
#define crc8(p, n) dl2p_j1850_crc((uint8_t *)(p), n)
#endif
int vp_on_send(const uint8_t *d, size_t l) {
	unsigned i, o = 0;
	if (!started) return 0;
	sends++;
	if (!FL1(DATAONLY)) {
		o = 3;
#if PROTO9141
		vp_assert(d[0] == 0x68 && d[1] == 0x6A && d[2] == src, "header");
#else
		vp_assert(d[0] == (PWM ? 0x61 : 0x68) && d[1] == tgt && d[2] == src, "header");
#endif
	}
	vp_assert(l == o + (TXN) + ((FL1(DATAONLY) || FL1(DOESL2CKSUM)) ? 0 : 1), "frame length");
	for (i = 0; i < (unsigned)(TXN); i++) vp_assert(d[o + i] == pay[i], "payload intact");
	if (!FL1(DATAONLY) && !FL1(DOESL2CKSUM)) {
#if PROTO9141
		uint8_t s = 0;
		for (i = 0; i < l - 1; i++) s += d[i];
		vp_assert(d[l - 1] == s, "checksum");
#else
		vp_assert(d[l - 1] == crc8(d, l - 1), "CRC");
#endif
	}
	return 0;
}
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	vp_assert(t > 0, "waits with a non-zero timeout");
	if (!started) return DIAG_ERR_TIMEOUT;
	return rx_serve(d, len);
}
#define MAXF 16
static unsigned nf;
static struct { unsigned off, len; uint8_t src, dst; bool bad; } e[MAXF];
static bool e_err, lax;
static void exp_frame(unsigned s, unsigned n) {
	unsigned hl = HDRS ? 3 : 0, cl = STRIP ? 0 : 1;
	if (PROTO9141) {
		if (HDRS) {
			if (n < 2 || rx_b[s] != 0x48 || rx_b[s + 1] != 0x6B) { e_err = true; return; }
			if (n <= 4) { if (n == 4 && STRIP) lax = true; else e_err = true; return; }
		} else {
			if (!FRAMED_L1) { e_err = true; return; }
			if (n <= cl) { lax = true; return; }
		}
	}
	e[nf].off = s + hl;
	e[nf].len = n - hl - cl;
	e[nf].src = HDRS ? rx_b[s + 2] : 0;
	e[nf].dst = HDRS ? (PROTO9141 ? 0xF1 : rx_b[s + 1]) : 0;
	if (cl) {
#if PROTO9141
		uint8_t sum = 0;
		for (unsigned i = 0; i < n - 1; i++) sum += rx_b[s + i];
#else
		uint8_t sum = crc8(&rx_b[s], n - 1);
#endif
		e[nf].bad = sum != rx_b[s + n - 1];
	}
	nf++;
}
static void check(struct diag_msg *m) {
	unsigned f, i;
	if (lax) {
		for (; m; m = m->next) {
			vp_assert(m->len <= rx_n, "no longer than what was received");
			for (i = 0; i < m->len; i++) (void)*(volatile uint8_t *)&m->data[i];
		}
		return;
	}
	vp_assert(!e_err, "nothing is delivered when a frame is malformed");
	for (f = 0; f < nf; f++, m = m->next) {
		vp_assert(m != NULL, "one message per frame");
		vp_assert(m->len == e[f].len, "payload length");
		for (i = 0; i < e[f].len; i++) vp_assert(m->data[i] == rx_b[e[f].off + i], "payload bytes in order");
		vp_assert(m->src == e[f].src && m->dest == e[f].dst, "addresses of the frame");
		vp_assert(!!(m->fmt & DIAG_FMT_BADCS) == e[f].bad, "wrong checksum flagged, right one not");
	}
	vp_assert(m == NULL, "no extra message");
}
static void cb(void *h, struct diag_msg *m) {
	vp_assert(h == &calls, "callback gets the caller's handle");
	calls++;
	vp_assert(m != NULL, "callback gets a message");
	check(m);
}
static void feed(void) {
	unsigned g, i, acc = 0, accs = 0;
	(void)acc; (void)accs;
	for (g = 0; g < NB; g++) {
		unsigned s = rx_n, n = burst[g];
		for (i = 0; i < n; i++) {
			uint8_t b = nd_u8();
#if PROTO9141 && GOODHDR
			unsigned k = FRAMED_L1 ? i : i % 11;
			if (HDRS && k == 0) b = H0;
			if (HDRS && k == 1) b = H1;
#endif
			rx_add(b);
		}
		if (PROTO9141) {
			if (FRAMED_L1) exp_frame(s, n);
			else for (i = 0; i < n && !e_err; i += 11) exp_frame(s + i, n - i < 11 ? n - i : 11);
			if (SPLIT && n > SPLIT) { rx_event(SPLIT); n -= SPLIT; }
			rx_event(n);
			if (!FRAMED_L1 && burst[g] % 11) rx_event(0);  /* a full frame needs no gap to be recognised */
		} else {        /* pieces too short to be a frame are completed by what follows */
			acc += n;
			rx_event(n);
			if (acc > (HDRS ? 3 : 0) + (STRIP ? 0u : 1u)) { exp_frame(accs, acc); acc = 0; accs = rx_n; }
		}
	}
}
void harness(void) {
	struct diag_l2_conn *c;
	int rv, live, err;
	struct diag_msg m = {0}, *r;
#ifdef CONSTPAY
	tgt = 0x10; src = 0xF1;
#else
	tgt = nd_u8(); src = nd_u8();
#endif
	vp_l0flags = DIAG_L1_DOESP4WAIT | DIAG_L1_DOESFULLINIT | (L1F);
	diag_l2_init();
	diag_l2_open(&vp_dl0d, PROTO9141 ? DIAG_L1_ISO9141 : PWM ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW);
	c = diag_l2_StartCommunications(&vp_dl0d, PROTO9141 ? DIAG_L2_PROT_ISO9141 : DIAG_L2_PROT_SAEJ1850, DIAG_L2_TYPE_SLOWINIT, 0, tgt, src);
	vp_assert(c != NULL, "connected");
	started = true;
	live = vp_live;
#if TXN >= 0
#ifdef CONSTPAY        /* long CRCs: only the last byte is symbolic */
	for (int i = 0; i < TXN; i++) pay[i] = i * 7;
	pay[TXN - 1] = nd_u8();
#else
	nd_bytes(pay, TXN);
#endif
	m.data = pay; m.len = TXN;
	rv = diag_l2_send(c, &m);
	bool fits = TXN <= (PROTO9141 ? 7 : 1019);
	vp_assert((rv == 0) == fits && sends == fits, "sent once if it fits, otherwise refused");
	vp_witness("tx");
#else
	feed();
	if (ERRAT) rx_event(DIAG_ERR_BADIFADAPTER);
	if (ERRAT) e_err = true;
	rv = diag_l2_recv(c, 100, cb, &calls);
	vp_assert(rv <= 0, "status");
	vp_assert((rv == 0) == (calls == 1) && calls <= 1, "callback called once, on success only");
	if (!lax) vp_assert((rv == 0) == (!e_err && nf > 0), "receive succeeds exactly when there are well-formed frames only");
	if (rv == 0) vp_witness("received"); else vp_witness("refused");
	if (rv == 0) vp_assert(vp_live == live, "nothing retained after the callback");
	/* the line goes quiet: nothing more may be delivered; then a request must get its own answer only */
	calls = 0; e_err = true; lax = false;
	rv = diag_l2_recv(c, 100, cb, &calls);
	vp_assert(rv < 0 && calls == 0, "no stale data delivered by a later receive");
	vp_assert(vp_live == live, "nothing retained");
#endif
	started = false;
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "no leak");
	(void)r; (void)err; (void)m;
}
