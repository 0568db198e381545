/* ISO14230 receive: any byte stream whose structural bytes (format / length bytes) are
 * fixed by the shape and whose other bytes are symbolic, delivered in bursts, against a
 * reference decoder of the frame format. */
#define RXMAX 1100
#include "l2h.h"
#include "diag_iso14230.h"

static const int st[][2] = { STRUCT };          /* {position, value} fixed bytes */
#define NS (sizeof(st) / sizeof(st[0]))
static const int burst[] = { BURSTS };          /* bytes per burst */
#define NB (sizeof(burst) / sizeof(burst[0]))
#ifndef SPLIT
#define SPLIT 0
#endif
#define RAWL1 (!((L1F) & DIAG_L1_DOESL2FRAME))
#define STRIP (!!((L1F) & DIAG_L1_STRIPSL2CKSUM))
#define HDRS  (!((L1F) & DIAG_L1_NOHDRS))

#define MAXF 16
static unsigned nf;
static struct { unsigned off, len; uint8_t src, dst; bool func, bad; } e[MAXF];
static bool e_err;              /* the receive must fail */
static bool lax;                /* adapter framing disagrees with the header: only safety is required */
static unsigned calls;

int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
static bool started;
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	if (!started) return DIAG_ERR_TIMEOUT;
	vp_assert(t > 0, "waits with a non-zero timeout");
	return rx_serve(d, len);
}

/* reference decoder of one burst */
static void ref(unsigned s, unsigned n) {
	unsigned p = 0;
	while (p < n && !e_err) {
		unsigned hl = 0, dl = 0, need, rem = n - p;
		uint8_t f = rx_b[s + p], src = 0, dst = 0;
		if (HDRS) {
			bool addr = (f & 0x80) != 0, lb = (f & 0x3f) == 0;
			if ((f & 0xC0) == 0x40) { e_err = true; return; }
			hl = 1 + (addr ? 2 : 0) + (lb ? 1 : 0);
			if (rem < hl) { e_err = true; return; }
			dl = lb ? rx_b[s + p + hl - 1] : (f & 0x3f);
			if (dl == 0) { e_err = true; return; }
			if (addr) { dst = rx_b[s + p + 1]; src = rx_b[s + p + 2]; }
			need = hl + dl + 1;
			if (RAWL1) {
				if (need > rem) { e_err = true; return; }
			} else {
				if (rem != need - STRIP) lax = true;
			}
		} else {
			need = rem;
			dl = rem - !STRIP;
			if (rem <= (unsigned)!STRIP) lax = true;
		}
		e[nf].off = s + p + hl;
		e[nf].len = dl;
		e[nf].src = src; e[nf].dst = dst;
		e[nf].func = HDRS && (f & 0xC0) == 0xC0;
		if (!STRIP && !lax) {
			uint8_t sum = diag_cks1(&rx_b[s + p], hl + dl);       /* diag_cks1 is decided by its own harness */
			e[nf].bad = sum != rx_b[s + p + hl + dl];
		}
		nf++;
		if (!RAWL1) break;
		p += need;
	}
}

static void cb(void *h, struct diag_msg *m) {
	unsigned f, i;
	vp_assert(h == &calls, "callback gets the caller's handle");
	calls++;
	if (lax) {
		for (; m; m = m->next) {
			vp_assert(m->len <= rx_n, "payload no longer than what was received");
			for (i = 0; i < m->len; i++) (void)*(volatile uint8_t *)&m->data[i];
		}
		return;
	}
	vp_assert(!e_err, "nothing is delivered when a frame is malformed or incomplete");
	for (f = 0; f < nf; f++) {
		vp_assert(m != NULL, "one message per received frame");
		vp_assert(m->len == e[f].len, "payload length");
		for (i = 0; i < e[f].len; i++)
			vp_assert(m->data[i] == rx_b[e[f].off + i], "payload bytes in order");
		vp_assert(m->src == e[f].src && m->dest == e[f].dst, "addresses of the frame");
		vp_assert(!!(m->fmt & DIAG_FMT_ISO_FUNCADDR) == e[f].func, "functional flag");
		vp_assert(!!(m->fmt & DIAG_FMT_BADCS) == e[f].bad, "bad checksum flagged, good one not");
		m = m->next;
	}
	vp_assert(m == NULL, "no extra message");
}

void harness(void) {
	struct diag_l2_conn *c;
	unsigned g, i;
	int rv, live;

	vp_l0flags = DIAG_L1_DOESP4WAIT | DIAG_L1_DOESFULLINIT | (L1F);
	diag_l2_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO14230);
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_SLOWINIT, 0, 0x33, 0xF1);
	vp_assert(c != NULL, "connected");
	started = true;
	live = vp_live;
	for (g = 0; g < NB; g++) {
		unsigned s = rx_n, n = burst[g];
		for (i = 0; i < n; i++) {
			int v = -1;
			for (unsigned k = 0; k < NS; k++) if (st[k][0] == (int)rx_n) v = st[k][1];
			rx_add(v >= 0 ? v : nd_u8());
		}
		ref(s, n);
		if (SPLIT && n > SPLIT) { rx_event(SPLIT); n -= SPLIT; }      /* the burst may arrive in two reads */
		rx_event(n);
		if (RAWL1) rx_event(0);
	}
	rv = diag_l2_recv(c, 100, cb, &calls);
	vp_assert(rv <= 0, "status");
	vp_assert((rv == 0) == (calls == 1) && calls <= 1, "callback called once, on success only");
	if (!lax) vp_assert((rv == 0) == !e_err, "receive succeeds exactly when every frame is well-formed");
	if (rv == 0) vp_witness("received"); else vp_witness("refused");
	vp_assert(vp_live == live || rv < 0, "nothing retained after the callback");
	if (rv < 0) {   /* the line goes quiet: nothing may be delivered any more */
		calls = 0; e_err = true;
		rv = diag_l2_recv(c, 100, cb, &calls);
		vp_assert(rv < 0 && calls == 0, "no stale data delivered by a later receive");
		vp_assert(vp_live == live, "nothing retained");
	}
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "no leak");
}
