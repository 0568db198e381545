/* ISO14230 request: sequences of replies. Shape: SEQ1/SEQ2 = receptions (strings of frame kinds), SF = adapter send that fails
 * kinds: P positive, N pending, B busy-repeat, O other negative, S short negative, T silence, M malformed, U truncated frame */
#define RXMAX 400
#define EVMAX 64
#include "l2h.h"
#include "diag_iso14230.h"
#ifndef POS0
#define POS0 0xC3
#endif
#ifndef NEG2
#define NEG2 0x11
#endif
#ifndef SF
#define SF 999
#endif
#ifndef PLEN
#define PLEN 4
#endif
static const char *const seq1[] = { SEQ1 };
static const char *const seq2[] = { SEQ2 };
static bool started;
static unsigned sends;
static uint8_t req[3];
static uint8_t tgt, src;
int vp_on_send(const uint8_t *d, size_t l) {
	if (!started) return 0;
	sends++;
	if (sends == SF) return DIAG_ERR_GENERAL;
	vp_assert(l == 3 + 3 + 1 && d[0] == 0x83 && d[1] == tgt && d[2] == src, "request frame");
	vp_assert(d[3] == req[0] && d[4] == req[1] && d[5] == req[2], "the same request every time");
	return 0;
}
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	if (!started) return DIAG_ERR_TIMEOUT;
	vp_assert(t > 0, "waits with a non-zero timeout");
	return rx_serve(d, len);
}
static unsigned frame(char k, uint8_t *pay, unsigned *plen) {
	unsigned n = k == 'P' ? PLEN : k == 'S' ? 2 : 3, i, s = rx_n; uint8_t sum = 0;
	rx_add(k == 'M' ? 0x43 : 0x80 | n);
	rx_add(src); rx_add(tgt);
	for (i = 0; i < n; i++) {
		uint8_t v = nd_u8();
		if (i == 0) v = k == 'P' ? POS0 : 0x7f;
		if (i == 2 && k == 'N') v = 0x78;
		if (i == 2 && k == 'B') v = 0x21;
		if (i == 2 && k == 'O') v = NEG2;
		pay[i] = v;
		rx_add(v);
	}
	for (i = s; i < rx_n; i++) sum += rx_b[i];
	rx_add(sum);
	*plen = n;
	return rx_n - s;
}
static struct { char k; uint8_t p[8]; unsigned n; } fr[24];
static unsigned nfr, gstart[16], ng;

static void queue(const char *const *seq, unsigned n) {
	ng = 0; nfr = 0;
	for (unsigned g = 0; g < n; g++) {
		gstart[ng++] = nfr;
		if (seq[g][0] == 'T') { rx_event(0); fr[nfr++].k = 'T'; continue; }
		unsigned tot = 0;
		for (unsigned i = 0; seq[g][i]; i++) {
			fr[nfr].k = seq[g][i];
			tot += frame(seq[g][i], fr[nfr].p, &fr[nfr].n);
			if (seq[g][i] == 'U') { tot--; rx_n--; }
			nfr++;
		}
		rx_event(tot); rx_event(0); rx_event(0);
	}
	gstart[ng] = nfr;
}
/* reference: which frames are returned */
static void one(struct diag_l2_conn *c) {
	struct diag_msg m = {0}, *r;
	unsigned cur = 0, end = 0, g = 0, retries = 3, esend = 1;
	int status;     /* 0 positive, 1 refused, 2 error */
	nd_bytes(req, 3);
	m.data = req; m.len = 3;
	sends = 0;
	int err = 12345;
	status = SF == 1 ? 2 : -1;
	while (status < 0) {
		if (cur == end) {
			if (g >= ng || fr[gstart[g]].k == 'T') { status = 2; break; }
			cur = gstart[g]; end = gstart[++g];
			bool bad = false;
			for (unsigned i = cur; i < end; i++) if (fr[i].k == 'M' || fr[i].k == 'U') bad = true;
			if (bad) { status = 2; break; }
		}
		char k = fr[cur].k;
		if (k == 'B') {
			cur = end;
			if (!retries) { status = 2; break; }
			retries--; esend++;
			if (esend == SF) { status = 2; break; }
		} else if (k == 'N') cur++;
		else status = k == 'P' ? 0 : 1;
	}
	r = diag_l2_request(c, &m, &err);
	vp_assert(sends == esend, "request sent once, plus once per busy reply (at most three)");
	if (status == 2) {
		vp_assert(r == NULL && err < 0, "no answer: no message and an error");
		vp_witness("noanswer");
		return;
	}
	vp_assert(r != NULL, "the answer is returned");
	vp_assert(status ? err < 0 : err == 0, "refusal flagged, success not");
	struct diag_msg *q = r;
	for (unsigned i = cur; i < end; i++, q = q->next) {
		vp_assert(q != NULL && q->len == fr[i].n, "every remaining frame, with its length");
		for (unsigned j = 0; j < fr[i].n; j++) vp_assert(q->data[j] == fr[i].p[j], "payload of the answer");
	}
	vp_assert(q == NULL, "nothing from elsewhere");
	diag_freemsg(r);
	if (status) vp_witness("refused"); else vp_witness("positive");
}
void harness(void) {
	struct diag_l2_conn *c;
	tgt = nd_u8(); src = nd_u8();
	vp_assume(tgt && src);
	vp_l0flags = DIAG_L1_DOESP4WAIT | DIAG_L1_DOESFULLINIT;
	diag_l2_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO14230);
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_SLOWINIT, 0, tgt, src);
	vp_assert(c != NULL, "connected");
	started = true;
	int live = vp_live;
	queue(seq1, sizeof(seq1) / sizeof(seq1[0]));
	one(c);
	rx_n = rx_pos = rx_evn = rx_evi = 0;
	vp_assert(vp_live == live, "nothing of the first exchange is kept");
	queue(seq2, sizeof(seq2) / sizeof(seq2[0]));
	one(c);
	vp_assert(vp_live == live, "nothing kept");
	started = false;
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "no leak");
}
