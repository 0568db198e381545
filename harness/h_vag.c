/* KWP1281. A script of the exchange is built from tokens; every byte that the program sends is checked against it.
 * Shape: OP s/q/b/k/i (send, request, send+recv, keep-alive, init), START = last ECU block number before the test phase (odd, framed start when not 3),
 *  SCRIPT = tokens (see below), RN = data bytes of our block, DN = data bytes of ECU blocks, SYM = our data symbolic, OUT = 1 success / 0 error
 * tokens: q our block  A our ACK  K our NO_ACK after a bad block | w/o/x: first attempt fails after its byte CUT: wrong complement / no complement / adapter error (y: adapter error while sending)
 *  d ECU data block  a ECU ACK  n ECU NO_ACK retry  N NO_ACK for another block  z NO_ACK without data | e/s/l: ECU block with bad end byte / bad counter / length 2
 *  L data block with lost end byte  r data block restarted after CUT bytes  t silence (T one timeout)  E adapter error  i ECU stops in the middle of a block */
#define RXMAX 8
#include "l2h.h"
#include "diag_tty.h"
#ifndef START
#define START 3
#endif
#ifndef RN
#define RN 2
#endif
#ifndef DN
#define DN 2
#endif
#ifndef CUT
#define CUT 1
#endif
#ifndef L1F
#define L1F 0
#endif
#ifndef INITSCRIPT
#define INITSCRIPT "dAa"
#endif
#ifndef KBT
#define KBT "RR"
#endif
#ifndef INITRV
#define INITRV 0
#endif
#ifndef SPEEDRV
#define SPEEDRV 0
#endif
#define FRAMED (((L1F) & DIAG_L1_DOESL2FRAME) != 0)
#ifndef MAXS
#define MAXS 120
#endif
#define MB (RN + DN + 8)
static struct { char op; uint8_t v; } sc[MAXS];
static unsigned nsc, si;
static void put(char op, uint8_t v) { vp_assert(nsc < MAXS, "script fits"); sc[nsc].op = op; sc[nsc].v = v; nsc++; }
static bool frm;                /* adapter moves whole blocks */
static uint8_t cur;             /* number of the next block */
static uint8_t lastours, badseq;
static uint8_t req[RN + 3], rtype;
static uint8_t dat[4][DN + 2];     /* data of the blocks that make up the answer */
static uint8_t dtyp[4]; static unsigned dlen[4], nd;
static uint8_t tgt;
static unsigned inits;
int vp_on_send(const uint8_t *d, size_t l) {
	for (unsigned i = 0; i < l; i++) {
		char o = sc[si].op;
		if (o == 'Y' && i == 0) { si++; return DIAG_ERR_GENERAL; }
		vp_assert(si < nsc && o == 'S', "sends only when it is its turn");
		vp_assert(d[i] == sc[si].v, "the byte the protocol wants");
		si++;
	}
	vp_assert(frm || l == 1, "one byte at a time");
	if (frm && l > 1) { vp_assert(sc[si].op == '.', "whole block"); si++; }
	return 0;
}
int vp_on_recv(uint8_t *d, size_t len, unsigned t) {
	(void)t;
	if (si >= nsc) return DIAG_ERR_TIMEOUT;
	char o = sc[si].op;
	if (o == 'T') { si++; return DIAG_ERR_TIMEOUT; }
	if (o == 'E') { si++; return DIAG_ERR_BADIFADAPTER; }
	vp_assert(o == 'R', "listens when the ECU has the line");
	if (!frm || len == 1) { d[0] = sc[si++].v; return 1; }
	unsigned n = 0;
	while (n < len && sc[si].op == 'R') d[n++] = sc[si++].v;
	if (sc[si].op == '.') si++;
	return n;
}
int vp_on_ioctl(unsigned c, void *d) {
	if (c == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		vp_assert(s->speed == 10400 && s->databits == diag_databits_8 && s->parflag == diag_par_n && s->stopbits == diag_stopbits_1, "10400 8N1");
		return SPEEDRV;
	}
	if (c == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *a = d;
		inits++;
		vp_assert(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == tgt, "5 baud wake-up of the target");
		return INITRV;
	}
	return 0;
}
/* n bytes of block b, sent by us; cut>=0: stop after that byte (its complement is up to the caller) */
static void ours(const uint8_t *b, unsigned n, int cut) {
	for (unsigned i = 0; i < n; i++) {
		put('S', b[i]);
		if ((int)i == cut) return;
		if (i + 1 < n && !frm) put('R', ~b[i]);
	}
	if (frm) put('.', 0);
}
static void theirs(const uint8_t *b, unsigned n, unsigned upto) {
	for (unsigned i = 0; i < n && i < upto; i++) {
		put('R', b[i]);
		if (i + 1 < n && !frm) put('S', ~b[i]);
	}
	if (frm) put('.', 0);
}
static uint8_t blk[MB]; static unsigned bn;
static void mk(uint8_t type, const uint8_t *d, unsigned n, uint8_t seq) {
	blk[0] = n + 3; blk[1] = seq; blk[2] = type;
	for (unsigned i = 0; i < n; i++) blk[3 + i] = d[i];
	blk[3 + n] = 3;
	bn = n + 4;
}
static void build(const char *s, bool first) {
	uint8_t one, tmp[DN + 2];
	for (unsigned k = 0; s[k]; k++) {
		char t = s[k], u;
		switch (t) {
		case 'w': case 'o': case 'x': case 'y':         /* failed attempt of the next block of ours */
			u = nd || OP == 'k' ? 'A' : 'q';
			for (unsigned j = k; s[j]; j++) if (s[j] == 'q' || s[j] == 'A' || s[j] == 'K') { u = s[j]; break; }
			if (u == 'q') mk(rtype, req, RN, cur); else if (u == 'A') mk(9, NULL, 0, cur); else mk(10, &badseq, 1, cur);
			if (t == 'y') { for (unsigned i = 0; i < CUT; i++) { put('S', blk[i]); put('R', ~blk[i]); } put('Y', 0); break; }
			ours(blk, bn, CUT);
			if (t == 'w') put('R', ~blk[CUT] ^ 0x10); else put(t == 'o' ? 'T' : 'E', 0);
			break;
		case 'q': mk(rtype, req, RN, cur); lastours = cur++; ours(blk, bn, -1); break;
		case 'A': mk(9, NULL, 0, cur); lastours = cur++; ours(blk, bn, -1); break;
		case 'K': mk(10, &badseq, 1, cur); lastours = cur++; ours(blk, bn, -1); break;
		case 'n': case 'N': case 'z':
			one = t == 'n' ? lastours : lastours + 5;
			mk(10, &one, t != 'z', cur); cur++; theirs(blk, bn, bn);
			if (first && nd == 0 && (t != 'n' || OP == 'b')) { dtyp[0] = 10; dlen[0] = t != 'z'; dat[0][0] = one; nd = 1; }
			break;
		case 'a':
			mk(9, NULL, 0, cur); cur++; theirs(blk, bn, bn);
			if (first && nd == 0) { dtyp[0] = 9; dlen[0] = 0; nd = 1; }
			break;
		case 'd': case 'L': case 'r': case 'e': case 's': case 'l': case 'i':
			for (unsigned i = 0; i < DN; i++) tmp[i] = nd_u8();
			mk(0xFC, tmp, DN, t == 's' ? (uint8_t)(cur + 4) : cur);
			if (t == 'e') blk[bn - 1] = 4;
			if (t == 'l') { blk[0] = 2; blk[2] = 3; bn = 3; }
			if (t == 'i') { theirs(blk, bn, CUT); put('T', 0); put('T', 0); break; }
			badseq = blk[1];
			cur++;
			if (t == 'r') { theirs(blk, bn, CUT); put('T', 0); }
			if (t == 'L') { theirs(blk, bn, bn - 1); put('T', 0); put('T', 0); } else theirs(blk, bn, bn);
			if (first && (t == 'd' || t == 'L' || t == 'r')) {
				dtyp[nd] = 0xFC; dlen[nd] = DN;
				for (unsigned i = 0; i < DN; i++) dat[nd][i] = tmp[i];
				nd++;
			}
			break;
		case 't': put('T', 0); if (!frm) put('T', 0); break;
		case 'T': put('T', 0); break;
		case 'E': put('E', 0); break;
		}
	}
}
static void same(struct diag_msg *m) {
	for (unsigned k = 0; k < nd; k++) {
		vp_assert(m != NULL, "every block delivered");
		vp_assert(m->type == dtyp[k] && m->len == dlen[k], "title and length of the block");
		for (unsigned i = 0; i < dlen[k]; i++) vp_assert(m->data[i] == dat[k][i], "data of the block");
		m = m->next;
	}
	vp_assert(m == NULL, "nothing else delivered");
}
static int hnd; static unsigned ncb;
static void cb(void *h, struct diag_msg *m) { vp_assert(h == &hnd, "handle"); ncb++; same(m); }
void harness(void) {
	struct diag_l2_conn *c;
	struct diag_msg m = {0}, *r;
	int live, err = 0, rv;
	uint8_t kb1 = nd_u8(), kb2 = nd_u8();
	tgt = nd_u8();
	vp_l0flags = DIAG_L1_DOESP4WAIT | (L1F) | (START != 3 ? DIAG_L1_DOESL2FRAME : 0);
	frm = FRAMED || START != 3;
	diag_l2_init();
	diag_l2_open(&vp_dl0d, DIAG_L1_ISO9141);
	live = vp_live;
	/* handshake and ECU identification */
	for (const char *k = KBT; *k; k++) put(*k, k == KBT ? kb1 : kb2);
	if (KBT[0] == 'R' && KBT[1] == 'R' && !((L1F) & DIAG_L1_DOESSLOWINIT)) put('S', ~kb2);
	cur = START == 3 ? 1 : START - 2;
	rtype = 0x29;
	build(INITSCRIPT, true);
	c = diag_l2_StartCommunications(&vp_dl0d, DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, 0, tgt, 0xF1);
	if (OP == 'i') {
		vp_assert((c != NULL) == OUT, "connected exactly after a complete ECU identification");
		vp_assert(inits == !SPEEDRV, "one wake-up");
		if (!SPEEDRV && !INITRV) vp_assert(si == nsc, "the whole exchange took place");
		if (c) { rv = diag_l2_recv(c, 0, cb, &hnd); vp_assert(rv == 0 && ncb == 1, "identification delivered first"); diag_l2_StopCommunications(c); }
		vp_assert(vp_live == live, "nothing left behind");
		vp_witness("done");
		return;
	}
	vp_assert(c != NULL && si == nsc, "connected");
	if (START != 3 && !FRAMED) { c->diag_link->l1flags &= ~DIAG_L1_DOESL2FRAME; frm = false; }
	nsc = si = 0;
	for (unsigned i = 0; i < RN; i++) {
#ifdef SYM
		req[i] = nd_u8();
#else
		req[i] = i == 0 ? 0xFF : i == 1 ? 0 : 3 + i;
#endif
	}
	m.type = rtype; m.data = req; m.len = RN;
	if (OP != 'k') nd = 0;
	build(SCRIPT, OP != 'k');
	if (OP == 's') {
		rv = diag_l2_send(c, &m);
		vp_assert((rv == 0) == OUT && rv <= 0, "success exactly when every byte was acknowledged");
	} else if (OP == 'q') {
		r = diag_l2_request(c, &m, &err);
		vp_assert((r != NULL) == OUT, "answer exactly when the exchange completes");
		if (r) { same(r); diag_freemsg(r); }
		else vp_assert(err < 0, "no answer means an error code");
	} else if (OP == 'b') {
		rv = diag_l2_send(c, &m);
		vp_assert(rv == 0, "sent");
		rv = diag_l2_recv(c, 0, cb, &hnd);
		vp_assert(ncb == OUT && (OUT ? rv == 0 : rv < 0), "delivered exactly when the exchange completes");
	} else if (OP == 'k') {
		c->l2proto->diag_l2_proto_timeout(c);
		si = nsc;
		rv = diag_l2_recv(c, 0, cb, &hnd);
		vp_assert(rv == 0 && ncb == 1, "identification telegram survives the keep-alive");
	}
	vp_assert(si == nsc, "the whole exchange took place");
#ifdef AGAIN    /* the link stays usable: a second request is refused or goes out, but nothing old is delivered */
	nd = 0; nsc = si = 0;
	err = 0;
	r = diag_l2_request(c, &m, &err);
	vp_assert(r == NULL && err < 0, "no stale answer");
#endif
	diag_l2_StopCommunications(c);
	diag_l2_close(&vp_dl0d);
	vp_assert(vp_live == 0, "everything returned");
	vp_witness("done");
}
