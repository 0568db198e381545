/* Multiplex Engineering and BR-1 adapters on a scripted serial port.
 * Shape: DEV 0 ME / 1 BR-1, PROTO, OPS list of {op, n}: 's' send n bytes, 'r' receive with a buffer of n bytes, 'i' 5 baud wake-up, 'f' fast wake-up;
 * RX what the adapter sends: list of {control byte / type, data bytes, how many bytes of the frame come before a pause (-1: all), flag}
 * FAILW: this write fails; OPENERR: which system call of opening fails; ADDR: address of the ME device */
#include "vp.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_os.h"
#include "diag_cfg.h"
#include "diag_tty.h"
#include <stdlib.h>
#include <string.h>
#ifndef FAILW
#define FAILW -1
#endif
#ifndef OPENERR
#define OPENERR 0
#endif
#ifndef ADDR
#define ADDR 0x38
#endif
#ifndef TWICE
#define TWICE 0
#endif
extern const struct diag_l0 diag_l0_br, diag_l0_me;
#if DEV
#define L0 diag_l0_br
#else
#define L0 diag_l0_me
#endif
int diag_l0_debug;
static unsigned long now;
unsigned long diag_os_getms(void) { return now; }
/* ---- settings ---- */
static char pname[] = "/dev/x";
int diag_cfgn_tty(struct cfgi *c) { memset(c, 0, sizeof *c); c->val.str = pname; return 0; }
int diag_cfgn_u8(struct cfgi *c, uint8_t v, uint8_t d) { (void)d; memset(c, 0, sizeof *c); c->val.u8 = v; return 0; }
void diag_cfg_clear(struct cfgi *c) { (void)c; }
/* ---- serial port ---- */
static char tt[4];
static int is_open, speed;
static uint8_t tx[256], rx[256];
static unsigned tx_n, writes, rx_n, rx_pos, ev[24], ev_n, ev_i; /* ev: positions in rx at which nothing more comes in time */
ttyp *diag_tty_open(const char *p) { vp_assert(p == pname && !is_open, "opens the port configured, once"); if (OPENERR == 1) return NULL; is_open = 1; return (ttyp *)tt; }
void diag_tty_close(ttyp *t) { vp_assert(t == (ttyp *)tt && is_open, "closes the open port"); is_open = 0; }
int diag_tty_setup(ttyp *t, const struct diag_serial_settings *s) {
	vp_assert(t == (ttyp *)tt && is_open, "open port");
	vp_assert(s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n, "8N1");
	if (OPENERR == 2) return DIAG_ERR_GENERAL;
	speed = s->speed;
	return 0;
}
int diag_tty_control(ttyp *t, unsigned dtr, unsigned rts) { vp_assert(t == (ttyp *)tt && is_open && dtr && !rts, "DTR powers the device"); return OPENERR == 3 ? DIAG_ERR_GENERAL : 0; }
int diag_tty_iflush(ttyp *t) { vp_assert(t == (ttyp *)tt && is_open, "open port"); return 0; }
ssize_t diag_tty_write(ttyp *t, const void *b, const size_t n) {
	vp_assert(t == (ttyp *)tt && is_open && n > 0, "open port");
	if ((int)writes++ == FAILW) return DIAG_ERR_GENERAL;
	for (unsigned i = 0; i < n; i++) tx[tx_n++] = ((const uint8_t *)b)[i];
	return n;
}
ssize_t diag_tty_read(ttyp *t, void *b, size_t n, unsigned timeout) {
	unsigned i;
	vp_assert(t == (ttyp *)tt && is_open && n > 0 && timeout > 0, "open port, something to read, some time to wait");
	for (i = 0; i < n; i++) {
		if (ev_i < ev_n && rx_pos == ev[ev_i]) { ev_i++; break; }
		if (rx_pos >= rx_n) break;
		((uint8_t *)b)[i] = rx[rx_pos++];
	}
	return i ? (ssize_t)i : DIAG_ERR_TIMEOUT;
}
static void put(uint8_t b) { rx[rx_n++] = b; }
static void pause_(void) { ev[ev_n++] = rx_n; }
static uint8_t etx[256]; static unsigned etx_n;         /* what has to be sent */
static void ex(uint8_t b) { etx[etx_n++] = b; }
static void sent(void) {
	vp_assert(tx_n == etx_n, "exactly the bytes of the adapter's protocol are sent");
	for (unsigned i = 0; i < etx_n; i++) vp_assert(tx[i] == etx[i], "exactly the bytes of the adapter's protocol are sent");
}
static const struct { char op; int n; } ops[] = { OPS };
static const struct { int ctl, n, upto, flag; } fr[] = { RX {-1, 0, 0, 0} };
#define NOPS (sizeof ops / sizeof ops[0])
#define NFR (sizeof fr / sizeof fr[0] - 1)
static unsigned at[16];         /* where the frames begin */
static uint8_t sum(const uint8_t *p, unsigned n) { uint8_t s = 0; while (n--) s += *p++; return s; }
static uint8_t crc(const uint8_t *p, unsigned n) {
	unsigned c = 0xff;
	while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c & 0x80 ? c << 1 ^ 0x11d : c << 1; }
	return ~c;
}
#define J1850 ((PROTO) == DIAG_L1_J1850_VPW || (PROTO) == DIAG_L1_J1850_PWM)
static struct diag_l0_device d;
static uint8_t last[16]; static unsigned last_n, framenr;
static unsigned f;      /* next frame */
static int left_f = -1; static unsigned left_o, left_n; /* what is left of a response */
static int kb = -1; static uint8_t kbs[2];
static bool raw, faststart;
static void feed(void) {
	for (unsigned i = 0; i < NFR; i++) {
		unsigned k = 0, n = DEV ? fr[i].n + 1 : 14;
		at[i] = rx_n;
		for (; k < n && (fr[i].upto < 0 || k < (unsigned)fr[i].upto); k++) {
			uint8_t b = nd_u8();
			if (DEV) { if (k == 0) b = fr[i].ctl; }
			else {
				/* data, then a checksum or CRC, then zeros; flag: 1 wrong checksum of the frame, 2 the data ends with no checksum */
				uint8_t *g = &rx[at[i]];
				unsigned dl = fr[i].n;
				if (k == 1) b = fr[i].ctl;
				if (k == 3 && fr[i].ctl == 0x80) b = dl;
				else if (k >= 2 && k < 13) {
					if (k - 2 + 1 == dl && !(fr[i].flag & 2)) b = fr[i].ctl == 0x82 || fr[i].ctl == 0x84 ? crc(g + 2, dl - 1) : sum(g + 2, dl - 1);
					if (k - 2 >= dl) b = 0;
				}
				if (k == 13) { uint8_t s = sum(g + 1, 12); if (fr[i].flag & 1) vp_assume(b != s); else b = s; }
			}
			put(b);
		}
		if (fr[i].upto >= 0) { pause_(); }
	}
}
/* the bytes in the next message of the BR-1, or an error */
static int br_next(void) {
	if (f >= NFR) return DIAG_ERR_TIMEOUT;
	int i = f++;
	unsigned n = fr[i].ctl & 15;
	if (fr[i].upto == 0) return DIAG_ERR_TIMEOUT;
	if (fr[i].upto > 0 && (unsigned)fr[i].upto < n + 1) return DIAG_ERR_GENERAL;
	if (fr[i].ctl & 0x80) return DIAG_ERR_TIMEOUT;
	if (fr[i].ctl & 0x40) return DIAG_ERR_BUSERROR;
	if (n == 0) return DIAG_ERR_TIMEOUT;
	left_f = i; left_o = at[i] + 1; left_n = n;
	return n;
}
static void br_again(void) { ex(last_n + 1); for (unsigned i = 0; i < last_n; i++) ex(last[i]); ex(framenr); }
static void check_recv(uint8_t *b, unsigned n, int rv) {
	unsigned i;
	if (kb >= 0) {
		unsigned k = n < 2u - kb ? n : 2u - kb;
		vp_assert(rv == (int)k, "the key bytes come first");
		for (i = 0; i < k; i++) vp_assert(b[i] == kbs[kb + i], "the key bytes come first");
		kb += k; if (kb == 2) kb = -1;
		return;
	}
#if DEV
	if (!J1850) {
		/* passed through: from wherever reading stands */
		return;
	}
	if (left_f < 0) {
		int e, tries = 0;
		if (framenr > 1) br_again();
		framenr++;
		while ((e = br_next()) == DIAG_ERR_BUSERROR && tries++ < 30) br_again();
		if (e < 0) { vp_assert(rv < 0, "an error message or an incomplete one is an error"); if (e == DIAG_ERR_TIMEOUT) vp_assert(rv == e, "no response is a timeout"); return; }
	}
#else
	if (left_f < 0) {
		if (f >= NFR) { vp_assert(rv == DIAG_ERR_TIMEOUT, "no response is a timeout"); return; }
		if (fr[f].upto >= 0) { vp_assert(rv == DIAG_ERR_TIMEOUT, "incomplete response"); f++; return; }
		int i = f++;
		const uint8_t *g = &rx[at[i]];
		if (fr[i].flag & 1) { vp_assert(rv < 0, "a wrong checksum is an error"); return; }
		if (fr[i].ctl == 0x80) {
			vp_assert(rv < 0, "an error message is an error");
			vp_assert((rv == DIAG_ERR_TIMEOUT) == (fr[i].n == 5 || fr[i].n == 7 || fr[i].n == 0xc), "no response is a timeout");
			return;
		}
		/* the longest beginning that is followed by zeros only and ends with its checksum; everything if there is none */
		unsigned len = 11, L;
		bool z = true, found = false;
		for (L = 11; L >= 2; L--) {
			if (z && !found && g[2 + L - 1] == (fr[i].ctl == 0x82 || fr[i].ctl == 0x84 ? crc(g + 2, L - 1) : sum(g + 2, L - 1)) && (fr[i].ctl == 1 || (fr[i].ctl & 0x80 && fr[i].ctl < 0x88))) { len = L; found = true; }
			if (g[2 + L - 1] != 0) z = false;
		}
		vp_assert(rv == (int)(len < n ? len : n), "the bytes of the vehicle without the padding");
		for (i = 0; i < rv; i++) vp_assert(b[i] == g[2 + i], "the bytes of the vehicle");
		if (n < len) { left_f = f - 1; left_o = at[f - 1] + 2 + n; left_n = len - n; }
		return;
	}
#endif
	i = left_n < n ? left_n : n;
	vp_assert(rv == (int)i, "what is left of the response, as much as fits");
	for (unsigned k = 0; k < i; k++) vp_assert(b[k] == rx[left_o + k], "the bytes of the vehicle");
	left_o += i; left_n -= i;
	if (!left_n) left_f = -1;
}
void harness(void) {
	unsigned k, i;
	int rv;
	d.dl0 = &L0;
	vp_assert(L0.init() == 0 && L0._new(&d) == 0, "made");
	for (unsigned round = 0; round < 1 + TWICE; round++) {
	feed();
#if DEV
	/* opening reads the answer to the connect command, and to the J1850 initialisation */
	if (round == 0) { }
#endif
	writes = 0;
	rv = L0._open(&d, PROTO);
	bool bad = OPENERR != 0;
#if DEV
	if (OPENERR == 0 || OPENERR == 3) {
		bad = false;
		ex(0x20);
		if (FAILW == 0) { bad = true; etx_n--; }
		else if (NFR == 0 || fr[0].ctl != 0xff || fr[0].upto == 0) bad = true;
		f = 1;
		if (!bad && J1850) {
			ex(0x41); ex(PROTO == DIAG_L1_J1850_PWM);
			if (FAILW == 1) { bad = true; etx_n -= 2; }
			else {
				int e = br_next();
				if (e != 1 && e != 2) bad = true;
				left_f = -1;
			}
		}
	}
#endif
	vp_assert((rv == 0) == !bad && rv <= 0, "opening succeeds exactly when the adapter answers");
	vp_assert(is_open == !bad && d.opened == !bad, "and leaves the port closed otherwise");
	if (DEV || !bad) sent();
	if (bad) { vp_witness("refused"); L0._del(&d); vp_assert(vp_live == 0, "no memory lost"); return; }
	vp_assert(speed == 19200, "at 19200 baud");
	last_n = 0; framenr = 0;
	for (k = 0; k < NOPS; k++) {
		int n = ops[k].n;
		if (ops[k].op == 's') {
			uint8_t *b = malloc(n ? n : 1);
			nd_bytes(b, n);
			bool fits = n > 0 && n <= (DEV ? (J1850 ? 14 : 15) : raw ? 255 : 11);
			unsigned w0 = writes;
			rv = L0._send(&d, b, n);
			if (!fits) vp_assert(rv < 0, "what does not fit is refused");
			else if (FAILW >= (int)w0 && FAILW < (int)writes) { vp_assert(rv < 0, "a failure to write is an error"); vp_witness("write failed"); goto out; }
			else {
				vp_assert(rv == 0, "what fits is sent");
#if DEV
				for (i = 0; i < (unsigned)n; i++) last[i] = b[i];
				last_n = n; framenr = 1;
				if (J1850) br_again();
				else { ex(n); for (i = 0; i < (unsigned)n; i++) ex(b[i]); }
#else
				if (raw) for (i = 0; i < (unsigned)n; i++) ex(b[i]);
				else {
					unsigned o = etx_n;
					ex(ADDR);
					ex((PROTO) == DIAG_L1_ISO9141 ? 0x10 : (PROTO) == DIAG_L1_ISO14230 ? (faststart ? 0x87 : 0x88) : (PROTO) == DIAG_L1_J1850_VPW ? 0x02 : 0x80);
					faststart = false;
					ex(n);
					for (i = 0; i < 11; i++) ex(i < (unsigned)n ? b[i] : 0);
					uint8_t s = sum(&etx[o + 1], 12);
					/* whether the checksum covers the last of 11 data bytes is not known */
					if (n == 11 && tx_n == o + 15 && tx[o + 14] == (uint8_t)(s + b[10])) s += b[10];
					ex(s);
				}
#endif
			}
			sent();
		} else if (ops[k].op == 'r') {
			uint8_t *b = malloc(n ? n : 1);
			unsigned before = rx_pos;
			bool iskb = kb >= 0;
			rv = L0._recv(&d, b, n, 100);
			vp_assert(rv != 0 && rv <= n, "something or an error");
			if (FAILW >= 0 && (int)writes > FAILW) { vp_assert(rv < 0, "a failure to write is an error"); vp_witness("write failed"); goto out; }
			if ((raw || (DEV && !J1850)) && !iskb) {
				vp_assert(rv < 0 ? rx_pos == before : rx_pos == before + rv, "what came is passed on");
				for (i = 0; (int)i < rv; i++) vp_assert(b[i] == rx[before + i], "what came is passed on");
			} else
				check_recv(b, n, rv);
			sent();
			for (i = 0; (int)i < rv; i++) (void)*(volatile uint8_t *)&b[i];
		} else {
			struct diag_l1_initbus_args a = { 0 };
			a.type = ops[k].op == 'f' ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD;
			a.addr = nd_u8();
			rv = L0._ioctl(&d, DIAG_IOCTL_INITBUS, &a);
#if DEV
			if (ops[k].op == 'f') { vp_assert(rv == DIAG_ERR_INIT_NOTSUPP, "only newer adapters know the fast wake-up"); continue; }
			ex(0x42); ex(0x02); ex(a.addr);
			int e = br_next();
			vp_assert((rv == 0) == (e > 0) && rv <= 0, "the wake-up succeeds when the adapter sends key bytes");
			if (e > 0) { kbs[0] = rx[left_o]; kbs[1] = e == 1 ? kbs[0] : rx[left_o + 1]; kb = 0; left_f = -1; }
#else
			if (ops[k].op == 'f') { vp_assert(rv == 0, "wake-up comes with the next request"); faststart = true; continue; }
			unsigned o = etx_n;
			ex(ADDR);
			if ((PROTO) == DIAG_L1_ISO9141) { ex(0x20); ex(a.addr); } else { ex(0x85); ex(1); ex(0x3e); }
			while (etx_n < o + 14) ex(0);
			ex(sum(&etx[o + 1], 12));
			if ((PROTO) == DIAG_L1_ISO9141) {
				bool ok = NFR > 0 && fr[f].upto != 0;
				uint8_t t = ok ? rx[at[f]] : 0;
				vp_assert((rv == 0 || rv == 1) == (ok && t != 0x40), "the adapter tells the speed, or an error");
				if (rv < 0) { vp_witness("no speed"); goto out; }
				raw = true;
			} else {
				bool ok = NFR > f && fr[f].upto < 0 && fr[f].ctl != 0x80;
				if (ok) {
					o = etx_n;
					ex(ADDR); ex(0x86); while (etx_n < o + 14) ex(0);
					ex(sum(&etx[o + 1], 12));
					f++;
					ok = NFR > f && fr[f].upto < 0 && fr[f].ctl != 0x80;
				}
				vp_assert((rv == 0) == ok && rv <= 0, "the wake-up succeeds when the adapter sends key bytes");
				if (ok) { kbs[0] = rx[at[f] + 2]; kbs[1] = rx[at[f] + 3]; kb = 0; }
				if (f < NFR) f++;
			}
#endif
			sent();
		}
	}
	vp_witness("done");
	out:
	L0._close(&d);
	vp_assert(!is_open && !d.opened, "closed");
	if (TWICE) { rx_n = rx_pos = ev_n = ev_i = tx_n = etx_n = f = 0; left_f = kb = -1; raw = faststart = false; }
	}
	L0._del(&d);
}
