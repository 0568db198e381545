/* Message alloc / dup / free with allocation failures. Shape: LENS (per message), OFF (window offset), OOM */
#include "vp_bus.h"
#include <string.h>
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return 0; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
static const unsigned lens[] = { LENS };
#define NM (sizeof(lens) / sizeof(lens[0]))
static void same(const struct diag_msg *a, const struct diag_msg *b) {
	vp_assert(b->len == a->len && b->fmt == a->fmt && b->type == a->type && b->dest == a->dest && b->src == a->src && b->rxtime == a->rxtime,
	          "copy has the same length, format and addresses");
	for (unsigned i = 0; i < a->len; i++) vp_assert(a->data[i] == b->data[i], "copy has the same payload");
	vp_assert(a != b && (a->len == 0 || a->data != b->data), "copy is independent");
}
void harness(void) {
	struct diag_msg *m[NM], *d;
	unsigned i, k;
	for (k = 0; k < NM; k++) {
		m[k] = diag_allocmsg(lens[k] + OFF);
		vp_assert(m[k] != NULL && m[k]->len == lens[k] + OFF && m[k]->next == NULL, "allocated");
		vp_assert(m[k]->fmt == 0 && m[k]->src == 0 && m[k]->dest == 0, "clean message");
		for (i = 0; i < lens[k] + OFF; i++) {
			vp_assert(m[k]->data[i] == 0, "zeroed payload");
			m[k]->data[i] = nd_u8();
		}
		m[k]->data += OFF; m[k]->len -= OFF;    /* header stripped */
		m[k]->fmt = nd_u8(); m[k]->type = nd_u8(); m[k]->dest = nd_u8(); m[k]->src = nd_u8(); m[k]->rxtime = nd_u32();
		if (k) m[k - 1]->next = m[k];
	}
	vp_assert(vp_live == 2 * NM || OFF == 0, "two blocks per message");
	int live = vp_live;
	d = diag_dupsinglemsg(m[0]);
	vp_assert(d != NULL, "single copy");
	same(m[0], d);
	vp_assert(d->next == NULL, "single copy is not chained");
	if (d->len) { d->data[0] ^= 0xff; vp_assert(m[0]->data[0] != d->data[0], "changing the copy leaves the original alone"); }
	diag_freemsg(d);
	vp_assert(vp_live == live, "single copy fully released");
	vp_oom_mask = OOM; vp_alloc_n = 0;
	d = diag_dupmsg(m[0]);
	unsigned used = vp_alloc_n;
	vp_oom_mask = 0;
	bool fails = false;
	unsigned need = 0;
	for (k = 0; k < NM; k++) need += lens[k] ? 2 : 1;
	for (i = 0; i < need; i++) if (OOM & (1u << i)) fails = true;
	vp_assert((d == NULL) == fails, "copying fails exactly when memory runs out");
	if (d == NULL) {
		vp_assert(vp_live == live, "failed copy gives everything back");
		vp_witness("oom");
	} else {
		struct diag_msg *a = m[0], *b = d;
		for (k = 0; k < NM; k++, a = a->next, b = b->next) {
			vp_assert(b != NULL, "whole chain copied");
			same(a, b);
		}
		vp_assert(b == NULL && used == need, "no more than the chain copied");
		diag_freemsg(d);
		vp_assert(vp_live == live, "chain fully released");
		vp_witness("copied");
	}
	diag_freemsg(m[0]);
	vp_assert(vp_live == 0, "everything released");
	vp_assert(diag_allocmsg(DIAG_MAX_MSGLEN + 1) == NULL && vp_live == 0, "over-long message refused");
	vp_oom_mask = 1; vp_alloc_n = 0;
	vp_assert(diag_allocmsg(4) == NULL && vp_live == 0, "no memory for the message");
	vp_oom_mask = 2; vp_alloc_n = 0;
	vp_assert(diag_allocmsg(4) == NULL && vp_live == 0, "no memory for the payload");
	diag_freemsg(NULL);
}
