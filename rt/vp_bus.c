#include "vp_bus.h"

uint32_t vp_l0flags;
unsigned vp_opens, vp_closes;
int vp_open_rv;
unsigned long vp_now = 1000;
unsigned long vp_slept;
unsigned vp_locked;

static int l0_init(void) { return 0; }
static int l0_new(struct diag_l0_device *d) { (void)d; return 0; }
static struct cfgi *l0_getcfg(struct diag_l0_device *d) { (void)d; return NULL; }
static void l0_del(struct diag_l0_device *d) { (void)d; }
static int l0_open(struct diag_l0_device *d, int p) {
	(void)p;
	if (vp_open_rv) return vp_open_rv;
	vp_opens++;
	d->opened = 1;
	return 0;
}
static void l0_close(struct diag_l0_device *d) { vp_closes++; d->opened = 0; }
static uint32_t l0_getflags(struct diag_l0_device *d) { (void)d; return vp_l0flags; }
static int l0_recv(struct diag_l0_device *d, void *data, size_t len, unsigned timeout) {
	(void)d; return vp_on_recv(data, len, timeout);
}
static int l0_send(struct diag_l0_device *d, const void *data, size_t len) {
	(void)d; return vp_on_send(data, len);
}
static int l0_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	(void)d; return vp_on_ioctl(cmd, data);
}
struct diag_l0 vp_l0 = {
	.longname = "stub", .shortname = "STUB", .l1proto_mask = 0xff,
	.init = l0_init, ._new = l0_new, ._getcfg = l0_getcfg, ._del = l0_del,
	._open = l0_open, ._close = l0_close, ._getflags = l0_getflags,
	._recv = l0_recv, ._send = l0_send, ._ioctl = l0_ioctl,
};
struct diag_l0_device vp_dl0d = { .dl0 = &vp_l0 };

#ifndef VP_OWN_L0LIST
const struct diag_l0 *l0dev_list[] = { &vp_l0, NULL };
#endif
#ifdef VP_L2PROTO
extern const struct diag_l2_proto VP_L2PROTO;
const struct diag_l2_proto *l2proto_list[] = { &VP_L2PROTO, NULL };
#endif

/* OS */
#ifndef VP_OWN_CLOCK
unsigned long diag_os_getms(void) { return vp_now; }
void diag_os_millisleep(unsigned ms) { vp_now += ms; vp_slept += ms; }
unsigned long long diag_os_gethrt(void) { return (unsigned long long)vp_now * 1000; }
unsigned long long diag_os_hrtus(unsigned long long d) { return d; }
#endif
int diag_os_init(void) { return 0; }
int diag_os_close(void) { return 0; }
int diag_os_ipending(void) { return 1; }
const char *diag_os_geterr(OS_ERRTYPE e) { (void)e; return ""; }
/* a mutex is one int: taking it twice on the same thread is a deadlock */
void diag_os_initmtx(diag_mtx *m) { m->__data.__lock = 0; }
void diag_os_initstaticmtx(diag_mtx *m) { m->__data.__lock = 0; }
void diag_os_delmtx(diag_mtx *m) { (void)m; }
void diag_os_lock(diag_mtx *m) {
	vp_assert(m->__data.__lock == 0, "lock taken twice by one thread (deadlock)");
	m->__data.__lock = 1;
	vp_locked++;
}
bool diag_os_trylock(diag_mtx *m) {
	if (m->__data.__lock) return false;
	m->__data.__lock = 1;
	vp_locked++;
	return true;
}
void diag_os_unlock(diag_mtx *m) {
	vp_assert(m->__data.__lock == 1, "unlock of a mutex that is not held");
	m->__data.__lock = 0;
	vp_locked--;
}
void diag_os_calibrate(void) {}
