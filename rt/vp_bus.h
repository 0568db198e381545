/* Stub adapter (L0 driver) and stub OS under the real L1/L2/L3 code. */
#ifndef VP_BUS_H
#define VP_BUS_H
#include "vp.h"
#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"

extern uint32_t vp_l0flags;
extern unsigned vp_opens, vp_closes;     /* adapter open/close calls */
extern int vp_open_rv;
extern struct diag_l0_device vp_dl0d;
extern struct diag_l0 vp_l0;

/* provided by each harness */
int vp_on_send(const uint8_t *data, size_t len);
int vp_on_recv(uint8_t *data, size_t len, unsigned timeout);
int vp_on_ioctl(unsigned cmd, void *data);

/* clock */
extern unsigned long vp_now;
extern unsigned long vp_slept;           /* total of requested sleeps, ms */
extern unsigned vp_locked;               /* mutexes held */
#endif
