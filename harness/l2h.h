/* Scripted bus: bytes/timeouts delivered by the stub adapter, and a log of what was sent. */
#ifndef L2H_H
#define L2H_H
#include "vp_bus.h"
#include <string.h>

#ifndef RXMAX
#define RXMAX 600
#endif
#ifndef TXMAX
#define TXMAX 300
#endif
#ifndef EVMAX
#define EVMAX 32
#endif
static uint8_t rx_b[RXMAX];
static unsigned rx_n, rx_pos;           /* bytes queued / consumed */
static int rx_ev[EVMAX];                /* >0: so many bytes arrive together; 0: nothing arrives in time; <0: error */
static unsigned rx_evn, rx_evi;
static unsigned rx_calls;

static void rx_add(uint8_t b) { rx_b[rx_n++] = b; }
static void rx_event(int e) { rx_ev[rx_evn++] = e; }
static int rx_serve(uint8_t *data, size_t len) {
	int e, k;
	rx_calls++;
	if (rx_evi >= rx_evn) return DIAG_ERR_TIMEOUT;
	e = rx_ev[rx_evi];
	if (e <= 0) {
		rx_evi++;
		return e == 0 ? DIAG_ERR_TIMEOUT : e;
	}
	k = (size_t)e < len ? e : (int)len;
	for (int i = 0; i < k; i++) data[i] = rx_b[rx_pos + i];
	rx_pos += k;
	if (k == e) rx_evi++; else rx_ev[rx_evi] = e - k;
	return k;
}

static uint8_t tx_b[TXMAX];
static unsigned tx_n;                   /* bytes logged */
static unsigned tx_frames;              /* adapter writes */
static unsigned tx_start[EVMAX + 1];    /* start of each write in tx_b */
static void tx_log(const uint8_t *data, size_t len) {
	vp_assert(tx_n + len <= TXMAX, "sent no more than the harness expects");
	vp_assert(tx_frames < EVMAX, "sent no more often than the harness expects");
	tx_start[tx_frames++] = tx_n;
	for (unsigned i = 0; i < len; i++) tx_b[tx_n + i] = data[i];
	tx_n += len;
}
#endif
