/* J1850 CRC against its bitwise definition (poly 0x1D, init 0xFF, complemented). Shape: N bytes, S first symbolic byte, K symbolic bytes */
#include "vp_bus.h"
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return 0; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
uint8_t dl2p_j1850_crc(uint8_t *msg_buf, int nbytes);
void harness(void) {
	uint8_t b[N + 1], c = 0xff;
	for (int i = 0; i < N; i++) b[i] = (i >= S && i < S + K) ? nd_u8() : (uint8_t)(i * 37 + 5);
	for (int i = 0; i < N; i++) {
		c ^= b[i];
		for (int k = 0; k < 8; k++) c = (uint8_t)((c << 1) ^ ((c & 0x80) ? 0x1D : 0));
	}
	vp_assert(dl2p_j1850_crc(b, N) == (uint8_t)~c, "SAE J1850 CRC");
	vp_witness("crc");
}
