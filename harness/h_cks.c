/* diag_cks1: the 8-bit sum of all bytes, for any content. Shape: N */
#include "vp_bus.h"
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return 0; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
void harness(void) {
	uint8_t b[N + 1]; unsigned sum = 0;
	nd_bytes(b, N + 1);
	for (unsigned i = 0; i < N; i++) sum += b[i];
	vp_assert(diag_cks1(b, N) == (uint8_t)sum, "checksum is the 8-bit sum of the bytes");
	vp_witness("summed");
}
