/* Trouble codes as text. Shape: LEN bytes, BUF buffer size, PROTO */
#include "vp.h"
#include "diag_dtc.h"
#include <stdlib.h>
void harness(void) {
	uint8_t *d = malloc(LEN ? LEN : 1), *d2 = malloc(LEN ? LEN : 1);
	char *b = malloc(BUF), *b2 = malloc(BUF);
	static const char hx[] = "0123456789ABCDEF";
	unsigned i, n, n2;
	nd_bytes(d, LEN); nd_bytes(d2, LEN);
	vp_assert(diag_dtc_decode(d, LEN, NULL, NULL, PROTO, b, BUF) == b, "returns the text");
	diag_dtc_decode(d2, LEN, NULL, NULL, PROTO, b2, BUF);
	for (n = 0; n < BUF; n++) if (!b[n]) break;
	for (n2 = 0; n2 < BUF; n2++) if (!b2[n2]) break;
	vp_assert(n < BUF && n2 < BUF, "terminated inside the buffer");
	if (PROTO == dtc_proto_j2012 && LEN == 2) {
		char e[5] = { "PCBU"[d[0] >> 6], hx[(d[0] >> 4) & 3], hx[d[0] & 15], hx[d[1] >> 4], hx[d[1] & 15] };
		for (i = 0; i < 5 && i + 1 < BUF; i++) vp_assert(b[i] == e[i], "letter, digit and three hexadecimal digits");
		if (BUF > 6) {
			for (i = 5; i < n; i++) vp_assert(b[i] == ' ', "nothing but blanks follow");
			bool same = n == n2;
			for (i = 0; i < n && i < n2; i++) same &= b[i] == b2[i];
			vp_assert(same == (d[0] == d2[0] && d[1] == d2[1]), "different codes look different");
		}
	} else if (BUF > 8) {
		vp_assert(n > 5, "an explanation");
		vp_assert(!((b[0] == 'P' || b[0] == 'C' || b[0] == 'B' || b[0] == 'U') && b[1] >= '0' && b[1] <= '3'), "nothing that looks like a code");
	}
	free(d); free(d2); free(b); free(b2);
	vp_witness("done");
}
