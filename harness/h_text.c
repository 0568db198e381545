/* Decoding messages to text. Shape: DEC j J1979, i ISO14230 short, r ISO14230 response, v VAG, d trouble code
 *  FIRST..LAST service bytes (concrete, looped), LEN message length, BUF size of the text buffer (0: 256) , CODE.. for negative responses
 * Every other byte is symbolic. The text buffer and the message are objects of exact size. */
#include "vp_bus.h"
#include "diag_l3.h"
#include "diag_iso14230.h"
#include "diag_l3_iso14230.h"
#include "diag_dtc.h"
#include <stdlib.h>
#include <string.h>
int vp_on_send(const uint8_t *d, size_t l) { (void)d; (void)l; return 0; }
int vp_on_recv(uint8_t *d, size_t l, unsigned t) { (void)d; (void)l; (void)t; return 0; }
int vp_on_ioctl(unsigned c, void *d) { (void)c; (void)d; return 0; }
extern const struct diag_l3_proto diag_l3_vag, diag_l3_iso14230, diag_l3_j1979;
#ifndef STEP
#define STEP 1
#endif
#ifndef BUF
#define BUF 256
#endif
#ifndef DIGS
#define DIGS 0
#endif
#ifndef CODES
#define CODES 0
#endif
extern uint8_t vp_xd[16]; extern unsigned vp_xdn, vp_xdi;
static char buf[BUF];
#if LEN > 0
static uint8_t mdata[LEN];
#else
#define mdata NULL
#endif
extern size_t vp_strlen(const char *);
extern void vp_forget(const char *);
static unsigned tl;             /* length of the text */
static bool at(unsigned p, const char *s) {
	bool ok = true;
	for (unsigned i = 0; s[i]; i++) { if (p + i >= tl) return false; ok &= buf[p + i] == s[i]; }
	return ok;
}
static bool has(const char *s) {
	bool any = false;
	for (unsigned p = 0; p < tl; p++) any |= at(p, s);
	return any;
}
static char hx(unsigned v) { return v < 10 ? '0' + v : 'A' + v - 10; }
static char *hex(uint8_t b) { static char t[5]; t[0] = '0'; t[1] = 'x'; t[2] = hx(b >> 4); t[3] = hx(b & 15); t[4] = 0; return t; }
/* text ends with the bytes from k on, each as "0xNN " */
static bool tail(const uint8_t *d, unsigned n, unsigned k) {
	bool ok = true;
	if (tl < 5 * (n - k)) return false;
	for (unsigned i = k; i < n; i++) { unsigned p = tl - 5 * (n - i); ok &= at(p, hex(d[i])) && buf[p + 4] == ' '; }
	return ok;
}
static void scan(unsigned n) {
	tl = vp_strlen(buf);
	vp_assert(tl < n, "terminated inside the buffer");
}
static const struct { uint8_t id; const char *n; } sid[] = {
	{0x10, "startDiagnosticSession"}, {0x11, "ecuReset"}, {0x12, "readFreezeFrameData"}, {0x13, "readDiagnosticTroubleCodes"}, {0x14, "clearDiagnosticInformation"}, {0x17, "readStatusOfDiagnosticTroubleCodes"},
	{0x18, "readDiagnosticTroubleCodesByStatus"}, {0x1A, "readEcuId"}, {0x20, "stopDiagnosticSession"}, {0x21, "readDataByLocalId"}, {0x22, "readDataByCommonId"}, {0x23, "readMemoryByAddress"}, {0x26, "setDataRates"},
	{0x27, "securityAccess"}, {0x2E, "writeDataByCommonId"}, {0x30, "inputOutputControlByLocalId"}, {0x31, "startRoutineByLocal"}, {0x34, "requestDownload"}, {0x35, "requestUpload"},
	{0x3B, "writeDataByLocalId"}, {0x3D, "writeMemoryByAddress"}, {0x3E, "testerPresent"} };
static const struct { uint8_t id; const char *n; } neg[] = {
	{0x10, "eneralReject"}, {0x11, "erviceNotSupported"}, {0x12, "ubFunctionNotSupported"}, {0x21, "busy"}, {0x22, "onditionsNot"}, {0x23, "outineNotComplete"}, {0x31, "equestOutOfRange"}, {0x33, "ecurityAccessDenied"},
	{0x35, "nvalidKey"}, {0x36, "NumberOfAttempts"}, {0x37, "TimeDelayNotExpired"}, {0x40, "ownloadNotAccepted"}, {0x41, "mproperDownloadType"}, {0x42, "DownloadToSpecifiedAddress"}, {0x50, "ploadNotAccepted"},
	{0x51, "mproperUploadType"}, {0x52, "UploadFromSpecifiedAddress"}, {0x71, "ransferSuspended"}, {0x72, "ransferAborted"}, {0x74, "llegalAddressInBlockTransfer"}, {0x75, "llegalByteCountInBlockTransfer"}, {0x77, "hecksumError"}, {0x78, "ending"}, {0x80, "InActiveDiagnosti"} };
static const char *sidname(uint8_t id) { for (unsigned i = 0; i < sizeof(sid) / sizeof(*sid); i++) if (sid[i].id == id) return sid[i].n; return NULL; }
static const char *negname(uint8_t id) { for (unsigned i = 0; i < sizeof(neg) / sizeof(*neg); i++) if (neg[i].id == id) return neg[i].n; return NULL; }

void harness(void) {
	struct diag_msg m = {0};
	for (unsigned s = FIRST; s <= LAST; s += STEP) {
		m.len = LEN;
		m.data = mdata;
		for (unsigned i = 0; i < LEN; i++) m.data[i] = i == 0 && !CODES ? s : nd_u8();
		if (CODES) { m.data[0] = 0x7F; if (LEN > 1) m.data[1] = 0x21; if (LEN > 2) m.data[2] = s; }
#ifdef ZERO     /* which trouble codes of a report are empty */
		for (unsigned i = 0; i < 3; i++) {
			if ((ZERO >> i) & 1) m.data[1 + 2 * i] = m.data[2 + 2 * i] = 0;
			else m.data[2 + 2 * i] = SECOND;
		}
#endif
		if (DEC == 'j') diag_l3_j1979.diag_l3_proto_decode(NULL, &m, buf, BUF);
		else if (DEC == 'i') diag_l3_iso14230.diag_l3_proto_decode(NULL, &m, buf, BUF);
		else if (DEC == 'v') {
			static const uint8_t known[] = { 5, 6, 7, 8, 0xF6, 0xFC };
			bool kn = false;
			m.type = s;
			vp_xdn = vp_xdi = 0;
			for (unsigned i = 0; i < 6; i++) kn |= s == known[i];
			if (!kn) vp_xd[vp_xdn++] = 1 + (s > 15);
			for (unsigned i = 0; i < LEN && i < 8; i++) {
				bool two = (DIGS >> i) & 1;
				if (two) { m.data[i] = nd_u8(); vp_assume(m.data[i] > 15); } else m.data[i] = nd_u8() & 15;
				vp_xd[vp_xdn++] = 1 + two;
			}
			for (unsigned i = 8; i < LEN; i++) m.data[i] = 16 + i;
			diag_l3_vag.diag_l3_proto_decode(NULL, &m, buf, BUF);
		}
		else if (DEC == 'r') vp_assert(diag_l3_iso14230_decode_response(&m, buf, BUF) == buf, "text");
		scan(BUF);
		vp_assert(tl > 0 || BUF < 2, "some text");
#if BUF >= 256 && LEN <= 36
		if (DEC == 'j' && LEN > 0) {
			vp_assert(has(s & 0x40 ? "esponse" : "equest"), "request or response");
			unsigned lo = s & 0xBF;
			if (s == 0x41 || s == 0x46 || s == 0x48 || s == 0x49 || s == 0x45 || s == 0x42) {
				unsigned k = s == 0x42 || s == 0x45 ? 3 : 2;
				if (LEN >= k) {
					vp_assert(tail(m.data, LEN, k), "every data byte is shown, in order");
					vp_assert(has(hex(m.data[1])), "the PID or test is shown");
					if (k == 3) vp_assert(has(hex(m.data[2])), "the frame or sensor is shown");
				}
			} else if ((s == 0x01 || s == 0x02 || s == 0x05 || s == 0x06 || s == 0x08 || s == 0x09) && LEN >= 3) {
				vp_assert(has(hex(m.data[1])), "the requested PID or test is shown");
				if (s == 2 || s == 5) vp_assert(has(hex(m.data[2])), "the requested frame or sensor is shown");
			} else if (s == 0x43 || s == 0x47) {
#ifdef ZERO
				unsigned n = 0;
				for (unsigned i = 0; i < 3; i++) n += !((ZERO >> i) & 1);
				unsigned p = tl;
				for (int i = 2; i >= 0; i--) if (!((ZERO >> i) & 1)) {
					uint8_t a = m.data[1 + 2 * i], b = m.data[2 + 2 * i];
					p -= 7;
					char e[6] = { "PCBU"[a >> 6], hx((a >> 4) & 3), hx(a & 15), hx(b >> 4), hx(b & 15), 0 };
					vp_assert(at(p, e), "each trouble code is shown");
				}
#endif
			} else if (lo > 9) vp_assert(tail(m.data, LEN, 0), "an unknown message is dumped");
		}
		if (DEC == 'v') {
			unsigned p = tl - 1;
			vp_assert(has("Data"), "data shown");
			for (int i = LEN - 1; i >= 0; i--) {
				uint8_t b = m.data[i];
				char e[4] = { hx(b >> 4), hx(b & 15), ' ', 0 };
				bool two = i > 7 || ((DIGS >> i) & 1);
				p -= 4 + two;
				vp_assert(at(p, "0x") && at(p + 2, two ? e : e + 1), "each data byte is shown, in order");
			}
		}
		if (DEC == 'r' && LEN > 0) {
			if (!CODES) {
				const char *n = s & 0x40 ? sidname(s & ~0x40) : NULL;
				if (s == 0xC1) n = "StartCommunications";
				if (s == 0xC2) n = "StopCommunications";
				if (s == 0xC3) n = "AccessTimingParameters";
				if (n && s != 0x7F) vp_assert(has(n), "the service is named");
				if (!(s & 0x40)) vp_assert(has(hex(s)), "an unknown response is shown");
				if (s == 0x61 && LEN > 1) vp_assert(has(hex(m.data[1])), "the identifier is shown");
			} else if (LEN >= 3) {
				const char *n = negname(s);
				vp_assert(has("rror"), "a refusal is recognisable");
				vp_assert(has("readDataByLocalId"), "the refused service is named");
				if (n) vp_assert(has(n), "the reason is named");
			}
		}
#endif
		vp_forget(buf);
	}
	vp_witness("done");
}
