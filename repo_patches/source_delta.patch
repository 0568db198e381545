From 0817ce4b42690534c47ccde9d5eba70d627335af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 01/73] fix: iso14230 recv: do not truncate the length of
 frames longer than 255 bytes when splitting

---
 scantool/diag_l2_iso14230.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index 919329d..06c53aa 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -433,8 +433,8 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 			if (amsg == NULL) {
 				return diag_iseterr(DIAG_ERR_NOMEM);
 			}
-			amsg->len = (uint8_t) rv;
-			tmsg->len -= (uint8_t) rv;
+			amsg->len = rv;
+			tmsg->len -= rv;
 			tmsg->data += rv;
 
 			/*  Insert new amsg before old msg */
-- 
2.43.0


From 1ccf8bb5c992f7d0f519560002f614848ef78026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 02/73] fix: iso14230 recv: discard the messages of a failed
 receive instead of delivering them as the next response

---
 scantool/diag_l2_iso14230.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index 06c53aa..8c0833f 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -378,6 +378,11 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 	 * off headers etc
 	 */
 	if (rv < 0) {
+		//don't keep anything from a failed receive: it would be taken
+		//for (part of) the next one.
+		dp->rxoffset = 0;
+		diag_freemsg(d_l2_conn->diag_msg);
+		d_l2_conn->diag_msg = NULL;
 		return rv;
 	}
 
@@ -398,7 +403,8 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 			                        dp->first_frame);
 
 			if (rv <= 0 || rv > 260) { /* decode failure */
-				return diag_iseterr(DIAG_ERR_BADDATA);
+				rv = DIAG_ERR_BADDATA;
+				goto badmsg;
 			}
 
 			// check for sufficient data: (rv = expected len = hdrlen + datalen + ckslen)
@@ -408,7 +414,8 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 					expected_len -= 1;
 				}
 				if (expected_len > tmsg->len) {
-					return diag_iseterr(DIAG_ERR_INCDATA);
+					rv = DIAG_ERR_INCDATA;
+					goto badmsg;
 				}
 			}
 		}
@@ -431,7 +438,8 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 			struct diag_msg *amsg;
 			amsg = diag_dupsinglemsg(tmsg);
 			if (amsg == NULL) {
-				return diag_iseterr(DIAG_ERR_NOMEM);
+				rv = DIAG_ERR_NOMEM;
+				goto badmsg;
 			}
 			amsg->len = rv;
 			tmsg->len -= rv;
@@ -492,6 +500,11 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 		tmsg = tmsg->next;
 	}
 	return rv;
+
+badmsg:
+	diag_freemsg(d_l2_conn->diag_msg);
+	d_l2_conn->diag_msg = NULL;
+	return diag_iseterr(rv);
 }
 
 
-- 
2.43.0


From 5ec0b8c269060de9aca1b4bd120111b97b2639f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 03/73] fix: iso14230 recv: refuse framed messages too short
 for header, data and checksum

---
 scantool/diag_l2_iso14230.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index 8c0833f..ea90c67 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -471,6 +471,14 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 		}
 
 
+		// an L1 that does framing may give us something too short to
+		// hold the header, some data and the checksum.
+		if (tmsg->len < (unsigned) hdrlen + 1 +
+		    ((l1flags & DIAG_L1_STRIPSL2CKSUM) ? 0 : 1)) {
+			rv = DIAG_ERR_INCDATA;
+			goto badmsg;
+		}
+
 		//if cs wasn't stripped, we check it:
 		if ((l1flags & DIAG_L1_STRIPSL2CKSUM) == 0) {
 			uint8_t calc_sum=diag_cks1(tmsg->data, (tmsg->len)-1);
-- 
2.43.0


From e14a9a53d1b6b0a8adff860c1cdacfdec4dd7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 04/73] fix: iso14230 recv: memmove for overlapping buffers in
 monitor mode

---
 scantool/diag_l2_iso14230.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index ea90c67..bdce494 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -360,7 +360,7 @@ static int dl2p_14230_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 			 */
 			dp->rxoffset--;
 			if (dp->rxoffset) {
-				memcpy(&dp->rxbuf[0], &dp->rxbuf[1],
+				memmove(&dp->rxbuf[0], &dp->rxbuf[1],
 				       (size_t)dp->rxoffset);
 			}
 			continue;
-- 
2.43.0


From 9fd68b019baaf46e3453277aa44efd274c6756e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 05/73] fix: iso14230 send: refuse payloads longer than 255
 bytes

---
 scantool/diag_l2_iso14230.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index bdce494..0833c19 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -897,7 +897,8 @@ static int dl2p_14230_send(struct diag_l2_conn *d_l2_conn, struct diag_msg *msg)
 	int offset=0;   //data payload starts at buf[offset}
 	struct diag_l2_14230 *dp;
 
-	if (msg->len < 1) {
+	// the length fields of the header can't describe more than 255 bytes
+	if (msg->len < 1 || msg->len > 255) {
 		return diag_iseterr(DIAG_ERR_BADLEN);
 	}
 
-- 
2.43.0


From 00a8eacf31c9aa5d20c3810bd0a47056e0514d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 06/73] fix: iso14230 request: do not read past the end of
 short negative responses

---
 scantool/diag_l2_iso14230.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index 0833c19..968a293 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -1087,7 +1087,7 @@ static struct diag_msg *dl2p_14230_request(struct diag_l2_conn *d_l2_conn, struc
 			break;
 		}
 
-		if (rmsg && rmsg->data[2] == DIAG_KW2K_RC_B_RR) {
+		if (rmsg && rmsg->len >= 3 && rmsg->data[2] == DIAG_KW2K_RC_B_RR) {
 			/*
 			 * Msg is busyRepeatRequest
 			 * So send again (if retries>0).
@@ -1117,7 +1117,7 @@ static struct diag_msg *dl2p_14230_request(struct diag_l2_conn *d_l2_conn, struc
 			continue;
 		}
 
-		if (rmsg && rmsg->data[2] == DIAG_KW2K_RC_RCR_RP) {
+		if (rmsg && rmsg->len >= 3 && rmsg->data[2] == DIAG_KW2K_RC_RCR_RP) {
 			/*
 			 * Msg is a requestCorrectlyRcvd-RspPending
 			 * so do read again
-- 
2.43.0


From 90c56c9a29196f1d7cbcaad0f085fa68bbcda63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 07/73] fix: iso14230 startcomms: refuse truncated responses,
 do not leak a refused one

---
 scantool/diag_l2_iso14230.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index 968a293..e46118f 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -660,6 +660,11 @@ static int dl2p_14230_startcomms( struct diag_l2_conn      *d_l2_conn, flag_type
 
 		switch (d_l2_conn->diag_msg->data[0]) {
 		case DIAG_KW2K_RC_SCRPR:        /* StartComms positive response */
+			if (d_l2_conn->diag_msg->len < 3) {
+				//no keybytes !?
+				rv = DIAG_ERR_INCDATA;
+				break;
+			}
 
 			d_l2_conn->diag_l2_kb1 = d_l2_conn->diag_msg->data[1];
 			d_l2_conn->diag_l2_kb2 = d_l2_conn->diag_msg->data[2];
@@ -716,6 +721,11 @@ static int dl2p_14230_startcomms( struct diag_l2_conn      *d_l2_conn, flag_type
 		if (rv < 0) {
 			break;
 		}
+		if (rv < 2) {
+			//need both mode bytes
+			rv = DIAG_ERR_INCDATA;
+			break;
+		}
 
 		/* ISO14230 uses KB2 of 0x8F */
 		if (cbuf[1] != 0x8f) {
@@ -780,6 +790,8 @@ static int dl2p_14230_startcomms( struct diag_l2_conn      *d_l2_conn, flag_type
 	//At this point we just finished the handshake and got KB1 and KB2
 
 	if (rv < 0) {
+		diag_freemsg(d_l2_conn->diag_msg);
+		d_l2_conn->diag_msg = NULL;
 		free(dp);
 		d_l2_conn->diag_l2_proto_data=NULL;     //delete pointer to dp
 		return diag_iseterr(rv);
-- 
2.43.0


From f7bd2da1ac9273becacfefb5a3746976f2be1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 08/73] fix: L1 send: do not compare a short block echo with
 unread stack contents

---
 scantool/diag_l1.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_l1.c b/scantool/diag_l1.c
index 671f812..2cbd806 100644
--- a/scantool/diag_l1.c
+++ b/scantool/diag_l1.c
@@ -172,10 +172,8 @@ int diag_l1_send(struct diag_l0_device *dl0d, const void *data, size_t len, unsi
 			//if ever slow speeds are used.
 			if (diag_l0_recv(dl0d, duplexbuf, len, 300+len) != (int) len) {
 				rv=DIAG_ERR_GENERAL;
-			}
-
-			//compare to sent bytes
-			if ( memcmp(duplexbuf, data, len) !=0) {
+			} else if ( memcmp(duplexbuf, data, len) !=0) {
+				//echo differs from sent bytes
 				fprintf(stderr,FLFMT "Bus Error: bad half duplex echo!\n", FL);
 				rv=DIAG_ERR_BUSERROR;
 			}
-- 
2.43.0


From b34abb09b1130a367a55d5dee9ff6e1c85624043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 09/73] fix: L2 open: close the adapter again when out of
 memory

---
 scantool/diag_l2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_l2.c b/scantool/diag_l2.c
index 2b4366a..f452b80 100644
--- a/scantool/diag_l2.c
+++ b/scantool/diag_l2.c
@@ -253,6 +253,7 @@ int diag_l2_open(struct diag_l0_device *dl0d, int L1protocol) {
 
 	/* Create the L2 link */
 	if ((rv=diag_calloc(&dl2l, 1))) {
+		diag_l1_close(dl0d);
 		return diag_ifwderr(rv);
 	}
 
-- 
2.43.0


From 78a09266fe875978f78d97d18dcbd2a2bee53829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 10/73] fix: L2 StartCommunications: release messages left by a
 failed start

---
 scantool/diag_l2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scantool/diag_l2.c b/scantool/diag_l2.c
index f452b80..d975cb8 100644
--- a/scantool/diag_l2.c
+++ b/scantool/diag_l2.c
@@ -425,6 +425,8 @@ struct diag_l2_conn *diag_l2_StartCommunications(struct diag_l0_device *dl0d, in
 		DIAG_DBGM(diag_l2_debug, DIAG_DEBUG_OPEN, DIAG_DBGLEVEL_V,
 		          FLFMT "protocol startcomms returned %d\n", FL, rv);
 
+		//the protocol may have left a received message attached
+		diag_freemsg(d_l2_conn->diag_msg);
 		free(d_l2_conn);
 		diag_os_unlock(&l2internal.connlist_mtx);
 		return diag_pfwderr(rv);
-- 
2.43.0


From 4bd9ce6b2218e36854a5f526af4345ff14217855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 11/73] fix: iso14230 startcomms: do not loop forever on a
 failing adapter while waiting for bus idle

---
 scantool/diag_l2_iso14230.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l2_iso14230.c b/scantool/diag_l2_iso14230.c
index e46118f..20dce93 100644
--- a/scantool/diag_l2_iso14230.c
+++ b/scantool/diag_l2_iso14230.c
@@ -825,7 +825,7 @@ static int dl2p_14230_startcomms( struct diag_l2_conn      *d_l2_conn, flag_type
 	}
 
 	while (diag_l1_recv(d_l2_conn->diag_link->l2_dl0d, data,
-	                    sizeof(data), wait_time) != DIAG_ERR_TIMEOUT) {
+	                    sizeof(data), wait_time) > 0) {
 		;
 	}
 
-- 
2.43.0


From 5d32fd6eab74c51aa6f37480fe58bb0292ef6ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 12/73] fix: iso9141 recv: do not read past the end of a one
 byte message

---
 scantool/diag_l2_iso9141.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l2_iso9141.c b/scantool/diag_l2_iso9141.c
index d9ff0e5..9a14122 100644
--- a/scantool/diag_l2_iso9141.c
+++ b/scantool/diag_l2_iso9141.c
@@ -281,7 +281,7 @@ static int dl2p_iso9141_decode(uint8_t *data, int len,
 	              FLFMT "decode len %d: ", FL, len);
 
 	//Check header bytes:
-	if (data[0] != 0x48 || data[1] != 0x6B) {
+	if (len < 2 || data[0] != 0x48 || data[1] != 0x6B) {
 		return diag_iseterr(DIAG_ERR_BADDATA);
 	}
 
-- 
2.43.0


From 12806ebcdc5ddf756a9cb5f74ae8fb1d69a807d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 13/73] fix: iso9141 recv: discard bytes of a frame interrupted
 by an adapter error

---
 scantool/diag_l2_iso9141.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scantool/diag_l2_iso9141.c b/scantool/diag_l2_iso9141.c
index 9a14122..6f039a6 100644
--- a/scantool/diag_l2_iso9141.c
+++ b/scantool/diag_l2_iso9141.c
@@ -496,6 +496,8 @@ int dl2p_iso9141_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int timeout)
 	// and strip off their headers and checksums
 	// after verifying them.
 	if (rv < 0) {
+		//drop partial frames, or they would end up in the next message
+		dp->rxoffset = 0;
 		return diag_iseterr(rv);
 	}
 
-- 
2.43.0


From 3d87006b2087a4df5181734ae9b2b9d810fb52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 14/73] fix: J1850 CRC: do not loop forever on messages longer
 than 255 bytes

---
 scantool/diag_l2_saej1850.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scantool/diag_l2_saej1850.c b/scantool/diag_l2_saej1850.c
index d648d8e..1964d70 100644
--- a/scantool/diag_l2_saej1850.c
+++ b/scantool/diag_l2_saej1850.c
@@ -124,7 +124,8 @@ static int dl2p_j1850_stopcomms(struct diag_l2_conn *d_l2_conn) {
 
 /* Thanks to B. Roadman's web site for this CRC code */
 uint8_t dl2p_j1850_crc(uint8_t *msg_buf, int nbytes) {
-	uint8_t crc_reg=0xff,poly,i,j;
+	uint8_t crc_reg=0xff,poly,j;
+	int i;
 	uint8_t *byte_point;
 	uint8_t bit_point;
 
-- 
2.43.0


From 94f0393cc42b5a91c239926057c8097495b778fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 15/73] fix: J1850 recv: do not free received messages twice
 after a failed receive

---
 scantool/diag_l2_saej1850.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scantool/diag_l2_saej1850.c b/scantool/diag_l2_saej1850.c
index 1964d70..d465e43 100644
--- a/scantool/diag_l2_saej1850.c
+++ b/scantool/diag_l2_saej1850.c
@@ -235,6 +235,7 @@ static int dl2p_j1850_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 
 	dp = (struct diag_l2_j1850 *)d_l2_conn->diag_l2_proto_data;
 	diag_freemsg(d_l2_conn->diag_msg);
+	d_l2_conn->diag_msg = NULL;
 
 	DIAG_DBGM(diag_l2_debug, DIAG_DEBUG_READ, DIAG_DBGLEVEL_V,
 	          FLFMT "diag_l2_j1850_int_recv offset 0x%X, "
@@ -275,6 +276,7 @@ static int dl2p_j1850_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 		if (rv < 0) {
 			// Other errors are more serious.
 			diag_freemsg(d_l2_conn->diag_msg);
+			d_l2_conn->diag_msg = NULL;
 			return rv;
 		}
 		dp->rxoffset += rv;
@@ -307,6 +309,7 @@ static int dl2p_j1850_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int time
 		tmsg = diag_allocmsg(datalen);
 		if (tmsg == NULL) {
 			diag_freemsg(d_l2_conn->diag_msg);
+			d_l2_conn->diag_msg = NULL;
 			return diag_iseterr(DIAG_ERR_NOMEM);
 		}
 
-- 
2.43.0


From 9ca087c7fc015c6a7797ac5cca511c2dab3103d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 16/73] fix: L2 raw: copy the response into the message, not
 over its header; set errval when out of memory

---
 scantool/diag_l2_raw.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_raw.c b/scantool/diag_l2_raw.c
index 1fb4b0d..2dc812f 100644
--- a/scantool/diag_l2_raw.c
+++ b/scantool/diag_l2_raw.c
@@ -111,7 +111,7 @@ int dl2p_raw_recv(struct diag_l2_conn *d_l2_conn, unsigned int timeout,
 		return rv;
 	}
 
-	msg.len = (uint8_t) rv;
+	msg.len = (unsigned) rv;
 	msg.data = rxbuf;
 	/* This is raw, unframed data; we don't set .fmt */
 	msg.next = NULL;
@@ -159,9 +159,10 @@ struct diag_msg *dl2p_raw_request(struct diag_l2_conn *d_l2_conn, struct diag_ms
 	 */
 	rmsg = diag_allocmsg((size_t)rv);
 	if (rmsg == NULL) {
+		*errval = DIAG_ERR_NOMEM;
 		return diag_pseterr(DIAG_ERR_NOMEM);
 	}
-	memcpy(&rmsg->data, rxbuf, (size_t)rv); /* Data */
+	memcpy(rmsg->data, rxbuf, (size_t)rv); /* Data */
 	rmsg->fmt = 0;
 	rmsg->rxtime = diag_os_getms();
 
-- 
2.43.0


From 23934672127fb33dd9b288e3f733acdfe0272052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 17/73] fix: L2 MB1 startcomms: use the default speed, do not
 return a byte count as error

---
 scantool/diag_l2_mb1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_mb1.c b/scantool/diag_l2_mb1.c
index e19a81a..73d09fa 100644
--- a/scantool/diag_l2_mb1.c
+++ b/scantool/diag_l2_mb1.c
@@ -70,7 +70,7 @@ static int dl2p_mb1_startcomms( struct diag_l2_conn *d_l2_conn,
 	}
 	d_l2_conn->diag_l2_speed = baud;
 
-	set.speed = bitrate;
+	set.speed = baud;
 	set.databits = diag_databits_8;
 	set.stopbits = diag_stopbits_1;
 	set.parflag = diag_par_n;
@@ -138,7 +138,7 @@ static int dl2p_mb1_startcomms( struct diag_l2_conn *d_l2_conn,
 	 */
 	(void) dl2p_mb1_int_recv(d_l2_conn, 1000, rxbuf, sizeof(rxbuf));
 
-	return diag_iseterr(rv);
+	return 0;
 }
 
 static int dl2p_mb1_stopcomms(UNUSED(struct diag_l2_conn *dl2c)) {
-- 
2.43.0


From 963bff16a5d80f6090b06dd335fb9325c2f2c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 18/73] fix: L2 MB1 recv/request: do not copy the checksum past
 the end of the message; set errval when out of memory

---
 scantool/diag_l2_mb1.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_mb1.c b/scantool/diag_l2_mb1.c
index 73d09fa..a268fc8 100644
--- a/scantool/diag_l2_mb1.c
+++ b/scantool/diag_l2_mb1.c
@@ -274,7 +274,7 @@ static int dl2p_mb1_recv(struct diag_l2_conn *d_l2_conn, unsigned int timeout,
 		return diag_iseterr(DIAG_ERR_NOMEM);
 	}
 	msg->data[0] = rxbuf[1];                /* Command */
-	memcpy(&msg->data[1], &rxbuf[3], (size_t)(rv - 3));     /* Data */
+	memcpy(&msg->data[1], &rxbuf[3], (size_t)(rv - 5));     /* Data, without checksum */
 	msg->rxtime = diag_os_getms();
 	msg->fmt = DIAG_FMT_FRAMED;
 
@@ -377,10 +377,11 @@ static struct diag_msg *dl2p_mb1_request(struct diag_l2_conn *d_l2_conn, struct
 		 */
 		rmsg = diag_allocmsg((size_t)(rv - 4));
 		if (rmsg == NULL) {
+			*errval = DIAG_ERR_NOMEM;
 			return diag_pseterr(DIAG_ERR_NOMEM);
 		}
 		rmsg->data[0] = rxbuf[1];               /* Command */
-		memcpy(&rmsg->data[1], &rxbuf[3], (size_t)(rv - 3));    /* Data */
+		memcpy(&rmsg->data[1], &rxbuf[3], (size_t)(rv - 5));    /* Data, without checksum */
 		rmsg->rxtime = diag_os_getms();
 		rmsg->fmt = DIAG_FMT_FRAMED;
 	}
-- 
2.43.0


From a10612c89961ca369fd76ef666daa27a2cc1e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 19/73] fix: L2 MB1 recv: use the length byte of the message,
 report incomplete messages as errors

---
 scantool/diag_l2_mb1.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_l2_mb1.c b/scantool/diag_l2_mb1.c
index a268fc8..61c8376 100644
--- a/scantool/diag_l2_mb1.c
+++ b/scantool/diag_l2_mb1.c
@@ -166,12 +166,12 @@ static int dl2p_mb1_decode(uint8_t *data, int len, int *msglen) {
 		return diag_iseterr(DIAG_ERR_INCDATA);
 	}
 
+	*msglen = data[2];
+
 	if (data[2] > len) {
 		return diag_iseterr(DIAG_ERR_INCDATA);
 	}
 
-	*msglen = data[3];
-
 	for (i = 0, cksum = 0; i < len - 2; i++) {
 		cksum += data[i];
 	}
@@ -222,7 +222,6 @@ static int dl2p_mb1_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int timeou
 		}
 		if (rv != DIAG_ERR_INCDATA) {
 			/* Bad things happened */
-			rxoffset = rv;
 			break;
 		}
 
@@ -236,7 +235,8 @@ static int dl2p_mb1_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int timeou
 			readlen = len - rxoffset;
 		}
 	}
-	return rxoffset;
+	/* an error, or the rest of the message never came */
+	return (rv < 0) ? rv : rxoffset;
 }
 
 
-- 
2.43.0


From 9d034eaab8f1edfb325be91479c40a486eeecc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 20/73] fix: L2 MB1 send: refuse messages that do not fit the
 length byte

---
 scantool/diag_l2_mb1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scantool/diag_l2_mb1.c b/scantool/diag_l2_mb1.c
index 61c8376..3f437f4 100644
--- a/scantool/diag_l2_mb1.c
+++ b/scantool/diag_l2_mb1.c
@@ -309,6 +309,10 @@ static int dl2p_mb1_send(struct diag_l2_conn *d_l2_conn, struct diag_msg *msg) {
 	          FLFMT "diag_l2_send %p, msg %p called\n",
 	          FL, (void *)d_l2_conn, (void *)msg);
 
+	if (msg->len < 1 || msg->len > 255 - 4) {
+		return diag_iseterr(DIAG_ERR_BADLEN);
+	}
+
 	/*
 	 * Make sure enough time between last receive and this send
 	 * In fact, because of the timeout on recv(), this is pretty small, but
-- 
2.43.0


From 284318971f3d0cd9d4285b704a61a43dec2a619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 21/73] fix: L2 VAG recv: assume the end byte when it is lost,
 not the last byte sent

---
 scantool/diag_l2_vag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_l2_vag.c b/scantool/diag_l2_vag.c
index 764857f..66d2e0e 100644
--- a/scantool/diag_l2_vag.c
+++ b/scantool/diag_l2_vag.c
@@ -158,6 +158,7 @@ static struct diag_msg *diag_l2_vag_block_recv(struct diag_l2_conn *d_l2_conn, i
 						*errval = rv;
 						return diag_pfwderr(rv);
 					}
+					byte = KWP1281_END_BYTE;
 				} else {
 					//the first byte of the re-started message has arrived, so just reset the rxoffset
 					//and go on with the regular code path
-- 
2.43.0


From bfc5eb78f99383853d52e7a12829e34b827d0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 22/73] fix: L2 VAG recv: refuse blocks shorter than their
 header or length byte

---
 scantool/diag_l2_vag.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scantool/diag_l2_vag.c b/scantool/diag_l2_vag.c
index 66d2e0e..c4e8881 100644
--- a/scantool/diag_l2_vag.c
+++ b/scantool/diag_l2_vag.c
@@ -115,6 +115,11 @@ static struct diag_msg *diag_l2_vag_block_recv(struct diag_l2_conn *d_l2_conn, i
 				return diag_pfwderr(rv);
 			}
 			dp->msg_finish_time = diag_os_gethrt();
+			//length byte, counter, title, data and end byte must all be there
+			if (rv < 4 || rv != dp->rxbuf[0] + 1) {
+				*errval = DIAG_ERR_BADDATA;
+				return diag_pseterr(*errval);
+			}
 			//currently the only framed L0 for KW1281 is carsim, so don't bother validating sequence number
 			break;
 		}
@@ -184,6 +189,8 @@ static struct diag_msg *diag_l2_vag_block_recv(struct diag_l2_conn *d_l2_conn, i
 			dp->msg_finish_time = diag_os_gethrt();
 			//check whether the last byte is correct
 			if (byte != KWP1281_END_BYTE ||
+			    //a block has at least a counter, a title and an end byte
+			    dp->rxbuf[0] < 3 ||
 			    //check also whether the sequence number present in the message is correct
 			    //(should be odd and be greater than our sequence number by 1)
 			    ((dp->rxbuf[1] % 2) == 0 || dp->rxbuf[1] != dp->seq_nr+1)) {
-- 
2.43.0


From 56974eddc1e5f9403795472ed84e33a06efd3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 23/73] fix: L2 VAG: NO_ACK handling: sequence number wrap,
 messages without data, leak

---
 scantool/diag_l2_vag.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_vag.c b/scantool/diag_l2_vag.c
index c4e8881..f99196e 100644
--- a/scantool/diag_l2_vag.c
+++ b/scantool/diag_l2_vag.c
@@ -279,6 +279,14 @@ static struct diag_msg *diag_l2_vag_block_recv(struct diag_l2_conn *d_l2_conn, i
 	return tmsg;
 }
 
+/*
+ * Does this NO_ACK message ask to repeat the block we sent last ?
+ * (i.e. carries its sequence number; a NO_ACK without data does not)
+ */
+static bool diag_l2_vag_is_retry(const struct diag_l2_vag *dp, const struct diag_msg *noack) {
+	return (noack->len > 0) && (noack->data[0] == (uint8_t)(dp->seq_nr - 2));
+}
+
 /*
  * Internal function for receiving a full telegram from ECU.
  *
@@ -341,8 +349,11 @@ int diag_l2_vag_int_recv(struct diag_l2_conn *d_l2_conn, unsigned int timeout) {
 		//if this is a NO_ACK message (sent by the ECU as a response to our ACK),
 		//then we will re-try with that ACK
 		if (tmsg->type == KWP1281_SID_NO_ACK) {
+			bool retry = diag_l2_vag_is_retry(dp, tmsg);
+			//we don't need it any more
+			diag_freemsg(tmsg);
 			//check if it is NO_ACK Retry
-			if (tmsg->data[0] == dp->seq_nr-2) {
+			if (retry) {
 				DIAG_DBGM(diag_l2_debug, DIAG_DEBUG_PROTO, DIAG_DBGLEVEL_V,
 				          FLFMT
 				          "Received No Acknowledge - Retry message\n",
@@ -766,7 +777,7 @@ static struct diag_msg *dl2p_vag_request(struct diag_l2_conn *d_l2_conn, struct
 
 		//if it isn't No Acknowledge - Retry, then ok
 		if (d_l2_conn->diag_msg->type != KWP1281_SID_NO_ACK ||
-		    d_l2_conn->diag_msg->data[0] != dp->seq_nr - 2) {
+		    !diag_l2_vag_is_retry(dp, d_l2_conn->diag_msg)) {
 			break;
 		}
 
-- 
2.43.0


From 7e2f4b9dc67b86c05dc6f7ca9df0f999abca9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 24/73] fix: L2 VAG send: refuse blocks that do not fit the
 length byte; do not abort after an unanswered block

---
 scantool/diag_l2_vag.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l2_vag.c b/scantool/diag_l2_vag.c
index f99196e..39dfa7a 100644
--- a/scantool/diag_l2_vag.c
+++ b/scantool/diag_l2_vag.c
@@ -586,8 +586,14 @@ static int dl2p_vag_send(struct diag_l2_conn *d_l2_conn, struct diag_msg *msg) {
 		dp->ecu_id_telegram = NULL;
 	}
 
-	//are we master? if not then the caller should be redesigned/fixed
-	assert(dp->master == 1);
+	//are we master? not if the ECU didn't answer our last block
+	if (dp->master != 1) {
+		return diag_iseterr(DIAG_ERR_GENERAL);
+	}
+
+	if (msg->len > 255 - 3) {
+		return diag_iseterr(DIAG_ERR_BADLEN);
+	}
 
 	//the length of the block (counter byte, title byte, data bytes and block end byte)
 	dp->rxbuf[0] = msg->len + 3;
-- 
2.43.0


From fde857a6a8a5afa4de0c3b58d4fe3a1ae57234a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 25/73] fix: L2 VAG keep-alive: keep the ECU ID telegram when
 sending fails

---
 scantool/diag_l2_vag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_l2_vag.c b/scantool/diag_l2_vag.c
index 39dfa7a..a90d50a 100644
--- a/scantool/diag_l2_vag.c
+++ b/scantool/diag_l2_vag.c
@@ -853,6 +853,7 @@ static void dl2p_vag_timeout(struct diag_l2_conn *d_l2_conn) {
 		          "KW1281 send keep-alive failed with the "
 		          "following error:\n\t%s\n",
 		          FL, diag_errlookup(rv));
+		dp->ecu_id_telegram = ecu_id_telegram;
 		return;
 	}
 
-- 
2.43.0


From f475c19882709c1d4f2f14335cd476ecfbf6bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 26/73] fix: decoding a long message aborted the program

smartcat() asserted that the text fits; a received message of some forty
bytes was enough to end the program. Cut the text instead.
---
 scantool/diag.h         |  2 +-
 scantool/diag_general.c | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/scantool/diag.h b/scantool/diag.h
index 9275850..51839b0 100644
--- a/scantool/diag.h
+++ b/scantool/diag.h
@@ -332,7 +332,7 @@ int diag_end(void);
  */
 void diag_data_dump(FILE *out, const void *data, size_t len);
 
-//smartcat : only verifies if s1 is not too large !
+//smartcat : append p2 to p1, a buffer of s1 bytes; cuts off what does not fit
 void smartcat(char *p1, const size_t s1, const char *p2 );
 
 /*
diff --git a/scantool/diag_general.c b/scantool/diag_general.c
index 3dd1550..ad67d1c 100644
--- a/scantool/diag_general.c
+++ b/scantool/diag_general.c
@@ -292,11 +292,14 @@ void diag_data_dump(FILE *out, const void *data, size_t len) {
 	}
 }
 
-//smartcat() : make sure s1 is not too large, then strncat
-//it does NOT verify if *p1 is large enough !
+//smartcat() : append p2 to the string in p1, a buffer of s1 bytes.
+//What doesn't fit is cut off.
 void smartcat(char *p1, const size_t s1, const char *p2 ) {
-	assert ( s1 > strlen(p1) + strlen (p2) + 1 );
-	strncat(p1, p2, s1);
+	size_t used = strlen(p1) + 1;
+
+	if (used < s1) {
+		strncat(p1, p2, s1 - used);
+	}
 }
 
 /*
-- 
2.43.0


From fd959ac5fa09513f19637b78e059c345a189d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 27/73] fix: decoding short ISO14230 messages read past their
 end

Response code 0 was looked up as a NULL string, too.
---
 scantool/diag_l3_iso14230.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l3_iso14230.c b/scantool/diag_l3_iso14230.c
index 14ce311..7f5c91d 100644
--- a/scantool/diag_l3_iso14230.c
+++ b/scantool/diag_l3_iso14230.c
@@ -53,6 +53,11 @@ char *diag_l3_iso14230_decode_response(struct diag_msg *msg,
                                        char *buf, const size_t bufsize) {
 	char buf2[RESP_MAXLEN];
 
+	if (msg->len < 1) {
+		snprintf(buf, bufsize, "Empty message");
+		return buf;
+	}
+
 	switch (msg->data[0]) {
 	//for these 3 SID's,
 	case DIAG_KW2K_RC_SCRPR:
@@ -88,6 +93,9 @@ char *diag_l3_iso14230_decode_response(struct diag_msg *msg,
 		if (msg->data[0] & 0x40) {
 			snprintf(buf, bufsize, "Positive response, %s ",
 			         l3_iso14230_sidlookup(msg->data[0] & ~0x40));
+			if (msg->len < 2) {
+				break;
+			}
 			switch (msg->data[0] & ~0x40) {
 			case DIAG_KW2K_SI_REID:
 				snprintf(buf2, sizeof(buf2), "identOption 0x%02X", msg->data[1]);
@@ -217,7 +225,7 @@ static int diag_l3_iso14230_recv(struct diag_l3_conn *d_l3_conn, unsigned int ti
 
 void diag_l3_iso14230_decode(UNUSED(struct diag_l3_conn *d_l3_conn),
                              struct diag_msg *msg, char *buf, size_t bufsize) {
-	if (msg->data[0] & 0x40) {
+	if (msg->len > 0 && (msg->data[0] & 0x40)) {
 		snprintf(buf, bufsize, "ISO14230 response ");
 	} else {
 		snprintf(buf, bufsize, "ISO14230 request ");
@@ -319,7 +327,6 @@ static const struct {
 	{DIAG_KW2K_RC_RCR_RP,   "requestCorrectyRcvd-RspPending"},
 	{DIAG_KW2K_RC_IBCDBT,   "incorrectByteCountDuringBlockTransfer"},
 	{DIAG_KW2K_RC_SNSIADS,  "serviceNotSupportedInActiveDiagnosticMode//Mfg-Specific"},
-	{0,                     NULL},
 };
 
 static const char *l3_iso14230_neglookup(const int id) {
-- 
2.43.0


From c9221906f65bc8f751e7454f5308e47ab0eb30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 28/73] fix: decoding a KWP1281 message read past its end

L2 strips length, counter and title, so data[0] isn't the length of the
message. The text was also appended to whatever was in the buffer.
---
 scantool/diag_l3_vag.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scantool/diag_l3_vag.c b/scantool/diag_l3_vag.c
index 07fd451..f4b00e3 100644
--- a/scantool/diag_l3_vag.c
+++ b/scantool/diag_l3_vag.c
@@ -112,13 +112,12 @@ void diag_l3_vag_decode(UNUSED(struct diag_l3_conn *d_l3_conn),
 		s = buf3;
 		break;
 	}
-	snprintf(buf2, sizeof(buf2), "Command: %s: ", s);
-	smartcat(buf, bufsize, buf2);
+	snprintf(buf, bufsize, "Command: %s: ", s);
 
 	snprintf(buf2, sizeof(buf2), "Data : ");
 	smartcat(buf, bufsize, buf2);
 
-	for (int i=3; i < msg->data[0]; i++) {
+	for (unsigned i=0; i < msg->len; i++) {
 		snprintf(buf2, sizeof(buf2), "0x%X ", msg->data[i]);
 		smartcat(buf, bufsize, buf2);
 	}
-- 
2.43.0


From 5a75fb346ce1c328a76d50782a0fdcab11073eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 29/73] fix: length of J1979 responses was guessed from missing
 bytes

The PID was read before it had been received, and the frame number byte
of service 2 was added to the error code of an unknown PID.
---
 scantool/diag_l3_saej1979.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index 6ea7ee8..ef06043 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -90,6 +90,19 @@ static int diag_l3_j1979_getlen(uint8_t *data, int len) {
 	//Here, all modes < 0x0A are taken care of.
 	//Modes > 0x40 are responses and therefore need specific treatment
 	//data[1] contains the PID / TID number.
+	switch (mode) {
+	case 0x41:
+	case 0x42:
+	case 0x45:
+	case 0x49:
+		if (len < 2) {
+			return diag_iseterr(DIAG_ERR_INCDATA);
+		}
+		break;
+	default:
+		break;
+	}
+
 	switch (mode) {
 	case 0x41:
 	case 0x42:              //almost identical modes except PIDS 1,2
@@ -179,7 +192,7 @@ static int diag_l3_j1979_getlen(uint8_t *data, int len) {
 			break;
 		}       //PIDs for modes 1 and 2
 		//For mode 2 responses, actual length is 1 byte longer than Mode 1 resps because of Frame No
-		if (mode == 0x42 && rv) {
+		if (mode == 0x42 && rv > 0) {
 			rv += 1;
 		}
 		break;
-- 
2.43.0


From 95cfee1e5670d125306e014f5bc2012a93db700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 30/73] fix: unframed J1979 data overflowed the receive buffer

---
 scantool/diag_l3_saej1979.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index ef06043..5cd4507 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -299,9 +299,15 @@ static void diag_l3_rcv_callback(void *handle, struct diag_msg *msg) {
 		}
 	} else {
 		/* Add data to the receive buffer on the L3 connection */
-		memcpy(&l3i->rxbuf[l3i->rxoffset],
-		       msg->data, msg->len);            //XXX possible buffer overflow !
-		l3i->rxoffset += msg->len;
+		if (msg->len > sizeof(l3i->rxbuf) - l3i->rxoffset) {
+			fprintf(stderr, FLFMT "Too much data, %u bytes dropped\n", FL, msg->len);
+			return;
+		}
+		if (msg->len > 0) {
+			memcpy(&l3i->rxbuf[l3i->rxoffset],
+			       msg->data, msg->len);
+			l3i->rxoffset += msg->len;
+		}
 	}
 }
 
-- 
2.43.0


From 8db09c374abfe92b4756fcac003c119c37e93df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 31/73] fix: frame number not counted in supported-PID
 responses of service 2

---
 scantool/diag_l3_saej1979.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index 5cd4507..b96cb53 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -109,7 +109,7 @@ static int diag_l3_j1979_getlen(uint8_t *data, int len) {
 		// Note : mode 2 responses will be +1 longer because of the frame_no byte.
 		if ((data[1] & 0x1f) == 0) {
 			/* return supported PIDs */
-			rv=6;   //6.1.2.2
+			rv = (mode == 0x42)? 7 : 6;   //6.1.2.2; frame_no
 			break;
 		}
 
-- 
2.43.0


From 166c04f12e3d9b9c23bdb08a4f84efd99dad20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 32/73] fix: unframed J1979 responses were cut and read out of
 bounds

Three header bytes that L2 already stripped were skipped, the length could
become negative, and the bytes following the message were moved with the
wrong length. After undecodable data, every receive failed.
---
 scantool/diag_l3_saej1979.c | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index b96cb53..2d22b5c 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -360,41 +360,25 @@ static void diag_l3_j1979_process_data(struct diag_l3_conn *d_l3_conn) {
 		if (badpacket || (sae_msglen <= l3i->rxoffset)) {
 
 			/* Bad packet, or full packet, need to tell user */
-			uint8_t *data = NULL;
-
-			if (diag_calloc(&msg, 1)) {
+			/* Failure indicated by zero len msg */
+			msg = diag_allocmsg(badpacket ? 0 : (size_t)sae_msglen);
+			if (msg == NULL) {
 				/* Stuffed, no memory, cant do anything */
 				return;
 			}
 
-			if (!badpacket) {
-				if (diag_malloc(&data, (size_t)sae_msglen)) {
-					free(msg);
-					return;
-				}
-			}
-
-			if (badpacket || (data == NULL)) {
-				/* Failure indicated by zero len msg */
-				msg->data = NULL;
-				msg->len = 0;
+			if (badpacket) {
+				/* no way to tell where the next message begins */
+				l3i->rxoffset = 0;
 			} else {
 				msg->fmt = DIAG_FMT_ISO_FUNCADDR;
-				// XXX This won't do at all !
-				//msg->type = l3i->rxbuf[0];	//nobody checks this
-				msg->dest = l3i->rxbuf[1];
-				msg->src = l3i->rxbuf[2];
-				/* Copy in J1979 part of message */
-				memcpy(data, &l3i->rxbuf[3], (size_t)(sae_msglen - 4));
+				/* Copy in J1979 part of message; headers were stripped by L2 */
+				memcpy(msg->data, l3i->rxbuf, (size_t)sae_msglen);
 				/* remove whole message from rx buf */
+				l3i->rxoffset -= sae_msglen;
 				memmove(l3i->rxbuf,
 				        &l3i->rxbuf[sae_msglen],
-				        (size_t)sae_msglen);
-
-				l3i->rxoffset -= sae_msglen;
-
-				msg->data = data;
-				msg->len = (uint8_t) sae_msglen - 4;
+				        (size_t)l3i->rxoffset);
 			}
 
 			msg->rxtime = diag_os_getms();
-- 
2.43.0


From 43325d83de509fa0a74fc6713097749550a12aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 33/73] fix: unframed J1979 receive gave up on responses in
 pieces, freed others

The wait for the rest of a partial response was never done, and success
was returned without a message. Freeing the first of several responses
freed all of them.
---
 scantool/diag_l3_saej1979.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index 2d22b5c..de51281 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -507,6 +507,7 @@ static int diag_l3_j1979_recv(struct diag_l3_conn *d_l3_conn, unsigned int timeo
 			msg = d_l3_conn->msg;
 			if (msg) {
 				d_l3_conn->msg = msg->next;
+				msg->next = NULL;
 
 				rcv_call_back(handle, msg);
 				diag_freemsg(msg);
@@ -516,6 +517,17 @@ static int diag_l3_j1979_recv(struct diag_l3_conn *d_l3_conn, unsigned int timeo
 			}
 		}
 		/* We do not have a complete message (yet) */
+		if ((state == ST_STATE3) || (state == ST_STATE4)) {
+			/* Finished, we only do read once in this state */
+			if (state == ST_STATE3) {
+				rv = DIAG_ERR_TIMEOUT;
+			}
+			break;
+		}
+		if (rv == DIAG_ERR_TIMEOUT) {
+			/* Nothing came */
+			break;
+		}
 		if (state == ST_STATE2) {
 			/* Part message, see if we get some more */
 			state = ST_STATE3;
@@ -524,10 +536,6 @@ static int diag_l3_j1979_recv(struct diag_l3_conn *d_l3_conn, unsigned int timeo
 			/* Ok, try again with proper timeout */
 			state = ST_STATE2;
 		}
-		if ((state == ST_STATE3) || (state == ST_STATE4)) {
-			/* Finished, we only do read once in this state */
-			break;
-		}
 	}
 
 	return rv;
-- 
2.43.0


From 87c0914edd040b46120c539b147d039c5cee526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 34/73] fix: decoding short J1979 messages read past their end

Service 5 responses were shown with their own prefix instead of the IDs.
---
 scantool/diag_l3_saej1979.c | 43 +++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index de51281..cebb24c 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -543,6 +543,30 @@ static int diag_l3_j1979_recv(struct diag_l3_conn *d_l3_conn, unsigned int timeo
 
 
 
+/*
+ * Number of bytes shown by name when decoding a message of that mode
+ */
+static unsigned diag_l3_j1979_minlen(uint8_t mode) {
+	switch (mode) {
+	case 0x02:
+	case 0x42:
+	case 0x05:
+	case 0x45:
+		return 3;
+	case 0x01:
+	case 0x41:
+	case 0x06:
+	case 0x46:
+	case 0x08:
+	case 0x48:
+	case 0x09:
+	case 0x49:
+		return 2;
+	default:
+		return 1;
+	}
+}
+
 /*
  * This is called without the ADDR_ADDR_1 on it, ie it contains
  * just the SAEJ1979 data
@@ -558,12 +582,27 @@ void diag_l3_j1979_decode(UNUSED(struct diag_l3_conn *d_l3_conn),
 
 	char area;      //for DTCs
 
+	if (msg->len < 1) {
+		snprintf(buf, bufsize, "Empty J1979 message");
+		return;
+	}
+
 	if (msg->data[0] & 0x40) {
 		snprintf(buf, bufsize, "J1979 response ");
 	} else {
 		snprintf(buf, bufsize, "J1979 request ");
 	}
 
+	if (msg->len < diag_l3_j1979_minlen(msg->data[0])) {
+		snprintf(buf2, sizeof(buf2), "(incomplete): Data Dump: ");
+		smartcat(buf, bufsize, buf2);
+		for (i=0; i < msg->len; i++) {
+			snprintf(buf2, sizeof(buf2), "0x%02X ", msg->data[i]);
+			smartcat(buf, bufsize, buf2);
+		}
+		return;
+	}
+
 	switch (msg->data[0]) {
 	case 0x01:
 		snprintf(buf2, sizeof(buf2), "Mode 1 PID 0x%02X", msg->data[1]);
@@ -607,7 +646,7 @@ void diag_l3_j1979_decode(UNUSED(struct diag_l3_conn *d_l3_conn),
 	case 0x43:
 		snprintf(buf2, sizeof(buf2),"DTCs: ");
 		smartcat(buf, bufsize, buf2);
-		for (i=0, j=1; i<3; i++, j+=2) {
+		for (i=0, j=1; i<3 && j+1 < msg->len; i++, j+=2) {
 			if ((msg->data[j] == 0) &&
 			    (msg->data[j + 1] == 0)) {
 				continue;
@@ -652,7 +691,7 @@ void diag_l3_j1979_decode(UNUSED(struct diag_l3_conn *d_l3_conn),
 	case 0x45:
 		snprintf(buf2, sizeof(buf2), "Oxygen Sensor TID 0x%02X Sensor 0x%02X ",
 		         msg->data[1], msg->data[2]);
-		smartcat(buf, bufsize, buf);
+		smartcat(buf, bufsize, buf2);
 		for (i=3; i < msg->len; i++) {
 			snprintf(buf2, sizeof(buf2), "0x%02X ", msg->data[i]);
 			smartcat(buf, bufsize, buf2);
-- 
2.43.0


From 8ab287e2bc3e6665693c63388a79df1e35caff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 35/73] fix: message for a bad trouble code was not terminated
 in small buffers

---
 scantool/diag_dtc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_dtc.c b/scantool/diag_dtc.c
index 46c6daf..b2482a4 100644
--- a/scantool/diag_dtc.c
+++ b/scantool/diag_dtc.c
@@ -59,7 +59,7 @@ char *diag_dtc_decode(const uint8_t *data, int len,
 	switch (protocol) {
 	case dtc_proto_j2012:
 		if (len != 2) {
-			strncpy(buf, "DTC too short for J1850 decode\n", bufsize);
+			snprintf(buf, bufsize, "DTC too short for J1850 decode\n");
 			return buf;
 		}
 
-- 
2.43.0


From d22d9cb9d7829aa5083295ac27263f92fb377774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 36/73] fix: J1979 service 9 response lengths were swapped for
 odd and even infotypes

---
 scantool/diag_l3_saej1979.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index cebb24c..21a7cc8 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -222,11 +222,11 @@ static int diag_l3_j1979_getlen(uint8_t *data, int len) {
 		if ((data[1] & 0x1f) ==0) {
 			rv=7;   //supported INFOTYPES
 		} else if (data[1] & 1) {
-			//INFOTYPE is odd:
-			rv=7;
-		} else {
-			//even
+			//INFOTYPE is odd: message count
 			rv=3;
+		} else {
+			//even: message number and 4 data bytes
+			rv=7;
 		}
 		break;
 	default:
-- 
2.43.0


From bb309c30e285dcb9124511122753fdb2535bb24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 37/73] fix: J1979 responses to PIDs 1C, 1D and 1E have one
 data byte

---
 scantool/diag_l3_saej1979.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index 21a7cc8..4a25c5f 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -180,7 +180,7 @@ static int diag_l3_j1979_getlen(uint8_t *data, int len) {
 		case 0x1C:      //OBD
 		case 0x1D:      //O2Sloc
 		case 0x1E:
-			rv = 2;
+			rv = 3;
 			break;
 		case 0x1F:      //RUNTM
 			rv = 4;
-- 
2.43.0


From 28c7b820a1c30b33e5cc2b31a82d8b770544bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 38/73] fix: J1979 service 5 requests have three bytes

---
 scantool/diag_l3_saej1979.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l3_saej1979.c b/scantool/diag_l3_saej1979.c
index 4a25c5f..79aa736 100644
--- a/scantool/diag_l3_saej1979.c
+++ b/scantool/diag_l3_saej1979.c
@@ -62,7 +62,7 @@ struct l3_j1979_int {
  * properly
  */
 static int diag_l3_j1979_getlen(uint8_t *data, int len) {
-	static const int rqst_lengths[] = { -1, 2, 3, 1, 1, 2, 2, 1, 7, 2 };
+	static const int rqst_lengths[] = { -1, 2, 3, 1, 1, 3, 2, 1, 7, 2 };
 	int rv;
 	uint8_t mode;
 
-- 
2.43.0


From 5b826b5e95a321eed7de776d165d1191e135fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 39/73] fix: L7 D2: identifier not compared in short replies,
 read past a short request

---
 scantool/diag_l7_d2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l7_d2.c b/scantool/diag_l7_d2.c
index ad6371f..3310eb0 100644
--- a/scantool/diag_l7_d2.c
+++ b/scantool/diag_l7_d2.c
@@ -78,7 +78,7 @@ static bool success_p(struct diag_msg *req, struct diag_msg *resp) {
 		return false;
 	}
 
-	if (resp->len > 2 && resp->data[1] != req->data[1]) {
+	if (req->len > 1 && resp->len > 1 && resp->data[1] != req->data[1]) {
 		return false;
 	}
 
-- 
2.43.0


From 74812d0543dc52ff8aa74c1ea199edceb6bc1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 40/73] fix: L7 KWP71: trouble code list was read after being
 freed

---
 scantool/diag_l7_kwp71.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scantool/diag_l7_kwp71.c b/scantool/diag_l7_kwp71.c
index 0fed768..111aa45 100644
--- a/scantool/diag_l7_kwp71.c
+++ b/scantool/diag_l7_kwp71.c
@@ -233,8 +233,6 @@ int diag_l7_kwp71_dtclist(struct diag_l2_conn *d_l2_conn, int buflen, uint8_t *o
 	if (count > 0) {
 		memcpy(out, resp->data, (buflen < count) ? buflen : count);
 	}
-	diag_freemsg(resp);
-
 	if (resp->next != NULL) {
 		/*
 		 * If there are more than 2 DTCs, ECU will send multiple
@@ -243,6 +241,7 @@ int diag_l7_kwp71_dtclist(struct diag_l2_conn *d_l2_conn, int buflen, uint8_t *o
 		 */
 		fprintf(stderr, "Warning: retrieving only first %d DTCs\n", count/5);
 	}
+	diag_freemsg(resp);
 
 	return count;
 }
-- 
2.43.0


From 72d3fce67e811dd199f3f1da991fe7b3a798f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 41/73] fix: L7 KWP71: read requests had uninitialised
 addresses and bytes

---
 scantool/diag_l7_kwp71.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l7_kwp71.c b/scantool/diag_l7_kwp71.c
index 111aa45..4cca675 100644
--- a/scantool/diag_l7_kwp71.c
+++ b/scantool/diag_l7_kwp71.c
@@ -148,8 +148,8 @@ static int read_ADC_req(struct diag_msg *msg, uint8_t *wantresp, uint16_t addr)
  * bytes requested. Returns the actual byte count received.
  */
 int diag_l7_kwp71_read(struct diag_l2_conn *d_l2_conn, enum l7_namespace ns, uint16_t addr, int buflen, uint8_t *out) {
-	struct diag_msg req;    //build request message in this
-	uint8_t request_data[KWP71_REQSIZE];
+	struct diag_msg req = {0};      //build request message in this
+	uint8_t request_data[KWP71_REQSIZE] = {0};
 	struct diag_msg *resp = NULL;
 	uint8_t wantresp;
 	int rv;
-- 
2.43.0


From df73635f3ae48d32d9b53f6b46c2b756a2c55240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 42/73] fix: config options with negative numbers were accepted

---
 scantool/diag_cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_cfg.c b/scantool/diag_cfg.c
index 5fa328d..75f98fd 100644
--- a/scantool/diag_cfg.c
+++ b/scantool/diag_cfg.c
@@ -94,7 +94,7 @@ int diag_cfg_setint(struct cfgi *cfgp, int val) {
 
 //set config value to one of the predefined options. Ret 0 if ok
 int diag_cfg_setopt(struct cfgi *cfgp, int optid) {
-	if (optid > (cfgp->numopts - 1)) {
+	if (optid < 0 || optid > (cfgp->numopts - 1)) {
 		return diag_iseterr(DIAG_ERR_BADCFG);
 	}
 	switch (cfgp->type) {
-- 
2.43.0


From 55f1bcd1825433f8807b93f9205c7b8d2e60ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 43/73] fix: config strings were lost, and errors hidden, when
 out of memory

---
 scantool/diag_cfg.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/scantool/diag_cfg.c b/scantool/diag_cfg.c
index 75f98fd..7d44f1c 100644
--- a/scantool/diag_cfg.c
+++ b/scantool/diag_cfg.c
@@ -45,6 +45,7 @@ void diag_cfg_reset(struct cfgi *cfgp) {
 
 int diag_cfg_setstr(struct cfgi *cfgp, const char *str) {
 	size_t slen;
+	char *newstr;
 	int rv;
 
 	if (cfgp->type != CFGT_STR) {
@@ -52,16 +53,16 @@ int diag_cfg_setstr(struct cfgi *cfgp, const char *str) {
 	}
 
 	slen=strlen(str);
+	rv = diag_malloc(&newstr, slen+1);
+	if (rv != 0) {
+		return diag_ifwderr(rv);        //keep the old value
+	}
+	strcpy(newstr, str);
 	if (cfgp->dyn_val && (cfgp->val.str != NULL)) {
 		free(cfgp->val.str);
-		cfgp->val.str = NULL;
-	}
-	rv = diag_malloc(&cfgp->val.str, slen+1);
-	if (rv != 0) {
-		return diag_ifwderr(rv);
 	}
+	cfgp->val.str = newstr;
 	cfgp->dyn_val = 1;      //need to free
-	strcpy(cfgp->val.str, str);
 	return 0;
 
 }
@@ -102,8 +103,7 @@ int diag_cfg_setopt(struct cfgi *cfgp, int optid) {
 		if (cfgp->opt[optid] == NULL) {
 			return diag_iseterr(DIAG_ERR_BADCFG);
 		}
-		diag_cfg_setstr(cfgp, cfgp->opt[optid]);
-		break;
+		return diag_cfg_setstr(cfgp, cfgp->opt[optid]);
 
 	case CFGT_INT:
 		cfgp->val.i = optid;
@@ -217,10 +217,6 @@ void std_reset(struct cfgi *cfgp) {
 		if (cfgp->dval.str == NULL) {
 			return;
 		}
-		if (cfgp->dyn_val && (cfgp->val.str != NULL)) {
-			free(cfgp->val.str);
-			cfgp->val.str = NULL;
-		}
 		diag_cfg_setstr(cfgp, cfgp->dval.str);
 		break;
 	case CFGT_BOOL:
-- 
2.43.0


From d905f9d69a66b61885953d6292ce75b7a99b6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 44/73] fix: resetting a byte config item treated it as boolean

---
 scantool/diag_cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_cfg.c b/scantool/diag_cfg.c
index 7d44f1c..2e6b595 100644
--- a/scantool/diag_cfg.c
+++ b/scantool/diag_cfg.c
@@ -208,7 +208,7 @@ void optarray_clear(struct cfgi *cfgp) {
 void std_reset(struct cfgi *cfgp) {
 	switch (cfgp->type) {
 	case CFGT_U8:
-		cfgp->val.b = cfgp->dval.b;
+		cfgp->val.u8 = cfgp->dval.u8;
 		break;
 	case CFGT_INT:
 		cfgp->val.i = cfgp->dval.i;
-- 
2.43.0


From 01ef72d11cb26c4d79e4237994426a745f18c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 45/73] fix: config values of more than 7 digits were cut

---
 scantool/diag_cfg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_cfg.c b/scantool/diag_cfg.c
index 2e6b595..c7a3b66 100644
--- a/scantool/diag_cfg.c
+++ b/scantool/diag_cfg.c
@@ -134,8 +134,8 @@ char *diag_cfg_getstr(struct cfgi *cfgp) {
 		len=5;
 		break;
 	case CFGT_INT:
-		//handle 7 digits.
-		len=8;
+		//sign, 10 digits
+		len=12;
 		break;
 	case CFGT_STR:
 		len=strlen(cfgp->val.str)+1;
-- 
2.43.0


From d0c495581700a879c27173248868b9eaadee9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 46/73] fix: refreshing the list of serial ports leaked memory

---
 scantool/diag_cfg.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_cfg.c b/scantool/diag_cfg.c
index c7a3b66..633955e 100644
--- a/scantool/diag_cfg.c
+++ b/scantool/diag_cfg.c
@@ -234,6 +234,7 @@ void std_reset(struct cfgi *cfgp) {
  * If no ports are found, changes nothing
  */
 void tty_refresh(struct cfgi *cfgp) {
+	char *newdef;
 
 	optarray_clear(cfgp);
 
@@ -244,14 +245,19 @@ void tty_refresh(struct cfgi *cfgp) {
 		return;
 	}
 
+	cfgp->dyn_opt = 1;
+
 	/* Update default port */
-	cfgp->dyn_dval = 1;
-	if (diag_malloc(&cfgp->dval.str, strlen(cfgp->opt[0])+1)) {
+	if (diag_malloc(&newdef, strlen(cfgp->opt[0])+1)) {
 		optarray_clear(cfgp);
 		return;
 	}
-	strcpy(cfgp->dval.str, cfgp->opt[0]);   //we just used strlen; strcpy is just as dangerous...
-	cfgp->dyn_opt = 1;
+	strcpy(newdef, cfgp->opt[0]);   //we just used strlen; strcpy is just as dangerous...
+	if (cfgp->dyn_dval && (cfgp->dval.str != NULL)) {
+		free(cfgp->dval.str);
+	}
+	cfgp->dval.str = newdef;
+	cfgp->dyn_dval = 1;
 
 	return;
 }
-- 
2.43.0


From 5781b7f8198fb21e1b5a66ec70c1871f3aa4e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 47/73] fix: htoi overflowed on numbers that do not fit an int

---
 scantool/scantool_cli.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scantool/scantool_cli.c b/scantool/scantool_cli.c
index 7a09afc..a7cb6dd 100644
--- a/scantool/scantool_cli.c
+++ b/scantool/scantool_cli.c
@@ -33,6 +33,7 @@
 
 #include <time.h>
 #include <ctype.h>
+#include <limits.h>
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
@@ -444,6 +445,9 @@ int htoi(char *buf) {
 		if (val >= base) { /* Value too big for this base */
 			return 0;
 		}
+		if (rv > (INT_MAX - val) / base) {      /* doesn't fit an int */
+			return 0;
+		}
 		rv *= base;
 		rv += val;
 
-- 
2.43.0


From 9c91297db7691225a075e09af1d34f12098573b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 48/73] fix: argument list of submenu commands had no end
 marker

---
 scantool/libcli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/libcli.c b/scantool/libcli.c
index e4aba63..01e34c7 100644
--- a/scantool/libcli.c
+++ b/scantool/libcli.c
@@ -445,6 +445,7 @@ static enum cli_retval do_cli(const struct cmd_tbl_entry *cmd_tbl, const char *p
 			for (i = 0; i < argc; i++) {
 				cmd_argv[i] = argv[i];
 			}
+			cmd_argv[cmd_argc] = nullstr;
 		}
 
 		if (cmd_argc == 0) {
-- 
2.43.0


From 0fee948e54f694de77b7f19171bf3210a8148bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 49/73] fix: simulator kept the FRAMED option of the previous
 database

---
 scantool/diag_l0_sim.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_l0_sim.c b/scantool/diag_l0_sim.c
index dbbf1aa..a540d7d 100644
--- a/scantool/diag_l0_sim.c
+++ b/scantool/diag_l0_sim.c
@@ -445,6 +445,7 @@ static void sim_read_cfg(struct sim_device *dev) {
 
 	dev->dataonly = 0;
 	dev->nocksum = 0;
+	dev->framed = 0;
 	dev->fullinit = 0;
 	dev->proto_restrict = 0;
 
-- 
2.43.0


From 19b2f51e288d08ce5078ac79f9c17d94a8914a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 50/73] fix: simulated sawtooth signal was not proportional to
 time

---
 scantool/diag_l0_sim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l0_sim.c b/scantool/diag_l0_sim.c
index a540d7d..7f9c609 100644
--- a/scantool/diag_l0_sim.c
+++ b/scantool/diag_l0_sim.c
@@ -333,7 +333,7 @@ static uint8_t sine1(UNUSED(uint8_t *data), UNUSED(uint8_t pos)) {
 // to the value of the current system time (with a period of one second).
 static uint8_t sawtooth1(UNUSED(uint8_t *data), UNUSED(uint8_t pos)) {
 	unsigned long now=diag_os_getms();
-	return (uint8_t) (0xFF * (now % 1000));
+	return (uint8_t) (0xFF * (now % 1000) / 1000);
 }
 
 // Returns a value copied from the specified position in the request.
-- 
2.43.0


From 448881e918f412fc0cef74ed4d34b8646d49ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 51/73] fix: simulator responses used bytes that were not part
 of the request

---
 scantool/diag_l0_sim.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/scantool/diag_l0_sim.c b/scantool/diag_l0_sim.c
index 7f9c609..f969653 100644
--- a/scantool/diag_l0_sim.c
+++ b/scantool/diag_l0_sim.c
@@ -97,6 +97,7 @@ struct sim_device {
 	struct cfgi simfile;
 
 	uint8_t sim_last_ecu_request[MAX_RESP_LEN];     // Copy of most recent request.
+	unsigned sim_last_ecu_reqlen;   // and its length
 	struct sim_ecu_response *sim_last_ecu_responses;        // For keeping all the responses to the last request.
 };
 
@@ -337,14 +338,14 @@ static uint8_t sawtooth1(UNUSED(uint8_t *data), UNUSED(uint8_t pos)) {
 }
 
 // Returns a value copied from the specified position in the request.
-static uint8_t requestbyten(UNUSED(uint8_t *data), char *s, const uint8_t req[]) {
-	int index;
+static uint8_t requestbyten(UNUSED(uint8_t *data), char *s, const uint8_t req[], unsigned reqlen) {
+	unsigned long index;
 	bool increment = 0;
 	bool bogus = 0;
 	uint8_t value;
 	char *p;
 
-	index = (uint8_t)strtoul(s, &p, 10);
+	index = strtoul(s, &p, 10);
 	if (*s == '\0') {
 		bogus = 1;
 	} else if (p[0]=='+' && p[1]=='\0') {
@@ -353,8 +354,8 @@ static uint8_t requestbyten(UNUSED(uint8_t *data), char *s, const uint8_t req[])
 		bogus = 1;
 	}
 
-	index--;
-	if (index < 0 || index >= MAX_RESP_LEN) {
+	//bytes are numbered from 1
+	if (index < 1 || index > reqlen) {
 		bogus = 1;
 	}
 
@@ -363,7 +364,7 @@ static uint8_t requestbyten(UNUSED(uint8_t *data), char *s, const uint8_t req[])
 		return 0;
 	}
 
-	value = req[index];
+	value = req[index - 1];
 	if (increment) {
 		value++;
 	}
@@ -372,7 +373,7 @@ static uint8_t requestbyten(UNUSED(uint8_t *data), char *s, const uint8_t req[])
 
 // Parses a response's text to data.
 // Replaces special tokens with function results. This mangles resp_p->text, which shouldn't be a problem
-static void sim_parse_response(struct sim_ecu_response *resp_p, uint8_t req[]) {
+static void sim_parse_response(struct sim_ecu_response *resp_p, uint8_t req[], unsigned reqlen) {
 #define TOKEN_SINE1      "sin1"
 #define TOKEN_SAWTOOTH1 "swt1"
 #define TOKEN_ISO9141CS "cks1"
@@ -400,7 +401,7 @@ static void sim_parse_response(struct sim_ecu_response *resp_p, uint8_t req[]) {
 			synth_resp[pos] = diag_cks1(synth_resp, pos);
 		} else if (strncmp(cur_tok, TOKEN_REQUESTBYTE,
 		                   strlen(TOKEN_REQUESTBYTE)) == 0) {
-			synth_resp[pos] = requestbyten(synth_resp, cur_tok + strlen(TOKEN_REQUESTBYTE), req);
+			synth_resp[pos] = requestbyten(synth_resp, cur_tok + strlen(TOKEN_REQUESTBYTE), req, reqlen);
 		} else {
 			// failed. try scanning element as an Hex byte.
 			unsigned int tempbyte;
@@ -685,6 +686,7 @@ int sim_send(struct diag_l0_device *dl0d,
 
 	// Store a copy of this request for use by req* function tokens.
 	memcpy(dev->sim_last_ecu_request, data, len);
+	dev->sim_last_ecu_reqlen = (unsigned) len;
 
 	// Build the list of responses for this request.
 	sim_find_responses(&dev->sim_last_ecu_responses, dev->fp, data, (unsigned) len);
@@ -715,7 +717,7 @@ int sim_recv(struct diag_l0_device *dl0d,
 	resp_p = dev->sim_last_ecu_responses;
 	if (resp_p != NULL) {
 		// Parse the response (replace simulated values if needed).
-		sim_parse_response(resp_p, dev->sim_last_ecu_request);
+		sim_parse_response(resp_p, dev->sim_last_ecu_request, dev->sim_last_ecu_reqlen);
 		// Copy to client.
 		xferd = MIN(resp_p->len, len);
 		memcpy(data, resp_p->data, xferd);
-- 
2.43.0


From 05e4f60e82c3d4be940766555e75bc21931c45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 52/73] fix: simulator read past the end of empty database
 lines

---
 scantool/diag_l0_sim.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/scantool/diag_l0_sim.c b/scantool/diag_l0_sim.c
index f969653..d7bb219 100644
--- a/scantool/diag_l0_sim.c
+++ b/scantool/diag_l0_sim.c
@@ -135,7 +135,7 @@ static struct sim_ecu_response *sim_new_ecu_response_txt(const char *text) {
 	resp->text = NULL;
 	resp->next = NULL;
 
-	if ((text != NULL) && strlen(text)) {
+	if (text != NULL) {     //may be empty
 		if ((rv=diag_calloc(&(resp->text), strlen(text)+1))) {
 			free(resp);
 			return diag_pfwderr(rv);
@@ -248,7 +248,10 @@ static void sim_find_responses(struct sim_ecu_response **resp_pp, FILE *fp, cons
 		// synthesize up to REQBYTES bytes from DB request line.
 		unsigned int i, num;
 		char *p, *q;
-		p = line_buf + 3;
+		p = line_buf + strlen(TAG_REQUEST);
+		if (*p != '\0') {
+			p++;    //separator
+		}
 		for (i=0; i < REQBYTES; i++) {
 			while (isspace(*p)) {
 				p++;
@@ -294,18 +297,22 @@ static void sim_find_responses(struct sim_ecu_response **resp_pp, FILE *fp, cons
 					continue;
 				}
 				// add the new response (without the tag).
+				const char *resp_txt = line_buf + strlen(TAG_RESPONSE);
+				if (*resp_txt != '\0') {
+					resp_txt++;     //separator
+				}
 				if (resp_count + new_resp_count == 0) {
 					// create the root of the list.
-					resp_p = *resp_pp = sim_new_ecu_response_txt(line_buf + strlen(TAG_RESPONSE) + 1);
+					resp_p = *resp_pp = sim_new_ecu_response_txt(resp_txt);
 					if (!resp_p) {
-						fprintf(stderr, FLFMT "Could not add new response \"%s\"\n", FL, line_buf + strlen(TAG_RESPONSE) + 1);
+						fprintf(stderr, FLFMT "Could not add new response \"%s\"\n", FL, resp_txt);
 						end_responses=1;
 					}
 				} else {
 					// add to the end of the list.
-					resp_p->next = sim_new_ecu_response_txt(line_buf + strlen(TAG_RESPONSE) + 1);
+					resp_p->next = sim_new_ecu_response_txt(resp_txt);
 					if (!(resp_p->next)) {
-						fprintf(stderr, FLFMT "Could not add new response \"%s\"\n", FL, line_buf + strlen(TAG_RESPONSE) + 1);
+						fprintf(stderr, FLFMT "Could not add new response \"%s\"\n", FL, resp_txt);
 						end_responses=1;
 					}
 					resp_p = resp_p->next;
@@ -462,7 +469,10 @@ static void sim_read_cfg(struct sim_device *dev) {
 			continue;
 		}
 		// get the config values.
-		p = line_buf + strlen(TAG_CFG) + 1;
+		p = line_buf + strlen(TAG_CFG);
+		if (*p != '\0') {
+			p++;    //separator
+		}
 
 		if (strncmp(p, CFG_DATAONLY, strlen(CFG_DATAONLY)) == 0) {
 			dev->dataonly = 1;
-- 
2.43.0


From 4f3be65d77571aa09db474b0022d41e96c59a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:33 +0000
Subject: [PATCH 53/73] fix: tty write: return the total number of bytes
 written, not that of the last write()

---
 scantool/diag_tty_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index 1fc31ef..ad49c38 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -748,7 +748,7 @@ ssize_t diag_tty_write(ttyp *tty_int, const void *buf, const size_t count) {
 	tcdrain(uti->fd);
 #endif
 
-	return rv;
+	return n;
 }       //_POSIX_TIMERS tty_write()
 
 #elif (SEL_TIMEOUT==S_LINUX || SEL_TIMEOUT==S_OTHER || SEL_TIMEOUT==S_AUTO)
-- 
2.43.0


From b8c7e5c72ec67253f4e888327971d826f2e174b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:33 +0000
Subject: [PATCH 54/73] fix: tty read: rv was uninitialized if the timeout
 expired before the first read()

---
 scantool/diag_tty_unix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index ad49c38..24fe353 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -838,6 +838,7 @@ ssize_t diag_tty_read(ttyp *tty_int, void *buf, size_t count, unsigned int timeo
 	timer_settime(uti->timerid, 0, &it, NULL);
 
 	n = 0;
+	rv = 0;
 	p = (uint8_t *)buf;
 	errno = 0;
 
-- 
2.43.0


From 03d1e8e4563139208e86d7b9dfc9cd94488330de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 55/73] fix: tty open: delete the timer if there is no memory
 for the port name

---
 scantool/diag_tty_unix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index 24fe353..47696ca 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -102,6 +102,9 @@ ttyp *diag_tty_open(const char *portname) {
 	size_t n = strlen(portname) + 1;
 
 	if ((rv=diag_malloc(&uti->name, n))) {
+#if defined(_POSIX_TIMERS) && (SEL_TIMEOUT==S_POSIX || SEL_TIMEOUT==S_AUTO)
+		timer_delete(uti->timerid);
+#endif
 		free(uti);
 		return diag_pseterr(rv);
 	}
-- 
2.43.0


From ae7d09e6c40a122a74c892e292c1c7b11d8db85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:34 +0000
Subject: [PATCH 56/73] fix: tty close: restore the settings the port had (they
 were never saved, so it got zeros)

---
 scantool/diag_tty_unix.c | 11 ++++++++---
 scantool/diag_tty_unix.h |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index 47696ca..6d8b151 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -191,6 +191,7 @@ ttyp *diag_tty_open(const char *portname) {
 
 #ifdef  USE_TERMIOS2
 	rv = ioctl(uti->fd, TCGETS, &uti->st_orig);
+	rv |= ioctl(uti->fd, TCGETS2, &uti->st2_orig);
 #else
 	rv = tcgetattr(uti->fd, &uti->st_orig);
 #endif
@@ -201,6 +202,8 @@ ttyp *diag_tty_open(const char *portname) {
 		return diag_pseterr(DIAG_ERR_GENERAL);
 	}
 
+	uti->orig_saved = 1;
+
 	//and set common flags
 	uti->st_cur = uti->st_orig;
 
@@ -268,12 +271,14 @@ void diag_tty_close(ttyp *tty_int) {
 			(void)ioctl(uti->fd, TIOCSSERIAL, &uti->ss_orig);
 		}
 #endif
+		if (uti->orig_saved) {
 #ifdef USE_TERMIOS2
-		(void)ioctl(uti->fd, TCSETS2, &uti->st2_orig);
+			(void)ioctl(uti->fd, TCSETS2, &uti->st2_orig);
 #else
-		(void)tcsetattr(uti->fd, TCSADRAIN, &uti->st_orig);
+			(void)tcsetattr(uti->fd, TCSADRAIN, &uti->st_orig);
 #endif
-		(void)ioctl(uti->fd, TIOCMSET, &uti->modemflags);
+			(void)ioctl(uti->fd, TIOCMSET, &uti->modemflags);
+		}
 		(void)close(uti->fd);
 	}
 
diff --git a/scantool/diag_tty_unix.h b/scantool/diag_tty_unix.h
index 2c74a42..5b27575 100644
--- a/scantool/diag_tty_unix.h
+++ b/scantool/diag_tty_unix.h
@@ -164,6 +164,8 @@ struct unix_tty_int {
 	struct termios2 st2_orig;
 #endif
 
+	int orig_saved;         //the backups (termios and modem flags) are valid
+
 	//flags backup (ioctl TIOCMGET, TIOCMSET)
 	int modemflags;
 
-- 
2.43.0


From 8a6a6143f885cd5fb3ebf1454d06740315b3c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:35 +0000
Subject: [PATCH 57/73] fix: tty setup: refuse a speed of 0, or above the base
 of the custom divisor, instead of dividing by zero

---
 scantool/diag_tty_unix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index 6d8b151..0e0c3bc 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -395,6 +395,10 @@ static int _tty_setspeed(ttyp *tty_int, unsigned int spd) {
 
 		/* Now, mod the "current" settings */
 		ss_new.custom_divisor = ss_new.baud_base  / spd;
+		if (ss_new.custom_divisor == 0) {
+			fprintf(stderr, FLFMT "setspeed(cust): %u is too fast\n", FL, spd);
+			return 0;
+		}
 		spd_real = ss_new.baud_base / ss_new.custom_divisor;
 
 		/* Turn of other speed flags */
@@ -542,6 +546,11 @@ int diag_tty_setup(ttyp *tty_int, const struct diag_serial_settings *pset) {
 	          FLFMT "setup: fd=%d, %ubps, %d bits, %d stop, parity %d\n",
 	          FL, fd, pset->speed, pset->databits, pset->stopbits, pset->parflag);
 
+	if (pset->speed == 0) {
+		fprintf(stderr, FLFMT "bad speed setting used (%u)\n", FL, pset->speed);
+		return diag_iseterr(DIAG_ERR_GENERAL);
+	}
+
 	/* Copy current settings to working copy */
 	st_new = uti->st_cur;
 	st_new.c_cflag &= ~CSIZE;
-- 
2.43.0


From c849a2210b0441bab9d109307712db2925e03aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:36 +0000
Subject: [PATCH 58/73] fix: diag_tty_control: DTR and RTS set or cleared
 together: only RTS was changed

---
 scantool/diag_tty_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index 0e0c3bc..0f28c81 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -656,15 +656,15 @@ int diag_tty_control(ttyp *tty_int,  unsigned int dtr, unsigned int rts) {
 	int setflags = 0, clearflags = 0;
 
 	if (dtr) {
-		setflags = TIOCM_DTR;
+		setflags |= TIOCM_DTR;
 	} else {
-		clearflags = TIOCM_DTR;
+		clearflags |= TIOCM_DTR;
 	}
 
 	if (rts) {
-		setflags = TIOCM_RTS;
+		setflags |= TIOCM_RTS;
 	} else {
-		clearflags = TIOCM_RTS;
+		clearflags |= TIOCM_RTS;
 	}
 
 	errno = 0;
-- 
2.43.0


From 60cbb8127b99d668c5ecfbdbed3fff9d94fbc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:36 +0000
Subject: [PATCH 59/73] fix: diag_tty_read: an interrupted read() was reported
 as an error

---
 scantool/diag_tty_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index 0f28c81..f157494 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -969,7 +969,7 @@ ssize_t diag_tty_read(ttyp *tty_int, void *buf, size_t count, unsigned int timeo
 
 		rv = read(uti->fd,  &p[n], count);
 
-		if ((rv < 0) && (rv == EINTR)) {
+		if ((rv < 0) && (errno == EINTR)) {
 			rv=0;
 			errno=0;
 			continue;
-- 
2.43.0


From 7eb660c3dd88d08f8d094c07d9b8b66193a42a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 60/73] fix: diag_tty_read: the sets are undefined after a
 failed select(); test for the error first

---
 scantool/diag_tty_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scantool/diag_tty_unix.c b/scantool/diag_tty_unix.c
index f157494..cfab50d 100644
--- a/scantool/diag_tty_unix.c
+++ b/scantool/diag_tty_unix.c
@@ -957,14 +957,14 @@ ssize_t diag_tty_read(ttyp *tty_int, void *buf, size_t count, unsigned int timeo
 				errno=0;
 				continue;
 			}
-			if (FD_ISSET(uti->fd, &set)) {
-				//fd is ready:
-				break;
-			}
 			if (rv < 0) {
 				fprintf(stderr, FLFMT "select() error: %s.\n", FL, strerror(errno));
 				return diag_iseterr(DIAG_ERR_GENERAL);
 			}
+			if (FD_ISSET(uti->fd, &set)) {
+				//fd is ready:
+				break;
+			}
 		}       //select loop
 
 		rv = read(uti->fd,  &p[n], count);
-- 
2.43.0


From bcd0d1a3033829dfe556eeb33d6699dba2d6a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:03 +0000
Subject: [PATCH 61/73] fix: BR-1: opening for J1850 failed on every key byte
 but 0

---
 scantool/diag_l0_br.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index eb39bd8..e3ee3e7 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -284,7 +284,7 @@ static int br_open(struct diag_l0_device *dl0d, int iProtocol) {
 		/* This initialisation is done in the SLOWINIT code */
 		break;
 	}
-	if (rv) {
+	if (rv < 0) {
 		br_close(dl0d);
 		return diag_ifwderr(rv);
 	}
-- 
2.43.0


From b6d11cf2bafa5d79af5e2162920057b841f213ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:04 +0000
Subject: [PATCH 62/73] fix: BR-1: messages without data made the serial port
 code abort

---
 scantool/diag_l0_br.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index e3ee3e7..0f18a0f 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -506,7 +506,10 @@ static int br_getmsg(struct diag_l0_device *dl0d, uint8_t *dp, unsigned int time
 	 * Reasonable timeout here as the interface told us how
 	 * much data to expect, so it should arrive
 	 */
-	rv = diag_tty_read(dev->tty_int, dp, readlen, 100);
+	rv = 0;
+	if (readlen > 0) {
+		rv = diag_tty_read(dev->tty_int, dp, readlen, 100);
+	}
 	if (rv != (int)readlen) {
 		fprintf(stderr, FLFMT "br_getmsg error\n", FL);
 		return diag_iseterr(DIAG_ERR_GENERAL);
-- 
2.43.0


From 3654776764e2b63db4b61eef3ec1af3363f52459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:04 +0000
Subject: [PATCH 63/73] fix: BR-1: J1850 requests of 15 bytes overflowed the
 length bits of the control byte

---
 scantool/diag_l0_br.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index 0f18a0f..5fc9344 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -566,6 +566,10 @@ static int br_writemsg(struct diag_l0_device *dl0d, uint8_t type,
 
 	if ((dev->protocol == DIAG_L1_J1850_VPW) ||
 	    (dev->protocol == DIAG_L1_J1850_PWM)) {
+		if (txlen > 14) {
+			/* no room for the frame number */
+			return diag_iseterr(DIAG_ERR_BADLEN);
+		}
 		j1850mode = 1;
 		outb = (uint8_t) txlen + 1; /* We also send a frame number */
 	} else {
-- 
2.43.0


From 60c465bd9acf37f87dbceb6855d123cba59c0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 64/73] fix: BR-1: requests were copied to the receive buffer,
 whatever their length, and something else was sent again

---
 scantool/diag_l0_br.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index 5fc9344..fb0247c 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -669,7 +669,10 @@ static int br_send(struct diag_l0_device *dl0d,
 		 * This means the receive code will resend the request if it
 		 * wants to get a frame number 2 or 3 or whatever
 		 */
-		memcpy(dev->dev_rxbuf, data, len);
+		if (len > 15) {
+			return diag_iseterr(DIAG_ERR_BADLEN);
+		}
+		memcpy(dev->dev_txbuf, data, len);
 		dev->dev_txlen = len;
 		dev->dev_framenr = 1;
 
-- 
2.43.0


From 4bbfdbd256694ef83073570e0105da97bd762df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:05 +0000
Subject: [PATCH 65/73] fix: BR-1: fast wake-up sent the bytes of the request
 before, and overflowed its buffer

---
 scantool/diag_l0_br.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index fb0247c..9b01008 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -457,6 +457,7 @@ static int br_initbus(struct diag_l0_device *dl0d, struct diag_l1_initbus_args *
 			rv = DIAG_ERR_INIT_NOTSUPP;
 		} else {
 			/* Fastinit done on 1st TX */
+			dev->dev_txlen = 0;
 			dev->dev_state = BR_STATE_KWP_FASTINIT;
 			rv = 0;
 		}
@@ -646,6 +647,9 @@ static int br_send(struct diag_l0_device *dl0d,
 	 */
 	if (dev->dev_state == BR_STATE_KWP_FASTINIT) {
 		uint8_t outbuf[6];
+		if (len > 5 || dev->dev_txlen + len > 5) {
+			return diag_iseterr(DIAG_ERR_BADLEN);
+		}
 		if (dev->dev_txlen < 5) {
 			memcpy(&dev->dev_txbuf[dev->dev_txlen], data, len);
 			dev->dev_txlen += len;
-- 
2.43.0


From 76cf2fb38ece32f7375c9748473db02a92909c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:06 +0000
Subject: [PATCH 66/73] fix: BR-1: nothing was ever received but key bytes

---
 scantool/diag_l0_br.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index 9b01008..0b07373 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -746,10 +746,7 @@ static int br_recv(struct diag_l0_device *dl0d,
 		return 0;               /* Strange, user asked for 0 bytes */
 		break;
 	default:
-		//So BR_STATE_CLOSED and BR_STATE_OPEN.
-		// I don't know what's supposed to happen here, so
-		fprintf(stderr, FLFMT "Warning : landed in a strange place. Report this please !\n", FL);
-		return 0;
+		//BR_STATE_CLOSED and BR_STATE_OPEN : nothing special, read
 		break;
 	}
 
-- 
2.43.0


From 5702736f5934c2e2857a3f7301c2690f28841b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:06 +0000
Subject: [PATCH 67/73] fix: BR-1: what was left of a response was delivered
 after the device was opened again

---
 scantool/diag_l0_br.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_l0_br.c b/scantool/diag_l0_br.c
index 0b07373..1543de1 100644
--- a/scantool/diag_l0_br.c
+++ b/scantool/diag_l0_br.c
@@ -210,6 +210,7 @@ static int br_open(struct diag_l0_device *dl0d, int iProtocol) {
 	br_init();
 
 	dev->protocol = iProtocol;
+	dev->dev_rxlen = 0;
 	dev->dev_rdoffset = 0;
 	dev->dev_txlen = 0;
 	dev->dev_framenr = 0;
-- 
2.43.0


From cb06370c1ec504f7ebb51c1bb7fdf822201bb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:28 +0000
Subject: [PATCH 68/73] fix: ME: requests that do not fit in a frame were cut
 and sent

---
 scantool/diag_l0_me.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scantool/diag_l0_me.c b/scantool/diag_l0_me.c
index 79dc98c..5b3990e 100644
--- a/scantool/diag_l0_me.c
+++ b/scantool/diag_l0_me.c
@@ -643,6 +643,12 @@ static int muleng_send(struct diag_l0_device *dl0d,
 		return rv;
 	}
 
+	if (len > 11) {
+		/* more than fits in a request frame */
+		fprintf(stderr, FLFMT "_send : requesting too many bytes !\n", FL);
+		return diag_iseterr(DIAG_ERR_BADLEN);
+	}
+
 	/*
 	 * Figure out cmd to send depending on the hardware we have been
 	 * told to use and whether we need to do fastinit or not
-- 
2.43.0


From 302498bce7b22cb748661033abbc115026f528eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 69/73] fix: ME: key bytes were taken from incomplete
 responses; a 5 baud wake-up returned a number of bytes

---
 scantool/diag_l0_me.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l0_me.c b/scantool/diag_l0_me.c
index 5b3990e..ce8d3ed 100644
--- a/scantool/diag_l0_me.c
+++ b/scantool/diag_l0_me.c
@@ -532,6 +532,9 @@ static int muleng_slowinit( struct diag_l0_device *dl0d, struct diag_l1_initbus_
 		if ((rv = diag_tty_read(dev->tty_int, rxbuf, 14, 200)) < 0) {
 			return diag_ifwderr(rv);
 		}
+		if (rv != 14) {
+			return diag_iseterr(DIAG_ERR_INCDATA);
+		}
 
 		if (rxbuf[1] == ME_RESP_ERROR) {
 			return diag_iseterr(DIAG_ERR_GENERAL);
@@ -553,6 +556,9 @@ static int muleng_slowinit( struct diag_l0_device *dl0d, struct diag_l1_initbus_
 		if ((rv = diag_tty_read(dev->tty_int, rxbuf, 14, 200)) < 0) {
 			return diag_ifwderr(rv);
 		}
+		if (rv != 14) {
+			return diag_iseterr(DIAG_ERR_INCDATA);
+		}
 
 		if (rxbuf[1] == ME_RESP_ERROR) { /* Error */
 			return diag_iseterr(DIAG_ERR_ECUSAIDNO);
@@ -569,8 +575,7 @@ static int muleng_slowinit( struct diag_l0_device *dl0d, struct diag_l1_initbus_
 		break;
 	}
 
-
-	return rv;
+	return 0;
 }
 
 /*
-- 
2.43.0


From 7b62ba15d2eea52a59a80c08dc43c9ce14a8805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 70/73] fix: ME: responses with a wrong checksum were taken for
 good

---
 scantool/diag_l0_me.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scantool/diag_l0_me.c b/scantool/diag_l0_me.c
index ce8d3ed..9ec20b4 100644
--- a/scantool/diag_l0_me.c
+++ b/scantool/diag_l0_me.c
@@ -837,13 +837,13 @@ static int muleng_recv(struct diag_l0_device *dl0d,
 
 	xferd = diag_cks1(&dev->dev_rxbuf[1], 12);
 	if ((xferd & 0xff) != dev->dev_rxbuf[13]) {
-
-/* XXX, we should deal with this properly rather than just printing a message */
 		fprintf(stderr,"Got bad checksum from ME device 0x%X != 0x%X\n",
 		        (int) xferd & 0xff, dev->dev_rxbuf[13]);
 		fprintf(stderr,"PC Serial port probably out of spec.\nRX Data: ");
 		diag_data_dump(stderr, dev->dev_rxbuf, dev->dev_rxlen);
 		fprintf(stderr, "\n");
+		dev->dev_rxlen = 0;
+		return diag_iseterr(DIAG_ERR_BADCSUM);
 	}
 
 
-- 
2.43.0


From 924666000ae0d6f57c39f5b26b43c56a1d106617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 71/73] fix: ME: the state of the session before was kept when
 the device was opened again

---
 scantool/diag_l0_me.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scantool/diag_l0_me.c b/scantool/diag_l0_me.c
index 9ec20b4..c8fab71 100644
--- a/scantool/diag_l0_me.c
+++ b/scantool/diag_l0_me.c
@@ -307,6 +307,10 @@ static int muleng_open(struct diag_l0_device *dl0d, int iProtocol) {
 	          FL, dev->port.val.str, iProtocol);
 
 	dev->protocol = iProtocol;
+	dev->dev_state = MULENG_STATE_CLOSED;
+	dev->dev_wakeup = 0;
+	dev->dev_rxlen = 0;
+	dev->dev_rdoffset = 0;
 
 	/* try to open TTY */
 	dev->tty_int = diag_tty_open(dev->port.val.str);
-- 
2.43.0


From efbfb2c722f10d54b34d99ea7bb5dd470b9cddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 72/73] fix: ME: a failure to set the speed of the raw mode was
 ignored

---
 scantool/diag_l0_me.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scantool/diag_l0_me.c b/scantool/diag_l0_me.c
index c8fab71..42174d7 100644
--- a/scantool/diag_l0_me.c
+++ b/scantool/diag_l0_me.c
@@ -523,7 +523,9 @@ static int muleng_slowinit( struct diag_l0_device *dl0d, struct diag_l1_initbus_
 			set.parflag = diag_par_n;
 
 			/* And set the baud rate */
-			diag_tty_setup(dev->tty_int, &set);
+			if ((rv = diag_tty_setup(dev->tty_int, &set))) {
+				return diag_ifwderr(rv);
+			}
 		}
 
 		dev->dev_state = MULENG_STATE_RAW;
-- 
2.43.0


From 343b9aa4dd18f375a34bc894f93fa0c821324862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 73/73] fix: ME: the port setting leaked when out of memory

---
 scantool/diag_l0_me.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scantool/diag_l0_me.c b/scantool/diag_l0_me.c
index 42174d7..d49c2e7 100644
--- a/scantool/diag_l0_me.c
+++ b/scantool/diag_l0_me.c
@@ -364,6 +364,7 @@ static int muleng_new(struct diag_l0_device *dl0d) {
 	dev->port.next = &dev->dev_addr;
 
 	if (diag_cfgn_u8(&dev->dev_addr, ME_DEFAULT_ADDRESS, ME_DEFAULT_ADDRESS)) {
+		diag_cfg_clear(&dev->port);
 		free(dev);
 		return diag_iseterr(DIAG_ERR_GENERAL);
 	}
-- 
2.43.0

