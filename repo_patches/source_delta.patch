From dfb063c14b435f725c1e4e88f17b41e1a2677ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 01/77] fix: do not read past the message when expanding or
 copying a name

---
 wdns/copy_uname.c  | 2 +-
 wdns/unpack_name.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..5923ca2 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -50,7 +50,7 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (c >= eop - src)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..3aac2e5 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -45,7 +45,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -53,7 +53,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 
 			cptr = p + offset;
 
-			if (cptr > eop)
+			if (cptr >= eop)
 				return (wdns_res_invalid_compression_pointer);
 
 			if (cptr == src - 1 && (*(src - 1) == 0)) {
@@ -75,7 +75,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (c >= eop - src)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From 0f24dfa261199e30434c12c0a176ad209c682669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 02/77] fix: wdns_skip_name() read one octet past the end of
 the buffer

---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 04315c16b2b46e114b04bf27cec68dbf38d1f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/77] fix: wdns_len_uname() accepted names lacking the root
 label

---
 wdns/len_uname.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..1cb2a93 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -42,14 +42,16 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 
 		if (oclen > 63 || oclen > len)
 			return (wdns_res_invalid_length_octet);
-		if (oclen == 0)
-			break;
+		if (oclen == 0) {
+			*sz = olen - len;
+			if (*sz > WDNS_MAXLEN_NAME)
+				return (wdns_res_name_len);
+			return (wdns_res_success);
+		}
 
 		WDNS_BUF_ADVANCE(p, len, oclen);
 	}
 
-	*sz = olen - len;
-	if (*sz > WDNS_MAXLEN_NAME)
-		return (wdns_res_name_len);
-	return (wdns_res_success);
+	/* the buffer ended before the root label */
+	return (wdns_res_overflow);
 }
-- 
2.43.0


From 62ad3c185c2e8214e19bb0707536e87fbe350cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 04/77] fix: wdns_count_labels() read past the end of
 unterminated names

---
 wdns/count_labels.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..3a522b1 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -33,11 +33,14 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 	*nlabels = 0;
 	data = name->data;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	while ((c = *data++) != 0) {
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
-			if (data - name->data > name->len)
+			if (data - name->data >= name->len)
 				return (wdns_res_name_overflow);
 		} else {
 			return (wdns_res_invalid_length_octet);
-- 
2.43.0


From 6ae3304506fef1e9ff92acab89313cfe6ba21f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 05/77] fix: wdns_left_chop() read past the end of empty names

---
 wdns/left_chop.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/left_chop.c b/wdns/left_chop.c
index 5da4de0..39d1fbe 100644
--- a/wdns/left_chop.c
+++ b/wdns/left_chop.c
@@ -19,6 +19,9 @@ wdns_left_chop(wdns_name_t *name, wdns_name_t *chop)
 {
 	uint8_t oclen;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	oclen = name->data[0];
 
 	if (oclen == 0 && name->len == 1) {
-- 
2.43.0


From 7e171964855e6e25ba5fb18bb4cfd0011b9c6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 06/77] fix: wdns_reverse_name() accessed octets outside its
 buffers on unterminated names

---
 wdns/reverse_name.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..249d49b 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -20,6 +20,9 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	size_t len;
 	size_t total_len = 0;
 
+	if (len_name == 0)
+		return (wdns_res_out_of_bounds);
+
 	p = name;
 	memset(rev_name, 0, len_name);
 	rev_name += len_name - 1;
@@ -27,7 +30,7 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	while ((len = *p) != '\x00') {
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From fbcdc729e85cefbb4bb616fde38e89bda6009ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 07/77] fix: wdns_domain_to_str() read one octet past the end
 of unterminated names

---
 wdns/domain_to_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..c1d9e5c 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,7 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
+	oclen = (bytes_remaining > 0) ? *src : 0;
 	while (bytes_remaining > 0 && oclen != 0) {
 		src++;
 		bytes_remaining--;
@@ -55,7 +55,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
+		oclen = (bytes_remaining > 0) ? *src : 0;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From 615c622f323965a43808a107329e5e37c4c07232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 08/77] fix: wdns_str_to_name() read past the end of text
 ending in a backslash

---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From a0a097587f5129bd983fabee1c19ccc67d1b85cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 09/77] fix: wdns_str_to_name() accepted labels longer than 63
 octets

---
 wdns/str_to_name.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..5ade98b 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -56,6 +56,8 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				goto out;
 			}
 			*oclen = --label_len;
+			if (label_len > 63)
+				goto out;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -111,7 +113,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 		} else if (c == '.') {
 			/* end of label */
 			*oclen = --label_len;
-			if (label_len == 0)
+			if (label_len == 0 || label_len > 63)
 				goto out;
 			oclen = data++;
 			name->len++;
-- 
2.43.0


From bedf39f1926c37bfe2d4071294015d398f67dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 10/77] fix: SvcParam length overflow when parsing SVCB rdata

---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..e77ae32 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				uint32_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From 237cceaad1373acd2af68a091a4a882c3bf0167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 11/77] fix: refuse rdata whose decompressed length does not
 fit 16 bits

---
 wdns/parse_rdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index e77ae32..decb25d 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,10 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From 561ddc703de356e5a61978e4df9909dd4245231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 12/77] fix: combine the EDNS extended rcode with the header
 rcode

---
 wdns/parse_edns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..99ab579 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,7 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	m->rcode |= (rr->rrttl >> 20) & 0x0FF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From 8e656e6349ab7c8cbf12adfef107e4e6fea580fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 13/77] fix: NULL pointer dereference when printing question
 RRsets

---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..f9d5aa5 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		rr.rdata = (sec == WDNS_MSG_SEC_QUESTION) ? NULL : rrset->rdatas[i];
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 0ebe017b6dc8c988ed0dc1171856d828b5e0cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 14/77] fix: base64_decode_value() read one octet past its
 table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 1fbf40ee3f26e665e4f68df14def4a7087c4a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 15/77] fix: separate SvcParams with empty values from the next
 key

---
 wdns/rdata_to_ubuf.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index da20ecd..afb6da8 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -97,6 +97,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 
 	switch (key) {
 	case spr_mandatory:
+		if (len == 0) {
+			ubuf_add(u, ' ');
+		}
 		while ((ptr - src) < len) {
 			char key_str[16] = { 0 };
 
@@ -168,6 +171,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 	 * network byte order. An empty list of addresses is invalid.
 	 */
 	case spr_ipv4hint:
+		if (len == 0) {
+			ubuf_add(u, ' ');
+		}
 		while ((ptr - src) < len) {
 			char pres[INET_ADDRSTRLEN] = { 0 };
 
@@ -192,6 +198,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 		break;
 
 	case spr_ipv6hint:
+		if (len == 0) {
+			ubuf_add(u, ' ');
+		}
 		while ((ptr - src) < len) {
 			char pres[INET6_ADDRSTRLEN] = { 0 };
 
-- 
2.43.0


From 9a9cb8c949e3404e90d2c6fdcedcdbaf74e104bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 16/77] fix: flag an empty alpn SvcParam instead of printing an
 unterminated string

---
 wdns/rdata_to_ubuf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index afb6da8..a8c054b 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -234,6 +234,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 	 * presentation format.
 	 */
 	case spr_alpn:
+		if (len == 0) {
+			return (wdns_res_parse_error);
+		}
 		ubuf_add(u, '"');
 
 		while ((ptr - src) < len) {
-- 
2.43.0


From 58d1a48831ef725de14468821d727096fd6ddd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 17/77] fix: wdns_str_to_rdata() accepted characters other than
 hex digits in hex fields

---
 wdns/str_to_rdata_ubuf.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..9566fba 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -17,6 +17,18 @@
 
 VECTOR_GENERATE(u16buf, uint16_t)
 
+/*
+ * hex_str_to_octet() converts the first two characters of a string, which must
+ * both be hexadecimal digits.
+ */
+static bool
+hex_str_to_octet(const char *str, uint8_t *c)
+{
+	return (isxdigit((unsigned char)str[0]) &&
+		isxdigit((unsigned char)str[1]) &&
+		sscanf(str, "%2hhx", c) == 1);
+}
+
 static size_t
 rdata_from_str_string(const uint8_t *src, ubuf *u) {
 	const uint8_t *ptr = src;
@@ -404,7 +416,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (!hex_str_to_octet(str, &c)) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -477,7 +489,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+				if (!hex_str_to_octet(str, &c)) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -614,7 +626,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (!hex_str_to_octet(str, &c)) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From 33b40d7e8be9c07accb0d2b0f0247f932f9cf0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 18/77] fix: refuse generic rdata text lacking a length or
 whose length exceeds 16 bits

---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 9566fba..84e1f79 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -396,8 +396,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		uint64_t rdlen;
+		if (sscanf(str, "%" PRIu64, &rdlen) != 1 || rdlen > UINT16_MAX) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From c9f75520bf93cf6f930ec2d9d59cbf621673b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 19/77] fix: refuse A6 prefix lengths that do not fit eight
 bits

---
 wdns/str_to_rdata_ubuf.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 84e1f79..dabab3a 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -520,6 +520,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		case rdf_ipv6prefix: {
+			uint64_t s_val;
 			uint8_t prefix_len;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
@@ -535,16 +536,12 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
-				res = wdns_res_parse_error;
-				goto err;
-			}
-
-			if (prefix_len > 128) {
+			if (sscanf(str, "%" PRIu64, &s_val) != 1 || s_val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
 
+			prefix_len = (uint8_t)s_val;
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
 			str = end;
-- 
2.43.0


From 7bd1d2761b632c4ce6202ccc638762ecca76c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 20/77] fix: accept the text of A6 rdata consisting of prefix
 length 128 only

---
 wdns/str_to_rdata_ubuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index dabab3a..e58b731 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -552,6 +552,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			}
 
 			if (str == NULL || *str == 0) {
+				/* prefix length 128 leaves no address bits */
+				if (prefix_len == 128) {
+					break;
+				}
 				res = wdns_res_parse_error;
 				goto err;
 			}
-- 
2.43.0


From a61a4cf197b525321c5948d2968ca9d43e63a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 21/77] fix: accept TYPE0 as the type covered by an RRSIG

---
 wdns/str_to_rdata_ubuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index e58b731..e3191c7 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -934,9 +934,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				s_rrtype = strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
+			bool is_type = my_rrtype > 0 || strcasecmp(s_rrtype, "TYPE0") == 0;
 			free(s_rrtype);
 
-			if (my_rrtype > 0) {
+			if (is_type) {
 				ubuf_append(u, (const uint8_t*)&my_rrtype, sizeof(my_rrtype));
 			} else {
 				res = wdns_res_parse_error;
-- 
2.43.0


From 83b706639e3023cae91c75083d6ce30462e817bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 22/77] fix: refuse rdata text that needs more than 65535
 octets

---
 wdns/str_to_rdata_ubuf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index e3191c7..e5bf811 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -1145,6 +1145,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		} /* switch */
 	}
 
+	if (ubuf_size(u) - u_orig_size > UINT16_MAX) {
+		res = wdns_res_parse_error;
+		goto err;
+	}
+
 	return wdns_res_success;
 
 err:
-- 
2.43.0


From a41c18fb126de6b218aa8639ba1c4f2665d96e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 23/77] fix: refuse NUL octets in SvcParam values that are
 parsed as text

---
 wdns/str_to_rdata_ubuf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index e5bf811..3e43f6b 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -188,6 +188,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	/*
 	 * Let's parse the value(s) now.
 	 */
+	if (key <= spr_ipv6hint && key != spr_alpn && strlen(val) != len_val) {
+		/* the value contains a NUL octet, which none of these allows */
+		return (wdns_res_parse_error);
+	}
+
 	switch (key) {
 	case spr_mandatory:
 		tok = strtok_r(val, ",", &endp);
-- 
2.43.0


From 2465582b1b9130d1a7ff4d837b01b5fb167b06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 24/77] fix: refuse port SvcParam values with signs, spaces or
 trailing text

---
 wdns/str_to_rdata_ubuf.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 3e43f6b..65b5299 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -219,12 +219,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * The wire format of the SvcParamValue is the corresponding
 		 * 2 octet numeric value in network byte order.
 		 */
-		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
+		if (!isdigit((unsigned char)*val)) {
 			return (wdns_res_parse_error);
 		}
 
-		tmpul = strtoul(tok, &endport, 10);
+		tmpul = strtoul(val, &endport, 10);
 		if (*endport != '\0' || tmpul > UINT16_MAX) {
 			return (wdns_res_parse_error);
 		}
-- 
2.43.0


From 8efd1d1d1624bedc9f7829981b290a355c9db905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 25/77] fix: refuse SvcParam keys like key+1

---
 wdns/svcparamkeys_to_str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/svcparamkeys_to_str.c b/wdns/svcparamkeys_to_str.c
index 1fca8ef..191a774 100644
--- a/wdns/svcparamkeys_to_str.c
+++ b/wdns/svcparamkeys_to_str.c
@@ -71,7 +71,8 @@ _wdns_str_to_svcparamkey(char *str)
 		return (spr_ipv4hint);
 	} else if (strcmp(str, "ipv6hint") == 0) {
 		return (spr_ipv6hint);
-	} else if (strncmp(str, "key", 3) == 0 && strlen(str) > 3) {
+	} else if (strncmp(str, "key", 3) == 0 &&
+		   isdigit((unsigned char)str[3])) {
 		/* parse an arbitrary key */
 		unsigned long int key;
 		char *endp;
-- 
2.43.0


From e95b1aa59bbdecb68d646eacc996e2fe8d65addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 26/77] fix: accept ech SvcParam values of any length and
 refuse empty ones

---
 wdns/str_to_rdata_ubuf.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 65b5299..9402c13 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -153,7 +153,7 @@ static wdns_res
 str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 {
 	char *tok, *endp = NULL;
-	size_t val_len_offset, tok_len;
+	size_t val_len_offset;
 	uint16_t val_len = 0, tmp;
 
 	assert(u != NULL);
@@ -238,16 +238,10 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * In wire format, the value of the parameter is an
 		 * ECHConfigList [ECH], including the redundant length prefix.
 		 */
-		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
-			return (wdns_res_parse_error);
-		}
-
-		tok_len = strlen(tok);
-		if (tok_len > UINT8_MAX) {
+		val_len = base64_str_to_ubuf(val, len_val, u);
+		if (val_len == 0) {
 			return (wdns_res_parse_error);
 		}
-		val_len = base64_str_to_ubuf(tok, tok_len, u);
 		break;
 
 	/*
-- 
2.43.0


From 309ee5a694a49e9a04f6c78d9e7c513d999e807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 27/77] fix: refuse alpn SvcParam values with empty or
 over-long protocol ids

---
 wdns/str_to_rdata_ubuf.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 9402c13..50a4aed 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -282,13 +282,12 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 * in presentation format, as escaped spaces and commas are allowed.
 	 */
 	case spr_alpn: {
-		size_t i, offset;
-		uint8_t oclen;
+		size_t i, offset, oclen;
 
 		/* append a 'length' byte to be updated later */
 		offset = ubuf_size(u);
 		oclen = 0;
-		ubuf_append(u, &oclen, sizeof (uint8_t));
+		ubuf_add(u, 0);
 
 		/*
 		 * Parse the resulting string for escaped commas and
@@ -315,22 +314,26 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 				/*
 				 * An unescaped comma separates two values.
 				 */
-				ubuf_data(u)[offset] = oclen;
+				if (oclen == 0 || oclen > UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
+				ubuf_data(u)[offset] = (uint8_t)oclen;
 				val_len += oclen + sizeof (uint8_t);
 
 				offset = ubuf_size(u);
 				oclen = 0;
-				ubuf_append(u, &oclen, sizeof (uint8_t));
+				ubuf_add(u, 0);
 			} else {
 				ubuf_append(u, (uint8_t *)&c, 1);
 				oclen++;
 			}
 		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+		if (oclen == 0 || oclen > UINT8_MAX) {
+			return (wdns_res_parse_error);
 		}
+		ubuf_data(u)[offset] = (uint8_t)oclen;
+		val_len += oclen + sizeof (uint8_t);
 
 		break;
 	}
-- 
2.43.0


From 2e063160c236cca73fb89bfbc9212e628bee9420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 28/77] fix: A6 rdata was downcased as if its prefix length
 counted octets

---
 wdns/downcase_rdata.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..7c93f14 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -132,9 +132,10 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
-				advance_bytes(oclen + 1U);
+				/* the address suffix holds the other bits */
+				advance_bytes((128U - oclen + 7U) / 8U + 1U);
 				break;
 
 			default:
-- 
2.43.0


From 609c5bd87559407d23e74ad7ea2c26129f85dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 29/77] fix: downcase rdata names by their labels, not up to
 the first zero octet

---
 wdns/downcase_rdata.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 7c93f14..bfdcbf3 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -28,6 +28,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 	const record_descr *descr;
 	const uint8_t *t;
 	size_t bytes_remaining = rdata->len;
+	size_t len;
 	uint8_t oclen;
 	uint8_t *p = rdata->data;
 
@@ -79,11 +80,10 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
-						break;
-					}
+				if (wdns_len_uname(p, p + bytes_remaining, &len) != wdns_res_success)
+					return (wdns_res_parse_error);
+				bytes_remaining -= len;
+				while (len-- != 0) {
 					if (*p >= 'A' && *p <= 'Z')
 						*p |= 0x20;
 					p++;
-- 
2.43.0


From ad2487d5e1119243bc3efabac88f83d7e776940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 30/77] fix: base32_decode() initialized a shared table without
 synchronization

---
 libmy/b32_decode.c | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 0b7790b..60fc106 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -92,14 +92,17 @@ ptr_diff(const void *a, const void *b)
         return (const char *) a - (const char *) b;
 }
 
-static const char base32_alphabet[32] = {
-	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
-	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J',
-	'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T',
-	'U', 'V'
-};
-
-static char base32_map[(size_t) (unsigned char) -1 + 1];
+/* value of a base32hex digit, or -1 (255) */
+static inline unsigned char
+base32_value(unsigned char c)
+{
+	c = ascii_toupper(c);
+	if (c >= '0' && c <= '9')
+		return (c - '0');
+	if (c >= 'A' && c <= 'V')
+		return (c - 'A' + 10);
+	return ((unsigned char) -1);
+}
 
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
@@ -121,16 +124,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
@@ -143,7 +136,7 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 			pad++;
 			c = 0;
 		} else {
-			c = base32_map[c];
+			c = base32_value(c);
 			if ((unsigned char) -1 == c) {
 				return -1;
 			}
-- 
2.43.0


From f6d421b682642e23993001f8a4fecd9f23d96b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 31/77] fix: wdns_file_load_names() mishandled lines with NUL
 octets and long comment lines

---
 wdns/file_load_names.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..941dacb 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -18,7 +18,9 @@ wdns_res
 wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 {
 	FILE *fp;
-	char line[1280];
+	char *line = NULL;
+	size_t line_alloc = 0;
+	ssize_t len;
 	wdns_res res;
 	wdns_name_t name;
 
@@ -27,19 +29,24 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		return (wdns_res_failure);
 
 	res = wdns_res_success;
-	memset(line, 0, sizeof(line));
 
-	while (fgets(line, sizeof(line), fp) != NULL) {
+	while ((len = getline(&line, &line_alloc, fp)) > 0) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
-			line[strlen(line) - 1] = '\0';
+		if (line[len - 1] == '\n')
+			line[--len] = '\0';
+		if (strlen(line) != (size_t)len) {
+			/* embedded NUL octet */
+			res = wdns_res_parse_error;
+			break;
+		}
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
 			break;
 		cb(&name, user);
 	}
 
+	free(line);
 	fclose(fp);
 	return (res);
 }
-- 
2.43.0


From ba83a52f16b31723ef5907d822383293b3837dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 32/77] fix: report read errors from wdns_file_load_names()

---
 wdns/file_load_names.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 941dacb..1ef407f 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -46,6 +46,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		cb(&name, user);
 	}
 
+	if (res == wdns_res_success && ferror(fp))
+		res = wdns_res_failure;
+
 	free(line);
 	fclose(fp);
 	return (res);
-- 
2.43.0


From f7a068f9bcc14f6ae67c24392b8c995fdb2d620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 33/77] fix: heap_get() aborted on an empty heap

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index 1d8f7ee..a28cdcf 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -146,7 +146,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 9084e22a1e770467bae1199d97d58365b5cdf9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 34/77] fix: shifts by the full word width for IP prefix
 lengths 0, 1 and 64

---
 libmy/ip_arith.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..2dfe849 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(~(uint32_t)(0xFFFFFFFFULL >> prefix_len));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t)(0xFFFFFFFFULL >> prefix_len));
 	memcpy(out, &addr, 4);
 }
 
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(~(UINT64_MAX >> prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(~(UINT64_MAX >> prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(UINT64_MAX >> prefix_len);
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(UINT64_MAX >> prefix_len);
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 3c6734b1c50d0c66f312da6e92e8804b364651c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 35/77] fix: my_fileset lost an update when its list file could
 not be opened at first

---
 libmy/my_fileset.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..64efac9 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -60,23 +60,17 @@ path_exists(const char *path)
 }
 
 static bool
-setfile_updated(struct my_fileset *fs)
+setfile_updated(struct my_fileset *fs, struct stat *ss)
 {
-	struct stat ss;
 	int ret;
 
-	ret = stat(fs->setfile, &ss);
+	ret = stat(fs->setfile, ss);
 	if (ret < 0) {
 		fprintf(stderr, "%s: stat('%s') failed: %s\n",
 			__func__, fs->setfile, strerror(errno));
 		return (false);
 	}
-	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {
-		fs->last_ino = ss.st_ino;
-		fs->last_mtime = ss.st_mtime;
-		return (true);
-	}
-	return (false);
+	return (fs->last_ino != ss->st_ino || fs->last_mtime != ss->st_mtime);
 }
 
 static int
@@ -161,14 +155,17 @@ my_fileset_reload(struct my_fileset *fs)
 	FILE *fp;
 	char *fname, *line = NULL;
 	size_t len = 0;
+	struct stat ss;
 	ubuf *u;
 
-	if (!setfile_updated(fs))
+	if (!setfile_updated(fs, &ss))
 		return;
 
 	fp = fopen(fs->setfile, "r");
 	if (fp == NULL)
 		return;
+	fs->last_ino = ss.st_ino;
+	fs->last_mtime = ss.st_mtime;
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From e1fbf11fd2f85a2fce79ac16d88acb7f2a7f9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 36/77] fix: my_fileset treated an empty line as the name of
 its directory

---
 libmy/my_fileset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 64efac9..ad6efe9 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -171,6 +171,8 @@ my_fileset_reload(struct my_fileset *fs)
 	new_entries = entry_vec_init(1);
 
 	while (getline(&line, &len, fp) != -1) {
+		if (line[0] == '\n')
+			continue;
 		ubuf_clip(u, 0);
 		ubuf_add_cstr(u, fs->setdir);
 		ubuf_add(u, '/');
-- 
2.43.0


From 1f553cea3ef475e34e09353044ce93edc5dc70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 37/77] fix: my_fileset loaded and unloaded a file once per
 duplicate line

---
 libmy/my_fileset.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index ad6efe9..577723b 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -101,6 +101,17 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+/* like fetch_entry(), for entries that are not sorted yet */
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -179,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (!has_entry(new_entries, fname) && path_exists(fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 5cb67aeb2d111a4582db06ad014a3f9240425c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 38/77] fix: a question for type OPT is not an EDNS OPT record

---
 wdns/parse_message.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wdns/parse_message.c b/wdns/parse_message.c
index c76780e..1eea99c 100644
--- a/wdns/parse_message.c
+++ b/wdns/parse_message.c
@@ -54,9 +54,12 @@ wdns_parse_message(wdns_message_t *m, const uint8_t *pkt, size_t len)
 			 * An uncommon occurrence is the presence of multiple
 			 * OPT records. In this case, we apply the first one to
 			 * the DNS header and treat all subsequent ones as
-			 * ordinary resource records.
+			 * ordinary resource records. A question for type OPT
+			 * is not an OPT record.
 			 */
-			if (rr.rrtype == WDNS_TYPE_OPT && !m->edns.present) {
+			if (sec != WDNS_MSG_SEC_QUESTION &&
+			    rr.rrtype == WDNS_TYPE_OPT && !m->edns.present)
+			{
 				res = _wdns_parse_edns(m, &rr);
 				if (res != wdns_res_success)
 					goto err;
-- 
2.43.0


From e047074e490d26695931ebb0732fdfdd30b1df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 39/77] fix: refuse generic type and class mnemonics with
 blanks or a sign before the number

---
 wdns/gen_rrclass_to_str | 4 ++++
 wdns/gen_rrtype_to_str  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/wdns/gen_rrclass_to_str b/wdns/gen_rrclass_to_str
index 8f1953a..c3455cc 100755
--- a/wdns/gen_rrclass_to_str
+++ b/wdns/gen_rrclass_to_str
@@ -99,6 +99,10 @@ convert_generic_rrclass(const char *s, long int *val) {
 
     s += 5; /* skip leading "CLASS" */
 
+    /* strtol() would also take blanks and a sign */
+    if (*s < '0' || *s > '9')
+        return (false);
+
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
         return (false);
diff --git a/wdns/gen_rrtype_to_str b/wdns/gen_rrtype_to_str
index b005a20..493243c 100755
--- a/wdns/gen_rrtype_to_str
+++ b/wdns/gen_rrtype_to_str
@@ -97,6 +97,10 @@ convert_generic_rrtype(const char *s, long int *val) {
 
     s += 4; /* skip leading "TYPE" */
 
+    /* strtol() would also take blanks and a sign */
+    if (*s < '0' || *s > '9')
+        return (false);
+
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
         return (false);
-- 
2.43.0


From 37aa32d88489aa0eeaa327f560c72e11a641b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 40/77] fix: do not deliver a name cut short by a read error

---
 wdns/file_load_names.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 1ef407f..ab93e29 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -31,6 +31,8 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	res = wdns_res_success;
 
 	while ((len = getline(&line, &line_alloc, fp)) > 0) {
+		if (ferror(fp))
+			break;	/* the line is incomplete */
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
 		if (line[len - 1] == '\n')
-- 
2.43.0


From 6dc04163a288cff626f739ce52d4593dd90dcbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 41/77] fix: base32_encode() produced eight digits for an empty
 input

---
 libmy/b32_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..b7bd41c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -121,7 +121,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			break;
 		}
 
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From 627af21f5865bb1540e5123ac0e4c515a18381a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 42/77] fix: my_format functions wrote outside a buffer of size
 zero

---
 libmy/my_format.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 066cb3d..cc88990 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -37,6 +37,9 @@ my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, si
 {
 	size_t n;
 
+	if (dst_size == 0)
+		return 0;
+
 	if ((len * 2) > (dst_size - 1))
 		len = (dst_size - 1) / 2;
 
@@ -60,8 +63,18 @@ size_t
 my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 {
 	size_t ndigits = 0;
-	char *ptr = &dst[dst_size - 1];
+	char *ptr;
+
+	if (dst_size < 2) {
+		/* no room for a digit */
+		if (dst_size == 1)
+			*dst = '\0';
+		if (start != NULL)
+			*start = dst;
+		return 0;
+	}
 
+	ptr = &dst[dst_size - 1];
 	*ptr-- = '\0';
 
 	while (ptr >= dst) {
-- 
2.43.0


From d808efe31a5061e9f9b6f5d9cb4de1afe9b25eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 43/77] fix: extending a vector by itself read freed memory

---
 libmy/vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/vector.h b/libmy/vector.h
index ee62fa9..f6ac2d4 100644
--- a/libmy/vector.h
+++ b/libmy/vector.h
@@ -104,6 +104,8 @@ __attribute__((unused))							\
 static inline void							\
 name##_extend(name *vec0, name *vec1)					\
 {									\
+	/* vec1 may be vec0 itself, reserve before taking its address */\
+	name##_reserve(vec0, (vec1)->_n);				\
 	name##_append(vec0, (vec1)->_v, (vec1)->_n);			\
 }									\
 __attribute__((unused))							\
-- 
2.43.0


From 8658e30b9426358d14163945e0e41180199ccabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 44/77] fix: my_fileset took a read error for the end of its
 list file

---
 libmy/my_fileset.c | 47 +++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 577723b..167c2c1 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -175,8 +175,6 @@ my_fileset_reload(struct my_fileset *fs)
 	fp = fopen(fs->setfile, "r");
 	if (fp == NULL)
 		return;
-	fs->last_ino = ss.st_ino;
-	fs->last_mtime = ss.st_mtime;
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
@@ -191,24 +189,40 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
 		if (!has_entry(new_entries, fname) && path_exists(fname)) {
-			entptr = fetch_entry(fs->entries, fname);
-			if (entptr == NULL) {
-				ent = my_calloc(1, sizeof(*ent));
-				ent->fname = my_strdup(fname);
-				if (fs->load)
-					ent->ptr = fs->load(fs, fname);
-				entry_vec_add(new_entries, ent);
-			} else {
-				ent = my_calloc(1, sizeof(*ent));
-				ent->fname = my_strdup(fname);
-				ent->ptr = (*entptr)->ptr;
-				(*entptr)->keep = true;
-				entry_vec_add(new_entries, ent);
-			}
+			ent = my_calloc(1, sizeof(*ent));
+			ent->fname = my_strdup(fname);
+			entry_vec_add(new_entries, ent);
 		}
 	}
 	free(line);
+	ubuf_destroy(&u);
+
+	if (ferror(fp)) {
+		/* the rest of the list is unknown: keep the old entries and try again */
+		fclose(fp);
+		for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+			ent = entry_vec_value(new_entries, i);
+			free(ent->fname);
+			free(ent);
+		}
+		entry_vec_destroy(&new_entries);
+		return;
+	}
 	fclose(fp);
+	fs->last_ino = ss.st_ino;
+	fs->last_mtime = ss.st_mtime;
+
+	for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+		ent = entry_vec_value(new_entries, i);
+		entptr = fetch_entry(fs->entries, ent->fname);
+		if (entptr == NULL) {
+			if (fs->load)
+				ent->ptr = fs->load(fs, ent->fname);
+		} else {
+			ent->ptr = (*entptr)->ptr;
+			(*entptr)->keep = true;
+		}
+	}
 
 	qsort(entry_vec_data(new_entries),
 	      entry_vec_size(new_entries),
@@ -225,7 +239,6 @@ my_fileset_reload(struct my_fileset *fs)
 	}
 	entry_vec_destroy(&fs->entries);
 	fs->entries = new_entries;
-	ubuf_destroy(&u);
 }
 
 bool
-- 
2.43.0


From 51db4f55447190948b4cefb6abbac2a35e1fb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 45/77] fix: my_fileset recorded the wrong list file when it
 was replaced while reloading

---
 libmy/my_fileset.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 167c2c1..d6322ce 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -176,6 +176,12 @@ my_fileset_reload(struct my_fileset *fs)
 	if (fp == NULL)
 		return;
 
+	/* the file may have been replaced since setfile_updated() */
+	if (fstat(fileno(fp), &ss) < 0) {
+		fclose(fp);
+		return;
+	}
+
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
 
-- 
2.43.0


From 2f07b5b054db7b921fde721e7fa8ec37ad2b61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 46/77] fix: rdata of types known in another class only was
 dropped in text conversions

Use the generic RFC 3597 encoding in both directions, instead of no text and
of accepting any text as empty rdata.
---
 wdns/rdata_to_ubuf.c     | 9 +++------
 wdns/str_to_rdata_ubuf.c | 8 +++-----
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index a8c054b..8f73a4a 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -330,7 +330,9 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 		descr = &record_descr_array[rrtype];
 
 	if (rrtype >= record_descr_len ||
-	    (descr != NULL && descr->types[0] == rdf_unknown))
+	    (descr != NULL && descr->types[0] == rdf_unknown) ||
+	    (descr != NULL && !(descr->record_class == class_un ||
+				descr->record_class == rrclass)))
 	{
 		char tmp[sizeof("65535")];
 		const char *rdlen_str;
@@ -348,11 +350,6 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 		}
 
 		return;
-
-	} else if (descr != NULL && !(descr->record_class == class_un ||
-				      descr->record_class == rrclass))
-	{
-		return;
 	}
 
 	src = rdata;
diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 50a4aed..da6fc6a 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -371,7 +371,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		descr = &record_descr_array[rrtype];
 
 	if (rrtype >= record_descr_len ||
-	    (descr != NULL && descr->types[0] == rdf_unknown))
+	    (descr != NULL && descr->types[0] == rdf_unknown) ||
+	    (descr != NULL && !(descr->record_class == class_un ||
+				descr->record_class == rrclass)))
 	{
 		/* generic encoding */
 
@@ -430,10 +432,6 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			goto err;
 		}
 
-		return (wdns_res_success);
-	} else if (descr != NULL && !(descr->record_class == class_un ||
-				      descr->record_class == rrclass))
-	{
 		return (wdns_res_success);
 	}
 
-- 
2.43.0


From 0b96aa5f7cc52e797f06489e9d04f04c75821b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 47/77] fix: my_rate adjusted its rate down to zero or up
 without bound

Rounding the adjusted rate to an integer kept small rates from ever rising
again and made the period infinite; a slow caller made it overflow.
---
 libmy/my_rate.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..9ec09e8 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,12 +64,13 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double actual_rate, ratio;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
 	my_timespec_sub(&r->start, &elapsed);
+	if (ts_nanos(&elapsed) <= 0)
+		return;
 
 	/* the average event rate that has been maintained over the
 	 * lifespan of this rate-limiter.
@@ -76,7 +78,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -87,8 +89,14 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	/* calculate a new, adjusted rate based on this ratio */
 	r->adj_rate *= ratio;
 
+	/* don't let the adjusted rate run away from the nominal rate */
+	if (r->adj_rate < r->rate * 0.5)
+		r->adj_rate = r->rate * 0.5;
+	if (r->adj_rate > r->rate * 2.0)
+		r->adj_rate = r->rate * 2.0;
+
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From ba5abd865ce4dece1f8ea628abdb05b84190f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 48/77] fix: my_rate let a call through early when a signal
 interrupted its sleep

---
 libmy/my_rate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 9ec09e8..323ee7a 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -177,7 +177,8 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From ef4113fd274969c898ad076620a7b183b1730531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 49/77] fix: my_timespec_from_double overflowed for 2^31
 seconds and more

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index 4fa9281..bc9e7c2 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -59,7 +59,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ((time_t) seconds)) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From 1bad8b98ed0b481f48b46e4935a77f813ba580fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 50/77] fix: atomic64 operations truncated their operands and
 results to int

---
 libmy/atomic_64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..84fd1f0 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -36,7 +36,7 @@ typedef struct {
  * @param v pointer of type atomic64_t
  */
 static inline void
-atomic64_add(int i, atomic64_t *v) {
+atomic64_add(int64_t i, atomic64_t *v) {
          (void)__sync_add_and_fetch(&v->counter, i);
 }
 
@@ -48,7 +48,7 @@ atomic64_add(int i, atomic64_t *v) {
  * Atomically subtracts @i from @v.
  */
 static inline void
-atomic64_sub(int i, atomic64_t *v) {
+atomic64_sub(int64_t i, atomic64_t *v) {
         (void)__sync_sub_and_fetch(&v->counter, i);
 }
 
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
@@ -72,7 +72,7 @@ atomic64_zero(atomic64_t *v) {
  * other cases.
  */
 static inline int
-atomic64_sub_and_test(int i, atomic64_t *v) {
+atomic64_sub_and_test(int64_t i, atomic64_t *v) {
         return !(__sync_sub_and_fetch(&v->counter, i));
 }
 
@@ -135,7 +135,7 @@ atomic64_inc_and_test(atomic64_t *v) {
  * result is greater than or equal to zero.
  */
 static inline int
-atomic64_add_negative(int i, atomic64_t *v) {
+atomic64_add_negative(int64_t i, atomic64_t *v) {
        return (__sync_add_and_fetch(&v->counter, i) < 0);
 }
 
-- 
2.43.0


From 90f7ce03aa55abab912cd1b543ad5cb8abec2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 51/77] fix: argv_long_was_used() compares the name, not its
 address

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 16b1c84..912f37f 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3408,7 +3408,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From da7aef457f833ddaa1fc3a9ec8a3376c63d74cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 52/77] fix: checking ARGV_OR does not read past the end of the
 option table

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 912f37f..e9adc50 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 7aec139cdc0acdee545aef8def2bb6f48484e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 53/77] fix: argv_process() leaves the argument strings as they
 were

---
 libmy/argv.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index e9adc50..9e55eee 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2439,11 +2439,17 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
   argv_t	*grid_p, *match_p;
   int		len, char_c, unwant_c = 0;
   int		last_arg_b = ARGV_FALSE;
-  char		*close_p = NULL, **arg_p;
+  char		*close_p = NULL, *equals_p = NULL, **arg_p;
   
   /* run throught rest of arguments */
   for (arg_p = argv; arg_p < argv + arg_c; arg_p++) {
     
+    /* restore the special char punched out of the previous argument */
+    if (equals_p != NULL) {
+      *equals_p = ARG_EQUALS;
+      equals_p = NULL;
+    }
+    
     /* have we reached the LAST_ARG marker? */
     if (strcmp(LAST_ARG, *arg_p) == 0) {
       if (last_arg_b) {
@@ -2472,6 +2478,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	close_p = strchr(*arg_p, ARG_EQUALS);
 	/* if we found the special char then punch the null and set pointer */
 	if (close_p != NULL) {
+	  equals_p = close_p;
 	  *close_p = '\0';
 	  close_p++;
 	}
@@ -2657,6 +2664,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	close_p = strchr(*arg_p, ARG_EQUALS);
 	/* if we found the special char then punch the null and set pointer */
 	if (close_p != NULL) {
+	  equals_p = close_p;
 	  *close_p = '\0';
 	  close_p++;
 	}
@@ -2809,6 +2817,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     *okay_bp = ARGV_FALSE;
   }
   
+  if (equals_p != NULL) {
+    *equals_p = ARG_EQUALS;
+  }
+  
   if (unwant_c > 0 && argv_error_stream != NULL) {
     (void)fprintf(argv_error_stream,
 		  "%s: %s, %d unwanted additional argument%s\n",
-- 
2.43.0


From e855f5a1955b77372dbd2a878c6cf3d9e94f5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 54/77] fix: argv frees a string option given twice, and never
 the caller's default

---
 libmy/argv.c     | 42 +++++++++++++++++++++---------------------
 libmy/argv_loc.h |  1 +
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 9e55eee..69a0068 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1042,7 +1042,7 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
   for (arg_p = args; arg_p < args + arg_n; arg_p++) {
     
     /* clear internal flags */
-    arg_p->ar_type &= ~ARGV_FLAG_USED;
+    arg_p->ar_type &= ~(ARGV_FLAG_USED | ARGV_FLAG_ALLOC);
     
     /* do we have a mandatory-array? */
     if (arg_p->ar_short_arg == ARGV_MAND) {
@@ -1192,15 +1192,14 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
  *
  * arg - Argument string.
  *
- * var - Pointer to our variable.
- *
- * type - Type of the variable.
+ * entry_p - Entry in our argv_t structure array whose variable is set.
  */
-static	int	string_to_value(const char *arg, ARGV_PNT var,
-				const unsigned int type)
+static	int	string_to_value(const char *arg, argv_t *entry_p)
 {
   argv_array_t	*arr_p;
   argv_type_t	*type_p;
+  ARGV_PNT	var = entry_p->ar_variable;
+  const unsigned int	type = entry_p->ar_type;
   unsigned int	val_type = ARGV_TYPE(type), size = 0;
   
   /* find the type and the size for array */
@@ -1296,10 +1295,18 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_CHAR_P:
+    /* forget an earlier value of ours, but not the caller's default */
+    if (entry_p->ar_type & ARGV_FLAG_ALLOC) {
+      free(*(char **)var);
+      entry_p->ar_type &= ~ARGV_FLAG_ALLOC;
+    }
     *(char **)var = string_copy((char *)arg);
     if (*(char **)var == NULL) {
       return ERROR;
     }
+    if (! (type & ARGV_FLAG_ARRAY)) {
+      entry_p->ar_type |= ARGV_FLAG_ALLOC;
+    }
     break;
     
   case ARGV_SHORT:
@@ -2338,20 +2345,17 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
    * else queue it for needing a value argument.
    */
   if (argv_close_enable_b && close_p != NULL) {
-    if (string_to_value(close_p, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(close_p, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
   else if (! HAS_ARG(match_p->ar_type)) {
-    if (string_to_value(NULL, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(NULL, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
   else if (argv_close_enable_b && close_p != NULL) {
-    if (string_to_value(close_p, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(close_p, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
@@ -2729,7 +2733,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    case ARGV_LONG:
 	    case ARGV_FLOAT:
 	    case ARGV_DOUBLE:
-              string_to_value(*arg_p, match_p->ar_variable, match_p->ar_type);
+              string_to_value(*arg_p, match_p);
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
@@ -2768,8 +2772,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 		  okay_bp);
       }
       else {
-	if (string_to_value(*arg_p, match_p->ar_variable,
-			    match_p->ar_type) != NOERROR) {
+	if (string_to_value(*arg_p, match_p) != NOERROR) {
 	  *okay_bp = ARGV_FALSE;
 	}
       }
@@ -2786,8 +2789,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     }
     if  (grid_p->ar_short_arg != ARGV_LAST) {
       /* absorb another mand. arg */
-      if (string_to_value(*arg_p, grid_p->ar_variable,
-			  grid_p->ar_type) != NOERROR) {
+      if (string_to_value(*arg_p, grid_p) != NOERROR) {
 	*okay_bp = ARGV_FALSE;
       }
       grid_p->ar_type |= ARGV_FLAG_USED;
@@ -2804,8 +2806,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     }
     if  (grid_p->ar_short_arg != ARGV_LAST) {
       /* absorb another maybe arg */
-      if (string_to_value(*arg_p, grid_p->ar_variable,
-			  grid_p->ar_type) != NOERROR) {
+      if (string_to_value(*arg_p, grid_p) != NOERROR) {
 	*okay_bp = ARGV_FALSE;
       }
       grid_p->ar_type |= ARGV_FLAG_USED;
@@ -3511,8 +3512,7 @@ void	argv_cleanup(const argv_t *args)
     }
     
     /* handle individual charps */
-    if (arg_p->ar_type & ARGV_FLAG_USED
-	&& ARGV_TYPE(arg_p->ar_type) == ARGV_CHAR_P) {
+    if (arg_p->ar_type & ARGV_FLAG_ALLOC) {
       free(*(char **)arg_p->ar_variable);
       continue;
     }
diff --git a/libmy/argv_loc.h b/libmy/argv_loc.h
index 6ccf5dc..b8b00ec 100644
--- a/libmy/argv_loc.h
+++ b/libmy/argv_loc.h
@@ -79,6 +79,7 @@ extern "C" {
 /* internal flags set in the ar_type field */
 /* NOTE: other external flags defined in argv.h */
 #define ARGV_FLAG_USED		(1 << 12)	/* if arg has been specified */
+#define ARGV_FLAG_ALLOC		(1 << 11)	/* if variable holds our string */
 
 /* error messages */
 #define USAGE_ERROR_NAME	"usage problem"
-- 
2.43.0


From 4d5b7509ac8a005d387aa93eda8cf9a9781a0fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 55/77] fix: argv_process() frees the environment arguments in
 every case

---
 libmy/argv.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 69a0068..fe74be4 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3216,9 +3216,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* do the external args */
@@ -3229,9 +3226,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* make sure the XOR and MAND args and argument-options are okay */
@@ -3245,10 +3239,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
     okay_b = ARGV_FALSE;
   }
   
-  /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  /* free what we allocated */
+  free(queue_list);
+  free(env_vect_p);
+  free(environ_p);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 44201b59f544bb64ac40ad468dd23c71527da116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 56/77] fix: argv's queue of options waiting for a value grows
 as needed

---
 libmy/argv.c | 109 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 34 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index fe74be4..51fb808 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2157,7 +2157,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2169,7 +2169,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2263,7 +2263,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2276,6 +2276,57 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static int queue_option
+ *
+ * DESCRIPTION:
+ *
+ * Add an option that needs a value to the end of our option queue.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Faulure - -1
+ *
+ * ARGUMENTS:
+ *
+ * queue_list_p <-> Pointer to our option queue which may be grown.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * match_p -> Entry in our argv_t structure array or NULL for the file
+ * argument.
+ */
+static	int	queue_option(argv_t ***queue_list_p, int *queue_head_p,
+			     argv_t *match_p)
+{
+  argv_t	**queue_list;
+  
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    queue_list = (argv_t **)realloc(*queue_list_p,
+				    (*queue_head_p + ARRAY_INCR) *
+				    sizeof(argv_t *));
+    if (queue_list == NULL) {
+      if (argv_error_stream != NULL) {
+	(void)fprintf(argv_error_stream,
+		      "%s: memory error during argument processing\n",
+		      argv_program);
+      }
+      if (argv_interactive) {
+	(void)exit(argv_error_code);
+      }
+      return ERROR;
+    }
+    *queue_list_p = queue_list;
+  }
+  
+  (*queue_list_p)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+  return NOERROR;
+}
+
 /*
  * static void do_arg
  *
@@ -2298,7 +2349,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2307,7 +2358,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2360,8 +2411,9 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    if (queue_option(queue_list_p, queue_head_p, match_p) != NOERROR) {
+      *okay_bp = ARGV_FALSE;
+    }
   }
 }
 
@@ -2425,7 +2477,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2437,7 +2489,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2536,7 +2588,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2547,13 +2599,14 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_option(queue_list_p, queue_head_p, NULL) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2720,7 +2773,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2753,7 +2806,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2763,12 +2816,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3137,7 +3190,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3199,32 +3252,20 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
   }
   
-- 
2.43.0


From 0dbdd88d9816843b8e3c5c22daa68ee0c441f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 57/77] fix: a negative number after --argv-file does not crash
 argv

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 51fb808..de6b82e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2779,7 +2779,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	     * find out that we can use it below
 	     */
 	    
-	    switch (ARGV_TYPE(match_p->ar_type)) {
+	    /* HACK: null is the file argument which is not a number */
+	    switch (match_p == NULL ? 0 : ARGV_TYPE(match_p->ar_type)) {
 	      
 	    case ARGV_SHORT:
 	    case ARGV_INT:
-- 
2.43.0


From b21d9e17a4cef01415042049506c8311cce406af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 58/77] fix: argv does not take ARGV_MAND and other special
 entries for short options

---
 libmy/argv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index de6b82e..cef07c4 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2746,6 +2746,13 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	
 	/* run through the arg list looking for a match */
 	for (match_p = grid; match_p->ar_short_arg != ARGV_LAST; match_p++) {
+	  /* the special entries are no options */
+	  if (match_p->ar_short_arg == ARGV_MAND
+	      || match_p->ar_short_arg == ARGV_MAYBE
+	      || match_p->ar_short_arg == ARGV_OR
+	      || match_p->ar_short_arg == ARGV_XOR) {
+	    continue;
+	  }
 	  if (match_p->ar_short_arg ==
 	      (*arg_p)[SHORT_PREFIX_LENGTH + char_c]) {
 	    break;
-- 
2.43.0


From 02834299b7078b29fea638ba965e16887d79ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 59/77] fix: a long option's full name is not ambiguous when
 other names start with it

---
 libmy/argv.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index cef07c4..0f492cb 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2554,6 +2554,18 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	continue;
       }
       
+      /* an option's full name is it even if other names start with it */
+      for (grid_p = grid; grid_p->ar_short_arg != ARGV_LAST; grid_p++) {
+	if (grid_p->ar_long_arg != NULL
+	    && strcmp(*arg_p + LONG_PREFIX_LENGTH, grid_p->ar_long_arg) == 0) {
+	  break;
+	}
+      }
+      if (grid_p->ar_short_arg != ARGV_LAST) {
+	do_arg(grid, grid_p, close_p, queue_list_p, queue_head_p, okay_bp);
+	continue;
+      }
+      
       match_p = NULL;
       
       /* run though long options looking for a match */
-- 
2.43.0


From aa0daff90e307e293ec0a6ba9df2821642698b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 60/77] fix: argv_value_string() ends strings and writes
 escapes in full

---
 libmy/argv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0f492cb..0f3d16d 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -482,8 +482,8 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 2 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 2), "\\%c", *(spec_p - 1));
-      out_p += 2;
+      *out_p++ = '\\';
+      *out_p++ = *(char *)(spec_p - 1);
       continue;
     }
     
@@ -499,7 +499,8 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 4 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 4), "\\%03o", *buf_p);
+      /* there is room for the \0 since out_p + 4 < max_p */
+      LOC_SNPRINTF(SNP_ARG(out_p, 5), "\\%03o", *buf_p);
       out_p += 4;
     }
   }
@@ -1515,6 +1516,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_CHAR:
     len = expand_buf((char *)var, 1, buf, buf_size);
+    buf[len] = '\0';
     break;
     
   case ARGV_CHAR_P:
@@ -1525,6 +1527,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     }
     else {
       len = expand_buf(*(char **)var, -1, buf, buf_size);
+      buf[len] = '\0';
     }
     break;
     
-- 
2.43.0


From 55ecbe65287b6cf23e2f8cb09bc225abcfdcf071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 61/77] fix: argv_value_string() does not write a zero past a
 one-octet buffer

---
 libmy/argv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0f3d16d..eaaef64 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1632,7 +1632,8 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_HEX:
     if (*(int *)var == 0) {
-      (void)strcpy(buf, "0");
+      (void)strncpy(buf, "0", buf_size);
+      buf[buf_size - 1] = '\0';
     }
     else {
       LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%#x (%d)",
@@ -1651,7 +1652,8 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       long	morf, val = *(long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	(void)strncpy(buf, "0", buf_size);
+	buf[buf_size - 1] = '\0';
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
@@ -1678,7 +1680,8 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       unsigned long	morf, val = *(unsigned long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	(void)strncpy(buf, "0", buf_size);
+	buf[buf_size - 1] = '\0';
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-- 
2.43.0


From c90a522d8b3adcbdc1dd11b058169909b06625e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 62/77] fix: argv_value_string() prints unsigned sizes as
 unsigned

---
 libmy/argv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index eaaef64..6d78bf3 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1685,18 +1685,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From e8e9201b1c2a509db78858df882dbbb6f89ca283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 63/77] fix: argv_process_no_env() sets up the error stream
 like the other entries

---
 libmy/argv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6d78bf3..8dff4be 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3218,6 +3218,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   argv_t	**queue_list = NULL;
   int		queue_head = 0, queue_tail = 0, env_n;
   
+  if (! enabled_b) {
+    argv_startup();
+  }
+  
   if (args == NULL) {
     args = empty;
   }
-- 
2.43.0


From 9f45793936c59de828f6596eff1b9ab028cae8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 64/77] fix: argv_type_info() gives the size of a negative
 flag's variable

---
 libmy/argv_loc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/argv_loc.h b/libmy/argv_loc.h
index b8b00ec..69abd75 100644
--- a/libmy/argv_loc.h
+++ b/libmy/argv_loc.h
@@ -166,7 +166,7 @@ typedef struct {
 static	argv_type_t	argv_types[] = {
   { ARGV_BOOL,		"flag",			sizeof(char),
     "if option used, set variable to 1" },
-  { ARGV_BOOL_NEG,	"negative flag",	sizeof(int),
+  { ARGV_BOOL_NEG,	"negative flag",	sizeof(char),
     "if option used, set variable to 0" },
   { ARGV_BOOL_ARG,	"flag with arg",	sizeof(char),
     "like boolean but with an argument, true/yes/1 sets var to 1" },
-- 
2.43.0


From b01206d1cacad48f2741da065ec0bc04d41e3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:49 +0000
Subject: [PATCH 65/77] fix: argv_process() with no arguments, not even a
 program name, does not crash

---
 libmy/argv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 8dff4be..44afbd3 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3258,8 +3258,9 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   {
     const char	*tmp_p;
     
-    prog_p = *argv;
-    for (tmp_p = *argv; *tmp_p != '\0'; tmp_p++) {
+    /* there may be no arguments at all, not even the program's name */
+    prog_p = (*argv == NULL ? "" : *argv);
+    for (tmp_p = prog_p; *tmp_p != '\0'; tmp_p++) {
       if (*tmp_p == '/') {
 	prog_p = tmp_p + 1;
       }
-- 
2.43.0


From b493b35106478f28d177d22abba02e36e1a16c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 66/77] fix: converting text to rdata and base64 rdata to text
 survive failing allocations

Report wdns_res_malloc (or stop in my_malloc(), as elsewhere) instead of
dereferencing the null pointer.
---
 wdns/rdata_to_ubuf.c     |  2 +-
 wdns/str_to_rdata_ubuf.c | 42 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index 8f73a4a..b67048b 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -69,7 +69,7 @@ bytes_to_ubuf_base64(uint8_t *src, uint16_t src_len, ubuf *u)
 	base64_encodestate b64;
 
 	base64_init_encodestate(&b64);
-	buf = malloc(2 * src_len + 1);
+	buf = my_malloc(2 * src_len + 1);
 
 	len = base64_encode_block((const char *)src, src_len, buf, &b64);
 	ubuf_append(u, (uint8_t *)buf, len);
diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index da6fc6a..b30bd0b 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -101,7 +101,7 @@ base64_str_to_ubuf(const char *str, size_t str_len, ubuf *u)
 	size_t buf_len;
 
 	base64_init_decodestate(&b64);
-	buf = malloc(str_len+1);
+	buf = my_malloc(str_len+1);
 	buf_len = base64_decode_block((const char *) str, str_len, buf, &b64);
 	ubuf_append(u, (uint8_t *) buf, buf_len);
 	free(buf);
@@ -461,6 +461,12 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				s = strdup(str);
 			}
 			name = calloc(1, sizeof(*name));
+			if (s == NULL || name == NULL) {
+				free(s);
+				free(name);
+				res = wdns_res_malloc;
+				goto err;
+			}
 
 			res = wdns_str_to_name_case(s, name);
 			if (res != wdns_res_success) {
@@ -575,6 +581,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				pres = strdup(str);
 			}
 
+			if (pres == NULL) {
+				res = wdns_res_malloc;
+				goto err;
+			}
+
 			int pton_res = inet_pton(AF_INET6, pres, addr);
 			free(pres);
 
@@ -662,6 +673,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			}
 
 			buf = malloc(str_len);
+			if (buf == NULL) {
+				res = wdns_res_malloc;
+				goto err;
+			}
 			buf_len = base32_decode(buf, str_len, str, str_len);
 
 			uint8_t oclen = (uint8_t)buf_len;
@@ -777,6 +792,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			}
 
 			pres = strdup(str);
+			if (pres == NULL) {
+				res = wdns_res_malloc;
+				goto err;
+			}
 			pres[end-str] = 0;
 			pton_res = inet_pton(AF_INET, pres, addr);
 			free(pres);
@@ -803,6 +822,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			} else {
 				pres = strdup(str);
 			}
+			if (pres == NULL) {
+				res = wdns_res_malloc;
+				goto err;
+			}
 			pton_res = inet_pton(AF_INET6, pres, addr);
 			free(pres);
 
@@ -932,6 +955,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			} else {
 				s_rrtype = strdup(str);
 			}
+			if (s_rrtype == NULL) {
+				res = wdns_res_malloc;
+				goto err;
+			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
 			bool is_type = my_rrtype > 0 || strcasecmp(s_rrtype, "TYPE0") == 0;
 			free(s_rrtype);
@@ -987,6 +1014,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 
 				dup = strndup(key, val - key);
+				if (dup == NULL) {
+					res = wdns_res_malloc;
+					goto err;
+				}
 				k = _wdns_str_to_svcparamkey(dup);
 				free(dup);
 
@@ -1035,6 +1066,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				len_dup = ubuf_size(u) - orig_size;
 				dup = calloc(len_dup+1, 1);
+				if (dup == NULL) {
+					res = wdns_res_malloc;
+					goto err;
+				}
 				memcpy(dup, ubuf_data(u) + orig_offset, len_dup);
 				ubuf_clip(u, orig_size);
 
@@ -1080,6 +1115,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					s_rrtype = strdup(str);
 				}
 
+				if (s_rrtype == NULL) {
+					u16buf_destroy(&rrtypes);
+					res = wdns_res_malloc;
+					goto err;
+				}
 				my_rrtype = wdns_str_to_rrtype(s_rrtype);
 
 				if (my_rrtype == 0 && strcasecmp(s_rrtype, "TYPE0") != 0) {
-- 
2.43.0


From 3fb830663e03fcc493130f23b29f35edfa3a7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 67/77] fix: argv_process() fails when there is no memory for
 the environment's arguments

---
 libmy/argv.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 44afbd3..0986d85 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -353,7 +353,7 @@ static	char	*string_copy(const char *str)
  * tok - List of token characters to look for in the string.
  *
  * num_tok_p - Pointer to an integer which will be set to the number
- * of tokens found in the string.
+ * of tokens found in the string, or to -1 if there is no memory.
  */
 static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
 {
@@ -364,6 +364,7 @@ static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
   /* count the tokens */
   tmp = string_copy(str);
   if (tmp == NULL) {
+    *num_tok_p = -1;
     return NULL;
   }
   
@@ -391,6 +392,7 @@ static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
   /* allocate the pointer grid */
   vect_p = (char **)malloc(sizeof(char *) * tok_n);
   if (vect_p == NULL) {
+    *num_tok_p = -1;
     if (argv_error_stream != NULL) {
       (void)fprintf(argv_error_stream,
 		    "%s: memory error during argument processing\n",
@@ -2931,7 +2933,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
  * string that will need to be freed after the env vector is processed.
  *
  * env_np - Pointer to an integer which is set with the number
- * of environ arguments.
+ * of environ arguments, or with -1 if there is no memory for them.
  */
 static	char	**preprocess_env_args(char **environ_pp, int *env_np)
 {
@@ -2958,9 +2960,7 @@ static	char	**preprocess_env_args(char **environ_pp, int *env_np)
   /* break the list into tokens and do the list */
   environ_p = string_copy(environ_p);
   if (environ_p == NULL) {
-    (void)fprintf(argv_error_stream,
-		  "%s: problems allocating memory for environmental arguments\n",
-		  argv_program);
+    *env_np = -1;
     return NULL;
   }
   *environ_pp = environ_p;
@@ -3283,6 +3283,9 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
+  if (env_n < 0) {
+    okay_b = ARGV_FALSE;
+  }
 
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-- 
2.43.0


From a1e961b485948be134bcb6436c62ce673daa07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 68/77] fix: running out of memory while reading an argument
 file keeps no file or memory

---
 libmy/argv.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0986d85..602443f 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2180,7 +2180,7 @@ static	void	file_args(const char *path, argv_t *grid,
 			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
-  char	**argv, **argv_p;
+  char	**argv, **argv_p, **grown;
   int	arg_c, max;
   FILE	*infile;
   char	line[FILE_LINE_SIZE], *line_p;
@@ -2241,7 +2241,7 @@ static	void	file_args(const char *path, argv_t *grid,
     *argv_p = string_copy(line);
     if (*argv_p == NULL) {
       *okay_bp = ARGV_FALSE;
-      return;
+      goto done;
     }
     
     argv_p++;
@@ -2250,12 +2250,9 @@ static	void	file_args(const char *path, argv_t *grid,
     /* do we need to grow the array of pointers? */
     if (arg_c == max) {
       max += ARRAY_INCR;
-      argv = realloc(argv, sizeof(char *) * max);
-      if (argv == NULL) {
+      grown = realloc(argv, sizeof(char *) * max);
+      if (grown == NULL) {
 	*okay_bp = ARGV_FALSE;
-	if (infile != stdin) {
-	  (void)fclose(infile);
-	}
 	if (argv_error_stream != NULL) {
 	  (void)fprintf(argv_error_stream,
 			"%s: memory error during argument processing\n",
@@ -2264,8 +2261,9 @@ static	void	file_args(const char *path, argv_t *grid,
 	if (argv_interactive) {
 	  (void)exit(argv_error_code);
 	}
-	return;
+	goto done;
       }
+      argv = grown;
       argv_p = argv + arg_c;
     }
   }
@@ -2273,6 +2271,7 @@ static	void	file_args(const char *path, argv_t *grid,
   /* now do the list */
   do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
+done:
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
     free(*argv_p);
-- 
2.43.0


From 21f344c69500dfe71a6e2d8a7d5c30a61966580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 69/77] fix: argv_process() keeps hold of an array's values
 when it cannot grow

---
 libmy/argv.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 602443f..3157510 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1201,6 +1201,7 @@ static	int	string_to_value(const char *arg, argv_t *entry_p)
 {
   argv_array_t	*arr_p;
   argv_type_t	*type_p;
+  ARGV_PNT	entries;
   ARGV_PNT	var = entry_p->ar_variable;
   const unsigned int	type = entry_p->ar_type;
   unsigned int	val_type = ARGV_TYPE(type), size = 0;
@@ -1224,16 +1225,15 @@ static	int	string_to_value(const char *arg, argv_t *entry_p)
   if (type & ARGV_FLAG_ARRAY) {
     arr_p = (argv_array_t *)var;
     
+    entries = arr_p->aa_entries;
     if (arr_p->aa_entry_n == 0) {
-      arr_p->aa_entries = (char *)malloc(ARRAY_INCR *size);
+      entries = malloc(ARRAY_INCR *size);
     }
     else if (arr_p->aa_entry_n % ARRAY_INCR == 0) {
-      arr_p->aa_entries =
-	(char *)realloc(arr_p->aa_entries, (arr_p->aa_entry_n + ARRAY_INCR) *
-			size);
+      entries = realloc(entries, (arr_p->aa_entry_n + ARRAY_INCR) * size);
     }
     
-    if (arr_p->aa_entries == NULL) {
+    if (entries == NULL) {
       if (argv_error_stream != NULL) {
 	(void)fprintf(argv_error_stream,
 		      "%s: memory error during argument processing\n",
@@ -1245,6 +1245,7 @@ static	int	string_to_value(const char *arg, argv_t *entry_p)
       return ERROR;
     }
     
+    arr_p->aa_entries = entries;
     var = (char *)(arr_p->aa_entries) + arr_p->aa_entry_n * size;
     arr_p->aa_entry_n++;
   }
-- 
2.43.0


From 3bc519d956e2053e93ad30bff198b7fa9866afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 70/77] fix: argv_process() fails when there is no memory for a
 negative number of an array

---
 libmy/argv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 3157510..7c59549 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2814,7 +2814,9 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    case ARGV_LONG:
 	    case ARGV_FLOAT:
 	    case ARGV_DOUBLE:
-              string_to_value(*arg_p, match_p);
+	      if (string_to_value(*arg_p, match_p) != NOERROR) {
+		*okay_bp = ARGV_FALSE;
+	      }
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
-- 
2.43.0


From 0d2e399a67c62eb17f0eed1bc244c2080f7387d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 71/77] fix: zonefile: free the object when the file cannot be
 opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..1104b0c 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -83,8 +83,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From b7792d7571249a320ae78c51426ec9c700ba66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 72/77] fix: zonefile: stop at the end of a file without SOA
 and at read errors

At the end of the input and after a read error every line looks empty,
so opening an empty file or a directory never returned, and a read error
in the middle of a zone was retried forever.
---
 libmy/zonefile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 1104b0c..65095a8 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -30,6 +30,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp) || ferror(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
@@ -163,6 +167,8 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			z->eof = true;
 			return (LDNS_STATUS_OK);
 		}
+		if (ferror(z->fp))
+			return (LDNS_STATUS_ERR);
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From 92a8acf054301d0eddd645792c1a8ae612efd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 73/77] fix: zonefile: keep the origin set by $ORIGIN before
 the SOA

It was overwritten with the owner of the SOA, and leaked.
---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 65095a8..fe1bef1 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -61,7 +61,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From e4d01b9b9cd66818f13b5d558b34a40d23c931c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 74/77] fix: zonefile: the SOA at the end of a zone ends it for
 good

The next call of zonefile_read went on with the lines behind it.
---
 libmy/zonefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index fe1bef1..f5b8346 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -176,6 +176,7 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
+				z->eof = true;
 				return (LDNS_STATUS_OK);
 			}
 			z->count++;
-- 
2.43.0


From a8d9748d13789d4665c1c7d3425148ada44aa421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 75/77] fix: zonefile: keep the serial number after the SOA was
 returned

zonefile_get_serial() used the SOA record, which belongs to the caller
once zonefile_read() has returned it.
---
 libmy/zonefile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index f5b8346..ae63844 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -27,6 +28,7 @@ static ldns_status
 read_soa(struct zonefile *z)
 {
 	ldns_rr *rr;
+	ldns_rdf *rdf;
 	ldns_status status;
 
 	for (;;) {
@@ -59,6 +61,9 @@ out:
 		return (LDNS_STATUS_ERR);
 	}
 
+	rdf = ldns_rr_rdf(rr, 2);
+	assert(rdf != NULL);
+	z->serial = ldns_rdf2native_int32(rdf);
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	if (z->origin == NULL)
@@ -138,9 +143,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From ecfe7f1571891cc1cef59d1defa9ebb5b5389e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 76/77] fix: zonefile: quote the file name given to zcat

Names with blanks or other characters special to the shell could not be
read, or ran commands.
---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index ae63844..e26b720 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -84,8 +84,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat -- '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 39d8d377bc61b727e52366f404e424d4c01a7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:04 +0000
Subject: [PATCH 77/77] fix: my_queue: compute the position of an element in
 size_t

An element's position in the data area was the product of two unsigned
ints, so that in a queue of more than 4 GB elements overwrote each other.
---
 libmy/my_queue_mb.c    | 4 ++--
 libmy/my_queue_mutex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/my_queue_mb.c b/libmy/my_queue_mb.c
index ff08312..acaffbf 100644
--- a/libmy/my_queue_mb.c
+++ b/libmy/my_queue_mb.c
@@ -100,7 +100,7 @@ my_queue_mb_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = MY_ACCESS_ONCE(q->tail);
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t) head * q->sizeof_elem], item, q->sizeof_elem);
 		smp_wmb();
 		q->head = (head + 1) & (q->num_elems - 1);
 		smp_wmb();
@@ -120,7 +120,7 @@ my_queue_mb_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t) tail * q->sizeof_elem], q->sizeof_elem);
 		smp_mb();
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
diff --git a/libmy/my_queue_mutex.c b/libmy/my_queue_mutex.c
index b8572ec..3ec2c97 100644
--- a/libmy/my_queue_mutex.c
+++ b/libmy/my_queue_mutex.c
@@ -121,7 +121,7 @@ my_queue_mutex_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = q->tail;
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t) head * q->sizeof_elem], item, q->sizeof_elem);
 		q->head = (head + 1) & (q->num_elems - 1);
 		res = true;
 		space--;
@@ -141,7 +141,7 @@ my_queue_mutex_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t) tail * q->sizeof_elem], q->sizeof_elem);
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
 		count--;
-- 
2.43.0

