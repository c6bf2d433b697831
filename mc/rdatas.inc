{ 1, 1, "192.0.2.1" }, { 1, 1, "10.20.30.255" }, { 2, 1, "ns1.Example.com." }, { 5, 1, "a.b." }, { 6, 1, "m.x. r.x. 2024010101 7200 3600 1209600 300" }, { 11, 1, "\\# 6 c00002010600" }, { 12, 1, "." },
		{ 13, 1, "\"cpu x\" \"os y\"" }, { 15, 1, "10 mx.x." }, { 16, 1, "\"hello world\" \"\\001\\200\"" }, { 16, 3, "\"x\"" }, { 17, 1, "a. b." }, { 18, 1, "1 a." }, { 19, 1, "\"311061700956\"" },
		{ 20, 1, "\"150862028003217\" \"004\"" }, { 21, 1, "10 r." }, { 22, 1, "0x47000580" }, { 24, 1, "A 5 3 3600 1700000000 1690000000 12345 e. YWJjZA==" }, { 25, 1, "256 3 5 YWJj" }, { 26, 1, "10 a. b." },
		{ 28, 1, "2001:db8::1" }, { 28, 1, "::ffff:1.2.3.4" }, { 29, 1, "\\# 16 00121613892f1c5070bf1a4000989680" }, { 33, 1, "1 2 443 t.x." }, { 35, 1, "100 50 \"s\" \"http+E2U\" \"!^.*$!x!\" ." }, { 36, 1, "5 kx." },
		{ 37, 1, "1 2 3 YWJj" }, { 38, 1, "64 ::1:2:3:4 p.x." }, { 39, 1, "d.x." }, { 43, 1, "60485 5 1 2BB183AF5F22588179A53B0A98631FAD1A292118" }, { 44, 1, "2 1 123456789abcdef67890123456789abcdef67890" },
		{ 45, 1, "\\# 5 0a03010161" }, { 46, 1, "A 5 3 86400 20300101000000 20200101000000 2642 example. b2ZmaWNpYWw=" }, { 47, 1, "host.x. A MX RRSIG NSEC TYPE1234" }, { 48, 1, "257 3 8 AwEAAag=" }, { 49, 1, "AAIBY2Y=" },
		{ 50, 1, "1 1 12 aabbccdd 2vptu5timamqttgl4luu9kg21e0aor3s A RRSIG" }, { 51, 1, "1 0 12 aabbccdd" }, { 51, 1, "1 0 12 -" }, { 52, 1, "3 1 1 d2abde240d7cd3ee6b4b28c54df034b97983a1d16e8a410e4561cb106618e971" }, { 53, 1, "3 1 1 aa" },
		{ 55, 1, "\\# 4 01020304" }, { 56, 1, "\\# 2 0161" }, { 59, 1, "1 2 3 ff" }, { 60, 1, "257 3 8 Aw==" }, { 61, 1, "YWJjZGVm" }, { 62, 1, "66 3 A NS AAAA" }, { 64, 1, "1 . alpn=\"h2,h3\" port=443 ipv4hint=1.2.3.4,5.6.7.8 key7=\"a\\\\b\"" },
		{ 65, 1, "16 svc.x. mandatory=alpn,port alpn=h2 port=53 ech=QUJD ipv6hint=::1" }, { 99, 1, "\"v=spf1\"" }, { 104, 1, "10 0014:4fff:ff20:ee64" }, { 105, 1, "10 1.2.3.4" }, { 106, 1, "10 2001:db8:0:1" }, { 107, 1, "10 l." },
		{ 108, 1, "00-00-5e-00-53-2a" }, { 109, 1, "00-00-5e-ef-10-00-00-2a" }, { 256, 1, "10 1 \"ftp://x/\"" }, { 257, 1, "0 \"issue\" \"ca.x\"" }, { 65280, 1, "\\# 4 deadbeef" }, { 32769, 1, "1 2 3 ff" },
		{ 1, 1, "bad" }, { 64, 1, "1 . alpn=" }, { 16, 1, "\"unterminated" }, { 50, 1, "1 1 12 zz x" }, { 46, 1, "FOO 1" },
