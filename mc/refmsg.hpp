// Reference model of DNS messages: header, sections, RRsets and EDNS state, written from RFC 1035 and RFC 6891.
#pragma once
#include "genrdata.hpp"

struct RRec { Bytes name; int type, cls; uint32_t ttl; Bytes rdata; };
struct RMsg {
	int id, flags, rcode; bool edns = false; RRec opt;
	std::vector<RRec> sec[4];      // without the OPT record that became the EDNS state
};
static inline int u16(const uint8_t *p) { return p[0] * 256 + p[1]; }

static inline bool ref_parse_msg(const uint8_t *m, size_t n, RMsg &r) {
	if (n < 12) return false;
	r.id = u16(m); r.flags = u16(m + 2); r.rcode = r.flags & 15;
	size_t o = 12;
	for (int s = 0; s < 4; s++) {
		unsigned cnt = u16(m + 4 + 2 * s);
		for (unsigned i = 0; i < cnt; i++) {
			if (o == n) return true;
			RRec e; size_t next = 0;
			if (!ref_unpack(m, n, o, e.name, &next)) return false;
			size_t fixed = s ? 10 : 4;
			if (n - next < fixed) return false;
			e.type = u16(m + next); e.cls = u16(m + next + 2); e.ttl = 0;
			o = next + fixed;
			if (s) {
				e.ttl = (uint32_t)u16(m + next + 4) << 16 | u16(m + next + 6);
				size_t rdlen = u16(m + next + 8);
				if (n - o < rdlen) return false;
				if (!ref_parse_rdata(m, n, o, rdlen, e.type, e.cls, e.rdata)) return false;
				o += rdlen;
				if (e.type == 41 && !r.edns) { r.edns = true; r.opt = e; r.rcode |= (e.ttl >> 24) << 4; continue; }
			}
			r.sec[s].push_back(std::move(e));
		}
	}
	return true;
}
static inline Bytes lowered(Bytes b) { for (auto &c : b) if (c >= 'A' && c <= 'Z') c += 32; return b; }

// packet pieces
static inline Bytes hdr(int qd, int an, int ns, int ar, int flags = 0x8180, int id = 0x1234) { return cat({be16(id), be16(flags), be16(qd), be16(an), be16(ns), be16(ar)}); }
static inline Bytes rec(const Bytes &name, int type, int cls, uint32_t ttl, const Bytes &rd) { return cat({name, be16(type), be16(cls), be32(ttl), be16(rd.size()), rd}); }
static inline Bytes ques(const Bytes &name, int type, int cls) { return cat({name, be16(type), be16(cls)}); }
static inline Bytes ptr(int off) { return be16(0xc000 | (off & 0x3fff)); }
