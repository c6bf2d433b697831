// Reference model of domain names, written from RFC 1035 and the documented API, independent of wdns.
#pragma once
#include "mc.hpp"
using namespace mc;

// length of the valid uncompressed name at the start of b, or -1
static inline int ref_len_uname(const uint8_t *b, size_t n) {
	size_t o = 0;
	for (;;) {
		if (o >= n) return -1;
		unsigned c = b[o];
		if (c > 63) return -1;
		o += c + 1;
		if (o > 255 || o > n) return -1;
		if (c == 0) return (int)o;
	}
}
static inline bool ref_valid_name(const Bytes &b) { return ref_len_uname(b.data(), b.size()) == (int)b.size(); }

// expands the name at offset off of message m; false if malformed. next = offset after in-place encoding
static inline bool ref_unpack(const uint8_t *m, size_t n, size_t off, Bytes &out, size_t *next = nullptr) {
	out.clear();
	bool jumped = false;
	size_t o = off;
	for (;;) {
		if (o >= n) return false;
		unsigned c = m[o];
		if (c >= 192) {
			if (o + 1 >= n) return false;
			size_t t = (c & 63) * 256 + m[o + 1];
			if (t >= o) return false;
			if (!jumped && next) *next = o + 2;
			jumped = true;
			o = t;
			continue;
		}
		if (c > 63) return false;
		if (c == 0) {
			out.push_back(0);
			if (!jumped && next) *next = o + 1;
			return out.size() <= 255;
		}
		if (o + 1 + c > n) return false;
		out.insert(out.end(), m + o, m + o + 1 + c);
		if (out.size() + 1 > 255) return false;
		o += 1 + c;
	}
}

// offset after the in-place encoding, n if incomplete, -1 if a reserved length octet is met first
static inline long ref_skip(const uint8_t *m, size_t n) {
	size_t o = 0;
	for (;;) {
		if (o >= n) return (long)n;
		unsigned c = m[o];
		if (c >= 192) return o + 2 <= n ? (long)(o + 2) : (long)n;
		if (c > 63) return -1;
		if (c == 0) return (long)o + 1;
		o += c + 1;
	}
}

// text form of a valid wire name
static inline void ref_name_text_append(Bytes &out, const uint8_t *b, size_t n) {
	(void)n;
	if (b[0] == 0) { out.push_back('.'); return; }
	size_t o = 0;
	while (b[o]) {
		for (unsigned i = 1; i <= b[o]; i++) {
			uint8_t c = b[o + i];
			if (c == '.' || c == '\\') { out.push_back('\\'); out.push_back(c); }
			else if (c > 32 && c < 127) out.push_back(c);
			else { out.push_back('\\'); out.push_back('0' + c / 100); out.push_back('0' + c / 10 % 10); out.push_back('0' + c % 10); }
		}
		out.push_back('.');
		o += b[o] + 1;
	}
}
static inline Bytes ref_name_text(const Bytes &w) { Bytes r; ref_name_text_append(r, w.data(), w.size()); return r; }

// parse text (no NUL inside) to a wire name
static inline bool ref_text_name(const uint8_t *t, size_t n, bool fold, Bytes &out) {
	out.clear();
	if (n == 0 || (n == 1 && t[0] == '.')) { out.push_back(0); return true; }
	Bytes lab; size_t i = 0;
	auto flush = [&]() -> bool {
		if (lab.empty() || lab.size() > 63) return false;
		out.push_back((uint8_t)lab.size()); out.insert(out.end(), lab.begin(), lab.end()); lab.clear();
		return true;
	};
	while (i < n) {
		uint8_t c = t[i];
		if (c == '.') { if (!flush()) return false; i++; continue; }
		if (c == '\\') {
			if (i + 1 >= n) return false;
			uint8_t d = t[i + 1];
			if (d >= '0' && d <= '9') {
				if (i + 3 >= n) return false;
				int v = 0;
				for (int k = 1; k <= 3; k++) { uint8_t e = t[i + k]; if (e < '0' || e > '9') return false; v = v * 10 + (e - '0'); }
				if (v > 255) return false;
				lab.push_back((uint8_t)v); i += 4;
			} else { lab.push_back(d); i += 2; }
			continue;
		}
		if (fold && c >= 'A' && c <= 'Z') c += 32;
		lab.push_back(c); i++;
	}
	if (!lab.empty() && !flush()) return false;
	out.push_back(0);
	return out.size() <= 255;
}

static inline std::vector<Bytes> ref_labels(const Bytes &w) {
	std::vector<Bytes> r; size_t o = 0;
	while (w[o]) { r.push_back(sub(w, o + 1, w[o])); o += w[o] + 1; }
	return r;
}
static inline Bytes ref_join(const std::vector<Bytes> &l) {
	Bytes r; for (auto &x : l) { r.push_back((uint8_t)x.size()); app(r, x); } r.push_back(0); return r;
}
