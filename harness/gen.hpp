// Shared generators.
#pragma once
#include "pbt.hpp"

namespace gen {

// An independent UTF-8 encoder, used by generators and oracles.
inline void encode(std::string & out, char32_t c) {
	if (c < 0x80) out += (char) c;
	else if (c < 0x800) { out += (char) (0xC0 | (c >> 6)); out += (char) (0x80 | (c & 0x3F)); }
	else if (c < 0x10000) { out += (char) (0xE0 | (c >> 12)); out += (char) (0x80 | ((c >> 6) & 0x3F)); out += (char) (0x80 | (c & 0x3F)); }
	else { out += (char) (0xF0 | (c >> 18)); out += (char) (0x80 | ((c >> 12) & 0x3F)); out += (char) (0x80 | ((c >> 6) & 0x3F)); out += (char) (0x80 | (c & 0x3F)); }
}

inline std::string encode(const std::u32string & s) { std::string r; for (char32_t c : s) encode(r, c); return r; }

inline size_t encodedLength(char32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }

// A Unicode scalar value.
inline char32_t scalar(pbt::Data & d) {
	static const std::vector<char32_t> edges = {
		0x01, 0x09, 0x0A, 0x0D, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x85, 0xA0, 0xDF, 0xFF, 0x130, 0x131, 0x345, 0x7FF, 0x800, 0x1680, 0x1C5, 0x2028, 0x2029, 0x200B,
		0x2007, 0x202F, 0x3000, 0xD7FF, 0xE000, 0xFB03, 0xFDD0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10400, 0x1D400, 0x1F600, 0xE0001, 0x10FFFE, 0x10FFFF
	};
	switch (d.draw(6)) {
		case 0: return (char32_t) d.range('a', 'z');
		case 1: return (char32_t) d.range(0x20, 0x7E);
		case 2: return (char32_t) d.range(0x80, 0x7FF);
		case 3: { char32_t c = (char32_t) d.range(0x800, 0xFFFF - 0x800); return c >= 0xD800 ? c + 0x800 : c; }
		case 4: return (char32_t) d.range(0x10000, 0x10FFFF);
		case 5: return d.pick(edges);
		default: return (char32_t) d.range(1, 0x7F);
	}
}

inline std::u32string text32(pbt::Data & d, size_t max) {
	std::u32string r;
	size_t n = d.size(max);
	bool ascii = d.boolean();
	for (size_t i = 0; i < n; ++i) r += ascii ? (char32_t) d.range(0x20, 0x7E) : scalar(d);
	return r;
}

// Text over a tiny alphabet, so that repetitions and overlaps are frequent.
inline std::u32string small32(pbt::Data & d, size_t max, const std::u32string & alphabet = U"ab") {
	std::u32string r;
	size_t n = d.size(max);
	for (size_t i = 0; i < n; ++i) r += alphabet[d.upto(alphabet.size() - 1)];
	return r;
}

inline std::string bytes(pbt::Data & d, size_t max) {
	std::string r;
	size_t n = d.size(max);
	for (size_t i = 0; i < n; ++i) r += (char) d.draw(255);
	return r;
}

inline std::string ident(pbt::Data & d, size_t max) {
	std::string r;
	size_t n = 1 + d.size(max - 1);
	for (size_t i = 0; i < n; ++i) r += (char) d.range('a', 'z');
	return r;
}

// A scratch directory for one worker process; everything destructive stays inside it.
inline const std::string & scratch() {
	static std::string dir;
	static pid_t owner = 0;
	if (owner != getpid()) {
		owner = getpid();
		const char * base = getenv("PBT_SCRATCH");
		dir = std::string(base ? base : "/tmp") + "/w" + std::to_string(getpid());
		mkdir(dir.c_str(), 0700);
	}
	return dir;
}

} // namespace gen
