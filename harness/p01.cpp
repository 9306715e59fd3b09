// P01: code point classification and UTF-8 iteration.
#include <Balau/Type/Character.hpp>
#include "gen.hpp"
#include <unicode/uchar.h>

using Balau::Character;

static bool in(char32_t c, uint32_t mask) { return c <= 0x10FFFF && (U_GET_GC_MASK((UChar32) c) & mask) != 0; }

// Every code point: the classification functions agree with the general category.
static void classify(char32_t c) {
	#define SAME(EXPR, EXPECTED) do { bool a_ = (EXPR), e_ = (EXPECTED); if (a_ != e_) FAIL(#EXPR << " is " << a_ << " for U+" << std::hex << (uint32_t) c); } while (0)
	SAME(Character::isLower(c), in(c, U_GC_LL_MASK));
	SAME(Character::isUpper(c), in(c, U_GC_LU_MASK));
	SAME(Character::isDigit(c), in(c, U_GC_ND_MASK));
	SAME(Character::isAlpha(c), in(c, U_GC_L_MASK));
	SAME(Character::isAlphaOrDecimal(c), in(c, U_GC_L_MASK | U_GC_ND_MASK));
	SAME(Character::isPunctuation(c), in(c, U_GC_P_MASK));
	SAME(Character::isPrintable(c), c <= 0x10FFFF && !in(c, U_GC_C_MASK));
	SAME(Character::isSpace(c), in(c, U_GC_Z_MASK));
	bool ws = (in(c, U_GC_Z_MASK) && c != 0xA0 && c != 0x2007 && c != 0x202F) || (c >= 9 && c <= 13) || (c >= 0x1C && c <= 0x1F);
	SAME(Character::isWhitespace(c), ws);
	SAME(Character::isBlank(c), c == 9 || in(c, U_GC_ZS_MASK));
	SAME(Character::isBreakableCharacter(c), ws || c == U'-');
	SAME(Character::isInclusiveBreakableCharacter(c), c == U'-');
	SAME(Character::isHexDigit(c), (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
	SAME(Character::isOctalDigit(c), c >= '0' && c <= '7');
	SAME(Character::isBinaryDigit(c), c == '0' || c == '1');
	if (in(c, U_GC_CC_MASK)) SAME(Character::isControlCharacter(c), true);
	if (!in(c, U_GC_CC_MASK | U_GC_CF_MASK | U_GC_ZL_MASK | U_GC_ZP_MASK)) SAME(Character::isControlCharacter(c), false);
	if (in(c, U_GC_L_MASK | U_GC_NL_MASK) && !u_hasBinaryProperty((UChar32) c, UCHAR_PATTERN_SYNTAX)) SAME(Character::isIdStart(c), true);
	if (in(c, U_GC_ND_MASK | U_GC_PC_MASK) && !u_hasBinaryProperty((UChar32) c, UCHAR_PATTERN_SYNTAX)) { SAME(Character::isIdStart(c), false); SAME(Character::isIdPart(c), true); }
	if (Character::isIdStart(c)) SAME(Character::isIdPart(c), true);
	SAME(Character::isValid(c), c <= 0x10FFFF);
	if (c <= 0x10FFFF) {
		CHECK(Character::toUpper(c) == (char32_t) u_toupper((UChar32) c), "U+" << std::hex << (uint32_t) c);
		CHECK(Character::toLower(c) == (char32_t) u_tolower((UChar32) c), "U+" << std::hex << (uint32_t) c);
		if (c < 0xD800 || c > 0xDFFF) CHECK(Character::utf8ByteCount(c) == gen::encodedLength(c), "U+" << std::hex << (uint32_t) c);
	}
}

PBT(classification_all_code_points, 0x1104, 0x1104) {
	uint64_t block = d.enumerate(0x1103);
	d.nontrivial();
	d.note("code points " + std::to_string(block * 256) + "..+255");
	for (char32_t c = (char32_t) block * 256; c < (block + 1) * 256; ++c) classify(c);
}

// Beyond the code space nothing is classified.
PBT(classification_out_of_range, 2000, 50000) {
	char32_t c = (char32_t) d.range(0x110000, 0xFFFFFFFFLL);
	d.note("value " + std::to_string((uint32_t) c));
	d.nontrivial();
	classify(c);
	CHECK(!Character::isIdStart(c) && !Character::isIdPart(c), "value " << (uint32_t) c);
}

// Exactly sized heap storage, so that an access outside the text is visible to the sanitizer.
struct Exact {
	char * p; size_t n;
	explicit Exact(const std::string & s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
	~Exact() { delete [] p; }
	std::string_view view() const { return { p, n }; }
};

// Well-formed text: forward and backward iteration visit exactly the code points.
PBT(utf8_iteration_well_formed, 600000, 10000000) {
	std::u32string text;
	size_t n = d.size(24);
	for (size_t i = 0; i < n; ++i) text += d.chance(1, 12) ? U'\0' : gen::scalar(d);
	d.note(pbt::show(text));
	size_t multi = 0;
	std::string bytes;
	std::vector<int> bounds { 0 };
	for (char32_t c : text) { gen::encode(bytes, c); bounds.push_back((int) bytes.size()); multi += c >= 0x80; }
	d.nontrivial(multi >= 2);
	if (multi) d.label("multi-byte");
	Exact e(bytes);
	int a = 0, b = 0, f = 0, g = 0;
	for (size_t i = 0; i < text.size(); ++i) {
		CHECK(Character::getNextUtf8(e.view(), a) == text[i] && a == bounds[i + 1], "code point " << i);
		CHECK(Character::getNextUtf8Safe(e.view(), b) == text[i] && b == bounds[i + 1], "code point " << i);
		Character::advanceUtf8(e.view(), f); CHECK(f == bounds[i + 1], "code point " << i);
		Character::advanceUtf8Safe(e.view(), g); CHECK(g == bounds[i + 1], "code point " << i);
	}
	for (size_t i = text.size(); i-- > 0;) {
		CHECK(Character::getPreviousUtf8(e.view(), a) == text[i] && a == bounds[i], "code point " << i);
		CHECK(Character::getPreviousUtf8Safe(e.view(), b) == text[i] && b == bounds[i], "code point " << i);
		Character::retreatUtf8(e.view(), f); CHECK(f == bounds[i], "code point " << i);
		Character::retreatUtf8Safe(e.view(), g); CHECK(g == bounds[i], "code point " << i);
	}
	// Writing the code points back yields the same bytes, and nothing else is touched.
	std::string out(bytes.size() + 2, '#');
	int o = 1;
	for (size_t i = 0; i < text.size(); ++i) { Character::setUtf8AndAdvanceOffset(out, o, text[i]); CHECK(o == bounds[i + 1] + 1, "written length of code point " << i); }
	CHECK(out == "#" + bytes + "#", "wrote " << pbt::show(out));
}

// Reference decoder: length of the well-formed sequence starting at i, or 0.
static size_t wellFormedAt(const std::string & s, size_t i, char32_t & c) {
	auto at = [&] (size_t k) { return k < s.size() ? (unsigned) (unsigned char) s[k] : 0x100u; };
	auto cont = [&] (size_t k) { return (at(k) & 0x1C0) == 0x80; };
	unsigned b = at(i);
	if (b < 0x80) { c = b; return 1; }
	if (b >= 0xC2 && b <= 0xDF && cont(i + 1)) { c = (b & 0x1F) << 6 | (at(i + 1) & 0x3F); return 2; }
	if (b >= 0xE0 && b <= 0xEF && cont(i + 1) && cont(i + 2)) {
		c = (b & 0xF) << 12 | (at(i + 1) & 0x3F) << 6 | (at(i + 2) & 0x3F);
		return c >= 0x800 && !(c >= 0xD800 && c <= 0xDFFF) ? 3 : 0;
	}
	if (b >= 0xF0 && b <= 0xF4 && cont(i + 1) && cont(i + 2) && cont(i + 3)) {
		c = (b & 7) << 18 | (at(i + 1) & 0x3F) << 12 | (at(i + 2) & 0x3F) << 6 | (at(i + 3) & 0x3F);
		return c >= 0x10000 && c <= 0x10FFFF ? 4 : 0;
	}
	return 0;
}

// Arbitrary bytes: the validating functions report every ill-formed sequence, never read outside the text and always make progress.
PBT(utf8_iteration_arbitrary_bytes, 1500000, 30000000) {
	std::string s;
	size_t n = 1 + d.size(15);
	while (s.size() < n) {
		switch (d.draw(4)) {
			case 0: gen::encode(s, gen::scalar(d)); break;
			case 1: { std::string t; gen::encode(t, gen::scalar(d)); t.resize(d.upto(t.size())); s += t; break; }
			case 2: s += (char) d.range(0x80, 0xBF); break;
			case 3: s += (char) d.range(0xC0, 0xFF); break;
			default: s += (char) d.draw(255); break;
		}
	}
	d.note(pbt::show(s));
	Exact e(s);
	int i = 0, adv = 0;
	bool bad = false;
	while (i < (int) s.size()) {
		char32_t c = 0;
		size_t len = wellFormedAt(s, (size_t) i, c);
		int from = i;
		auto got = (int32_t) Character::getNextUtf8Safe(e.view(), i);
		if (len) CHECK(got == (int32_t) c && i == from + (int) len, "well-formed sequence at " << from << " decoded as " << got << " up to " << i);
		else { bad = true; CHECK(got < 0, "ill-formed sequence at " << from << " decoded as " << got); }
		CHECK(i > from && i <= (int) s.size(), "offset went from " << from << " to " << i);
		adv = from;
		Character::advanceUtf8Safe(e.view(), adv);
		CHECK(adv == i, "advanceUtf8Safe went from " << from << " to " << adv << ", getNextUtf8Safe to " << i);
	}
	d.nontrivial(bad);
	d.label(bad ? "ill-formed" : "well-formed");
	i = (int) s.size();
	while (i > 0) {
		int from = i, back = i;
		auto got = (int32_t) Character::getPreviousUtf8Safe(e.view(), i);
		CHECK(i < from && i >= 0, "offset went from " << from << " to " << i);
		char32_t c = 0;
		if (got >= 0) CHECK(wellFormedAt(s, (size_t) i, c) == (size_t) (from - i) && (int32_t) c == got, "decoded " << got << " backwards from " << from << " to " << i);
		else for (size_t l = 1; l <= 4 && (int) l <= from; ++l) CHECK(wellFormedAt(s, (size_t) from - l, c) != l, "the sequence ending at " << from << " was reported as ill-formed");
		Character::retreatUtf8Safe(e.view(), back);
		CHECK(back == i, "retreatUtf8Safe went from " << from << " to " << back << ", getPreviousUtf8Safe to " << i);
	}
}
