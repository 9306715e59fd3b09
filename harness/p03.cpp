// P03: to-string / from-string conversions and UUIDs.
#include <Balau/Type/ToString.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/UUID.hpp>
#include "gen.hpp"
#include <cmath>
#include <array>
#include <deque>
#include <memory_resource>
#include <set>

using Balau::Exception::ConversionException;

// Exactly sized heap copy: reading outside it is visible to the sanitizer.
struct Exact {
	char * p; size_t n;
	explicit Exact(const std::string & s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
	~Exact() { delete [] p; }
	std::string_view view() const { return { p, n }; }
};

template <typename T> static T integer(pbt::Data & d) {
	using L = std::numeric_limits<T>;
	switch (d.draw(4)) {
		case 0: return (T) d.upto(9);
		case 1: return (T) (L::max() - (T) d.upto(2));
		case 2: return (T) (L::lowest() + (T) d.upto(2));
		case 3: { T p = 1; size_t k = d.upto(19); for (size_t i = 0; i < k; ++i) { if (p > L::max() / 10) break; p = (T) (p * 10); } T v = (T) (p - (T) d.upto(1)); return L::is_signed && d.boolean() ? (T) -v : v; }
		default: return (T) d.draw(UINT64_MAX);
	}
}

static std::string render(__int128 v, int base, bool upper) {
	bool neg = v < 0; if (neg) v = -v;
	std::string r;
	do { int k = (int) (v % base); r.insert(r.begin(), (char) (k < 10 ? '0' + k : (upper ? 'A' : 'a') + k - 10)); v /= base; } while (v);
	return neg ? "-" + r : r;
}

static std::u16string u16(const std::string & s) { std::u16string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == (char) 0xc3 && i + 1 < s.size()) { r += (char16_t) 0xe9; ++i; } else r += (char16_t) s[i]; return r; }
static std::u32string u32(const std::string & s) { auto t = u16(s); return { t.begin(), t.end() }; }

template <typename T> static void integerRoundTrip(pbt::Data & d, const char * name) {
	T v = integer<T>(d);
	std::string expected = render((__int128) v, 10, false);
	d.note(std::string(name) + " " + expected);
	d.nontrivial(expected.size() > 2);
	CHECK(toString(v) == expected, "got " << toString(v));
	CHECK(toString16(v) == u16(expected), ""); CHECK(toString32(v) == u32(expected), "");
	T back = (T) 77;
	errno = ERANGE; fromString(back, expected); CHECK(back == v, "read back " << toString(back));
	back = (T) 77; errno = ERANGE; fromString16(back, u16(expected)); CHECK(back == v, "read back " << toString(back));
	back = (T) 77; errno = ERANGE; fromString32(back, u32(expected)); CHECK(back == v, "read back " << toString(back));
	int base = (int) d.range(2, 36);
	std::string inBase = render((__int128) v, base, d.boolean());
	d.note("base " + std::to_string(base) + " " + inBase);
	errno = d.boolean() ? ERANGE : 0; // An error left by an earlier call is not one of this conversion.
	back = (T) 77; fromString(back, inBase, base); CHECK(back == v, "read back " << toString(back));
	back = (T) 77; FromString<char>()(back, expected); CHECK(back == v, "");
	back = (T) 77; FromString<char32_t>()(back, u32(expected)); CHECK(back == v, "");
	CHECK((ToString<char, std::allocator<char>>()(v)) == expected, "");
}

PBT(integer_round_trip, 300000, 8000000) {
	switch (d.draw(9)) {
		case 0: integerRoundTrip<signed char>(d, "signed char"); break;
		case 1: integerRoundTrip<short>(d, "short"); break;
		case 2: integerRoundTrip<int>(d, "int"); break;
		case 3: integerRoundTrip<long>(d, "long"); break;
		case 4: integerRoundTrip<long long>(d, "long long"); break;
		case 5: integerRoundTrip<unsigned char>(d, "unsigned char"); break;
		case 6: integerRoundTrip<unsigned short>(d, "unsigned short"); break;
		case 7: integerRoundTrip<unsigned int>(d, "unsigned int"); break;
		case 8: integerRoundTrip<unsigned long>(d, "unsigned long"); break;
		default: integerRoundTrip<unsigned long long>(d, "unsigned long long"); break;
	}
}

// Any text: accepted with the exact value, or rejected with a ConversionException.
template <typename T> static void integerText(pbt::Data & d, const char * name, const std::string & text, bool wellFormed, __int128 value, int base) {
	using L = std::numeric_limits<T>;
	bool inRange = wellFormed && value >= (__int128) L::lowest() && value <= (__int128) L::max();
	d.note(std::string(name) + " from " + pbt::show(text) + " base " + std::to_string(base));
	d.label(!wellFormed ? "malformed" : inRange ? "in range" : "out of range");
	d.nontrivial(!inRange || value > 9 || value < 0);
	for (int form = 0; form < (base == 10 ? 4 : 1); ++form) {
		T v = (T) 77; bool threw = false;
		try {
			Exact e(text);
			if (form == 0 && base == 10) fromString(v, e.view());
			else if (form == 0 || form == 3) fromString(v, e.view(), base);
			else if (form == 1) fromString16(v, u16(text));
			else fromString32(v, u32(text));
		} catch (const ConversionException &) { threw = true; }
		if (inRange) CHECK(!threw && v == (T) value, "form " << form << (threw ? ": rejected" : ": read as " + toString(v)));
		else CHECK(threw, "form " << form << ": accepted as " << toString(v));
	}
}

PBT(integer_text, 300000, 8000000) {
	int base = d.chance(1, 3) ? (int) d.range(2, 36) : 10;
	// A well-formed number of up to 30 digits, possibly damaged.
	size_t digits = 1 + d.size(base == 10 ? 29 : 20);
	bool neg = d.chance(1, 3);
	std::string text; __int128 value = 0; bool huge = false;
	if (d.chance(1, 2)) {
		// Close to a type's limits.
		static const std::vector<__int128> limits { 127, 255, 128, 32767, 65535, 2147483647LL, 4294967295LL, INT64_MAX, (__int128) UINT64_MAX };
		value = d.pick(limits) + d.range(-2, 3); if (value < 0) value = 0;
		text = render(value, base, false);
	} else {
		for (size_t i = 0; i < digits; ++i) {
			int k = (int) d.upto((size_t) base - 1);
			text += (char) (k < 10 ? '0' + k : 'a' + k - 10);
			if (value > ((__int128) 1 << 100)) huge = true;
			if (!huge) value = value * base + k;
		}
		if (huge) value = (__int128) 1 << 110;
	}
	if (neg) { text = "-" + text; value = -value; } else if (d.chance(1, 8)) text = "+" + text;
	bool ok = true;
	if (d.chance(1, 4)) {
		ok = false;
		switch (d.draw(6)) {
			case 0: text = ""; break;
			case 1: text += d.pick({ ' ', '.', '_', '-', '+', '\n', ',' }); break;
			case 2: text.insert(d.upto(text.size()), 1, '!'); break;
			case 3: text = d.pick({ "-", "+", "--1", "+-1", "!", "1 2", "one", "1-", "0x" }); if (text == "0x" && base > 33) text = "!"; if (text == "one") text = "o!"; break;
			case 4: text += '\0'; break;
			case 5: if (base < 36) text += (char) (base < 10 ? '0' + base : 'a' + base - 10); else text += '*'; break;
			default: text += "\xc3\xa9"; break;
		}
	}
	// "0x" and "0b" prefixes are a matter of strtol; leave them alone.
	if (text.find_first_of("xXbB") != std::string::npos && base == 16 && (text.find("0x") == 0 || text.find("-0x") == 0 || text.find("+0x") == 0)) d.discard();
	if (base == 2 && text.find_first_of("bB") != std::string::npos) d.discard();
	switch (d.draw(9)) {
		case 0: integerText<signed char>(d, "signed char", text, ok, value, base); break;
		case 1: integerText<short>(d, "short", text, ok, value, base); break;
		case 2: integerText<int>(d, "int", text, ok, value, base); break;
		case 3: integerText<long>(d, "long", text, ok, value, base); break;
		case 4: integerText<long long>(d, "long long", text, ok, value, base); break;
		case 5: integerText<unsigned char>(d, "unsigned char", text, ok, value, base); break;
		case 6: integerText<unsigned short>(d, "unsigned short", text, ok, value, base); break;
		case 7: integerText<unsigned int>(d, "unsigned int", text, ok, value, base); break;
		case 8: integerText<unsigned long>(d, "unsigned long", text, ok, value, base); break;
		default: integerText<unsigned long long>(d, "unsigned long long", text, ok, value, base); break;
	}
}

template <typename T> static T floating(pbt::Data & d) {
	using L = std::numeric_limits<T>;
	switch (d.draw(5)) {
		case 0: return (T) d.range(-100, 100);
		case 1: return (T) d.range(-1000000, 1000000) / (T) 1000;
		case 2: return std::ldexp((T) d.draw(UINT64_MAX), (int) d.range(L::min_exponent - L::digits - 40, L::max_exponent - 65));
		case 3: return d.pick({ L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), (T) 0 });
		case 4: return -std::ldexp((T) d.draw(UINT64_MAX), (int) d.range(-80, 20));
		default: return (T) 1 / (T) (1 + d.upto(1000));
	}
}

template <typename T> static void floatRoundTrip(pbt::Data & d, const char * name) {
	T v = floating<T>(d);
	std::string s = toString(v);
	d.note(std::string(name) + " " + s);
	d.nontrivial(v != std::floor(v) || std::fabs(v) > 1e9);
	T a = 77, b = 77, c = 77;
	errno = ERANGE; fromString(a, s); fromString16(b, toString16(v)); fromString32(c, toString32(v));
	CHECK(a == v && b == v && c == v, "printed as " << s << ", read back " << toString(a));
	CHECK(toString(std::complex<T>(v, (T) 2)) == s + " + j2", "");
	// Damaged text is rejected.
	std::string bad = d.pick<std::string>({ s + "x", "", "x" + s, s + " 1", s + ",", "-", ".", "e5", "1e+99999", "-1e99999", std::string("1\0", 2) });
	d.note("bad " + pbt::show(bad));
	MUST_THROW(fromString(a, bad), ConversionException, "for " << name << " " << pbt::show(bad) << ": " << toString(a));
}

PBT(float_round_trip, 80000, 3000000) {
	switch (d.draw(2)) {
		case 0: floatRoundTrip<float>(d, "float"); break;
		case 1: floatRoundTrip<double>(d, "double"); break;
		default: floatRoundTrip<long double>(d, "long double"); break;
	}
}

// Text conversions between the three encodings, with both families of functions.
PBT(text_encodings, 200000, 5000000) {
	auto t = gen::text32(d, 16);
	std::string t8 = gen::encode(t);
	std::u16string t16;
	for (char32_t c : t) if (c < 0x10000) t16 += (char16_t) c; else { t16 += (char16_t) (0xD800 + ((c - 0x10000) >> 10)); t16 += (char16_t) (0xDC00 + ((c - 0x10000) & 0x3FF)); }
	d.note(pbt::show(t));
	d.nontrivial(t8.size() != t.size());
	if (t16.size() != t.size()) d.label("surrogates");
	CHECK(toString(t) == t8 && toString(t16) == t8 && toString(t8) == t8 && toString(std::u32string_view(t)) == t8 && toString(std::u16string_view(t16)) == t8 && toString(t8.c_str()) == t8, "");
	CHECK(toString16(t8) == t16 && toString16(t) == t16 && toString16(t16) == t16, "");
	CHECK(toString32(t8) == t && toString32(t16) == t && toString32(t) == t && toString32(std::string_view(t8)) == t, "");
	std::string a; std::u16string b; std::u32string c;
	fromString(a, t8); fromString(b, t8); fromString(c, t8); CHECK(a == t8 && b == t16 && c == t, "");
	fromString16(a, t16); fromString16(b, t16); fromString16(c, t16); CHECK(a == t8 && b == t16 && c == t, "");
	fromString32(a, t); fromString32(b, t); fromString32(c, t); CHECK(a == t8 && b == t16 && c == t, "");
	for (char32_t ch : t) {
		std::string e; gen::encode(e, ch);
		CHECK(toString(ch) == e, ""); 
		char32_t back = 1; fromString(back, e + "tail"); CHECK(back == ch, "U+" << std::hex << (uint32_t) ch << " read as " << (uint32_t) back);
		back = 1; fromString32(back, std::u32string(1, ch)); CHECK(back == ch, "");
		char asc = 0;
		if (ch < 128) { fromString(asc, e); CHECK(asc == (char) ch, ""); }
		else if (ch > 255) MUST_THROW(fromString(asc, e), ConversionException, "");
	}
	// Concatenation of several values.
	int n = (int) d.range(-5, 500000); bool f = d.boolean();
	CHECK(toString(t8, n, f, U'\u20ac', t16) == t8 + std::to_string(n) + (f ? "true" : "false") + "\u20ac" + t8, "");
	CHECK(toString32(n, t8) == u32(std::to_string(n)) + t, "");
	CHECK(toString16(t8, n) == t16 + u16(std::to_string(n)), "");
}

// Arbitrary bytes never make a conversion read outside the text, and are accepted or rejected consistently.
PBT(arbitrary_bytes, 100000, 8000000) {
	std::string s;
	size_t n = d.size(8);
	for (size_t i = 0; i < n; ++i) switch (d.draw(3)) { case 0: s += d.pick({ 't', 'r', 'u', 'e', 'T', 'F', 'a', 'l', 's', '1', '-', ' ' }); break; case 1: s += (char) d.range(0x80, 0xFF); break; default: s += (char) d.draw(255); }
	if (d.chance(1, 6)) { s = d.pick<std::string>({ "true", "false", "TRUE", "False", "tRuE", "fALSE" }); if (d.boolean()) s += (char) d.draw(255); }
	d.note(pbt::show(s));
	d.nontrivial(!s.empty());
	std::string low; for (char ch : s) low += ch >= 'A' && ch <= 'Z' ? (char) (ch + 32) : ch;
	Exact e(s);
	bool b = false; int threw = 0;
	try { fromString(b, e.view()); } catch (const ConversionException &) { threw = 1; }
	CHECK(threw == !(low == "true" || low == "false"), "boolean " << (threw ? "rejected" : "accepted"));
	if (!threw) CHECK(b == (low == "true"), "");
	char32_t c = 0; threw = 0;
	try { fromString(c, e.view()); } catch (const ConversionException &) { threw = 1; }
	if (!threw) { std::string enc; gen::encode(enc, c); CHECK(s.compare(0, enc.size(), enc) == 0 && !s.empty(), "code point " << (uint32_t) c); }
	else CHECK(s.empty() || (unsigned char) s[0] >= 0x80, "valid first character rejected");
	char ch = 0; try { fromString(ch, e.view()); } catch (const ConversionException &) { }
	std::u32string u; fromString(u, e.view()); std::u16string v; fromString(v, e.view());
	int i; try { fromString(i, e.view()); } catch (const ConversionException &) { }
	double f; try { fromString(f, e.view()); } catch (const ConversionException &) { }
}

// Containers and pairs.
PBT(containers, 100000, 3000000) {
	std::vector<int> v; std::vector<std::string> sv;
	size_t n = d.size(6);
	for (size_t i = 0; i < n; ++i) { v.push_back((int) d.range(-99, 9999)); sv.push_back(gen::encode(gen::text32(d, 3))); }
	auto expect = [] (const std::vector<std::string> & e) { std::string r = "{"; for (size_t i = 0; i < e.size(); ++i) r += (i ? ", " : " ") + e[i]; return r + (e.empty() ? "}" : " }"); };
	std::vector<std::string> vi; for (int x : v) vi.push_back(std::to_string(x));
	d.note(expect(vi));
	d.nontrivial(n >= 2);
	CHECK(toString(v) == expect(vi), "got " << toString(v)); CHECK(toString(sv) == expect(sv), "");
	CHECK(toString(std::list<int>(v.begin(), v.end())) == expect(vi), ""); CHECK(toString(std::deque<int>(v.begin(), v.end())) == expect(vi), "");
	CHECK(toString16(v) == u16(expect(vi)), ""); CHECK(toString32(v) == u32(expect(vi)), "");
	std::set<int> st(v.begin(), v.end()); std::vector<std::string> se; for (int x : st) se.push_back(std::to_string(x));
	CHECK(toString(st) == expect(se), "");
	std::map<int, std::string> m; for (size_t i = 0; i < n; ++i) m[v[i]] = sv[i];
	std::vector<std::string> me; for (auto & p : m) me.push_back("{ " + std::to_string(p.first) + ", " + p.second + " }");
	CHECK(toString(m) == expect(me), "got " << toString(m));
}

// The allocator-parameterised functions print the same text.
struct Tag;
template <typename T> struct Alloc : std::allocator<T> {
	Alloc() = default; template <typename U> Alloc(const Alloc<U> &) {}
	template <typename U> struct rebind { using other = Alloc<U>; };
};

template <typename T> static void sameText(T v) {
	auto a = toString<Alloc<char>>(v);
	std::string b = toString(v);
	CHECK(std::string(a.data(), a.size()) == b, "allocator version printed " << a.c_str() << " instead of " << b);
}

PBT(allocator_versions, 150000, 3000000) {
	d.nontrivial();
	switch (d.draw(11)) {
		case 0: sameText(integer<signed char>(d)); break;
		case 1: sameText(integer<short>(d)); break;
		case 2: sameText(integer<int>(d)); break;
		case 3: sameText(integer<long>(d)); break;
		case 4: sameText(integer<long long>(d)); break;
		case 5: sameText(integer<unsigned char>(d)); break;
		case 6: sameText(integer<unsigned short>(d)); break;
		case 7: sameText(integer<unsigned int>(d)); break;
		case 8: sameText(integer<unsigned long>(d)); break;
		case 9: sameText(integer<unsigned long long>(d)); break;
		case 10: sameText(d.boolean()); break;
		default: sameText(gen::encode(gen::text32(d, 10))); break;
	}
}

// UUIDs: text, bytes and array views agree; comparisons are a total order consistent with the bytes; random UUIDs differ.
PBT(uuid, 20000, 1000000) {
	size_t n = 2 + d.upto(3);
	std::vector<Balau::UUID> us(n);
	if (d.boolean()) us.push_back(us[0]);
	d.nontrivial();
	std::set<std::string> texts;
	for (auto & u : us) {
		std::string s = u.asString();
		CHECK(s.size() == 36 && toString(u) == s, s);
		auto arr = u.asArray(); const unsigned char * bytes = u.asBytes();
		std::string e; char buf[3];
		for (int i = 0; i < 16; ++i) { CHECK(arr[i] == bytes[i], ""); snprintf(buf, 3, "%02x", arr[i]); e += buf; if (i == 3 || i == 5 || i == 7 || i == 9) e += '-'; }
		CHECK(s == e, s << " bytes " << e);
		CHECK(boost::uuids::string_generator()(s) == u.asUUID(), "");
		CHECK((bytes[6] >> 4) == 4 && (bytes[8] >> 6) == 2, "not a random UUID: " << s);
		texts.insert(s);
	}
	CHECK(texts.size() == n, "random UUIDs collide");
	for (auto & a : us) for (auto & b : us) {
		int c = memcmp(a.asBytes(), b.asBytes(), 16);
		CHECK((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), a.asString() << " " << b.asString());
	}
}
