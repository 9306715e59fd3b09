// P02: string utilities against naive reference implementations.
#include <Balau/Util/Strings.hpp>
#include "gen.hpp"
#include <list>

using Balau::Util::Strings;
using namespace std::string_literals;

static bool space(char32_t c) { return (U_GET_GC_MASK((UChar32) c) & U_GC_Z_MASK) != 0; }

template <typename S> static S refReplace(const S & in, const S & m, const S & r, size_t & count) {
	S out; count = 0;
	for (size_t i = 0; i < in.size();) {
		if (in.size() - i >= m.size() && in.compare(i, m.size(), m) == 0) { out += r; i += m.size(); ++count; }
		else out += in[i++];
	}
	return out;
}

template <typename S> static std::vector<S> refSplit(const S & in, const S & del, bool compress) {
	std::vector<S> out;
	S cur;
	auto flush = [&] { if (!cur.empty() || !compress) out.push_back(cur); cur.clear(); };
	for (size_t i = 0; i < in.size();) {
		if (in.size() - i >= del.size() && in.compare(i, del.size(), del) == 0) { flush(); i += del.size(); }
		else cur += in[i++];
	}
	flush();
	return out;
}

template <typename S, typename V> static std::vector<S> owned(const V & v) { std::vector<S> r; for (auto & e : v) r.emplace_back(e); return r; }

static std::string showAll(const std::vector<std::string> & v) { std::string r = "["; for (auto & s : v) r += pbt::show(s) + " "; return r + "]"; }
static std::string showAll(const std::vector<std::u32string> & v) { std::string r = "["; for (auto & s : v) r += pbt::show(std::u32string_view(s)) + " "; return r + "]"; }

static std::u32string alphabet(pbt::Data & d) {
	switch (d.draw(3)) {
		case 0: return U"ab";
		case 1: return U"a, ";
		case 2: return U"aA\u00e9\u20ac";
		default: return U"ab\U0001F600 \u3000";
	}
}

// Searching, on UTF-8 and UTF-32 text.
PBT(search, 250000, 8000000) {
	auto abc = alphabet(d);
	auto t32 = gen::small32(d, 14, abc), m32 = gen::small32(d, 3, abc);
	if (d.boolean() && !t32.empty()) { size_t a = d.upto(t32.size() - 1), b = d.upto(t32.size() - a); m32 = t32.substr(a, b); }
	std::string t = gen::encode(t32), m = gen::encode(m32);
	d.note("text " + pbt::show(t) + " search " + pbt::show(m));
	std::string_view tv = t, mv = m;
	std::u32string_view tv32 = t32, mv32 = m32;
	bool starts = t.compare(0, m.size(), m) == 0;
	bool ends = t.size() >= m.size() && t.compare(t.size() - m.size(), m.size(), m) == 0;
	size_t last = std::string::npos, last32 = std::string::npos; size_t n = 0;
	for (size_t i = 0; i + m.size() <= t.size(); ++i) if (t.compare(i, m.size(), m) == 0) last = i;
	for (size_t i = 0; i + m32.size() <= t32.size(); ++i) if (t32.compare(i, m32.size(), m32) == 0) last32 = i;
	d.nontrivial(last != std::string::npos && m.size() > 0 && t.size() > m.size());
	if (starts) d.label("starts"); if (ends) d.label("ends");
	CHECK(Strings::startsWith(t, m) == starts, ""); CHECK(Strings::startsWith(tv, mv) == starts, ""); CHECK(Strings::startsWith(t.c_str(), m.c_str()) == starts, "");
	CHECK(Strings::startsWith(t32, m32) == starts, ""); CHECK(Strings::startsWith(tv32, mv32) == starts, ""); CHECK(Strings::startsWith(t, mv) == starts, "");
	CHECK(Strings::endsWith(t, m) == ends, ""); CHECK(Strings::endsWith(tv, mv) == ends, ""); CHECK(Strings::endsWith(t.c_str(), m.c_str()) == ends, "");
	CHECK(Strings::endsWith(t32, m32) == ends, ""); CHECK(Strings::endsWith(tv32, mv32) == ends, "");
	bool has = last != std::string::npos;
	CHECK(Strings::contains(t, m) == has, ""); CHECK(Strings::contains(tv, mv) == has, ""); CHECK(Strings::contains(t.c_str(), m.c_str()) == has, ""); CHECK(Strings::contains(t32, m32) == has, "");
	CHECK(Strings::lastIndexOf(t, m) == last, "expected " << last); CHECK(Strings::lastIndexOf(tv, mv) == last, ""); CHECK(Strings::lastIndexOf(t.c_str(), m) == last, "");
	CHECK(Strings::lastIndexOf(t32, m32) == last32, "");
	if (!m.empty()) {
		for (size_t i = 0; i + m.size() <= t.size();) if (t.compare(i, m.size(), m) == 0) { ++n; i += m.size(); } else ++i;
		CHECK(Strings::occurrences(t, m) == n, "expected " << n); CHECK(Strings::occurrences(tv, mv) == n, ""); CHECK(Strings::occurrences(t.c_str(), m.c_str()) == n, ""); CHECK(Strings::occurrences(t32, m32) == n, "");
	}
	char c = t.empty() ? 'a' : t[d.upto(t.size() - 1)];
	char32_t c32 = t32.empty() ? U'a' : t32[d.upto(t32.size() - 1)];
	CHECK(Strings::startsWith(t, c) == (!t.empty() && t[0] == c), ""); CHECK(Strings::startsWith(t32, c32) == (!t32.empty() && t32[0] == c32), "");
	CHECK(Strings::endsWith(std::string_view(t), c) == (!t.empty() && t.back() == c), ""); CHECK(Strings::endsWith(std::u32string_view(t32), c32) == (!t32.empty() && t32.back() == c32), "");
	CHECK(Strings::contains(t, c) == (t.find(c) != std::string::npos), ""); CHECK(Strings::contains(t32, c32) == !t32.empty(), "");
	CHECK(Strings::codePointCount(t) == t32.size(), "");
	CHECK(Strings::codePointCount(t32) == t32.size(), "");
}

// Case mapping works per code point, also where upper and lower case have different encoded lengths.
PBT(case_mapping, 200000, 8000000) {
	static const std::u32string special = U"\u0131\u0130\u017F\u212A\u2126\u1E9E\u023A\u2C65\u0250\u2C6F\u1FBE\u0345\u00DF\uFB03\U00010400\U0001E900zZ";
	std::u32string t;
	size_t n = d.size(12);
	for (size_t i = 0; i < n; ++i) t += d.boolean() ? special[d.upto(special.size() - 1)] : gen::scalar(d);
	d.note(pbt::show(t));
	std::u32string up, lo;
	for (char32_t c : t) { up += (char32_t) u_toupper((UChar32) c); lo += (char32_t) u_tolower((UChar32) c); }
	std::string t8 = gen::encode(t);
	bool lengthChanges = gen::encode(up).size() != t8.size() || gen::encode(lo).size() != t8.size();
	d.nontrivial(up != t || lo != t);
	if (lengthChanges) d.label("encoded length changes");
	CHECK(Strings::toUpper(std::u32string_view(t)) == up, ""); CHECK(Strings::toLower(std::u32string_view(t)) == lo, "");
	CHECK(Strings::toUpper(std::string_view(t8)) == gen::encode(up), "got " << pbt::show(Strings::toUpper(std::string_view(t8))));
	CHECK(Strings::toLower(std::string_view(t8)) == gen::encode(lo), "got " << pbt::show(Strings::toLower(std::string_view(t8))));
	auto other = d.boolean() ? up : gen::text32(d, 12);
	std::u32string olo; for (char32_t c : other) olo += (char32_t) u_tolower((UChar32) c);
	std::string o8 = gen::encode(other);
	CHECK(Strings::equalsIgnoreCase(t8, o8) == (lo == olo), "other " << pbt::show(o8));
	CHECK(Strings::equalsIgnoreCase(t, other) == (lo == olo), "other " << pbt::show(other));
}

// Appending, padding, trimming.
PBT(pad_and_trim, 200000, 8000000) {
	static const std::u32string abc = U"a \u00a0\u3000\u2028\tx\u20ac\U0001F600";
	auto t32 = gen::small32(d, 10, abc);
	std::string t = gen::encode(t32);
	d.note(pbt::show(t32));
	size_t a = 0, b = t32.size();
	while (a < b && space(t32[a])) ++a;
	while (b > a && space(t32[b - 1])) --b;
	size_t b2 = t32.size(); while (b2 > 0 && space(t32[b2 - 1])) --b2;
	size_t a2 = a; if (a == b) { a2 = t32.size(); }
	auto mid = t32.substr(a, b - a), left = t32.substr(a2), right = t32.substr(0, b2);
	d.nontrivial(mid != t32 && !mid.empty());
	CHECK(Strings::trim(std::string_view(t)) == gen::encode(mid), ""); CHECK(Strings::trim(std::u32string_view(t32)) == mid, "");
	CHECK(Strings::trimLeft(std::string_view(t)) == gen::encode(left), ""); CHECK(Strings::trimLeft(std::u32string_view(t32)) == left, "");
	CHECK(Strings::trimRight(std::string_view(t)) == gen::encode(right), ""); CHECK(Strings::trimRight(std::u32string_view(t32)) == right, "");

	auto width = (unsigned) d.upto(14);
	char32_t pc = d.boolean() ? U'.' : gen::scalar(d);
	size_t pad = width > t32.size() ? width - t32.size() : 0;
	d.note("width " + std::to_string(width) + " pad U+" + std::to_string((uint32_t) pc));
	std::u32string p32(pad, pc); std::string dots(pad, '.');
	CHECK(Strings::padLeft(std::string_view(t), width, '.') == dots + t, ""); CHECK(Strings::padRight(std::string_view(t), width, '.') == t + dots, "");
	CHECK(Strings::padLeft(std::string_view(t), width, pc) == gen::encode(p32) + t, ""); CHECK(Strings::padRight(std::string_view(t), width, pc) == t + gen::encode(p32), "");
	CHECK(Strings::padLeft(std::u32string_view(t32), width, pc) == p32 + t32, ""); CHECK(Strings::padRight(std::u32string_view(t32), width, pc) == t32 + p32, "");
	CHECK(Strings::padLeft(std::string_view(t), width) == std::string(pad, ' ') + t, ""); CHECK(Strings::padRight(std::u32string_view(t32), width) == t32 + std::u32string(pad, U' '), "");
	std::string s = t; Strings::append(s, 'q', pad); CHECK(s == t + std::string(pad, 'q'), "");
	s = t; Strings::append(s, pc, pad); CHECK(s == t + gen::encode(p32), "");
	std::u32string s32 = t32; Strings::append(s32, pc, pad); CHECK(s32 == t32 + p32, "");
	CHECK(Strings::append(std::string_view(t), 'q', pad) == t + std::string(pad, 'q'), "");
}

// Replacing and splitting on literal text.
PBT(replace_and_split, 250000, 8000000) {
	auto abc = alphabet(d);
	auto t32 = gen::small32(d, 16, abc), m32 = gen::small32(d, 3, abc), r32 = gen::small32(d, 4, abc);
	if (m32.empty()) m32 = abc.substr(0, 1 + d.upto(1));
	auto t = gen::encode(t32), m = gen::encode(m32), r = gen::encode(r32);
	bool compress = d.boolean();
	d.note("text " + pbt::show(t) + " match " + pbt::show(m) + " with " + pbt::show(r) + (compress ? " compress" : ""));
	size_t n, n32, got = 99, got32 = 99;
	auto e = refReplace(t, m, r, n); auto e32 = refReplace(t32, m32, r32, n32);
	d.nontrivial(n > 0 && !r.empty());
	if (n > 1) d.label("several matches");
	if (r.find(m) != std::string::npos) d.label("replacement contains match");
	CHECK(Strings::replaceAll(std::string_view(t), std::string_view(m), std::string_view(r), &got) == e, ""); CHECK(got == n, "count " << got);
	CHECK(Strings::replaceAll(std::u32string_view(t32), std::u32string_view(m32), std::u32string_view(r32), &got32) == e32, ""); CHECK(got32 == n32, "count " << got32);
	auto sp = refSplit(t, m, compress); auto sp32 = refSplit(t32, m32, compress);
	auto g = owned<std::string>(Strings::split(std::string_view(t), std::string_view(m), compress));
	CHECK(g == sp, "got " << showAll(g) << " expected " << showAll(sp));
	auto g32 = owned<std::u32string>(Strings::split(std::u32string_view(t32), std::u32string_view(m32), compress));
	CHECK(g32 == sp32, "got " << showAll(g32) << " expected " << showAll(sp32));
	auto trimAll = [] (std::vector<std::u32string> v) { for (auto & x : v) { while (!x.empty() && space(x.front())) x.erase(0, 1); while (!x.empty() && space(x.back())) x.pop_back(); } return v; };
	auto gt = owned<std::u32string>(Strings::splitAndTrim(std::u32string_view(t32), std::u32string_view(m32), compress));
	CHECK(gt == trimAll(sp32), "got " << showAll(gt));
	auto gt8 = owned<std::string>(Strings::splitAndTrim(std::string_view(t), std::string_view(m), compress));
	CHECK(gt8.size() == sp32.size(), "got " << showAll(gt8));
	auto tr = trimAll(sp32);
	for (size_t i = 0; i < gt8.size(); ++i) CHECK(gt8[i] == gen::encode(tr[i]), "element " << i << " got " << showAll(gt8));
	// Round trip: the uncompressed pieces joined by the delimiter are the text.
	if (!compress) CHECK(Strings::joinContainer(m.c_str(), g) == t, "got " << showAll(g));
}

// Replacing, splitting, counting and measuring with regular expressions (character sets with or without repetition).
PBT(regex_functions, 24000, 800000) {
	struct P { const char * re; std::string set; bool plus; };
	static const std::vector<P> ps { { ",", ",", false }, { ",+", ",", true }, { "[,;]", ",;", false }, { "[,;]+", ",;", true }, { "a", "a", false }, { "[ a]+", " a", true } };
	static std::vector<std::regex> compiled = [] { std::vector<std::regex> r; for (auto & p : ps) r.emplace_back(p.re); return r; }();
	size_t k = d.upto(ps.size() - 1);
	auto & p = ps[k]; auto & re = compiled[k];
	std::string t = gen::encode(gen::small32(d, 14, U"ab,; \u20ac"));
	bool returnDelimiters = d.boolean(), compress = d.boolean();
	d.note("text " + pbt::show(t) + " regex " + p.re + (returnDelimiters ? " return" : "") + (compress ? " compress" : ""));
	std::vector<std::pair<size_t, size_t>> ms;
	for (size_t i = 0; i < t.size();) {
		if (p.set.find(t[i]) == std::string::npos) { ++i; continue; }
		size_t j = i + 1;
		while (p.plus && j < t.size() && p.set.find(t[j]) != std::string::npos) ++j;
		ms.emplace_back(i, j); i = j;
	}
	d.nontrivial(ms.size() >= 2);
	CHECK(Strings::occurrences(std::string_view(t), re) == ms.size(), ""); CHECK(Strings::occurrences(t, re) == ms.size(), "");
	CHECK(Strings::startsWithRegex(t, re) == (!ms.empty() && ms[0].first == 0), "");
	CHECK(Strings::matches(t, re) == (ms.size() == 1 && ms[0].first == 0 && ms[0].second == t.size()), "");
	std::string rep; size_t at = 0;
	for (auto & m : ms) { rep += t.substr(at, m.first - at) + "<>"; at = m.second; }
	rep += t.substr(at);
	CHECK(Strings::replaceAll(t, re, "<>"s) == rep, "got " << pbt::show(Strings::replaceAll(t, re, "<>"s)));
	CHECK(Strings::replaceAll(t.c_str(), re, "<>"s) == rep, "");
	if (!t.empty()) {
		std::vector<std::string> e; at = 0;
		for (auto & m : ms) {
			if (m.first > at || !compress) e.push_back(t.substr(at, m.first - at));
			if (returnDelimiters) e.push_back(t.substr(m.first, m.second - m.first));
			at = m.second;
		}
		if (at < t.size() || !compress) e.push_back(t.substr(at));
		auto g = owned<std::string>(Strings::split(std::string_view(t), re, returnDelimiters, compress));
		CHECK(g == e, "got " << showAll(g) << " expected " << showAll(e));
	}
	// Lines.
	std::string lines = gen::encode(gen::small32(d, 12, U"a\n\r\u20ac"));
	bool extra = d.boolean();
	d.note("lines " + pbt::show(lines));
	std::vector<size_t> e; size_t start = 0;
	for (size_t i = 0; i < lines.size();) {
		char c = lines[i];
		if (c != '\n' && c != '\r') { ++i; continue; }
		e.push_back(i - start);
		i += (i + 1 < lines.size() && (lines[i + 1] == '\n' || lines[i + 1] == '\r') && lines[i + 1] != c) ? 2 : 1;
		start = i;
	}
	if (extra && start < lines.size()) e.push_back(lines.size() - start);
	CHECK(Strings::lineLengths(lines, extra) == e, "");
	CHECK(Strings::lineLengths(std::string_view(lines), extra) == e, "");
	CHECK(Strings::lineLengths(lines.c_str(), extra) == e, "");
	// Simplification: trimmed, with runs of tabs and spaces replaced by one space.
	auto s32 = gen::small32(d, 10, U"a \t\u3000b");
	std::u32string x = s32; while (!x.empty() && space(x.front())) x.erase(0, 1); while (!x.empty() && space(x.back())) x.pop_back();
	std::u32string y; for (char32_t c : x) { if (c == '\t' || c == ' ') { if (y.empty() || y.back() != U' ' ) y += U' '; } else y += c; }
	d.note("simplify " + pbt::show(s32));
	CHECK(Strings::simplify(gen::encode(s32)) == gen::encode(y), "got " << pbt::show(Strings::simplify(gen::encode(s32))));
}

// Joining.
PBT(join, 100000, 3000000) {
	std::vector<std::string> v; std::list<int> ints;
	size_t n = d.size(6);
	for (size_t i = 0; i < n; ++i) { v.push_back(gen::encode(gen::small32(d, 4, U"ab\u20ac,"))); ints.push_back((int) d.range(-1000, 1000)); }
	std::string del = gen::encode(gen::small32(d, 3, U", \u20ac"));
	std::string e, ei, ps;
	for (size_t i = 0; i < n; ++i) { if (i) e += del; e += v[i]; ps += "<" + v[i] + del; }
	{ bool first = true; for (int i : ints) { if (!first) ei += del; ei += std::to_string(i); first = false; } }
	d.note("delimiter " + pbt::show(del) + " elements " + showAll(v));
	d.nontrivial(n >= 2 && !del.empty());
	CHECK(Strings::joinContainer(del, v) == e, ""); CHECK(Strings::joinContainer(del.c_str(), v) == e, ""); CHECK(Strings::joinContainer(std::string_view(del), v) == e, "");
	CHECK(Strings::joinContainer(del, ints) == ei, "");
	CHECK(Strings::prefixSuffixJoin(v, "<", del.c_str()) == ps, "");
	if (n >= 3) { auto it = ints.begin(); int i0 = *it++, i1 = *it; CHECK(Strings::join(del.c_str(), v[0], i0, v[1], i1) == v[0] + del + std::to_string(i0) + del + v[1] + del + std::to_string(i1), ""); }
	auto strs = Strings::toStringContainer(std::vector<std::string_view>(v.begin(), v.end()));
	CHECK(strs == v, "");
}
