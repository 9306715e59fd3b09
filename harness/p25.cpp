// P25: the assertions: they pass if and only if the relation holds, and a failure is an AssertionException that shows both values.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Testing/Assertions.hpp>
#include <Balau/Testing/Impl/HexContainerRendererImpl.hpp>
#include "gen.hpp"
#include <cmath>

using namespace Balau;
using namespace Balau::Testing;

namespace {

// Calls an assertion and returns whether it passed, with the message if it did not.
template <typename F> bool passes(F f, std::string & message) {
	try { f(); return true; } catch (const Exception::AssertionException & e) { message = e.message; return false; }
}

template <typename A, typename E> void verify(pbt::Data & d, const char * relation, bool holds, const A & actual, const E & matcher, std::string * text = nullptr) {
	const std::string user = d.chance(1, 3) ? "" : "user message " + std::to_string(d.upto(99));
	const bool located = d.boolean(), np = d.chance(1, 4);
	std::string message;
	const unsigned line = __LINE__ + 1;
	auto call = [&] { if (np) { if (located) user.empty() ? AssertThatNP(actual, matcher) : AssertThatNP(user, actual, matcher); else user.empty() ? assertThatNP(actual, matcher) : assertThatNP(user, actual, matcher); } else { if (located) user.empty() ? AssertThat(actual, matcher) : AssertThat(user, actual, matcher); else user.empty() ? assertThat(actual, matcher) : assertThat(user, actual, matcher); } };
	const bool passed = passes(call, message);
	CHECK(passed == holds, relation << (passed ? " passed" : " failed") << " although the relation " << (holds ? "holds" : "does not hold") << " " << message.substr(0, 500));
	d.label(relation);
	d.label(passed ? "passed" : "failed");
	if (passed) return;
	CHECK(message.find(user) != std::string::npos, "the failure message of the user is missing: " << message.substr(0, 500));
	if (located) CHECK(message.find("p25.cpp") != std::string::npos && message.find(std::to_string(line)) != std::string::npos, "the location is missing: " << message.substr(0, 500));
	if (text) { *text = np ? "" : message; if (np) CHECK(message.size() < 300, "a rendering was printed"); }
}

template <typename T> void relations(pbt::Data & d, const T & a, const T & e, std::string * text = nullptr) {
	switch (d.upto(5)) {
		case 0: verify(d, "is", a == e, a, is(e), text); break;
		case 1: verify(d, "isNot", !(a == e), a, isNot(e), text); break;
		case 2: verify(d, "isGreaterThan", a > e, a, isGreaterThan(e), text); break;
		case 3: verify(d, "isGreaterThanOrEqualTo", a >= e, a, isGreaterThanOrEqualTo(e), text); break;
		case 4: verify(d, "isLessThan", a < e, a, isLessThan(e), text); break;
		default: verify(d, "isLessThanOrEqualTo", a <= e, a, isLessThanOrEqualTo(e), text); break;
	}
}

template <typename T> void integers(pbt::Data & d) {
	using L = std::numeric_limits<T>;
	auto value = [&] () -> T {
		switch (d.upto(3)) {
			case 0: return (T) (L::min() + (T) d.upto(5));
			case 1: return (T) (L::max() - (T) d.upto(5));
			case 2: return (T) d.upto(10);
			default: return (T) d.draw(UINT64_MAX);
		}
	};
	const T a = value(), e = d.chance(1, 3) ? (T) (a ^ (T) d.upto(3)) : value();
	d.note("actual " + std::to_string(a) + " expected " + std::to_string(e));
	if (d.chance(1, 3)) {
		// The range of a signed expected value must be representable.
		const T delta = d.chance(1, 4) && std::is_unsigned_v<T> ? value() : (T) d.upto(20);
		const __int128 wide = (__int128) a - (__int128) e;
		if (std::is_signed_v<T> && ((__int128) e - delta < (__int128) L::min() || (__int128) e + delta > (__int128) L::max())) d.discard();
		d.note("delta " + std::to_string(delta));
		verify(d, "isAlmostEqual", (wide < 0 ? -wide : wide) <= (__int128) delta, a, isAlmostEqual(e, delta));
		d.nontrivial();
		return;
	}
	std::string text;
	relations(d, a, e, &text);
	if (!text.empty()) CHECK(text.find(::toString(a) + (a == e ? "  ==  " : "  !=  ") + ::toString(e)) != std::string::npos, "the values are not shown: " << text);
	if (a != e) d.nontrivial();
}

} // namespace

PBT(numbers, 6000, 300000) {
	switch (d.upto(4)) {
		case 0: integers<int>(d); break;
		case 1: integers<unsigned int>(d); break;
		case 2: integers<long long>(d); break;
		case 3: integers<unsigned long long>(d); break;
		default: {
			auto value = [&] () -> double {
				switch (d.upto(4)) {
					case 0: return d.pick(std::initializer_list<double> { 0.0, -0.0, INFINITY, -INFINITY, NAN, 1e308, -1e308, 5e-324 });
					case 1: return (double) (int) d.upto(8) / 4 - 1;
					default: return std::ldexp((double) (long) d.draw(UINT64_MAX), -(int) d.upto(70));
				}
			};
			const double a = value(), e = d.chance(1, 4) ? a : value();
			if (d.boolean()) relations(d, a, e);
			else {
				const double delta = std::fabs(value());
				// Judged away from the rounding of the limits.
				const long double wide = std::fabs((long double) a - (long double) e);
				const long double slack = ((long double) std::fabs(a) + std::fabs(e) + delta) * 1e-15L;
				if (std::isnan(a) || std::isnan(e) || std::isnan(delta)) verify(d, "isAlmostEqual", false, a, isAlmostEqual(e, delta));
				else if (std::isinf(a) || std::isinf(e) || std::isinf(delta) || std::fabs(wide - delta) <= slack || std::fabs((long double) e) + delta > 1e308L) d.discard();
				else verify(d, "isAlmostEqual", wide <= delta, a, isAlmostEqual(e, delta));
			}
			if (a != e) d.nontrivial();
		}
	}
}

namespace {

template <typename S> S randomString(pbt::Data & d, bool lines) {
	using C = typename S::value_type;
	S r;
	const size_t n = d.chance(1, 120) ? d.range(5000, 120000) : d.size(30);
	if (n > 100) { r.assign(n, (C) 'x'); r[n / 2] = (C) 'y'; return r; }
	static const std::vector<int> alphabet { 'a', 'b', 'a', 'b', 'c', ' ', '\t', '0', 0, '\r', 0x7f };
	for (size_t k = 0; k < n; ++k) r += (C) (lines && d.chance(1, 5) ? '\n' : d.pick(alphabet));
	return r;
}

template <typename S> S related(pbt::Data & d, const S & s, bool lines) {
	if (s.empty()) return randomString<S>(d, lines);
	const size_t a = d.upto(s.size()), b = d.upto(s.size() - a);
	S r;
	switch (d.upto(6)) {
		case 0: return s.substr(0, a);
		case 1: return s.substr(a);
		case 2: return s.substr(a, b);
		case 3: r = s; r[d.upto(s.size() - 1)] ^= 3; return r;
		case 4: return s + randomString<S>(d, lines);
		case 5: return s;
		default: return randomString<S>(d, lines);
	}
}

template <typename S> bool hasIn(const S & s, const S & x) {
	if (x.size() > s.size()) return false;
	if (s.size() > 4000) return s.find(x) != S::npos;
	for (size_t k = 0; k + x.size() <= s.size(); ++k) if (std::equal(x.begin(), x.end(), s.begin() + k)) return true;
	return false;
}

std::vector<std::string> linesOf(const std::string & s) {
	std::vector<std::string> r;
	std::string l;
	for (char c : s) if (c == '\n') { r.push_back(l); l.clear(); } else l += c;
	if (!l.empty()) r.push_back(l);
	return r;
}

std::string visible(const std::string & s) {
	std::string r;
	for (char c : s) if (c == ' ') r += "·"; else if (c == '\t') r += "··⇢·"; else r += c;
	return r;
}

template <typename S> void strings(pbt::Data & d) {
	const bool lines = d.boolean();
	S a = randomString<S>(d, lines), e = d.chance(2, 3) ? related(d, a, lines) : randomString<S>(d, lines);
	if (d.boolean()) std::swap(a, e);
	d.note("actual " + std::to_string(a.size()) + " characters, expected " + std::to_string(e.size()));
	if constexpr (sizeof(typename S::value_type) == 1) d.note("actual " + pbt::show(a.substr(0, 200)) + "\nexpected " + pbt::show(e.substr(0, 200)));
	std::string text;
	switch (d.upto(6)) {
		case 0: verify(d, "startsWith", a.size() >= e.size() && std::equal(e.begin(), e.end(), a.begin()), a, startsWith(e), &text); break;
		case 1: verify(d, "endsWith", a.size() >= e.size() && std::equal(e.rbegin(), e.rend(), a.rbegin()), a, endsWith(e), &text); break;
		case 2: verify(d, "contains", hasIn(a, e), a, Testing::contains(e), &text); break;
		case 3: verify(d, "doesNotContain", !hasIn(a, e), a, doesNotContain(e), &text); break;
		default: relations(d, a, e, &text); break;
	}
	if (!a.empty() && !e.empty()) d.nontrivial();
	if constexpr (std::is_same_v<S, std::string>) if (!text.empty()) {
		const auto al = linesOf(a), el = linesOf(e);
		const bool plain = a.find('\r') == S::npos && e.find('\r') == S::npos;
		if (al.size() == 1 && el.size() == 1) {
			if (plain) CHECK(text.find(visible(al[0]) + (a == e ? "  ==  " : "  !=  ") + visible(el[0])) != std::string::npos, "single line rendering: " << text.substr(0, 600));
			d.label("single line rendering");
		} else {
			// One row per line.
			for (size_t k = 0; k < std::max(al.size(), el.size()); ++k) {
				const bool both = k < al.size() && k < el.size();
				if (both) CHECK(text.find(visible(al[k])) != std::string::npos && text.find(std::string("  ") + (al[k] == el[k] ? "==" : "!=") + "  ") != std::string::npos && text.find(visible(el[k]) + "\n") != std::string::npos, "row " << k << ": " << text.substr(0, 600));
				else CHECK(text.find(visible(k < al.size() ? al[k] : el[k])) != std::string::npos, "row " << k << ": " << text.substr(0, 600));
			}
			size_t equal = 0, shown = 0;
			for (size_t k = 0; k < std::min(al.size(), el.size()); ++k) equal += al[k] == el[k];
			for (size_t p = text.find("  ==  "); p != std::string::npos; p = text.find("  ==  ", p + 1)) ++shown;
			CHECK(shown == equal, shown << " rows shown equal of " << equal << ": " << text.substr(0, 600));
			d.label("multiple line rendering");
		}
	}
}

template <typename T, typename G> void vectors(pbt::Data & d, G value) {
	std::vector<T> a, e;
	for (size_t n = d.size(8); n--; ) a.push_back(value());
	e = a;
	switch (d.upto(4)) {
		case 0: e.resize(d.upto(e.size())); break;
		case 1: if (!e.empty()) e[d.upto(e.size() - 1)] = value(); break;
		case 2: e.push_back(value()); break;
		case 3: e.clear(); for (size_t n = d.size(8); n--; ) e.push_back(value()); break;
		default: break;
	}
	if (d.boolean()) std::swap(a, e);
	d.note(std::to_string(a.size()) + " and " + std::to_string(e.size()) + " elements");
	for (size_t k = 0; k < std::max(a.size(), e.size()); ++k) d.note((k < a.size() ? ::toString(a[k]) : "-") + " / " + (k < e.size() ? ::toString(e[k]) : "-"));
	std::string text;
	if (d.boolean()) verify(d, "startsWith (vector)", a.size() >= e.size() && std::equal(e.begin(), e.end(), a.begin()), a, startsWith(e), &text);
	else relations(d, a, e, &text);
	if (!text.empty()) {
		size_t equal = 0, shown = 0, differ = 0, shownDiffer = 0;
		for (size_t k = 0; k < std::max(a.size(), e.size()); ++k) (k < a.size() && k < e.size() && a[k] == e[k] ? equal : differ) += 1;
		for (size_t p = text.find("    ==    "); p != std::string::npos; p = text.find("    ==    ", p + 1)) ++shown;
		for (size_t p = text.find("    !=    "); p != std::string::npos; p = text.find("    !=    ", p + 1)) ++shownDiffer;
		CHECK(shown == equal && shownDiffer == differ, shown << " elements shown equal of " << equal << ", " << shownDiffer << " different of " << differ << ": " << text);
		for (auto & v : { &a, &e }) for (const auto & x : *v) CHECK(text.find(::toString(x)) != std::string::npos, "element not shown: " << text);
	}
	if (a.size() > 1 && e.size() > 1) d.nontrivial();
}

} // namespace

PBT(strings, 5000, 200000) {
	switch (d.upto(3)) {
		case 0: strings<std::u32string>(d); break;
		case 1: strings<std::u16string>(d); break;
		default: strings<std::string>(d); break;
	}
}

PBT(containers, 4000, 200000) {
	switch (d.upto(3)) {
		case 0: vectors<int>(d, [&] { return (int) d.upto(3); }); break;
		case 1: vectors<std::string>(d, [&] { return d.pick(std::initializer_list<std::string> { "a", "b", "", "a longer string that is allocated", "a longer string that is allocated too" }); }); break;
		case 2: vectors<double>(d, [&] { return d.pick(std::initializer_list<double> { 0.0, -0.0, 1.5, NAN, -2.25 }); }); break;
		default: {
			std::set<int> a, e;
			for (size_t n = d.size(6); n--; ) a.insert((int) d.upto(9));
			e = a;
			if (d.boolean()) e.insert((int) d.upto(9)); else if (!e.empty() && d.boolean()) e.erase(e.begin());
			const std::list<int> la(a.begin(), a.end()), le(e.begin(), e.end());
			if (d.boolean()) relations(d, a, e); else relations(d, la, le);
			if (!(a == e)) d.nontrivial();
			break;
		}
	}
}

namespace shapes {

struct Shape { virtual ~Shape() = default; };
struct Round : Shape {};
struct Circle : Round {};
struct Square : Shape {};

struct Coded : std::runtime_error {
	int code;
	Coded(const std::string & m, int c) : std::runtime_error(m), code(c) {}
	bool operator == (const Coded & o) const { return code == o.code && std::string(what()) == o.what(); }
};
struct Derived : Coded { using Coded::Coded; };

inline std::string toString(const Coded & c) { return std::string(c.what()) + "#" + std::to_string(c.code); }

} // namespace shapes

using namespace shapes;

PBT(types_and_exceptions, 3000, 100000) {
	std::string message;
	const std::string user = "text " + std::to_string(d.upto(9));
	const bool located = d.boolean(), withText = d.boolean();
	auto judge = [&] (const char * what, bool holds, auto call) {
		bool passed, foreign = false;
		passed = passes(call, message);
		CHECK(passed == holds, what << (passed ? " passed" : " failed") << ": " << message);
		d.label(passed ? "passed" : "failed");
		if (!passed && withText) CHECK(message.find(user) != std::string::npos, "message " << message);
		if (!passed && located) CHECK(message.find("p25.cpp") != std::string::npos, "location " << message);
		(void) foreign;
	};
	if (d.chance(1, 3)) {
		Circle c; Round r; Square s; Shape p;
		const std::initializer_list<const Shape *> all { &c, &r, &s, &p };
		const Shape & x = *d.pick(all);
		auto by = [&] (auto matcher, bool holds) {
			judge("isA", holds, [&] { withText ? located ? AssertThat(user, x, matcher) : assertThat(user, x, matcher) : located ? AssertThat(x, matcher) : assertThat(x, matcher); });
			judge("isA without printing", holds, [&] { withText ? located ? AssertThatNP(user, x, matcher) : assertThatNP(user, x, matcher) : located ? AssertThatNP(x, matcher) : assertThatNP(x, matcher); });
		};
		switch (d.upto(3)) {
			case 0: by(isA<Circle>(), &x == &c); break;
			case 1: by(isA<Round>(), &x == &c || &x == &r); break;
			case 2: by(isA<Square>(), &x == &s); break;
			default: by(isA<Shape>(), true); break;
		}
		int i = 3;
		void * pointer = d.boolean() ? &i : nullptr;
		judge("isNotNull", pointer != nullptr, [&] { withText ? located ? AssertThatNP(user, pointer, isNotNull()) : assertThatNP(user, pointer, isNotNull()) : located ? AssertThatNP(pointer, isNotNull()) : assertThatNP(pointer, isNotNull()); });
		d.nontrivial();
		return;
	}
	const int thrown = (int) d.upto(4), code = (int) d.upto(2), wanted = (int) d.upto(2);
	const std::string what = d.pick(std::initializer_list<std::string> { "alpha", "beta" }), expectedWhat = d.pick(std::initializer_list<std::string> { "alpha", "beta" });
	int calls = 0;
	auto body = [&] {
		++calls;
		switch (thrown) {
			case 0: return;
			case 1: throw Coded(what, code);
			case 2: throw Derived(what, code);
			case 3: throw std::logic_error(what);
			default: throw std::runtime_error(what);
		}
	};
	d.note("thrown " + std::to_string(thrown) + " " + what + " " + std::to_string(code) + " expected " + expectedWhat + " " + std::to_string(wanted));
	const bool right = thrown == 1 || thrown == 2;
	auto by = [&] (const char * name, bool holds, const auto & matcher) {
		judge(name, holds, [&] { withText ? located ? AssertThat(user, body, matcher) : assertThat(user, body, matcher) : located ? AssertThat(body, matcher) : assertThat(body, matcher); });
		CHECK(calls == 1, "the function was called " << calls << " times");
		if (!holds && !right) CHECK((message.find("not thrown") != std::string::npos) == (thrown == 0), "message " << message);
		if (!holds && !right && thrown) CHECK(message.find(what) != std::string::npos, "the exception thrown is not shown: " << message);
	};
	const Coded expected(expectedWhat, wanted);
	switch (d.upto(4)) {
		case 0: by("throws<E>", right, throws<Coded>()); break;
		case 1: by("throws<runtime_error>", right || thrown == 4, throws<std::runtime_error>()); break;
		case 2: by("throws(example)", right && code == wanted && what == expectedWhat, throws(expected)); break;
		case 3: by("throws(predicate)", right && code == wanted, throws<Coded>([&] (const Coded & c) { return c.code == wanted; })); break;
		default: by("throws(function)", right && what == expectedWhat, throws(expected, [] (const Coded & a, const Coded & b) { return std::string(a.what()) == b.what(); })); break;
	}
	d.nontrivial();
}

PBT(hexadecimal_rendering, 1500, 50000) {
	std::vector<unsigned char> a, e;
	for (size_t n = d.size(20); n--; ) a.push_back((unsigned char) d.upto(255));
	e = a;
	if (!e.empty() && d.boolean()) e[d.upto(e.size() - 1)] ^= 1;
	if (d.boolean()) e.resize(d.upto(e.size() + 3));
	const std::string text = Testing::Impl::renderAsHex(a, e);
	std::istringstream in(text);
	std::string line;
	std::getline(in, line);
	auto hex = [] (unsigned char c) { char b[3]; snprintf(b, 3, "%02x", c); return std::string(b); };
	for (size_t k = 0; k < std::max(a.size(), e.size()); ++k) {
		CHECK(std::getline(in, line), "row " << k << " is missing");
		const size_t at = line.find(k < a.size() && k < e.size() && a[k] == e[k] ? "  ==  " : "  !=  ");
		CHECK(at != std::string::npos, "row " << k << ": " << line);
		if (k < a.size()) CHECK(line.substr(0, at).size() >= 2 && line.substr(at - 2, 2) == hex(a[k]), "row " << k << ": " << line);
		if (k < e.size()) CHECK(line.substr(at + 6) == hex(e[k]), "row " << k << ": " << line);
	}
	if (a.size() > 2) d.nontrivial();
}
