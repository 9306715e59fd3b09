// P29: containers and vectors, streams, scope guards, random numbers, UUIDs and assertions.
#ifndef BALAU_DEBUG
	#define BALAU_DEBUG
#endif
#include <Balau/Exception/BalauException.hpp>
#include <functional>
#include <algorithm>
#include <deque>
#include <list>
#include <set>
#include <Balau/Dev/Assert.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/UUID.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Enums.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Random.hpp>
#include <Balau/Util/Streams.hpp>
#include <Balau/Util/Vectors.hpp>
#include "gen.hpp"
#include <sys/wait.h>
#include <thread>

using namespace Balau;
using namespace Balau::Util;

namespace {

// A string that counts how often it is copied.
struct Counted {
	std::string s;
	static int copies;
	Counted() = default;
	explicit Counted(std::string t) : s(std::move(t)) {}
	Counted(const Counted & c) : s(c.s) { ++copies; }
	Counted(Counted && c) noexcept : s(std::move(c.s)) { c.s = "moved from"; }
	Counted & operator = (const Counted & c) { s = c.s; ++copies; return *this; }
	Counted & operator = (Counted && c) noexcept { s = std::move(c.s); c.s = "moved from"; return *this; }
	bool operator == (const Counted & c) const { return s == c.s; }
};
int Counted::copies = 0;

std::vector<int> ints(pbt::Data & d, size_t max, int range = 9) {
	std::vector<int> v;
	const size_t n = d.size(max);
	for (size_t k = 0; k < n; ++k) v.push_back((int) d.upto((uint64_t) range));
	return v;
}

std::string text(pbt::Data & d) {
	std::string s = gen::ident(d, 3);
	if (d.chance(1, 5)) s += std::string(30, 'x');
	if (d.chance(1, 8)) s.clear();
	return s;
}

template <typename A, typename B> bool same(const A & a, const B & b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

std::string list(const std::vector<int> & v) { std::string r; for (int i : v) r += std::to_string(i) + " "; return r; }

} // namespace

PBT(containers, 8000, 200000) {
	const auto a = ints(d, 8), b = ints(d, 8), c = ints(d, 8);
	d.note("a " + list(a) + "b " + list(b) + "c " + list(c));
	if (a.size() + b.size() + c.size() > 4) d.nontrivial();
	std::vector<int> expected(a);
	expected.insert(expected.end(), b.begin(), b.end());
	std::vector<int> all(expected);
	all.insert(all.end(), c.begin(), c.end());
	const std::list<int> lb(b.begin(), b.end());
	const std::deque<int> dc(c.begin(), c.end());
	{
		std::vector<int> v(a);
		Containers::append(v, lb);
		CHECK(same(v, expected), "append gave " + list(v));
		v = a;
		Containers::append(v, lb, dc);
		CHECK(same(v, all), "append of two gave " + list(v));
		std::deque<int> q(a.begin(), a.end());
		Containers::append(q, lb, dc);
		CHECK(same(q, all), "append to a deque");
		std::list<int> l(a.begin(), a.end());
		Containers::append(l, b, c);
		CHECK(same(l, all), "append to a list");
	}
	CHECK(same(Containers::concatenate(a, b), expected), "concatenate of two");
	CHECK(same(Containers::concatenate(a, b, c), all), "concatenate of three");
	CHECK(same(Containers::concatenate(a), a), "concatenate of one");
	{
		std::vector<std::string> strings;
		for (int i : a) strings.push_back(std::to_string(i * 3));
		const auto m = Containers::map<std::string, int, std::vector>(a, std::function<std::string (const int &)>([] (const int & i) { return std::to_string(i * 3); }));
		CHECK(m == strings, "map gave other elements");
		CHECK((Vectors::map<std::string, int>(a, [] (const int & i) { return std::to_string(i * 3); }) == strings), "the map of vectors gave other elements");
		CHECK(Vectors::toStringVector(a).size() == a.size(), "toStringVector");
		const std::string needle = std::to_string((int) d.upto(30));
		const bool there = std::find(strings.begin(), strings.end(), needle) != strings.end();
		CHECK(Containers::contains(strings, needle) == there, "contains of a string in " + list(a));
		CHECK(Containers::contains(strings, needle.c_str()) == there, "contains of a literal in " + list(a));
		const auto texts = Vectors::toStringVector(a);
		const auto texts32 = Vectors::toString32Vector(a);
		for (size_t k = 0; k < a.size(); ++k) {
			CHECK(texts[k] == std::to_string(a[k]), "toStringVector gave " + pbt::show(texts[k]));
			CHECK(texts32[k] == std::u32string(texts[k].begin(), texts[k].end()), "toString32Vector gave something else");
		}
		CHECK(texts32.size() == a.size(), "toString32Vector gave another size");
	}
	const int x = (int) d.upto(10);
	CHECK(Containers::contains(a, x) == (std::find(a.begin(), a.end(), x) != a.end()), "contains");
	CHECK(Containers::contains(lb, x) == (std::find(b.begin(), b.end(), x) != b.end()), "contains in a list");
	bool any = false;
	for (int i : b) any = any || std::find(a.begin(), a.end(), i) != a.end();
	CHECK(Containers::contains(a, lb) == any, "contains any");
	CHECK(Containers::contains(a, b) == any, "contains any");
	std::vector<std::vector<int>> nested { a, c };
	CHECK(Containers::contains(nested, b) == (a == b || c == b), "contains a vector");
}

PBT(vectors, 8000, 200000) {
	std::vector<Counted> dst, src;
	std::vector<std::string> expected, moved;
	const size_t n = d.size(8), m = d.size(8);
	for (size_t k = 0; k < n; ++k) { expected.push_back(text(d)); dst.emplace_back(expected.back()); }
	for (size_t k = 0; k < m; ++k) { moved.push_back(text(d)); src.emplace_back(moved.back()); }
	d.note(std::to_string(n) + " and " + std::to_string(m) + " elements");
	if (n > 0 && m > 0) d.nontrivial();
	auto texts = [] (const std::vector<Counted> & v) { std::vector<std::string> r; for (auto & c : v) r.push_back(c.s); return r; };
	switch (d.upto(3)) {
		case 0: {
			Vectors::append(dst, src);
			CHECK(texts(src) == moved, "append changed its source");
			expected.insert(expected.end(), moved.begin(), moved.end());
			CHECK(texts(dst) == expected, "append gave other elements");
			break;
		}
		case 1: {
			Counted::copies = 0;
			if (d.boolean()) Vectors::move(dst, src); else Vectors::move(dst, std::move(src));
			CHECK(Counted::copies == 0, "move copied " + std::to_string(Counted::copies) + " elements");
			expected.insert(expected.end(), moved.begin(), moved.end());
			CHECK(texts(dst) == expected, "move gave other elements");
			std::vector<std::unique_ptr<int>> p, q;
			for (size_t k = 0; k < n; ++k) p.push_back(std::make_unique<int>((int) k));
			for (size_t k = 0; k < m; ++k) q.push_back(std::make_unique<int>((int) (n + k)));
			Vectors::move(p, q);
			CHECK(p.size() == n + m, "move of pointers gave another size");
			for (size_t k = 0; k < p.size(); ++k) CHECK(p[k] && *p[k] == (int) k, "move of pointers gave another pointer");
			break;
		}
		case 2: {
			// Push back or replace, by a key.
			std::vector<std::pair<int, std::string>> v, model;
			const size_t ops = d.size(12);
			for (size_t k = 0; k < ops; ++k) {
				std::pair<int, std::string> e((int) d.upto(4), text(d));
				auto i = std::find_if(model.begin(), model.end(), [&] (auto & o) { return o.first == e.first; });
				if (i == model.end()) model.push_back(e); else i->second = e.second;
				auto equal = [] (const std::pair<int, std::string> & l, const std::pair<int, std::string> & r) { return l.first == r.first; };
				switch (d.upto(1)) {
					case 0: Vectors::pushBackOrReplace(v, e, equal); break;
					default: Vectors::pushBackOrReplace(v, std::move(e), equal); break;
				}
				CHECK(v == model, "pushBackOrReplace gave other elements");
			}
			std::vector<int> w, wm;
			int replaced = 0, expectedReplaced = 0;
			for (size_t k = 0; k < ops; ++k) {
				const int e = (int) d.upto(6);
				if (std::find(wm.begin(), wm.end(), e) == wm.end()) wm.push_back(e); else ++expectedReplaced;
				Vectors::pushBackOrReplace(w, e, std::equal_to<int>(), [&] (int &, const int &) { ++replaced; });
				CHECK(w == wm && replaced == expectedReplaced, "pushBackOrReplace with a function gave other elements");
			}
			break;
		}
		default: {
			const std::string s = gen::bytes(d, 20);
			const std::u32string u = gen::text32(d, 20);
			const auto v = Vectors::toCharVector(s);
			const auto v32 = Vectors::toCharVector(u);
			CHECK(same(v, s) && Vectors::charsToString(v) == s, "the characters of " + pbt::show(s));
			CHECK(same(v32, u) && Vectors::charsToString(v32) == u, "the characters of " + pbt::show(u));
			std::u16string s16;
			for (char c : s) s16 += (char16_t) ((unsigned char) c * 257);
			CHECK(Vectors::charsToString(std::vector<char16_t>(s16.begin(), s16.end())) == s16, "the 16 bit characters");
			Vectors::pushBack(dst, Counted("one"), Counted("two"), Counted("three"));
			expected.insert(expected.end(), { "one", "two", "three" });
			CHECK(texts(dst) == expected, "pushBack gave other elements");
			Vectors::pushBack(dst);
			CHECK(texts(dst) == expected, "pushBack of nothing changed the vector");
			CHECK((Vectors::pushBack(1, 2, 3) == std::vector<int> { 1, 2, 3 }), "pushBack into a new vector");
			break;
		}
	}
}

PBT(memory, 1500, 20000) {
	const std::string a = text(d), b = text(d), c = text(d);
	d.note(a + " " + b + " " + c);
	d.nontrivial();
	auto check = [&] (const auto & v, const std::vector<std::string> & e) {
		CHECK(v.size() == e.size(), "another number of pointers");
		for (size_t k = 0; k < e.size(); ++k) CHECK(v[k] && *v[k] == e[k], "pointer " + std::to_string(k) + " points to something else");
	};
	check(Memory::makeUnique<std::string>([] (const std::string & s) { return std::make_unique<std::string>(s + "!"); }, a, b, c), { a + "!", b + "!", c + "!" });
	check(Memory::makeShared<std::string>([] (const std::string & s) { return std::make_shared<std::string>(s + "!"); }, a, b, c), { a + "!", b + "!", c + "!" });
	check(Memory::makeUniqueV<std::string>([] (const std::string & s) {
		std::vector<std::unique_ptr<std::string>> r;
		for (size_t k = 0; k < s.size() && k < 3; ++k) r.push_back(std::make_unique<std::string>(1, s[k]));
		return r;
	}, a, b, c), [&] { std::vector<std::string> r; for (auto * s : { &a, &b, &c }) for (size_t k = 0; k < s->size() && k < 3; ++k) r.emplace_back(1, (*s)[k]); return r; }());
	check(Memory::makeSharedV<std::string>([] (const std::string & s) {
		std::vector<std::shared_ptr<std::string>> r;
		for (size_t k = 0; k < s.size() && k < 3; ++k) r.push_back(std::make_shared<std::string>(1, s[k]));
		return r;
	}, a, b, c), [&] { std::vector<std::string> r; for (auto * s : { &a, &b, &c }) for (size_t k = 0; k < s->size() && k < 3; ++k) r.emplace_back(1, (*s)[k]); return r; }());
}

PBT(streams, 6000, 100000) {
	std::string s;
	const size_t n = d.size(8);
	for (size_t k = 0; k < n; ++k) {
		switch (d.upto(3)) {
			case 0: s += "\n"; break;
			case 1: s += gen::bytes(d, 12); break;
			default: s += gen::ident(d, 6) + (d.boolean() ? "\n" : "\r\n"); break;
		}
	}
	if (d.chance(1, 20)) s += std::string(d.upto(100000), 'q');
	d.note("text " + pbt::show(s.size() < 300 ? s : s.substr(0, 300)));
	if (s.size() > 4) d.nontrivial();
	const size_t skip = d.chance(1, 3) ? d.upto(s.size()) : 0;
	const std::string rest = s.substr(skip);
	std::vector<std::string> lines;
	for (size_t p = 0; p < rest.size();) {
		const size_t e = rest.find('\n', p);
		lines.push_back(rest.substr(p, e == std::string::npos ? e : e - p));
		p = e == std::string::npos ? rest.size() : e + 1;
	}
	auto stream = [&] { std::istringstream in(s); in.seekg((std::streamoff) skip); return in; };
	{ auto in = stream(); CHECK(Streams::readLinesToVector(in) == lines, "other lines were read"); }
	{ auto in = stream(); CHECK(::toString((std::istream &) in) == rest, "toString read something else"); }
	{
		auto in = stream();
		std::ostringstream out;
		out << "before ";
		Streams::consume(out, in);
		CHECK(out.good(), "the output stream failed");
		CHECK(in.rdbuf()->sgetc() == EOF, "the source was not consumed");
		out << " after";
		CHECK(out.str() == "before " + rest + " after", "the output stream got something else");
	}
}

PBT(scope_exit, 6000, 100000) {
	// A tree of scopes: each function appends its number when it runs.
	std::vector<int> log, expected;
	std::string note;
	const size_t n = d.range(1, 6);
	{
		std::vector<std::unique_ptr<OnScopeExit>> guards;
		std::vector<std::pair<bool, int>> armed; // in order of creation
		for (size_t k = 0; k < n; ++k) {
			guards.push_back(std::make_unique<OnScopeExit>([&log, k] { log.push_back((int) k); }));
			armed.emplace_back(true, (int) k);
			switch (d.upto(4)) {
				case 0: guards.back()->clear(); armed.back().first = false; note += "clear "; break;
				case 1: guards.back()->executeNow(); if (armed.back().first) expected.push_back(armed.back().second); armed.back().first = false; note += "execute "; break;
				case 2: guards.back()->rest([&log, k] { log.push_back(100 + (int) k); }); armed.back() = { true, 100 + (int) k }; note += "reset "; break;
				default: note += "keep "; break;
			}
			if (d.chance(1, 4)) { guards.back()->executeNow(); if (armed.back().first) expected.push_back(armed.back().second); armed.back().first = false; note += "execute "; }
			CHECK(log == expected, "the functions that ran before the end of the scope differ, " + note);
		}
		while (!guards.empty()) {
			guards.pop_back();
			if (armed.back().first) expected.push_back(armed.back().second);
			armed.pop_back();
			CHECK(log == expected, "the functions that ran at the end of the scope differ, " + note);
		}
	}
	log.clear();
	expected.clear();
	note += "| ";
	{
		// Movable guards: slots hold guards, which move between them.
		std::vector<std::unique_ptr<MovableOnScopeExit>> slots;
		std::vector<int> holds; // the function of each slot, -1 for none
		const size_t ops = d.range(1, 12);
		for (size_t k = 0; k < ops; ++k) {
			const size_t i = slots.empty() ? 0 : d.upto(slots.size() - 1);
			switch (slots.empty() ? 0 : d.upto(4)) {
				case 0: slots.push_back(std::make_unique<MovableOnScopeExit>([&log, k] { log.push_back((int) k); })); holds.push_back((int) k); note += "new "; break;
				case 1: slots.push_back(std::make_unique<MovableOnScopeExit>(std::move(*slots[i]))); holds.push_back(holds[i]); holds[i] = -1; note += "move" + std::to_string(i) + " "; break;
				case 2: slots[i]->clear(); holds[i] = -1; note += "clear" + std::to_string(i) + " "; break;
				case 3: slots[i]->executeNow(); if (holds[i] >= 0) expected.push_back(holds[i]); holds[i] = -1; note += "execute" + std::to_string(i) + " "; break;
				default: slots.erase(slots.begin() + (long) i); if (holds[i] >= 0) expected.push_back(holds[i]); holds.erase(holds.begin() + (long) i); note += "destroy" + std::to_string(i) + " "; break;
			}
			CHECK(log == expected, "the functions that ran differ, " + note);
		}
		while (!slots.empty()) {
			slots.pop_back();
			if (holds.back() >= 0) expected.push_back(holds.back());
			holds.pop_back();
			CHECK(log == expected, "the functions that ran at the end of the scope differ, " + note);
		}
	}
	d.note(note);
	if (n > 2) d.nontrivial();
	// A scope left by an exception.
	int ran = 0;
	try {
		OnScopeExit one([&] { ++ran; });
		MovableOnScopeExit two([&] { ran += 10; });
		MovableOnScopeExit three(std::move(two));
		throw std::runtime_error("out");
	} catch (const std::runtime_error &) {}
	CHECK(ran == 11, "leaving the scope by an exception ran the functions wrongly");
}

namespace {

template <typename G, typename T> void inRange(pbt::Data & d, T lower, T upper, int draws) {
	const unsigned seed = (unsigned) d.draw(UINT32_MAX);
	d.note("range [" + std::to_string(lower) + ", " + std::to_string(upper) + "] seed " + std::to_string(seed));
	if (lower < upper) d.nontrivial();
	G first(lower, upper, seed), second(lower, upper, seed), free(lower, upper);
	for (int k = 0; k < draws; ++k) {
		const T v = first(), w = second(), x = free();
		CHECK(v >= lower && v <= upper, "the number " + std::to_string(v) + " is out of range, by " + std::to_string(v > upper ? v - upper : lower - v));
		CHECK(x >= lower && x <= upper, "the unseeded number " + std::to_string(x) + " is out of range");
		CHECK(v == w, "two generators of the same seed differ");
	}
}

template <typename G, typename T> void integers(pbt::Data & d) {
	T lower, upper;
	switch (d.upto(3)) {
		case 0: lower = std::numeric_limits<T>::min(); upper = std::numeric_limits<T>::max(); break;
		case 1: lower = (T) d.draw(UINT64_MAX); upper = (T) d.draw(UINT64_MAX); if (lower > upper) std::swap(lower, upper); break;
		case 2: lower = upper = (T) d.draw(UINT64_MAX); break;
		default: {
			lower = (T) d.upto(1000); if (std::is_signed_v<T> && d.boolean()) lower = (T) (0 - lower);
			const T span = (T) d.upto(3);
			upper = (T) (lower + span);
			// Every value of a small range turns up, the limits included.
			G g(lower, upper, (unsigned) d.draw(UINT32_MAX));
			std::set<T> seen;
			for (int k = 0; k < 300; ++k) seen.insert(g());
			CHECK(seen.size() == (size_t) span + 1, "only " + std::to_string(seen.size()) + " of the numbers from " + std::to_string(lower) + " to " + std::to_string(upper) + " turn up");
			break;
		}
	}
	inRange<G, T>(d, lower, upper, 20);
}

template <typename G, typename T> void reals(pbt::Data & d) {
	T lower = (T) ((double) d.range(0, 2000) - 1000) / (T) d.pick({ 1, 3, 1000 }), upper;
	if (d.chance(1, 4)) lower *= (T) 1e15;
	switch (d.upto(4)) {
		case 0: upper = lower; break;
		case 1: upper = std::nextafter(lower, std::numeric_limits<T>::max()); break;
		case 2: upper = lower < 0 ? (T) 0 : lower + 1; break;
		case 3: upper = lower; for (int k = 0; k < 4; ++k) upper = std::nextafter(upper, std::numeric_limits<T>::max()); break;
		default: upper = lower + (T) d.upto(2000); break;
	}
	if (d.chance(1, 30)) { lower = 0; upper = std::numeric_limits<T>::max(); }
	inRange<G, T>(d, lower, upper, 30);
	if (upper > lower + std::fabs(lower) / 1000) {
		// Both halves of the range turn up.
		G g(lower, upper, (unsigned) d.draw(UINT32_MAX));
		const T middle = lower / 2 + upper / 2;
		int low = 0;
		for (int k = 0; k < 300; ++k) low += g() <= middle ? 1 : 0;
		CHECK(low > 50 && low < 250, std::to_string(low) + " of 300 numbers are in the lower half of the range");
	}
}

} // namespace

PBT(random_numbers, 4000, 100000) {
	switch (d.upto(5)) {
		case 0: integers<UniformInt32, int>(d); break;
		case 1: integers<UniformInt64, long>(d); break;
		case 2: integers<UniformUInt32, unsigned int>(d); break;
		case 3: integers<UniformUInt64, unsigned long long>(d); break;
		case 4: reals<UniformDouble, double>(d); break;
		default: reals<UniformFloat, float>(d); break;
	}
}

PBT(uuids, 600, 10000) {
	const size_t n = d.range(2, 12);
	d.note(std::to_string(n) + " UUIDs");
	d.nontrivial();
	std::vector<UUID> all;
	if (d.boolean()) {
		for (size_t k = 0; k < n; ++k) all.emplace_back();
	} else {
		std::mutex m;
		std::vector<std::thread> threads;
		for (size_t k = 0; k < n; ++k) threads.emplace_back([&] { UUID u; std::lock_guard<std::mutex> l(m); all.push_back(u); });
		for (auto & t : threads) t.join();
	}
	for (size_t i = 0; i < n; ++i) {
		const UUID & u = all[i];
		const auto a = u.asArray();
		CHECK(std::memcmp(a.data(), u.asBytes(), 16) == 0, "the array differs from the bytes");
		std::string e;
		char b[3];
		for (size_t k = 0; k < 16; ++k) { if (k == 4 || k == 6 || k == 8 || k == 10) e += '-'; snprintf(b, 3, "%02x", a[k]); e += b; }
		CHECK(u.asString() == e, "printed as " + u.asString() + " instead of " + e);
		CHECK(toString(u) == e && u.asString<std::allocator<char>>() == e, "the other functions print something else");
		CHECK((a[6] >> 4) == 4 && (a[8] >> 6) == 2, "not a random UUID: " + e);
		const UUID copy(u);
		CHECK(copy == u && !(copy != u) && copy <= u && copy >= u && !(copy < u) && !(copy > u), "a copy is not equal");
		for (size_t j = 0; j < n; ++j) {
			if (i == j) continue;
			const UUID & v = all[j];
			const bool less = u.asArray() < v.asArray();
			CHECK(u != v && !(u == v), "two UUIDs are equal");
			CHECK((u < v) == less && (u <= v) == less && (u > v) == !less && (u >= v) == !less, "the order is not that of the bytes");
		}
	}
}

PBT(development_assertions, 150, 2000) {
	const int which = (int) d.upto(6);
	const bool hold = d.boolean();
	const std::string message = gen::ident(d, 8) + "-message";
	d.note("assertion " + std::to_string(which) + (hold ? " holds" : " fails"));
	d.nontrivial();
	int fds[2];
	CHECK(pipe(fds) == 0, "pipe");
	fflush(nullptr);
	const pid_t child = fork();
	if (child == 0) {
		dup2(fds[1], 2);
		signal(SIGABRT, SIG_DFL);
		bool called = false;
		auto text = [&] { called = true; return message; };
		switch (which) {
			case 0: Assert::assertion(hold, text); break;
			case 1: Assert::assertion(hold, message.c_str()); break;
			case 2: Assert::assertion(hold); break;
			case 3: Assert::assertion([&] { return hold; }, text); break;
			case 4: Assert::assertion([&] { return hold; }, message.c_str()); break;
			case 5: Assert::assertion([&] { return hold; }); break;
			default: if (!hold) Assert::fail(message.c_str()); break;
		}
		_exit(called ? 2 : 0);
	}
	close(fds[1]);
	std::string err;
	char buffer[512];
	ssize_t r;
	while ((r = read(fds[0], buffer, sizeof buffer)) > 0) err.append(buffer, (size_t) r);
	close(fds[0]);
	int status = 0;
	waitpid(child, &status, 0);
	if (hold) {
		CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "an assertion that holds ended the process or evaluated its message: " + pbt::show(err));
		CHECK(err.empty(), "an assertion that holds printed " + pbt::show(err));
	} else {
		CHECK(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT, "a failed assertion did not abort: " + pbt::show(err));
		if (which != 2 && which != 5) CHECK(err.find(message) != std::string::npos, "the message is missing in " + pbt::show(err));
	}
}
