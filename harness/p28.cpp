// P28: printing of numbers, bytes, durations and time points, and the system clock.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <cmath>
#include <iomanip>
#include <sstream>
#include <Balau/Util/PrettyPrint.hpp>
#include <Balau/Util/DateTime.hpp>
#include <Balau/System/SystemClock.hpp>
#include <Balau/System/Sleep.hpp>
#include "gen.hpp"
#include <cstring>
#include <ctime>
#include <memory>

using namespace Balau;
using Balau::Util::DateTime;
using Balau::Util::PrettyPrint;

namespace {

std::string format(const char * f, int places, long double v) {
	char buffer[6000];
	snprintf(buffer, sizeof buffer, f, places, v);
	return buffer;
}

long double magnitude(pbt::Data & d) {
	const int exponent = (int) d.range(0, 44) - 22;
	long double v = (long double) d.range(1, 999999999) / 1e8L;
	if (d.chance(1, 4)) v = d.pick({ 1.0L, 9.999999L, 5.0L, 1.5L });
	return v * std::pow(10.0L, (long double) exponent);
}

struct Printed { bool ok = false; long double value = 0; long double mantissa = 0; long double unit = 1; std::string prefix; };

// A number in fixed notation followed by a prefix.
Printed parse(const std::string & s, long double base, int places, const std::string & suffix) {
	Printed p;
	if (s.size() < suffix.size() || s.compare(s.size() - suffix.size(), suffix.size(), suffix) != 0) return p;
	const std::string t = s.substr(0, s.size() - suffix.size());
	size_t i = 0;
	if (i < t.size() && t[i] == '-') ++i;
	const size_t start = i;
	while (i < t.size() && isdigit((unsigned char) t[i])) ++i;
	if (i == start) return p;
	size_t fraction = 0;
	if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char) t[i])) { ++i; ++fraction; } }
	if ((int) fraction != places) return p;
	p.prefix = t.substr(i);
	static const std::vector<std::string> prefixes = { "a", "f", "p", "n", "μ", "m", "", "k", "M", "G", "T", "P", "E" };
	int e = -7;
	for (size_t k = 0; k < prefixes.size(); ++k) if (prefixes[k] == p.prefix) e = (int) k - 6;
	if (e == -7) return p;
	p.unit = std::pow(base, (long double) e);
	p.mantissa = strtold(t.substr(0, i).c_str(), nullptr);
	p.value = p.mantissa * p.unit;
	p.ok = true;
	return p;
}

void prefixed(const std::string & s, long double value, long double base, int places, const std::string & suffix) {
	const Printed p = parse(s, base, places, suffix);
	CHECK(p.ok, "printed as " + pbt::show(s));
	const long double half = 0.5L * std::pow(10.0L, (long double) -places) * p.unit * 1.000001L + std::fabs(value) * 1e-14L;
	CHECK(std::fabs(p.value - value) <= half, "printed as " + pbt::show(s) + ", which is not the value");
	CHECK(value >= 0 || s[0] == '-', "the sign is missing in " + pbt::show(s));
	CHECK(value < 0 || s[0] != '-', "there is a sign in " + pbt::show(s));
	if (value == 0) { CHECK(p.prefix.empty(), "zero printed as " + pbt::show(s)); return; }
	// The magnitude of the mantissa is in [1, base), unless the prefixes are exhausted.
	const long double m = std::fabs(value) / p.unit;
	CHECK(m >= 1 - 1e-9L || p.prefix == "a", "a smaller prefix applies: " + pbt::show(s));
	CHECK(m < base * (1 + 1e-9L) || p.prefix == "E", "a larger prefix applies: " + pbt::show(s));
}

template <typename T> void numbers(pbt::Data & d, T value, int places) {
	const bool integer = std::is_integral_v<T>;
	if (value != T() && (places > 0 || value < T() || integer)) d.nontrivial();
	switch (d.upto(3)) {
		case 0: {
			d.label("fixed");
			const std::string s = PrettyPrint::fixed(value, (size_t) places);
			std::string e;
			if constexpr (std::is_integral_v<T>) e = std::to_string(value); else e = format("%.*Lf", places, value);
			CHECK(s == e, "fixed printed " + pbt::show(s) + " instead of " + pbt::show(e));
			break;
		}
		case 1: {
			d.label("scientific");
			const std::string s = PrettyPrint::scientific(value, (size_t) places);
			std::string e;
			if constexpr (std::is_integral_v<T>) e = std::to_string(value); else e = format("%.*Le", places, value);
			CHECK(s == e, "scientific printed " + pbt::show(s) + " instead of " + pbt::show(e));
			break;
		}
		case 2: d.label("metric"); prefixed(PrettyPrint::metricPrefix(value, (size_t) places), (long double) value, 1000, places, ""); break;
		default: d.label("binary"); prefixed(PrettyPrint::binaryPrefix(value, (size_t) places), (long double) value, 1024, places, ""); break;
	}
}

template <typename D> void printDuration(pbt::Data & d, D value, int places) {
	const long double seconds = (long double) value.count() * D::period::num / D::period::den;
	const std::string s = PrettyPrint::duration(value, (size_t) places);
	d.note("duration of " + std::to_string(seconds) + " s with " + std::to_string(places) + " places");
	if (seconds == 0) { CHECK(s == "0s", "no time printed as " + pbt::show(s)); return; }
	const long double total = std::fabs(seconds);
	if (total < 60) {
		prefixed(s, seconds, 1000, places, "s");
		return;
	}
	d.nontrivial();
	size_t i = 0;
	CHECK((s[0] == '-') == (seconds < 0), "the sign is wrong in " + pbt::show(s));
	if (s[0] == '-') ++i;
	long double sum = 0;
	int previous = -1; // index of the last unit seen
	std::string fraction;
	const char units[] = { 'd', 'h', 'm', 's' };
	const long double sizes[] = { 86400, 3600, 60, 1 };
	int first = -1;
	while (i < s.size()) {
		const size_t start = i;
		while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
		const std::string digits = s.substr(start, i - start);
		CHECK(digits.size() >= 2, "a component of " + pbt::show(s) + " has fewer than two digits");
		if (i < s.size() && s[i] == '.') {
			const size_t p = ++i;
			while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
			fraction = s.substr(p, i - p);
		}
		CHECK(i < s.size(), "the last unit is missing in " + pbt::show(s));
		const char * u = (const char *) memchr(units, s[i], 4);
		CHECK(u != nullptr, "unknown unit in " + pbt::show(s));
		const int index = (int) (u - units);
		CHECK(previous == -1 || index == previous + 1, "a unit is missing or misplaced in " + pbt::show(s));
		CHECK(fraction.empty() || index == 3, "a fraction is misplaced in " + pbt::show(s));
		const long double n = strtold(digits.c_str(), nullptr);
		CHECK(index == 0 || n < (index == 1 ? 24 : 60), "a component of " + pbt::show(s) + " is out of range");
		if (first == -1) { first = index; CHECK(index <= 2, "the minutes are missing in " + pbt::show(s)); }
		sum += n * sizes[index];
		previous = index;
		++i;
	}
	CHECK(previous == 3, "the seconds are missing in " + pbt::show(s));
	CHECK(fraction.empty() || (int) fraction.size() == places, "the number of decimal places is wrong in " + pbt::show(s));
	if (!fraction.empty()) sum += strtold(("0." + fraction).c_str(), nullptr);
	const bool whole = std::floor(total) == total;
	CHECK(whole || places == 0 || !fraction.empty(), "the fraction is missing in " + pbt::show(s));
	const long double tolerance = whole ? 0 : places == 0 ? 1.0L : 0.5L * std::pow(10.0L, (long double) -places) * 1.0001L + total * 1e-15L;
	CHECK(std::fabs(sum - total) <= tolerance, pbt::show(s) + " is not the duration");
	CHECK(first == 2 ? sum < 3600 : first == 1 ? sum < 86400 : true, "a larger unit applies to " + pbt::show(s));
	CHECK(first == 2 ? true : first == 1 ? sum >= 3600 : sum >= 86400, "a smaller unit applies to " + pbt::show(s));
}

int64_t count(pbt::Data & d, int64_t perSecond) {
	// Near the limits of units, or anywhere.
	static const std::vector<int64_t> bases = { 0, 1, 59, 60, 61, 119, 120, 600, 3599, 3600, 3601, 7199, 7200, 86399, 86400, 86401, 172799, 172800, 8639999, 864000000 };
	int64_t c;
	if (d.boolean()) {
		c = d.pick(bases) * perSecond;
		c += d.boolean() ? (int64_t) d.range(0, 3) - 1 : perSecond > 1 ? (int64_t) d.upto((uint64_t) perSecond - 1) : 0;
	} else {
		c = (int64_t) d.upto((uint64_t) d.pick({ 60, 4000, 90000, 90000000 })) * perSecond + (int64_t) d.upto((uint64_t) perSecond - 1);
	}
	return d.chance(1, 3) ? -c : c;
}

struct Civil { int64_t year; int month, day, hour, minute, second, yearDay, weekDay; };

// Independent conversion of seconds since the epoch.
Civil civil(int64_t t) {
	auto leap = [] (int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
	int64_t days = t / 86400, rest = t % 86400;
	if (rest < 0) { rest += 86400; --days; }
	Civil c {};
	c.hour = (int) (rest / 3600); c.minute = (int) (rest / 60 % 60); c.second = (int) (rest % 60);
	c.weekDay = (int) (((days + 4) % 7 + 7) % 7);
	c.year = 1970;
	while (days < 0) { --c.year; days += leap(c.year) ? 366 : 365; }
	while (days >= (leap(c.year) ? 366 : 365)) { days -= leap(c.year) ? 366 : 365; ++c.year; }
	c.yearDay = (int) days + 1;
	const int lengths[] = { 31, leap(c.year) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	c.month = 1;
	for (int l : lengths) { if (days < l) break; days -= l; ++c.month; }
	c.day = (int) days + 1;
	return c;
}

std::string number(int64_t v, int width) {
	std::string s = std::to_string(v);
	while ((int) s.size() < width) s = "0" + s;
	return s;
}

// Some specifiers of the format of the date library.
std::string expand(const std::vector<std::string> & parts, const Civil & c, const std::string & fraction) {
	static const char * days[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
	static const char * months[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
	std::string r;
	for (const std::string & p : parts) {
		if (p == "%Y") r += number(c.year, 4);
		else if (p == "%y") r += number(c.year % 100, 2);
		else if (p == "%m") r += number(c.month, 2);
		else if (p == "%d") r += number(c.day, 2);
		else if (p == "%H") r += number(c.hour, 2);
		else if (p == "%M") r += number(c.minute, 2);
		else if (p == "%S") r += number(c.second, 2) + fraction;
		else if (p == "%T") r += number(c.hour, 2) + ":" + number(c.minute, 2) + ":" + number(c.second, 2) + fraction;
		else if (p == "%F") r += number(c.year, 4) + "-" + number(c.month, 2) + "-" + number(c.day, 2);
		else if (p == "%j") r += number(c.yearDay, 3);
		else if (p == "%a") r += days[c.weekDay];
		else if (p == "%b") r += months[c.month - 1];
		else if (p == "%%") r += "%";
		else r += p;
	}
	return r;
}

template <typename D> void timePoint(pbt::Data & d, int64_t t, int64_t sub, int digits) {
	using namespace std::chrono;
	const time_point<system_clock, D> tp { duration_cast<D>(seconds(t)) + D(sub) };
	const std::string fraction = digits == 0 ? "" : "." + number(sub, digits);
	std::vector<std::string> parts;
	const size_t n = d.upto(7);
	std::string f;
	for (size_t k = 0; k < n; ++k) {
		parts.push_back(d.pick({ "%Y", "%m", "%d", "%H", "%M", "%S", "%T", "%F", "%j", "%a", "%b", "%y", "%%", " ", ":", "x/", "-" }));
		f += parts.back();
	}
	const Civil c = civil(t);
	const std::string expected = expand(parts, c, fraction);
	d.note("format " + pbt::show(f) + " at " + std::to_string(t) + " + " + std::to_string(sub));
	if (n > 1) d.nontrivial();
	const std::string s = DateTime::toString(f.c_str(), tp);
	CHECK(s == expected, "printed " + pbt::show(s) + " instead of " + pbt::show(expected));
	std::ostringstream stream;
	stream << "before ";
	DateTime::toString(stream, f.c_str(), tp);
	CHECK(stream.str() == "before " + expected, "the stream got " + pbt::show(stream.str()));
	const std::string plain = ::toString(tp);
	const std::string e2 = expand({ "%F", " ", "%T" }, c, fraction);
	CHECK(plain == e2, "toString gave " + pbt::show(plain) + " instead of " + pbt::show(e2));
}

template <typename D> void durationText(pbt::Data & d, D value, const std::string & unit, int64_t perSecond, int digits) {
	const std::string plain = ::toString(value);
	CHECK(plain == std::to_string(value.count()) + unit, "toString gave " + pbt::show(plain));
	if (value.count() < 0) return;
	const int64_t total = value.count() / perSecond;
	const std::string fraction = digits == 0 ? "" : "." + number(value.count() % perSecond, digits);
	std::string expected = number(total / 3600, 2) + ":" + number(total / 60 % 60, 2) + ":" + number(total % 60, 2) + fraction;
	d.note("duration " + plain);
	if (total > 60) d.nontrivial();
	for (const char * f : { "%H:%M:%S", "%T" }) {
		const std::string s = DateTime::toString(f, value);
		CHECK(s == expected, "printed " + pbt::show(s) + " instead of " + pbt::show(expected));
		std::ostringstream stream;
		DateTime::toString(stream, f, value);
		CHECK(stream.str() == expected, "the stream got " + pbt::show(stream.str()));
	}
	if (total / 3600 < 100) {
		const auto back = DateTime::toDuration<typename D::rep, typename D::period>("%H:%M:%S", expected);
		CHECK(back == value, pbt::show(expected) + " was read as " + ::toString(back));
	}
}

} // namespace

PBT(numbers, 100000, 3000000) {
	const int places = (int) d.upto(9);
	switch (d.upto(5)) {
		case 0: { const double v = (double) (magnitude(d) * (d.chance(1, 3) ? -1 : 1)); d.note("double " + std::to_string(v)); numbers(d, v, places); break; }
		case 1: { const long double v = magnitude(d) * (d.chance(1, 3) ? -1 : 1); d.note("long double " + std::to_string(v)); numbers(d, v, places); break; }
		case 2: { const int v = (int) d.draw(UINT32_MAX); d.note("int " + std::to_string(v)); numbers(d, v >> d.upto(31), places); break; }
		case 3: { const uint64_t v = d.draw(UINT64_MAX) >> d.upto(63); d.note("unsigned long " + std::to_string(v)); numbers(d, v, places); break; }
		case 4: { const int64_t v = (int64_t) d.draw(UINT64_MAX) >> d.upto(63); d.note("long " + std::to_string(v)); numbers(d, v, places); break; }
		default: { const double v = d.pick({ 0.0, 1.0, -1.0, 1000.0, 1024.0, 1e6, 1e9, 1e-3, 1e-6, 1e21, 1e-21, 999.999, -1e15, 1048576.0 }); d.note("double " + std::to_string(v)); numbers(d, v, places); break; }
	}
}

PBT(byte_values, 30000, 1000000) {
	const int places = (int) d.upto(4);
	size_t v = d.draw(UINT64_MAX) >> d.upto(63);
	if (d.chance(1, 4)) v = ((size_t) 1 << d.upto(63)) - d.upto(1);
	d.note("bytes " + std::to_string(v));
	if (v > 1023) d.nontrivial();
	prefixed(PrettyPrint::byteValue(v, (size_t) places), (long double) v, 1024, places, "B");
}

PBT(durations, 100000, 3000000) {
	using namespace std::chrono;
	const int places = (int) d.upto(4);
	switch (d.upto(4)) {
		case 0: printDuration(d, milliseconds(count(d, 1000)), places); break;
		case 1: printDuration(d, microseconds(count(d, 1000000)), places); break;
		case 2: printDuration(d, nanoseconds(count(d, 1000000000)), places); break;
		case 3: printDuration(d, seconds(count(d, 1)), places); break;
		default: printDuration(d, std::chrono::duration<int64_t, std::centi>(count(d, 100)), places); break;
	}
}

PBT(hex_bytes, 20000, 500000, 0, 20) {
	const std::string bytes = gen::bytes(d, 60);
	const size_t lineLength = d.boolean() ? 0 : d.upto(40), groupSize = d.boolean() ? 0 : d.range(1, 6);
	std::unique_ptr<char[]> exact(new char[bytes.size()]);
	std::memcpy(exact.get(), bytes.data(), bytes.size());
	std::string expected;
	char b[3];
	for (unsigned char c : bytes) { snprintf(b, 3, "%02x", c); expected += b; }
	d.note("bytes " + expected + " line " + std::to_string(lineLength) + " group " + std::to_string(groupSize));
	if (bytes.size() > 4) d.nontrivial();
	const std::string s = PrettyPrint::printHexBytes(exact.get(), bytes.size(), lineLength, groupSize);
	std::string digits;
	std::vector<std::vector<std::string>> lines(1);
	std::string word;
	size_t width = 0;
	for (char c : s + "\n") {
		if (c == ' ' || c == '\n') {
			if (!word.empty()) lines.back().push_back(word);
			word.clear();
			if (c == '\n') { if (!lines.back().empty()) lines.emplace_back(); width = 0; } else ++width;
		} else {
			word += c;
			digits += (char) tolower((unsigned char) c);
			++width;
			// A group wider than the line cannot fit.
			if (lineLength >= 2 && 2 * groupSize <= lineLength) CHECK(width <= lineLength, "a line is too long: " + pbt::show(s));
		}
	}
	CHECK(digits == expected, "printed " + pbt::show(s) + " instead of " + pbt::show(expected));
	if (lineLength == 0) CHECK(s.find('\n') == std::string::npos || s.find('\n') == s.size() - 1, "more than one line: " + pbt::show(s));
	if (groupSize > 0 && lineLength >= 2 * groupSize) {
		std::vector<std::string> all;
		for (auto & l : lines) for (auto & w : l) all.push_back(w);
		for (size_t k = 0; k < all.size(); ++k)
			CHECK(k + 1 < all.size() ? all[k].size() == 2 * groupSize : all[k].size() <= 2 * groupSize, "a group has the wrong size: " + pbt::show(s));
	}
	const uint64_t value = d.draw(UINT64_MAX);
	std::string v;
	for (size_t k = 0; k < 8; ++k) { snprintf(b, 3, "%02x", (unsigned) ((const unsigned char *) &value)[k]); v += b; }
	CHECK(PrettyPrint::printHexBytes(value) == v, "the value was printed as " + PrettyPrint::printHexBytes(value));
}

PBT(time_points, 30000, 1000000) {
	const int64_t t = d.chance(1, 4) ? (int64_t) d.pick({ 0LL, -1LL, 86399LL, 86400LL, 951782400LL, 951868799LL, 951868800LL, 4107542400LL, 1709164800LL, 1735689599LL, -2203891201LL })
		: (int64_t) d.upto(10000000000ULL) - 2200000000LL;
	switch (d.upto(3)) {
		case 0: timePoint<std::chrono::seconds>(d, t, 0, 0); break;
		case 1: timePoint<std::chrono::milliseconds>(d, t, (int64_t) d.upto(999), 3); break;
		case 2: timePoint<std::chrono::microseconds>(d, t, (int64_t) d.upto(999999), 6); break;
		default: timePoint<std::chrono::nanoseconds>(d, t, (int64_t) d.upto(999999999), 9); break;
	}
}

PBT(duration_text, 30000, 1000000) {
	using namespace std::chrono;
	switch (d.upto(3)) {
		case 0: durationText(d, seconds(count(d, 1)), "s", 1, 0); break;
		case 1: durationText(d, milliseconds(count(d, 1000)), "ms", 1000, 3); break;
		case 2: durationText(d, microseconds(count(d, 1000000)), "µs", 1000000, 6); break;
		default: durationText(d, nanoseconds(count(d, 1000000000)), "ns", 1000000000, 9); break;
	}
}

PBT(system_clock, 3000, 30000) {
	using namespace std::chrono;
	const System::SystemClock instance;
	const System::Clock & clock = instance;
	auto now = [] { timespec t; clock_gettime(CLOCK_REALTIME, &t); return (__int128) t.tv_sec * 1000000000 + t.tv_nsec; };
	const int which = (int) d.upto(6);
	d.note("function " + std::to_string(which));
	d.nontrivial();
	auto read = [&] () -> std::pair<__int128, __int128> { // value and unit, in nanoseconds
		switch (which) {
			case 0: return { duration_cast<nanoseconds>(clock.now().time_since_epoch()).count(), 1 };
			case 1: return { clock.nanotime().count(), 1 };
			case 2: return { (__int128) clock.microtime().count() * 1000, 1000 };
			case 3: return { (__int128) clock.millitime().count() * 1000000, 1000000 };
			case 4: return { (__int128) clock.centitime().count() * 10000000, 10000000 };
			case 5: return { (__int128) clock.decitime().count() * 100000000, 100000000 };
			default: {
				const Date::year_month_day day = clock.today();
				return { (__int128) Date::sys_days(day).time_since_epoch().count() * 86400 * 1000000000, (__int128) 86400 * 1000000000 };
			}
		}
	};
	const __int128 before = now();
	const auto value = read();
	const __int128 after = now();
	if (after < before) d.discard(); // the clock was set
	CHECK(value.first > before - value.second && value.first <= after, "the clock reports " + std::to_string((double) value.first) + " between " + std::to_string((double) before) + " and " + std::to_string((double) after));
	CHECK(value.first % value.second == 0, "the time is not a multiple of its unit");
}

PBT(sleeping, 200, 1000) {
	const size_t us = d.upto(3000);
	const int which = (int) d.upto(2);
	d.note("sleep " + std::to_string(us) + " us via function " + std::to_string(which));
	d.nontrivial();
	const auto start = std::chrono::steady_clock::now();
	std::chrono::nanoseconds wanted {};
	switch (which) {
		case 0: System::Sleep::nanoSleep(us * 1000); wanted = std::chrono::microseconds(us); break;
		case 1: System::Sleep::microSleep(us); wanted = std::chrono::microseconds(us); break;
		default: System::Sleep::milliSleep(us / 1000); wanted = std::chrono::milliseconds(us / 1000); break;
	}
	CHECK(std::chrono::steady_clock::now() - start >= wanted, "slept for less than the time asked for");
}
