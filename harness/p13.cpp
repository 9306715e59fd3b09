// P13: command line parsing.
#include "pbt.hpp"
#include "gen.hpp"
#include <Balau/Type/ToString.hpp>
#include <Balau/Application/CommandLine.hpp>
#include <climits>
#include <cfloat>
#include <map>

using namespace Balau;

namespace {

struct Opt { int key; std::string s, l; bool hasValue; std::string doc; };

const std::vector<std::string> shortPool { "k", "m", "3", "x", "h", "v", "p" };
const std::vector<std::string> longPool { "key-one", "max", "help", "verbose", "p.q", "ab", "key" };

std::string valueText(pbt::Data & d) {
	switch (d.weighted({ 4, 3, 3, 1 })) {
		case 0: return std::to_string(d.pick({ 0LL, 1LL, -1LL, 7LL, (long long) SHRT_MAX, (long long) SHRT_MAX + 1, (long long) SHRT_MIN, (long long) SHRT_MIN - 1, 65535LL, 65536LL, (long long) INT_MAX, (long long) INT_MAX + 1,
			(long long) INT_MIN, (long long) INT_MIN - 1, (long long) UINT_MAX, (long long) UINT_MAX + 1, LLONG_MAX, LLONG_MIN, (long long) d.range(-200, 200) }));
		case 1: return d.pick<std::string>({ "18446744073709551615", "18446744073709551616", "-18446744073709551615", "-9223372036854775809", "12a", "1.5", "-2.25e3", "1e3", "3.5.", "1 2", "0x10", "-", "+4", "1e400", "-1e39", "abc", "5=6", "--3" });
		case 2: {
			std::string r;
			for (int n = (int) d.size(4); n >= 0; --n) r += d.pick<std::string>({ "a", "b=", "=", "-", "/x", "1", ".", "\xc3\xa9", "k", "c d" });
			return r;
		}
		default: return "";
	}
}

// The value of a text as a number: whole text, in range.
template <typename T> bool number(const std::string & s, T & v) {
	errno = 0;
	char * end = nullptr;
	if (s.empty() || isspace((unsigned char) s[0])) return false;
	if constexpr (std::is_same_v<T, float>) v = strtof(s.c_str(), &end);
	else if constexpr (std::is_same_v<T, double>) v = strtod(s.c_str(), &end);
	else if constexpr (std::is_signed_v<T>) {
		const long long l = strtoll(s.c_str(), &end, 10);
		if (l < (long long) std::numeric_limits<T>::min() || l > (long long) std::numeric_limits<T>::max()) return false;
		v = (T) l;
	} else {
		if (s.find('-') != std::string::npos) return false;
		const unsigned long long l = strtoull(s.c_str(), &end, 10);
		if (l > (unsigned long long) std::numeric_limits<T>::max()) return false;
		v = (T) l;
	}
	return errno == 0 && end == s.c_str() + s.size();
}

std::string trim(const std::string & s) {
	size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
	return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

template <typename T, typename G, typename O> void checkNumber(const char * what, bool present, const std::string & text, G get, O orDefault) {
	T v {};
	const T def = (T) 77;
	if (!present) {
		MUST_THROW(get(), Exception::OptionNotFoundException, what);
		CHECK(orDefault(def) == def, what << " default");
	} else if (number<T>(text, v)) {
		CHECK(get() == v, what << " of " << pbt::show(text) << " is " << get());
		CHECK(orDefault(def) == v, what << " or default of " << pbt::show(text) << " is " << orDefault(def));
	} else {
		MUST_THROW(get(), Exception::OptionValueException, what << " of " << pbt::show(text));
		MUST_THROW(orDefault(def), Exception::OptionValueException, what << " or default of " << pbt::show(text));
	}
}

enum class Final { No, Yes, Maybe };
enum class Error { None, NotFound, MissingValue, MissingFinal, MissingEither, Illegal };

struct Result {
	std::map<int, std::string> values;
	std::vector<std::string> finals;
	Error error = Error::None;
};

struct Parser {
	std::vector<Opt> options;
	Final final_;
	CommandLineStyle style;

	CommandLine<int> make() const {
		CommandLine<int> c(style);
		for (auto & o : options) {
			if (o.l.empty()) c.withOption(o.key, o.s, o.hasValue, o.doc);
			else if (o.l == "help" && !o.hasValue) c.withHelpOption(o.key, o.s, o.l, o.doc);
			else c.withOption(o.key, o.s, o.l, o.hasValue, o.doc);
		}
		if (final_ == Final::Yes) c.withFinalValue();
		if (final_ == Final::Maybe) c.withOptionalFinalValue();
		return c;
	}

	const Opt * find(const std::string & sw) const {
		for (auto & o : options) if (o.s == sw || (!o.l.empty() && o.l == sw)) return &o;
		return nullptr;
	}
};

void compare(const Parser & p, const CommandLine<int> & c, const Result & r) {
	for (int key = 0; key < 8; ++key) {
		auto i = r.values.find(key);
		const bool has = i != r.values.end();
		const std::string text = has ? i->second : "";
		CHECK(c.hasOption(key) == has, "hasOption(" << key << ") is " << c.hasOption(key));
		if (has) {
			CHECK(c.getOption(key) == text, "option " << key << " is " << pbt::show(c.getOption(key)) << ", expected " << pbt::show(text));
			CHECK(c.getOptionOrDefault(key, "zzz") == text, "getOptionOrDefault");
		} else {
			MUST_THROW(c.getOption(key), Exception::OptionNotFoundException, key);
			CHECK(c.getOptionOrDefault(key, "zzz") == "zzz", "getOptionOrDefault of a missing option");
		}
		checkNumber<short>("short", has, text, [&] { return c.getOptionAsShort(key); }, [&] (short x) { return c.getOptionAsShortOrDefault(key, x); });
		checkNumber<unsigned short>("unsigned short", has, text, [&] { return c.getOptionAsUnsignedShort(key); }, [&] (unsigned short x) { return c.getOptionAsUnsignedShortOrDefault(key, x); });
		checkNumber<int>("int", has, text, [&] { return c.getOptionAsInt(key); }, [&] (int x) { return c.getOptionAsIntOrDefault(key, x); });
		checkNumber<unsigned>("unsigned", has, text, [&] { return c.getOptionAsUnsignedInt(key); }, [&] (unsigned x) { return c.getOptionAsUnsignedIntOrDefault(key, x); });
		checkNumber<long long>("long", has, text, [&] { return c.getOptionAsLong(key); }, [&] (long long x) { return c.getOptionAsLongOrDefault(key, x); });
		checkNumber<unsigned long long>("unsigned long", has, text, [&] { return c.getOptionAsUnsignedLong(key); }, [&] (unsigned long long x) { return c.getOptionAsUnsignedLongOrDefault(key, x); });
		checkNumber<float>("float", has, text, [&] { return c.getOptionAsFloat(key); }, [&] (float x) { return c.getOptionAsFloatOrDefault(key, x); });
		checkNumber<double>("double", has, text, [&] { return c.getOptionAsDouble(key); }, [&] (double x) { return c.getOptionAsDoubleOrDefault(key, x); });
	}
	CHECK(c.getFinalValueCount() == r.finals.size(), c.getFinalValueCount() << " final values, expected " << r.finals.size());
	for (size_t i = 0; i <= r.finals.size(); ++i) {
		const bool has = i < r.finals.size();
		const std::string text = has ? r.finals[i] : "";
		if (has) CHECK(c.getFinalValue(i) == text, "final value " << i << " is " << pbt::show(c.getFinalValue(i)) << ", expected " << pbt::show(text));
		else MUST_THROW(c.getFinalValue(i), Exception::OptionNotFoundException, "final value " << i);
		CHECK(c.getFinalValueOrDefault("zzz", i) == (has ? text : "zzz"), "getFinalValueOrDefault");
		checkNumber<float>("final float", has, text, [&] { return c.getFinalValueAsFloat(i); }, [&] (float x) { return c.getFinalValueAsFloatOrDefault(x, i); });
		checkNumber<double>("final double", has, text, [&] { return c.getFinalValueAsDouble(i); }, [&] (double x) { return c.getFinalValueAsDoubleOrDefault(x, i); });
	}
}

Parser genParser(pbt::Data & d) {
	Parser p;
	p.final_ = d.pick({ Final::No, Final::Yes, Final::Maybe });
	p.style = d.pick({ CommandLineStyle::Detect, CommandLineStyle::SwitchSpaceValue, CommandLineStyle::SwitchEqualsValue });
	const size_t n = 1 + d.upto(4), s = d.upto(6), l = d.upto(6);
	for (size_t i = 0; i < n; ++i) {
		Opt o;
		o.key = (int) i;
		o.s = shortPool[(s + i) % shortPool.size()];
		if (d.chance(2, 3)) o.l = longPool[(l + i) % longPool.size()];
		o.hasValue = d.chance(2, 3);
		for (int k = (int) d.size(5); k > 0; --k) o.doc += d.pick<std::string>({ "lorem ipsum ", "x", " dolor sit amet, consectetur adipiscing elit", "-", "  " });
		p.options.push_back(o);
	}
	return p;
}

std::string pad(pbt::Data & d, std::string s) {
	if (d.chance(1, 12)) s = " " + s;
	if (d.chance(1, 12)) s += " ";
	return s;
}

// Arguments in the switch space value style and their meaning.
std::vector<std::string> ssv(pbt::Data & d, const Parser & p, Result & r) {
	std::vector<std::string> args;
	const size_t n = d.size(5);
	bool fault = false;
	for (size_t i = 0; i < n; ++i) {
		if (!fault && d.chance(1, 25)) {
			args.push_back(d.pick<std::string>({ "-z", "--zz", "-", "--", "--key-on" }));
			if (r.error == Error::None) r.error = Error::NotFound;
			fault = true;
			continue;
		}
		if (d.chance(1, 4) && (p.style != CommandLineStyle::Detect || i > 0)) {
			std::string f = valueText(d);
			if (!f.empty() && trim(f)[0] == '-') f = "f" + f;
			args.push_back(pad(d, f));
			if (p.final_ == Final::No) { if (r.error == Error::None) r.error = Error::Illegal; }
			else if (r.error == Error::None) r.finals.push_back(trim(f));
			continue;
		}
		const Opt & o = d.pick(p.options);
		args.push_back(pad(d, o.l.empty() || d.boolean() ? "-" + o.s : "--" + o.l));
		if (i == 0) args.back() = trim(args.back());
		if (!o.hasValue) {
			if (r.error == Error::None) r.values[o.key] = "";
			continue;
		}
		if (i + 1 == n && d.chance(1, 6)) {
			if (r.error == Error::None) r.error = p.final_ == Final::Yes && r.finals.empty() ? Error::MissingEither : Error::MissingValue;
			continue;
		}
		const std::string v = valueText(d);
		args.push_back(pad(d, v));
		if (r.error == Error::None) r.values[o.key] = trim(v);
	}
	if (p.final_ == Final::Yes && r.finals.empty() && r.error == Error::None) {
		if (d.chance(4, 5)) {
			std::string f = "f" + valueText(d);
			args.push_back(f);
			r.finals.push_back(trim(f));
		} else r.error = Error::MissingFinal;
	}
	return args;
}

// Arguments in the switch equals value style.
std::vector<std::string> sev(pbt::Data & d, const Parser & p, Result & r) {
	std::vector<std::string> args;
	const size_t n = d.size(5);
	bool lastFlag = false;
	for (size_t i = 0; i < n; ++i) {
		lastFlag = false;
		if (d.chance(1, 25)) {
			args.push_back(d.pick<std::string>({ "z", "zz=4", "=", "key-on=1", "-k=3" }));
			if (args.size() == 1 && p.style == CommandLineStyle::Detect) args.back() = "zz=4";
			if (p.final_ == Final::Maybe && i + 1 == n) args.back() = "zz=5";
			if (r.error == Error::None) {
				r.error = Error::NotFound;
				if (i + 1 == n) { args.push_back("zz=9"); if (p.final_ != Final::No) return args; }
			}
			continue;
		}
		const Opt & o = d.pick(p.options);
		const std::string sw = o.l.empty() || d.boolean() ? o.s : o.l;
		if (!o.hasValue) {
			args.push_back(sw);
			lastFlag = true;
			if (r.error == Error::None) r.values[o.key] = "";
			continue;
		}
		if (i + 1 == n && d.chance(1, 6)) {
			args.push_back(sw);
			if (p.final_ == Final::Yes) args.push_back("f" + valueText(d));
			if (r.error == Error::None) r.error = Error::MissingValue;
			return args;
		}
		const std::string v = valueText(d);
		args.push_back(sw + (d.chance(1, 12) ? " = " : "=") + v);
		if (r.error == Error::None) r.values[o.key] = trim(v);
	}
	if (r.error != Error::None && p.final_ == Final::Yes) { args.push_back("final"); return args; }
	if (p.final_ == Final::Yes || (p.final_ == Final::Maybe && d.boolean())) {
		if (p.final_ == Final::Yes && !lastFlag && d.chance(1, 6)) {
			if (r.error == Error::None) r.error = Error::MissingFinal;
		} else {
			std::string f = "final" + valueText(d);
			args.push_back(pad(d, f));
			if (r.error == Error::None) r.finals.push_back(trim(f));
		}
	}
	return args;
}

PBT(parsing, 15000, 1500000) {
	const Parser p = genParser(d);
	CommandLine<int> c = p.make();
	const int rounds = 1 + (int) d.weighted({ 3, 1 });
	for (int round = 0; round < rounds; ++round) {
		Result r;
		const bool spaces = p.style == CommandLineStyle::SwitchSpaceValue || (p.style == CommandLineStyle::Detect && d.boolean());
		std::vector<std::string> args = spaces ? ssv(d, p, r) : sev(d, p, r);
		if (p.style == CommandLineStyle::Detect && !spaces && args.size() == 1 && p.final_ == Final::Yes && r.finals.empty()) d.discard();
		if (p.style == CommandLineStyle::Detect && spaces && !args.empty() && args[0][0] != '-' && args.size() > 1) d.discard();
		if (p.style == CommandLineStyle::Detect && spaces && args.size() == 1 && args[0][0] != '-' && p.final_ != Final::Yes) d.discard();
		const bool first = d.boolean();
		if (first) args.insert(args.begin(), d.pick<std::string>({ "app", "-k", "" }));
		std::string shown;
		for (auto & a : args) shown += " " + pbt::show(a);
		d.note("final ", (int) p.final_, ", style ", (int) p.style, ":", shown);
		for (auto & o : p.options) d.note("  option ", o.key, ": ", o.s, " ", o.l, o.hasValue ? " with a value" : "");
		if (args.size() > 2) d.nontrivial();
		d.label(spaces ? "spaces" : "equals");
		Error got = Error::None;
		try {
			if (d.boolean()) c.parse(args, first);
			else {
				std::vector<const char *> argv;
				for (auto & a : args) argv.push_back(a.c_str());
				argv.push_back(nullptr);
				c.parse((int) args.size(), argv.data(), first);
			}
		} catch (const Exception::OptionNotFoundException &) { got = Error::NotFound; }
		catch (const Exception::MissingOptionValueException &) { got = Error::MissingValue; }
		catch (const Exception::MissingFinalValueException &) { got = Error::MissingFinal; }
		catch (const Exception::IllegalArgumentException &) { got = Error::Illegal; }
		if (r.error != Error::None) d.label("refused");
		CHECK(got == r.error || (r.error == Error::MissingEither && (got == Error::MissingValue || got == Error::MissingFinal)), "parse outcome " << (int) got << ", expected " << (int) r.error);
		if (got == Error::None) {
			compare(p, c, r);
			if (d.chance(1, 4)) {
				CommandLine<int> copy(c), assigned;
				assigned = c;
				compare(p, copy, r);
				compare(p, assigned, r);
			}
		}
	}
}

PBT(help_text, 5000, 100000) {
	const Parser p = genParser(d);
	CommandLine<int> c = p.make();
	const size_t indent = d.upto(6), width = d.upto(60);
	const CommandLineStyle over = d.pick({ CommandLineStyle::Detect, CommandLineStyle::SwitchSpaceValue, CommandLineStyle::SwitchEqualsValue });
	const CommandLineStyle style = over != CommandLineStyle::Detect ? over : p.style != CommandLineStyle::Detect ? p.style : CommandLineStyle::SwitchSpaceValue;
	const std::string text = c.getHelpText(indent, width, over);
	const bool dash = style == CommandLineStyle::SwitchSpaceValue;
	size_t w = 0;
	std::vector<std::string> sw;
	for (auto & o : p.options) {
		sw.push_back((dash ? "-" : "") + o.s + (o.l.empty() ? "" : std::string(", ") + (dash ? "--" : "") + o.l));
		w = std::max(w, sw.back().size());
	}
	const size_t limit = std::max(width, w + 20);
	d.note("indent ", indent, " width ", width, "\n", text);
	if (p.options.size() > 1) d.nontrivial();
	std::istringstream in(text);
	std::string line;
	std::vector<std::string> lines;
	while (std::getline(in, line)) lines.push_back(line);
	CHECK(text.empty() || text.back() == '\n', "the help text ends with a line break");
	size_t at = 0;
	for (size_t i = 0; i < p.options.size(); ++i) {
		std::string head = std::string(indent, ' ') + sw[i] + std::string(w - sw[i].size(), ' ') + " - ";
		CHECK(at < lines.size() && lines[at].compare(0, head.size(), head) == 0, "line " << at << " does not start with " << pbt::show(head));
		std::string doc = lines[at].substr(head.size());
		CHECK(doc.size() <= limit, "line too long");
		++at;
		while (doc.size() < p.options[i].doc.size()) {
			CHECK(at < lines.size() && lines[at].compare(0, head.size(), std::string(head.size(), ' ')) == 0, "continuation line " << at);
			const std::string chunk = lines[at].substr(head.size());
			CHECK(!chunk.empty() && chunk.size() <= limit, "continuation line length");
			doc += chunk;
			++at;
		}
		CHECK(doc == p.options[i].doc, "documentation text " << pbt::show(doc) << ", expected " << pbt::show(p.options[i].doc));
	}
	CHECK(at == lines.size(), "additional lines");
}

// Text keys.
PBT(text_keys, 2000, 40000) {
	CommandLine<std::string> c(CommandLineStyle::SwitchSpaceValue);
	c.withOption("K1", "a", "alpha", true, "").withOption("K2", "b", true, "");
	std::string v = valueText(d), w = valueText(d);
	c.parse(std::vector<std::string> { "--alpha", v, "-b", w }, false);
	d.note(pbt::show(v), " ", pbt::show(w));
	d.nontrivial();
	CHECK(c.getOption("K1") == trim(v) && c.getOption("K2") == trim(w) && !c.hasOption("a"), "values of text keys");
	checkNumber<int>("int", true, trim(v), [&] { return c.getOptionAsInt("K1"); }, [&] (int x) { return c.getOptionAsIntOrDefault("K1", x); });
	MUST_THROW(c.getOption("K3"), Exception::OptionNotFoundException, "unknown key");
}

} // namespace
