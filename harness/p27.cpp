// P27: percent decoding of URL data and MIME type lookup.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Network/Utilities/UrlDecode.hpp>
#include <Balau/Network/Utilities/MimeTypes.hpp>
#include "gen.hpp"
#include <map>
#include <memory>
#include <set>

using namespace Balau;
using Balau::Network::MimeTypes;
using Balau::Network::UrlDecode;

namespace {

int hexValue(unsigned char c) {
	return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

bool validUtf8(const std::string & s) {
	for (size_t i = 0; i < s.size();) {
		const unsigned char c = s[i];
		const size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
		if (n == 0 || i + n > s.size()) return false;
		for (size_t k = 1; k < n; ++k) if (((unsigned char) s[i + k] & 0xC0) != 0x80) return false;
		if (n > 2) {
			const unsigned char e = s[i + 1];
			if ((c == 0xE0 && e < 0xA0) || (c == 0xED && e > 0x9F) || (c == 0xF0 && e < 0x90) || (c == 0xF4 && e > 0x8F)) return false;
		}
		i += n;
	}
	return true;
}

// The input in memory of exactly its size: reads past either end are detected.
struct Exact {
	std::unique_ptr<char[]> data;
	size_t size;
	explicit Exact(const std::string & s) : data(new char[s.size()]), size(s.size()) { std::memcpy(data.get(), s.data(), size); }
	std::string_view view() const { return { data.get(), size }; }
};

struct Expected {
	std::string output;
	bool badRun = false;    // an escaped sequence is not UTF-8
	size_t malformed = std::string::npos; // the first malformed escape
	size_t runStart = 0;    // the start of the run of escapes which contains it
	std::string beforeRun;
};

Expected model(const std::string & s, bool validate) {
	Expected e;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '+') { e.output += ' '; ++i; continue; }
		if (s[i] != '%') { e.output += s[i++]; continue; }
		std::string run;
		e.runStart = i;
		e.beforeRun = e.output;
		while (i < s.size() && s[i] == '%') {
			if (i + 2 >= s.size() || hexValue(s[i + 1]) < 0 || hexValue(s[i + 2]) < 0) {
				e.malformed = i;
				// The escapes before the malformed one, if they are text by themselves.
				if (!validate || validUtf8(run)) e.beforeRun = e.output;
				return e;
			}
			run += (char) (hexValue(s[i + 1]) * 16 + hexValue(s[i + 2]));
			i += 3;
		}
		if (validate && !validUtf8(run)) e.badRun = true; else e.output += run;
	}
	return e;
}

std::string escape(pbt::Data & d, const std::string & bytes) {
	std::string r;
	char digits[4];
	for (unsigned char c : bytes) {
		snprintf(digits, sizeof digits, d.boolean() ? "%%%02x" : "%%%02X", c);
		r += digits;
	}
	return r;
}

std::string wellFormed(pbt::Data & d, size_t max) {
	std::string r;
	const size_t n = d.size(max);
	for (size_t k = 0; k < n; ++k) {
		switch (d.upto(7)) {
			case 0: r += '+'; break;
			case 1: { std::string t; gen::encode(t, gen::scalar(d)); r += escape(d, t); break; }
			case 2: { std::string t; gen::encode(t, gen::scalar(d)); gen::encode(t, gen::scalar(d)); r += escape(d, t); break; }
			case 3: r += escape(d, gen::bytes(d, 3)); break;                   // hardly ever UTF-8
			case 4: { std::string t; gen::encode(t, gen::scalar(d)); t.resize(d.upto(t.size())); r += escape(d, t); break; }
			case 5: { char c = (char) d.draw(255); r += c == '%' ? 'p' : c; break; }
			default: { const size_t m = d.size(6); for (size_t j = 0; j < m; ++j) r += (char) d.range('0', 'z'); break; }
		}
	}
	return r;
}

void compare(pbt::Data & d, const std::string & input) {
	const bool validate = d.boolean();
	const Expected e = model(input, validate);
	Exact x(input);
	if (input.find('%') != std::string::npos) d.nontrivial();
	const std::string lenient = UrlDecode::decode(x.view(), validate, false);
	std::string strict;
	bool thrown = false;
	try {
		strict = UrlDecode::decode(x.view(), validate, true);
	} catch (const Exception::NetworkException &) {
		thrown = true;
	}
	if (e.malformed == std::string::npos) {
		CHECK(lenient == e.output, "decoded to " + pbt::show(lenient) + " instead of " + pbt::show(e.output));
		CHECK(thrown == e.badRun, std::string("the escaped data is ") + (e.badRun ? "not UTF-8" : "valid") + " but decoding " + (thrown ? "failed" : "succeeded"));
		CHECK(thrown || strict == e.output, "strictly decoded to " + pbt::show(strict));
	} else {
		d.label("malformed");
		CHECK(thrown, "the malformed escape at " + std::to_string(e.malformed) + " was accepted");
		CHECK(lenient.compare(0, e.beforeRun.size(), e.beforeRun) == 0, "the text before the malformed escape was lost: " + pbt::show(lenient));
		const std::string marker = "~~~end";
		Exact y(input + marker);
		const std::string more = UrlDecode::decode(y.view(), validate, false);
		CHECK(more.size() >= 3 && more.compare(more.size() - 3, 3, "end") == 0, "the text after the malformed escape was lost: " + pbt::show(more));
	}
}

} // namespace

PBT(decode, 15000, 400000) {
	const std::string s = wellFormed(d, 12);
	d.note("decode " + pbt::show(s));
	compare(d, s);
}

PBT(decode_malformed, 15000, 400000) {
	std::string s;
	const size_t n = d.size(12);
	for (size_t k = 0; k < n; ++k) {
		switch (d.upto(5)) {
			case 0: s += wellFormed(d, 3); break;
			case 1: s += '%'; break;
			case 2: s += '%'; s += d.pick({ '0', '9', 'a', 'F', 'g', 'G', '+', '-', ' ', 'x', '/', ':', '@', '`', '\0', (char) 0xb2 }); break;
			case 3: s += '%'; s += (char) d.draw(255); s += (char) d.draw(255); break;
			case 4: s += '%'; s += d.pick({ '+', '-', ' ', '0', '\t' }); s += d.pick({ '1', 'x', 'a', ' ' }); break;
			default: s += (char) d.range(32, 126); break;
		}
	}
	d.note("decode " + pbt::show(s));
	compare(d, s);
}

PBT(split_and_decode, 6000, 100000) {
	const size_t n = d.upto(6);
	std::map<std::string, std::string> raw, decoded;
	std::string text;
	auto part = [&] (size_t min) {
		std::string plain, encoded;
		const size_t m = min + d.size(5);
		for (size_t k = 0; k < m; ++k) {
			std::string t;
			switch (d.upto(3)) {
				case 0: gen::encode(t, gen::scalar(d)); plain += t; encoded += escape(d, t); break;
				case 1: plain += ' '; encoded += d.boolean() ? "+" : "%20"; break;
				case 2: t = d.pick({ "&", "=", "%", "+", "&&", "a=b" }); plain += t; encoded += escape(d, t); break;
				default: t = std::string(1, (char) d.range('a', 'z')); plain += t; encoded += t; break;
			}
		}
		return std::make_pair(plain, encoded);
	};
	for (size_t k = 0; k < n; ++k) {
		auto key = part(1);
		auto value = part(0);
		if (decoded.count(key.first) || raw.count(key.second)) continue;
		raw[key.second] = value.second;
		decoded[key.first] = value.first;
		if (!text.empty()) text += '&';
		text += key.second;
		if (!value.second.empty() || d.boolean()) text += "=" + value.second;
	}
	d.note("parameters " + pbt::show(text));
	if (raw.size() > 1) d.nontrivial();
	Exact x(text);
	{
		auto actual = UrlDecode::split(x.view());
		CHECK(actual.size() == raw.size(), "split into " + std::to_string(actual.size()) + " parameters instead of " + std::to_string(raw.size()));
		for (auto & p : raw) {
			auto i = actual.find(p.first);
			CHECK(i != actual.end() && i->second == p.second, "the parameter " + pbt::show(p.first) + " was split wrongly");
			CHECK(i->first.data() >= x.data.get() && i->first.data() + i->first.size() <= x.data.get() + x.size, "a key does not refer to the input");
		}
	}
	for (int strict = 0; strict < 2; ++strict) {
		auto actual = UrlDecode::splitAndDecode(x.view(), d.boolean(), strict == 1);
		CHECK(actual.size() == decoded.size(), "decoded " + std::to_string(actual.size()) + " parameters instead of " + std::to_string(decoded.size()));
		for (auto & p : decoded) {
			auto i = actual.find(p.first);
			CHECK(i != actual.end() && i->second == p.second, "the parameter " + pbt::show(p.first) + " was decoded wrongly");
		}
	}
	// A parameter with two values is invalid.
	const std::string bad = (text.empty() ? "" : text + "&") + "~key=one=two";
	MUST_THROW(UrlDecode::split(bad), Exception::NetworkException, "a parameter with two equal signs was accepted");
	MUST_THROW(UrlDecode::splitAndDecode(bad), Exception::NetworkException, "a parameter with two equal signs was accepted");
	// Errors in keys and values are reported.
	MUST_THROW(UrlDecode::splitAndDecode((text.empty() ? "" : text + "&") + d.pick({ "~key=%4", "~key%=a", "~k=%zz", "~k%ff=v", "~k=%c3%28" }), true, true), Exception::NetworkException, "an error in a parameter was not reported");
}

PBT(mime_types, 4000, 60000) {
	std::unordered_map<std::string, std::string> table;
	std::map<std::string, std::string> copy;
	const bool custom = d.boolean();
	if (custom) {
		const size_t n = d.upto(6);
		for (size_t k = 0; k < n; ++k) {
			const std::string key = gen::ident(d, 3), value = gen::ident(d, 5) + "/" + gen::ident(d, 5);
			table[key] = value;
			copy[key] = value;
		}
	} else {
		for (auto & p : MimeTypes::defaultMimeTypes->getData()) copy[p.first] = p.second;
		CHECK(copy.count("html") && copy["html"] == "text/html" && copy["json"] == "application/json" && copy["png"] == "image/png", "the default table misses common types");
	}
	auto own = custom ? std::make_shared<MimeTypes>(std::move(table)) : MimeTypes::defaultMimeTypes;
	std::string path, extension;
	const size_t dirs = d.upto(2);
	for (size_t k = 0; k < dirs; ++k) path += "/" + gen::ident(d, 3) + (d.boolean() ? "." + gen::ident(d, 2) : "");
	path += "/" + gen::ident(d, 4);
	if (d.chance(1, 4)) path += d.pick({ ".", "..", ".html.", ".png.tar" });
	bool dot = false;
	if (d.chance(9, 10)) {
		if (!copy.empty() && d.chance(3, 4)) {
			auto i = copy.begin();
			std::advance(i, d.upto(copy.size() - 1));
			extension = i->first;
			if (d.chance(1, 6)) extension += d.boolean() ? "x" : " ";
			if (d.chance(1, 6)) extension.pop_back();
		} else {
			extension = gen::ident(d, 4);
		}
		path += "." + extension;
		dot = true;
	}
	std::string cased = path;
	for (char & c : cased) if (d.chance(1, 3)) c = (char) std::toupper((unsigned char) c);
	d.note("lookup " + pbt::show(cased));
	std::string expected;
	const size_t p = path.rfind('.');
	if (p != std::string::npos) {
		std::string e = cased.substr(p + 1);
		for (char & c : e) c = (char) std::tolower((unsigned char) c);
		if (copy.count(e)) expected = copy[e];
	}
	if (!expected.empty()) d.nontrivial();
	(void) dot;
	CHECK(own->lookup(cased) == expected, "looked up " + pbt::show(own->lookup(cased)) + " instead of " + pbt::show(expected));
	// Copying the data makes an equivalent instance.
	auto data = own->getData();
	MimeTypes second(std::move(data));
	CHECK(second.lookup(cased) == expected, "the copy looked up something else");
}
