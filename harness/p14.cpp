// P14: URI components, path normalisation, URLs and their resolution.
#include "pbt.hpp"
#include "gen.hpp"
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/Http.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/UriFromString.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <optional>

using namespace Balau;
using namespace Balau::Resource;

namespace {

struct Parts {
	std::string scheme;
	bool authority = false;
	std::optional<std::string> userinfo;
	std::string host;
	std::optional<std::string> port;
	std::string path;
	std::optional<std::string> query, fragment;

	std::string prefix() const {
		std::string r = scheme + ":";
		if (authority) {
			r += "//";
			if (userinfo) r += *userinfo + "@";
			r += host;
			if (port) r += ":" + *port;
		}
		return r;
	}
	std::string suffix() const {
		std::string r;
		if (query) r += "?" + *query;
		if (fragment) r += "#" + *fragment;
		return r;
	}
	std::string text() const { return prefix() + path + suffix(); }
};

std::string chars(pbt::Data & d, size_t max, const std::string & alphabet, bool unicode = false) {
	std::string r;
	const size_t n = d.size(max);
	for (size_t i = 0; i < n; ++i) {
		if (unicode && d.chance(1, 12)) { gen::encode(r, (char32_t) d.pick({ 0xE9, 0x65E5, 0x1F600, 0x7FF })); continue; }
		r += alphabet[d.upto(alphabet.size() - 1)];
	}
	return r;
}

const std::string unreserved = "abzAZ09-._~";
const std::string subDelims = "!$&'()*+,;=";

std::string segment(pbt::Data & d, size_t max) { return chars(d, max, unreserved + subDelims + ":@%", true); }

Parts genParts(pbt::Data & d) {
	Parts p;
	p.scheme = std::string(1, d.pick({ 'a', 'h', 'Z', 'f' })) + chars(d, 6, "abzAZ019+-.");
	p.authority = d.chance(3, 4);
	if (p.authority) {
		if (d.chance(1, 3)) p.userinfo = chars(d, 6, unreserved + subDelims + "%", true);
		switch (d.draw(3)) {
			case 0: p.host = "a" + chars(d, 8, unreserved, true); break;
			case 1: p.host = std::to_string(d.upto(255)) + "." + std::to_string(d.upto(255)) + ".0.1"; break;
			case 2: p.host = "[" + chars(d, 10, "0123456789abcdef::.") + "]"; break;
			default: p.host = (p.userinfo || !d.chance(1, 3)) ? std::string("h") : std::string(); break;
		}
		if (!p.host.empty() && d.chance(1, 2)) p.port = d.chance(1, 8) ? std::string() : std::to_string(d.pick<long>({ 0, 1, 80, 443, 8080, 65535, (long) d.upto(65535) }));
		if (p.port && !p.port->empty() && d.chance(1, 6)) p.port = std::string(1 + d.upto(4), '0') + *p.port;
	}
	const size_t segments = d.size(5);
	if (p.authority) {
		for (size_t i = 0; i < segments; ++i) p.path += "/" + segment(d, 5);
	} else if (segments) {
		if (d.boolean()) p.path += "/";
		p.path += "x" + segment(d, 5);
		for (size_t i = 1; i < segments; ++i) p.path += "/" + segment(d, 5);
	}
	if (d.chance(1, 2)) p.query = chars(d, 8, unreserved + subDelims + ":@%/?", true);
	if (d.chance(1, 2)) p.fragment = chars(d, 8, unreserved + subDelims + ":@%/?", true);
	if (d.chance(1, 40)) {
		// Close to the length limit.
		const size_t target = INT16_MAX - 2 + d.upto(5);
		const size_t now = p.text().size();
		std::string fill(target - now, 'x');
		if (fill.size()) switch (d.draw(2)) {
			case 0: if (p.authority) fill[0] = '/'; p.path += fill; break;
			case 1: if (p.query) *p.query += fill; else { if (p.authority) fill[0] = '/'; p.path += fill; } break;
			default: if (p.fragment) *p.fragment += fill; else { if (p.authority) fill[0] = '/'; p.path += fill; } break;
		}
		d.label("long");
	}
	return p;
}

unsigned portOf(const std::string & s) { unsigned r = 0; for (char c : s) r = std::min(1000000u, r * 10 + (unsigned) (c - '0')); return r; }

void checkComponents(const UriComponents & c, const Parts & p) {
	CHECK(c.getUri() == p.text(), "the uri is " << pbt::show(c.getUri()));
	CHECK(c.scheme() == p.scheme, "scheme " << pbt::show(c.scheme()));
	if (!p.host.empty()) {
		CHECK(c.hasAuthority() && c.hasHost(), "no authority found");
	}
	if (!p.authority) CHECK(!c.hasAuthority() && !c.hasHost(), "an authority was found");
	CHECK(c.host() == p.host, "host " << pbt::show(c.host()));
	CHECK(c.hasUserInfo() == p.userinfo.has_value() && c.userInfo() == p.userinfo.value_or(""), "user info " << pbt::show(c.userInfo()));
	if (!p.port || !p.port->empty()) CHECK(c.hasPort() == p.port.has_value(), "hasPort is " << c.hasPort());
	CHECK(c.port() == portOf(p.port.value_or("")), "port " << c.port());
	CHECK(c.path() == p.path, "path " << pbt::show(c.path()));
	CHECK(c.hasQuery() == p.query.has_value() && c.query() == p.query.value_or(""), "query " << pbt::show(c.query()));
	CHECK(c.hasFragment() == p.fragment.has_value() && c.fragment() == p.fragment.value_or(""), "fragment " << pbt::show(c.fragment()));
	CHECK(c.pathQueryFragment() == p.path + p.suffix(), "path-query-fragment " << pbt::show(c.pathQueryFragment()));
}

// The split of RFC 3986 appendix B with the authority split that the documentation describes; nothing if the text is not a URI by those rules.
// 'unsure' is set when the documentation does not decide.
std::optional<Parts> reference(const std::string & s, bool & unsure) {
	unsure = false;
	Parts p;
	const size_t colon = s.find(':');
	if (colon == std::string::npos || colon == 0) return std::nullopt;
	p.scheme = s.substr(0, colon);
	for (size_t i = 0; i < p.scheme.size(); ++i) {
		const unsigned char c = (unsigned char) p.scheme[i];
		if (c >= 0x80) unsure = true;   // letters of other scripts
		else if (!(isalpha(c) || (i && (isdigit(c) || c == '+' || c == '.' || c == '-')))) return std::nullopt;
	}
	std::string rest = s.substr(colon + 1);
	const size_t hash = rest.find('#');
	if (hash != std::string::npos) { p.fragment = rest.substr(hash + 1); rest.resize(hash); }
	const size_t question = rest.find('?');
	if (question != std::string::npos) { p.query = rest.substr(question + 1); rest.resize(question); }
	if (rest.compare(0, 2, "//") == 0) {
		p.authority = true;
		const size_t slash = rest.find('/', 2);
		std::string a = rest.substr(2, slash == std::string::npos ? std::string::npos : slash - 2);
		p.path = slash == std::string::npos ? "" : rest.substr(slash);
		if (a.find('[') != std::string::npos) { unsure = true; return p; }   // brackets enclose anything
		const size_t at = a.find('@'), firstColon = a.find(':');
		if (at != std::string::npos) {
			if (firstColon < at) return std::nullopt;   // password
			p.userinfo = a.substr(0, at);
			a = a.substr(at + 1);
		}
		const size_t c = a.find(':');
		p.host = a.substr(0, c);
		if (c != std::string::npos) {
			p.port = a.substr(c + 1);
			for (char x : *p.port) if (!isdigit((unsigned char) x)) return std::nullopt;
			if (portOf(*p.port) > 65535) return std::nullopt;
			if (p.port->empty()) unsure = true;
		}
		if ((p.userinfo || p.port) && p.host.empty()) return std::nullopt;
	} else p.path = rest;
	return p;
}

std::string normalModel(const std::string & path, bool keepLeading) {
	const bool absolute = !path.empty() && path[0] == '/';
	std::vector<std::string> out;
	std::string cur;
	auto flush = [&] {
		if (cur == ".." && !out.empty() && out.back() != "..") out.pop_back();
		else if (cur == ".." && absolute && !keepLeading) {}
		else if (!cur.empty() && cur != ".") out.push_back(cur);
		cur.clear();
	};
	for (char c : path) if (c == '/') flush(); else cur += c;
	flush();
	std::string r = absolute ? "/" : "";
	for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i];
	return r;
}

std::string genPath(pbt::Data & d) {
	std::string r;
	if (d.boolean()) r = "/";
	const size_t n = d.size(12);
	for (size_t i = 0; i < n; ++i) {
		switch (d.weighted({ 4, 4, 2, 1, 1 })) {
			case 0: r += std::string(1, (char) ('a' + d.upto(2))); break;
			case 1: r += ".."; break;
			case 2: r += "."; break;
			case 3: r += d.pick<std::string>({ "...", ".a", "a.", "..a", "a..", "é" }); break;
			default: break;
		}
		if (i + 1 < n || d.boolean()) r += d.chance(1, 10) ? "//" : "/";
	}
	return r;
}

} // namespace

PBT(components, 60000, 3000000) {
	const Parts p = genParts(d);
	const std::string text = p.text();
	d.note("uri ", pbt::show(text.substr(0, 300)), " length ", text.size());
	d.nontrivial(p.authority && (p.userinfo || p.port || p.query || p.fragment));
	// An exactly sized heap block, so that each byte read outside is seen.
	if (text.size() > INT16_MAX) {
		MUST_THROW(UriComponents{ std::string(text) }, Exception::InvalidUriException, "a URI beyond the length limit was accepted");
		return;
	}
	UriComponents c{ std::string(text) };
	checkComponents(c, p);
	UriComponents copy(c);
	checkComponents(copy, p);
	UriComponents other{ std::string("a:b") };
	CHECK(!(other == c) || text == "a:b", "different URIs are equal");
	other = c;
	checkComponents(other, p);
	CHECK(other == c, "a copy is not equal");
	UriComponents moved(std::move(copy));
	checkComponents(moved, p);
	UriComponents target{ std::string("http://u@h:1/p?q#f") };
	target = std::move(moved);
	checkComponents(target, p);
	checkComponents(c, p);
	using Balau::Resource::toString;
	CHECK(toString(c) == text, "toString");
	Http http{ std::string_view(text) };
	UriComponents fromUri{ http };
	checkComponents(fromUri, p);
}

PBT(arbitrary, 60000, 3000000) {
	std::string s;
	switch (d.draw(3)) {
		case 0: s = chars(d, 14, "aZ:/?#[]@.1+-", true); break;
		case 1: s = gen::bytes(d, 24); break;
		case 2: {
			s = genParts(d).text();
			if (s.size() > 400) s.resize(400);
			const size_t edits = 1 + d.upto(2);
			for (size_t i = 0; i < edits && !s.empty(); ++i) {
				const size_t at = d.upto(s.size() - 1);
				switch (d.draw(2)) {
					case 0: s.erase(at, 1); break;
					case 1: s.insert(at, 1, d.pick({ ':', '/', '?', '#', '[', ']', '@', '%', 'a', '7', ' ', '\0' })); break;
					default: s[at] = d.chance(1, 3) ? (char) d.draw(255) : d.pick({ ':', '/', '?', '#', '[', ']', '@', 'q', '1', '-' }); break;
				}
			}
			break;
		}
		default: s = "http://" + chars(d, 12, "a1:@/?#[]"); break;
	}
	d.note("text ", pbt::show(s));
	bool unsure = false;
	const auto expected = reference(s, unsure);
	std::optional<UriComponents> c;
	try {
		c.emplace(std::string(s));
	} catch (const Exception::InvalidUriException &) {
		CHECK(unsure || !expected, "a valid URI was refused");
		d.nontrivial(s.find("://") != std::string::npos);
		d.label("refused");
		return;
	}
	d.nontrivial(s.find("://") != std::string::npos);
	d.label(unsure ? "undecided" : "accepted");
	CHECK(unsure || expected, "an invalid URI was accepted: scheme " << pbt::show(c->scheme()) << " host " << pbt::show(c->host()) << " path " << pbt::show(c->path()));
	// The views are in order and inside the URI.
	const std::string & u = c->getUri();
	CHECK(u == s, "the URI has changed");
	const char * pos = u.data();
	const char * const end = u.data() + u.size();
	auto view = [&] (const char * what, bool present, std::string_view v) {
		if (!present) { CHECK(v.empty(), what << " of an absent component"); return; }
		CHECK(v.data() >= pos && v.size() <= (size_t) (end - v.data()) && v.data() <= end, what << " is not inside of the URI or out of order");
		pos = v.data() + v.size();
	};
	view("scheme", true, c->scheme());
	view("user info", c->hasUserInfo(), c->userInfo());
	view("host", c->hasHost(), c->host());
	view("path", true, c->path());
	view("query", c->hasQuery(), c->query());
	view("fragment", c->hasFragment(), c->fragment());
	CHECK(pos == end, "the components do not extend to the end of the URI");
	if (!unsure) checkComponents(*c, *expected);
}

PBT(normal_paths, 60000, 3000000) {
	const std::string path = genPath(d);
	d.note("path ", pbt::show(path));
	d.nontrivial(path.find("..") != std::string::npos);
	const std::unique_ptr<char[]> exact(new char[path.size()]);
	memcpy(exact.get(), path.data(), path.size());
	const std::string r = UriComponents::normalizePath(std::string_view(exact.get(), path.size()));
	CHECK(r == normalModel(path, true) || r == normalModel(path, false), "the normalised path is " << pbt::show(r) << ", not " << pbt::show(normalModel(path, true)));
	CHECK(UriComponents::normalizePath(r) == r, "normalising again gives " << pbt::show(UriComponents::normalizePath(r)));
}

PBT(urls, 20000, 600000) {
	Parts p;
	do p = genParts(d); while (p.text().size() > 1000);
	const bool https = d.boolean();
	p.scheme = https ? "https" : "http";
	if (!p.authority || p.host.empty()) { p.authority = true; p.host = "h.example"; if (!p.path.empty() && p.path[0] != '/') p.path = "/" + p.path; }
	const std::string text = p.text();
	std::unique_ptr<Uri> url;
	switch (d.draw(3)) {
		case 0: if (https) url.reset(new Https(std::string_view(text))); else url.reset(new Http(std::string_view(text))); break;
		case 1: if (https) url.reset(new Https(text.c_str())); else url.reset(new Http(text.c_str())); break;
		case 2: fromString(url, text); break;
		default: {
			std::unique_ptr<Uri> u;
			fromString(u, text);
			url = u->clone();
			CHECK(*url == *u && url->hashcode() == u->hashcode(), "a clone differs");
			break;
		}
	}
	d.note("url ", text);
	CHECK(url->toUriString() == text && url->toRawString() == text, "the URL is " << url->toUriString());
	CHECK((dynamic_cast<Http *>(url.get()) != nullptr) == !https && (dynamic_cast<Https *>(url.get()) != nullptr) == https, "wrong class");
	CHECK(!url->isRegularFile() && !url->isRegularDirectory() && !url->isIterable() && !url->isRecursivelyIterable() && url->canReadFrom() && !url->canWriteTo(), "capabilities");
	MUST_THROW(url->byteWriteResource(), Exception::NotImplementedException, "write resource of a URL");
	MUST_THROW(url->utf32To8WriteResource(), Exception::NotImplementedException, "write resource of a URL");
	MUST_THROW(url->iterator(), Exception::NotImplementedException, "iterator of a URL");
	MUST_THROW(url->recursiveIterator(), Exception::NotImplementedException, "recursive iterator of a URL");
	{
		std::unique_ptr<Uri> other;
		if (https) other.reset(new Http(std::string_view(text))); else other.reset(new Https(std::string_view(text)));
		CHECK(!(*url == *other) && !(*other == *url), "http and https URLs are equal");
		Http different(std::string_view(text + "x"));
		CHECK(!(*url == different), "different URLs are equal");
	}

	const std::string base = p.prefix();
	switch (d.draw(3)) {
		case 0: { // Append.
			const std::string component = "c" + chars(d, 6, unreserved + "%");
			d.note("append ", component);
			d.nontrivial();
			auto r = *&url / component;
			const std::string path = p.path + (p.path.empty() || p.path.back() != '/' ? "/" : "") + component;
			CHECK(r->toUriString() == base + path + p.suffix(), "appending gives " << r->toUriString());
			CHECK((dynamic_cast<Https *>(r.get()) != nullptr) == https, "wrong class after appending");
			break;
		}
		case 1: { // Absolute path.
			const std::string path = "/" + chars(d, 8, unreserved + "%/", true);
			const std::string padded = std::string(d.upto(1), ' ') + path + std::string(d.upto(1), ' ');
			d.note("resolve ", padded);
			d.nontrivial();
			auto r = UriResolve::resolve(*url, padded);
			CHECK(r && r->toUriString() == base + path, "resolving gives " << (r ? r->toUriString() : "nothing"));
			CHECK((dynamic_cast<Https *>(r.get()) != nullptr) == https, "wrong class after resolving");
			break;
		}
		case 2: { // Relative path.
			std::string path;
			const size_t n = 1 + d.size(4);
			bool dots = false;
			for (size_t i = 0; i < n; ++i) {
				if (i) path += "/";
				if (d.chance(1, 5)) { path += d.pick<std::string>({ "..", "." }); dots = true; }
				else path += "s" + chars(d, 4, unreserved + "%", true);
			}
			if (d.chance(1, 5)) path += "/";
			d.note("resolve ", path);
			d.nontrivial();
			auto r = UriResolve::resolve(*url, path);
			CHECK(r, "nothing");
			const size_t slash = p.path.rfind('/');
			const std::string expected = (slash == std::string::npos ? "/" : p.path.substr(0, slash + 1)) + path;
			const std::string got = r->toUriString();
			if (!dots) CHECK(got == base + expected, "resolving gives " << got << ", not " << base + expected);
			else {
				CHECK(got.compare(0, base.size(), base) == 0, "resolving gives " << got);
				CHECK(normalModel(got.substr(base.size()), false) == normalModel(expected, false), "resolving gives " << got << " where " << base + expected << " is expected");
			}
			CHECK((dynamic_cast<Https *>(r.get()) != nullptr) == https, "wrong class after resolving");
			break;
		}
		default: { // Another URI.
			const std::string scheme = d.pick<std::string>({ "http", "https" });
			const std::string full = scheme + "://other/" + chars(d, 5, unreserved);
			d.note("resolve ", full);
			d.nontrivial();
			auto r = UriResolve::resolve(*url, full);
			CHECK(r && r->toUriString() == full, "resolving gives " << (r ? r->toUriString() : "nothing"));
			CHECK((dynamic_cast<Https *>(r.get()) != nullptr) == (scheme == "https"), "wrong class after resolving");
			break;
		}
	}
}

