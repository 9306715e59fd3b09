// P22: log lines: the line written for a message is its format specification with every specifier replaced.
#include "logcap.hpp"
#include <Balau/System/ThreadName.hpp>
#include <thread>

using namespace Balau;
using logcap::captures;

namespace {

const char * lower[] = { "error", "warn", "info", "debug", "trace" };
const char * upper[] = { "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
const std::vector<std::string> specs {
	"%message", "%level", "%LEVEL", "%namespace", "%ns", "%thread", "%filename", "%filepath", "%Y", "%y", "%m", "%d", "%H", "%M", "%S", "%%", "%\""
};

struct Token { bool spec; std::string text; };

// One parameter of a message.
struct Param {
	int kind = 0;
	long long i = 0;
	unsigned long long u = 0;
	bool b = false;
	char c = 'x';
	std::string s;
	std::string expected;
};

Param genParam(pbt::Data & d) {
	Param p;
	p.kind = (int) d.upto(3);
	switch (p.kind) {
		case 0: p.i = d.chance(1, 4) ? d.pick<long long>({ INT64_MIN, INT64_MAX, -1 }) : (long long) d.upto(100000) - 500; p.expected = std::to_string(p.i); break;
		case 1: p.b = d.boolean(); p.expected = p.b ? "true" : "false"; break;
		case 2: p.c = (char) d.range(0x20, 0x7E); p.expected = std::string(1, p.c); break;
		default:
			p.s = d.chance(1, 8) ? gen::bytes(d, 20) : gen::encode(gen::text32(d, 12));
			if (d.chance(1, 6)) p.s += "{}";
			if (d.chance(1, 8)) p.s += std::string(1, '\0') + "after";
			if (d.chance(1, 20)) p.s += std::string(d.upto(30000), 'z');
			p.expected = p.s;
	}
	return p;
}

template <typename F> void withParam(const Param & p, F f) {
	switch (p.kind) {
		case 0: f(p.i); break;
		case 1: f(p.b); break;
		case 2: f(p.c); break;
		default: f(p.s);
	}
}

template <typename F> void withParams(const std::vector<Param> & p, F f) {
	switch (p.size()) {
		case 1: withParam(p[0], [&] (auto & a) { f(a); }); break;
		case 2: withParam(p[0], [&] (auto & a) { withParam(p[1], [&] (auto & b) { f(a, b); }); }); break;
		default: withParam(p[0], [&] (auto & a) { withParam(p[1], [&] (auto & b) { f(a, b, p[2].expected); }); });
	}
}

// Calls the level's method, or log() with the level.
template <typename ... A> void call(Logger & l, int level, bool generic, const A & ... a) {
	if (generic) { l.log((LoggingLevel) level, a ...); return; }
	switch (level) {
		case 0: l.error(a ...); break;
		case 1: l.warn(a ...); break;
		case 2: l.info(a ...); break;
		case 3: l.debug(a ...); break;
		default: l.trace(a ...);
	}
}

std::string abbreviate(const std::string & ns) {
	std::string r;
	size_t from = 0;
	for (size_t p = ns.find('.'); p != std::string::npos; p = ns.find('.', from)) { r += ns.substr(from, 1) + "."; from = p + 1; }
	return r + ns.substr(from);
}

struct Stamp {
	timespec t;
	tm f;
	Stamp() { clock_gettime(CLOCK_REALTIME, &t); gmtime_r(&t.tv_sec, &f); }
	std::string get(char c) const { char b[16]; const char form[] = { '%', c, 0 }; strftime(b, sizeof b, form, &f); return b; }
	double second() const { return f.tm_sec + (double) t.tv_nsec * 1e-9; }
};

} // namespace

PBT(lines, 40000, 800000, PBT_FRESH) {
	logcap::registerStreams();
	std::vector<Token> tokens;
	const size_t n = 1 + d.size(9);
	const bool withMessage = d.chance(5, 6);
	std::string text;
	for (size_t i = 0; i < n; ++i) {
		if (d.chance(3, 5)) tokens.push_back({ true, d.chance(1, 4) ? "%message" : d.pick(specs) });
		else {
			std::string t;
			switch (d.weighted({ 6, 2, 1, 1 })) {
				case 0: t = d.pick<std::string>({ " ", " - ", "[", "]", " | ", ":", "--", "  " }); break;
				case 1: t = d.pick<std::string>({ " level ", " message", " ns", " Ymd" }); break;
				case 2: t = " " + std::string("\xC3\xA9\xE2\x82\xAC"); break;
				default: t = d.pick<std::string>({ " %q ", " %-", " %Z.", " %" }); if (t == " %" && i + 1 < n) t = " %. ";
			}
			tokens.push_back({ false, t });
		}
	}
	if (withMessage) tokens.push_back({ true, "%message" });
	// A literal never continues the specifier before it.
	for (size_t i = 0; i + 1 < tokens.size(); ++i) if (!tokens[i].spec && tokens[i].text.back() == '%') tokens[i].text += ".";
	for (auto & t : tokens) text += t.text;

	std::string ns = d.pick<std::string>({ "", "app", "a.bc.def", "com.example.Thing", "x.y", "a.b.c.d.e" });
	const int level = (int) d.upto(4);
	const std::string config = ". {\n\tformat = \"" + text + "\"\n\tstream = cap:lines\n\tlevel = trace\n}\n";
	d.note(config);
	const bool before = d.boolean();
	if (before) Logger::getLogger(ns);
	Logger::configure(config);
	Logger & l = Logger::getLogger(ns);

	std::string threadName;
	if (d.boolean()) { threadName = d.pick<std::string>({ "main", "worker 7", "\xC3\xA9" }); System::ThreadName::setName(d.boolean() ? threadName : "  " + threadName + " "); }

	const size_t messages = 1 + d.upto(3);
	for (size_t m = 0; m < messages; ++m) {
		std::string pattern, message;
		std::vector<Param> params;
		const int form = (int) d.upto(4); // const char *, string_view, function, parameters (const char *, string_view)
		const bool parametrised = form >= 3;
		const size_t given = parametrised ? 1 + d.upto(2) : 0;
		for (size_t i = 0; i < given; ++i) params.push_back(genParam(d));
		if (params.size() == 3 && params[2].kind != 3) params[2].kind = 3, params[2].s = params[2].expected;
		size_t placeholders = 0;
		const size_t pieces = d.size(7);
		for (size_t i = 0; i < pieces; ++i) {
			if (d.chance(2, 5)) {
				pattern += "{}";
				if (!parametrised) message += "{}";
				else message += placeholders < params.size() ? params[placeholders].expected : "????";
				++placeholders;
			} else {
				std::string t;
				switch (d.weighted({ 6, 2, 1, 1, 1 })) {
					case 0: t = gen::ident(d, 8); break;
					case 1: t = gen::encode(gen::text32(d, 8)); t.erase(std::remove(t.begin(), t.end(), '{'), t.end()); break;
					case 2: t = d.pick<std::string>({ "}", "{x", "{ }", "a{b}c", "}}" }); break;
					case 3: t = d.pick<std::string>({ "%message", "%d %s", "\\n", "\n", "\"", "${x}" }); break;
					default: t = std::string(d.upto(d.chance(1, 10) ? 20000 : 200), 'q');
				}
				if (form == 1 || form == 2 || form == 4) if (d.chance(1, 10)) t += std::string(1, '\0') + "n";
				pattern += t;
				message += t;
			}
		}
		if (d.chance(1, 12)) { pattern += "{"; message += "{"; }
		if (form == 0 || form == 3) { pattern = pattern.c_str(); }
		const bool generic = d.boolean(), located = d.boolean();
		static const char * places[] = { "/src/some/File.cpp:17", "File.hpp:3", "/a b/\xC3\xA9.cpp:123456", "../x/y.z.cpp:1" };
		const char * place = located ? places[d.upto(3)] : nullptr;
		const SourceCodeLocation where(place);
		d.note("message ", pbt::show(pattern.substr(0, 300)), " form ", form, generic ? " log" : "", located ? " located" : "");
		for (auto & p : params) d.note("  parameter ", pbt::show(p.expected.substr(0, 200)));

		auto * stream = captures()["cap:lines"];
		stream->writes.clear();
		std::string id;
		Stamp t0;
		auto perform = [&] () {
			std::ostringstream o;
			o << std::this_thread::get_id();
			id = System::ThreadName::getName().empty() ? o.str() : threadName;
			switch (form) {
				case 0: if (located) call(l, level, generic, where, pattern.c_str()); else call(l, level, generic, pattern.c_str()); break;
				case 1: if (located) call(l, level, generic, where, std::string_view(pattern)); else call(l, level, generic, std::string_view(pattern)); break;
				case 2: {
					std::function<std::string ()> f = [&] () { return pattern; };
					if (located) call(l, level, generic, where, f); else call(l, level, generic, f);
					break;
				}
				default: withParams(params, [&] (auto & ... a) {
					if (form == 3) { if (located) call(l, level, generic, where, pattern.c_str(), a ...); else call(l, level, generic, pattern.c_str(), a ...); }
					else { if (located) call(l, level, generic, where, std::string_view(pattern), a ...); else call(l, level, generic, std::string_view(pattern), a ...); }
				});
			}
		};
		const bool elsewhere = d.chance(1, 5);
		if (elsewhere) { std::thread t(perform); t.join(); } else perform();
		Stamp t1;
		CHECK(stream->writes.size() == 1, "one message led to " << stream->writes.size() << " writes");
		const std::string & line = stream->writes[0];
		size_t at = 0;
		auto expect = [&] (const std::string & a, const std::string & b, const std::string & what) {
			if (line.compare(at, a.size(), a) == 0) at += a.size();
			else if (line.compare(at, b.size(), b) == 0) at += b.size();
			else FAIL(what << ": the line continues with " << pbt::show(line.substr(at, 400)) << ", expected " << pbt::show(a.substr(0, 400)));
		};
		for (auto & t : tokens) {
			if (!t.spec) { expect(t.text, t.text, "text"); continue; }
			if (t.text == "%message") expect(message, message, "message");
			else if (t.text == "%level") expect(lower[level], lower[level], "level");
			else if (t.text == "%LEVEL") expect(upper[level], upper[level], "level");
			else if (t.text == "%namespace") expect(ns, ns, "namespace");
			else if (t.text == "%ns") expect(abbreviate(ns), abbreviate(ns), "abbreviated namespace");
			else if (t.text == "%thread") expect(id, id, "thread");
			else if (t.text == "%%") expect("%", "%", "percent");
			else if (t.text == "%\"") expect("\"", "\"", "quotation mark");
			else if (t.text == "%filepath") { const std::string p = located ? place : ""; expect(p, p, "file path"); }
			else if (t.text == "%filename") { std::string p = located ? place : ""; if (p.find('/') != std::string::npos) p = p.substr(p.rfind('/') + 1); expect(p, p, "file name"); }
			else if (t.text == "%S") {
				size_t end = at;
				while (end < line.size() && isdigit((unsigned char) line[end])) ++end;
				CHECK(end == at + 2 && end < line.size() && line[end] == '.', "seconds " << pbt::show(line.substr(at, 20)));
				size_t fraction = end + 1;
				for (end = fraction; end < fraction + 9 && end < line.size() && isdigit((unsigned char) line[end]); ++end) {}
				CHECK(end - fraction >= 6, "fraction of a second " << pbt::show(line.substr(at, 20)));
				const double s = atof(line.substr(at, end - at).c_str()), a = t0.second(), b = t1.second();
				CHECK(a <= b ? s >= a - 2e-6 && s <= b + 2e-6 : s >= a - 2e-6 || s <= b + 2e-6, "seconds " << s << " not between " << a << " and " << b);
				at = end;
			} else { const char c = t.text[1]; expect(t0.get(c), t1.get(c), t.text); }
		}
		expect("\n", "\n", "end of line");
		CHECK(at == line.size(), "the line goes on: " << pbt::show(line.substr(at, 200)));
		if (parametrised && placeholders && tokens.size() > 2) d.nontrivial();
		if (parametrised && placeholders > params.size()) d.label("too few parameters");
		if (parametrised && placeholders < params.size()) d.label("too many parameters");
		if (located) d.label("located");
	}
}
