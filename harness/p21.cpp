// P21: logging configuration: each message reaches the stream its namespace, level and configuration determine, once.
#include "logcap.hpp"
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/Injector.hpp>

using namespace Balau;
using logcap::captures;

namespace {

const char * levelNames[] = { "error", "warn", "info", "debug", "trace" };

// The configuration of one namespace, as written.
struct Node {
	bool hasLevel = false, hasFormat = false, hasFlush = false;
	int level = 2;
	bool flush = true;
	std::string levelText, flushText, format;
	std::map<std::string, std::string> streams; // "" for the option without level
};

using Config = std::map<std::string, Node>; // "" is the root

std::string parentOf(const std::string & ns) { auto p = ns.rfind('.'); return p == std::string::npos ? "" : ns.substr(0, p); }

// What applies to a namespace.
struct Effective { int level; bool flush; std::string format; std::string stream[5]; };

Config defaults() {
	Config c;
	auto & n = c[""];
	n.hasLevel = n.hasFormat = true;
	n.format = "%Y-%m-%d %H:%M:%S [%thread] %LEVEL - %namespace - %message";
	n.streams = { { "warn", "stdout" }, { "error", "stderr" } };
	return c;
}

Effective effective(const Config & configured, const std::string & nameSpace) {
	Config c = configured;
	const Node root = defaults()[""];
	Node & r = c[""];
	if (!r.hasLevel) { r.hasLevel = true; r.level = root.level; }
	if (!r.hasFormat) { r.hasFormat = true; r.format = root.format; }
	if (r.streams.empty()) r.streams = root.streams;
	const Node * level = nullptr, * format = nullptr, * flush = nullptr, * streams = nullptr;
	for (std::string ns = nameSpace; ; ns = parentOf(ns)) {
		auto i = c.find(ns);
		if (i != c.end()) {
			if (!level && i->second.hasLevel) level = &i->second;
			if (!format && i->second.hasFormat) format = &i->second;
			if (!flush && i->second.hasFlush) flush = &i->second;
			if (!streams && !i->second.streams.empty()) streams = &i->second;
		}
		if (ns.empty()) break;
	}
	Effective e;
	e.level = level->level;
	e.format = format->format;
	e.flush = !flush || flush->flush;
	auto & s = streams->streams;
	for (int l = 0; l < 5; ++l) {
		std::vector<std::string> order { levelNames[l], "" };
		for (int down = l - 1; down >= 0; --down) order.push_back(levelNames[down]);
		for (int up = l + 1; up < 5; ++up) order.push_back(levelNames[up]);
		for (auto & o : order) if (s.count(o)) { e.stream[l] = s.at(o); break; }
	}
	return e;
}

std::string genNamespace(pbt::Data & d) {
	// Few names: every logger that was ever requested is configured again each time.
	static const std::vector<std::string> first { "a", "b", "ab", "A", "b_1" }, ids { "a", "b", "ab" };
	std::string r = d.pick(first);
	for (size_t n = d.weighted({ 2, 3, 2 }); n > 0; --n) r += "." + d.pick(ids);
	return r;
}

std::string genCase(pbt::Data & d, std::string s) {
	switch (d.upto(3)) {
		case 0: break;
		case 1: for (auto & c : s) c = (char) toupper(c); break;
		case 2: s[0] = (char) toupper(s[0]); break;
		default: for (auto & c : s) if (d.boolean()) c = (char) toupper(c);
	}
	return s;
}

struct Files {
	std::map<std::string, std::string> content; // by path
};

// Spells a file path, at times through the placeholders.
std::string genStream(pbt::Data & d, Files & files, std::vector<std::string> & fileUris) {
	switch (d.weighted({ 12, 1, 1, 1 })) {
		case 1: return "stdout";
		case 2: return "stderr";
		case 3: {
			if (!d.chance(1, 4)) return "cap:f";
			const std::string path = gen::scratch() + "/logs" + (d.boolean() ? "/sub/deep" : "") + "/l" + std::to_string(d.upto(7)) + ".log";
			(void) files;
			fileUris.push_back(path);
			return "file://" + path;
		}
		default: return "cap:" + std::to_string(d.upto(5)) + (d.boolean() ? "" : "/x");
	}
}

Config genConfig(pbt::Data & d, Files & files, std::vector<std::string> & fileUris, const std::vector<std::string> & spaces) {
	Config c;
	const size_t n = d.size(6);
	for (size_t i = 0; i < n; ++i) {
		const std::string ns = d.chance(1, 3) || (i == 0 && d.chance(1, 2)) ? "" : !spaces.empty() && d.boolean() ? d.pick(spaces) : genNamespace(d);
		if (c.count(ns)) continue;
		Node & node = c[ns];
		if (d.chance(2, 3)) {
			node.hasLevel = true;
			const int k = (int) d.upto(6);
			if (k == 6) node.level = 2;
			else node.level = k == 5 ? -1 : k;
			node.levelText = k == 6 ? "loud" : genCase(d, k == 5 ? "none" : levelNames[k]);
		}
		if (d.chance(1, 2)) {
			node.hasFormat = true;
			node.format = "f" + std::to_string(d.upto(4)) + d.pick<std::string>({ " %level %namespace %message", " %message", "[%LEVEL] %message", " %ns: %message end" });
		}
		if (d.chance(1, 3)) { node.hasFlush = true; node.flush = d.boolean(); node.flushText = node.flush ? "true" : "false"; }
		const size_t streams = d.weighted({ 3, 3, 2, 1 });
		for (size_t k = 0; k < streams; ++k) {
			const size_t which = d.upto(5);
			node.streams[which == 5 ? "" : levelNames[which]] = genStream(d, files, fileUris);
		}
	}
	return c;
}

using Properties = std::vector<std::pair<std::string, std::string>>;

Properties properties(const Node & n) {
	Properties r;
	if (n.hasLevel) r.emplace_back("level", n.levelText);
	if (n.hasFormat) r.emplace_back("format", n.format);
	if (n.hasFlush) r.emplace_back("flush", n.flushText);
	for (auto & s : n.streams) r.emplace_back(s.first.empty() ? "stream" : s.first + "-stream", s.second);
	return r;
}

// Replaces a part of the text by a placeholder.
std::string withPlaceholder(pbt::Data & d, const std::string & text, std::map<std::string, std::string> & placeholders) {
	if (text.size() < 2) return text;
	const size_t from = d.upto(text.size() - 1), len = 1 + d.upto(text.size() - from - 1);
	const std::string part = text.substr(from, len), name = "p" + std::to_string(placeholders.size());
	if (part.front() == ' ' || part.back() == ' ') return text;
	placeholders[name] = part;
	return text.substr(0, from) + "${" + name + "}" + text.substr(from + len);
}

std::string render(pbt::Data & d, const Config & c, std::map<std::string, std::string> & placeholders, bool include) {
	std::vector<std::string> order;
	for (auto & n : c) order.push_back(n.first);
	for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[d.upto(i - 1)]);
	std::string text, included;
	for (auto & ns : order) {
		auto props = properties(c.at(ns));
		for (size_t i = props.size(); i > 1; --i) std::swap(props[i - 1], props[d.upto(i - 1)]);
		const bool away = include && d.boolean();
		std::string & out = away ? included : text;
		if (d.chance(1, 6)) out += "# comment\n";
		const std::string ind = d.boolean() ? "\t" : "";
		out += ind + (ns.empty() ? "." : ns) + " {\n";
		for (auto & p : props) {
			std::string v = p.second;
			if (!away && d.chance(1, 6)) v = withPlaceholder(d, v, placeholders);
			const bool quotable = p.first != "level" && p.first != "flush";
			if (quotable && d.chance(1, 3)) v = "\"" + v + "\"";
			out += ind + "\t" + p.first + d.pick<std::string>({ " = ", " : ", "=", " " }) + v + "\n";
		}
		out += ind + "}\n";
	}
	if (include) {
		const std::string path = gen::scratch() + "/included.hconf";
		std::ofstream(path) << included;
		text = (d.boolean() ? text + "@file://" + path + "\n" : "@file://" + path + "\n" + text);
	}
	return text;
}

std::shared_ptr<EnvironmentProperties> environment(const Config & c, const std::string & text) {
	std::string types = "logging {\n";
	for (auto & n : c) {
		types += "\t" + (n.first.empty() ? std::string(".") : n.first) + " {\n";
		for (auto & p : properties(n.second)) types += "\t\t" + p.first + " : " + (p.first == "flush" ? "boolean" : "string") + "\n";
		types += "\t}\n";
	}
	types += "}\n";
	struct Conf : EnvironmentConfiguration {
		Conf(std::shared_ptr<Resource::Uri> i, std::shared_ptr<Resource::Uri> t) : EnvironmentConfiguration(i, t) {}
		void configure() const override {}
	};
	auto input = std::shared_ptr<Resource::Uri>(new Resource::StringUri("logging {\n" + text + "}\n"));
	auto spec = std::shared_ptr<Resource::Uri>(new Resource::StringUri(types));
	Conf conf(input, spec);
	auto injector = Injector::create(conf);
	return injector->getShared<EnvironmentProperties>("logging");
}

std::string abbreviate(const std::string & ns) {
	std::string r;
	size_t from = 0;
	for (size_t p = ns.find('.'); p != std::string::npos; p = ns.find('.', from)) { r += ns.substr(from, 1) + "."; from = p + 1; }
	return r + ns.substr(from);
}

std::string formatted(const Effective & e, int level, const std::string & ns, const std::string & message) {
	std::string r = e.format, up = levelNames[level];
	for (auto & c : up) c = (char) toupper(c);
	auto put = [&] (const std::string & key, const std::string & v) { auto p = r.find(key); if (p != std::string::npos) r = r.substr(0, p) + v + r.substr(p + key.size()); };
	put("%level", levelNames[level]); put("%LEVEL", up); put("%namespace", ns); put("%ns", abbreviate(ns)); put("%message", message);
	return r + "\n";
}

std::string slurp(const std::string & path) { std::ifstream f(path, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }

} // namespace

PBT(routing, 20000, 400000, PBT_FRESH) {
	logcap::registerStreams();
	logcap::Standard standard;
	Files files;
	for (auto & p : { "/logs", "/logs/sub", "/logs/sub/deep" })
		if (d.chance(1, 3)) mkdir((gen::scratch() + p).c_str(), 0700);
	Logger::configure(std::string());
	logcap::clearCaptures();
	standard.out.str(""); standard.err.str("");

	Config current;
	std::map<std::string, Logger *> loggers;
	std::vector<std::string> spaces;
	size_t serial = 0, delivered = 0, reconfigured = 0;
	bool inherited = false;

	// Where a stream's text is and how much of it there is.
	auto sizes = [&] (const std::vector<std::string> & paths) {
		std::map<std::string, std::string> r;
		for (auto & c : captures()) { std::string all; for (auto & w : c.second->writes) all += w; r[c.first] = all; }
		r["stdout"] = standard.out.str();
		r["stderr"] = standard.err.str();
		for (auto & p : paths) r["file://" + p] = slurp(p);
		return r;
	};
	std::vector<std::string> paths;

	auto logOne = [&] (const std::string & ns, Logger & l, int level, int form) {
		const Effective e = effective(current, ns);
		const std::string id = "m" + std::to_string(serial++);
		bool fileTarget = e.stream[level].compare(0, 5, "file:") == 0;
		if (!paths.empty()) Logger::flushAll();
		auto before = sizes(paths);
		std::map<std::string, size_t> flushes;
		for (auto & c : captures()) flushes[c.first] = c.second->flushes;
		int called = 0;
		std::function<std::string ()> f = [&] () { ++called; return id; };
		const auto lv = (LoggingLevel) level;
		switch (form) {
			case 0: switch (level) { case 0: l.error(id.c_str()); break; case 1: l.warn(id.c_str()); break; case 2: l.info(id.c_str()); break; case 3: l.debug(id.c_str()); break; default: l.trace(id.c_str()); } break;
			case 1: switch (level) { case 0: l.error("{}", id); break; case 1: l.warn("{}", id); break; case 2: l.info("{}", id); break; case 3: l.debug("{}", id); break; default: l.trace("{}", id); } break;
			case 2: switch (level) { case 0: l.error(f); break; case 1: l.warn(f); break; case 2: l.info(f); break; case 3: l.debug(f); break; default: l.trace(f); } break;
			case 3: l.log(lv, std::string_view(id)); break;
			case 4: l.log(lv, f); break;
			default: switch (level) { case 0: BalauLogError(l, "{}", id); break; case 1: BalauLogWarn(l, id); break; case 2: BalauLogInfo(l, "{}", id); break; case 3: BalauLogDebug(l, id); break; default: BalauLogTrace(l, f); } break;
		}
		const bool enabled = level <= e.level;
		if (form == 2 || form == 4) CHECK(called == (enabled ? 1 : 0), "the message function of a" << (enabled ? "n enabled" : " disabled") << " level was called " << called << " times");
		if (fileTarget && enabled && !e.flush) l.flush();
		auto after = sizes(paths);
		for (auto & a : after) {
			const std::string & was = before[a.first];
			if (enabled && a.first == e.stream[level]) {
				CHECK(a.second.compare(0, was.size(), was) == 0, a.first << " lost text");
				const std::string got = a.second.substr(was.size());
				if (e.format[0] == 'f') {
					const std::string want = formatted(e, level, ns, id);
					CHECK(got == want, "logging " << id << " at " << levelNames[level] << " in " << pbt::show(ns) << ": " << a.first << " received " << pbt::show(got) << ", expected " << pbt::show(want));
				} else {
					std::string tail = " " + std::string(levelNames[level]) + " - " + ns + " - " + id + "\n";
					for (size_t i = 1; i < 1 + strlen(levelNames[level]); ++i) tail[i] = (char) toupper(tail[i]);
					CHECK(got.size() > tail.size() + 20 && got.compare(got.size() - tail.size(), tail.size(), tail) == 0 && got.find('\n') == got.size() - 1, a.first << " received " << pbt::show(got) << ", expected ..." << pbt::show(tail));
				}
				++delivered;
			} else CHECK(a.second == was, "logging " << id << " at " << levelNames[level] << " in " << pbt::show(ns) << ": " << a.first << " received " << pbt::show(a.second.substr(std::min(was.size(), a.second.size()))) << " but " << (enabled ? e.stream[level] + " is configured" : "the level is disabled"));
		}
		if (!fileTarget) for (auto & c : captures()) {
			const bool target = enabled && c.first == e.stream[level];
			const size_t delta = c.second->flushes - flushes[c.first];
			CHECK(target && e.flush ? delta >= 1 : delta == 0, c.first << " was flushed " << delta << " times");
		}
	};
	auto inspect = [&] (const std::string & ns, Logger & l) {
		const Effective e = effective(current, ns);
		CHECK((int) l.getLevel() == e.level, pbt::show(ns) << " has level " << (int) l.getLevel() << ", expected " << e.level);
		CHECK(l.flushes() == e.flush, pbt::show(ns) << " flushes: " << l.flushes());
		CHECK(l.getNamespace() == ns, "namespace " << pbt::show(l.getNamespace()) << " of " << pbt::show(ns));
		CHECK(l.errorEnabled() == (e.level >= 0) && l.warnEnabled() == (e.level >= 1) && l.infoEnabled() == (e.level >= 2) && l.debugEnabled() == (e.level >= 3) && l.traceEnabled() == (e.level >= 4), "enabled levels of " << pbt::show(ns));
		for (int k = 0; k < 5; ++k) CHECK(l.enabled((LoggingLevel) k) == (k <= e.level), "enabled " << levelNames[k]);
		if (!current.count(ns)) inherited = true;
	};

	const size_t steps = 3 + d.size(14);
	for (size_t s = 0; s < steps; ++s) switch (d.weighted({ 3, 3, 6, 1, 1, 1 })) {
		case 0: {
			const std::string ns = d.chance(1, 8) ? "" : d.boolean() && !current.empty() ? std::next(current.begin(), (long) d.upto(current.size() - 1))->first : genNamespace(d);
			Logger & l = ns.empty() ? (d.boolean() ? Logger::globalLogger() : d.boolean() ? Logger::getLogger(".") : Logger::getLogger("")) : Logger::getLogger(ns);
			d.note("get ", ns);
			if (loggers.count(ns)) CHECK(loggers[ns] == &l, "getLogger returned another logger for " << pbt::show(ns));
			else { loggers[ns] = &l; spaces.push_back(ns); }
			inspect(ns, l);
			break;
		}
		case 1: {
			std::vector<std::string> fileUris;
			Config next = genConfig(d, files, fileUris, spaces);
			for (auto & p : fileUris) if (std::find(paths.begin(), paths.end(), p) == paths.end()) paths.push_back(p);
			std::map<std::string, std::string> placeholders;
			const bool viaEnvironment = d.chance(1, 3) && !next.empty();
			const std::string text = render(d, next, placeholders, !viaEnvironment && d.chance(1, 8));
			d.note(viaEnvironment ? "configure (environment):\n" : "configure:\n", text);
			for (auto & p : placeholders) d.note("with ", p.first, " = ", p.second);
			auto old = sizes(paths);
			if (viaEnvironment) {
				bool usable = true; // environment properties need at least one value per namespace
				for (auto & n : next) if (properties(n.second).empty()) usable = false;
				for (auto & n : next) if (n.second.hasFlush && text.find("flush") == std::string::npos) usable = false;
				for (auto & p : placeholders) if (p.second == "true" || p.second == "false" || std::string("true").find(p.second) != std::string::npos || std::string("false").find(p.second) != std::string::npos) usable = false;
				if (!usable) break;
				Logger::configure(environment(next, text), placeholders);
				d.label("environment");
			} else Logger::configure(text, placeholders);
			for (auto & p : paths) CHECK(slurp(p) == old["file://" + p], "configuring changed the content of a log file");
			current = next;
			if (!paths.empty()) d.label("files");
			if (!placeholders.empty()) d.label("placeholders");
			standard.out.str(""); standard.err.str("");
			++reconfigured;
			for (auto & l : loggers) inspect(l.first, *l.second);
			break;
		}
		case 2: {
			if (loggers.empty()) break;
			auto it = std::next(loggers.begin(), (long) d.upto(loggers.size() - 1));
			const int only = (int) d.upto(5);
			d.note("log in ", it->first);
			for (int level = 0; level < 5; ++level) if (only == 5 || only == level) logOne(it->first, *it->second, level, (int) d.upto(5));
			break;
		}
		case 3: {
			// A configuration that cannot be applied leaves everything as it was.
			std::vector<std::string> fileUris;
			Files none;
			Config next = genConfig(d, none, fileUris, spaces);
			for (auto & n : next) for (auto & st : n.second.streams) if (st.second.compare(0, 5, "file:") == 0) st.second = "cap:5";
			std::map<std::string, std::string> placeholders;
			std::string text = render(d, next, placeholders, false);
			switch (d.upto(3)) {
				case 0: text += "q {\n\tstream = refuse:x\n}\n"; break;
				case 1: text += "q {\n\tstream = file://" + gen::scratch() + "\n}\n"; break;
				case 2: { std::ofstream(gen::scratch() + "/plain") << "x"; text += "q {\n\tstream = file://" + gen::scratch() + "/plain/below.log\n}\n"; break; }
				default: text += "q {\n\tlevel = info\n"; break;
			}
			d.note("configure, must fail:\n", text);
			bool threw = false;
			try { Logger::configure(text, placeholders); } catch (const std::exception &) { threw = true; }
			CHECK(threw, "a configuration that cannot be applied was accepted");
			standard.out.str(""); standard.err.str("");
			d.label("failing");
			for (auto & l : loggers) inspect(l.first, *l.second);
			break;
		}
		case 4: {
			d.note("reset");
			if (d.boolean()) Logger::resetConfiguration(); else Logger::configure(std::string());
			current = Config();
			++reconfigured;
			for (auto & l : loggers) inspect(l.first, *l.second);
			break;
		}
		default: {
			std::map<std::string, size_t> flushes;
			for (auto & c : captures()) flushes[c.first] = c.second->flushes;
			if (loggers.empty() || d.boolean()) {
				d.note("flush all");
				Logger::flushAll();
				for (auto & c : captures()) CHECK(c.second->flushes > flushes[c.first], c.first << " was not flushed by flushAll");
			} else {
				auto it = std::next(loggers.begin(), (long) d.upto(loggers.size() - 1));
				d.note("flush ", it->first);
				it->second->flush();
				const Effective e = effective(current, it->first);
				for (auto & c : captures()) {
					const bool own = std::find(std::begin(e.stream), std::end(e.stream), c.first) != std::end(e.stream);
					CHECK(own == (c.second->flushes > flushes[c.first]), c.first << (own ? " was not flushed" : " was flushed"));
				}
			}
		}
	}
	if (delivered >= 2 && reconfigured && inherited) d.nontrivial();
	if (reconfigured > 1) d.label("reconfigured");
}
