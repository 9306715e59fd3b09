// P23: concurrent logging: with threads logging, requesting loggers, flushing and reconfiguring, no line is lost, duplicated, torn or misrouted.
#include "logcap.hpp"
#include <atomic>
#include <thread>

using namespace Balau;
using logcap::captures;

namespace {

struct Conf { std::string tag, stream; int level; bool flush; bool split; std::string subTag, subStream; int subLevel; };

struct Sent { std::string ns, id; int level; size_t from, to; };

struct Got { std::string tag, stream; size_t index; };

std::string text(const Conf & c) {
	static const char * levels[] = { "error", "warn", "info", "debug", "trace" };
	auto node = [&] (const std::string & name, const std::string & tag, const std::string & stream, int level) {
		return name + " {\n\tlevel = " + levels[level] + "\n\tformat = <" + tag + "|%namespace|%LEVEL|%message>\n\tstream = " + stream + "\n\tflush = " + (c.flush ? "true" : "false") + "\n}\n";
	};
	std::string r = node(".", c.tag, c.stream, c.level);
	if (c.split) r += node("sub", c.subTag, c.subStream, c.subLevel);
	return r;
}

bool below(const std::string & ns) { return ns == "sub" || ns.compare(0, 4, "sub.") == 0; }

} // namespace

PBT(logging, 4000, 60000, PBT_CONCURRENT | PBT_FRESH) {
	logcap::registerStreams();
	static const char * upper[] = { "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
	static const std::vector<std::string> spaces { "sub", "", "sub.one", "other", "other.two", "sub.one.deep" };
	const size_t threads = 1 + d.upto(3), reconfigurations = d.size(5);
	const std::string file = "file://" + gen::scratch() + "/concurrent.log";
	std::vector<Conf> confs;
	for (size_t i = 0; i <= reconfigurations; ++i) {
		auto stream = [&] () { return d.chance(1, 6) ? file : "cap:" + std::to_string(d.upto(3)); };
		Conf c { "t" + std::to_string(i), stream(), (int) d.range(1, 4), d.boolean(), d.boolean(), "u" + std::to_string(i), "", 4 };
		c.subStream = stream();
		c.subLevel = (int) d.range(1, 4);
		confs.push_back(c);
		d.note(text(c));
	}
	struct Step { int kind, level, pause; std::string ns; };
	std::vector<std::vector<Step>> plans(threads);
	for (size_t t = 0; t < threads; ++t) {
		const size_t n = 1 + d.size(30);
		for (size_t i = 0; i < n; ++i) plans[t].push_back({ (int) d.weighted({ 12, 2, 1, 1 }), (int) d.upto(4), d.chance(1, 6) ? (int) d.upto(80) : 0, d.pick(spaces) });
		d.note("thread ", t, ": ", n, " steps");
	}
	std::vector<int> pauses;
	for (size_t i = 0; i < reconfigurations; ++i) pauses.push_back((int) d.upto(300));
	unlink((gen::scratch() + "/concurrent.log").c_str());

	Logger::configure(text(confs[0]));
	std::map<std::string, Logger *> known;
	for (auto & s : spaces) if (d.boolean()) known[s] = &Logger::getLogger(s);
	std::atomic<size_t> started { 0 }, finished { 0 };
	std::atomic<int> ready { 0 };
	std::vector<std::vector<Sent>> sent(threads);
	std::vector<std::map<std::string, Logger *>> found(threads);
	std::vector<std::thread> workers;
	for (size_t t = 0; t < threads; ++t) workers.emplace_back([&, t] () {
		++ready;
		while (ready.load() <= (int) threads) std::this_thread::yield();
		auto loggers = known;
		size_t serial = 0;
		for (auto & s : plans[t]) {
			if (s.pause) usleep((useconds_t) s.pause);
			if (s.kind == 1 || !loggers.count(s.ns)) {
				Logger * l = &Logger::getLogger(s.ns);
				if (!found[t].count(s.ns)) found[t][s.ns] = l; else if (found[t][s.ns] != l) found[t][s.ns] = nullptr;
				loggers[s.ns] = l;
			}
			Logger & l = *loggers[s.ns];
			if (s.kind == 2) { l.flush(); continue; }
			if (s.kind == 3) { Logger::flushAll(); continue; }
			Sent m { s.ns, "m" + std::to_string(t) + "." + std::to_string(serial++), s.level, 0, 0 };
			m.from = finished.load();
			l.log((LoggingLevel) s.level, "{}", m.id);
			m.to = started.load();
			sent[t].push_back(m);
		}
	});
	while (ready.load() < (int) threads) std::this_thread::yield();
	++ready;
	for (size_t i = 1; i < confs.size(); ++i) {
		if (pauses[i - 1]) usleep((useconds_t) pauses[i - 1]);
		started.store(i);
		Logger::configure(text(confs[i]));
		finished.store(i);
	}
	for (auto & w : workers) w.join();
	for (auto & s : spaces) {
		Logger & l = Logger::getLogger(s);
		for (auto & f : found) if (f.count(s)) CHECK(f[s] == &l, "the threads received different loggers for " << pbt::show(s));
		if (known.count(s)) CHECK(known[s] == &l, "getLogger no longer returns the logger of " << pbt::show(s));
		// The last configuration applies now.
		const Conf & c = confs.back();
		const int level = c.split && below(s) ? c.subLevel : c.level;
		CHECK((int) l.getLevel() == level, pbt::show(s) << " has level " << (int) l.getLevel() << " instead of " << level << " after the last configuration");
		sent[0].push_back({ s, "last" + s, 0, confs.size() - 1, confs.size() - 1 });
		l.error("{}", "last" + s);
	}
	Logger::flushAll();

	std::map<std::string, std::vector<Got>> got; // by message
	std::map<std::string, std::string> where;
	auto take = [&] (const std::string & stream, const std::string & line, size_t index) {
		CHECK(line.size() > 4 && line.front() == '<' && line.back() == '>' && line.find('\n') == std::string::npos, stream << " received " << pbt::show(line));
		std::vector<std::string> f;
		std::string rest = line.substr(1, line.size() - 2);
		for (size_t p; (p = rest.find('|')) != std::string::npos; rest = rest.substr(p + 1)) f.push_back(rest.substr(0, p));
		f.push_back(rest);
		CHECK(f.size() == 4, stream << " received " << pbt::show(line));
		got[f[3]].push_back({ f[0], stream, index });
		where[f[3]] = f[1] + "|" + f[2];
	};
	for (auto & c : captures()) {
		size_t i = 0;
		for (auto & w : c.second->writes) {
			CHECK(!w.empty() && w.back() == '\n', "a write without end of line");
			take(c.first, w.substr(0, w.size() - 1), i++);
		}
	}
	{
		std::ifstream f(gen::scratch() + "/concurrent.log", std::ios::binary);
		std::string all(std::istreambuf_iterator<char>(f), {});
		CHECK(all.empty() || all.back() == '\n', "the log file ends within a line");
		size_t i = 0;
		for (size_t at = 0; at < all.size(); ) { const size_t e = all.find('\n', at); take(file, all.substr(at, e - at), i++); at = e + 1; }
	}
	size_t total = 0, overlapping = 0;
	for (size_t t = 0; t < threads; ++t) {
		std::map<std::string, size_t> last;
		for (auto & m : sent[t]) {
			std::set<std::string> tags, streams;
			bool may = false, must = true;
			for (size_t k = m.from; k <= m.to; ++k) {
				const Conf & c = confs[k];
				const bool sub = c.split && below(m.ns);
				const bool on = m.level <= (sub ? c.subLevel : c.level);
				may = may || on;
				must = must && on;
				tags.insert(sub ? c.subTag : c.tag);
				streams.insert(sub ? c.subStream : c.stream);
			}
			if (m.to > m.from) ++overlapping;
			auto i = got.find(m.id);
			const size_t count = i == got.end() ? 0 : i->second.size();
			CHECK(count <= 1, m.id << " was written " << count << " times");
			CHECK(count || !must, m.id << " (" << upper[m.level] << " in " << pbt::show(m.ns) << ") was not written");
			CHECK(!count || may, m.id << " was written although " << upper[m.level] << " is disabled in " << pbt::show(m.ns));
			if (!count) continue;
			++total;
			const Got & g = i->second[0];
			CHECK(tags.count(g.tag), m.id << " has the format " << g.tag << " that does not apply to " << pbt::show(m.ns) << " during configurations " << m.from << " to " << m.to);
			CHECK(streams.count(g.stream), m.id << " was written to " << g.stream << " that does not apply to " << pbt::show(m.ns) << " during configurations " << m.from << " to " << m.to);
			CHECK(where[m.id] == m.ns + "|" + upper[m.level], m.id << " is attributed to " << where[m.id]);
			if (last.count(g.stream)) CHECK(last[g.stream] < g.index || m.id.compare(0, 4, "last") == 0, m.id << " overtook an earlier message of its thread");
			last[g.stream] = g.index;
		}
	}
	size_t received = 0;
	for (auto & g : got) received += g.second.size();
	CHECK(received == total, "messages that nobody sent");
	if (threads > 1 && overlapping) d.nontrivial();
	if (overlapping) d.label("during reconfiguration");
}
