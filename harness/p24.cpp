// P24: the test runner: every selected test runs exactly once in every execution model, with its outcome reported.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Testing/TestRunner.hpp>
#include "gen.hpp"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <atomic>
#include <csignal>
#include <filesystem>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace Balau;
using namespace Balau::Testing;

namespace {

constexpr int MaxGroups = 5, MaxCases = 40;

enum class Act { Pass, Assert, Balau, Std, Int, Ignore, IgnoreAssert, Segv, Kill, Exit };

struct Case { std::string name, text; Act act; bool log; unsigned pause; };
struct GroupPlan { unsigned models = 15; Act setup = Act::Pass, teardown = Act::Pass; std::vector<Case> cases; };
struct Plan { std::vector<GroupPlan> groups; };

Plan * plan = nullptr;

// What happened, shared by all the processes of a run.
struct Counts {
	std::atomic<unsigned> setups[MaxGroups], teardowns[MaxGroups], bodies[MaxGroups][MaxCases], disorder;
};

Counts * counts = nullptr;

thread_local int inGroup = -1; // the group whose setup has run in this thread

struct Odd { int x; };

void perform(Act a, const std::string & text) {
	switch (a) {
		case Act::Pass: return;
		case Act::Assert: AssertThat(text, is(text + "!")); return;
		case Act::Balau: ThrowBalauException(Balau::Exception::IllegalArgumentException, text);
		case Act::Std: throw std::runtime_error(text);
		case Act::Int: throw Odd { 3 };
		case Act::Segv: signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); return;
		case Act::Kill: kill(getpid(), SIGKILL); pause(); return;
		case Act::Exit: _exit(3);
		default: return;
	}
}

template <typename T, int G> struct Base : TestGroup<T> {
	using Group = TestGroup<T>;
	using Method = void (T::*)();

	Base() : TestGroup<T>(plan ? plan->groups[G].models : 15u) {}

	void addTests() { if (plan) add(std::make_integer_sequence<int, MaxCases>()); }

	template <int ... K> void add(std::integer_sequence<int, K ...>) {
		const auto & cases = plan->groups[G].cases;
		((K < (int) cases.size() ? this->registerTestCase((Method) &Base::template body<K>, cases[K].name) : (void) 0), ...);
	}

	void setup() override {
		++counts->setups[G];
		inGroup = G;
		perform(plan->groups[G].setup, "setup failure");
	}

	void teardown() override {
		++counts->teardowns[G];
		if (inGroup != G) ++counts->disorder;
		inGroup = -1;
		perform(plan->groups[G].teardown, "teardown failure");
	}

	template <int K> void body() {
		const Case & c = plan->groups[G].cases[K];
		++counts->bodies[G][K];
		if (inGroup != G) ++counts->disorder;
		if (c.log) { this->logLine("<logged ", G, " ", K, ">"); this->log(std::string("(part)")); }
		if (c.pause) usleep(c.pause);
		if (c.act == Act::Ignore || c.act == Act::IgnoreAssert) this->ignore();
		perform(c.act == Act::IgnoreAssert ? Act::Assert : c.act, c.text);
	}
};

} // namespace

namespace suite {

struct AlphaTest : Base<AlphaTest, 0> { AlphaTest() { addTests(); } };
struct Beta : Base<Beta, 1> { Beta() { addTests(); } };
struct Alpha : Base<Alpha, 3> { Alpha() { addTests(); } };

namespace inner { struct Beta : Base<inner::Beta, 4> { Beta() { addTests(); } }; }

} // namespace suite

struct i : Base<i, 2> { i() { addTests(); } };

namespace {

const char * const shortNames[MaxGroups] = { "AlphaTest", "Beta", "i", "Alpha", "Beta" };
const char * const fullNames[MaxGroups] = { "suite::AlphaTest", "suite::Beta", "i", "suite::Alpha", "suite::inner::Beta" };

// Independent glob matcher.
bool globMatches(const std::string & p, const std::string & s, size_t a = 0, size_t b = 0) {
	if (a == p.size()) return b == s.size();
	if (p[a] == '*') {
		for (size_t e = b; e <= s.size(); ++e) if (globMatches(p, s, a + 1, e)) return true;
		return false;
	}
	return b < s.size() && (p[a] == '?' || p[a] == s[b]) && globMatches(p, s, a + 1, b + 1);
}

std::string messageText(pbt::Data & d) {
	static const std::vector<const char *> parts = { "value", "<tag>", "a & b", "\"quoted\"", "x\ny", "   ", "é", "%s", "{}", "'", "]]>", "\t." };
	std::string r;
	for (size_t n = 1 + d.upto(4); n--; ) r += d.pick(parts);
	if (d.chance(1, 12)) r += std::string(d.range(1000, 9000), 'w') + "END";
	return r;
}

std::string caseName(pbt::Data & d, unsigned n, bool odd) {
	static const std::vector<const char *> words = { "basic", "reads", "writesAll", "x", "copy_2", "Basic" };
	std::string r = d.pick(words);
	if (odd && d.chance(1, 3)) r += d.pick(std::initializer_list<const char *> { ".a", "(1+1)", "[0]", "{2}", "a|b", "$", "^2", "\\d", "+", "/ü", "::deep" });
	return r + std::to_string(n);
}

std::string slurp(const std::string & p) { std::ifstream in(p, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }

size_t occurrences(const std::string & text, const std::string & what) {
	size_t n = 0;
	for (size_t p = text.find(what); p != std::string::npos; p = text.find(what, p + what.size())) ++n;
	return n;
}

long numberAfter(const std::string & text, const std::string & what) {
	const size_t p = text.find(what);
	return p == std::string::npos ? -1 : strtol(text.c_str() + p + what.size(), nullptr, 10);
}

void run(pbt::Data & d, ExecutionModel model) {
	const bool processes = model == WorkerProcesses || model == ProcessPerTest;
	static Plan thePlan;
	thePlan = Plan();
	const bool big = d.chance(1, 12), odd = d.chance(1, 4), faults = d.chance(2, 3);
	unsigned total = 0;
	for (int g = 0; g < MaxGroups; ++g) {
		GroupPlan gp;
		if (d.chance(1, 5)) gp.models = (unsigned) d.range(1, 15);
		auto fixtureAct = [&] { return faults && d.chance(1, 12) ? d.pick(std::initializer_list<Act> { Act::Assert, Act::Balau, Act::Std, Act::Int }) : Act::Pass; };
		gp.setup = fixtureAct();
		gp.teardown = fixtureAct();
		size_t n = big ? d.range(20, MaxCases) : d.upto(5);
		if (model == ProcessPerTest) n = std::min<size_t>(n, 15);
		for (size_t k = 0; k < n; ++k) {
			Case c;
			c.name = caseName(d, (unsigned) k, odd) + (g == 4 ? "_inner" : "");
			c.text = messageText(d);
			c.act = Act::Pass;
			if (faults && d.chance(1, 3)) c.act = d.pick(std::initializer_list<Act> { Act::Assert, Act::Balau, Act::Std, Act::Int, Act::Ignore, Act::IgnoreAssert, Act::Segv, Act::Kill, Act::Exit });
			if (!processes && c.act >= Act::Segv) c.act = Act::Assert;
			c.log = d.chance(1, 6);
			c.pause = d.chance(1, 5) ? (unsigned) d.upto(3000) : 0;
			gp.cases.push_back(c);
			++total;
		}
		thePlan.groups.push_back(gp);
	}
	if (!total) d.discard();

	const bool direct = d.chance(1, 8), namespaces = !direct && d.chance(1, 3);
	const auto & groupNames = namespaces ? fullNames : shortNames;

	// Selection.
	std::vector<std::string> patterns, args;
	auto someName = [&] { for (;;) { const int g = (int) d.upto(MaxGroups - 1); auto & cs = thePlan.groups[g].cases; if (cs.empty()) { if (d.chance(1, 50)) return std::string("None::none"); continue; } return std::string(groupNames[g]) + "::" + cs[d.upto(cs.size() - 1)].name; } };
	if (!direct && d.chance(1, 2)) {
		for (size_t n = d.range(1, 3); n--; ) {
			std::string p;
			switch (d.upto(5)) {
				case 0: p = someName(); break;
				case 1: p = std::string(groupNames[d.upto(MaxGroups - 1)]) + "*"; break;
				case 2: p = std::string(groupNames[d.upto(MaxGroups - 1)]) + "::*"; break;
				case 3: p = someName(); p[d.upto(p.size() - 1)] = '?'; break;
				case 4: { p = someName(); const size_t a = d.upto(p.size() - 1), l = d.upto(p.size() - a); p.replace(a, l, "*"); break; }
				default: p = "*" + someName().substr(1 + d.upto(4)); break;
			}
			patterns.push_back(p);
		}
		if (d.boolean()) {
			std::string joined;
			for (auto & p : patterns) joined += (joined.empty() ? "" : d.pick(std::initializer_list<const char *> { ",", " ", ", ", " , " })) + p;
			args.push_back(joined);
		} else args = patterns;
	}
	auto selected = [&] (const std::string & name) {
		if (patterns.empty()) return true;
		for (auto & p : patterns) if (globMatches(p, name)) return true;
		return false;
	};

	// Expectations.
	enum Result { Success, Failure, Error, Ignored };
	struct Expect { std::string name, text; Result result; bool crashed, ran; };
	std::map<std::string, std::vector<Expect>> expected;
	unsigned perResult[4] = {}, setups[MaxGroups] = {}, teardowns[MaxGroups] = {}, bodies[MaxGroups][MaxCases] = {};
	bool firstCrash = false;
	auto resultOf = [] (Act a) { return a == Act::Pass ? Success : a == Act::Assert || a == Act::IgnoreAssert ? Failure : a == Act::Ignore ? Ignored : Error; };
	for (int g = 0; g < MaxGroups; ++g) {
		const auto & gp = thePlan.groups[g];
		for (size_t k = 0; k < gp.cases.size(); ++k) {
			const Case & c = gp.cases[k];
			const std::string name = std::string(groupNames[g]) + "::" + c.name;
			if (!selected(name)) continue;
			Expect e { name, c.act == Act::Balau || c.act == Act::Std ? c.text : "", Ignored, false, false };
			if (gp.models & model) {
				e.ran = true;
				++setups[g];
				e.result = resultOf(gp.setup);
				if (e.result == Success) {
					++bodies[g][k];
					e.result = resultOf(c.act);
					e.crashed = c.act >= Act::Segv;
				} else e.text = "";
				if (!e.crashed) {
					++teardowns[g];
					const Result t = resultOf(gp.teardown);
					if (t == Error || (t == Failure && e.result != Error)) e.result = t;
				} else firstCrash = true;
			}
			++perResult[e.result];
			expected[groupNames[g]].push_back(e);
		}
	}
	d.note("model " + std::to_string(model));
	for (auto & g : expected) for (auto & e : g.second) d.note(e.name + " -> " + std::to_string(e.result) + (e.crashed ? " crash" : "") + (e.ran ? "" : " not run"));
	for (auto & p : patterns) d.note("pattern " + p);

	// The run.
	counts = (Counts *) mmap(nullptr, sizeof(Counts), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	plan = &thePlan;
	using namespace suite;
	static AlphaTest * a = new AlphaTest;
	static Beta * b = new Beta;
	static ::i * c = new ::i;
	static Alpha * e = new Alpha;
	static suite::inner::Beta * f = new suite::inner::Beta;
	(void) a; (void) b; (void) c; (void) e; (void) f;
	struct Folder { std::string path = gen::scratch() + "/run" + std::to_string(getpid()); ~Folder() { std::error_code c; std::filesystem::remove_all(path, c); } } scratch;
	const bool reports = d.chance(2, 3), longOptions = d.boolean();
	const std::string folder = scratch.path + "/reports" + (d.boolean() ? "" : "/deeper");
	const unsigned concurrency = (unsigned) d.upto(6); // zero: detect
	d.note("concurrency " + std::to_string(concurrency) + (reports ? " reports" : ""));
	static std::ostringstream out;
	int rc;
	auto generator = std::shared_ptr<Testing::Impl::TestReportGenerator>(new Reporters::SurefireTestReportGenerator);
	if (direct) {
		rc = TestRunner::run(model, reports ? Resource::File(folder) : Resource::File(), generator, OStreamTestWriter(out));
		d.label("direct");
	} else {
		std::vector<std::string> argv { "program" };
		std::string m = Testing::toString(model);
		if (d.boolean()) for (auto & ch : m) ch = (char) tolower(ch);
		if (model != SingleThreaded || d.boolean()) { argv.push_back(longOptions ? "--execution-model" : "-e"); argv.push_back(m); }
		if (concurrency || d.boolean()) { argv.push_back(longOptions ? "--concurrency" : "-c"); argv.push_back(std::to_string(concurrency)); }
		if (namespaces) argv.push_back(longOptions ? "--namespaces" : "-n");
		if (reports) { argv.push_back(longOptions ? "--report-folder" : "-r"); argv.push_back(folder); }
		for (auto & x : args) argv.push_back(x);
		std::vector<char *> cargv;
		for (auto & x : argv) cargv.push_back(x.data());
		cargv.push_back(nullptr);
		rc = TestRunner::run((int) argv.size(), cargv.data(), true, d.chance(1, 10) && !reports ? nullptr : generator, OStreamTestWriter(out));
	}
	const std::string text = out.str();
	d.note("output:\n" + text.substr(0, 3000));

	// Every selected test once, with setup before and teardown after it.
	for (int g = 0; g < MaxGroups; ++g) {
		CHECK(counts->setups[g] == setups[g], groupNames[g] << ": " << counts->setups[g] << " setups for " << setups[g] << " tests");
		CHECK(counts->teardowns[g] == teardowns[g], groupNames[g] << ": " << counts->teardowns[g] << " teardowns for " << teardowns[g] << " tests");
		for (size_t k = 0; k < thePlan.groups[g].cases.size(); ++k)
			CHECK(counts->bodies[g][k] == bodies[g][k], groupNames[g] << "::" << thePlan.groups[g].cases[k].name << " ran " << counts->bodies[g][k] << " times instead of " << bodies[g][k]);
	}
	CHECK(counts->disorder == 0, counts->disorder << " bodies or teardowns ran without their setup before");

	// The verdict.
	CHECK(rc == (perResult[Failure] || perResult[Error] ? 1 : 0), "the run returned " << rc << " with " << perResult[Failure] << " failures and " << perResult[Error] << " errors");
	CHECK(numberAfter(text, "tests passed:") == (long) perResult[Success], "reported " << numberAfter(text, "tests passed:") << " passed of " << perResult[Success]);
	CHECK(numberAfter(text, "tests ignored:") == (long) perResult[Ignored], "reported " << numberAfter(text, "tests ignored:") << " ignored of " << perResult[Ignored]);
	if (rc) {
		CHECK(numberAfter(text, "tests failed:") == (long) perResult[Failure], "reported " << numberAfter(text, "tests failed:") << " failed of " << perResult[Failure]);
		CHECK(numberAfter(text, "tests errored:") == (long) perResult[Error], "reported " << numberAfter(text, "tests errored:") << " errored of " << perResult[Error]);
		CHECK(numberAfter(text, "Total tests run:") == (long) (perResult[0] + perResult[1] + perResult[2] + perResult[3]), "total reported");
	} else CHECK(text.find("ALL TESTS PASSED") != std::string::npos, "no success line");
	const size_t failedAt = text.find("Failed/errored tests:\n");
	std::multiset<std::string> failedNames, expectedFailed;
	if (failedAt != std::string::npos) {
		std::istringstream lines(text.substr(failedAt));
		std::string l;
		std::getline(lines, l);
		while (std::getline(lines, l) && !l.empty()) failedNames.insert(l.substr(l.find_first_not_of(' ')));
	}
	for (auto & g : expected) for (auto & x : g.second) if (x.result == Failure || x.result == Error) expectedFailed.insert(x.name);
	CHECK(failedNames == expectedFailed, "the failed tests listed: " << failedNames.size() << " of " << expectedFailed.size());

	// The log.
	for (auto & g : expected) {
		CHECK(occurrences(text, "++ Running test group " + std::string(g.first) + "\n") == 1, "group " << g.first << " not announced once");
		CHECK(occurrences(text, "== " + std::string(g.first) + " group completed.") == 1, "group " << g.first << " not completed once");
		for (auto & x : g.second) {
			const size_t shown = occurrences(text, " - Test " + x.name + " ") + occurrences(text, "Found test:  " + x.name + " ");
			CHECK(shown == (x.ran ? 1 : 0), x.name << " logged " << shown << " times");
		}
	}
	if (!processes) for (int g = 0; g < MaxGroups; ++g) for (size_t k = 0; k < thePlan.groups[g].cases.size(); ++k) if (bodies[g][k] && thePlan.groups[g].cases[k].log)
		CHECK(occurrences(text, "<logged " + std::to_string(g) + " " + std::to_string(k) + ">") == 1, "the logging of a test");

	// The reports.
	for (int g = 0; g < MaxGroups; ++g) {
		const std::string name = groupNames[g], path = folder + "/TEST-" + name + ".xml";
		const bool present = access(path.c_str(), F_OK) == 0;
		CHECK(present == (reports && expected.count(name)), "report of " << name << (present ? " written" : " missing"));
		if (!present) continue;
		boost::property_tree::ptree tree;
		try { boost::property_tree::read_xml(path, tree); } catch (const std::exception & x) { FAIL("report of " << name << " is not XML: " << x.what() << "\n" << slurp(path).substr(0, 2000)); }
		const auto & suite = tree.get_child("testsuite");
		const auto & tests = expected[name];
		unsigned n[4] = {};
		for (auto & x : tests) ++n[x.result];
		CHECK(suite.get<std::string>("<xmlattr>.name") == name, "suite name");
		CHECK(suite.get<size_t>("<xmlattr>.tests") == tests.size(), "suite " << name << ": tests " << suite.get<size_t>("<xmlattr>.tests") << " of " << tests.size());
		CHECK(suite.get<size_t>("<xmlattr>.failures") == n[Failure] && suite.get<size_t>("<xmlattr>.errors") == n[Error] && suite.get<size_t>("<xmlattr>.skipped") == n[Ignored], "suite counts of " << name);
		size_t at = 0;
		for (auto & child : suite) {
			if (child.first != "testcase") continue;
			CHECK(at < tests.size(), "more test cases than tests");
			const Expect & x = tests[at++];
			CHECK(child.second.get<std::string>("<xmlattr>.name") == x.name, "test case " << child.second.get<std::string>("<xmlattr>.name") << " for " << x.name);
			CHECK(child.second.get<std::string>("<xmlattr>.classname") == name, "class name");
			const Result r = child.second.count("failure") ? Failure : child.second.count("error") ? Error : child.second.count("skipped") ? Ignored : Success;
			CHECK(r == x.result, x.name << ": result " << r << " reported for " << x.result);
			if (x.ran && !x.crashed && (r == Failure || r == Error)) {
				const std::string m = child.second.get<std::string>(r == Failure ? "failure.<xmlattr>.message" : "error.<xmlattr>.message");
				CHECK(m.find(x.name) != std::string::npos, x.name << " is not named in its message: " << m);
				if (!x.text.empty()) CHECK(m.find(x.text) != std::string::npos, x.name << ": the message lost the exception's text " << x.text);
			}
		}
		CHECK(at == tests.size(), "fewer test cases than tests");
	}
	if (total > 2 && (perResult[Failure] || perResult[Error] || !patterns.empty())) d.nontrivial();
	if (firstCrash) d.label("crash");
	if (!patterns.empty()) d.label("selection");
	if (reports) d.label("reports");
	if (namespaces) d.label("namespaces");
	if (big) d.label("many tests");
}

} // namespace

PBT(single_threaded, 700, 15000, PBT_FRESH) { run(d, SingleThreaded); }
PBT(worker_threads, 700, 15000, PBT_CONCURRENT | PBT_FRESH) { run(d, WorkerThreads); }
PBT(worker_processes, 350, 7000, PBT_CONCURRENT | PBT_FRESH, 25) { run(d, WorkerProcesses); }
PBT(process_per_test, 250, 5000, PBT_CONCURRENT | PBT_FRESH, 25) { run(d, ProcessPerTest); }
