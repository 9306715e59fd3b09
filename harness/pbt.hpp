// A small property-based testing engine used by every harness in this directory.
//
//  - Every random decision of a property is drawn from a recorded choice sequence (pbt::Data),
//    so a failing case can be shrunk generically (deleting / lowering choices) and replayed.
//  - Cases run in forked worker processes: a sanitizer report, an abort, a segmentation fault or
//    a hang in the code under test is turned into a failing (and shrinkable) case.
//  - Each run is a pure function of the code, the seed and the number of cases.
#pragma once

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure { std::string message; };
struct Discard {};

inline uint64_t mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

inline uint64_t hashStr(std::string_view s, uint64_t h = 1469598103934665603ULL) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
	return mix(h);
}

// Escapes arbitrary bytes for reports.
inline std::string show(std::string_view s) {
	static const char * hex = "0123456789abcdef";
	std::string r = "\"";
	for (unsigned char c : s) {
		switch (c) {
			case '\n': r += "\\n"; break;
			case '\r': r += "\\r"; break;
			case '\t': r += "\\t"; break;
			case '"': r += "\\\""; break;
			case '\\': r += "\\\\"; break;
			default:
				if (c < 32 || c >= 127) { r += "\\x"; r += hex[c >> 4]; r += hex[c & 15]; }
				else r += (char) c;
		}
	}
	return r + "\"";
}

inline std::string show(std::u32string_view s) {
	std::ostringstream o;
	o << "U\"";
	for (char32_t c : s) {
		if (c >= 32 && c < 127) o << (char) c; else o << "\\u{" << std::hex << (uint32_t) c << std::dec << "}";
	}
	o << "\"";
	return o.str();
}

inline std::string jsonStr(std::string_view s) {
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c < 32 || c >= 127) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
		else r += (char) c;
	}
	return r + "\"";
}

constexpr size_t MaxChoices = 1 << 15;

struct Shared {
	volatile uint64_t caseIndex;
	volatile uint64_t evaluations, nontrivial, distinct, discarded;
	volatile uint64_t choiceCount;
	volatile int inCase;
	volatile int failed;           // 1: the child stopped at a failing case
	char message[8192];
	char notes[16384];
	uint64_t choices[MaxChoices];
};

class Data {
	public: Data(Shared * shm_, uint64_t seed_) : shm(shm_), state(seed_) { begin(); }
	public: Data(Shared * shm_, const std::vector<uint64_t> & replay_) : shm(shm_), replay(replay_), replaying(true) { begin(); }

	// A choice in [0, max]; 0 is the simplest value.
	public: uint64_t draw(uint64_t max) {
		uint64_t v;
		if (replaying) {
			v = pos < replay.size() ? replay[pos] : 0;
			if (v > max) v = max;
		} else {
			state = mix(state + pos + 1);
			v = max == UINT64_MAX ? state : state % (max + 1);
		}
		if (pos >= MaxChoices) throw Discard();
		shm->choices[pos++] = v;
		shm->choiceCount = pos;
		return v;
	}

	// A choice which takes each value of [0, max] in turn as cases go by (for exhaustive enumeration).
	public: uint64_t enumerate(uint64_t max) {
		if (replaying) return draw(max);
		if (pos >= MaxChoices) throw Discard();
		uint64_t v = max == UINT64_MAX ? caseIndex : caseIndex % (max + 1);
		shm->choices[pos++] = v;
		shm->choiceCount = pos;
		return v;
	}

	public: int64_t range(int64_t lo, int64_t hi) { return (int64_t) ((uint64_t) lo + draw((uint64_t) hi - (uint64_t) lo)); }
	public: size_t upto(size_t max) { return (size_t) draw(max); }
	// True num times in den.
	public: bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
	public: bool boolean() { return draw(1) == 1; }
	// Sizes, biased to small values but regularly reaching max.
	public: size_t size(size_t max) {
		switch (draw(3)) {
			case 0: return upto(std::min<size_t>(max, 3));
			case 1: return upto(std::min<size_t>(max, 8));
			default: return upto(max);
		}
	}
	public: template <typename T> const T & pick(const std::vector<T> & v) { return v[upto(v.size() - 1)]; }
	public: template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + upto(v.size() - 1)); }
	public: size_t weighted(std::initializer_list<unsigned> w) {
		unsigned total = 0;
		for (auto x : w) total += x;
		uint64_t r = draw(total - 1);
		size_t i = 0;
		for (auto x : w) { if (r < x) return i; r -= x; ++i; }
		return 0;
	}

	public: template <typename A, typename B, typename ... C> void note(const A & a, const B & b, const C & ... c) {
		std::ostringstream o;
		o << a << b;
		((o << c), ...);
		note(o.str());
	}

	public: void note(const std::string & s) {
		if (notes.size() < sizeof(shm->notes) - 1) {
			notes += s; notes += '\n';
			size_t n = std::min(notes.size(), sizeof(shm->notes) - 1);
			memcpy(shm->notes, notes.data(), n);
			shm->notes[n] = 0;
		}
	}
	public: void label(const std::string & l) { labels.insert(l); }
	public: void nontrivial(bool b = true) { if (b) isNontrivial = true; }
	public: size_t consumed() const { return pos; }
	public: [[noreturn]] void discard() { throw Discard(); }

	public: uint64_t choiceHash() const {
		uint64_t h = 7;
		for (size_t i = 0; i < shm->choiceCount; ++i) h = mix(h ^ shm->choices[i]) + i;
		return h;
	}

	private: void begin() {
		shm->choiceCount = 0; shm->notes[0] = 0; shm->message[0] = 0;
	}

	public: std::set<std::string> labels;
	public: bool isNontrivial = false;
	public: uint64_t caseIndex = 0;
	public: std::string notes;
	private: Shared * shm;
	private: uint64_t state = 0;
	private: std::vector<uint64_t> replay;
	private: bool replaying = false;
	private: size_t pos = 0;
};

struct Test {
	std::string name;
	std::function<void (Data &)> body;
	uint64_t quick, thorough;   // number of cases (all shards together)
	unsigned flags = 0;
	unsigned timeout = 60;      // seconds without finishing one case that count as a hang
	bool concurrent() const { return flags & 1; }
	bool fresh() const { return flags & 2; }
};

inline std::vector<Test> & tests() { static std::vector<Test> t; return t; }
struct Register { Register(Test t) { tests().push_back(std::move(t)); } };

// Called in each worker process before its first case.
inline std::function<void ()> & workerSetup() { static std::function<void ()> f; return f; }

// The schedule is not owned: failing histories need not recur on every replay.
#define PBT_CONCURRENT 1u
// The code under test has process-wide state: each case runs in a process of its own.
#define PBT_FRESH 2u
#define PBT(NAME, QUICK, THOROUGH, ...) \
	static void pbt_##NAME(pbt::Data & d); \
	static pbt::Register pbt_reg_##NAME(pbt::Test { #NAME, pbt_##NAME, QUICK, THOROUGH, ##__VA_ARGS__ }); \
	static void pbt_##NAME([[maybe_unused]] pbt::Data & d)

#define CHECK(COND, ...) do { if (!(COND)) { std::ostringstream pbt_o; pbt_o << "line " << __LINE__ << ": " << #COND << ": " << __VA_ARGS__; throw pbt::Failure { pbt_o.str() }; } } while (0)
#define FAIL(...) do { std::ostringstream pbt_o; pbt_o << "line " << __LINE__ << ": " << __VA_ARGS__; throw pbt::Failure { pbt_o.str() }; } while (0)
// Runs an expression that must throw the exception type.
#define MUST_THROW(EXPR, EXC, ...) do { bool pbt_ok = false; try { EXPR; } catch (const EXC &) { pbt_ok = true; } CHECK(pbt_ok, #EXPR " did not throw " #EXC " " << __VA_ARGS__); } while (0)

namespace detail {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }

enum class Outcome { Pass, Fail, Crash, Hang, Discarded };

inline Outcome runBody(const Test & test, Data & d, Shared * shm) {
	auto fail = [&] (const std::string & m) {
		size_t n = std::min(m.size(), sizeof(shm->message) - 1);
		memcpy(shm->message, m.data(), n);
		shm->message[n] = 0;
		return Outcome::Fail;
	};
	try {
		test.body(d);
		return Outcome::Pass;
	} catch (const Discard &) {
		return Outcome::Discarded;
	} catch (const Failure & f) {
		return fail(f.message);
	} catch (const std::exception & e) {
		return fail(std::string("unexpected exception: ") + e.what());
	} catch (...) {
		return fail("unexpected exception of unknown type");
	}
}

// Runs one case in a child process; dies as the child did when the child died.
inline Outcome runForked(const Test & test, Data & d, Shared * shm) {
	struct Report { volatile Outcome outcome; volatile bool nontrivial; char labels[4000]; };
	static Report * report = (Report *) mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	report->outcome = Outcome::Crash;
	pid_t pid = fork();
	if (pid < 0) _exit(3);
	if (pid == 0) {
		Outcome r = runBody(test, d, shm);
		std::string labels;
		for (auto & l : d.labels) labels += l + '\n';
		if (labels.size() >= sizeof report->labels) labels.clear();
		memcpy(report->labels, labels.c_str(), labels.size() + 1);
		report->nontrivial = d.isNontrivial;
		report->outcome = r;
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); pause(); }
	if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
	if (report->outcome == Outcome::Crash) _exit(99); // the code under test ended the process
	d.isNontrivial = report->nontrivial;
	d.notes = shm->notes;
	std::istringstream l(report->labels);
	for (std::string x; std::getline(l, x); ) d.labels.insert(x);
	return report->outcome;
}

struct Options {
	uint64_t seed = 1;
	bool thorough = false;
	unsigned shard = 0, shards = 1;
	double maxSeconds = 300;   // per test
	double scale = 1;
	double deadline = 1e9;     // no new test, and no more shrinking, after this many seconds
	std::string only, replay, out, replayDir = ".", scratch = "/tmp";
};

inline std::string slurp(const std::string & path, size_t max = 6000) {
	std::ifstream in(path, std::ios::binary);
	std::stringstream s;
	s << in.rdbuf();
	std::string r = s.str();
	if (r.size() > max) r = r.substr(0, max);
	return r;
}

// Runs f in a forked child whose stderr goes to errPath; returns wait status, or -1 on a hang.
template <typename F> inline int inChild(F f, const std::string & errPath, Shared * shm, unsigned timeout, double deadline = 0) {
	std::cout.flush();
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		int fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fd >= 0) { dup2(fd, 2); close(fd); }
		int nul = open("/dev/null", O_WRONLY);
		if (nul >= 0) { dup2(nul, 1); close(nul); }
		rlimit rl { 0, 0 };
		setrlimit(RLIMIT_CORE, &rl);
		if (workerSetup()) workerSetup()();
		f();
		_exit(0);
	}
	if (pid < 0) { perror("fork"); exit(3); }
	setpgid(pid, pid);
	uint64_t lastCase = UINT64_MAX;
	double lastChange = now();
	useconds_t nap = 200;
	for (;;) {
		int status;
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid) { kill(-pid, SIGKILL); return status; }
		if (r < 0) return 0;
		double t = now();
		uint64_t c = shm->caseIndex;
		if (c != lastCase) { lastCase = c; lastChange = t; }
		if (t - lastChange > timeout) {
			kill(-pid, SIGKILL);
			waitpid(pid, &status, 0);
			return -1;
		}
		(void) deadline;
		usleep(nap);
		if (nap < 10000) nap += nap / 4 + 1;
	}
}

struct Runner {
	Options o;
	Shared * shm;
	std::string errPath;
	double endBy = 1e18;

	Outcome attempt(const Test & test, const std::vector<uint64_t> & choices, std::vector<uint64_t> & used, std::string & message, std::string & notes, unsigned timeout) {
		shm->choiceCount = 0; shm->message[0] = 0; shm->notes[0] = 0; shm->failed = 0;
		shm->caseIndex = 0;
		Outcome * out = (Outcome *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		*out = Outcome::Crash;
		int st = inChild([&] {
			Data d(shm, choices);
			Outcome r = runBody(test, d, shm);
			*out = r;
		}, errPath, shm, timeout);
		Outcome r = *out;
		munmap(out, 4096);
		if (st == -1) r = Outcome::Hang;
		else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) r = Outcome::Crash;
		used.assign(shm->choices, shm->choices + shm->choiceCount);
		message = shm->message;
		notes = shm->notes;
		if (r == Outcome::Crash) {
			std::ostringstream m;
			m << "the process died (" << (WIFSIGNALED(st) ? "signal " : "exit ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << "): " << slurp(errPath, 3000);
			message = m.str();
		}
		if (r == Outcome::Hang) message = "no progress within " + std::to_string(timeout) + " s (hang)";
		return r;
	}

	static bool bad(Outcome r) { return r == Outcome::Fail || r == Outcome::Crash || r == Outcome::Hang; }

	// Generic shrinking of a choice sequence.
	void shrink(const Test & test, std::vector<uint64_t> & best, std::string & message, std::string & notes, Outcome kind) {
		double end = std::min(endBy, now() + (kind == Outcome::Hang ? 40 : 30));
		unsigned budget = kind == Outcome::Hang ? 12 : 3000;
		unsigned timeout = kind == Outcome::Hang ? 5 : test.timeout;
		auto tryIt = [&] (const std::vector<uint64_t> & c) {
			if (budget == 0 || now() > end) return false;
			--budget;
			for (int i = 0; i < (test.concurrent() ? 5 : 1); ++i) {
				std::vector<uint64_t> used; std::string m, n;
				Outcome r = attempt(test, c, used, m, n, timeout);
				if (bad(r) && (r == kind || kind != Outcome::Hang)) {
					if (used.size() < best.size() || (used.size() == best.size() && used < best)) { best = used; message = m; notes = n; return true; }
					return false;
				}
			}
			return false;
		};
		bool improved = true;
		while (improved && budget && now() < end) {
			improved = false;
			for (size_t block = std::max<size_t>(1, best.size() / 2); block >= 1; block /= 2) {
				for (size_t i = best.size(); i-- > 0;) {
					if (i + block > best.size()) continue;
					if (budget == 0 || now() > end) break;
					auto c = best;
					c.erase(c.begin() + (long) i, c.begin() + (long) (i + block));
					if (tryIt(c)) improved = true;
					else if (i > 0) {
						// Deleting an element often needs an earlier count lowered too.
						for (size_t back = 1; back <= 3 && back <= i; ++back) {
							if (best.size() > i - back && i + block <= best.size() && best[i - back] >= 1) {
								auto e = best;
								e.erase(e.begin() + (long) i, e.begin() + (long) (i + block));
								e[i - back] -= 1;
								if (tryIt(e)) { improved = true; break; }
							}
						}
					}
					if (block > 4 && i >= block / 2) i -= block / 2 - 1;
				}
				if (block == 1) break;
			}
			// Lower a count somewhere and drop the tail (replay pads with zeroes).
			for (size_t i = 0; i < best.size(); ++i) {
				if (budget == 0 || now() > end) break;
				if (best[i] == 0) continue;
				auto c = best; c[i] = 0;
				if (tryIt(c)) { improved = true; continue; }
				uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
				while (lo + 1 < hi && budget && now() < end) {
					uint64_t mid = lo + (hi - lo) / 2;
					c = best; if (i >= c.size()) break; c[i] = mid;
					if (tryIt(c)) { hi = mid; improved = true; } else lo = mid;
				}
			}
		}
	}
};

inline void writeReplay(const std::string & path, const std::string & test, const std::vector<uint64_t> & c, const std::string & message, const std::string & notes) {
	std::ofstream f(path, std::ios::binary);
	f << "test " << test << "\nchoices";
	for (auto x : c) f << ' ' << x;
	f << "\n# " ;
	for (char ch : message) { f << ch; if (ch == '\n') f << "# "; }
	f << "\n# case:\n# ";
	for (char ch : notes) { f << ch; if (ch == '\n') f << "# "; }
	f << "\n";
}

inline std::string num(double d) { std::ostringstream s; s << d; return s.str(); }

} // namespace detail

inline int run(int argc, char ** argv) {
	using namespace detail;
	Options o;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") o.seed = std::stoull(v);
		else if (k == "--tier") o.thorough = v == "thorough";
		else if (k == "--shard") o.shard = (unsigned) std::stoul(v);
		else if (k == "--shards") o.shards = (unsigned) std::stoul(v);
		else if (k == "--max-seconds") o.maxSeconds = std::stod(v);
		else if (k == "--deadline") o.deadline = std::stod(v);
		else if (k == "--scale") o.scale = std::stod(v);
		else if (k == "--only") o.only = v;
		else if (k == "--replay") o.replay = v;
		else if (k == "--out") o.out = v;
		else if (k == "--replay-dir") o.replayDir = v;
		else if (k == "--scratch") o.scratch = v;
		else { std::cerr << "unknown option " << k << "\n"; return 3; }
	}
	Runner r;
	r.o = o;
	r.shm = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (r.shm == MAP_FAILED) { perror("mmap"); return 3; }
	r.errPath = o.scratch + "/stderr." + std::to_string(getpid());

	if (!o.replay.empty()) {
		std::ifstream f(o.replay);
		std::string line, name; std::vector<uint64_t> choices;
		while (std::getline(f, line)) {
			std::istringstream s(line); std::string k; s >> k;
			if (k == "test") s >> name;
			else if (k == "choices") { uint64_t x; while (s >> x) choices.push_back(x); }
		}
		for (auto & t : tests()) if (t.name == name) {
			int n = t.concurrent() ? 50 : 1;
			for (int i = 0; i < n; ++i) {
				std::vector<uint64_t> used; std::string m, notes;
				auto res = r.attempt(t, choices, used, m, notes, t.timeout);
				if (Runner::bad(res)) { std::cout << "FAILS: " << m << "\ncase:\n" << notes << "\n"; unlink(r.errPath.c_str()); return 1; }
			}
			std::cout << "passes\n"; unlink(r.errPath.c_str());
			return 0;
		}
		std::cerr << "no such test: " << name << "\n";
		return 3;
	}

	std::ostringstream json;
	json << "{\"tests\":[";
	bool first = true, anyFail = false;

	r.endBy = now() + o.deadline;
	for (auto & t : tests()) {
		if (now() > r.endBy) break;
		if (!o.only.empty() && t.name.find(o.only) == std::string::npos) continue;
		double start = now();
		uint64_t total = (uint64_t) ((double) (o.thorough ? t.thorough : t.quick) * o.scale);
		if (total == 0) total = 1;
		Shared * shm = r.shm;
		shm->evaluations = shm->nontrivial = shm->distinct = shm->discarded = 0;
		shm->failed = 0; shm->inCase = 0; shm->caseIndex = o.shard;
		std::string samplePath = o.scratch + "/samples." + std::to_string(getpid());
		unlink(samplePath.c_str());
		int st = inChild([&] {
			std::unordered_set<uint64_t> seen;
			std::map<std::string, uint64_t> labels;
			std::vector<std::string> samples;
			auto finish = [&] {
				std::ofstream f(samplePath, std::ios::binary);
				f << "\"labels\":{";
				bool fl = true;
				for (auto & l : labels) { f << (fl ? "" : ",") << jsonStr(l.first) << ":" << l.second; fl = false; }
				f << "},\"samples\":[";
				fl = true;
				for (auto & s : samples) { f << (fl ? "" : ",") << jsonStr(s); fl = false; }
				f << "]";
			};
			for (uint64_t i = o.shard; i < total; i += o.shards) {
				if (now() - start > o.maxSeconds) break;
				shm->caseIndex = i;
				shm->inCase = 1;
				Data d(shm, mix(mix(o.seed) ^ hashStr(t.name) ^ mix(i * 2 + 1)));
				d.caseIndex = i;
				Outcome res = t.fresh() ? runForked(t, d, shm) : runBody(t, d, shm);
				shm->inCase = 0;
				if (res == Outcome::Discarded) { shm->discarded = shm->discarded + 1; continue; }
				shm->evaluations = shm->evaluations + 1;
				if (res == Outcome::Fail) { shm->failed = 1; finish(); _exit(0); }
				for (auto & l : d.labels) ++labels[l];
				if (d.isNontrivial) {
					shm->nontrivial = shm->nontrivial + 1;
					if (seen.insert(d.choiceHash()).second) {
						shm->distinct = seen.size();
						if (samples.size() < 3 && !d.notes.empty() && (seen.size() % 7 == 1)) samples.push_back(d.notes.substr(0, 400));
					}
				}
			}
			finish();
		}, r.errPath, shm, t.timeout);

		std::string failMessage, failNotes, replayPath;
		bool failed = false, unconfirmed = false;
		Outcome kind = Outcome::Pass;

		if (st == -1) { failed = true; kind = Outcome::Hang; failMessage = "hang"; }
		else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { failed = true; kind = Outcome::Crash; failMessage = "crash: " + slurp(r.errPath, 3000); }
		else if (shm->failed) { failed = true; kind = Outcome::Fail; failMessage = shm->message; }

		uint64_t evals = shm->evaluations, nontriv = shm->nontrivial, distinct = shm->distinct, disc = shm->discarded, failedCase = shm->caseIndex;
		failNotes = failed ? std::string(shm->notes) : "";

		if (failed) {
			std::vector<uint64_t> best(shm->choices, shm->choices + shm->choiceCount);
			std::string m = failMessage, n = failNotes;
			// Confirm.
			int need = t.concurrent() ? 1 : (kind == Outcome::Hang ? 2 : 3), tries = t.concurrent() ? (kind == Outcome::Hang ? 3 : 300) : need, got = 0;
			double until = std::min(std::max(r.endBy, now() + 20), now() + 120);
			for (int i = 0; i < tries && got < need && now() < until; ++i) {
				std::vector<uint64_t> used; std::string m2, n2;
				Outcome res = r.attempt(t, best, used, m2, n2, kind == Outcome::Hang ? std::min(t.timeout, 30u) : t.timeout);
				if (Runner::bad(res)) { ++got; kind = res; m = m2; n = n2; best = used; }
			}
			if (got >= need) {
				r.shrink(t, best, m, n, kind);
				failMessage = m; failNotes = n;
				replayPath = o.replayDir + "/" + t.name + "." + std::to_string(o.shard) + ".replay";
				writeReplay(replayPath, t.name, best, m, n);
				anyFail = true;
			} else {
				unconfirmed = true;
			}
		}

		json << (first ? "" : ",") << "{\"name\":" << jsonStr(t.name) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv
			<< ",\"distinct\":" << distinct << ",\"discarded\":" << disc << ",\"cases\":" << total << ",\"seconds\":" << num(now() - start);
		first = false;
		std::string extra = slurp(samplePath, 1 << 20);
		if (!extra.empty()) json << "," << extra;
		unlink(samplePath.c_str());
		if (failed && !unconfirmed) json << ",\"failed\":true,\"case\":" << failedCase << ",\"message\":" << jsonStr(failMessage) << ",\"notes\":" << jsonStr(failNotes) << ",\"replay\":" << jsonStr(replayPath);
		if (unconfirmed) json << ",\"unconfirmed\":" << jsonStr(failMessage + "\n" + failNotes);
		json << "}";
		if (o.out.empty()) {
			std::cout << t.name << ": " << evals << " cases, " << distinct << " distinct non-trivial, " << disc << " discarded, " << num(now() - start) << " s";
			if (failed) std::cout << (unconfirmed ? "  UNCONFIRMED FAILURE: " : "  FAILED: ") << failMessage << "\n" << failNotes;
			if (!extra.empty()) std::cout << "  " << extra.substr(0, 1500);
			std::cout << "\n";
		}
	}

	json << "]}";
	unlink(r.errPath.c_str());
	if (!o.out.empty()) { std::ofstream f(o.out, std::ios::binary); f << json.str(); }
	return anyFail ? 1 : 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char ** argv) { return pbt::run(argc, argv); }
#endif
