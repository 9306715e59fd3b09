// P19: shared memory queues, as sequential histories over several handles and as programs of producing and consuming threads and processes.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Serialization/SerializationMacros.hpp>
#include <Balau/Interprocess/SharedMemoryQueue.hpp>
#include "gen.hpp"
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <atomic>
#include <dirent.h>
#include <memory>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>

using namespace Balau;
using namespace Balau::Interprocess;

namespace {

struct Msg {
	unsigned producer = 0;
	unsigned number = 0;
	std::string payload;

	template <typename Archive> void serialize(Archive & archive, unsigned int) {
		archive & BoostSerialization(producer) & BoostSerialization(number) & BoostSerialization(payload);
	}
};

bool operator == (const Msg & a, const Msg & b) { return a.producer == b.producer && a.number == b.number && a.payload == b.payload; }

std::string show(const Msg & m) { return std::to_string(m.producer) + "/" + std::to_string(m.number) + " payload " + std::to_string(m.payload.size()) + " bytes"; }

using Queue = SharedMemoryQueue<Msg>;

constexpr size_t Header = 16;

// The size of a message with its header in the queue.
size_t messageSize(const Msg & m) {
	std::ostringstream o;
	boost::archive::binary_oarchive a(o);
	a << BoostSerialization(m);
	return o.str().size() + Header;
}

std::string payload(unsigned producer, unsigned number, size_t length) {
	std::string r;
	uint64_t h = producer * 7919 + number * 104729 + 1;
	while (r.size() < length) { h = pbt::mix(h); r += (char) h; }
	return r;
}

std::string uniqueName() {
	static unsigned counter = 0;
	return "vq_" + std::to_string(getpid()) + "_" + std::to_string(counter++);
}

double clockNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }

std::vector<std::string> memoryNames(const std::string & prefix) {
	std::vector<std::string> r;
	DIR * dir = opendir("/dev/shm");
	if (!dir) return r;
	while (dirent * e = readdir(dir)) {
		const std::string n = e->d_name;
		if (n.compare(0, prefix.size(), prefix) == 0 && (n.size() == prefix.size() || n[prefix.size()] == '_')) r.push_back(n);
	}
	closedir(dir);
	return r;
}

// Removes what a failing case leaves behind.
struct Cleaner {
	std::string name;
	~Cleaner() { for (auto & n : memoryNames(name)) shm_unlink(n.c_str()); }
};

void chooseZone(pbt::Data & d) {
	static const char * zones[] = { "UTC0", "AAA5", "BBB-5" };
	setenv("TZ", zones[d.upto(2)], 1);
	tzset();
}

using ms = std::chrono::milliseconds;

} // namespace

PBT(sequential, 12000, 300000) {
	chooseZone(d);
	const std::string name = uniqueName();
	Cleaner cleaner { name };
	const size_t minimum = Queue::MinimumChunkSize;
	const unsigned capacity = 1 + (unsigned) d.size(11);
	const unsigned buffer = (unsigned) (d.boolean() ? minimum + 4 * d.upto(8) : minimum + d.upto(150));
	d.note("capacity ", capacity, ", buffer ", buffer, ", TZ ", getenv("TZ"));

	struct Handle { std::unique_ptr<Queue> q; bool strict; };
	std::vector<Handle> handles;
	const bool strict = d.chance(1, 5);
	if (d.boolean()) handles.push_back({ std::make_unique<Queue>(capacity, buffer, name, strict), strict });
	else handles.push_back({ std::make_unique<Queue>(OpenOrCreateSelector(), capacity, buffer, name, strict), strict });
	CHECK(handles[0].q->getName() == name, "name");

	struct Entry { unsigned priority; Msg m; size_t chunks; };
	std::vector<Entry> model;
	size_t used = 0, number = 0, oversize = 0, reordered = 0, waits = 0;
	const size_t steps = 1 + d.size(24);
	auto chunks = [&] (size_t size) { return size <= buffer ? (size_t) 1 : (size - Header + buffer - Header - 1) / (buffer - Header); };
	auto message = [&] {
		Msg m { (unsigned) d.upto(3), (unsigned) number++, {} };
		m.payload = payload(m.producer, m.number, d.boolean() ? d.upto(20) : d.size(300));
		while (messageSize(m) == buffer) m.payload += 'x';   // Whether an exact fit is oversize is left open.
		return m;
	};
	auto take = [&] {
		size_t best = 0;
		for (size_t i = 1; i < model.size(); ++i) if (model[i].priority > model[best].priority) best = i;
		if (best != 0) ++reordered;
		Entry e = model[best];
		model.erase(model.begin() + (long) best);
		used -= e.chunks;
		return e.m;
	};

	for (size_t s = 0; s < steps; ++s) {
		Handle & h = handles[d.upto(handles.size() - 1)];
		Queue & q = *h.q;
		switch (d.weighted({ 6, 4, 4, 4, 2, 1 })) {
			case 0: {   // enqueue
				Msg m = message();
				const unsigned priority = d.boolean() ? 0 : (unsigned) d.upto(3);
				const size_t size = messageSize(m), n = chunks(size);
				const bool plain = priority == 0 && d.boolean();
				auto send = [&] { if (plain) q.enqueue(m); else q.enqueue(m, priority); };
				if (size > buffer && h.strict) {
					d.note("enqueue oversize ", size);
					MUST_THROW(send(), Exception::SizeException, "enqueue of an oversize object");
				} else if (used + n <= capacity) {
					d.note("enqueue ", show(m), " prio ", priority, " chunks ", n);
					send();
					model.push_back({ priority, m, n });
					used += n;
					if (n > 1) ++oversize;
				}
				break;
			}
			case 1: {   // tryEnqueue
				Msg m = message();
				const size_t size = messageSize(m);
				const unsigned priority = d.boolean() ? 0 : (unsigned) d.upto(3);
				const int wait = used < capacity ? (int) d.upto(2) * 1000 : d.chance(1, 4) ? 20 : 0;
				const size_t form = d.upto(3);
				double t = 0;
				bool waited = false;
				auto send = [&] () -> bool {
					t = clockNow();
					bool r;
					switch (form) {
						case 0: r = q.tryEnqueue(m, ms(wait), priority); waited = true; break;
						case 1: r = q.tryEnqueue(m, priority); break;
						case 2: r = q.tryEnqueue(m, ms(wait)); waited = true; break;
						default: r = q.tryEnqueue(m); break;
					}
					t = clockNow() - t;
					return r;
				};
				d.note("tryEnqueue ", show(m), " prio ", form < 2 ? priority : 0, " wait ", wait, " form ", form, " size ", size);
				if (size > buffer) { MUST_THROW((void) send(), Exception::SizeException, "tryEnqueue of an oversize object"); break; }
				const bool ok = send();
				CHECK(ok == (used < capacity), "tryEnqueue yields " << ok << " with " << used << " of " << capacity << " slots used");
				if (ok) { model.push_back({ form < 2 ? priority : 0, m, 1 }); ++used; }
				else if (waited && wait > 0) { ++waits; CHECK(t > wait * 1e-3 - 2e-3, "tryEnqueue waited " << t << " s instead of " << wait << " ms"); }
				break;
			}
			case 2: {   // dequeue
				if (model.empty()) break;
				const Msg expected = take();
				d.note("dequeue");
				const Msg m = q.dequeue();
				CHECK(m == expected, "dequeue yields " << show(m) << " instead of " << show(expected));
				break;
			}
			case 3: {   // tryDequeue
				const int wait = !model.empty() ? (int) d.upto(2) * 1000 : d.chance(1, 4) ? 20 : 0;
				const size_t form = d.upto(3);
				bool success = model.empty();
				d.note("tryDequeue wait ", wait, " form ", form);
				double t = clockNow();
				const Msg m = form == 0 ? q.tryDequeue() : form == 1 ? q.tryDequeue(success) : form == 2 ? q.tryDequeue(ms(wait)) : q.tryDequeue(ms(wait), success);
				t = clockNow() - t;
				if (form & 1) CHECK(success == !model.empty(), "tryDequeue sets success to " << success << " with " << model.size() << " objects");
				if (model.empty()) {
					CHECK(m == Msg(), "tryDequeue of an empty queue yields " << show(m));
					if (form >= 2 && wait > 0) { ++waits; CHECK(t > wait * 1e-3 - 2e-3, "tryDequeue waited " << t << " s instead of " << wait << " ms"); }
				} else {
					const Msg expected = take();
					CHECK(m == expected, "tryDequeue yields " << show(m) << " instead of " << show(expected));
				}
				break;
			}
			case 4: {
				CHECK(q.empty() == model.empty(), "empty() is " << q.empty() << " with " << model.size() << " objects");
				CHECK(q.full() == (used == capacity), "full() is " << q.full() << " with " << used << " of " << capacity << " slots used");
				break;
			}
			default: {   // Another handle.
				if (handles.size() == 3) break;
				const bool st = d.chance(1, 5);
				const unsigned otherCapacity = 1 + (unsigned) d.upto(20), otherBuffer = (unsigned) (minimum + d.upto(200));
				switch (d.upto(2)) {
					case 0: d.note("open"); handles.push_back({ std::make_unique<Queue>(name, st), st }); break;
					case 1: d.note("open or create ", otherCapacity, " ", otherBuffer); handles.push_back({ std::make_unique<Queue>(OpenOrCreateSelector(), otherCapacity, otherBuffer, name, st), st }); break;
					default: d.note("open or create ", otherCapacity); handles.push_back({ std::make_unique<Queue>(OpenOrCreateSelector(), otherCapacity, name, st), st }); break;
				}
				CHECK(handles.back().q->getName() == name, "name of an opened queue");
				break;
			}
		}
	}
	// Handles that did not create the queue leave it in place.
	while (handles.size() > 1) handles.pop_back();
	if (d.boolean()) { Queue late(name); CHECK(late.empty() == model.empty(), "a queue opened late"); }
	while (!model.empty()) { const Msg e = take(), m = handles[0].q->dequeue(); CHECK(m == e, "drained " << show(m) << " instead of " << show(e)); }
	CHECK(handles[0].q->empty() && !handles[0].q->full(), "drained queue");
	handles.clear();
	CHECK(memoryNames(name).empty(), "the shared memory of the queue remains after its creator was destroyed: " << memoryNames(name)[0]);
	d.nontrivial(oversize > 0 || reordered > 0 || waits > 0);
	if (oversize) d.label("oversize"); if (reordered) d.label("reordered"); if (waits) d.label("timed out");
}

PBT(constructors, 1500, 30000) {
	const unsigned capacity = 1 + (unsigned) d.upto(6);
	const std::string name = uniqueName();
	Cleaner cleaner { name };
	const bool strict = d.boolean();
	std::unique_ptr<Queue> q;
	const size_t form = d.upto(6);
	d.note("constructor ", form, ", capacity ", capacity, ", strict ", strict);
	d.nontrivial();
	bool defaultSize = true, named = false;
	const unsigned large = 400;
	switch (form) {
		case 0: q = std::make_unique<Queue>(capacity, strict); break;
		case 1: q = std::make_unique<Queue>(capacity, name, strict); named = true; break;
		case 2: q = std::make_unique<Queue>(OpenOrCreateSelector(), capacity, name, strict); named = true; break;
		case 3: q = std::make_unique<Queue>(capacity, large, strict); defaultSize = false; break;
		case 4: q = std::make_unique<Queue>(capacity, large, name, strict); defaultSize = false; named = true; break;
		case 5: q = std::make_unique<Queue>(OpenOrCreateSelector(), capacity, large, name, strict); defaultSize = false; named = true; break;
		default: {
			const unsigned small = (unsigned) d.upto(Queue::MinimumChunkSize - 1);
			MUST_THROW(Queue(capacity, small, name, strict), Exception::SizeException, "a buffer of " + std::to_string(small) + " bytes");
			MUST_THROW(Queue(OpenOrCreateSelector(), capacity, small, name, strict), Exception::SizeException, "a buffer of " + std::to_string(small) + " bytes");
			MUST_THROW(Queue(capacity, small, strict), Exception::SizeException, "a buffer of " + std::to_string(small) + " bytes");
			CHECK(memoryNames(name).empty(), "a rejected queue leaves shared memory behind");
			return;
		}
	}
	if (named) CHECK(q->getName() == name, "name");
	const std::string actual = q->getName();
	Cleaner cleaner2 { actual };
	CHECK(!actual.empty(), "no name");
	// A default constructed object always fits; capacity objects fit.
	Msg m;
	if (!defaultSize) m.payload = payload(1, 2, 250);
	Queue other(actual, true);
	for (unsigned i = 0; i < capacity; ++i) {
		m.number = i;
		Queue & w = d.boolean() ? *q : other;
		switch (d.upto(2)) {
			case 0: CHECK(w.tryEnqueue(m), "a queue of capacity " << capacity << " does not take object " << i); break;
			case 1: w.enqueue(m); break;
			default: CHECK(w.tryEnqueue(m, ms(1000)), "a queue of capacity " << capacity << " does not take object " << i); break;
		}
	}
	CHECK(q->full() && other.full(), "a queue with capacity objects is not full");
	CHECK(!other.tryEnqueue(m), "a queue takes more than capacity objects");
	Msg big;
	big.payload = payload(3, 4, 3000);
	for (unsigned i = 0; i < capacity; ++i) {
		const Msg r = (d.boolean() ? *q : other).dequeue();
		m.number = i;
		CHECK(r == m, "dequeued " << show(r) << " instead of " << show(m));
	}
	CHECK(q->empty(), "not empty");
	MUST_THROW(other.enqueue(big), Exception::SizeException, "an oversize object");
	MUST_THROW((void) q->tryEnqueue(big), Exception::SizeException, "an oversize object");
	if (strict) MUST_THROW(q->enqueue(big), Exception::SizeException, "an oversize object");
	CHECK(q->empty(), "a rejected object was enqueued");
	if (named && d.boolean()) {   // Creating a queue again starts afresh.
		other.enqueue(m);
		Queue again(capacity + 1, large, name);
		CHECK(again.empty(), "a newly created queue is not empty");
		Msg x; x.payload = payload(1, 1, 100);
		for (unsigned i = 0; i <= capacity; ++i) CHECK(again.tryEnqueue(x), "a newly created queue has the capacity of the old one");
		CHECK(!again.tryEnqueue(x), "capacity");
	}
}

namespace {

struct Plan { unsigned number; size_t length; unsigned pause; unsigned form; };

// A producer of a concurrent program.
void produce(Queue & q, unsigned id, const std::vector<Plan> & plan, size_t buffer) {
	for (auto & p : plan) {
		if (p.pause == 1) sched_yield();
		else if (p.pause > 1) usleep(20 * p.pause);
		Msg m { id, p.number, payload(id, p.number, p.length) };
		if (p.form == 0 || messageSize(m) >= buffer) q.enqueue(m);
		else if (p.form == 1) q.enqueue(m, Queue::DefaultPriority);
		else while (!q.tryEnqueue(m, ms(p.form == 2 ? 20000 : 1))) {}
	}
}

// The children of a case, ended with it.
struct Children {
	std::vector<pid_t> pids;
	~Children() { for (pid_t p : pids) { kill(p, SIGKILL); waitpid(p, nullptr, 0); } }
	template <typename F> void add(F f) {
		const pid_t parent = getpid();
		const pid_t p = fork();
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			if (getppid() != parent) _exit(3);
			try { f(); } catch (...) { _exit(2); }
			_exit(0);
		}
		pids.push_back(p);
	}
	bool done() {
		bool ok = true;
		for (pid_t p : pids) { int st; waitpid(p, &st, 0); ok = ok && WIFEXITED(st) && WEXITSTATUS(st) == 0; }
		pids.clear();
		return ok;
	}
};

} // namespace

// Several producers (threads and processes) of objects of any size, one consumer: nothing is lost, duplicated or damaged, and the objects of each producer arrive in order.
PBT(oversize, 3000, 80000, PBT_CONCURRENT) {
	chooseZone(d);
	const std::string name = uniqueName();
	Cleaner cleaner { name };
	const unsigned capacity = 1 + (unsigned) d.size(7);
	const unsigned buffer = (unsigned) (Queue::MinimumChunkSize + 4 * d.upto(30));
	const size_t producers = 1 + d.upto(3);
	const bool processes = d.chance(1, 3);
	std::vector<std::vector<Plan>> plans(producers);
	std::vector<size_t> handleForm(producers);
	size_t total = 0, big = 0;
	for (size_t p = 0; p < producers; ++p) {
		const size_t n = 1 + d.size(12);
		for (size_t i = 0; i < n; ++i) {
			plans[p].push_back({ (unsigned) i, d.boolean() ? d.upto(10) : d.upto(250), (unsigned) d.weighted({ 6, 3, 1, 1 }), (unsigned) d.upto(3) });
			if (plans[p].back().length > buffer) ++big;
		}
		total += n;
		handleForm[p] = d.upto(2);
	}
	d.note("capacity ", capacity, ", buffer ", buffer, ", producers ", producers, processes ? " (processes)" : " (threads)", ", objects ", total, ", consumer waits mixed");
	d.nontrivial(producers > 1 && big > 1);
	Queue q(capacity, buffer, name);
	auto run = [&] (size_t p) {
		if (handleForm[p] == 0) produce(q, (unsigned) p, plans[p], buffer);
		else if (handleForm[p] == 1) { Queue own(name); produce(own, (unsigned) p, plans[p], buffer); }
		else { Queue own(OpenOrCreateSelector(), 5u, 777u, name); produce(own, (unsigned) p, plans[p], buffer); }
	};
	Children children;
	std::vector<std::thread> ts;
	std::atomic<size_t> running { producers };   // stays there if the producers are processes
	std::atomic<bool> failed { false };
	for (size_t p = 0; p < producers; ++p) {
		if (processes) children.add([&] { run(p); });
		else ts.emplace_back([&, p] { try { run(p); } catch (...) { failed = true; } --running; });
	}
	std::vector<unsigned> next(producers, 0);
	std::string problem;
	for (size_t got = 0, idle = 0; got < total; ) {
		Msg m;
		bool success = true;
		const bool all = running == 0;   // All the remaining objects are in the queue.
		if (all && !failed && q.empty()) { problem = "the queue is empty with " + std::to_string(total - got) + " objects to come"; break; }
		const size_t form = d.weighted({ 2, 4, 3, 1 });
		switch (form) {
			case 0: m = q.dequeue(); break;
			case 1: m = q.tryDequeue(success); break;
			case 2: m = q.tryDequeue(ms(1), success); break;
			default: m = q.tryDequeue(ms(20000), success); break;
		}
		if (!success && all && !failed) { problem = "tryDequeue yields nothing with " + std::to_string(total - got) + " objects in the queue"; break; }
		if (!success) { if (!(m == Msg())) { problem = "a failing tryDequeue yields " + show(m); break; } if (++idle > 200) { usleep(100); if (idle > 50000) { problem = "objects are missing"; break; } } continue; }
		idle = 0;
		++got;
		if (m.producer >= producers) { problem = "an unknown object " + show(m); break; }
		const unsigned expected = next[m.producer];
		if (m.number != expected) { problem = "object " + show(m) + " received instead of number " + std::to_string(expected); break; }
		const Plan & plan = plans[m.producer][m.number];
		if (m.payload != payload(m.producer, m.number, plan.length)) { problem = "object " + show(m) + " is damaged"; break; }
		++next[m.producer];
	}
	if (!problem.empty() && !ts.empty()) {   // Let the producers finish.
		std::atomic<bool> finished { false };
		std::thread drain([&] { char b[2000]; boost::interprocess::message_queue raw(boost::interprocess::open_only, name.c_str()); size_t r; unsigned pr; while (!finished) { if (!raw.try_receive(b, sizeof b, r, pr)) usleep(100); } });
		for (auto & t : ts) t.join();
		finished = true;
		drain.join();
		ts.clear();
	}
	for (auto & t : ts) t.join();
	CHECK(problem.empty(), problem);
	CHECK(!failed, "a producer failed");
	if (processes) CHECK(children.done(), "a producing process failed");
	CHECK(q.empty(), "the queue is not empty after all objects were received");
	bool success = true;
	q.tryDequeue(success);
	CHECK(!success, "another object");
}

// Several producers and consumers of objects that fit.
PBT(many, 3000, 80000, PBT_CONCURRENT) {
	const std::string name = uniqueName();
	Cleaner cleaner { name };
	const unsigned capacity = 1 + (unsigned) d.size(7);
	const unsigned buffer = 200;
	const size_t producers = 1 + d.upto(2), consumers = 1 + d.upto(2);
	const bool processes = d.chance(1, 3), ownHandles = d.boolean();
	std::vector<std::vector<Plan>> plans(producers);
	size_t total = 0;
	for (auto & p : plans) {
		const size_t n = 1 + d.size(20);
		for (size_t i = 0; i < n; ++i) p.push_back({ (unsigned) i, d.upto(60), (unsigned) d.weighted({ 6, 3, 1, 1 }), (unsigned) d.upto(3) });
		total += n;
	}
	std::vector<size_t> quota(consumers, 0), forms(consumers);
	for (size_t i = 0; i < total; ++i) ++quota[d.upto(consumers - 1)];
	for (auto & f : forms) f = d.upto(2);
	d.note("capacity ", capacity, ", producers ", producers, processes ? " (processes)" : " (threads)", ", consumers ", consumers, ", objects ", total);
	d.nontrivial(producers > 1 && consumers > 1);
	Queue q(capacity, buffer, name, true);
	Children children;
	if (processes) for (size_t p = 0; p < producers; ++p) children.add([&, p] { produce(q, (unsigned) p, plans[p], buffer); });
	std::vector<std::thread> ts;
	std::atomic<bool> failed { false };
	if (!processes) for (size_t p = 0; p < producers; ++p) ts.emplace_back([&, p] {
		try { if (ownHandles) { Queue own(name); produce(own, (unsigned) p, plans[p], buffer); } else produce(q, (unsigned) p, plans[p], buffer); } catch (...) { failed = true; }
	});
	std::vector<std::vector<Msg>> got(consumers);
	for (size_t c = 0; c < consumers; ++c) ts.emplace_back([&, c] {
		std::unique_ptr<Queue> own;
		if (ownHandles) own = std::make_unique<Queue>(name);
		Queue & mine = own ? *own : q;
		while (got[c].size() < quota[c]) {
			bool success = true;
			Msg m;
			try {
				m = forms[c] == 0 ? mine.dequeue() : forms[c] == 1 ? mine.tryDequeue(success) : mine.tryDequeue(ms(2), success);
			} catch (...) { failed = true; got[c].push_back({ 99, 0, {} }); continue; }
			if (success) got[c].push_back(m); else sched_yield();
		}
	});
	for (auto & t : ts) t.join();
	CHECK(!failed, "an operation failed");
	if (processes) CHECK(children.done(), "a producing process failed");
	std::set<std::pair<unsigned, unsigned>> seen;
	for (auto & g : got) {
		std::map<unsigned, unsigned> last;
		for (auto & m : g) {
			CHECK(m.producer < producers && m.number < plans[m.producer].size(), "an unknown object " << show(m));
			CHECK(seen.insert({ m.producer, m.number }).second, "object " << show(m) << " was received twice");
			CHECK(m.payload == payload(m.producer, m.number, plans[m.producer][m.number].length), "object " << show(m) << " is damaged");
			auto l = last.find(m.producer);
			CHECK(l == last.end() || l->second < m.number, "object " << show(m) << " was received late");
			last[m.producer] = m.number;
		}
	}
	CHECK(seen.size() == total, "objects are missing");
	CHECK(q.empty(), "the queue is not empty after all objects were received");
}
