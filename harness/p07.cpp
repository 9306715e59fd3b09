// P07: the blocking and the synchronised queue - bounded FIFO behaviour sequentially and, as linearizability and absence of
// lost wake-ups, concurrently.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include <Balau/Container/SynchronizedQueue.hpp>
#include "gen.hpp"
#include "lin.hpp"
#include <deque>
#include <condition_variable>

using namespace Balau;
using Container::ArrayBlockingQueue;
using Container::SynchronizedQueue;
using ms = std::chrono::milliseconds;

static double clockNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }

// Elements whose moves take their time, so that windows in the queue's own code are wide.
static std::atomic<unsigned> slowness { 0 };
static thread_local uint64_t jitterState = 88172645463325252ULL;
static void jitter() {
	unsigned s = slowness.load(std::memory_order_relaxed);
	if (!s) return;
	jitterState ^= jitterState << 13; jitterState ^= jitterState >> 7; jitterState ^= jitterState << 17;
	if (jitterState % 4 == 0) for (volatile unsigned i = 0; i < s * 20; ++i) {}
	if (jitterState % 16 == 1) sched_yield();
}
struct Item {
	int v = -1;
	Item() = default;
	explicit Item(int v_) : v(v_) {}
	Item(Item && r) noexcept : v(r.v) { jitter(); r.v = -2; }
	Item & operator = (Item && r) noexcept { jitter(); v = r.v; r.v = -2; return *this; }
	Item(const Item &) = delete;
};

PBT(sequential_model, 200000, 4000000) {
	size_t capacity = 1 + d.size(6);
	size_t fullCalls = 0, spaceCalls = 0, fullCalls2 = 0, spaceCalls2 = 0;
	std::unique_ptr<ArrayBlockingQueue<Item>> q;
	bool defaults = d.boolean();
	if (defaults) q.reset(new ArrayBlockingQueue<Item>((unsigned) capacity, [&] (const Item &) { ++fullCalls; }, [&] (const Item &) { ++spaceCalls; }));
	else q.reset(new ArrayBlockingQueue<Item>((unsigned) capacity));
	std::deque<int> m;
	size_t n = 1 + d.size(40), wraps = 0;
	int next = 0;
	std::string log;
	for (size_t i = 0; i < n; ++i) {
		bool wasFull = m.size() == capacity;
		size_t f = fullCalls, s = spaceCalls, f2 = fullCalls2, s2 = spaceCalls2;
		int seenFull = -9;
		ArrayBlockingQueue<Item>::Callback cf = [&] (const Item & x) { ++fullCalls2; seenFull = x.v; }, cs = [&] (const Item &) { ++spaceCalls2; };
		switch (d.draw(8)) {
			case 0: case 1: log += "T"; { int v = next++; bool r = q->tryEnqueue(Item(v)); CHECK(r == !wasFull, log); if (r) m.push_back(v); CHECK(fullCalls == f + (wasFull && defaults) && spaceCalls == s, log << ": callbacks"); } break;
			case 2: log += "E"; if (!wasFull) { q->enqueue(Item(next)); m.push_back(next++); CHECK(fullCalls == f && spaceCalls == s, log << ": callbacks of a queue that was not full"); } break;
			case 3: log += "C"; { int v = next++; bool r = q->tryEnqueue(Item(v), ms(0), cf, cs); CHECK(r == !wasFull, log); if (r) m.push_back(v); CHECK(fullCalls == f && spaceCalls == s && fullCalls2 == f2 + wasFull && spaceCalls2 == s2, log << ": callbacks"); if (wasFull) CHECK(seenFull == v, log << ": the callback saw " << seenFull); } break;
			case 4: case 5: log += "D"; if (!m.empty()) { Item x = q->dequeue(); CHECK(x.v == m.front(), log << ": got " << x.v << " expected " << m.front()); m.pop_front(); ++wraps; } break;
			case 6: log += "d"; { bool ok = m.empty(); Item x = q->tryDequeue(ok); CHECK(ok == !m.empty(), log); CHECK(x.v == (m.empty() ? -1 : m.front()), log << ": got " << x.v); if (!m.empty()) { m.pop_front(); ++wraps; } } break;
			case 7: log += "t"; { Item x = q->tryDequeue(); CHECK(x.v == (m.empty() ? -1 : m.front()), log << ": got " << x.v); if (!m.empty()) { m.pop_front(); ++wraps; } } break;
			default: log += "w"; if (!wasFull) { CHECK(q->tryEnqueue(Item(next), ms(1)), log); m.push_back(next++); } else if (!m.empty()) { bool ok = false; Item x = q->tryDequeue(ms(1), ok); CHECK(ok && x.v == m.front(), log); m.pop_front(); ++wraps; } break;
		}
		CHECK(q->full() == (m.size() == capacity), log << ": full()");
		CHECK(q->empty() == m.empty(), log << ": empty()");
	}
	d.note("capacity " + std::to_string(capacity) + " " + log);
	d.nontrivial(wraps > capacity);
}

PBT(synchronized_sequential, 40000, 400000) {
	SynchronizedQueue<Item> q;
	std::deque<int> m;
	size_t n = 1 + d.size(30); int next = 0, got = 0; std::string log;
	for (size_t i = 0; i < n; ++i) {
		if (d.boolean()) { log += "E"; q.enqueue(Item(next)); m.push_back(next++); }
		else if (m.empty()) { log += "x"; MUST_THROW(q.dequeue(), Exception::EmptyException, log); }
		else { log += "D"; Item x = q.dequeue(); CHECK(x.v == m.front(), log << ": got " << x.v); m.pop_front(); ++got; }
		CHECK(q.empty() == m.empty(), log << ": empty()");
	}
	d.note(log);
	d.nontrivial(got > 1);
}

// A timed attempt waits at least the requested time before it gives up, and ends as soon as it can succeed.
PBT(timed_attempts, 1200, 10000) {
	size_t capacity = 1 + d.upto(2);
	ArrayBlockingQueue<Item> q((unsigned) capacity);
	bool enq = d.boolean(), helped = d.boolean();
	int wait = (int) d.range(5, 40);
	int helpAt = (int) d.range(0, wait / 2);
	d.note(std::string(enq ? "enqueue" : "dequeue") + " wait " + std::to_string(wait) + " ms" + (helped ? ", helped at " + std::to_string(helpAt) : ""));
	d.nontrivial();
	if (enq) for (size_t i = 0; i < capacity; ++i) q.enqueue(Item((int) i));
	// In the helped cases the wait is so long that only a missed wake-up makes it end by itself.
	ms w(helped ? 20000 : wait);
	std::thread helper([&] { if (helped) { std::this_thread::sleep_for(ms(helpAt)); if (enq) { Item x = q.dequeue(); (void) x; } else q.enqueue(Item(5)); } });
	double t = clockNow();
	bool ok = !helped; Item got;
	if (enq) ok = q.tryEnqueue(Item(9), w); else got = q.tryDequeue(w, ok);
	t = clockNow() - t;
	helper.join();
	CHECK(ok == helped, "succeeded: " << ok);
	if (!helped) CHECK(t >= wait * 0.001 - 0.0015, "gave up after " << t << " s");
	else { CHECK(t < 15, "woke up only after " << t << " s"); if (!enq) CHECK(got.v == 5, "got " << got.v); }
	CHECK(enq ? q.full() : q.empty(), "queue state afterwards");
}

// ---------------------------------------------------------------------------------------------

struct Op { enum Kind { Enq, Deq, TryEnq, TryDeq, Full, Empty } kind; int value; bool ok; uint64_t begin, end; int thread; };

static std::string showOps(std::vector<Op> ops) {
	std::sort(ops.begin(), ops.end(), [] (const Op & a, const Op & b) { return a.begin < b.begin; });
	static const char * names[] = { "enqueue", "dequeue", "tryEnqueue", "tryDequeue", "full", "empty" };
	std::ostringstream o;
	for (auto & x : ops) o << "  t" << x.thread << " [" << x.begin << "," << x.end << "] " << names[x.kind] << " " << x.value << (x.ok ? " ok" : " no") << "\n";
	return o.str();
}

static bool applyOp(std::deque<int> & s, const Op & o, size_t capacity) {
	switch (o.kind) {
		case Op::Enq: if (s.size() >= capacity) return false; s.push_back(o.value); return true;
		case Op::TryEnq: if (!o.ok) return s.size() >= capacity; if (s.size() >= capacity) return false; s.push_back(o.value); return true;
		case Op::Deq: if (s.empty() || s.front() != o.value) return false; s.pop_front(); return true;
		case Op::TryDeq: if (!o.ok) return s.empty(); if (s.empty() || s.front() != o.value) return false; s.pop_front(); return true;
		case Op::Full: return o.ok == (s.size() >= capacity);
		default: return o.ok == s.empty();
	}
}

static std::string keyOf(const std::deque<int> & s) { std::string k; for (int v : s) k += std::to_string(v) + ","; return k; }

PBT(blocking_linearizable, 4000, 150000, PBT_CONCURRENT) {
	size_t capacity = 1 + d.upto(2);
	size_t threads = 2 + d.upto(2);
	slowness = (unsigned) d.pick({ 0, 0, 5, 40 });
	std::vector<std::vector<std::pair<Op::Kind, unsigned>>> program(threads);
	std::ostringstream desc;
	desc << "capacity " << capacity << ", slowness " << slowness << ":";
	static const char * letters = "EDedfx";
	for (auto & p : program) {
		size_t n = 2 + d.upto(3);
		desc << " ";
		for (size_t i = 0; i < n; ++i) {
			auto k = (Op::Kind) d.weighted({ 4, 4, 3, 3, 1, 1 });
			p.emplace_back(k, (unsigned) d.upto(2));
			desc << letters[k] << p.back().second;
		}
	}
	d.note(desc.str());
	ArrayBlockingQueue<Item> q((unsigned) capacity);
	lin::Clock clock;
	std::vector<std::vector<Op>> logs(threads + 1);
	std::atomic<size_t> ready { 0 }, finished { 0 };
	std::atomic<uint64_t> beat { 0 };
	std::vector<std::atomic<int>> blocked(threads);  // the kind of the operation in progress, or -1
	for (auto & b : blocked) b = -1;
	std::vector<std::thread> ts;
	for (size_t t = 0; t < threads; ++t) ts.emplace_back([&, t] {
		jitterState = 88172645463325252ULL + t * 77;
		++ready; while (ready < threads) sched_yield();
		int value = (int) (t + 1) * 100;
		for (auto & step : program[t]) {
			Op o { step.first, 0, true, 0, 0, (int) t };
			ms wait(step.second == 2 ? 1 : 0);
			blocked[t] = (int) o.kind;
			o.begin = clock.tick();
			switch (o.kind) {
				case Op::Enq: o.value = value++; q.enqueue(Item(o.value)); break;
				case Op::TryEnq: o.value = value++; o.ok = step.second ? q.tryEnqueue(Item(o.value), wait) : q.tryEnqueue(Item(o.value)); break;
				case Op::Deq: { Item x = q.dequeue(); o.value = x.v; break; }
				case Op::TryDeq: { bool ok = false; Item x = step.second ? q.tryDequeue(wait, ok) : q.tryDequeue(ok); o.value = x.v; o.ok = ok; break; }
				case Op::Full: o.ok = q.full(); break;
				case Op::Empty: o.ok = q.empty(); break;
			}
			o.end = clock.tick();
			blocked[t] = -1;
			++beat;
			logs[t].push_back(o);
		}
		++finished;
	});
	// The helper feeds or drains the queue when all remaining threads wait.
	std::string lost;
	int value = 9000; size_t helped = 0;
	uint64_t last = beat; double since = clockNow(); double nap = 0.00005;
	while (finished < threads) {
		usleep((useconds_t) (nap * 1e6)); if (nap < 0.001) nap *= 1.5;
		uint64_t b = beat;
		if (b != last) { last = b; since = clockNow(); continue; }
		if (clockNow() - since < 0.012) continue;
		size_t enq = 0, deq = 0;
		for (auto & k : blocked) { int v = k; if (v == Op::Enq) ++enq; if (v == Op::Deq) ++deq; }
		if (enq + deq == 0) continue;
		bool canEnq = !q.full(), canDeq = !q.empty();
		if ((enq && canEnq) || (deq && canDeq)) {
			// Somebody waits for what is there: either it is about to run, or its wake-up was lost.
			if (clockNow() - since > 4 && lost.empty()) lost = enq && canEnq ? "an enqueue waits although there is space" : "a dequeue waits although there is an element";
			if (lost.empty()) continue;
		}
		Op o { Op::TryDeq, 0, true, 0, 0, (int) threads };
		o.begin = clock.tick();
		if (deq && (!enq || canEnq)) { o.kind = Op::TryEnq; o.value = value++; o.ok = q.tryEnqueue(Item(o.value)); }
		else { Item x = q.tryDequeue(o.ok); o.value = x.v; }
		o.end = clock.tick();
		logs[threads].push_back(o);
		++helped;
		if (lost.empty()) since = clockNow();
		if (helped > 200) FAIL("no progress\n" << desc.str());
	}
	for (auto & t : ts) t.join();
	slowness = 0;
	std::vector<Op> all;
	for (auto & l : logs) all.insert(all.end(), l.begin(), l.end());
	// Drain.
	for (;;) { Op o { Op::TryDeq, 0, true, clock.tick(), 0, 99 }; Item x = q.tryDequeue(o.ok); o.value = x.v; o.end = clock.tick(); all.push_back(o); if (!o.ok) break; if (all.size() > 58) break; }
	d.nontrivial(all.size() > threads * 2);
	if (helped) d.label("helped");
	CHECK(lost.empty(), lost << "\n" << showOps(all));
	bool ok = lin::check<std::deque<int>, Op>(all, {}, [&] (std::deque<int> & s, const Op & o) { return applyOp(s, o, capacity); }, keyOf);
	CHECK(ok, "the history is not that of a bounded queue of capacity " << capacity << "\n" << showOps(all));
}

// Many elements: each is delivered once, each consumer sees each producer's elements in order, and everybody finishes.
PBT(producers_consumers, 300, 8000, PBT_CONCURRENT) {
	size_t capacity = 1 + d.size(7), producers = 1 + d.upto(3), consumers = 1 + d.upto(3);
	size_t each = 20 + d.upto(200);
	slowness = (unsigned) d.pick({ 0, 0, 3 });
	unsigned timed = (unsigned) d.upto(2);
	d.note("capacity " + std::to_string(capacity) + ", " + std::to_string(producers) + " producers of " + std::to_string(each) + ", " + std::to_string(consumers) + " consumers, variant " + std::to_string(timed));
	d.nontrivial(producers + consumers > 2);
	ArrayBlockingQueue<Item> q((unsigned) capacity);
	std::atomic<size_t> claims { 0 };
	size_t total = producers * each;
	std::vector<std::thread> ts;
	std::vector<std::vector<int>> got(consumers);
	for (size_t p = 0; p < producers; ++p) ts.emplace_back([&, p] {
		jitterState += p * 13;
		for (size_t i = 0; i < each; ++i) {
			int v = (int) (p * 100000 + i);
			if (timed == 1 && i % 3 == 0) { while (!q.tryEnqueue(Item(v), ms(2))) {} }
			else if (timed == 2 && i % 2 == 0) { while (!q.tryEnqueue(Item(v))) sched_yield(); }
			else q.enqueue(Item(v));
		}
	});
	for (size_t c = 0; c < consumers; ++c) ts.emplace_back([&, c] {
		jitterState += c * 17 + 5;
		while (claims.fetch_add(1) < total) {
			bool ok = false; Item x;
			size_t k = got[c].size();
			if (timed == 1 && k % 3 == 1) { while (!ok) x = q.tryDequeue(ms(2), ok); }
			else if (timed == 2 && k % 2 == 1) { while (!ok) { x = q.tryDequeue(ok); if (!ok) sched_yield(); } }
			else x = q.dequeue();
			got[c].push_back(x.v);
		}
	});
	for (auto & t : ts) t.join();
	slowness = 0;
	std::multiset<int> seen;
	for (auto & g : got) {
		std::map<int, int> lastOf;
		for (int v : g) {
			seen.insert(v);
			int p = v / 100000;
			CHECK(!lastOf.count(p) || lastOf[p] < v, "element " << v << " after " << lastOf[p]);
			lastOf[p] = v;
		}
	}
	CHECK(seen.size() == total, seen.size() << " elements delivered of " << total);
	for (size_t p = 0; p < producers; ++p) for (size_t i = 0; i < each; ++i) CHECK(seen.count((int) (p * 100000 + i)) == 1, "element " << p * 100000 + i << " delivered " << seen.count((int) (p * 100000 + i)) << " times");
	CHECK(q.empty() && !q.full(), "queue not empty at the end");
}

PBT(synchronized_linearizable, 3000, 100000, PBT_CONCURRENT) {
	size_t threads = 2 + d.upto(2);
	slowness = (unsigned) d.pick({ 0, 5, 40 });
	std::vector<std::vector<unsigned>> program(threads);
	std::string desc;
	for (auto & p : program) { size_t n = 2 + d.upto(4); for (size_t i = 0; i < n; ++i) { p.push_back((unsigned) d.weighted({ 4, 4, 1 })); desc += "EDx"[p.back()]; } desc += " "; }
	d.note(desc);
	d.nontrivial();
	SynchronizedQueue<Item> q;
	lin::Clock clock;
	std::vector<std::vector<Op>> logs(threads);
	std::atomic<size_t> ready { 0 };
	std::vector<std::thread> ts;
	for (size_t t = 0; t < threads; ++t) ts.emplace_back([&, t] {
		jitterState += t * 77;
		++ready; while (ready < threads) sched_yield();
		int value = (int) (t + 1) * 100;
		for (unsigned k : program[t]) {
			Op o { k == 0 ? Op::Enq : k == 1 ? Op::TryDeq : Op::Empty, 0, true, clock.tick(), 0, (int) t };
			if (k == 0) { o.value = value++; q.enqueue(Item(o.value)); }
			else if (k == 1) { try { Item x = q.dequeue(); o.value = x.v; } catch (const Exception::EmptyException &) { o.ok = false; } }
			else o.ok = q.empty();
			o.end = clock.tick();
			logs[t].push_back(o);
		}
	});
	for (auto & t : ts) t.join();
	slowness = 0;
	std::vector<Op> all;
	for (auto & l : logs) all.insert(all.end(), l.begin(), l.end());
	for (;;) { Op o { Op::TryDeq, 0, true, clock.tick(), 0, 99 }; try { Item x = q.dequeue(); o.value = x.v; } catch (const Exception::EmptyException &) { o.ok = false; } o.end = clock.tick(); all.push_back(o); if (!o.ok) break; }
	bool ok = lin::check<std::deque<int>, Op>(all, {}, [&] (std::deque<int> & s, const Op & o) { return applyOp(s, o, 1000000); }, keyOf);
	CHECK(ok, "the history is not that of a queue\n" << showOps(all));
}
