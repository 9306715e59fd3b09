// P17: semaphores, cyclic barriers, lazy values and single time executors, under concurrent and sequential programs.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include <functional>
#include <Balau/Concurrent/LazyValue.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include "gen.hpp"
#include <atomic>
#include <memory>
#include <thread>

using namespace Balau::Concurrent;

namespace {

double clockNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }

// Pauses between the operations of a thread, as planned by the generator.
void pause(unsigned p) {
	switch (p) {
		case 0: return;
		case 1: sched_yield(); return;
		case 2: for (volatile unsigned i = 0; i < 300; ++i) {} return;
		default: usleep(50 * p); return;
	}
}

unsigned pausePlan(pbt::Data & d) { return (unsigned) d.weighted({ 6, 3, 2, 1, 1 }); }

template <typename F> bool within(double seconds, F f) {
	const double start = clockNow();
	useconds_t nap = 20;
	while (!f()) {
		if (clockNow() - start > seconds) return false;
		usleep(nap);
		if (nap < 2000) nap *= 2;
	}
	return true;
}

} // namespace

// Permits are neither lost nor made up: no decrement completes without a permit, and none waits while there are permits.
PBT(semaphore, 8000, 200000, PBT_CONCURRENT) {
	const unsigned initial = (unsigned) d.upto(3);
	const size_t producers = d.upto(2), consumers = 1 + d.upto(3), mixed = d.upto(2);
	std::vector<std::vector<unsigned>> give(producers), take(consumers), both(mixed);
	size_t given = initial, wanted = 0;
	for (auto & p : give) { p.resize(1 + d.upto(8)); for (auto & x : p) x = pausePlan(d); given += p.size(); }
	for (auto & c : take) { c.resize(d.upto(6)); for (auto & x : c) x = pausePlan(d); wanted += c.size(); }
	for (auto & m : both) { m.resize(1 + d.upto(6)); for (auto & x : m) x = pausePlan(d); }
	while (wanted > given) {   // Only as many as there will be.
		auto & c = take[d.upto(take.size() - 1)];
		for (auto & t : take) if (!t.empty() && c.empty()) { t.pop_back(); --wanted; break; }
		if (!c.empty()) { c.pop_back(); --wanted; }
	}
	d.note("initial ", initial, ", producers ", producers, " give ", given - initial, ", consumers ", consumers, " take ", wanted, ", mixed ", mixed);
	d.nontrivial(wanted > initial && producers > 0);
	auto s = initial == 0 && d.boolean() ? std::make_unique<Semaphore>() : std::make_unique<Semaphore>(initial);
	std::atomic<long> released { initial }, acquired { 0 };
	std::atomic<bool> overdrawn { false };
	std::atomic<size_t> finished { 0 }, ready { 0 };
	const size_t n = producers + consumers + mixed;
	auto start = [&] { ++ready; while (ready < n) sched_yield(); };
	auto inc = [&] { ++released; s->increment(); };
	auto dec = [&] { s->decrement(); if (++acquired > released) overdrawn = true; };
	std::vector<std::thread> ts;
	for (auto & p : give) ts.emplace_back([&, plan = p] { start(); for (unsigned x : plan) { pause(x); inc(); } ++finished; });
	for (auto & c : take) ts.emplace_back([&, plan = c] { start(); for (unsigned x : plan) { pause(x); dec(); } ++finished; });
	for (auto & m : both) ts.emplace_back([&, plan = m] { start(); for (unsigned x : plan) { inc(); pause(x); dec(); } ++finished; });
	const bool done = within(20, [&] { return finished == n; });
	if (!done) {   // Release the threads, so that they can be joined.
		while (finished < n) { s->increment(); usleep(1000); }
		for (auto & t : ts) t.join();
		FAIL("a decrement waits although there is a permit");
	}
	for (auto & t : ts) t.join();
	CHECK(!overdrawn, "a decrement completed without a permit");
	const long left = released - acquired;
	for (long i = 0; i < left; ++i) {   // All of these have to complete at once; a hang is reported as such.
		s->decrement();
	}
	// And not one more.
	if (d.chance(1, 4)) {
		std::atomic<bool> through { false };
		std::thread t([&] { s->decrement(); through = true; });
		usleep(3000);
		const bool early = through;
		s->increment();
		t.join();
		CHECK(!early, "one permit too many");
	}
}

// Nobody passes a barrier before everybody has reached it, everybody passes it then, and it can be used again and reconfigured.
PBT(barrier, 4000, 100000, PBT_CONCURRENT) {
	const size_t phases = 1 + d.upto(2);
	std::unique_ptr<CyclicBarrier> b;
	size_t most = 0;
	for (size_t phase = 0; phase < phases; ++phase) {
		const size_t n = 1 + d.upto(5), rounds = 1 + d.upto(8);
		most = std::max(most, n * rounds);
		if (!b) b = std::make_unique<CyclicBarrier>((unsigned) n); else b->reconfigure((unsigned) n);
		std::vector<std::vector<unsigned>> plan(n);
		for (auto & p : plan) { p.resize(rounds); for (auto & x : p) x = pausePlan(d); }
		d.note("phase of ", n, " threads, ", rounds, " rounds");
		std::vector<std::atomic<size_t>> arrived(rounds + 1);
		for (auto & a : arrived) a = 0;
		std::atomic<size_t> finished { 0 };
		std::atomic<long> early { -1 }, late { -1 };
		std::vector<std::thread> ts;
		for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
			for (size_t r = 0; r < rounds; ++r) {
				pause(plan[t][r]);
				++arrived[r];
				b->countdown();
				if (arrived[r] != n) early = (long) r;
				if (r + 2 <= rounds && r > 0 && arrived[r - 1] != n) late = (long) r;
			}
			++finished;
		});
		// A hang here is reported as a hang of the case.
		for (auto & t : ts) t.join();
		CHECK(early < 0, "a thread passed round " << early << " before all threads had arrived");
		CHECK(late < 0, "round " << late << " overlaps an earlier one");
	}
	d.nontrivial(most > 2);
}

namespace {

struct Payload {
	int a = 0;
	std::string text;
	std::shared_ptr<int> alive;
};

} // namespace

// A lazy value is constructed exactly once, by one thread, however many ask; failures leave it unconstructed; destruction is called once.
PBT(lazy_value, 12000, 300000, PBT_CONCURRENT) {
	const size_t n = 1 + d.upto(4), calls = 1 + d.upto(3), failures = d.upto(2);
	const bool withDestruct = d.boolean();
	std::vector<std::vector<unsigned>> plan(n);
	for (auto & p : plan) { p.resize(calls * 2); for (auto & x : p) x = pausePlan(d); }
	d.note(n, " threads, ", calls, " calls, ", failures, " failures");
	d.nontrivial(n > 1);
	std::atomic<int> attempts { 0 }, constructions { 0 }, destructions { 0 }, overlap { 0 };
	std::atomic<bool> wrong { false }, twice { false };
	std::atomic<size_t> caught { 0 }, ready { 0 };
	auto token = std::make_shared<int>(1);
	alignas(LazyValue<Payload>) static unsigned char memory[sizeof(LazyValue<Payload>)];
	memset(memory, (int) d.pick<unsigned>({ 0, 1, 255 }), sizeof memory);
	auto * v = withDestruct
		? new (memory) LazyValue<Payload>([&] (Payload & p) { ++destructions; if (p.a != 42 || p.text != "constructed value") wrong = true; })
		: new (memory) LazyValue<Payload>();
	CHECK(!v->isConstructed(), "constructed before use");
	std::vector<std::vector<Payload *>> got(n);
	std::vector<std::thread> ts;
	for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
		++ready; while (ready < n) sched_yield();
		for (size_t i = 0; i < calls; ++i) {
			pause(plan[t][i * 2]);
			try {
				Payload & p = (*v)([&] {
					if (++overlap != 1) twice = true;
					pause(plan[t][i * 2 + 1]);
					const int k = ++attempts;
					--overlap;
					if (k <= (int) failures) throw std::runtime_error("construction");
					++constructions;
					return Payload { 42, "constructed value", token };
				});
				if (p.a != 42 || p.text != "constructed value" || p.alive != token) wrong = true;
				got[t].push_back(&p);
			} catch (const std::runtime_error &) { ++caught; }
		}
	});
	for (auto & t : ts) t.join();
	const size_t total = n * calls, expectedFailures = std::min(failures, total);
	CHECK(!twice, "constructed by two threads at a time");
	CHECK(!wrong, "another value");
	CHECK(caught == expectedFailures, caught << " failures reported of " << expectedFailures);
	CHECK(constructions == (total > expectedFailures ? 1 : 0), "constructed " << constructions << " times");
	CHECK(v->isConstructed() == (constructions == 1), "isConstructed");
	Payload * one = nullptr;
	for (auto & g : got) for (Payload * p : g) { CHECK(!one || one == p, "different objects"); one = p; }
	{ std::lock_guard<std::mutex> l(v->getMutex()); }
	v->~LazyValue<Payload>();
	CHECK(destructions == (withDestruct && constructions == 1 ? 1 : 0), "destroyed " << destructions << " times");
	CHECK(token.use_count() == 1, "the value leaks");
}

// A single time executor runs its code once, and its destructor code if and only if the code was run.
PBT(single_time, 12000, 300000, PBT_CONCURRENT) {
	const size_t n = d.upto(4), calls = 1 + d.upto(3), failures = d.upto(2);
	const bool withDestruct = d.boolean(), empty = d.chance(1, 12);
	std::vector<std::vector<unsigned>> plan(n);
	for (auto & p : plan) { p.resize(calls * 2); for (auto & x : p) x = pausePlan(d); }
	d.note(n, " threads, ", calls, " calls, ", failures, " failures", empty ? ", no code" : "");
	d.nontrivial(n > 1);
	std::atomic<int> attempts { 0 }, runs { 0 }, destructions { 0 }, overlap { 0 };
	std::atomic<bool> twice { false }, before { false };
	std::atomic<size_t> caught { 0 }, ready { 0 };
	alignas(SingleTimeExecutor) static unsigned char memory[sizeof(SingleTimeExecutor)];
	memset(memory, (int) d.pick<unsigned>({ 0, 1, 255 }), sizeof memory);
	size_t useful = 0;
	std::vector<std::thread> ts;
	std::vector<std::vector<unsigned>> & pl = plan;
	std::function<void ()> code;
	std::atomic<unsigned> slow { plan.empty() ? 0 : plan[0][1] };
	int product = 0;   // written by the code, read after it
	if (!empty) code = [&] {
		if (++overlap != 1) twice = true;
		pause(slow);
		const int k = ++attempts;
		--overlap;
		if (k <= (int) failures) throw std::runtime_error("code");
		product = 7;
		++runs;
	};
	auto * e = withDestruct ? new (memory) SingleTimeExecutor(code, [&] { ++destructions; }) : new (memory) SingleTimeExecutor(code);
	CHECK(!e->hasExecuted(), "executed before use");
	for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
		++ready; while (ready < n) sched_yield();
		for (size_t i = 0; i < calls; ++i) {
			pause(pl[t][i * 2]);
			try {
				(*e)();
				if (!empty && runs != 1) before = true;
			} catch (const std::runtime_error &) { ++caught; }
		}
	});
	for (auto & t : ts) t.join();
	useful = empty ? 0 : n * calls;
	const size_t expectedFailures = std::min(failures, useful);
	CHECK(!twice, "run by two threads at a time");
	CHECK(!before, "a call returned before the code had been run");
	CHECK(caught == expectedFailures, caught << " failures reported of " << expectedFailures);
	const int expected = useful > expectedFailures ? 1 : 0;
	CHECK(runs == expected && product == expected * 7, "run " << runs << " times");
	if (!empty) CHECK(e->hasExecuted() == (runs == 1), "hasExecuted");
	{ std::lock_guard<std::mutex> l(e->getMutex()); }
	e->~SingleTimeExecutor();
	if (!empty) CHECK(destructions == (withDestruct ? runs.load() : 0), "the destructor code was run " << destructions << " times");
}
