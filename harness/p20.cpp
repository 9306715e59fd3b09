// P20: shared memory objects: one object per name whatever handles, processes and moves there are, removed with its creator.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Interprocess/SharedMemoryUtils.hpp>
#include <Balau/Interprocess/MSharedMemoryObject.hpp>
#include <boost/interprocess/shared_memory_object.hpp>
#include <boost/interprocess/mapped_region.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
#include "gen.hpp"
#include <atomic>
#include <dirent.h>
#include <memory>
#include <optional>
#include <sys/prctl.h>
#include <sys/wait.h>

using namespace Balau;
using namespace Balau::Interprocess;

namespace {

template <size_t N> struct Thing {
	int a;
	double b;
	unsigned char bytes[N];
	std::atomic<unsigned> counter { 0 };
	Thing() : a(-1), b(0.5) { fill(0); }
	Thing(int a_, double b_) : a(a_), b(b_) { fill((unsigned char) a_); }
	void fill(unsigned char c) { for (auto & x : bytes) x = c++; }
	bool intact() const { unsigned char c = bytes[0]; for (auto x : bytes) if (x != c++) return false; return true; }
};

std::string uniqueName(pbt::Data & d) {
	static unsigned counter = 0;
	return "vo_" + std::to_string(getpid()) + "_" + std::to_string(counter++) + std::string(d.chance(1, 4) ? d.upto(100) : 0, 'n');
}

std::vector<std::string> memoryNames(const std::string & prefix) {
	std::vector<std::string> r;
	DIR * dir = opendir("/dev/shm");
	if (!dir) return r;
	while (dirent * e = readdir(dir)) {
		const std::string n = e->d_name;
		if (n.compare(0, prefix.size(), prefix) == 0 && (n.size() == prefix.size() || n[prefix.size()] == '_')) r.push_back(n);
	}
	closedir(dir);
	return r;
}

struct Cleaner {
	std::string name;
	~Cleaner() { for (auto & n : memoryNames(name)) shm_unlink(n.c_str()); }
};

// Runs f in a child process: its result is whether f returned true.
template <typename F> bool inChild(F f) {
	const pid_t parent = getpid();
	const pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != parent) _exit(3);
		bool ok = false;
		try { ok = f(); } catch (...) {}
		_exit(ok ? 0 : 1);
	}
	int st;
	waitpid(p, &st, 0);
	return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// The managed and unmanaged forms.
template <size_t N> struct Managed { using Type = MSharedMemoryObject<Thing<N>>; static constexpr bool managed = true; static void remap(Type &) {} };
template <size_t N> struct Unmanaged { using Type = USharedMemoryObject<Thing<N>>; static constexpr bool managed = false; static void remap(Type & t) { t.remap(); } };

template <typename Form, size_t N> void history(pbt::Data & d) {
	using Object = typename Form::Type;
	using T = Thing<N>;
	const std::string name = uniqueName(d), second = name + "_s";
	Cleaner cleaner { name };
	struct Model { int a; double b; unsigned char fill; unsigned counter; };
	Model model { 0, 0, 0, 0 };
	struct Handle { std::unique_ptr<Object> object; bool readOnly; };
	std::vector<Handle> handles;
	size_t opened = 0, forks = 0, moves = 0;

	// Nothing can be opened yet.
	if (d.chance(1, 4)) {
		bool threw = false;
		try { if (d.boolean()) Object x(OpenOnlySelector(), name); else Object x(OpenReadOnlySelector(), name); } catch (const std::exception &) { threw = true; }
		CHECK(threw, "an object that does not exist was opened");
	}
	const int a = (int) d.range(-1000, 1000);
	const double b = (double) d.range(-100, 100) / 4;
	const size_t how = d.upto(3);
	d.note(Form::managed ? "managed" : "unmanaged", ", size ", sizeof(T), ", creation ", how, " a ", a, " b ", b);
	if (how == 3) {   // Creation replaces what there was.
		auto old = std::make_unique<Object>(CreateOnlySelector(), name, 4, 4.0);
		handles.push_back({ std::make_unique<Object>(CreateOnlySelector(), name, a, b), false });
		CHECK((*old)->a == 4, "an object that was replaced has changed for its holder");
		handles.push_back({ nullptr, false });
		handles.back().object = std::make_unique<Object>(OpenOnlySelector(), name);
		CHECK(&**handles[0].object != &**old, "the same memory");
		(*old)->a = 77;
		CHECK((*handles[1].object)->a == a, "the replaced object was opened");
		if (Form::managed) handles.pop_back();   // (The destructors of unmanaged objects remove the name.)
		(void) old.release();
		model = { a, b, (unsigned char) a, 0 };
	} else {
		switch (how) {
			case 0: handles.push_back({ std::make_unique<Object>(CreateOnlySelector(), name, a, b), false }); model = { a, b, (unsigned char) a, 0 }; break;
			case 1: handles.push_back({ std::make_unique<Object>(OpenOrCreateSelector(), name, a, b), false }); model = { a, b, (unsigned char) a, 0 }; break;
			default: handles.push_back({ std::make_unique<Object>(CreateOnlySelector(), name), false }); model = { -1, 0.5, 0, 0 }; break;
		}
	}
	auto same = [&] (const T & t) {
		if (t.a != model.a || t.b != model.b || t.bytes[0] != model.fill || t.counter != model.counter || !t.intact()) return false;
		return true;
	};
	auto all = [&] (const char * when) {
		for (size_t i = 0; i < handles.size(); ++i) {
			const Object & c = *handles[i].object;
			CHECK(same(*c), "handle " << i << " sees another object " << when << ": a " << c->a << " b " << c->b << " counter " << c->counter.load());
			CHECK(c->a == model.a, "handle " << i);
		}
	};
	all("after creation");
	const size_t steps = d.size(14);
	for (size_t s = 0; s < steps; ++s) {
		const size_t i = d.upto(handles.size() - 1);
		Handle & h = handles[i];
		switch (d.weighted({ 4, 4, 3, 2, 2 })) {
			case 0: {   // Write.
				if (h.readOnly) break;
				model.a = (int) d.range(-5000, 5000);
				model.b = (double) d.range(-100, 100) / 8;
				model.fill = (unsigned char) d.upto(255);
				++model.counter;
				d.note("write through ", i, " a ", model.a);
				(*h.object)->a = model.a;
				(**h.object).b = model.b;
				(*h.object)->fill(model.fill);
				++(**h.object).counter;
				break;
			}
			case 1: {   // Open.
				if (handles.size() == 5) break;
				++opened;
				switch (d.upto(2)) {
					case 0: d.note("open"); handles.push_back({ std::make_unique<Object>(OpenOnlySelector(), name), false }); break;
					case 1: d.note("open or create"); handles.push_back({ std::make_unique<Object>(OpenOrCreateSelector(), name, 9, 9.0), false }); break;
					default: d.note("open read-only"); handles.push_back({ std::make_unique<Object>(OpenReadOnlySelector(), name), true }); break;
				}
				break;
			}
			case 2: {   // A process which uses the object: the inherited handle, or one it opens itself.
				++forks;
				const size_t form = h.readOnly ? 3 : d.upto(3);
				const int na = form == 3 ? model.a : (int) d.range(-9000, 9000);
				d.note("process using ", i, " form ", form, " a ", na);
				const bool ok = inChild([&] {
					if (form == 2) {
						auto * own = new Object(OpenOnlySelector(), name);   // Not destroyed: unmanaged objects remove the name.
						if (!same(**own)) return false;
						(*own)->a = na;
						return true;
					}
					if (form == 0) Form::remap(*h.object);
					if (!same(**h.object)) return false;
					if (form != 3) (*h.object)->a = na;
					return true;
				});
				CHECK(ok, "a child process sees another object");
				model.a = na;
				break;
			}
			case 3: {   // Move construction: the new handle takes over.
				++moves;
				d.note("move ", i);
				auto n = std::make_unique<Object>(std::move(*h.object));
				h.object = std::move(n);   // Destroys the one moved from.
				CHECK(!memoryNames(name).empty(), "destroying an object moved from removed the shared memory");
				break;
			}
			default: {   // Move assignment.
				++moves;
				d.note("move assign ", i);
				auto other = std::make_unique<Object>(CreateOnlySelector(), second, 3, 3.0);
				*other = std::move(*h.object);
				CHECK(memoryNames(second).empty(), "the shared memory of the target of a move assignment remains");
				h.object = std::move(other);
				CHECK(!memoryNames(name).empty(), "destroying an object moved from removed the shared memory");
				break;
			}
		}
		all("after a step");
	}
	if (d.boolean()) {   // Every process sees every increment.
		const unsigned rounds = 1 + (unsigned) d.upto(200);
		const pid_t p = fork();
		Object * o = nullptr;
		for (auto & h : handles) if (!h.readOnly) { o = h.object.get(); break; }
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			for (unsigned r = 0; r < rounds; ++r) ++(*o)->counter;
			_exit(0);
		}
		for (unsigned r = 0; r < rounds; ++r) ++(*o)->counter;
		int st;
		waitpid(p, &st, 0);
		model.counter += 2 * rounds;
		all("after counting in two processes");
	}
	// Managed objects opened do not remove the memory, the creator does; unmanaged ones all remove it.
	if (Form::managed) {
		while (handles.size() > 1) handles.pop_back();
		Object late(OpenOnlySelector(), name);
		CHECK(same(*late), "an object opened late");
		if (how == 0 && d.boolean()) {
			handles.clear();
			CHECK(same(*late), "an open object changed when its creator was destroyed");
		}
	}
	handles.clear();
	CHECK(memoryNames(name).empty(), "the shared memory remains after its creator was destroyed: " << memoryNames(name)[0]);
	d.nontrivial(opened + forks + moves > 1);
	if (opened) d.label("opened");
	if (forks) d.label("forked");
	if (moves) d.label("moved");
}

} // namespace

PBT(managed, 2500, 80000) {
	switch (d.upto(3)) {
		case 0: history<Managed<1>, 1>(d); break;
		case 1: history<Managed<100>, 100>(d); break;
		case 2: history<Managed<3300>, 3300>(d); break;
		default: history<Managed<20000>, 20000>(d); break;
	}
}

PBT(unmanaged, 2500, 80000) {
	switch (d.upto(3)) {
		case 0: history<Unmanaged<1>, 1>(d); break;
		case 1: history<Unmanaged<100>, 100>(d); break;
		case 2: history<Unmanaged<4200>, 4200>(d); break;
		default: history<Unmanaged<20000>, 20000>(d); break;
	}
}

// Objects with generated names do not meet.
PBT(anonymous, 500, 10000) {
	const size_t n = 2 + d.upto(6);
	d.nontrivial();
	d.note("objects ", n);
	const bool managed = d.boolean();
	const size_t before = memoryNames("SMO").size();
	{
		std::vector<std::unique_ptr<MSharedMemoryObject<Thing<10>>>> m;
		std::vector<std::unique_ptr<USharedMemoryObject<Thing<10>>>> u;
		for (size_t i = 0; i < n; ++i) {
			if (managed) m.push_back(std::make_unique<MSharedMemoryObject<Thing<10>>>((int) i, i * 0.5));
			else u.push_back(std::make_unique<USharedMemoryObject<Thing<10>>>((int) i, i * 0.5));
		}
		for (size_t i = 0; i < n; ++i) {
			Thing<10> & t = managed ? **m[i] : **u[i];
			CHECK(t.a == (int) i && t.b == i * 0.5 && t.intact(), "object " << i << " holds a " << t.a);
			t.a += 100;
		}
		for (size_t i = 0; i < n; ++i) CHECK((managed ? **m[i] : **u[i]).a == (int) i + 100, "object " << i);
		if (!managed) {   // Removal of all of them, whichever the order.
			while (!u.empty()) u.erase(u.begin() + (long) d.upto(u.size() - 1));
		} else while (!m.empty()) m.erase(m.begin() + (long) d.upto(m.size() - 1));
	}
	(void) before;
	const std::string p1 = SharedMemoryUtils::namePrefixFromUUID(), p2 = SharedMemoryUtils::namePrefixFromUUID();
	CHECK(p1 != p2 && !p1.empty(), "generated prefixes");
	CHECK(p1.find('-') == std::string::npos, "generated prefix " << p1);
}
