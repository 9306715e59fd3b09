// P11: validation, construction, sharing and destruction of injected objects.
#include "pbt.hpp"
#include "gen.hpp"
#include <queue>
#include <list>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <map>
#include <set>
#include <thread>

using namespace Balau;

namespace {

constexpr int CLASSES = 4;

enum Form { SHARED, CSHARED, WEAK, CWEAK, VALUE, UNIQUE, INJECTOR_WEAK, INJECTOR_CWEAK, INJECTOR_SHARED, INJECTOR_CSHARED, FORMS };
const char * const formNames[] = { "shared", "const-shared", "weak", "const-weak", "value", "unique", "weak-injector", "const-weak-injector", "shared-injector", "const-shared-injector" };

struct Dep { Form form; int target; std::string name; };

struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };

// The behaviour of the node classes, set by each case.
struct World {
	std::vector<Dep> deps[CLASSES];
	bool failing[CLASSES] = {};
	std::atomic<long> constructed[CLASSES];
	std::atomic<bool> nullDependency { false };
	std::atomic<int> callbacks { 0 };
	bool delays = false;
	World() { for (auto & c : constructed) c = 0; }
} * world;
std::atomic<long> live { 0 };

struct NodeBase {
	std::vector<std::shared_ptr<const void>> held;
	std::vector<std::weak_ptr<const Injector>> injectors;
	int n;
	unsigned magic = 0x600D;
	explicit NodeBase(int n_) : n(n_) { ++live; }
	NodeBase(const NodeBase & r) : held(r.held), injectors(r.injectors), n(r.n) { ++live; }
	virtual ~NodeBase() { magic = 0xDEAD; --live; }
};

template <int N> struct Node;
void resolve(NodeBase & node, const Injector & injector);

template <int N> struct Node : NodeBase {
	Node() : NodeBase(N) {}
	static void fill(NodeBase & node, const Injector & injector) {
		resolve(node, injector);
		if (world->delays) std::this_thread::yield();
		if (world->failing[N]) throw Boom();
		++world->constructed[N];
	}
	static Node BALAU_newStackInstance(const Injector & injector) { Node n; fill(n, injector); return n; }
	static Node * BALAU_newHeapInstance(const Injector & injector) {
		auto n = std::make_unique<Node>();
		fill(*n, injector);
		return n.release();
	}
	static std::vector<Impl::BindingKey> BALAU_getDependencyKeys();
};

// A provider whose dependencies are those of the class.
template <typename B, int N> struct Provider {
	std::shared_ptr<Node<N>> made = std::make_shared<Node<N>>();
	std::shared_ptr<B> operator () () const { return made; }
	static Provider * BALAU_newHeapInstance(const Injector & injector) {
		auto p = std::make_unique<Provider>();
		Node<N>::fill(*p->made, injector);
		return p.release();
	}
	static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return Node<N>::BALAU_getDependencyKeys(); }
};

template <typename F> auto dispatch(int n, F f) {
	switch (n) {
		case 0: return f(std::integral_constant<int, 0>());
		case 1: return f(std::integral_constant<int, 1>());
		case 2: return f(std::integral_constant<int, 2>());
		default: return f(std::integral_constant<int, 3>());
	}
}

std::vector<Impl::BindingKey> keys(int n) {
	std::vector<Impl::BindingKey> r;
	for (auto & d : world->deps[n]) {
		dispatch(d.target, [&] (auto k) {
			using X = Node<decltype(k)::value>;
			switch (d.form) {
				case SHARED: r.push_back(Impl::CreateBindingKey<std::shared_ptr<X>>()(d.name)); break;
				case CSHARED: r.push_back(Impl::CreateBindingKey<std::shared_ptr<const X>>()(d.name)); break;
				case WEAK: r.push_back(Impl::CreateBindingKey<std::weak_ptr<X>>()(d.name)); break;
				case CWEAK: r.push_back(Impl::CreateBindingKey<std::weak_ptr<const X>>()(d.name)); break;
				case VALUE: r.push_back(Impl::CreateBindingKey<X>()(d.name)); break;
				case UNIQUE: r.push_back(Impl::CreateBindingKey<std::unique_ptr<X>>()(d.name)); break;
				case INJECTOR_WEAK: r.push_back(Impl::CreateBindingKey<std::weak_ptr<Injector>>()("")); break;
				case INJECTOR_CWEAK: r.push_back(Impl::CreateBindingKey<std::weak_ptr<const Injector>>()("")); break;
				case INJECTOR_CSHARED: r.push_back(Impl::CreateBindingKey<std::shared_ptr<const Injector>>()("")); break;
				default: r.push_back(Impl::CreateBindingKey<std::shared_ptr<Injector>>()("")); break;
			}
		});
	}
	return r;
}

template <int N> std::vector<Impl::BindingKey> Node<N>::BALAU_getDependencyKeys() { return keys(N); }

void hold(NodeBase & node, std::shared_ptr<const void> p, const NodeBase * b) {
	if (!p || b->magic != 0x600D) world->nullDependency = true;
	node.held.push_back(std::move(p));
}

void resolve(NodeBase & node, const Injector & injector) {
	for (auto & d : world->deps[node.n]) {
		dispatch(d.target, [&] (auto k) {
			using X = Node<decltype(k)::value>;
			switch (d.form) {
				case SHARED: { auto p = injector.getInstance<std::shared_ptr<X>>(d.name); hold(node, p, p.get()); break; }
				case CSHARED: { auto p = injector.getInstance<std::shared_ptr<const X>>(d.name); hold(node, p, p.get()); break; }
				case WEAK: { auto p = injector.getInstance<std::weak_ptr<X>>(d.name).lock(); hold(node, p, p.get()); break; }
				case CWEAK: { auto p = injector.getInstance<std::weak_ptr<const X>>(d.name).lock(); hold(node, p, p.get()); break; }
				case VALUE: { auto p = std::make_shared<X>(injector.getInstance<X>(d.name)); hold(node, p, p.get()); break; }
				case UNIQUE: { std::shared_ptr<X> p = injector.getInstance<std::unique_ptr<X>>(d.name); hold(node, p, p.get()); break; }
				case INJECTOR_WEAK: { auto w = injector.getInstance<std::weak_ptr<Injector>>(); node.injectors.push_back(w); if (!w.lock()) world->nullDependency = true; break; }
				case INJECTOR_CWEAK: { auto w = injector.getInstance<std::weak_ptr<const Injector>>(); node.injectors.push_back(w); if (!w.lock()) world->nullDependency = true; break; }
				case INJECTOR_CSHARED: injector.getShared<const Injector>(); break;
				default: injector.getShared<Injector>(); break;
			}
		});
	}
}

enum Variant { LAZY, EAGER, LOCAL, PROVIDED, PROVIDER, FUNCTION, VARIANTS };
const char * const variantNames[] = { "lazy", "eager", "thread-local", "provided", "provider", "function" };

struct Spec {
	int n;
	Form category;       // SHARED, CSHARED, VALUE, UNIQUE
	int variant = 0;
	std::string name;
	const void * given = nullptr;
	// model state
	bool made = false, busy = false;
	const void * seen = nullptr;
	std::set<const void *> children;
};
using SpecPtr = std::shared_ptr<Spec>;

struct Conf : ApplicationConfiguration {
	std::vector<SpecPtr> specs;
	std::vector<std::function<void (const Conf &)>> extras;
	template <typename T> void doRegisterStatic(std::shared_ptr<T> * p, const std::string & name) const { std::string temporary(name); registerStaticSingleton<T>(p, temporary); }
	void post(std::function<void (const Injector &)> f) const { registerPostConstructionCall(f); }
	void pre(std::function<void ()> f) const { registerPreDestructionCall(f); }

	template <int N, typename B> void shared(Spec & s) const {
		auto & b = bind<B>(s.name);
		switch (s.variant) {
			case LAZY: b.template toSingleton<Node<N>>(); break;
			case EAGER: b.template toEagerSingleton<Node<N>>(); break;
			case LOCAL: b.template toThreadLocal<Node<N>>(); break;
			case PROVIDED: { std::shared_ptr<B> p = std::make_shared<Node<N>>(); s.given = p.get(); b.toSingleton(p); break; }
			case PROVIDER: b.template toSingletonProvider<Provider<B, N>>(); break;
			default: b.toSingletonProvider(std::function<std::shared_ptr<B> ()>([] { if (world->failing[N]) throw Boom(); ++world->constructed[N]; return std::make_shared<Node<N>>(); })); break;
		}
	}
	void configure() const override {
		for (auto & s : specs) dispatch(s->n, [&] (auto k) {
			constexpr int N = decltype(k)::value;
			switch (s->category) {
				case SHARED: this->shared<N, Node<N>>(*s); break;
				case CSHARED: this->shared<N, const Node<N>>(*s); break;
				case VALUE: this->bind<Node<N>>(s->name).toValue(); break;
				default: this->bind<Node<N>>(s->name).template toUnique<Node<N>>(); break;
			}
		});
		for (auto & e : extras) e(*this);
	}
};

using Key = std::tuple<int, int, std::string>;
using Level = std::map<Key, SpecPtr>;

bool hasDeps(const Spec & s) { return s.category == VALUE || s.category == UNIQUE || (s.variant != PROVIDED && s.variant != FUNCTION); }
bool eager(const Spec & s) { return (s.category == SHARED || s.category == CSHARED) && (s.variant == EAGER || s.variant == PROVIDER || s.variant == FUNCTION); }

std::vector<Form> candidates(Form f) {
	switch (f) {
		case SHARED: case WEAK: return { SHARED };
		case CSHARED: case CWEAK: return { CSHARED, SHARED };
		default: return { f };
	}
}

struct ModelFailure { bool boom; };
struct Unpredictable {};

struct Model {
	std::vector<std::shared_ptr<Level>> levels;
	std::map<int, long> constructed;

	SpecPtr find(size_t level, Form f, int n, const std::string & name, size_t * where = nullptr) const {
		for (Form c : candidates(f)) for (size_t i = level + 1; i-- > 0; ) {
			auto it = levels[i]->find(Key(n, c, name));
			if (it != levels[i]->end()) { if (where) *where = i; return it->second; }
		}
		return nullptr;
	}

	// The faults that validation of the given level may report.
	void validate(size_t level, bool & missing, bool & sharedInjector, bool & cycle) const {
		missing = sharedInjector = cycle = false;
		std::map<Spec *, std::set<Spec *>> edges;
		for (auto & e : *levels[level]) {
			auto & s = *e.second;
			if (!hasDeps(s)) continue;
			for (auto & d : world->deps[s.n]) {
				if (d.form >= INJECTOR_SHARED) { if (s.category == SHARED || s.category == CSHARED) sharedInjector = true; continue; }
				if (d.form >= INJECTOR_WEAK) continue;
				size_t where = 0;
				auto t = find(level, d.form, d.target, d.name, &where);
				if (!t) missing = true;
				else if (where == level) edges[&s].insert(t.get());
			}
		}
		for (auto & e : edges) {
			std::set<Spec *> seen;
			std::vector<Spec *> todo { e.first };
			while (!todo.empty()) {
				Spec * x = todo.back();
				todo.pop_back();
				auto it = edges.find(x);
				if (it != edges.end()) for (Spec * y : it->second) {
					if (y == e.first) cycle = true;
					if (seen.insert(y).second) todo.push_back(y);
				}
			}
		}
	}

	// Predicts what a use of the binding constructs; throws what the use throws. The level is that of the injector which holds the binding.
	void build(size_t level, Spec & s, bool dependencies) {
		if (dependencies) for (auto & d : world->deps[s.n]) {
			if (d.form >= INJECTOR_WEAK) continue;
			request(level, d.form, d.target, d.name);
		}
		if (world->failing[s.n]) throw ModelFailure { true };
		++constructed[s.n];
	}
	void use(size_t level, Spec & s) {
		if (s.category == VALUE || s.category == UNIQUE) {
			if (s.busy) throw Unpredictable();
			s.busy = true;
			try { build(level, s, true); } catch (...) { s.busy = false; throw; }
			s.busy = false;
			return;
		}
		if (s.variant == PROVIDED || s.made) return;
		if (s.busy) throw Unpredictable();
		s.busy = true;
		try { build(level, s, hasDeps(s)); } catch (...) { s.busy = false; throw; }
		s.busy = false;
		s.made = true;
	}
	SpecPtr request(size_t level, Form f, int n, const std::string & name) {
		size_t where = 0;
		auto s = find(level, f, n, name, &where);
		if (!s) throw ModelFailure { false };
		use(where, *s);
		return s;
	}
};

enum Outcome { OK, BOOM, NO_BINDING };

void compareCounts(const Model & m) {
	for (int n = 0; n < CLASSES; ++n) {
		auto it = m.constructed.find(n);
		long want = it == m.constructed.end() ? 0 : it->second;
		CHECK(world->constructed[n] == want, "class " << n << ": " << world->constructed[n] << " objects were constructed, expected " << want);
	}
	CHECK(!world->nullDependency, "an object was constructed with a missing dependency");
}

void generateDeps(pbt::Data & d, bool mostlyAcyclic) {
	for (int n = 0; n < CLASSES; ++n) {
		size_t count = d.weighted({ 3, 3, 2, 1 });
		for (size_t i = 0; i < count; ++i) {
			Dep dep;
			dep.form = (Form) d.weighted({ 5, 3, 2, 2, 2, 2, 1, 1, 0 });
			if (d.chance(1, 60)) dep.form = d.boolean() ? INJECTOR_SHARED : INJECTOR_CSHARED;
			if (mostlyAcyclic && !d.chance(1, 40)) { if (n == 0) break; dep.target = (int) d.upto((size_t) n - 1); }
			else dep.target = (int) d.draw(CLASSES - 1);
			dep.name = d.chance(1, 4) ? "x" : "";
			world->deps[n].push_back(dep);
			d.note("Node", n, " needs ", formNames[dep.form], " Node", dep.target, " '", dep.name, "'");
		}
	}
}

std::shared_ptr<Conf> generateLevel(pbt::Data & d, const Model & m, std::shared_ptr<Level> & bindings, size_t level, bool complete) {
	bindings = std::make_shared<Level>();
	auto conf = std::make_shared<Conf>();
	auto add = [&] (int n, Form category, const std::string & name) {
		Key k(n, category, name);
		if (bindings->count(k)) return;
		auto s = std::make_shared<Spec>();
		s->n = n;
		s->category = category;
		s->name = name;
		if (category == SHARED || category == CSHARED) s->variant = (int) d.weighted({ 4, 4, 1, 1, 1, 1 });
		(*bindings)[k] = s;
		conf->specs.push_back(s);
		d.note("L", level, " Node", n, " ", formNames[category], category == SHARED || category == CSHARED ? variantNames[s->variant] : "", " '", name, "'");
	};
	size_t n = 1 + d.size(7);
	for (size_t i = 0; i < n; ++i) {
		Form c = (Form) d.weighted({ 5, 2, 0, 0, 1, 1 });
		add((int) d.draw(CLASSES - 1), c, d.chance(1, 4) ? "x" : "");
	}
	// Add the bindings that are missing, as most configurations are meant to be valid.
	if (complete) for (int round = 0; round < 8; ++round) {
		auto copy = m;
		copy.levels.push_back(bindings);
		std::vector<Dep> missing;
		for (auto & e : *bindings) if (hasDeps(*e.second)) for (auto & dep : world->deps[e.second->n])
			if (dep.form < INJECTOR_WEAK && !copy.find(level, dep.form, dep.target, dep.name)) missing.push_back(dep);
		if (missing.empty()) break;
		for (auto & dep : missing) add(dep.target, dep.form == VALUE || dep.form == UNIQUE ? dep.form : (dep.form == CSHARED || dep.form == CWEAK) && d.boolean() ? CSHARED : SHARED, dep.name);
	}
	return conf;
}

template <typename F> Outcome outcome(F f) {
	try { f(); return OK; }
	catch (const Boom &) { return BOOM; }
	catch (const Exception::NoBindingException &) { return NO_BINDING; }
}

} // namespace

PBT(lifecycle, 60000, 1200000) {
	World w;
	world = &w;
	long before = live;
	{
		size_t depth = 1 + d.draw(2);
		bool complete = !d.chance(1, 6);
		bool stopped = false;
		std::vector<int> preCalls(depth, 0), postCalls(depth, 0);
		std::vector<std::pair<std::shared_ptr<Node<0>>, SpecPtr>> statics(depth);
		std::vector<std::shared_ptr<Conf>> confs;
		Model m;
		std::vector<std::shared_ptr<Injector>> injectors;
		std::vector<Injector::ValidationParent> validated;
		generateDeps(d, !d.chance(1, 6));

		for (size_t level = 0; level < depth && !stopped; ++level) {
			if (level > 1 && d.chance(1, 4)) {
				// The bindings of the root below another parent: the objects are shared.
				injectors.push_back(injectors.back()->createChild(injectors[0]));
				m.levels.push_back(m.levels[0]);
				validated.clear();
				d.label("prototype");
				d.note("L", level, " prototype of L0");
				continue;
			}
			std::shared_ptr<Level> bindings;
			auto conf = generateLevel(d, m, bindings, level, complete);
			confs.push_back(conf);
			m.levels.push_back(bindings);

			bool missing, sharedInjector, cycle;
			m.validate(level, missing, sharedInjector, cycle);
			bool faulty = missing || sharedInjector || cycle;
			d.label(missing ? "missing" : sharedInjector ? "shared-injector" : cycle ? "cycle" : "valid");

			auto judge = [&] (const char * what, auto f) {
				try {
					f();
					CHECK(!faulty, what << " accepted a faulty configuration (missing " << missing << ", shared injector " << sharedInjector << ", cycle " << cycle << ")");
				}
				catch (const Exception::MissingDependencyException &) { CHECK(missing, what << " reported a missing dependency"); }
				catch (const Exception::SharedInjectorException &) { CHECK(sharedInjector, what << " reported a shared injector dependency"); }
				catch (const Exception::CyclicDependencyException &) { CHECK(cycle && !missing && !sharedInjector, what << " reported a cycle"); }
			};

			// Validation gives the verdict of creation, and constructs nothing.
			if ((level == 0 || validated.size() == level) && d.boolean()) {
				judge("validate", [&] {
					if (level == 0) validated.push_back(Injector::validate(*conf));
					else validated.push_back(Injector::validateChild(validated.back(), *conf));
				});
				compareCounts(m);
				d.label("validated");
			} else validated.clear();
			if (faulty) d.nontrivial();

			// Callbacks and static singletons.
			bool callbacks = d.boolean();
			if (callbacks) {
				conf->extras.push_back([&, level] (const Conf & c) {
					c.post([&, level] (const Injector & in) {
						++postCalls[level];
						bool all = true;
						for (auto & e : *m.levels[level]) if (eager(*e.second) && e.second->category == SHARED) {
							dispatch(e.second->n, [&] (auto k) { if (!in.getSharedOrNull<Node<decltype(k)::value>>(e.second->name)) all = false; });
						}
						if (!all) w.nullDependency = true;
					});
					c.pre([&, level] { ++preCalls[level]; });
				});
			}
			SpecPtr staticSpec;
			if (!faulty && d.chance(1, 3)) {
				std::string name = d.chance(1, 4) ? "x" : "";
				staticSpec = m.find(level, SHARED, 0, name);
				if (staticSpec) conf->extras.push_back([&statics, level, name] (const Conf & c) { c.doRegisterStatic(&statics[level].first, name); });
			}
			if (d.chance(1, 12)) { w.failing[d.draw(CLASSES - 1)] = true; d.label("fault"); }

			// Predict the creation.
			Outcome want = OK;
			bool failsEager = false;
			if (!faulty) {
				for (auto & e : *bindings) if (eager(*e.second) && w.failing[e.second->n]) failsEager = true;
				if (!failsEager) {
					try { for (auto & e : *bindings) if (eager(*e.second)) m.use(level, *e.second); }
					catch (const ModelFailure &) { failsEager = true; }
					catch (const Unpredictable &) { d.discard(); }
					if (!failsEager && staticSpec) {
						try { m.request(level, SHARED, 0, staticSpec->name); } catch (const ModelFailure &) { failsEager = true; }
					}
				}
			}
			std::shared_ptr<Injector> parent = level ? injectors.back() : nullptr, created;
			long liveBefore = live;
			if (faulty) judge("create", [&] { created = parent ? parent->createChild(*conf) : Injector::create(*conf); });
			else {
				Outcome got = outcome([&] { created = parent ? parent->createChild(*conf) : Injector::create(*conf); });
				want = failsEager ? BOOM : OK;
				// Children which fail to be created may have instantiated bindings of their parents, whose state is then unknown to the model.
				CHECK(got == want, "creation: outcome " << got << ", expected " << want);
			}
			if (faulty || failsEager) {
				if (level == 0) CHECK(live == liveBefore || !statics.empty(), "a failed creation left " << live - liveBefore << " objects");
				if (faulty) compareCounts(m);
				stopped = true;
				m.levels.pop_back();
				break;
			}
			for (auto & f : w.failing) f = false;
			injectors.push_back(created);
			compareCounts(m);
			CHECK(postCalls[level] == (callbacks ? 1 : 0), "post-construction callback ran " << postCalls[level] << " times");
			if (staticSpec) {
				CHECK(statics[level].first != nullptr, "the static singleton is not set");
				if (staticSpec->variant != LOCAL) CHECK(statics[level].first == created->getShared<Node<0>>(staticSpec->name), "the static singleton is another object");
				statics[level].second = staticSpec;
				d.label("static singleton");
			}
		}

		if (!stopped) {
			size_t requests = d.size(20);
			std::vector<std::shared_ptr<const void>> results;
			for (size_t i = 0; i < requests; ++i) {
				size_t level = d.upto(injectors.size() - 1);
				Form f = (Form) d.weighted({ 4, 3, 1, 1, 1, 1 });
				int n = (int) d.draw(CLASSES - 1);
				std::string name = d.chance(1, 4) ? "x" : "";
				bool fault = d.chance(1, 10);
				if (fault) w.failing[d.draw(CLASSES - 1)] = true;
				SpecPtr s;
				Outcome want = OK;
				try { s = m.request(level, f, n, name); }
				catch (const ModelFailure & e) { want = e.boom ? BOOM : NO_BINDING; }
				catch (const Unpredictable &) { d.discard(); }
				std::shared_ptr<const void> p;
				const NodeBase * node = nullptr;
				auto & in = injectors[level];
				Outcome got = outcome([&] {
					dispatch(n, [&] (auto k) {
						using X = Node<decltype(k)::value>;
						switch (f) {
							case SHARED: { auto q = in->getShared<X>(name); p = q; node = q.get(); break; }
							case CSHARED: { auto q = in->getShared<const X>(name); p = q; node = q.get(); break; }
							case WEAK: { auto q = in->getInstance<std::weak_ptr<X>>(name).lock(); p = q; node = q.get(); break; }
							case CWEAK: { auto q = in->getInstance<std::weak_ptr<const X>>(name).lock(); p = q; node = q.get(); break; }
							case VALUE: { auto q = std::make_shared<X>(in->getValue<X>(name)); p = q; node = q.get(); break; }
							default: { std::shared_ptr<X> q = in->getUnique<X>(name); p = q; node = q.get(); break; }
						}
					});
				});
				CHECK(got == want, "request " << formNames[f] << " Node" << n << " '" << name << "' on L" << level << ": outcome " << got << ", expected " << want);
				for (auto & x : w.failing) x = false;
				compareCounts(m);
				if (fault && want == BOOM) { d.label("request fault"); d.nontrivial(); }
				if (got != OK) continue;
				CHECK(node && node->magic == 0x600D && node->n == n, "the object is not alive");
				if (s->given) CHECK(p.get() == s->given, "not the provided object");
				if (s->category == SHARED || s->category == CSHARED) {
					if (s->seen) CHECK(p.get() == s->seen, "a second instance of a singleton");
					s->seen = p.get();
				}
				// The held dependencies are what the injector supplies.
				if (hasDeps(*s)) CHECK(node->held.size() + node->injectors.size() + (size_t) std::count_if(w.deps[n].begin(), w.deps[n].end(), [] (auto & x) { return x.form >= INJECTOR_SHARED; }) == w.deps[n].size(), "held dependencies");
				for (auto & inj : node->injectors) CHECK(inj.lock() != nullptr, "the injected injector is gone");
				if (d.boolean()) results.push_back(p);
			}
			size_t total = 0;
			for (auto & l : m.levels) total += l->size();
			if (total > 3 && requests > 2) d.nontrivial();
			std::vector<int> postBefore = postCalls;
			// Drop everything, children or parents first.
			std::vector<bool> hadPre(depth);
			if (d.boolean()) results.clear();
			while (!injectors.empty()) injectors.erase(injectors.begin() + (long) d.upto(injectors.size() - 1));
			CHECK(postCalls == postBefore, "post-construction callbacks ran later");
			for (size_t i = 0; i < depth; ++i) {
				if (postCalls[i]) CHECK(preCalls[i] >= 1, "the pre-destruction callback did not run");
				CHECK(statics[i].first == nullptr, "the static singleton is still set");
			}
		}
	}
	CHECK(live == before, live - before << " objects are still alive after the injectors were destroyed");
}

// Several threads use one hierarchy: each singleton is constructed once, each thread has its own thread-local instances.
PBT(concurrent_requests, 2500, 60000, PBT_CONCURRENT) {
	World w;
	world = &w;
	long before = live;
	{
		w.delays = true;
		generateDeps(d, true);
		for (auto & deps : w.deps) for (auto & dep : deps) if (dep.form >= INJECTOR_SHARED) dep.form = INJECTOR_WEAK;
		for (int n = 0; n < CLASSES; ++n) for (auto & dep : w.deps[n]) if (dep.target >= n) { dep.form = INJECTOR_WEAK; }
		Model m;
		std::vector<std::shared_ptr<Injector>> injectors;
		size_t depth = 1 + d.draw(1);
		std::vector<std::shared_ptr<Conf>> confs;
		for (size_t level = 0; level < depth; ++level) {
			std::shared_ptr<Level> bindings;
			auto conf = generateLevel(d, m, bindings, level, true);
			m.levels.push_back(bindings);
			confs.push_back(conf);
			injectors.push_back(level ? injectors.back()->createChild(*conf) : Injector::create(*conf));
		}
		struct Op { size_t level; SpecPtr s; int kind; };
		std::vector<std::vector<Op>> programs(2 + d.draw(2));
		for (auto & p : programs) {
			size_t n = 1 + d.size(8);
			for (size_t i = 0; i < n; ++i) {
				size_t level = d.upto(depth - 1);
				auto it = m.levels[level]->begin();
				std::advance(it, (long) d.upto(m.levels[level]->size() - 1));
				p.push_back({ level, it->second, (int) d.weighted({ 10, 1, 1 }) });
			}
		}
		std::atomic<int> ready { 0 };
		std::vector<std::vector<const void *>> results(programs.size());
		std::vector<std::string> errors(programs.size());
		std::vector<std::thread> threads;
		for (size_t t = 0; t < programs.size(); ++t) threads.emplace_back([&, t] {
			++ready;
			while (ready < (int) programs.size()) std::this_thread::yield();
			try {
				for (auto & op : programs[t]) {
					auto & in = injectors[op.level];
					const void * r = nullptr;
					if (op.kind == 1) { Conf c; auto child = in->createChild(c); r = nullptr; results[t].push_back(r); continue; }
					if (op.kind == 2) { r = in->hasBinding<std::shared_ptr<Node<0>>>() ? &in : nullptr; results[t].push_back(nullptr); continue; }
					dispatch(op.s->n, [&] (auto k) {
						using X = Node<decltype(k)::value>;
						switch (op.s->category) {
							case SHARED: r = in->getShared<X>(op.s->name).get(); break;
							case CSHARED: r = in->getShared<const X>(op.s->name).get(); break;
							case VALUE: in->getValue<X>(op.s->name); break;
							default: in->getUnique<X>(op.s->name); break;
						}
					});
					results[t].push_back(r);
				}
			} catch (const std::exception & e) { errors[t] = e.what(); }
		});
		for (auto & t : threads) t.join();
		for (auto & e : errors) CHECK(e.empty(), "a request failed: " << e);
		std::map<Spec *, std::set<const void *>> seen;
		for (size_t t = 0; t < programs.size(); ++t) {
			std::map<Spec *, std::set<const void *>> mine;
			for (size_t i = 0; i < programs[t].size(); ++i) if (results[t][i]) mine[programs[t][i].s.get()].insert(results[t][i]);
			for (auto & e : mine) {
				CHECK(e.second.size() == 1, "a thread saw several instances");
				if (e.first->variant != LOCAL) seen[e.first].insert(*e.second.begin());
			}
		}
		size_t sharedUses = 0;
		for (auto & e : seen) {
			CHECK(e.second.size() == 1, "threads saw different instances of a singleton");
			if (e.first->variant == LAZY) ++sharedUses;
		}
		CHECK(!w.nullDependency, "an object was constructed with a missing dependency");
		if (sharedUses) d.nontrivial();
	}
	CHECK(live == before, live - before << " objects are still alive after the injectors were destroyed");
}

// A thread that outlives an injector gets new thread-local instances from the next one, wherever its bindings are placed in memory.
PBT(thread_local_generations, 600, 6000, PBT_CONCURRENT) {
	World w;
	world = &w;
	long before = live;
	{
		size_t generations = 2 + d.draw(4);
		size_t instances = 1 + d.draw(3);
		std::mutex mutex;
		std::condition_variable cv;
		std::shared_ptr<Injector> current;
		int turn = 0;   // 0 main, 1 worker, 2 stop
		std::vector<long> counts;
		std::string error;
		std::vector<int> classes;
		for (size_t i = 0; i < generations; ++i) classes.push_back((int) d.draw(1));
		std::thread worker([&] {
			std::unique_lock<std::mutex> lock(mutex);
			size_t g = 0;
			while (true) {
				cv.wait(lock, [&] { return turn != 0; });
				if (turn == 2) return;
				try {
					for (size_t i = 0; i < instances; ++i) {
						std::string name(i, 'x');
						if (classes[g] == 0) { if (current->getShared<Node<0>>(name)->n != 0) error = "wrong class"; }
						else if (current->getShared<Node<1>>(name)->n != 1) error = "wrong class";
					}
				} catch (const std::exception & e) { error = e.what(); }
				++g;
				turn = 0;
				cv.notify_all();
			}
		});
		long expected[2] = { 0, 0 };
		for (size_t g = 0; g < generations; ++g) {
			auto conf = std::make_shared<Conf>();
			for (size_t i = 0; i < instances; ++i) {
				auto s = std::make_shared<Spec>();
				s->n = classes[g]; s->category = SHARED; s->variant = LOCAL; s->name = std::string(i, 'x');
				conf->specs.push_back(s);
			}
			std::unique_lock<std::mutex> lock(mutex);
			current = Injector::create(*conf);
			turn = 1;
			cv.notify_all();
			cv.wait(lock, [&] { return turn == 0; });
			current.reset();
			expected[classes[g]] += (long) instances;
			if (w.constructed[0] != expected[0] || w.constructed[1] != expected[1]) error = "generation " + std::to_string(g) + ": a thread-local instance of a destroyed injector was supplied";
			if (!error.empty()) break;
		}
		{ std::unique_lock<std::mutex> lock(mutex); turn = 2; cv.notify_all(); }
		worker.join();
		CHECK(error.empty(), error);
		d.nontrivial(generations > 2);
	}
	CHECK(live == before, live - before << " objects are still alive after the injectors were destroyed");
}
