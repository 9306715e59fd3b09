// P10: which binding an injector request resolves to.
#include "pbt.hpp"
#include "gen.hpp"
#include <queue>
#include <list>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <map>
#include <set>

using namespace Balau;

namespace {

long live = 0;

struct Base {
	long tag;
	explicit Base(long t) : tag(t) { ++live; }
	Base(const Base & r) : tag(r.tag) { ++live; }
	virtual ~Base() { tag = -999999; --live; }
};

template <int K> struct T : Base {
	explicit T(long t) : Base(t) {}
	static T BALAU_newStackInstance(const Injector &) { return T(-100); }
	static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; }
};

template <int K, int V> struct D : T<K> {
	D() : T<K>(-1 - V) {}
	static D * BALAU_newHeapInstance(const Injector &) { return new D; }
	static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; }
};

struct ProviderBase {
	static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; }
};
template <int K> struct ValueProvider : ProviderBase {
	long tag;
	explicit ValueProvider(long t) : tag(t) {}
	T<K> operator () () const { return T<K>(tag); }
	static ValueProvider * BALAU_newHeapInstance(const Injector &) { return new ValueProvider(-200); }
};
template <typename B, int K> struct UniqueProvider : ProviderBase {
	long tag;
	explicit UniqueProvider(long t) : tag(t) {}
	std::unique_ptr<B> operator () () const { return std::unique_ptr<B>(new T<K>(tag)); }
	static UniqueProvider * BALAU_newHeapInstance(const Injector &) { return new UniqueProvider(-300); }
};
template <typename B, int K> struct SharedProvider : ProviderBase {
	long tag;
	explicit SharedProvider(long t) : tag(t) {}
	std::shared_ptr<B> operator () () const { return std::shared_ptr<B>(new T<K>(tag)); }
	static SharedProvider * BALAU_newHeapInstance(const Injector &) { return new SharedProvider(-400); }
};
template <int K> struct Deleter {
	void operator () (const T<K> * p) const { ++deleted; delete p; }
	static inline long deleted = 0;
};
template <int K> struct SharedDeleter {
	void operator () (const T<K> * p) const { delete p; }
};

enum Category { VALUE, UNIQUE, UNIQUE_DEL, REF, CREF, SHARED, CSHARED, CATEGORIES };
const char * const categoryNames[] = { "value", "unique", "unique-del", "ref", "const-ref", "shared", "const-shared" };

struct Spec {
	int k;
	int category;
	int variant;
	int derived;
	std::string name;
	long tag;                        // the tag that objects of this binding carry
	std::shared_ptr<Base> object;    // given object of reference and provided singleton bindings
	bool threadLocal = false;
	const void * seen = nullptr;     // the shared object that the binding supplied
	const void * given = nullptr;    // the shared object that the binding was given
};
using SpecPtr = std::shared_ptr<Spec>;
using Key = std::tuple<int, int, std::string>;
Key keyOf(const Spec & s) { return Key(s.k, s.category, s.name); }

SpecPtr generate(pbt::Data & d, long number) {
	static const std::vector<std::string> names { "", "a", "b", "a longer binding name" };
	auto s = std::make_shared<Spec>();
	s->k = (int) d.draw(1);
	s->category = (int) d.weighted({ 2, 1, 1, 1, 1, 3, 3 });
	s->name = d.pick(names);
	s->derived = (int) d.draw(1);
	s->tag = number;
	switch (s->category) {
		case VALUE: s->variant = (int) d.draw(4); break;
		case UNIQUE: s->variant = (int) d.draw(3); break;
		case UNIQUE_DEL: s->variant = 0; break;
		case REF: case CREF: s->variant = 0; break;
		default: s->variant = (int) d.draw(10); break;
	}
	return s;
}

template <int K, int V> struct Apply {
	template <typename B, typename Builder> static void shared(Builder & b, Spec & s) {
		using Der = D<K, V>;
		switch (s.variant) {
			case 0: b.template toSingleton<Der>(); s.tag = -1 - V; break;
			case 1: b.template toEagerSingleton<Der>(); s.tag = -1 - V; break;
			case 2: b.template toThreadLocal<Der>(); s.tag = -1 - V; s.threadLocal = true; break;
			case 3: { std::shared_ptr<B> p(new T<K>(s.tag)); s.given = p.get(); b.toSingleton(p); break; }
			case 4: { B * p = new T<K>(s.tag); s.given = p; b.toSingleton(p); break; }
			case 5: { long t = s.tag; b.toSingletonProvider(std::function<std::shared_ptr<B> ()>([t] { return std::shared_ptr<B>(new T<K>(t)); })); break; }
			case 6: b.template toSingletonProvider<SharedProvider<B, K>>(); s.tag = -400; break;
			case 7: b.toSingletonProvider(std::make_shared<SharedProvider<B, K>>(s.tag)); break;
			case 8: b.template toSingleton<Der, SharedDeleter<K>>(); s.tag = -1 - V; break;
			case 9: b.template toEagerSingleton<Der, SharedDeleter<K>>(); s.tag = -1 - V; break;
			case 10: b.template toThreadLocal<Der, SharedDeleter<K>>(); s.tag = -1 - V; s.threadLocal = true; break;
		}
	}
	template <typename C> static void apply(const C & conf, Spec & s) {
		switch (s.category) {
			case VALUE: {
				auto & b = conf.template open<T<K>>(s.name);
				long t = s.tag;
				switch (s.variant) {
					case 0: b.toValue(); s.tag = -100; break;
					case 1: b.toValue(T<K>(s.tag)); break;
					case 2: b.toValueProvider([t] { return T<K>(t); }); break;
					case 3: b.template toValueProvider<ValueProvider<K>>(); s.tag = -200; break;
					case 4: b.toValueProvider(std::make_shared<ValueProvider<K>>(s.tag)); break;
				}
				break;
			}
			case UNIQUE: {
				auto & b = conf.template open<T<K>>(s.name);
				long t = s.tag;
				switch (s.variant) {
					case 0: b.template toUnique<D<K, V>>(); s.tag = -1 - V; break;
					case 1: b.toUniqueProvider([t] { return std::unique_ptr<T<K>>(new T<K>(t)); }); break;
					case 2: b.template toUniqueProvider<UniqueProvider<T<K>, K>>(); s.tag = -300; break;
					case 3: b.toUniqueProvider(std::make_shared<UniqueProvider<T<K>, K>>(s.tag)); break;
				}
				break;
			}
			case UNIQUE_DEL: conf.template open<T<K>, Deleter<K>>(s.name).template toUnique<D<K, V>>(); s.tag = -1 - V; break;
			case REF: {
				auto o = std::make_shared<T<K>>(s.tag);
				s.object = o;
				conf.template open<T<K>>(s.name).toReference(*o);
				break;
			}
			case CREF: {
				auto o = std::make_shared<T<K>>(s.tag);
				s.object = o;
				conf.template open<const T<K>>(s.name).toReference(*o);
				break;
			}
			case SHARED: shared<T<K>>(conf.template open<T<K>>(s.name), s); break;
			case CSHARED: shared<const T<K>>(conf.template open<const T<K>>(s.name), s); break;
		}
	}
};

struct Conf : ApplicationConfiguration {
	std::vector<SpecPtr> specs;
	std::vector<std::shared_ptr<Conf>> extra;
	template <typename B, typename Del = std::default_delete<B>> BindingBuilder<B, Del> & open(const std::string & name) const {
		// The supplied name is not necessarily alive when the injector is built.
		std::string temporary(name);
		return bind<B, Del>(temporary);
	}
	void configure() const override {
		for (auto & s : specs) {
			if (s->k == 0) { if (s->derived == 0) Apply<0, 0>::apply(*this, *s); else Apply<0, 1>::apply(*this, *s); }
			else { if (s->derived == 0) Apply<1, 0>::apply(*this, *s); else Apply<1, 1>::apply(*this, *s); }
		}
		for (auto & e : extra) addConfiguration(*e);
	}
};

using Level = std::map<Key, SpecPtr>;
struct Model {
	std::vector<std::shared_ptr<Level>> levels;   // root first
	SpecPtr exact(size_t from, int k, int category, const std::string & name) const {
		for (size_t i = from + 1; i-- > 0; ) {
			auto it = levels[i]->find(Key(k, category, name));
			if (it != levels[i]->end()) return it->second;
		}
		return nullptr;
	}
	// A request for a const object is satisfied by a const binding of the hierarchy, otherwise by a non-const one.
	SpecPtr promoted(size_t from, int k, int first, int second, const std::string & name) const {
		auto s = exact(from, k, first, name);
		return s ? s : exact(from, k, second, name);
	}
};

const std::vector<std::string> & allNames() {
	static const std::vector<std::string> names { "", "a", "b", "a longer binding name", "c" };
	return names;
}

std::map<const void *, const Spec *> owners;

void checkShared(const SpecPtr & s, const Base * p, const char * what) {
	CHECK(p != nullptr, what << " is null");
	CHECK(p->tag == s->tag, what << " has tag " << p->tag << ", the binding's is " << s->tag);
	if (s->given) CHECK(p == s->given, what << " is not the object given to the binding");
	if (s->seen) CHECK(p == s->seen, what << " is not the binding's single instance");
	else {
		CHECK(!owners.count(p), what << " belongs to another binding");
		owners[p] = s.get();
		s->seen = p;
	}
}

template <typename F> void expectNone(const char * what, F f) {
	bool thrown = false;
	try { f(); } catch (const Exception::NoBindingException &) { thrown = true; }
	CHECK(thrown, what << " did not throw NoBindingException");
}

template <int K> void request(pbt::Data & d, const std::shared_ptr<Injector> & in, const Model & m, size_t level, const std::string & name) {
	using X = T<K>;
	int kind = (int) d.draw(32);
	std::string_view n(name);
	const bool unnamed = name.empty() && d.boolean(); // Use the overload that does not take a name.
	d.label(kind > 25 ? "default" : kind < 5 ? "value" : kind < 10 ? "unique" : kind < 15 ? "reference" : "shared");
	switch (kind) {
		case 0: case 1: case 2: case 3: case 4: {
			auto s = m.exact(level, K, VALUE, name);
			if (kind == 3) { X r = unnamed ? in->getValue<X>(X(-7)) : in->getValue<X>(n, X(-7)); CHECK(r.tag == (s ? s->tag : -7), "value with default: " << r.tag); return; }
			if (kind == 4) {
				int calls = 0;
				std::function<X ()> supplier([&calls] { ++calls; return X(-7); });
				X r = unnamed ? in->getValue<X>(supplier) : in->getValue<X>(n, supplier);
				CHECK(r.tag == (s ? s->tag : -7), "value with supplier: " << r.tag);
				CHECK(calls == (s ? 0 : 1), "supplier called " << calls);
				return;
			}
			auto get = [&] () -> long { return kind == 0 ? in->getValue<X>(n).tag : kind == 1 ? in->getInstance<X>(n).tag : in->getValue<const X>(n).tag; };
			if (s) { long t = get(); CHECK(t == s->tag, "value " << t << ", expected " << s->tag); }
			else expectNone("value", get);
			return;
		}
		case 5: case 6: case 7: {
			auto s = m.exact(level, K, UNIQUE, name);
			auto get = [&] () -> std::unique_ptr<const X> {
				if (kind == 5) return in->getUnique<X>(n);
				if (kind == 6) return in->getInstance<std::unique_ptr<X>>(n);
				return in->getUnique<const X>(n);
			};
			if (s) {
				auto a = get(), b = get();
				CHECK(a && b && a != b, "unique instances are not distinct");
				CHECK(a->tag == s->tag && b->tag == s->tag, "unique " << a->tag << ", expected " << s->tag);
			} else expectNone("unique", get);
			return;
		}
		case 8: case 9: {
			auto s = m.exact(level, K, UNIQUE_DEL, name);
			auto get = [&] {
				if (kind == 8) { auto p = in->getUnique<X, Deleter<K>>(n); return p->tag; }
				auto p = in->getInstance<std::unique_ptr<X, Deleter<K>>>(n);
				return p->tag;
			};
			if (s) {
				long before = Deleter<K>::deleted, t = get();
				CHECK(t == s->tag, "unique with deleter " << t << ", expected " << s->tag);
				CHECK(Deleter<K>::deleted == before + 1, "the deleter was not used");
			} else expectNone("unique with deleter", get);
			return;
		}
		case 10: case 11: case 12: {
			auto s = m.exact(level, K, REF, name);
			X def(-7);
			if (kind == 12) { X & r = unnamed ? in->getReference<X>(def) : in->getReference<X>(n, def); CHECK(&r == (s ? s->object.get() : &def), "reference with default"); return; }
			auto get = [&] () -> X & { return kind == 10 ? in->getReference<X>(n) : in->getInstance<X &>(n); };
			if (s) CHECK(&get() == s->object.get(), "reference");
			else expectNone("reference", get);
			return;
		}
		case 13: case 14: {
			auto s = m.promoted(level, K, CREF, REF, name);
			auto get = [&] () -> const X & { return kind == 13 ? in->getReference<const X>(n) : in->getInstance<const X &>(n); };
			if (s) CHECK(&get() == s->object.get(), "const reference");
			else expectNone("const reference", get);
			return;
		}
		case 15: case 16: case 17: case 18: case 19: case 20: {
			auto s = m.exact(level, K, SHARED, name);
			auto def = std::make_shared<X>(-7);
			if (kind == 18) {
				auto p = unnamed ? in->getShared<X>(def) : in->getShared<X>(n, def);
				if (s) checkShared(s, p.get(), "shared with default"); else CHECK(p == def, "shared default");
				return;
			}
			if (kind == 19) {
				int calls = 0;
				std::function<std::shared_ptr<X> ()> supplier([&] { ++calls; return def; });
				auto p = unnamed ? in->getShared<X>(supplier) : in->getShared<X>(n, supplier);
				if (s) checkShared(s, p.get(), "shared with supplier"); else CHECK(p == def, "shared supplier");
				CHECK(calls == (s ? 0 : 1), "supplier called " << calls);
				return;
			}
			if (kind == 20) {
				auto p = unnamed ? in->getSharedOrNull<X>() : in->getSharedOrNull<X>(n);
				if (s) checkShared(s, p.get(), "shared or null"); else CHECK(!p, "shared or null is not null");
				return;
			}
			auto get = [&] () -> std::shared_ptr<X> {
				if (kind == 15) return in->getShared<X>(n);
				if (kind == 16) return in->getInstance<std::shared_ptr<X>>(n);
				return in->getInstance<std::weak_ptr<X>>(n).lock();
			};
			if (s) checkShared(s, get().get(), "shared");
			else expectNone("shared", get);
			return;
		}
		case 21: case 22: case 23: {
			auto s = m.promoted(level, K, CSHARED, SHARED, name);
			auto get = [&] () -> std::shared_ptr<const X> {
				if (kind == 21) return in->getShared<const X>(n);
				if (kind == 22) return in->getInstance<std::shared_ptr<const X>>(n);
				return in->getInstance<std::weak_ptr<const X>>(n).lock();
			};
			if (s) checkShared(s, get().get(), "shared const");
			else expectNone("shared const", get);
			return;
		}
		case 24: {
			CHECK(in->hasBinding<X>(n) == (bool) m.exact(level, K, VALUE, name), "hasBinding value");
			CHECK(in->hasBinding<std::unique_ptr<X>>(n) == (bool) m.exact(level, K, UNIQUE, name), "hasBinding unique");
			CHECK((in->hasBinding<std::unique_ptr<X, Deleter<K>>>(n) == (bool) m.exact(level, K, UNIQUE_DEL, name)), "hasBinding unique deleter");
			CHECK(in->hasBinding<X &>(n) == (bool) m.exact(level, K, REF, name), "hasBinding ref");
			CHECK(in->hasBinding<const X &>(n) == (bool) m.exact(level, K, CREF, name), "hasBinding const ref");
			CHECK(in->hasBinding<std::shared_ptr<X>>(n) == (bool) m.exact(level, K, SHARED, name), "hasBinding shared");
			CHECK(in->hasBinding<std::shared_ptr<const X>>(n) == (bool) m.exact(level, K, CSHARED, name), "hasBinding const shared");
			return;
		}
		// Defaults for unique pointers, and for const references and pointers (which non-const bindings serve as well).
		case 26: {
			auto s = m.exact(level, K, UNIQUE, name);
			auto def = std::make_unique<X>(-7);
			const X * was = def.get();
			auto p = unnamed ? in->getUnique<X>(std::move(def)) : in->getUnique<X>(n, std::move(def));
			CHECK(p && (s ? p->tag == s->tag && p.get() != was : p.get() == was), "unique with default");
			return;
		}
		case 27: {
			auto s = m.exact(level, K, UNIQUE, name);
			int calls = 0;
			std::function<std::unique_ptr<X> ()> supplier([&] { ++calls; return std::make_unique<X>(-7); });
			auto p = unnamed ? in->getUnique<X>(supplier) : in->getUnique<X>(n, supplier);
			CHECK(p && p->tag == (s ? s->tag : -7), "unique with supplier");
			CHECK(calls == (s ? 0 : 1), "supplier called " << calls);
			return;
		}
		case 28: {
			auto s = m.exact(level, K, UNIQUE, name);
			auto p = unnamed ? in->getUniqueOrNull<X>() : in->getUniqueOrNull<X>(n);
			CHECK(s ? p && p->tag == s->tag : !p, "unique or null");
			auto c = in->getUnique<const X>(n, std::unique_ptr<const X>(new X(-7)));
			CHECK(c && c->tag == (s ? s->tag : -7), "const unique with default");
			return;
		}
		case 29: {
			auto s = m.exact(level, K, UNIQUE_DEL, name);
			const long before = Deleter<K>::deleted;
			{
				auto p = in->getUnique<X, Deleter<K>>(n, std::unique_ptr<X, Deleter<K>>(new X(-7)));
				CHECK(p && p->tag == (s ? s->tag : -7), "unique with deleter and default");
			}
			CHECK(Deleter<K>::deleted == before + (s ? 2 : 1), "the default or the instance was not deleted with its deleter");
			return;
		}
		case 30: {
			auto s = m.promoted(level, K, CREF, REF, name);
			X def(-7);
			const X & constDef = def;
			const X & r = unnamed ? in->getReference<const X>(constDef) : in->getReference<const X>(n, constDef);
			CHECK(&r == (s ? s->object.get() : &def), "const reference with default");
			return;
		}
		case 31: {
			auto s = m.promoted(level, K, CSHARED, SHARED, name);
			auto def = std::make_shared<const X>(-7);
			auto p = unnamed ? in->getShared<const X>(def) : in->getShared<const X>(n, def);
			if (s) checkShared(s, p.get(), "shared const with default"); else CHECK(p == def, "shared const default");
			return;
		}
		case 32: {
			auto s = m.promoted(level, K, CSHARED, SHARED, name);
			int calls = 0;
			std::function<std::shared_ptr<const X> ()> supplier([&] { ++calls; return std::make_shared<const X>(-7); });
			auto p = unnamed ? in->getShared<const X>(supplier) : in->getShared<const X>(n, supplier);
			if (s) checkShared(s, p.get(), "shared const with supplier"); else CHECK(p && p->tag == -7, "shared const supplier");
			CHECK(calls == (s ? 0 : 1), "supplier called " << calls);
			auto q = in->getSharedOrNull<const X>(n);
			if (s) checkShared(s, q.get(), "shared const or null"); else CHECK(!q, "shared const or null is not null");
			return;
		}
		default: {
			// Iteration visits the shared bindings of this injector only.
			bool local = d.boolean();
			std::multiset<const void *> got;
			bool asConst = d.boolean();
			if (asConst) in->iterate<X>(std::function<void (std::shared_ptr<const X>)>([&got] (std::shared_ptr<const X> p) { got.insert(p.get()); }), local);
			else in->iterate<X>(std::function<void (std::shared_ptr<X>)>([&got] (std::shared_ptr<X> p) { got.insert(p.get()); }), local);
			std::multiset<const void *> want;
			for (auto & e : *m.levels[level]) {
				auto & s = e.second;
				if (s->k != K || s->category != SHARED || (s->threadLocal && !local)) continue;
				auto p = in->getShared<X>(s->name);
				checkShared(s, p.get(), "iterated");
				want.insert(p.get());
			}
			CHECK(got == want, "iterate visits " << got.size() << ", expected " << want.size());
			return;
		}
	}
}

template <int K> std::string keyText(int category, const std::string & name) {
	using X = T<K>;
	switch (category) {
		case VALUE: return Impl::toString(Injector::createBindingKey<X>(name));
		case UNIQUE: return Impl::toString(Injector::createBindingKey<std::unique_ptr<X>>(name));
		case UNIQUE_DEL: return Impl::toString(Injector::createBindingKey<std::unique_ptr<X, Deleter<K>>>(name));
		case REF: return Impl::toString(Injector::createBindingKey<X &>(name));
		case CREF: return Impl::toString(Injector::createBindingKey<const X &>(name));
		case SHARED: return Impl::toString(Injector::createBindingKey<std::shared_ptr<X>>(name));
		default: return Impl::toString(Injector::createBindingKey<std::shared_ptr<const X>>(name));
	}
}

std::multiset<std::string> lines(const std::string & text) {
	std::multiset<std::string> r;
	if (text.empty()) return r;
	size_t b = 0;
	while (true) {
		size_t e = text.find('\n', b);
		r.insert(text.substr(b, e == std::string::npos ? e : e - b));
		if (e == std::string::npos) return r;
		b = e + 1;
	}
}

using Configurations = std::vector<std::shared_ptr<Conf>>;

std::shared_ptr<Injector> create(const std::shared_ptr<Injector> & parent, const Configurations & c, bool asVector) {
	if (asVector) {
		std::vector<std::shared_ptr<InjectorConfiguration>> v(c.begin(), c.end());
		return parent ? parent->createChild(v) : Injector::create(v);
	}
	switch (c.size()) {
		case 1: return parent ? parent->createChild(*c[0]) : Injector::create(*c[0]);
		case 2: return parent ? parent->createChild(*c[0], *c[1]) : Injector::create(*c[0], *c[1]);
		default: return parent ? parent->createChild(*c[0], *c[1], *c[2]) : Injector::create(*c[0], *c[1], *c[2]);
	}
}

} // namespace

PBT(resolution, 40000, 1000000) {
	owners.clear();
	long before = live;
	{
		Model m;
		std::vector<std::shared_ptr<Injector>> injectors;
		std::vector<SpecPtr> all;
		size_t depth = 1 + d.draw(3);
		long number = 0;
		bool duplicate = d.chance(1, 12);
		for (size_t level = 0; level < depth; ++level) {
			if (level > 1 && d.chance(1, 5)) {
				// Prototype child: the bindings of an earlier injector, with this parent.
				size_t from = d.upto(level - 1);
				injectors.push_back(injectors.back()->createChild(injectors[from]));
				m.levels.push_back(m.levels[from]);
				d.note("prototype of ", from);
				d.label("prototype");
				continue;
			}
			Configurations confs;
			size_t count = 1 + d.draw(2);
			std::shared_ptr<Conf> extra, nested;
			for (size_t i = 0; i < count; ++i) confs.push_back(std::make_shared<Conf>());
			if (d.chance(1, 3)) {
				extra = std::make_shared<Conf>();
				d.pick(confs)->extra.push_back(extra);
				if (d.chance(1, 3)) { nested = std::make_shared<Conf>(); extra->extra.push_back(nested); }
			}
			auto bindings = std::make_shared<Level>();
			size_t n = d.size(14);
			bool hasDuplicate = false;
			for (size_t i = 0; i < n; ++i) {
				auto s = generate(d, ++number);
				if (bindings->count(keyOf(*s))) {
					if (!duplicate) continue;
					hasDuplicate = true;
				}
				(*bindings)[keyOf(*s)] = s;
				all.push_back(s);
				auto & target = nested && d.chance(1, 4) ? nested : extra && d.chance(1, 4) ? extra : confs[d.upto(count - 1)];
				target->specs.push_back(s);
				d.note("L", level, " ", categoryNames[s->category], "#", s->variant, " T", s->k, " '", s->name, "'");
			}
			bool asVector = d.boolean();
			std::shared_ptr<Injector> parent = level ? injectors.back() : nullptr;
			if (hasDuplicate) {
				bool thrown = false;
				try { create(parent, confs, asVector); } catch (const Exception::DuplicateBindingException &) { thrown = true; }
				CHECK(thrown, "duplicate bindings were accepted");
				d.label("duplicate");
				d.nontrivial();
				return;
			}
			injectors.push_back(create(parent, confs, asVector));
			m.levels.push_back(bindings);
			// The configurations are gone from here on.
		}
		size_t total = 0;
		for (auto & l : m.levels) total += l->size();
		if (depth > 1 && total > 4) d.nontrivial();

		size_t requests = 4 + d.size(30);
		for (size_t i = 0; i < requests; ++i) {
			size_t level = d.upto(depth - 1);
			// The request's name is a temporary that is not NUL-terminated where it ends.
			std::string name = d.pick(allNames());
			if (d.draw(1) == 0) request<0>(d, injectors[level], m, level, name);
			else request<1>(d, injectors[level], m, level, name);
		}
		for (size_t level = 0; level < depth; ++level) {
			std::multiset<std::string> own, whole;
			for (size_t i = 0; i <= level; ++i) for (auto & e : *m.levels[i]) {
				auto text = e.second->k ? keyText<1>(e.second->category, e.second->name) : keyText<0>(e.second->category, e.second->name);
				if (i == level) own.insert(text);
				whole.insert(text);
			}
			CHECK(lines(injectors[level]->printBindings()) == own, "printBindings: " << injectors[level]->printBindings());
			CHECK(m.levels[0]->empty() || level == 0 || own.empty() || lines(injectors[level]->printBindings(true)) == whole, "printBindings(true): " << injectors[level]->printBindings(true));
			CHECK(injectors[level]->getShared<Injector>() == injectors[level], "the injector does not supply itself");
			CHECK(injectors[level]->getShared<const Injector>() == injectors[level], "the injector does not supply itself as const");
		}
		// Injectors keep their parents alive: drop them in any order.
		while (!injectors.empty()) {
			size_t i = d.upto(injectors.size() - 1);
			injectors.erase(injectors.begin() + (long) i);
		}
	}
	CHECK(live == before, live - before << " objects are still alive after the injectors were destroyed");
}


namespace {

struct ManyConf : ApplicationConfiguration {
	std::vector<std::pair<std::string, int>> values;
	std::vector<std::pair<std::string, std::shared_ptr<T<0>>>> shared;
	std::vector<std::string> uniques;
	void configure() const override {
		for (auto & v : values) bind<int>(v.first).toValue(v.second);
		for (auto & s : shared) bind<T<0>>(s.first).toSingleton(s.second);
		for (auto & u : uniques) bind<T<1>>(u).toUnique<D<1, 0>>();
	}
};

} // namespace

// A configuration of up to some thousands of bindings: each of them is found, with its own value, and nothing else is.
PBT(many_bindings, 250, 4000) {
	static const std::vector<std::string> stems { "", "value", "a.b.", "x ", "\xc3\xa9" };
	const size_t levels = 1 + d.upto(1);
	std::vector<std::shared_ptr<Injector>> injectors;
	std::map<std::string, int> values;
	std::map<std::string, const T<0> *> shared;
	std::set<std::string> uniques;
	const auto & stem = d.pick(stems);
	size_t total = 0;
	for (size_t level = 0; level < levels; ++level) {
		static const std::vector<size_t> sizes { 3, 12, 50, 200, 800, 1500, 2200, 3300 };
		const size_t size = d.upto(d.pick(sizes));
		const size_t step = 1 + d.upto(6), first = d.upto(level == 0 ? 10 : 1000);
		const auto mix = d.upto(3);
		std::vector<std::shared_ptr<ManyConf>> confs;
		const size_t confCount = 1 + d.upto(2);
		for (size_t c = 0; c < confCount; ++c) confs.push_back(std::make_shared<ManyConf>());
		for (size_t m = 0; m < size; ++m) {
			auto & conf = *confs[m % confCount];
			auto name = stem + std::to_string(first + m * step);
			switch (mix == 0 ? 0 : (m * 7 + mix) % 3) {
				case 0: conf.values.emplace_back(name, (int) (level * 1000000 + m)); values[name] = (int) (level * 1000000 + m); break;
				case 1: { auto p = std::make_shared<T<0>>((long) m); conf.shared.emplace_back(name, p); shared[name] = p.get(); break; }
				default: conf.uniques.push_back(name); uniques.insert(name); break;
			}
		}
		total += size;
		d.note("level ", level, " ", size, " bindings, stem '", stem, "', first ", first, ", step ", step, ", mix ", mix, ", ", confCount, " configurations");
		std::vector<std::shared_ptr<ApplicationConfiguration>> list(confs.begin(), confs.end());
		if (level == 0) {
			if (confCount == 1) injectors.push_back(Injector::create(*confs[0]));
			else if (confCount == 2) injectors.push_back(Injector::create(*confs[0], *confs[1]));
			else injectors.push_back(Injector::create(*confs[0], *confs[1], *confs[2]));
		} else {
			if (confCount == 1) injectors.push_back(injectors[0]->createChild(*confs[0]));
			else if (confCount == 2) injectors.push_back(injectors[0]->createChild(*confs[0], *confs[1]));
			else injectors.push_back(injectors[0]->createChild(*confs[0], *confs[1], *confs[2]));
		}
		auto & injector = *injectors.back();
		for (auto & v : values) {
			CHECK(injector.getValue<int>(v.first) == v.second, "'" << v.first << "' is " << injector.getValue<int>(v.first) << ", not " << v.second);
		}
		for (auto & s : shared) CHECK(injector.getShared<T<0>>(s.first).get() == s.second, "another object for '" << s.first << "'");
		for (auto & u : uniques) CHECK(injector.getUnique<T<1>>(u) != nullptr, "nothing made for '" << u << "'");
		for (int m = 0; m < 20; ++m) {
			auto absent = stem + "-" + std::to_string(d.upto(100000));
			bool thrown = false;
			try { injector.getValue<int>(absent); } catch (const Exception::NoBindingException &) { thrown = true; }
			CHECK(thrown, "there is no binding '" << absent << "'");
		}
	}
	if (total > 700) d.nontrivial();
	d.label(total > 2000 ? "over 2000 bindings" : total > 700 ? "over 700 bindings" : "fewer bindings");
}
