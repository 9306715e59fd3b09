// P12: environment configuration: property texts, type specifications and defaults become typed bindings.
#include "pbt.hpp"
#include "gen.hpp"
#include <queue>
#include <list>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <fstream>
#include <map>
#include <set>

using namespace Balau;

// Registered types.
namespace own {

struct Point { int x = 0, y = 0; };

void fromString(Point & p, std::string_view s) {
	const std::string t(s);
	int n = 0;
	if (sscanf(t.c_str(), "%d/%d%n", &p.x, &p.y, &n) != 2 || (size_t) n != t.size()) ThrowBalauException(Exception::ConversionException, "bad point");
}

struct Shape {
	static inline long live = 0;
	std::string kind;
	explicit Shape(std::string k) : kind(std::move(k)) { ++live; }
	virtual ~Shape() { --live; }
};
struct Circle : Shape { Circle() : Shape("circle") {} };
struct Square : Shape { Square() : Shape("square") {} };

void fromString(std::unique_ptr<Shape> & p, std::string_view s) {
	if (s == "circle") p.reset(new Circle);
	else if (s == "square") p.reset(new Square);
	else ThrowBalauException(Exception::ConversionException, "bad shape");
}

std::unique_ptr<Shape> cloneShape(const std::unique_ptr<const Shape> & s) {
	return s->kind == "circle" ? std::unique_ptr<Shape>(new Circle) : std::unique_ptr<Shape>(new Square);
}

} // namespace own

namespace {

enum Type { Byte, Short, Int, Long, Float, Double, String, Char, Boolean, UInt, PointT, UriT, ShapeT, TypeCount };
const char * const typeNames[] = { "byte", "short", "int", "long", "float", "double", "string", "char", "boolean", "unsigned int", "point", "uri", "shape" };

void registerTypes() {
	static const bool done = [] () {
		EnvironmentConfiguration::registerUnsignedTypes();
		EnvironmentConfiguration::registerValueType<own::Point>("point");
		EnvironmentConfiguration::registerUniqueType<own::Shape>("shape", own::cloneShape);
		return true;
	}();
	(void) done;
}

template <typename F> void valueTypes(F f) {
	f(Byte, (signed char *) nullptr);
	f(Short, (short *) nullptr);
	f(Int, (int *) nullptr);
	f(Long, (long long *) nullptr);
	f(Float, (float *) nullptr);
	f(Double, (double *) nullptr);
	f(String, (std::string *) nullptr);
	f(Char, (char *) nullptr);
	f(Boolean, (bool *) nullptr);
	f(UInt, (unsigned *) nullptr);
	f(PointT, (own::Point *) nullptr);
}

template <typename T> std::string repr(const T & v) {
	if constexpr (std::is_same_v<T, std::string>) return v;
	else if constexpr (std::is_same_v<T, own::Point>) return std::to_string(v.x) + "/" + std::to_string(v.y);
	else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
	else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
	else if constexpr (std::is_floating_point_v<T>) { char b[64]; snprintf(b, sizeof b, "%.17g", (double) v); return b; }
	else if constexpr (std::is_signed_v<T>) return std::to_string((long long) v);
	else return std::to_string((unsigned long long) v);
}
template <typename T> std::string reprUnique(const T & v) {
	if constexpr (std::is_same_v<T, own::Shape>) return v.kind;
	else return v.toRawString();
}

struct Text { std::string text, value; };  // A text that denotes a value of the type and the representation of that value.

Text goodText(pbt::Data & d, int type) {
	auto fl = [&] (auto one) {
		using T = decltype(one);
		const T v = (T) d.range(-4000, 4000) / 16;
		char b[64];
		snprintf(b, sizeof b, d.boolean() ? "%.4f" : "%.9e", (double) v);
		return Text { b, repr<T>((T) v) };
	};
	auto integer = [&] (long long min, long long max) {
		const long long v = d.chance(1, 4) ? d.pick({ min, max, 0LL }) : d.range(std::max(min, -3000LL), std::min(max, 3000LL));
		return Text { std::to_string(v), std::to_string(v) };
	};
	switch (type) {
		case Byte: return integer(-128, 127);
		case Short: return integer(-32768, 32767);
		case Int: return integer(INT_MIN, INT_MAX);
		case Long: return integer(LLONG_MIN, LLONG_MAX);
		case UInt: return integer(0, UINT_MAX);
		case Float: return fl(1.0f);
		case Double: return fl(1.0);
		case Char: { std::string s(1, d.pick({ 'a', 'Z', '7', '_' })); return { s, s }; }
		case Boolean: { std::string s = d.boolean() ? "true" : "false"; return { s, s }; }
		case PointT: { std::string s = std::to_string(d.range(-9, 9)) + "/" + std::to_string(d.range(-9, 9)); return { s, s }; }
		case UriT: { std::string p = "/nowhere/" + gen::ident(d, 4); return { "file:" + p, p }; }
		case ShapeT: { std::string s = d.boolean() ? "circle" : "square"; return { s, s }; }
		default: {
			std::string s = gen::ident(d, 3);
			for (int n = (int) d.size(4); n > 0; --n) s += d.pick<std::string>({ "a", " b", "=", " = ", ":", "  c", "/", "1", "\xc3\xa9", "=d", " : x" });
			while (s.back() == ' ' || s.back() == '=' || s.back() == ':') s.pop_back();
			return { s, s };
		}
	}
}

std::string badText(pbt::Data & d, int type) {
	switch (type) {
		case Byte: return d.pick<std::string>({ "128", "-129", "x", "1x" });
		case Short: return d.pick<std::string>({ "32768", "-32769", "x", "1x" });
		case Int: return d.pick<std::string>({ "2147483648", "-2147483649", "x", "1.5" });
		case Long: return d.pick<std::string>({ "9223372036854775808", "x", "7 7" });
		case UInt: return d.pick<std::string>({ "4294967296", "-1", "x" });
		case Float: return d.pick<std::string>({ "x", "1.5x", "1e99" });
		case Double: return d.pick<std::string>({ "x", "1.5x", "1e999" });
		case Char: return "\xc4\x80";
		case Boolean: return d.pick<std::string>({ "maybe", "x", "truee" });
		case PointT: return "1/";
		case ShapeT: return "triangle";
		default: return "";
	}
}

struct Spec {
	std::string name;
	bool group = false;
	int type = String;
	bool hasDefault = false;
	Text def;
	std::vector<Spec> children;
};

struct Env {
	std::string name;
	bool composite = false;
	std::string text;
	std::vector<Env> children;
};

const std::vector<std::string> names { "a", "b", "c.d", "http.port", "404", "x-1" };

// The kind and type which a path usually has: keeps the sources mostly compatible.
uint64_t pathHash(uint64_t salt, const std::string & path) { return pbt::mix(salt ^ pbt::hashStr(path)); }

std::vector<Spec> genSpec(pbt::Data & d, uint64_t salt, const std::string & path, int depth, bool wired) {
	std::vector<Spec> r;
	std::set<std::string> used;
	const size_t n = d.size(4);
	for (size_t i = 0; i < n; ++i) {
		Spec s;
		s.name = d.pick(names);
		if (!used.insert(s.name).second) continue;
		const uint64_t h = pathHash(salt, path + "/" + s.name);
		s.group = h % 3 == 0;
		if (d.chance(1, 60)) s.group = !s.group;
		if (s.group) {
			if (depth == 0) continue;
			s.children = genSpec(d, salt, path + "/" + s.name, depth - 1, wired);
			if (s.children.size() > 3) s.children.resize(3);
			if (s.children.empty() && wired) continue;
		} else {
			s.type = (int) ((h >> 8) % TypeCount);
			if (d.chance(1, 5)) s.type = (int) d.upto(TypeCount - 1);
			s.hasDefault = d.chance(1, 2);
			if (s.hasDefault) s.def = goodText(d, s.type);
		}
		r.push_back(std::move(s));
	}
	return r;
}

bool unjudged;       // The sources leave the outcome open.

// Later specifications replace earlier ones; groups are merged. False: incompatible.
bool merge(std::vector<Spec> & dst, const std::vector<Spec> & src, bool root) {
	for (auto & s : src) {
		if (s.group && s.children.empty()) continue;
		auto i = std::find_if(dst.begin(), dst.end(), [&] (auto & x) { return x.name == s.name; });
		if (i == dst.end()) {
			Spec c = s;
			if (c.group) {
				// An empty group inside a new group declares nothing.
				dst.push_back(c);
			} else dst.push_back(c);
		} else if (s.group && i->group) {
			if (!merge(i->children, s.children, false)) return false;
		} else if (s.group != i->group) {
			if (root && !s.group) unjudged = true;
			return false;
		} else *i = s;
	}
	return true;
}

// Bindings of one level: key is the name and the kind of binding.
struct Level;
struct Bound { int type; std::string value; bool optional = false; };
struct Level {
	std::map<std::string, std::vector<Bound>> values;
	std::map<std::string, Level> composites;
	bool empty() const { return values.empty() && composites.empty(); }
};

bool bad;            // A value does not denote a value of its type or a value is given for a group.
bool conflict;

bool convert(const std::string & text, int type, std::string & value);

void build(Level & l, const std::vector<Env> & env, const std::vector<Spec> & specs, std::map<std::pair<int, std::string>, std::string> & reprs) {
	for (auto & e : env) {
		auto s = std::find_if(specs.begin(), specs.end(), [&] (auto & x) { return x.name == e.name; });
		if (e.composite) {
			build(l.composites[e.name], e.children, s != specs.end() && s->group ? s->children : std::vector<Spec>(), reprs);
			if (s != specs.end() && !s->group) {
				conflict = true;
				if (s->hasDefault) unjudged = true;
			}
		} else {
			if (s != specs.end() && s->group) { bad = true; conflict = true; continue; }
			const int type = s == specs.end() ? (int) String : s->type;
			auto r = reprs.find({ type, e.text });
			if (type == String) l.values[e.name].push_back({ type, e.text });
			else if (type == UriT) l.values[e.name].push_back({ type, e.text.compare(0, 5, "file:") ? e.text : e.text.substr(5) });
			else if (r == reprs.end()) bad = true;
			else l.values[e.name].push_back({ type, r->second });
		}
	}
	for (auto & s : specs) {
		if (!s.group) {
			if (s.hasDefault && !l.values.count(s.name)) l.values[s.name].push_back({ s.type, s.def.value });
		} else {
			Level sub;
			const bool present = l.composites.count(s.name);
			if (!present) {
				build(sub, {}, s.children, reprs);
				if (!sub.empty()) l.composites[s.name] = sub;
			}
		}
	}
}

void mergeEnv(std::vector<Env> & dst, const std::vector<Env> & src) {
	for (auto & e : src) {
		auto i = std::find_if(dst.begin(), dst.end(), [&] (auto & x) { return x.name == e.name && x.composite == e.composite; });
		if (i == dst.end()) dst.push_back(e);
		else if (e.composite) mergeEnv(i->children, e.children);
		else i->text = e.text;
	}
}

const Spec * find(const std::vector<Spec> & l, const std::string & n) {
	for (auto & s : l) if (s.name == n) return &s;
	return nullptr;
}

std::vector<Env> genEnv(pbt::Data & d, const std::vector<Spec> & specs, int depth, bool & damaged, std::map<std::pair<int, std::string>, std::string> & reprs) {
	std::vector<Env> r;
	std::set<std::string> used;
	const size_t n = d.size(4);
	for (size_t i = 0; i < n; ++i) {
		Env e;
		e.name = !specs.empty() && d.chance(3, 4) ? d.pick(specs).name : d.pick(names);
		if (!used.insert(e.name).second) continue;
		const Spec * s = find(specs, e.name);
		e.composite = s ? s->group : d.chance(1, 4);
		if (d.chance(1, 50)) e.composite = !e.composite;
		if (e.composite) {
			if (depth == 0) continue;
			e.children = genEnv(d, s ? s->children : std::vector<Spec>(), depth - 1, damaged, reprs);
		} else {
			const int type = s && !s->group ? s->type : (int) String;
			if (!damaged && d.chance(1, 40) && !badText(d, type).empty()) {
				e.text = badText(d, type);
				damaged = true;
			} else {
				Text t = goodText(d, type);
				e.text = t.text;
				reprs[{ type, t.text }] = t.value;
			}
		}
		r.push_back(std::move(e));
	}
	return r;
}

// Renders a level; some runs of lines are moved to included files.
struct Renderer {
	pbt::Data & d;
	int counter, last;

	std::string newFile(const std::string & dir, std::string & rel) {
		static const std::vector<std::string> rels { "", "sub/", "../", "sub/deep/", "../other/" };
		std::string r = d.pick(rels);
		if (dir == gen::scratch() && r.substr(0, 2) == "..") r = "sub/";
		std::string base = dir + "/" + r;
		for (size_t i = 1; i <= base.size(); ++i) if (i == base.size() || base[i] == '/') mkdir(base.substr(0, i).c_str(), 0700);
		rel = r + "inc" + std::to_string(counter++) + ".hconf";
		return dir + "/" + rel;
	}

	static std::string dirOf(const std::string & f) { return f.substr(0, f.rfind('/')); }

	template <typename N> std::string level(const std::vector<N> & l, const std::string & dir, int indent) {
		std::string out;
		std::string ind(indent, d.boolean() ? ' ' : '\t');
		size_t i = 0;
		while (i < l.size()) {
			if (counter < last && d.chance(1, 6)) {
				const size_t n = 1 + d.upto(l.size() - i - 1);
				std::string rel, path = newFile(dir.empty() ? gen::scratch() : dir, rel);
				const bool absolute = dir.empty() || d.chance(1, 4);
				std::string text = level(std::vector<N>(l.begin() + i, l.begin() + i + n), dirOf(path), 0);
				std::ofstream(path) << text;
				out += ind + "@" + (absolute ? (dir.empty() || d.boolean() ? "file://" : "") + path : (d.chance(1, 4) ? "file:" : "") + rel) + "\n";
				i += n;
				continue;
			}
			if (d.chance(1, 8)) out += ind + "# a comment = 1\n";
			if (d.chance(1, 8)) out += "\n";
			node(out, l[i], dir, indent, ind);
			++i;
		}
		return out;
	}

	void node(std::string & out, const Spec & s, const std::string & dir, int indent, const std::string & ind) {
		if (s.group) out += ind + s.name + " {\n" + level(s.children, dir, indent + 1) + ind + "}\n";
		else {
			out += ind + s.name + d.pick<std::string>({ " : ", " = ", "=", " ", ":" }) + typeNames[s.type];
			if (s.hasDefault) out += d.pick<std::string>({ " = ", "=", " =", "=  " }) + s.def.text;
			out += "\n";
		}
	}

	void node(std::string & out, const Env & e, const std::string & dir, int indent, const std::string & ind) {
		if (e.composite) out += ind + e.name + " {\n" + level(e.children, dir, indent + 1) + ind + "}\n";
		else out += ind + e.name + d.pick<std::string>({ " = ", "=", " : ", " " }) + e.text + "\n";
	}
};

// A configuration whose configure method declares the supplied specifications.
struct Wired : EnvironmentConfiguration {
	std::vector<Spec> specs;
	template <typename ... A> Wired(std::vector<Spec> s, const A & ... a) : EnvironmentConfiguration(a ...), specs(std::move(s)) {}

	using Ptr = decltype(std::declval<EnvironmentConfiguration>().getExtraConfiguration(), Impl::PropertyBindingBuilderFactoryPtr());

	template <typename T> Ptr declareValue(const Spec & s) const {
		if (!s.hasDefault) return value<T>(s.name);
		T v {};
		std::istringstream in(s.def.text);
		if constexpr (std::is_same_v<T, std::string>) v = s.def.text;
		else if constexpr (std::is_same_v<T, own::Point>) own::fromString(v, s.def.text);
		else if constexpr (std::is_same_v<T, bool>) v = s.def.text == "true";
		else if constexpr (std::is_same_v<T, char>) v = s.def.text[0];
		else if constexpr (std::is_floating_point_v<T>) v = (T) strtod(s.def.text.c_str(), nullptr);
		else if constexpr (std::is_unsigned_v<T>) v = (T) strtoull(s.def.text.c_str(), nullptr, 10);
		else v = (T) strtoll(s.def.text.c_str(), nullptr, 10);
		return value<T>(s.name, v);
	}

	Ptr declare(const Spec & s) const {
		if (s.group) {
			auto & c = s.children;
			switch (c.size()) {
				case 1: { auto a = declare(c[0]); return group(s.name, a); }
				case 2: { auto a = declare(c[0]), b = declare(c[1]); return group(s.name, a, b); }
				default: { auto a = declare(c[0]), b = declare(c[1]), e = declare(c[2]); return group(s.name, a, b, e); }
			}
		}
		if (s.type == UriT) {
			if (s.hasDefault) return unique<Resource::Uri>(s.name, std::unique_ptr<Resource::Uri>(new Resource::File(s.def.value)));
			return unique<Resource::Uri>(s.name);
		}
		if (s.type == ShapeT) {
			std::unique_ptr<own::Shape> p;
			if (s.hasDefault) own::fromString(p, s.def.text);
			const bool explicitly = s.name.size() % 2;
			if (explicitly) return s.hasDefault ? unique<own::Shape>(s.name, own::cloneShape, std::move(p)) : unique<own::Shape>(s.name, own::cloneShape);
			return s.hasDefault ? unique<own::Shape>(s.name, std::move(p)) : unique<own::Shape>(s.name);
		}
		Ptr r;
		valueTypes([&] (int t, auto * x) { if (t == s.type) r = declareValue<std::remove_pointer_t<decltype(x)>>(s); });
		return r;
	}

	void configure() const override { for (auto & s : specs) declare(s); }
};

const Bound * get(const Level & l, const std::string & name, int type) {
	auto i = l.values.find(name);
	if (i == l.values.end()) return nullptr;
	for (auto & b : i->second) if (b.type == type) return &b;
	return nullptr;
}

void compareProperties(const EnvironmentProperties & p, const Level & l, const std::string & path) {
	size_t expected = l.composites.size();
	for (auto & v : l.values) expected += v.second.size();
	size_t got = 0;
	std::set<std::string> seen;
	for (auto it = p.begin(); it != p.end(); ++it) {
		auto item = *it;
		++got;
		const std::string name(item.getName());
		if (item.isComposite()) {
			CHECK(l.composites.count(name), "unexpected composite " << path << name);
			CHECK(item.getComposite() && item.getCompositeOrNull() == item.getComposite(), "composite item");
			seen.insert("c" + name);
		} else {
			bool found = false;
			valueTypes([&] (int t, auto * x) {
				using T = std::remove_pointer_t<decltype(x)>;
				if (!item.template isValue<T>()) return;
				auto * b = get(l, name, t);
				CHECK(b, "unexpected value of type " << typeNames[t] << " at " << path << name << ": " << repr(item.template getValue<T>()));
				CHECK(repr(item.template getValue<T>()) == b->value && repr(item.template getValue<T>(T())) == b->value, "item " << path << name);
				found = true;
			});
			if (item.isUnique<Resource::Uri>()) { found = true; CHECK(get(l, name, UriT), "unexpected URI " << path << name); }
			if (item.isUnique<own::Shape>()) { found = true; CHECK(get(l, name, ShapeT), "unexpected shape " << path << name); CHECK(item.getUnique<own::Shape>()->kind == get(l, name, ShapeT)->value, "shape item"); }
			CHECK(found, "item of unknown kind " << path << name);
			seen.insert("v" + name);
		}
	}
	CHECK(got == expected, path << " has " << got << " properties, expected " << expected);
	CHECK(p.empty() == l.empty(), "empty() of " << path);
	for (auto & n : names) {
		valueTypes([&] (int t, auto * x) {
			using T = std::remove_pointer_t<decltype(x)>;
			auto * b = get(l, n, t);
			CHECK(p.hasValue<T>(n) == (b != nullptr), "hasValue " << typeNames[t] << " " << path << n << " is " << p.hasValue<T>(n));
			if (b) {
				CHECK(repr(p.getValue<T>(n)) == b->value, path << n << " is " << pbt::show(repr(p.getValue<T>(n))) << ", expected " << pbt::show(b->value));
				CHECK(repr(p.getValue<T>(n, T())) == b->value, "getValue with a default");
			} else {
				MUST_THROW(p.getValue<T>(n), Exception::NoBindingException, path << n);
				CHECK(repr(p.getValue<T>(n, T())) == repr(T()), "the default of a missing value");
			}
		});
		auto unique = [&] (int t, auto * x) {
			using T = std::remove_pointer_t<decltype(x)>;
			auto * b = get(l, n, t);
			CHECK(p.hasUnique<T>(n) == (b != nullptr), "hasUnique " << path << n);
			if (b) {
				auto u = p.getUnique<T>(n), w = p.getUnique<T>(n, std::unique_ptr<T>());
				CHECK(u && w && u.get() != w.get() && reprUnique(*u) == b->value && reprUnique(*w) == b->value, path << n << " is " << (u ? reprUnique(*u) : "null") << ", expected " << b->value);
			} else {
				MUST_THROW(p.getUnique<T>(n), Exception::NoBindingException, path << n);
				CHECK(!p.getUnique<T>(n, std::unique_ptr<T>()), "the default of a missing unique");
			}
		};
		unique(UriT, (Resource::Uri *) nullptr);
		unique(ShapeT, (own::Shape *) nullptr);
		auto c = l.composites.find(n);
		CHECK(p.hasComposite(n) == (c != l.composites.end()), "hasComposite " << path << n);
		if (c != l.composites.end()) {
			auto sub = p.getComposite(n);
			CHECK(sub && sub == p.getComposite(n) && sub == p.getCompositeOrNull(n), "composite " << path << n);
			compareProperties(*sub, c->second, path + n + "/");
		} else {
			CHECK(!p.getCompositeOrNull(n), "getCompositeOrNull " << path << n);
			MUST_THROW(p.getComposite(n), Exception::NoBindingException, path << n);
		}
	}
}

void compareInjector(Injector & p, const Level & l) {
	for (auto & n : names) {
		valueTypes([&] (int t, auto * x) {
			using T = std::remove_pointer_t<decltype(x)>;
			auto * b = get(l, n, t);
			if (b) CHECK(repr(p.getValue<T>(std::string_view(n))) == b->value, n << " is " << pbt::show(repr(p.getValue<T>(n))) << ", expected " << pbt::show(b->value));
			else MUST_THROW(p.getValue<T>(std::string_view(n)), Exception::NoBindingException, n << " of type " << typeNames[t]);
		});
		auto unique = [&] (int t, auto * x) {
			using T = std::remove_pointer_t<decltype(x)>;
			auto * b = get(l, n, t);
			if (!b) MUST_THROW(p.getUnique<T>(n), Exception::NoBindingException, n);
			else { auto u = p.getUnique<T>(n), w = p.getUnique<T>(n); CHECK(u && w && u.get() != w.get() && reprUnique(*u) == b->value && reprUnique(*w) == b->value, n << " is " << reprUnique(*u) << ", expected " << b->value); }
		};
		unique(UriT, (Resource::Uri *) nullptr);
		unique(ShapeT, (own::Shape *) nullptr);
		auto c = l.composites.find(n);
		if (c == l.composites.end()) MUST_THROW(p.getShared<EnvironmentProperties>(n), Exception::NoBindingException, n);
		if (c != l.composites.end()) compareProperties(*p.getShared<EnvironmentProperties>(n), c->second, n + "/");
	}
}

std::string showSpec(const std::vector<Spec> & l) {
	std::string r;
	for (auto & s : l) {
		r += s.name;
		if (s.group) r += "{" + showSpec(s.children) + "} ";
		else r += ":" + std::string(typeNames[s.type]) + (s.hasDefault ? "=" + s.def.text : "") + "; ";
	}
	return r;
}

void collect(const std::vector<Spec> & l, std::map<std::pair<int, std::string>, std::string> & reprs) {
	for (auto & s : l) {
		if (s.hasDefault) reprs[{ s.type, s.def.text }] = s.def.value;
		collect(s.children, reprs);
	}
}

PBT(configuration, 4000, 120000) {
	registerTypes();
	const uint64_t salt = d.upto(1000000);
	std::vector<std::vector<Spec>> fileSpecs(d.weighted({ 1, 3, 2 }));
	for (auto & s : fileSpecs) s = genSpec(d, salt, "", 2, false);
	std::vector<Spec> wired;
	if (d.chance(1, 2)) wired = genSpec(d, salt, "", 2, true);
	unjudged = bad = conflict = false;
	std::vector<Spec> all;
	bool compatible = true;
	for (auto & s : fileSpecs) compatible = compatible && merge(all, s, true);
	compatible = compatible && merge(all, wired, true);
	if (unjudged) d.discard();
	std::map<std::pair<int, std::string>, std::string> reprs;
	collect(all, reprs);
	std::vector<std::vector<Env>> inputs(1 + d.weighted({ 4, 2, 1 }));
	std::vector<Env> env;
	bool damaged = false;
	for (auto & e : inputs) {
		e = genEnv(d, all, 2, damaged, reprs);
		mergeEnv(env, e);
	}
	Level expected;
	build(expected, env, all, reprs);
	if (unjudged) d.discard();
	const bool refused = bad || !compatible;

	const bool files = d.boolean();
	mkdir((gen::scratch() + "/top").c_str(), 0700);
	int serial = 0;
	struct Sources { std::vector<std::string> texts; } in, sp;
	auto render = [&] (auto & tree) {
		Renderer one { d, serial, serial + 3 };
		std::string text = one.level(tree, files ? gen::scratch() + "/top" : "", 0);
		serial = one.counter;
		return text;
	};
	for (auto & e : inputs) in.texts.push_back(render(e));
	for (auto & s : fileSpecs) sp.texts.push_back(render(s));
	for (auto & t : in.texts) d.note("input:\n", t);
	for (auto & t : sp.texts) d.note("types:\n", t);
	d.note("declared: ", showSpec(wired));

	std::vector<std::shared_ptr<Resource::Uri>> inUris, spUris;
	std::vector<Resource::File> inFiles, spFiles;
	auto make = [&] (const std::string & text, const char * tag, size_t i, auto & uris, auto & fs) {
		if (files) {
			const std::string path = gen::scratch() + "/top/" + tag + std::to_string(i) + ".hconf";
			std::ofstream(path) << text;
			fs.emplace_back(path);
			uris.emplace_back(new Resource::File(path));
		} else uris.emplace_back(new Resource::StringUri(text));
	};
	for (size_t i = 0; i < in.texts.size(); ++i) make(in.texts[i], "input", i, inUris, inFiles);
	for (size_t i = 0; i < sp.texts.size(); ++i) make(sp.texts[i], "types", i, spUris, spFiles);

	std::unique_ptr<Wired> conf;
	std::string form;
	auto construct = [&] () {
		const size_t ni = inUris.size(), ns = spUris.size();
		std::vector<std::string> forms { "uris" };
		if (files) forms.push_back("files");
		if (ni == 1 && ns == 0) { forms.push_back("uri"); forms.push_back("shared"); if (!files) forms.push_back("string"); }
		if (ni == 1 && ns == 1) { forms.push_back("uri+1"); forms.push_back("shared+1"); if (!files) forms.push_back("string+1"); }
		if (ni == 1 && ns == 2) { forms.push_back("uri+2"); forms.push_back("shared+2"); }
		form = d.pick(forms);
		d.note("form ", form);
		if (form == "uris") conf.reset(new Wired(wired, inUris, spUris));
		else if (form == "files") conf.reset(new Wired(wired, inFiles, spFiles));
		else if (form == "uri") conf.reset(new Wired(wired, *inUris[0]));
		else if (form == "shared") conf.reset(new Wired(wired, inUris[0]));
		else if (form == "string") conf.reset(new Wired(wired, in.texts[0]));
		else if (form == "uri+1") conf.reset(new Wired(wired, *inUris[0], *spUris[0]));
		else if (form == "shared+1") conf.reset(new Wired(wired, inUris[0], spUris[0]));
		else if (form == "string+1") conf.reset(new Wired(wired, in.texts[0], sp.texts[0]));
		else if (form == "uri+2") conf.reset(new Wired(wired, *inUris[0], *spUris[0], *spUris[1]));
		else conf.reset(new Wired(wired, inUris[0], spUris[0], spUris[1]));
	};
	if (!refused && (serial > 0 || expected.composites.size()) && !env.empty() && !all.empty()) d.nontrivial();
	if (serial) d.label("includes");
	if (refused) d.label(compatible ? "bad value" : "incompatible");
	if (refused) d.nontrivial();
	d.label(form);
	const long shapes = own::Shape::live;
	construct();
	const int rounds = d.chance(1, 3) ? 2 : 1;
	for (int round = 0; round < rounds; ++round) {
		std::shared_ptr<Injector> injector;
		std::string error;
		try { injector = Injector::create(*conf); } catch (const Exception::BalauException & e) { error = e.what(); }
		CHECK(!injector == refused, (refused ? "a faulty configuration was accepted" : "refused: ") << error << (round ? " (second use of the configuration)" : ""));
		if (injector) compareInjector(*injector, expected);
		if (round == 1) d.label("used twice");
	}
	conf.reset();
	CHECK(own::Shape::live == shapes, "objects of unique properties were not destroyed");
}

} // namespace
