// P08: the dependency graph.
#include "pbt.hpp"
#include "gen.hpp"
#include <list>
#include <string>
#include <Balau/Container/DependencyGraph.hpp>
#include <Balau/Container/DependencyGraph.hpp>
#include <map>
#include <set>

using namespace Balau;
using namespace Balau::Container;
using Balau::Exception::ItemExistsException;
using Balau::Exception::ItemDoesNotExistException;
using Balau::Exception::RelationshipDoesNotExistException;

namespace {

template <typename V> V key(size_t i);
template <> int key<int>(size_t i) { return (int) (i * 7 % 23) - 5; }
template <> std::string key<std::string>(size_t i) { return std::string(i % 3 == 2 ? 20 : 1, (char) ('a' + i)); }

template <typename V> std::string str(const V & v) { std::ostringstream o; o << v; return o.str(); }
template <typename V> std::string str(const std::vector<V> & v) { std::string r = "["; for (auto & x : v) r += str(x) + " "; return r + "]"; }

// Vertices and edges as plain sets.
template <typename V> struct Model {
	std::set<V> vertices;
	std::map<std::pair<V, V>, int> edges;

	bool reaches(const V & from, const V & to) const {   // by at least one edge
		std::set<V> seen;
		std::vector<V> todo { from };
		while (!todo.empty()) {
			V v = todo.back();
			todo.pop_back();
			for (auto & e : edges) if (e.first.first == v) {
				if (e.first.second == to) return true;
				if (seen.insert(e.first.second).second) todo.push_back(e.first.second);
			}
		}
		return false;
	}
	bool cyclic() const {
		for (auto & v : vertices) if (reaches(v, v)) return true;
		return false;
	}
	size_t level(const V & v) const {   // longest path from a root, acyclic only
		std::map<V, size_t> memo;
		std::function<size_t (const V &)> f = [&] (const V & x) -> size_t {
			auto it = memo.find(x);
			if (it != memo.end()) return it->second;
			size_t r = 0;
			for (auto & e : edges) if (e.first.second == x) r = std::max(r, f(e.first.first) + 1);
			return memo[x] = r;
		};
		return f(v);
	}
};

template <typename V, typename E, typename G> void compare(pbt::Data & d, G & g, const Model<V> & m, size_t pool) {
	for (size_t i = 0; i < pool; ++i) {
		V v = key<V>(i);
		bool there = m.vertices.count(v) != 0;
		CHECK(g.hasDependency(v) == there, "hasDependency " << str(v));
		const V * p = g.lookupDependency(v);
		CHECK((p != nullptr) == there, "lookupDependency " << str(v));
		if (p) CHECK(*p == v, "lookupDependency value");
		if (there) {
			auto deps = g.directDependenciesOf(v);
			std::multiset<V> got(deps.begin(), deps.end()), want;
			for (auto & e : m.edges) if (e.first.second == v) want.insert(e.first.first);
			CHECK(got == want, "directDependenciesOf " << str(v) << " got " << str(deps));
		}
		if constexpr (!std::is_same_v<E, boost::no_property>) {
			for (size_t j = 0; j < pool; ++j) {
				V w = key<V>(j);
				if (!there || !m.vertices.count(w)) {
					if (!d.chance(1, 20)) continue;
					MUST_THROW(g.getRelation(v, w), ItemDoesNotExistException<V>, "");
				} else {
					auto it = m.edges.find({ v, w });
					if (it == m.edges.end()) {
						if (!d.chance(1, 10)) continue;
						bool threw = false;
						try { g.getRelation(v, w); } catch (const RelationshipDoesNotExistException<V, V> &) { threw = true; }
						CHECK(threw, "getRelation of an absent relationship");
					} else CHECK(g.getRelation(v, w) == it->second, "edge data of " << str(v) << "->" << str(w));
				}
			}
		}
	}
	if constexpr (std::is_same_v<E, boost::no_property>) {
		std::multiset<V> got, want(m.vertices.begin(), m.vertices.end());
		for (auto it = g.begin(); it != g.end(); ++it) got.insert(*it);
		CHECK(got == want, "iteration visits every vertex once");
		const G & cg = g;
		got.clear();
		for (auto it = cg.begin(); it != cg.end(); ++it) got.insert(*it);
		CHECK(got == want, "const iteration visits every vertex once");
	}
	bool cyclic = m.cyclic();
	CHECK(g.hasCycles() == cyclic, "hasCycles");
	std::vector<std::pair<V, V>> edges;
	size_t pre = d.upto(1);
	for (size_t i = 0; i < pre; ++i) edges.push_back({ key<V>(0), key<V>(0) });
	CHECK(g.hasCycles(edges) == cyclic, "hasCycles with edges");
	CHECK((edges.size() > pre) == cyclic, "cycle edges reported iff cyclic");
	Model<V> rest = m;
	for (size_t i = pre; i < edges.size(); ++i) {
		CHECK(m.edges.count(edges[i]), "reported cycle edge " << str(edges[i].first) << "->" << str(edges[i].second) << " is not a relationship");
		CHECK(edges[i].first == edges[i].second || m.reaches(edges[i].second, edges[i].first), "reported edge is not on a cycle");
		rest.edges.erase(edges[i]);
	}
	CHECK(!rest.cyclic(), "removing the reported edges leaves a cycle");
	if (cyclic) {
		d.label("cyclic");
		bool threw = false;
		try { g.dependencyOrder(); } catch (const std::exception &) { threw = true; }
		CHECK(threw, "dependencyOrder of a cyclic graph must be refused");
		threw = false;
		try { g.parallelDependencyOrder(); } catch (const std::exception &) { threw = true; }
		CHECK(threw, "parallelDependencyOrder of a cyclic graph must be refused");
		return;
	}
	auto order = g.dependencyOrder();
	CHECK(std::multiset<V>(order.begin(), order.end()) == std::multiset<V>(m.vertices.begin(), m.vertices.end()), "dependencyOrder is a permutation: " << str(order));
	std::map<V, size_t> pos;
	for (size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
	for (auto & e : m.edges) CHECK(pos[e.first.first] < pos[e.first.second], "dependencyOrder puts " << str(e.first.second) << " before its dependency " << str(e.first.first));
	auto levels = g.parallelDependencyOrder();
	std::multiset<V> all;
	for (size_t l = 0; l < levels.size(); ++l) {
		CHECK(!levels[l].empty() || m.vertices.empty(), "empty level");
		for (auto & v : levels[l]) {
			all.insert(v);
			CHECK(m.vertices.count(v), "unknown vertex in a level");
			CHECK(m.level(v) == l, "level of " << str(v) << " is " << l << ", longest dependency chain has " << m.level(v));
		}
	}
	CHECK(all == std::multiset<V>(m.vertices.begin(), m.vertices.end()), "parallelDependencyOrder is a permutation");
}

template <typename V, typename E> void history(pbt::Data & d) {
	using G = DependencyGraph<V, E>;
	G g;
	Model<V> m;
	const size_t pool = 1 + d.size(9);
	const size_t ops = d.size(40);
	bool acyclicOnly = d.boolean();
	size_t effective = 0;
	for (size_t i = 0, n = d.upto(pool); i < n; ++i) { g.addDependency(key<V>(i)); m.vertices.insert(key<V>(i)); }
	for (size_t i = 0; i < ops; ++i) {
		V a = key<V>(d.upto(pool - 1)), b = key<V>(d.upto(pool - 1));
		bool hasA = m.vertices.count(a), hasB = m.vertices.count(b);
		switch (d.weighted({ 4, 1, 8, 2 })) {
			case 0: {
				bool thr = d.boolean();
				d.note("addDependency(" + str(a) + ", " + (thr ? "true)" : "false)"));
				if (hasA && thr) MUST_THROW(g.addDependency(a), ItemExistsException<V>, "");
				else g.addDependency(a, thr);
				m.vertices.insert(a);
				break;
			}
			case 1: {
				bool thr = d.boolean();
				d.note("removeDependency(" + str(a) + ", " + (thr ? "true)" : "false)"));
				if (!hasA && thr) MUST_THROW(g.removeDependency(a), ItemDoesNotExistException<V>, "");
				else g.removeDependency(a, thr);
				if (hasA) ++effective;
				m.vertices.erase(a);
				for (auto it = m.edges.begin(); it != m.edges.end(); ) if (it->first.first == a || it->first.second == a) it = m.edges.erase(it); else ++it;
				break;
			}
			case 2: {
				if (acyclicOnly && hasA && hasB && (a == b || m.reaches(b, a))) continue;
				int data = (int) i;
				if (m.edges.count({ a, b })) data = m.edges[{ a, b }];
				d.note("addRelationship(" + str(a) + ", " + str(b) + ")");
				auto add = [&] { if constexpr (std::is_same_v<E, boost::no_property>) g.addRelationship(a, b); else g.addRelationship(a, b, data); };
				if (!hasA || !hasB) MUST_THROW(add(), ItemDoesNotExistException<V>, "");
				else { add(); m.edges.emplace(std::make_pair(a, b), data); ++effective; }
				break;
			}
			default:
				d.note("removeRelationship(" + str(a) + ", " + str(b) + ")");
				if (!hasA || !hasB) MUST_THROW(g.removeRelationship(a, b), ItemDoesNotExistException<V>, "");
				else { g.removeRelationship(a, b); m.edges.erase({ a, b }); }
				break;
		}
		if (d.chance(1, 8)) compare<V, E>(d, g, m, pool);
	}
	compare<V, E>(d, g, m, pool);
	d.nontrivial(effective >= 3 && m.edges.size() >= 2);
}

}

PBT(plain_int, 40000, 1500000) { history<int, boost::no_property>(d); }
PBT(plain_string, 30000, 1000000) { history<std::string, boost::no_property>(d); }
PBT(edge_data, 20000, 1000000) { history<int, int>(d); }
