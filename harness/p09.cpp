// P09: the object trie.
#include "pbt.hpp"
#include "gen.hpp"
#include <queue>
#include <list>
#include <deque>
#include <Balau/Container/ObjectTrie.hpp>

using namespace Balau::Container;

namespace {

struct Val {
	int k = 0;
	std::string body;
	Val() = default;
	Val(int k_) : k(k_) {}
	Val(int k_, std::string b) : k(k_), body(std::move(b)) {}
};
bool operator == (const Val & a, const Val & b) { return a.k == b.k; }
std::ostream & operator << (std::ostream & o, const Val & v) { return o << v.k << ":" << v.body; }

using Trie = ObjectTrie<Val>;
using Node = ObjectTrieNode<Val>;

// The reference: a plain tree.
struct M {
	int k = 0;
	std::string body;
	std::vector<M> c;
	M * find(int key) { for (auto & x : c) if (x.k == key) return &x; return nullptr; }
};

std::string str(const M & m) {
	std::string r = std::to_string(m.k) + ":" + m.body;
	if (!m.c.empty()) { r += "("; for (auto & x : m.c) r += str(x) + " "; r += ")"; }
	return r;
}
// Read by index only.
std::string str(const Node & n) {
	std::string r = std::to_string(n.value.k) + ":" + n.value.body;
	if (n.count()) { r += "("; for (size_t i = 0; i < n.count(); ++i) r += str(n[i]) + " "; r += ")"; }
	return r;
}

void preorder(const M & m, std::vector<const M *> path, std::vector<std::vector<const M *>> & out) {
	path.push_back(&m);
	out.push_back(path);
	for (auto & x : m.c) preorder(x, path, out);
}
std::string show(const M & m) { return std::to_string(m.k) + ":" + m.body; }
std::string show(const Node & n) { return std::to_string(n.value.k) + ":" + n.value.body; }

void cascade(M & dst, const M & src, const std::function<std::string (const std::string &)> & f) {
	dst.body = f(src.body);
	dst.k = src.k;
	for (auto & s : src.c) {
		M * e = dst.find(s.k);
		if (!e) { dst.c.push_back(M { s.k, s.body, {} }); e = &dst.c.back(); }
		cascade(*e, s, f);
	}
}

void checkNodeIteration(Node & n) {
	std::vector<Node *> got;
	for (auto & x : n) got.push_back(&x);
	CHECK(got.size() == n.count(), "node iteration visits " << got.size() << " of " << n.count() << " children");
	for (size_t i = 0; i < got.size(); ++i) CHECK(got[i] == &n[i], "node iteration order");
	const Node & cn = n;
	size_t count = 0;
	for (auto & x : cn) { CHECK(&x == &n[count], "const node iteration order"); ++count; }
	CHECK(count == n.count(), "const node iteration count");
	CHECK(n.empty() == (n.count() == 0), "empty");
	for (size_t i = 0; i < n.count(); ++i) checkNodeIteration(n[i]);
}

template <typename It> void checkDepth(It it, It end, const std::vector<std::vector<const M *>> & want) {
	size_t i = 0;
	for (; it != end; ++it, ++i) {
		CHECK(i < want.size(), "depth iteration visits too many nodes");
		const auto & path = want[i];
		CHECK(show(*it) == show(*path.back()), "depth iteration node " << i << " is " << show(*it) << " expected " << show(*path.back()));
		CHECK(it->value.body == path.back()->body, "operator ->");
		for (size_t l = 0; l < path.size() + 2; ++l) {
			auto * a = it.getAncestor(l);
			if (l >= path.size()) CHECK(a == nullptr, "getAncestor beyond the root");
			else CHECK(a && show(*a) == show(*path[path.size() - 1 - l]), "getAncestor(" << l << ")");
		}
		It copy = it;
		CHECK(copy == it && !(copy != it), "iterator copy equality");
	}
	CHECK(i == want.size(), "depth iteration stopped after " << i << " of " << want.size() << " nodes");
	++it;
	CHECK(it == end, "incrementing the end iterator stays at the end");
}

// Iterators are equal exactly when they are at the same position.
template <typename It> void checkPositions(pbt::Data & d, It begin, It end, size_t n, const char * kind) {
	for (int k = 0; k < 3; ++k) {
		const size_t p = d.upto(n), q = d.chance(1, 4) ? p : d.upto(n);
		It a = begin, b = begin;
		for (size_t i = 0; i < p; ++i) ++a;
		for (size_t i = 0; i < q; ++i) ++b;
		CHECK((a == b) == (p == q) && (a != b) == (p != q), kind << " iterators at positions " << p << " and " << q << " of " << n << ": == gives " << (a == b) << ", != gives " << (a != b));
		CHECK((a == end) == (p == n), kind << " iterator at " << p << " of " << n << " compared with the end");
	}
}

void compare(pbt::Data & d, Trie & t, const M & m) {
	CHECK(str(t.root()) == str(m), "trie is " << str(t.root()) << "\n expected " << str(m));
	CHECK(t.count() == m.c.size() && t.empty() == m.c.empty(), "count/empty of the trie");
	for (size_t i = 0; i < t.count(); ++i) CHECK(&t[i] == &t.root()[i], "operator []");
	checkNodeIteration(t.root());
	std::vector<std::vector<const M *>> pre;
	preorder(m, {}, pre);
	checkDepth(t.begin(), t.end(), pre);
	const Trie & ct = t;
	checkDepth(ct.begin(), ct.end(), pre);
	if (d.chance(1, 3)) {
		checkDepth(t.depthBegin(), t.depthEnd(), pre);
		checkDepth(ct.depthBegin(), ct.depthEnd(), pre);
	}
	{
		size_t i = 0;
		for (auto it = t.begin(); it != t.end(); ++it, ++i) {
			std::vector<const Node *> anc { nullptr };
			it.getAncestors(anc);
			CHECK(anc.size() == pre[i].size(), "getAncestors size");
			for (size_t j = 0; j < anc.size(); ++j) CHECK(show(*anc[j]) == show(*pre[i][j]), "getAncestors element");
		}
	}
	std::vector<const M *> bfs { &m };
	for (size_t i = 0; i < bfs.size(); ++i) for (auto & x : bfs[i]->c) bfs.push_back(&x);
	std::string dump;
	size_t i = 0;
	for (auto it = t.breadthBegin(); it != t.breadthEnd(); ++it, ++i) {
		CHECK(i < bfs.size() && show(*it) == show(*bfs[i]), "breadth iteration node " << i);
		dump += show(*bfs[i]) + "\n";
	}
	CHECK(i == bfs.size(), "breadth iteration stopped after " << i << " of " << bfs.size());
	i = 0;
	for (auto it = ct.breadthBegin(); it != ct.breadthEnd(); ++it, ++i) CHECK(i < bfs.size() && it->value.body == bfs[i]->body && (*it).value.k == bfs[i]->k, "const breadth iteration");
	CHECK(i == bfs.size(), "const breadth iteration count");
	if (d.chance(1, 3)) {
		checkPositions(d, t.begin(), t.end(), pre.size(), "depth");
		checkPositions(d, ct.begin(), ct.end(), pre.size(), "const depth");
		checkPositions(d, t.breadthBegin(), t.breadthEnd(), bfs.size(), "breadth");
		checkPositions(d, ct.breadthBegin(), ct.breadthEnd(), bfs.size(), "const breadth");
	}
	std::ostringstream o;
	o << ct;
	CHECK(o.str() == dump, "printed trie");
}

// The node at the end of a random path; both sides.
std::pair<Node *, M *> pick(pbt::Data & d, Trie & t, M & m, std::string & where) {
	Node * n = &t.root();
	M * x = &m;
	while (!x->c.empty() && d.chance(2, 3)) {
		size_t i = d.upto(x->c.size() - 1);
		n = &(*n)[i];
		x = &x->c[i];
		where += "/" + std::to_string(i);
	}
	return { n, x };
}

std::vector<int> keys(pbt::Data & d, const M & m, bool skipRoot) {
	std::vector<int> r;
	const M * x = &m;
	if (!skipRoot) r.push_back(d.chance(4, 5) ? m.k : (int) d.upto(4));
	while (d.chance(3, 4) && r.size() < 8) {
		if (x && !x->c.empty() && d.chance(4, 5)) {
			int k = x->c[d.upto(x->c.size() - 1)].k;
			r.push_back(k);
			x = const_cast<M *>(x)->find(k);
		} else { r.push_back((int) d.upto(5)); x = nullptr; }
	}
	return r;
}

template <typename C, typename T> void searches(T & t, M & m, const std::vector<int> & ks, bool skipRoot) {
	// Reference
	M * exact = nullptr, * nearest = nullptr;
	if (!ks.empty()) {
		M * x = &m;
		size_t i = 0;
		bool ok = true;
		if (!skipRoot) {
			if (m.k != ks[0]) ok = false;
			else { nearest = &m; ++i; }
		}
		for (; ok && i < ks.size(); ++i) {
			M * y = x->find(ks[i]);
			if (!y) ok = false;
			else x = nearest = y;
		}
		if (ok) exact = x;
	}
	M * leaf = nearest && nearest->c.empty() ? nearest : nullptr;
	auto same = [] (const Node * n, const M * x) { return (n == nullptr) == (x == nullptr) && (!n || str(*n) == str(*x)); };
	auto cmpInt = [] (const Val & a, int b) { return a.k == b; };
	auto cmpVal = [] (const Val & a, const Val & b) { return a.k == b.k; };
	if constexpr (std::is_same_v<typename C::value_type, Val>) {
		C c(ks.begin(), ks.end());
		CHECK(same(t.find(c, skipRoot), exact), "find");
		CHECK(same(t.findNearest(c, skipRoot), nearest), "findNearest");
		CHECK(same(t.findNearestLeaf(c, skipRoot), leaf), "findNearestLeaf");
		CHECK(same(t.find(c, cmpVal, skipRoot), exact), "find with comparison");
		CHECK(same(t.findNearest(c, cmpVal, skipRoot), nearest), "findNearest with comparison");
		CHECK(same(t.findNearestLeaf(c, cmpVal, skipRoot), leaf), "findNearestLeaf with comparison");
		if (skipRoot) {
			CHECK(same(t.find(c), exact), "find default");
			CHECK(same(t.findNearest(c), nearest), "findNearest default");
			CHECK(same(t.findNearestLeaf(c), leaf), "findNearestLeaf default");
		}
	} else {
		C c(ks.begin(), ks.end());
		CHECK(same(t.find(c, cmpInt, skipRoot), exact), "find by other type");
		CHECK(same(t.findNearest(c, cmpInt, skipRoot), nearest), "findNearest by other type");
		CHECK(same(t.findNearestLeaf(c, cmpInt, skipRoot), leaf), "findNearestLeaf by other type");
	}
}

void edit(pbt::Data & d, Trie & t, M & m, int & serial) {
	std::string where;
	auto [n, x] = pick(d, t, m, where);
	int k = (int) d.upto(5);
	std::string body = "b" + std::to_string(serial++) + (d.boolean() ? "-a-long-body-that-does-not-fit-inline" : "");
	auto cmp = [] (const Val & a, const Val & b) { return a.k == b.k; };
	auto parity = [] (const Val & a, const Val & b) { return a.k % 2 == b.k % 2; };
	auto append = [] (Val & a, const Val & b) { a.body += "+" + b.body; };
	const Val v(k, body);
	Val v2 = v;
	size_t op = d.upto(15);
	d.note("op " + std::to_string(op) + " at " + where + " key " + std::to_string(k) + " " + body);
	auto add = [&] { x->c.push_back(M { k, body, {} }); };
	auto put = [&] { if (M * e = x->find(k)) { e->k = k; e->body = body; } else add(); };
	auto findParity = [&] () -> M * { for (auto & e : x->c) if (e.k % 2 == k % 2) return &e; return nullptr; };
	auto putParity = [&] { if (M * e = findParity()) { e->k = k; e->body = body; } else add(); };
	auto mergeKey = [&] { if (M * e = x->find(k)) e->body += "+" + body; else add(); };
	Node * r = nullptr;
	M * want = nullptr;
	switch (op) {
		case 0: r = &n->add(v); want = x; add(); break;
		case 1: r = &n->add(std::move(v2)); want = x; add(); break;
		case 2: add(); r = &n->addAndReturnChild(v); want = &x->c.back(); break;
		case 3: add(); r = &n->addAndReturnChild(std::move(v2)); want = &x->c.back(); break;
		case 4: put(); r = &n->addOrReplace(v); want = x; break;
		case 5: put(); r = &n->addOrReplace(std::move(v2)); want = x; break;
		case 6: putParity(); r = &n->addOrReplace(v, parity); want = x; break;
		case 7: putParity(); r = &n->addOrReplace(std::move(v2), parity); want = x; break;
		case 8: mergeKey(); r = &n->addOrReplace(v, cmp, append); want = x; break;
		case 9: put(); r = d.boolean() ? &n->addOrReplaceAndReturnChild(v) : &n->addOrReplaceAndReturnChild(std::move(v2)); want = x->find(k); break;
		case 10: {
			putParity();
			r = d.boolean() ? &n->addOrReplaceAndReturnChild(v, parity) : &n->addOrReplaceAndReturnChild(std::move(v2), parity);
			want = findParity();
			break;
		}
		case 11: mergeKey(); r = d.boolean() ? &n->addOrReplaceAndReturnChild(v, cmp, append) : &n->addOrReplaceAndReturnChild(std::move(v2), cmp, append); want = x->find(k); break;
		case 12: if (!x->find(k)) add(); r = d.boolean() ? &n->findOrAddChild(v) : &n->findOrAddChild(std::move(v2)); want = x->find(k); break;
		case 13: {
			auto byInt = [] (const Val & a, int b) { return a.k == b; };
			if (d.boolean()) { if (!x->find(k)) x->c.push_back(M { k, "", {} }); r = &n->findOrAddChild(k, byInt); }
			else { if (!x->find(k)) add(); r = &n->findOrAddChild(k, byInt, [&] (int kk) { return Val(kk, body); }); }
			want = x->find(k);
			break;
		}
		case 14: {   // trie level
			switch (d.upto(4)) {
				case 0: t.add(v); m.c.push_back(M { k, body, {} }); break;
				case 1: t.add(std::move(v2)); m.c.push_back(M { k, body, {} }); break;
				case 2: t.addAndReturnChild(v); m.c.push_back(M { k, body, {} }); break;
				case 3: if (d.boolean()) t.addOrReplace(v); else t.addOrReplaceAndReturnChild(std::move(v2));
					if (M * e = m.find(k)) { e->k = k; e->body = body; } else m.c.push_back(M { k, body, {} });
					break;
				default: if (d.boolean()) t.addOrReplace(v, cmp, append); else t.addOrReplaceAndReturnChild(v, cmp, append);
					if (M * e = m.find(k)) e->body += "+" + body; else m.c.push_back(M { k, body, {} });
					break;
			}
			break;
		}
		default: {   // findOrAdd of a chain
			auto ks = keys(d, m, true);
			M * e = &m;
			size_t kind = d.upto(2);
			for (int key : ks) {
				M * f = e->find(key);
				if (!f) { e->c.push_back(M { key, kind == 2 ? "made" : "", {} }); f = &e->c.back(); }
				e = f;
			}
			auto byInt = [] (const Val & a, int b) { return a.k == b; };
			Node * node;
			if (kind == 0) node = &t.findOrAdd(std::vector<Val>(ks.begin(), ks.end()));
			else if (kind == 1) node = &t.findOrAdd(std::list<int>(ks.begin(), ks.end()), byInt);
			else node = &t.findOrAdd(ks, byInt, [] (int key) { return Val(key, "made"); });
			CHECK(str(*node) == str(*e), "findOrAdd returned " << str(*node) << " expected " << str(*e));
		}
	}
	if (r) CHECK(str(*r) == str(*want), "returned node " << str(*r) << " expected " << str(*want));
	// Lookup of the children of the touched node.
	std::string dummy;
	for (int key = 0; key < 6; ++key) {
		const Node & root = t.root();
		M * e = m.find(key);
		const Node * a = root.find(Val(key)), * b = t.root().find(Val(key)), * c = root.find(key, [] (const Val & p, int q) { return p.k == q; });
		CHECK((a != nullptr) == (e != nullptr) && a == b && a == c, "node find " << key);
		if (a) CHECK(str(*a) == str(*e), "node find " << key << " is not the first match");
	}
}

}

PBT(history, 40000, 2000000) {
	int serial = 0;
	bool named = d.boolean();
	Trie t = named ? Trie(Val(3, "root")) : Trie();
	M m;
	if (named) { m.k = 3; m.body = "root"; }
	size_t ops = d.size(30);
	for (size_t i = 0; i < ops; ++i) {
		edit(d, t, m, serial);
		if (d.chance(1, 4)) {
			bool skipRoot = d.boolean();
			auto ks = keys(d, m, skipRoot);
			const Trie & ct = t;
			switch (d.upto(3)) {
				case 0: searches<std::vector<Val>>(t, m, ks, skipRoot); break;
				case 1: searches<std::list<Val>>(ct, m, ks, skipRoot); break;
				case 2: searches<std::vector<int>>(ct, m, ks, skipRoot); break;
				default: searches<std::deque<int>>(t, m, ks, skipRoot);
			}
		}
		if (d.chance(1, 12)) {
			switch (d.upto(3)) {
				case 0: { Trie c(t); t.root().value.body += "!"; compare(d, c, m); m.body += "!"; break; }
				case 1: { Trie c(std::move(t)); t = std::move(c); break; }
				case 2: { Trie c; c = t; compare(d, c, m); t = c; break; }
				default: { std::vector<Trie> v; v.push_back(t); v.push_back(std::move(t)); t = std::move(v[0]); compare(d, v[1], m); }
			}
		}
	}
	compare(d, t, m);
	d.nontrivial(ops >= 5 && !m.c.empty() && (m.c[0].c.size() || m.c.back().c.size()));
}

PBT(cascading, 25000, 1500000) {
	int serial = 0;
	Trie dst(Val(1, "dst")), src(Val(d.chance(5, 6) ? 1 : 2, "src"));
	M md { 1, "dst", {} }, ms { src.root().value.k, "src", {} };
	size_t n = d.size(20), k = d.size(20);
	for (size_t i = 0; i < n; ++i) edit(d, dst, md, serial);
	for (size_t i = 0; i < k; ++i) edit(d, src, ms, serial);
	bool match = md.k == ms.k;
	size_t op = d.upto(4);
	d.note("cascade " + std::to_string(op));
	bool mark = op == 2 || op == 3;
	std::function<std::string (const std::string &)> f = [mark] (const std::string & b) { return mark ? "<" + b + ">" : b; };
	M before = ms;
	switch (op) {
		case 0: dst.cascade(src); break;
		case 1: dst.cascade(std::move(src)); break;
		case 2: dst.cascade(src, [] (const Val & v) { return Val(v.k, "<" + v.body + ">"); }); break;
		case 3: dst.cascade(std::move(src), [] (Val & v) { return Val(v.k, "<" + v.body + ">"); }); break;
		default: { const Trie & c = src; dst.cascade(c); }
	}
	if (match) cascade(md, before, f);
	compare(d, dst, md);
	if (op == 0 || op == 2 || op == 4) compare(d, src, ms);   // copying leaves the source alone
	d.nontrivial(match && !md.c.empty() && !before.c.empty());
}

PBT(fluent, 5000, 50000) {
	Trie t;
	int a = (int) d.upto(3), b = (int) d.upto(3), c = (int) d.upto(3);
	t.add(Val(a, "1"), Node::child(Val(b, "11")), Node::child(Val(c, "12"), Node::child(Val(a, "121")), Node::child(Val(b, "122")))).add(Val(c, "2"), Node::child(Val(a, "21"))).add(Val(b, "3"));
	M m { 0, "", { M { a, "1", { M { b, "11", {} }, M { c, "12", { M { a, "121", {} }, M { b, "122", {} } } } } }, M { c, "2", { M { a, "21", {} } } }, M { b, "3", {} } } };
	compare(d, t, m);
	d.nontrivial();
}
