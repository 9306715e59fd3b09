// Linearizability checking of small concurrent histories (Wing & Gong search with memoisation).
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <mutex>
#include <thread>

namespace lin {

struct Clock { std::atomic<uint64_t> t { 0 }; uint64_t tick() { return t.fetch_add(1); } };

// Op needs: uint64_t begin, end. apply(state, op) returns false if the op's result is impossible in the state, else updates it.
// key(state) identifies the state.
template <typename State, typename Op, typename Apply, typename Key>
bool check(const std::vector<Op> & ops, const State & initial, Apply apply, Key key) {
	size_t n = ops.size();
	if (n > 60) throw pbt::Discard();
	std::unordered_set<std::string> seen;
	std::function<bool (uint64_t, const State &)> go = [&] (uint64_t done, const State & s) {
		if (done == ((uint64_t) 1 << n) - 1) return true;
		std::string k = std::to_string(done) + "|" + key(s);
		if (!seen.insert(k).second) return false;
		uint64_t firstEnd = UINT64_MAX;
		for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) firstEnd = std::min(firstEnd, ops[i].end);
		for (size_t i = 0; i < n; ++i) {
			if (done >> i & 1) continue;
			if (ops[i].begin > firstEnd) continue;
			State t = s;
			if (apply(t, ops[i]) && go(done | (uint64_t) 1 << i, t)) return true;
		}
		return false;
	};
	return go(0, initial);
}

} // namespace lin
