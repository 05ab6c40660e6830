// C29: mapping of signed to unsigned numbers and pairing.
#include <nytl/math.hpp>
#include "mc.hpp"
#include <climits>
#include <vector>

namespace {
using mc::u64;

// With sanitizers only the chunks around the interesting places are explored.
u64 chunk(unsigned bits, std::vector<u64> some) {
	auto n = u64(1) << bits;
	if(mc::bound(0, 1, 1, 1)) return mc::choose(n);
	return some[mc::choose(some.size())] % n;
}
} // namespace

MC_SCENARIO("map", "all 2^32 signed numbers (with sanitizers: the 2^19 around 0, +-2^30 and both ends): value of mapUnsigned, and unmapUnsigned restores it", 1) {
	constexpr unsigned bits = 14;
	auto c = chunk(bits, {0, 1, (1u << bits) - 1, 1u << (bits - 1), (1u << (bits - 1)) - 1, 1u << (bits - 2), (1u << (bits - 2)) - 1,
		3u << (bits - 2), (3u << (bits - 2)) - 1});
	const unsigned n = 1u << (32 - bits);
	for(auto i = 0u; i < n; ++i) {
		auto x = static_cast<int>(static_cast<unsigned>(c * n + i));
		auto e = static_cast<unsigned>(x >= 0 ? 2 * (long long) x : -2 * (long long) x - 1);
		if(nytl::mapUnsigned(x) != e) mc::fail("mapUnsigned(%d) is %u instead of %u", x, nytl::mapUnsigned(x), e);
		if(nytl::unmapUnsigned(e) != x) mc::fail("unmapUnsigned(%u) is %d instead of %d", e, nytl::unmapUnsigned(e), x);
	}
	mc::eval(2 * n);
	mc::step(n);
	mc::state(mc::comb(c, 1));
	mc::outcome(c);
}

MC_SCENARIO("pair", "all 2^32 pairs whose number fits into an unsigned int, in the order of their numbers (with sanitizers: around multiples of 8192 of the sum)", 1) {
	// diagonals x + y = sum, up to 92680
	constexpr unsigned per = 16;
	constexpr unsigned chunks = 92681 / per + 1;
	auto c = mc::bound(0, 1, 1, 1) ? mc::choose(chunks) : (mc::choose(12) * 512) % chunks;
	u64 evals = 0;
	for(unsigned sum = c * per; sum < (c + 1) * per && sum <= 92681; ++sum) {
		u64 number = u64(sum) * (sum + 1) / 2;
		for(auto y = 0u; y <= sum && number <= UINT_MAX; ++y, ++number) {
			if(nytl::pair(sum - y, y) != number) mc::fail("pair(%u, %u) is %u instead of %llu", sum - y, y, nytl::pair(sum - y, y), (unsigned long long) number);
			++evals;
		}
	}
	mc::eval(evals);
	mc::step(evals);
	mc::state(mc::comb(c, 2));
	mc::outcome(c);
}

MC_SCENARIO("signed pairs", "all signed pairs with |x|, |y| <= 150 (thorough: 2000) have different numbers", 0) {
	const int n = mc::bound(100, 300, 300, 2000);
	std::vector<bool> seen;
	for(auto x = -n; x <= n; ++x) for(auto y = -n; y <= n; ++y) {
		auto p = nytl::pair(nytl::mapUnsigned(x), nytl::mapUnsigned(y));
		if(p >= seen.size()) seen.resize(p * 2 + 1);
		if(seen[p]) mc::fail("pair(%d, %d) = %u is not unique", x, y, p);
		seen[p] = true;
		mc::eval(1);
	}
	mc::step((2 * n + 1) * (2 * n + 1));
	mc::state(n);
	mc::outcome(n);
}
