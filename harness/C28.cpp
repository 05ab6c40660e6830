// C28: difference of rects.
#include "rectgen.hpp"

namespace {

template<std::size_t D, typename T> using Rect = nytl::Rect<D, T>;

#define CHK(cond, fmt, ...) MC_CHECK(cond, "%s - %s (offset %g, unit %g): " fmt, rg::str(a).c_str(), rg::str(b).c_str(), double(m.offset), double(m.unit), ##__VA_ARGS__)

// Is the (unit) cell at c covered by r? Cells are open, so it is enough to look at the sides.
template<std::size_t D> bool covers(const rg::R<D>& r, const std::array<int, D>& c) {
	for(auto i = 0u; i < D; ++i) if(c[i] < r.p[i] || c[i] >= r.p[i] + r.s[i]) return false;
	return true;
}

template<std::size_t D, typename T> bool toGrid(const Rect<D, T>& r, const rg::Map<T>& m, int max, rg::R<D>& out) {
	for(auto i = 0u; i < D; ++i) {
		out.p[i] = out.s[i] = -1;
		for(auto k = 0; k <= max; ++k) {
			if(m.pos(k) == r.position[i]) out.p[i] = k;
			if(m.len(k) == r.size[i]) out.s[i] = k;
		}
		if(out.p[i] < 0 || out.s[i] < 0) return false;
	}
	return true;
}

template<std::size_t D, typename T> void pair(const rg::R<D>& a, const rg::R<D>& b, const rg::Map<T>& m, int max) {
	auto ra = rg::make<D, T>(a, m), rb = rg::make<D, T>(b, m);
	auto ca = ra, cb = rb;
	auto ret = nytl::difference(ra, rb);
	CHK(ra == ca && rb == cb, "operand was changed");
	bool over = true, same = true;
	for(auto i = 0u; i < D; ++i) {
		over &= (rg::open(a.p[i], a.s[i]) & rg::open(b.p[i], b.s[i])) != 0;
		same &= a.p[i] == b.p[i] && a.s[i] == b.s[i];
	}
	if(!over) CHK(ret.size() == 1 && ret[0] == ra, "disjoint, but %zu rects returned", ret.size());
	if(same) CHK(ret.empty(), "equal, but %zu rects returned", ret.size());
	std::vector<rg::R<D>> parts;
	for(auto& r : ret) {
		rg::R<D> g;
		CHK((toGrid<D, T>(r, m, max, g)), "part with coordinates that neither rect has");
		for(auto i = 0u; i < D; ++i) CHK(g.s[i] > 0, "empty part");
		parts.push_back(g);
	}
	// every cell: covered exactly once if it is in a but not in b, otherwise not at all
	std::array<int, D> c {};
	while(true) {
		auto n = 0u;
		for(auto& p : parts) n += covers(p, c);
		bool e = covers(a, c) && !covers(b, c);
		CHK(n == e, "cell (%d, %d, ...) is covered %u times instead of %d", c[0], D > 1 ? c[D - 1] : 0, n, int(e));
		auto i = 0u;
		while(i < D && ++c[i] == max) c[i++] = 0;
		if(i == D) break;
	}
	mc::outcome(mc::comb(parts.size(), D * 2 + over));
}

template<std::size_t D, typename T> void pairs(int P, int S) {
	auto m = rg::map<T>(mc::choose(rg::maps<T>), 2 * (P + S));
	auto n = rg::count<D>(P, S);
	auto ia = mc::choose(n);
	auto a = rg::nth<D>(ia, P, S, 1);
	for(auto ib = 0u; ib < n; ++ib) pair<D, T>(a, rg::nth<D>(ib, P, S, 1), m, P + S);
	mc::eval(n);
	mc::step(n);
	mc::state(mc::comb(ia, mc::hashStr(typeid(T).name()) + mc::hashBytes(&m.offset, sizeof(T)) + D));
}

} // namespace

MC_SCENARIO("pairs", "all pairs of rects on a grid (1D: positions 0..5, sizes 1..6; 2D: 0..3, 1..4; 3D: 0..2, 1..2, without sanitizers 0..2, 1..3), "
	"coordinates placed in 4 ways (also at both ends of the integer range; floating point 6, units from 2^-40 to 2^40), int, long, short, unsigned short, unsigned, unsigned char, float, double", 3) {
	switch(mc::choose(12)) {
		case 9: pairs<2, long>(3, 3); break;
		case 10: pairs<2, unsigned short>(3, 3); break;
		case 11: pairs<2, float>(3, 3); break;
		case 0: pairs<1, int>(6, 6); break;
		case 1: pairs<1, unsigned char>(6, 6); break;
		case 2: pairs<1, double>(6, 6); break;
		case 3: pairs<2, int>(mc::bound(3, 4, 4, 6), mc::bound(4, 4, 4, 6)); break;
		case 4: pairs<2, double>(3, 4); break;
		case 5: pairs<2, unsigned>(3, 3); break;
		case 6: pairs<3, int>(mc::bound(2, 3, 3, 3), mc::bound(2, 2, 3, 3)); break;
		case 7: pairs<3, float>(2, 2); break;
		case 8: pairs<2, short>(3, 3); break;
	}
}

MC_SCENARIO("fourd", "4D: all pairs of rects with positions 0..1 and sizes 1..2", 2) {
	pairs<4, int>(2, 2);
}

namespace {
// a is the rect from 1 to 4, b has one of several relations to it in each dimension
template<std::size_t D, typename T> void relations(unsigned kinds) {
	const int ps[] = {0, 2, 0, 3, 1, 1, 0, 0, 2}, ss[] = {2, 1, 5, 2, 3, 1, 1, 4, 2};
	auto m = rg::map<T>(mc::choose(rg::maps<T>), 16);
	rg::R<D> a, b;
	mc::u64 h = D;
	auto set = [&](unsigned i, unsigned k) { b.p[i] = ps[k]; b.s[i] = ss[k]; };
	for(auto i = 0u; i < D; ++i) { a.p[i] = 1; a.s[i] = 3; }
	for(auto i = 0u; i < 3; ++i) { auto k = mc::choose(kinds); set(i, k); h = mc::comb(h, k); }
	unsigned n = 1;
	for(auto i = 3u; i < D; ++i) n *= kinds;
	for(auto idx = 0u; idx < n; ++idx) {
		auto x = idx;
		for(auto i = 3u; i < D; ++i) { set(i, x % kinds); x /= kinds; }
		pair<D, T>(a, b, m, 5);
	}
	mc::eval(n);
	mc::step(n);
	mc::state(mc::comb(h, mc::hashStr(typeid(T).name()) + mc::hashBytes(&m.offset, sizeof(T))));
}
} // namespace

MC_SCENARIO("relations", "4 to 6 dimensions: a rect and all others that lie in one of 9 (6 dimensions: 4; with sanitizers 4 to 9) ways relative to it in each dimension", 3) {
	switch(mc::choose(4)) {
		case 0: relations<4, int>(9); break;
		case 1: relations<5, int>(mc::bound(4, 7, 5, 9)); break;
		case 2: relations<5, double>(4); break;
		case 3: relations<6, int>(mc::bound(2, 4, 3, 5)); break;
	}
}
