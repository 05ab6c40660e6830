// C27: containment and intersection of rects.
#include "rectgen.hpp"
#include <cmath>

namespace {

template<std::size_t D, typename T> using Rect = nytl::Rect<D, T>;
template<std::size_t D, typename T> using Vec = nytl::Vec<D, T>;
using rg::Mask;

#define CHK(cond, fmt, ...) MC_CHECK(cond, "%s(offset %g, unit %g): " fmt, rg::str(a).c_str(), double(m.offset), double(m.unit), ##__VA_ARGS__)

template<std::size_t D, typename T, typename T2> void pair(const rg::R<D>& a, const rg::R<D>& b, const rg::Map<T>& m, const rg::Map<T2>& m2) {
	auto ra = rg::make<D, T>(a, m);
	auto rb = rg::make<D, T2>(b, m2);
	bool touch = true, over = true, degenerate = false, equal = true;
	rg::R<D> e;
	for(auto i = 0u; i < D; ++i) {
		auto both = rg::closed(a.p[i], a.s[i]) & rg::closed(b.p[i], b.s[i]);
		touch &= both != 0;
		over &= (rg::open(a.p[i], a.s[i]) & rg::open(b.p[i], b.s[i])) != 0;
		degenerate |= a.s[i] == 0 || b.s[i] == 0;
		equal &= a.p[i] == b.p[i] && a.s[i] == b.s[i];
		if(both) { e.p[i] = __builtin_ctzll(both) / 2; e.s[i] = (63 - __builtin_clzll(both)) / 2 - e.p[i]; }
	}
	auto o = rg::str(b);
	CHK(nytl::intersects(ra, rb) == touch, "intersects %s: %d", o.c_str(), int(!touch));
	CHK(nytl::intersects(rb, ra) == touch, "intersects (swapped) %s: %d", o.c_str(), int(!touch));
	if(!degenerate) {
		CHK(nytl::intersectsReal(ra, rb) == over, "intersectsReal %s: %d", o.c_str(), int(!over));
		CHK(nytl::intersectsReal(rb, ra) == over, "intersectsReal (swapped) %s: %d", o.c_str(), int(!over));
	}
	if constexpr(std::is_floating_point_v<T>) for(auto i = 0u; i < D; ++i) for(auto k = 0; k < 4; ++k) {
		// the smallest possible difference
		auto o = ra;
		auto& x = k % 2 ? o.position[i] : o.size[i];
		x = std::nextafter(x, k / 2 ? T(1e30) : T(-1e30));
		CHK(!(ra == o) && ra != o && !(o == ra) && o != ra, "== to a rect that differs in the last digit");
	}
	CHK((ra == rb) == equal && (rb == ra) == equal, "== %s: %d", o.c_str(), int(!equal));
	CHK((ra != rb) == !equal && (rb != ra) == !equal, "!= %s: %d", o.c_str(), int(equal));
	if constexpr(std::is_same_v<T, T2>) {
		auto is = nytl::intersection(ra, rb), si = nytl::intersection(rb, ra);
		static_assert(std::is_same_v<decltype(is), Rect<D, T>>);
		auto ex = touch ? rg::make<D, T>(e, m) : Rect<D, T> {};
		for(auto i = 0u; i < D; ++i) {
			if(touch) CHK(is.position[i] == ex.position[i] && is.size[i] == ex.size[i], "intersection with %s: [%g %g] instead of [%g %g] in dimension %u",
				o.c_str(), double(is.position[i]), double(is.size[i]), double(ex.position[i]), double(ex.size[i]), i);
			CHK(is.position[i] == si.position[i] && is.size[i] == si.size[i], "intersection with %s: not symmetric", o.c_str());
		}
		if(!touch) CHK(nytl::size(is) == T {}, "intersection with %s (disjoint) has size %g", o.c_str(), double(nytl::size(is)));
	}
	auto ea = rg::make<D, T>(a, m);
	bool same = true;
	for(auto i = 0u; i < D; ++i) same &= ea.position[i] == ra.position[i] && ea.size[i] == ra.size[i];
	CHK(same, "operand was changed");
}

template<std::size_t D, typename T> void pairs(int P, int S) {
	auto n = rg::count<D>(P, S);
	auto m = rg::map<T>(mc::choose(rg::maps<T>), 2 * (P + S));
	auto ia = mc::choose(n);
	auto a = rg::nth<D>(ia, P, S, 0);
	for(auto ib = 0u; ib < n; ++ib) pair<D, T, T>(a, rg::nth<D>(ib, P, S, 0), m, m);
	mc::eval(n * 8);
	mc::step(n);
	mc::state(mc::comb(ia, mc::hashStr(typeid(T).name()) + mc::hashBytes(&m.offset, sizeof(T)) + D));
	mc::outcome(mc::comb(ia, D));
}

// points: every coordinate on a half grid around the rect
template<std::size_t D, typename T, typename TP> void points(int P, int S, unsigned maps) {
	auto m = rg::map<T>(mc::choose(maps ? maps : rg::maps<T>), 2 * (P + S));
	auto n = rg::count<D>(P, S);
	auto ia = mc::choose(n);
	auto a = rg::nth<D>(ia, P, S, 0);
	auto r = rg::make<D, T>(a, m);
	const bool half = std::is_floating_point_v<TP>;
	const unsigned k = P + S;
	auto steps = half ? 2 * k - 1 : k, total = 1u;
	for(auto i = 0u; i < D; ++i) total *= steps;
	unsigned inside = 0, real = 0;
	for(auto idx = 0u; idx < total; ++idx) {
		auto x = idx;
		Vec<D, TP> pt {};
		bool in = true, inReal = true;
		for(auto i = 0u; i < D; ++i) {
			unsigned bit = x % steps;
			x /= steps;
			if(!half) bit *= 2;
			pt[i] = TP(m.pos(bit / 2));
			if(bit % 2) pt[i] += TP(m.unit) / 2;
			in &= (rg::closed(a.p[i], a.s[i]) >> bit) & 1;
			inReal &= (rg::open(a.p[i], a.s[i]) >> bit) & 1;
		}
		auto str = [&] { std::string s; for(auto i = 0u; i < D; ++i) s += std::to_string(double(pt[i])) + " "; return s; };
		CHK(nytl::contains(r, pt) == in, "contains (%s): %d", str().c_str(), int(!in));
		CHK(nytl::containsReal(r, pt) == inReal, "containsReal (%s): %d", str().c_str(), int(!inReal));
		inside += in;
		real += inReal;
	}
	// size and center
	double size = 1;
	for(auto i = 0u; i < D; ++i) size *= double(r.size[i]);
	if(std::is_floating_point_v<T> || size <= 100) CHK(double(nytl::size(r)) == size, "size is %g", double(nytl::size(r)));
	auto c = nytl::center(r);
	static_assert(std::is_floating_point_v<std::decay_t<decltype(c[0])>>);
	for(auto i = 0u; i < D; ++i) {
		double e = double(r.position[i]) + 0.5 * double(r.size[i]);
		CHK(std::abs(double(c[i]) - e) <= 1e-6 * std::abs(e), "center: %g instead of %g in dimension %u", double(c[i]), e, i);
	}
	mc::eval(total * 2 + 2);
	mc::step(total);
	mc::state(mc::comb(ia, mc::hashStr(typeid(T).name()) + mc::hashStr(typeid(TP).name()) * 3 + mc::hashBytes(&m.offset, sizeof(T)) + D));
	mc::outcome(mc::comb(inside, real));
}

} // namespace

MC_SCENARIO("pairs", "all pairs of rects on a grid (1D: positions 0..5, sizes 0..6; 2D: 0..2, 0..3, without sanitizers 0..4, 0..5; 3D: 0..1, 0..2, without sanitizers 0..2, 0..2), "
	"coordinates placed in 4 ways (also at both ends of the integer range; floating point 6, units from 2^-40 to 2^40), int, long, short, unsigned, unsigned short, unsigned char, float, double", 3) {
	switch(mc::choose(12)) {
		case 0: pairs<1, int>(6, 7); break;
		case 1: pairs<1, unsigned>(6, 7); break;
		case 2: pairs<1, double>(6, 7); break;
		case 3: pairs<2, int>(mc::bound(3, 5, 4, 7), mc::bound(4, 6, 5, 7)); break;
		case 4: pairs<2, double>(3, 4); break;
		case 5: pairs<2, unsigned>(3, 4); break;
		case 6: pairs<3, int>(mc::bound(2, 3, 2, 3), mc::bound(3, 3, 3, 4)); break;
		case 7: pairs<3, float>(2, 3); break;
		case 8: pairs<2, long>(3, 4); break;
		case 9: pairs<1, unsigned char>(6, 7); break;
		case 10: pairs<2, short>(3, 4); break;
		case 11: pairs<2, unsigned short>(3, 4); break;
	}
}

MC_SCENARIO("points", "all rects of a grid and all points of the half grid around (integers: of the grid), same and mixed types", 3) {
	switch(mc::choose(14)) {
		case 9: points<1, unsigned, unsigned>(6, 7, 0); break;
		case 10: points<2, unsigned, unsigned>(3, 4, 0); break;
		case 11: points<1, unsigned long, unsigned long>(6, 7, 0); break;
		case 12: points<2, short, short>(3, 4, 0); break;
		case 13: points<2, long, long>(3, 4, 0); break;
		case 0: points<1, int, int>(6, 7, 4); break;
		case 1: points<1, double, double>(6, 7, 0); break;
		case 2: points<2, int, int>(4, 4, 4); break;
		case 3: points<2, double, double>(3, mc::bound(3, 4, 4, 5), 0); break;
		case 4: points<2, int, double>(3, mc::bound(3, 4, 4, 5), 2); break;
		case 5: points<3, int, int>(2, 3, 4); break;
		case 6: points<3, float, float>(2, mc::bound(2, 3, 3, 4), 0); break;
		case 7: points<2, unsigned char, unsigned char>(3, 4, 4); break;
		case 8: points<3, int, float>(2, mc::bound(2, 3, 3, 4), 2); break;
	}
}

MC_SCENARIO("mixed", "all pairs of rects of different element types on a grid", 3) {
	auto run = [](auto t, auto t2, auto d, int P, int S) {
		using T = decltype(t);
		using T2 = decltype(t2);
		constexpr std::size_t D = decltype(d)::value;
		auto n = rg::count<D>(P, S);
		auto ia = mc::choose(n);
		auto a = rg::nth<D>(ia, P, S, 0);
		for(auto ib = 0u; ib < n; ++ib) pair<D, T, T2>(a, rg::nth<D>(ib, P, S, 0), rg::Map<T> {T(0), T(1)}, rg::Map<T2> {T2(0), T2(1)});
		mc::eval(n * 6);
		mc::step(n);
		mc::state(mc::comb(ia, mc::hashStr(typeid(T).name()) + D));
		mc::outcome(mc::comb(ia, D));
	};
	switch(mc::choose(4)) {
		case 0: run(int(), double(), std::integral_constant<std::size_t, 1>(), 6, 7); break;
		case 1: run(int(), float(), std::integral_constant<std::size_t, 2>(), 3, 4); break;
		case 2: run(float(), double(), std::integral_constant<std::size_t, 2>(), 3, 4); break;
		case 3: run(double(), int(), std::integral_constant<std::size_t, 3>(), 2, 3); break;
	}
}

MC_SCENARIO("dimensions", "all pairs of rects with positions 0..1 and sizes 0..1 in 4 and 5 dimensions (4: also sizes 0..2), points around them", 2) {
	switch(mc::choose(6)) {
		case 0: pairs<4, int>(2, mc::bound(2, 3, 3, 4)); break;
		case 1: pairs<4, double>(2, 2); break;
		case 2: pairs<5, int>(mc::bound(1, 2, 2, 2), 2); break;
		case 3: pairs<5, float>(1, 2); break;
		case 4: points<4, int, int>(2, mc::bound(2, 3, 3, 3), 4); break;
		case 5: points<5, double, double>(1, 2, 0); break;
	}
}
