// C21: products, lengths, distances and angles of vectors.
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include <complex> // before the headers under test: they use qualified names of functions
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include "vecgen.hpp"

namespace {

template<std::size_t D, typename T> using Vec = nytl::Vec<D, T>;
using ld = long double;

template<typename... T> double tol() { return (std::is_same_v<T, float> || ...) ? 1e-3 : (std::is_same_v<T, long double> && ...) ? 2e-9 : 3e-8; }

template<std::size_t D, typename T> ld refDot(const Vec<D, T>& a, const Vec<D, T>& b) {
	ld r = 0;
	for(auto i = 0u; i < D; ++i) r += ld(a[i]) * ld(b[i]);
	return r;
}

template<std::size_t D, typename T1, typename T2> void product(const Vec<D, T1>& a, const Vec<D, T2>& b) {
	mc::eval(4);
	ld d = 0, dist = 0;
	for(auto i = 0u; i < D; ++i) {
		d += ld(a[i]) * ld(b[i]);
		dist += (ld(a[i]) - ld(b[i])) * (ld(a[i]) - ld(b[i]));
	}
	auto r = nytl::dot(a, b);
	MC_CHECK((std::is_same_v<decltype(r), decltype(a[0] * b[0])>), "type of dot");
	MC_CHECK(ld(r) == d, "dot is %.17Lg instead of %.17Lg", ld(r), d);
	MC_CHECK(ld(nytl::dot(b, a)) == d, "dot is %.17Lg instead of %.17Lg", ld(nytl::dot(b, a)), d);
	if constexpr(std::is_signed_v<T1> && std::is_signed_v<T2>) {
		using R = decltype(nytl::distance(a, b));
		MC_CHECK((gen::near<R>(nytl::distance(a, b), std::sqrt(dist))), "distance is %.17g instead of %.17Lg", double(nytl::distance(a, b)), std::sqrt(dist));
		MC_CHECK((gen::near<R>(nytl::distance(b, a), std::sqrt(dist))), "distance is %.17g instead of %.17Lg", double(nytl::distance(b, a)), std::sqrt(dist));
	}
	if constexpr(D == 3 && std::is_signed_v<T1> && std::is_signed_v<T2>) {
		auto c = nytl::cross(a, b);
		for(auto i = 0u; i < 3; ++i) {
			auto j = (i + 1) % 3, k = (i + 2) % 3;
			auto e = a[j] * b[k] - a[k] * b[j];
			MC_CHECK(c[i] == e, "cross: component %u is %.17g instead of %.17g", i, double(c[i]), double(e));
		}
		auto o = nytl::cross(b, a);
		MC_CHECK(c == -o, "cross is not anti-commutative");
	}
	if constexpr(D == 2 && std::is_signed_v<T1> && std::is_signed_v<T2>) {
		auto e = a[0] * b[1] - a[1] * b[0];
		MC_CHECK(nytl::cross(a, b) == e, "cross is %.17g instead of %.17g", double(nytl::cross(a, b)), double(e));
		MC_CHECK(nytl::cross(b, a) == -e, "cross is %.17g instead of %.17g", double(nytl::cross(b, a)), double(-e));
	}
	if constexpr(std::is_same_v<T1, T2> && std::is_signed_v<T1>) {
		auto m = nytl::mirror(a, b);
		for(auto i = 0u; i < D; ++i) MC_CHECK(m[i] == T1(a[i] + (a[i] - b[i])), "mirror");
	}
}

template<std::size_t D, typename T1, typename T2> void angleCheck(const Vec<D, T1>& a, const Vec<D, T2>& b) {
	ld aa = 0, bb = 0, ab = 0;
	for(auto i = 0u; i < D; ++i) {
		aa += ld(a[i]) * ld(a[i]);
		bb += ld(b[i]) * ld(b[i]);
		ab += ld(a[i]) * ld(b[i]);
	}
	if(aa == 0 || bb == 0) return;
	mc::eval(2);
	ld c = ab / std::sqrt(aa * bb);
	ld ref = std::acos(std::min<ld>(1, std::max<ld>(-1, c)));
	using R = decltype(nytl::angle(a, b));
	auto r = nytl::angle(a, b);
	MC_CHECK(r >= 0 && double(r) <= 3.1415930 && std::abs(ld(r) - ref) <= (tol<T1, T2>() * (D > 4 ? 5 : 1)), "angle is %.9g instead of %.9Lg", double(r), ref);
	auto s = nytl::angle(b, a);
	MC_CHECK(s >= 0 && std::abs(ld(s) - ref) <= (tol<T1, T2>() * (D > 4 ? 5 : 1)), "angle is %.9g instead of %.9Lg", double(s), ref);
	if constexpr(std::is_same_v<T1, T2> && std::is_floating_point_v<T1>) {
		auto n = nytl::angleNormed(nytl::normalized(a), nytl::normalized(b));
		MC_CHECK(n >= 0 && std::abs(ld(n) - ref) <= (tol<T1, T2>() * (D > 4 ? 5 : 1)), "angle of normalized is %.9g instead of %.9Lg", double(n), ref);
	}
}

template<std::size_t D, typename T> void single(const Vec<D, T>& a) {
	mc::eval(5);
	const auto a0 = a;
	auto l2 = refDot<D, T>(a, a);
	ld l = std::sqrt(l2);
	using R = decltype(nytl::length(a));
	MC_CHECK((std::is_same_v<R, decltype(std::sqrt(a[0]))>), "type of length");
	MC_CHECK(gen::near<R>(nytl::length(a), l), "length is %.17g instead of %.17Lg", double(nytl::length(a)), l);
	if constexpr(std::is_floating_point_v<T>) {
		if(l2 != 0) {
			auto n = nytl::normalized(a);
			auto m = a;
			nytl::normalize(m);
			for(auto i = 0u; i < D; ++i) {
				MC_CHECK(gen::near<T>(n[i], ld(a[i]) / l), "normalized: component %u is %.17g instead of %.17Lg", i, double(n[i]), ld(a[i]) / l);
				MC_CHECK(gen::near<T>(m[i], ld(a[i]) / l), "normalize: component %u is %.17g instead of %.17Lg", i, double(m[i]), ld(a[i]) / l);
			}
		}
	}
	MC_CHECK(nytl::distance(a, a) == 0, "distance to itself");
	MC_CHECK(a == a0, "operand changed");
	if constexpr(D == 2 && std::is_signed_v<T> && sizeof(T) >= 4) {
		nytl::Vec2<T> v {a[0], a[1]};
		// left normal: to the left in a right-handed system (y up)
		MC_CHECK((nytl::rho::lnormal(v) == nytl::Vec2<T> {T(-a[1]), a[0]}), "rho::lnormal");
		MC_CHECK((nytl::rho::rnormal(v) == nytl::Vec2<T> {a[1], T(-a[0])}), "rho::rnormal");
		MC_CHECK((nytl::lho::lnormal(v) == nytl::Vec2<T> {a[1], T(-a[0])}), "lho::lnormal");
		MC_CHECK((nytl::lho::rnormal(v) == nytl::Vec2<T> {T(-a[1]), a[0]}), "lho::rnormal");
	}
}

template<std::size_t D, typename T1, typename T2> void pairs() {
	auto k = gen::perComponent(D, mc::bound(125, 1100, 512, 4096));
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	auto chunks = std::min(n, 16u);
	auto chunk = mc::choose(chunks);
	for(auto x = chunk; x < n; x += chunks) {
		Vec<D, T1> a {};
		gen::fill(a, D, x, k, rot, gen::exact<T1>);
		single<D, T1>(a);
		for(auto y = 0u; y < n; ++y) {
			Vec<D, T2> b {};
			gen::fill(b, D, y, k, rot + (y % 3), gen::exact<T2>);
			product<D, T1, T2>(a, b);
			angleCheck<D, T1, T2>(a, b);
		}
		// parallel and opposite vectors
		if constexpr(std::is_same_v<T1, T2> && std::is_signed_v<T1>) {
			for(auto f = -3; f < 4; ++f) angleCheck<D, T1, T1>(a, static_cast<Vec<D, T1>>(T1(f) * a));
		}
	}
	mc::step(n / chunks * (n + 1));
	auto id = mc::comb(mc::comb(D * 64 + rot, chunk), mc::comb(mc::hashStr(typeid(T1).name()), mc::hashStr(typeid(T2).name())));
	mc::state(id);
	mc::outcome(id);
}

template<typename T1, typename T2> void dims() {
	switch(mc::choose(5)) {
		case 0: pairs<1, T1, T2>(); break;
		case 1: pairs<2, T1, T2>(); break;
		case 2: pairs<3, T1, T2>(); break;
		case 3: pairs<4, T1, T2>(); break;
		case 4: pairs<6, T1, T2>(); break;
	}
}

} // namespace

MC_SCENARIO("same_type", "dimensions 1..4 and 6 of int, unsigned, int64, float, double, long double, short: all pairs of vectors over an alphabet "
	"of 8 (higher dimensions: 8 rotated alphabets) exactly representable values", 3) {
	switch(mc::choose(7)) {
		case 0: dims<int, int>(); break;
		case 1: dims<double, double>(); break;
		case 2: dims<float, float>(); break;
		case 3: dims<std::int64_t, std::int64_t>(); break;
		case 4: dims<unsigned, unsigned>(); break;
		case 5: dims<long double, long double>(); break;
		case 6: dims<short, short>(); break;
	}
}

MC_SCENARIO("mixed_types", "as above for mixed component types", 3) {
	switch(mc::choose(5)) {
		case 0: dims<int, double>(); break;
		case 1: dims<float, double>(); break;
		case 2: dims<std::int64_t, int>(); break;
		case 3: dims<short, int>(); break;
		case 4: dims<double, long double>(); break;
	}
}

// directions all around, lengths of different magnitudes
MC_SCENARIO("directions", "float, double and long double: all pairs of directions of a grid of the sphere and lengths 2^-20..2^20: angle, normalized", 2) {
	auto run = [](auto zero) {
		using T = decltype(zero);
		auto n = mc::bound(8, 16, 16, 32);
		auto i = mc::choose(n), j = mc::choose(n + 1);
		auto dir = [&](int x, int y, double l) {
			auto p = 2 * M_PI * x / n, t = M_PI * y / n;
			return Vec<3, T> {T(l * std::sin(t) * std::cos(p)), T(l * std::sin(t) * std::sin(p)), T(l * std::cos(t))};
		};
		for(auto la : {1.0, 1048576.0, 1.0 / 1048576, 3.7})
			for(auto x = 0; x < n; ++x)
				for(auto y = 0; y <= n; ++y)
					for(auto lb : {1.0, 1048576.0, 1.0 / 1048576}) {
						auto a = dir(i, j, la), b = dir(x, y, lb);
						angleCheck<3, T, T>(a, b);
						auto m = nytl::normalized(b);
						MC_CHECK(std::abs(nytl::length(m) - 1) < (sizeof(T) == 4 ? 1e-5L : sizeof(T) == 8 ? 1e-13L : 1e-17L), "length of normalized is %.17g", double(nytl::length(m)));
					}
		mc::step(n * n * 12);
		mc::state(i * 1000 + j + sizeof(T) * 1000000);
		mc::outcome(i * 1000 + j + sizeof(T) * 1000000);
	};
	switch(mc::choose(3)) { case 0: run(1.f); break; case 1: run(1.0); break; case 2: run(1.0L); break; }
}

MC_SCENARIO("small angles", "float, double and long double: vectors at all angles of k * 10^-e and 180 degrees minus that to 26 directions, in 8 planes and 9 combinations of lengths; "
	"length, distance and normalization of vectors in scales from 2^-60 (float) or 2^-500 to 2^60 or 2^500", 2) {
	auto run = [](auto zero) {
		using T = decltype(zero);
		auto d = int(mc::choose(27));
		ld x = d % 3 - 1, y = d / 3 % 3 - 1, z = d / 9 - 1, l = std::sqrt(x * x + y * y + z * z);
		if(l == 0) return;
		ld a[3] {x / l, y / l, z / l}, u[3] {}, v[3];
		auto ax = std::abs(a[0]) < 0.6L ? 0 : 1;
		for(auto i = 0; i < 3; ++i) u[i] = (i == ax) - a[ax] * a[i];
		auto ul = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
		for(auto& c : u) c /= ul;
		for(auto i = 0; i < 3; ++i) v[i] = a[(i + 1) % 3] * u[(i + 2) % 3] - a[(i + 2) % 3] * u[(i + 1) % 3];
		for(auto e = 0; e < 12; ++e) for(auto f : {1.L, 1.7L, 3.L, 6.L}) for(auto s : {1, -1}) for(auto k = 0; k < 8; ++k) {
			ld t = std::pow(10.L, -e) * f / 2, p = k * 0.785L;
			for(auto la : {1.0, 4096.0, 1.0 / 1024}) for(auto lb : {1.0, 3000.0, 0.001}) {
				Vec<3, T> va {}, vb {};
				for(auto i = 0; i < 3; ++i) { va[i] = T(la * a[i]); vb[i] = T(lb * (s * std::cos(t) * a[i] + std::sin(t) * (std::cos(p) * u[i] + std::sin(p) * v[i]))); }
				angleCheck<3, T, T>(va, vb);
			}
		}
		const auto E = sizeof(T) == 4 ? 60 : 500;
		for(auto e = -E; e <= E; e += E / 20) {
			auto s = std::ldexp(T(1), e);
			Vec<3, T> va {}, vb {};
			ld n = 0;
			for(auto i = 0; i < 3; ++i) { va[i] = T(a[i]) * s; vb[i] = va[i] + T(2) * T(u[i]) * s; n += ld(T(a[i])) * T(a[i]); }
			n = std::sqrt(n);
			ld dist = 0;
			for(auto i = 0; i < 3; ++i) { ld df = ld(va[i] / s) - ld(vb[i] / s); dist += df * df; }
			const ld tl = sizeof(T) == 4 ? 2e-6L : sizeof(T) == 8 ? 4e-15L : 4e-18L;
			MC_CHECK(std::abs(ld(nytl::length(va) / s) - n) < tl, "length of a vector of scale 2^%d: %.17Lg", e, ld(nytl::length(va)));
			MC_CHECK(std::abs(ld(nytl::distance(va, vb) / s) - std::sqrt(dist)) < tl, "distance of vectors of scale 2^%d: %.17Lg", e, ld(nytl::distance(va, vb)));
			auto m = nytl::normalized(va);
			auto w = va;
			nytl::normalize(w);
			for(auto i = 0; i < 3; ++i) MC_CHECK(std::abs(ld(m[i]) - a[i]) < tl && m[i] == w[i], "normalized vector of scale 2^%d: %.17Lg instead of %.17Lg", e, ld(m[i]), a[i]);
			auto c = nytl::cross(va, vb), dc = nytl::cross(va, va);
			for(auto i = 0; i < 3; ++i) MC_CHECK(std::abs(ld(c[i] / s / s) - 2 * v[i]) < 4 * tl && dc[i] == 0, "cross of vectors of scale 2^%d: %.17Lg", e, ld(c[i]));
			auto dt = nytl::dot(va, vb);
			MC_CHECK(std::abs(ld(dt / s / s) - 1) < 4 * tl, "dot of vectors of scale 2^%d: %.17Lg", e, ld(dt));
		}
		mc::eval(12 * 4 * 2 * 8 * 9);
		mc::step(12 * 4 * 2 * 8 * 9);
		mc::state(5000000 + d * 100 + sizeof(T));
		mc::outcome(5000000 + d * 100 + sizeof(T));
	};
	switch(mc::choose(3)) { case 0: run(1.f); break; case 1: run(1.0); break; case 2: run(1.0L); break; }
}

namespace {
template<std::size_t D, typename T1, typename T2> void large() {
	auto n = gen::patterns(D);
	auto x = mc::choose(n);
	auto a = gen::pattern<Vec<D, T1>>(D, x, gen::exact<T1>);
	single<D, T1>(a);
	for(auto y = 0u; y < n; ++y) {
		auto b = gen::pattern<Vec<D, T2>>(D, y, gen::exact<T2>);
		product<D, T1, T2>(a, b);
		angleCheck<D, T1, T2>(a, b);
	}
	mc::step(n + 1);
	auto id = mc::comb(mc::comb(D * 64, x), mc::comb(mc::hashStr(typeid(T1).name()), mc::hashStr(typeid(T2).name())));
	mc::state(id);
	mc::outcome(id);
}
template<typename T1, typename T2> void largeDims() {
	switch(mc::choose(6)) {
		case 0: large<5, T1, T2>(); break;
		case 1: large<7, T1, T2>(); break;
		case 2: large<8, T1, T2>(); break;
		case 3: large<9, T1, T2>(); break;
		case 4: large<16, T1, T2>(); break;
		case 5: large<33, T1, T2>(); break;
	}
}
}

MC_SCENARIO("large", "dimensions 5, 7, 8, 9, 16 and 33 of int, double, float and int with double: all pairs of patterns and of vectors that differ in one component", 2) {
	switch(mc::choose(4)) {
		case 0: largeDims<int, int>(); break;
		case 1: largeDims<double, double>(); break;
		case 2: largeDims<float, float>(); break;
		case 3: largeDims<int, double>(); break;
	}
}

#include "cplxgen.hpp"
MC_SCENARIO("complex", "pairs of vectors (dimensions 1, 2, 3, 4, 6) over 8 complex numbers (float and double): dot product (not conjugating), cross product, sum, product, mirror", 2) {
	cgen::dims([](auto dim, auto t) {
		constexpr std::size_t D = dim;
		using T = decltype(t);
		cgen::pairs<D, T>(mc::bound(64, 100, 100, 260), [](const nytl::Vec<D, T>& a, const nytl::Vec<D, T>& b) {
			const auto a0 = a, b0 = b;
			T dot {}, sum {}, prod {1};
			for(auto i = 0u; i < D; ++i) { dot += a0[i] * b0[i]; sum += a0[i]; prod *= a0[i]; }
			MC_CHECK(cgen::near(T(nytl::dot(a, b)), dot), "dot of complex vectors is (%g, %g) instead of (%g, %g)", double(nytl::dot(a, b).real()), double(nytl::dot(a, b).imag()), double(dot.real()), double(dot.imag()));
			MC_CHECK(cgen::near(T(nytl::sum(a)), sum), "sum of complex components");
			MC_CHECK(cgen::near(T(nytl::multiply(a)), prod), "product of complex components");
			CALL(nytl::mirror(a, b), a0[i] + a0[i] - b0[i]);
			if constexpr(D == 2) MC_CHECK(cgen::near(T(nytl::cross(a, b)), a0[0] * b0[1] - a0[1] * b0[0]), "cross product of complex vectors");
			if constexpr(D == 3) CALL(nytl::cross(a, b), a0[(i + 1) % 3] * b0[(i + 2) % 3] - a0[(i + 2) % 3] * b0[(i + 1) % 3]);
			CALL(a, a0[i]);
			CALL(b, b0[i]);
		});
	});
}

// Points that are close to each other, but far away from the origin. All
// differences and lengths are integers times a power of two: exact.
namespace {
template<typename T> void farPoints() {
	constexpr auto digits = std::numeric_limits<T>::digits;
	// offsets with integer lengths
	const int offs[][4] = {{3, 4, 0, 5}, {0, -3, 4, 5}, {1, 2, 2, 3}, {-2, 3, 6, 7}, {4, -4, 7, 9}, {0, 0, 1, 1}, {0, 0, 0, 0}, {-6, 6, -7, 11}};
	auto k = mc::choose(digits - 4), where = mc::choose(8), o = mc::choose(8);
	auto base = [&](int i) { return T((where >> i & 1 ? -1 : 1) * std::ldexp(1.0L, k)); };
	Vec<3, T> a {base(0), base(1), base(2)}, b = a;
	Vec<2, T> a2 {base(0), base(1)}, b2 = a2;
	for(auto i = 0; i < 3; ++i) b[i] = T(b[i] + offs[o][i]);
	for(auto i = 0; i < 2; ++i) b2[i] = T(b2[i] + 2 * offs[0][i]);
	auto check = [&](auto d, long double e, const char* what) {
		MC_CHECK(std::abs((long double) d - e) <= 1e-6L * e, "%s of points around 2^%d, offset %d: %.17Lg instead of %.17Lg", what, int(k), int(o), (long double) d, e);
		mc::eval();
	};
	check(nytl::distance(a, b), offs[o][3], "distance");
	check(nytl::distance(b, a), offs[o][3], "distance");
	check(nytl::distance(a2, b2), 10, "distance (2 dimensions)");
	check(nytl::length(a - b), offs[o][3], "length of the difference");
	if constexpr(std::is_floating_point_v<T>) {
		// scaled below 1
		for(auto e : {-20, -60, 30}) {
			if(sizeof(T) == 4 && (2 * (int(k) + std::abs(e)) > 100)) continue;
			Vec<3, T> c = a, d = b;
			for(auto i = 0; i < 3; ++i) { c[i] = std::ldexp(c[i], e); d[i] = std::ldexp(d[i], e); }
			check(nytl::distance(c, d), std::ldexp((long double) offs[o][3], e), "distance (scaled)");
		}
	}
	auto m = nytl::mirror(a, b);
	for(auto i = 0; i < 3; ++i) MC_CHECK(m[i] == T(a[i] - T(offs[o][i])), "mirror around 2^%d: component %d is %.17Lg", int(k), i, (long double) m[i]);
	auto id = mc::comb(mc::comb(k * 64 + where * 8 + o, sizeof(T)), std::is_integral_v<T>);
	mc::state(id);
	mc::outcome(id);
}
}

MC_SCENARIO("far", "float, double, long double, int, int64: points 2^0..2^(digits-5) away from the origin that are 0..11 apart: distance, length of the difference, mirror", 2) {
	switch(mc::choose(5)) {
		case 0: farPoints<float>(); break;
		case 1: farPoints<double>(); break;
		case 2: farPoints<long double>(); break;
		case 3: farPoints<int>(); break;
		default: farPoints<std::int64_t>(); break;
	}
}
