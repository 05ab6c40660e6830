// C31: approximate comparison.
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include "mc.hpp"
#include <cmath>
#include <complex>

namespace {

using nytl::approx;

using F = long double;

// 1: equal, 0: different, -1: too close to the limit to tell
template<typename T> int expected(T a, T b, double eps) {
	F max = std::max(std::abs(F(a)), std::abs(F(b)));
	F limit = eps * (1 + max), diff = std::abs(F(a) - F(b));
	F tol = std::is_same_v<T, float> ? F(2e-7) * (1 + max) + limit * F(1e-5)
		: std::is_same_v<T, double> ? F(1e-15) * (1 + max) + limit * F(1e-9)
		: F(5e-19) * (1 + max) + limit * F(1e-12);
	if(std::abs(diff - limit) <= tol) return -1;
	return diff < limit;
}

template<typename A, typename B> void check(bool e, const A& a, const B& b, const char* what, double x, double y, double eps) {
	MC_CHECK((a == b) == e, "%s: %.17g == approx(%.17g, %g) is %d", what, x, y, eps, int(!e));
	MC_CHECK((b == a) == e, "%s: approx(%.17g, %g) == %.17g is %d", what, y, eps, x, int(!e));
	MC_CHECK((a != b) == !e, "%s: %.17g != approx(%.17g, %g) is %d", what, x, y, eps, int(e));
	MC_CHECK((b != a) == !e, "%s: approx(%.17g, %g) != %.17g is %d", what, y, eps, x, int(e));
	mc::eval(4);
}

const double values[] = {0, 1, -1, 0.1, 3.5, -100.25, 1e-5, 1e-9, 1e-300, 12345.678, -1e6, 1e10, -1e30, 7, 0.999999999, 3.14159265, 65536, -2e-3, 1e100, 1e308};
const double epsilons[] = {-1, 1e-3, 0.1, 0.5, 1e-12, 1e-6, 1e-8, 1e-16, 1e-18};
constexpr auto def = nytl::defaultApproxEpsilon;

template<typename T> nytl::Approx<T> make(const T& v, double eps) {
	return eps < 0 ? approx(v) : approx(v, eps);
}

template<typename T> void scalar() {
	constexpr bool wide = std::is_same_v<T, long double>; // values and differences no double can represent
	auto n = mc::choose(std::is_same_v<T, float> ? 18 : wide ? 23 : 20);
	T a = n < 20 ? T(values[n]) : T(n == 20 ? 1e4000L : n == 21 ? -3.5e-4000L : 1.0L + 1e-18L);
	double eps = epsilons[mc::choose(wide ? 9 : 7)], e = eps < 0 ? def : eps;
	unsigned hits = 0;
	auto one = [&](T b) {
		if(!std::isfinite(b)) return;
		auto x = expected<T>(a, b, e);
		if(x < 0) return;
		check(x, a, make<T>(b, eps), "scalar", a, b, eps);
		hits += x;
	};
	for(auto f : {0.0, 0.01, 0.5, 0.9, 0.99, 1.01, 1.1, 2.0, 10.0, 1000.0, 1e6}) for(auto s : {1, -1})
		one(T(a + s * T(f) * T(e) * (1 + std::abs(a))));
	for(auto v : values) one(T(v));
	if constexpr(wide) for(auto v : {1e4000L, 1.1e4000L, -1e-4000L, 1.0L + 1e-18L}) one(v);
	one(-a);
	one(std::nextafter(a, T(1e30)));
	mc::step(100);
	mc::state(mc::hashBytes(&a, sizeof(T), mc::hashBytes(&e, 8)) + sizeof(T));
	mc::outcome(mc::comb(hits, 7));
}

// A component: 0 equal, 1 a bit different, 2 too different
template<typename T> T component(T v, unsigned state, double eps) {
	if(state == 0) return v;
	double d = (state == 1 ? 0.5 : 3) * eps * (1 + std::abs(double(v)));
	return T(double(v) + (double(v) < 0 ? -d : d));
}

template<std::size_t D, typename T> void vec(double eps) {
	const double e = eps < 0 ? def : eps;
	nytl::Vec<D, T> a {}, b {};
	bool same = true;
	mc::u64 h = D;
	auto base = mc::choose(3);
	for(auto i = 0u; i < D; ++i) {
		auto s = mc::choose(3);
		a[i] = T(values[(base * 5 + i * 3 + 1) % 8]);
		b[i] = component<T>(a[i], s, e);
		if(s == 2) same = false;
		h = mc::comb(h, s);
	}
	auto a0 = a;
	check(same, a, make(b, eps), "Vec", double(a[0]), double(b[0]), eps);
	check(same, b, make(a, eps), "Vec", double(b[0]), double(a[0]), eps);
	if constexpr(std::is_same_v<T, double>) {
		if(e >= 1e-6) { // float vector compared with double values
			nytl::Vec<D, float> f {};
			for(auto i = 0u; i < D; ++i) f[i] = float(a[i]);
			check(same, f, make(b, eps), "Vec<float>", double(a[0]), double(b[0]), eps);
		}
	}
	nytl::Vec<D + 1, T> longer {};
	for(auto i = 0u; i < D; ++i) longer[i] = a[i];
	check(false, longer, make(a, eps), "Vec (more components)", double(a[0]), double(a[0]), eps);
	check(false, a, make(longer, eps), "Vec (less components)", double(a[0]), double(a[0]), eps);
	MC_CHECK(a == a0, "operand was changed");
	mc::step(4);
	mc::state(mc::comb(h, mc::hashBytes(&e, 8) + base + sizeof(T)));
	mc::outcome(mc::comb(h, same));
}

template<std::size_t R, std::size_t C, typename T> void mat(double eps) {
	const double e = eps < 0 ? def : eps;
	nytl::Mat<R, C, T> a {}, b {};
	bool same = true;
	mc::u64 h = R * 7 + C;
	for(auto i = 0u; i < R * C; ++i) {
		auto s = mc::choose(3);
		a[i / C][i % C] = T(values[(i * 3 + 1) % 8]);
		b[i / C][i % C] = component<T>(a[i / C][i % C], s, e);
		if(s == 2) same = false;
		h = mc::comb(h, s);
	}
	check(same, a, make(b, eps), "Mat", double(a[0][0]), double(b[0][0]), eps);
	check(same, b, make(a, eps), "Mat", double(b[0][0]), double(a[0][0]), eps);
	mc::step(2);
	mc::state(mc::comb(h, mc::hashBytes(&e, 8) + sizeof(T)));
	mc::outcome(mc::comb(h, same));
}

template<typename T> void cplx() {
	auto eps = epsilons[mc::choose(7)], e = eps < 0 ? def : eps;
	if(std::is_same_v<T, float> && e < 1e-6) return;
	std::complex<T> a {T(values[mc::choose(8)]), T(values[mc::choose(8)])};
	auto r = mc::choose(3), i = mc::choose(3);
	std::complex<T> b {component<T>(a.real(), r, e), component<T>(a.imag(), i, e)};
	bool same = r != 2 && i != 2;
	check(same, a, make(b, eps), "complex", double(a.real()), double(b.real()), eps);
	check(same, b, make(a, eps), "complex", double(b.real()), double(a.real()), eps);
	mc::step(2);
	mc::state(mc::hashBytes(&a, sizeof(a), mc::hashBytes(&b, sizeof(b))));
	mc::outcome(mc::comb(r * 3 + i, same));
}

// one or two components of larger values are a bit or too different
template<typename V, typename At> void single(std::size_t n, At at, const char* what, double eps) {
	const double e = eps < 0 ? def : eps;
	V a {};
	for(auto i = 0u; i < n; ++i) at(a, i) = values[(i * 3 + 1) % 8];
	check(true, a, make(a, eps), what, 0, 0, eps);
	for(auto i = 0u; i < n; ++i) for(auto j = i; j < n; ++j) for(auto s = 1; s < 3; ++s) for(auto t = 0; t < 3; ++t) {
		V b = a;
		at(b, j) = component<double>(at(a, j), t, e);
		at(b, i) = component<double>(at(a, i), s, e);
		bool same = s != 2 && (i == j || t != 2);
		check(same, a, make(b, eps), what, double(at(a, i)), double(at(b, i)), eps);
		check(same, b, make(a, eps), what, double(at(b, i)), double(at(a, i)), eps);
	}
	mc::step(n * n * 6);
	auto id = mc::comb(mc::hashStr(what), mc::hashBytes(&e, 8) + n);
	mc::state(id);
	mc::outcome(id);
}
template<std::size_t D> void largeVec(double eps) {
	single<nytl::Vec<D, double>>(D, [](auto& v, unsigned i) -> double& { return v[i]; }, "Vec", eps);
}
template<std::size_t R, std::size_t C> void largeMat(double eps) {
	single<nytl::Mat<R, C, double>>(R * C, [](auto& v, unsigned i) -> double& { return v[i / C][i % C]; }, "Mat", eps);
}

template<typename T> void unordered() {
	using L = std::numeric_limits<T>;
	double eps = epsilons[mc::choose(7)];
	auto n = mc::choose(16);
	for(T odd : {L::quiet_NaN(), L::infinity(), -L::infinity()}) {
		T v = T(values[n]);
		check(false, odd, make<T>(v, eps), "unordered", odd, v, eps);
		check(false, v, make<T>(odd, eps), "unordered", v, odd, eps);
		for(auto i = 0u; i < 3; ++i) {
			nytl::Vec<3, T> a {v, v, v}, b = a;
			b[i] = odd;
			check(false, a, make(b, eps), "Vec, unordered", v, odd, eps);
			check(false, b, make(a, eps), "Vec, unordered", v, odd, eps);
		}
		for(auto i = 0u; i < 4; ++i) {
			nytl::Mat<2, 2, T> a {v, v, v, v}, b = a;
			b[i / 2][i % 2] = odd;
			check(false, a, make(b, eps), "Mat, unordered", v, odd, eps);
			check(false, b, make(a, eps), "Mat, unordered", v, odd, eps);
		}
		for(auto i = 0u; i < 2; ++i) {
			std::complex<T> a {v, v}, b {i ? v : odd, i ? odd : v};
			check(false, a, make(b, eps), "complex, unordered", v, odd, eps);
			check(false, b, make(a, eps), "complex, unordered", v, odd, eps);
		}
	}
	check(false, L::quiet_NaN(), make<T>(L::quiet_NaN(), eps), "NaN", 0, 0, eps);
	mc::step(50);
	mc::state(n * 100 + mc::hashBytes(&eps, 8) + sizeof(T));
	mc::outcome(n * 100 + mc::hashBytes(&eps, 8) + sizeof(T));
}

// Tolerances far below and above 1; the values are small compared to the tolerance respectively
// the difference is, so the factor is (nearly) 1.
template<typename T> void scales() {
	double eps = mc::pick({1e-30, 1e-60, 1e-200, 4.0, 1e10});
	if(sizeof(T) == 4 && eps < 1e-35) return;
	auto n = mc::choose(4);
	// for big tolerances everything below the tolerance is accepted, and nothing bigger than the
	// value itself can be out of tolerance
	bool small = eps < 1;
	T base = small ? T(0) : T(std::array{0.0, 1.0, -3.5, 0.25}[n]);
	if(small && n) base = T(eps * n * 0.01);
	T in = T(base + eps * 0.5), out = small ? T(base - eps * 3) : in;
	bool same = !small;
	check(true, base, make<T>(in, eps), "scales", base, in, eps);
	check(same, base, make<T>(out, eps), "scales", base, out, eps);
	for(auto i = 0u; i < 3; ++i) for(auto j = 0u; j < 3; ++j) {
		nytl::Vec<3, T> a {base, base, base}, b = a, c = a;
		b[i] = in; c[j] = in; c[i] = out;
		check(true, a, make(b, eps), "Vec, scales", base, in, eps);
		check(same, a, make(c, eps), "Vec, scales", base, out, eps);
		check(same, c, make(a, eps), "Vec, scales", base, out, eps);
	}
	for(auto i = 0u; i < 4; ++i) {
		nytl::Mat<2, 2, T> a {base, base, base, base}, b = a, c = a;
		b[i / 2][i % 2] = in; c[i / 2][i % 2] = out;
		check(true, a, make(b, eps), "Mat, scales", base, in, eps);
		check(same, a, make(c, eps), "Mat, scales", base, out, eps);
		check(same, c, make(a, eps), "Mat, scales", base, out, eps);
	}
	for(auto i = 0u; i < 2; ++i) {
		std::complex<T> a {base, base}, b {i ? base : in, i ? in : base}, c {i ? base : out, i ? out : base};
		check(true, a, make(b, eps), "complex, scales", base, in, eps);
		check(same, a, make(c, eps), "complex, scales", base, out, eps);
		check(same, c, make(a, eps), "complex, scales", base, out, eps);
	}
	mc::step(50);
	mc::state(n * 100 + mc::hashBytes(&eps, 8) + sizeof(T));
	mc::outcome(n * 100 + mc::hashBytes(&eps, 8) + sizeof(T));
}

} // namespace

MC_SCENARIO("scales", "tolerances between 1e-200 and 1e10, as scalars and at every position of vectors, matrices, complex numbers", 1) {
	switch(mc::choose(3)) {
		case 0: scales<double>(); break;
		case 1: scales<float>(); break;
		case 2: scales<long double>(); break;
	}
}

MC_SCENARIO("large", "vectors of 6, 8, 9, 16 and 33 components, 4x4, 2x6, 6x2, 5x5 and 8x8 matrices: all pairs of components that are equal, within or beyond the tolerance", 2) {
	double eps = epsilons[mc::choose(5)];
	switch(mc::choose(10)) {
		case 0: largeVec<6>(eps); break;
		case 1: largeVec<8>(eps); break;
		case 2: largeVec<9>(eps); break;
		case 3: largeVec<16>(eps); break;
		case 4: largeVec<33>(eps); break;
		case 5: largeMat<4, 4>(eps); break;
		case 6: largeMat<2, 6>(eps); break;
		case 7: largeMat<6, 2>(eps); break;
		case 8: largeMat<5, 5>(eps); break;
		case 9: largeMat<8, 8>(eps); break;
	}
}

MC_SCENARIO("unordered", "NaN and infinity against finite values, as scalars and at every position of vectors, matrices, complex numbers", 1) {
	switch(mc::choose(3)) {
		case 0: unordered<double>(); break;
		case 1: unordered<float>(); break;
		case 2: unordered<long double>(); break;
	}
}

MC_SCENARIO("scalar", "20 to 23 values, 7 to 9 epsilons (incl. the default), 43 other values around the limit of the tolerance and far off; float, double, long double (also values, differences and tolerances no double can represent)", 1) {
	switch(mc::choose(3)) {
		case 0: scalar<double>(); break;
		case 1: scalar<float>(); break;
		case 2: scalar<long double>(); break;
	}
}

MC_SCENARIO("vec", "all assignments of {equal, within, beyond the tolerance} to the components of vectors of up to 5 dimensions; other sizes; mixed types", 2) {
	double eps = epsilons[mc::choose(5)];
	switch(mc::choose(7)) {
		case 0: vec<1, double>(eps); break;
		case 1: vec<2, double>(eps); break;
		case 2: vec<3, double>(eps); break;
		case 3: vec<4, double>(eps); break;
		case 4: vec<5, double>(eps); break;
		case 5: vec<3, float>(eps < 1e-6 ? 1e-3 : eps); break;
		case 6: vec<2, long double>(eps); break;
	}
}

MC_SCENARIO("mat", "all assignments of {equal, within, beyond the tolerance} to the entries of 1x1, 1x3, 3x1, 2x2, 2x3, 3x2, 3x3 matrices", 2) {
	double eps = epsilons[mc::choose(3)];
	switch(mc::choose(7)) {
		case 0: mat<1, 1, double>(eps); break;
		case 1: mat<1, 3, double>(eps); break;
		case 2: mat<3, 1, double>(eps); break;
		case 3: mat<2, 2, float>(eps < 1e-6 ? 1e-3 : eps); break;
		case 4: mat<2, 3, double>(eps); break;
		case 5: mat<3, 2, double>(eps); break;
		case 6: mat<3, 3, double>(eps); break;
	}
}

MC_SCENARIO("complex", "all pairs of 8 values as parts, each part {equal, within, beyond the tolerance}, 7 epsilons, float, double and long double", 1) {
	switch(mc::choose(3)) {
		case 0: cplx<double>(); break;
		case 1: cplx<float>(); break;
		case 2: cplx<long double>(); break;
	}
}
