// Vectors and matrices of complex numbers.
#pragma once
#include "vecgen.hpp"
#include <complex>

namespace cgen {

// small enough for exact products and quotients by 1, i, 1 - i, ...
template<typename C> C value(unsigned i) {
	using T = typename C::value_type;
	const int re[] = {1, 0, -2, 3, 0, -4, 1, 0};
	const int im[] = {0, 1, 3, -1, 0, 0, -1, -2};
	i %= 8;
	return {T(re[i]), T(im[i])};
}

template<typename C> bool near(C a, C b) {
	return std::abs(a - b) <= (sizeof(C) == 8 ? 1e-5 : 1e-13) * (1 + std::abs(b));
}
template<typename C> C conv(double d) { return C(typename C::value_type(d)); }

#define CALL(expr, ref) do { auto r_ = (expr); mc::eval(); \
	using R_ = std::decay_t<decltype(r_[0])>; \
	static_assert(r_.size() == D); \
	for(std::size_t i = 0; i < D; ++i) { auto e_ = (ref); \
		MC_CHECK((std::is_same_v<R_, std::decay_t<decltype(e_)>> && ::cgen::near(e_, r_[i])), "%s, dimension %d, component %d: (%.17g, %.17g) instead of (%.17g, %.17g)", #expr, \
			int(D), int(i), double(r_[i].real()), double(r_[i].imag()), double(e_.real()), double(e_.imag())); } } while(0)

#define CALLM(expr, ROWS, COLS, ref) do { auto m_ = (expr); mc::eval(); \
	static_assert(m_.rows() == ROWS && m_.cols() == COLS); \
	using R_ = std::decay_t<decltype(m_[0][0])>; \
	for(std::size_t r = 0; r < ROWS; ++r) for(std::size_t c = 0; c < COLS; ++c) { auto e_ = (ref); \
		MC_CHECK((std::is_same_v<R_, std::decay_t<decltype(e_)>> && ::cgen::near(e_, m_[r][c])), "%s, %dx%d: entry (%d, %d) is (%.17g, %.17g) instead of (%.17g, %.17g)", #expr, \
			int(ROWS), int(COLS), int(r), int(c), double(m_[r][c].real()), double(m_[r][c].imag()), double(e_.real()), double(e_.imag())); } } while(0)

// all pairs of vectors (up to k values per component)
template<std::size_t D, typename T, typename F> void pairs(unsigned max, F f) {
	auto k = gen::perComponent(D, max);
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	for(auto x = 0u; x < n; ++x) for(auto y = 0u; y < n; ++y) {
		nytl::Vec<D, T> a {}, b {};
		gen::fill(a, D, x, k, rot, value<T>);
		gen::fill(b, D, y, k, rot + y % 3, value<T>);
		f(a, b);
	}
	mc::step(n * n);
	auto id = mc::comb(D * 8 + rot, mc::hashStr(typeid(T).name()));
	mc::state(id);
	mc::outcome(id);
}

template<typename F> void dims(F f) {
	auto fl = mc::flip();
	auto d = mc::choose(5);
	auto one = [&](auto dim) {
		if(fl) f(dim, std::complex<float>{}); else f(dim, std::complex<double>{});
	};
	switch(d) {
		case 0: one(std::integral_constant<std::size_t, 1>{}); break;
		case 1: one(std::integral_constant<std::size_t, 2>{}); break;
		case 2: one(std::integral_constant<std::size_t, 3>{}); break;
		case 3: one(std::integral_constant<std::size_t, 4>{}); break;
		default: one(std::integral_constant<std::size_t, 6>{}); break;
	}
}

} // namespace cgen
