// Values and vectors for the exhaustive exploration of the vector operations.
#pragma once
#include "mc.hpp"
#include <nytl/vec.hpp>
#include <array>
#include <cmath>
#include <limits>
#include <vector>

namespace gen {

// The i-th (of 8) value of a type. Small enough for products of two not to overflow.
template<typename T> T value(unsigned i) {
	i %= 8;
	if constexpr(std::is_same_v<T, long double>) {
		// not representable as double
		const long double v[] = {0.1L, -2.0L, 3.5L, 0.0L, -1e6L, 1e-7L, 1.0L + 1e-18L, -0.75L};
		return v[i];
	} else if constexpr(std::is_floating_point_v<T>) {
		const double v[] = {0.1, -2.0, 3.5, 0.0, -1e6, 1e-7, 7.0, -0.75};
		return static_cast<T>(v[i]);
	} else if constexpr(sizeof(T) == 1) {
		const int v[] = {3, std::is_signed_v<T> ? -2 : 2, 5, 0, 1, 10, 7, std::is_signed_v<T> ? -9 : 9};
		return static_cast<T>(v[i]);
	} else if constexpr(std::is_unsigned_v<T>) {
		const unsigned v[] = {3, 2, 5, 0, 60000, 1, 7, 1000};
		return static_cast<T>(v[i]);
	} else if constexpr(sizeof(T) == 8) {
		const long long v[] = {3, -2, 5, 0, -(1ll << 30) - 1, 1ll << 27, 7, -1};
		return static_cast<T>(v[i]);
	} else {
		const int v[] = {3, -2, 5, 0, -30000, 1, 7, 171};
		return static_cast<T>(v[i]);
	}
}

// exactly representable values: sums of products of a few of them are exact
template<typename T> T exact(unsigned i) {
	i %= 8;
	if constexpr(std::is_same_v<T, long double>) {
		// the square of 1 + 2^-28 is not representable as double
		const long double v[] = {0.5L, -2.0L, 3.5L, 0.0L, -6.25L, 1.0L + 1.0L / (1 << 28), 7.0L, -0.75L};
		return v[i];
	} else if constexpr(std::is_floating_point_v<T>) {
		const double v[] = {0.5, -2.0, 3.5, 0.0, -64.25, 1.0, 7.0, -0.75};
		return static_cast<T>(v[i]);
	} else if constexpr(sizeof(T) == 1) {
		return static_cast<T>(i % 4 + 1);
	} else if constexpr(std::is_unsigned_v<T>) {
		const unsigned v[] = {3, 2, 5, 0, 600, 1, 7, 100};
		return static_cast<T>(v[i]);
	} else {
		const int big = sizeof(T) == 8;
		const int v[] = {3, -2, 5, 0, big ? -(1 << 20) - 1 : -300, big ? 1 << 18 : 1, 7, 171};
		return static_cast<T>(v[i]);
	}
}

inline unsigned ipow(unsigned b, unsigned e) { unsigned r = 1; while(e--) r *= b; return r; }

// number of values per component, so that there are at most max vectors
inline unsigned perComponent(unsigned d, unsigned max) {
	unsigned k = 8;
	while(k > 2 && ipow(k, d) > max) --k;
	return k;
}

template<typename A, typename F> void fill(A& v, unsigned d, unsigned idx, unsigned k, unsigned rot, F f) {
	for(auto i = 0u; i < d; ++i) {
		v[i] = f(idx % k + rot);
		idx /= k;
	}
}

// Vectors for dimensions with too many of them: all values with all distances between
// consecutive components, and one vector with another value at each position.
template<typename V, typename F> V pattern(unsigned d, unsigned idx, F f) {
	V v {};
	if(idx < 24) for(auto i = 0u; i < d; ++i) v[i] = f(idx % 8 + i * (idx / 8) + (idx / 16) * (i * i / 3));
	else for(auto i = 0u; i < d; ++i) v[i] = f(i == idx - 24 ? 2 : 5);
	return v;
}
inline unsigned patterns(unsigned d) { return 24 + d; }

// values at the ends of the range
template<typename T> T special(unsigned i) {
	using L = std::numeric_limits<T>;
	i %= 8;
	if constexpr(std::is_floating_point_v<T>) {
		const T v[] = {L::infinity(), L::max(), L::denorm_min(), T(0), L::lowest(), -L::infinity(), T(1), -L::min()};
		return v[i];
	} else {
		const T v[] = {L::max(), L::min(), T(0), T(L::max() - 1), T(L::min() + 1), T(-1), T(1), T(L::max() / 2 + 1)};
		return v[i];
	}
}

template<typename T> bool same(T a, T b) {
	if constexpr(std::is_floating_point_v<T>) if(std::isnan(a) && std::isnan(b)) return true;
	return a == b;
}
// are a and b equal up to rounding in T?
template<typename T> bool near(T a, long double b, long double scale = 1.0, double ulps = 16) {
	using L = long double;
	if(std::isnan(L(a)) || std::isnan(b)) return std::isnan(L(a)) && std::isnan(b);
	if(L(a) == b) return true;
	L eps = std::is_same_v<T, float> ? 1.2e-7L : std::is_same_v<T, L> ? 1.1e-19L : 2.3e-16L;
	return std::abs(L(a) - b) <= ulps * eps * std::max(std::abs(scale), std::abs(b));
}

} // namespace gen
