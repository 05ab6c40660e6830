// Rects on a small grid, and their points as bit masks: the reference for C27, C28.
// In each dimension bit 2k stands for the coordinate k, bit 2k + 1 for all between k and k + 1.
#pragma once
#include "mc.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <array>
#include <limits>

namespace rg {

template<std::size_t D> struct R { std::array<int, D> p {}, s {}; };
using Mask = std::uint64_t;

inline Mask range(int a, int b) { Mask m = 0; for(auto i = a; i <= b; ++i) m |= Mask(1) << i; return m; }
inline Mask closed(int p, int s) { return range(2 * p, 2 * (p + s)); }
inline Mask open(int p, int s) { return range(2 * p + 1, 2 * (p + s) - 1); }

// How grid coordinates are mapped to values of the type
template<typename T> struct Map {
	T offset, unit;
	T pos(int k) const { return T(offset + T(k) * unit); }
	T len(int k) const { return T(T(k) * unit); }
};

template<typename T> constexpr unsigned maps = std::is_floating_point_v<T> ? 6 : 4;
template<typename T> Map<T> map(unsigned i, int maxCoord) {
	if constexpr(std::is_floating_point_v<T>) {
		switch(i % 6) {
			case 0: return {T(0), T(1)};
			case 1: return {T(-1.5), T(0.5)};
			case 2: return {T(1000), T(-0.0 + 0.25)};
			case 4: return {T(0), T(1) / T(1l << 40)};
			case 5: return {T(-4.0 * (1l << 40)), T(1l << 40)};
			default: return {T(-3), T(1 << 10)};
		}
	} else if constexpr(std::is_unsigned_v<T>) {
		switch(i % 4) {
			case 0: return {T(0), T(1)};
			case 1: return {T(7), T(3)};
			case 2: return {T(std::numeric_limits<T>::max() - T(maxCoord)), T(1)};
			default: return {T(20), T(sizeof(T) == 1 ? 9 : 20)};
		}
	} else {
		switch(i % 4) {
			case 0: return {T(0), T(1)};
			case 1: return {T(-maxCoord / 2), T(1)};
			case 2: return {T(std::numeric_limits<T>::max() - maxCoord), T(1)};
			default: return {T(std::numeric_limits<T>::min()), T(2)};
		}
	}
}

template<std::size_t D, typename T> nytl::Rect<D, T> make(const R<D>& r, const Map<T>& m) {
	nytl::Rect<D, T> ret {};
	for(auto i = 0u; i < D; ++i) { ret.position[i] = m.pos(r.p[i]); ret.size[i] = m.len(r.s[i]); }
	return ret;
}

template<std::size_t D> unsigned count(int P, int S) { unsigned n = 1; for(auto i = 0u; i < D; ++i) n *= P * S; return n; }
// The idx-th rect with positions [0, P), sizes [minS, minS + S)
template<std::size_t D> R<D> nth(unsigned idx, int P, int S, int minS) {
	R<D> r;
	for(auto i = 0u; i < D; ++i) {
		r.p[i] = idx % P; idx /= P;
		r.s[i] = minS + idx % S; idx /= S;
	}
	return r;
}

template<std::size_t D> std::string str(const R<D>& r) {
	std::string s = "{(";
	for(auto x : r.p) s += std::to_string(x) + " ";
	s += "), (";
	for(auto x : r.s) s += std::to_string(x) + " ";
	return s + ")}";
}

} // namespace rg
