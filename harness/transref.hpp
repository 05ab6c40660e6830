// Shared by C35, C36, C37.
#pragma once
#include "quatref.hpp"
#include <nytl/transform.hpp>

namespace tr {

using namespace qr;
template<typename P> constexpr double eps = sizeof(P) == 4 ? 3e-6 : 1e-13;
template<std::size_t D, typename P> using Sq = nytl::SquareMat<D, P>;
template<std::size_t D, typename P> using Vec = nytl::Vec<D, P>;
template<typename P> using V3p = nytl::Vec3<P>;
template<typename P> V3p<P> toVec(const V3& v) { return {P(v[0]), P(v[1]), P(v[2])}; }
template<typename V> V3 fromVec(const V& v) { return {F(v[0]), F(v[1]), F(v[2])}; }
inline F dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline F len(const V3& a) { return std::sqrt(tr::dot(a, a)); }
inline V3 norm(const V3& a) { auto l = len(a); return {a[0] / l, a[1] / l, a[2] / l}; }
inline F det(const M3& m) { return tr::dot(m[0], tr::cross(m[1], m[2])); }

// directions with integer components in [-n, n]
inline bool direction(unsigned i, int n, V3& out) {
	int k = 2 * n + 1;
	int x = int(i % k) - n, y = int(i / k % k) - n, z = int(i / k / k) - n;
	if(!x && !y && !z) return false;
	out = norm({F(x), F(y), F(z)});
	return true;
}
inline unsigned directions(int n) { unsigned k = 2 * n + 1; return k * k * k; }
inline std::string str(const V3& v) { char b[100]; std::snprintf(b, sizeof(b), "(%.9Lg, %.9Lg, %.9Lg)", v[0], v[1], v[2]); return b; }

template<std::size_t D, typename P> std::string str(const Sq<D, P>& m) {
	std::string s = "{";
	for(auto r = 0u; r < D; ++r) { for(auto c = 0u; c < D; ++c) { char b[40]; std::snprintf(b, sizeof(b), "%.9g%s", double(m[r][c]), c + 1 == D ? "; " : " "); s += b; } }
	return s + "}";
}
template<std::size_t D, typename P> M3 top(const Sq<D, P>& m) { M3 r {}; for(auto i = 0u; i < 3; ++i) for(auto j = 0u; j < 3; ++j) r[i][j] = m[i][j]; return r; }
// rows/columns from n on: identity?
template<std::size_t D, typename P> bool identityFrom(const Sq<D, P>& m, unsigned n) {
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) if((r >= n || c >= n) && m[r][c] != (r == c)) return false;
	return true;
}
inline double diffV(const V3& a, const V3& b) { double d = 0; for(auto i = 0; i < 3; ++i) { double x = std::abs(double(a[i] - b[i])); if(!(x <= d)) d = x; } return d; }
// distance of m m^T to the identity, and of the determinant to 1
inline double rotationError(const M3& m) {
	double d = std::abs(double(det(m) - 1));
	for(auto i = 0; i < 3; ++i) for(auto j = 0; j < 3; ++j) { double x = std::abs(double(tr::dot(m[i], m[j]) - (i == j))); if(!(x <= d)) d = x; }
	return d;
}

} // namespace tr
