// Reference for rotations: matrices and quaternion products in long double.
#pragma once
#include "mc.hpp"
#include <nytl/quaternion.hpp>
#include <array>
#include <cmath>

namespace qr {

using F = long double;
using M3 = std::array<std::array<F, 3>, 3>;
using V3 = std::array<F, 3>;
using Q = nytl::Quaternion;
constexpr F pi = 3.14159265358979323846264338327950288L;

inline M3 mul(const M3& a, const M3& b) {
	M3 r {};
	for(auto i = 0; i < 3; ++i) for(auto j = 0; j < 3; ++j) for(auto k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
	return r;
}
inline V3 mul(const M3& a, const V3& b) {
	V3 r {};
	for(auto i = 0; i < 3; ++i) for(auto k = 0; k < 3; ++k) r[i] += a[i][k] * b[k];
	return r;
}
// Rotation around coordinate axis i by a (right-handed)
inline M3 rot(int i, F a) {
	M3 r {};
	int j = (i + 1) % 3, k = (i + 2) % 3;
	r[i][i] = 1;
	r[j][j] = r[k][k] = std::cos(a);
	r[j][k] = -std::sin(a);
	r[k][j] = std::sin(a);
	return r;
}
// Rodrigues: rotation around the unit axis by angle a
inline M3 rodrigues(const V3& u, F a) {
	F c = std::cos(a), s = std::sin(a);
	M3 r {};
	for(auto i = 0; i < 3; ++i) for(auto j = 0; j < 3; ++j) r[i][j] = (i == j ? c : 0) + (1 - c) * u[i] * u[j];
	r[0][1] -= s * u[2]; r[1][0] += s * u[2];
	r[0][2] += s * u[1]; r[2][0] -= s * u[1];
	r[1][2] -= s * u[0]; r[2][1] += s * u[0];
	return r;
}
// the unit multiplication table e_i * e_j = sign * e_k with e = {x, y, z, w}
inline std::array<F, 4> hamilton(const std::array<F, 4>& a, const std::array<F, 4>& b) {
	static const int idx[4][4] = {{3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}, {0, 1, 2, 3}};
	static const int sgn[4][4] = {{-1, 1, -1, 1}, {-1, -1, 1, 1}, {1, -1, -1, 1}, {1, 1, 1, 1}};
	std::array<F, 4> r {};
	for(auto i = 0; i < 4; ++i) for(auto j = 0; j < 4; ++j) r[idx[i][j]] += sgn[i][j] * a[i] * b[j];
	return r;
}
inline std::array<F, 4> arr(const Q& q) { return {F(q.x), F(q.y), F(q.z), F(q.w)}; }
// matrix whose columns are q e_i q* (q a unit quaternion)
inline M3 mat(const Q& q) {
	auto a = arr(q);
	F n2 = 0;
	for(auto x : a) n2 += x * x;
	std::array<F, 4> c {-a[0], -a[1], -a[2], a[3]};
	M3 r {};
	for(auto i = 0; i < 3; ++i) {
		std::array<F, 4> e {};
		e[i] = 1;
		auto v = hamilton(hamilton(a, e), c);
		for(auto k = 0; k < 3; ++k) r[k][i] = v[k] / n2;
	}
	return r;
}
template<typename M> double diff(const M& a, const M3& b) {
	double d = 0;
	for(auto i = 0; i < 3; ++i) for(auto j = 0; j < 3; ++j) {
		double x = std::abs(double(F(a[i][j]) - b[i][j]));
		if(!(x <= d)) d = x; // nan counts
	}
	return d;
}
inline Q unit(int x, int y, int z, int w) {
	F l = std::sqrt(F(x * x + y * y + z * z + w * w));
	return {double(x / l), double(y / l), double(z / l), double(w / l)};
}
// All directions with integer components in [-n, n]; every one except of zero
struct Grid {
	int n;
	unsigned count() const { unsigned k = 2 * n + 1; return k * k * k * k; }
	bool get(unsigned i, int (&c)[4]) const {
		int k = 2 * n + 1;
		for(auto& x : c) { x = int(i % k) - n; i /= k; }
		return c[0] || c[1] || c[2] || c[3];
	}
};
inline std::string str(const Q& q) {
	char b[160];
	std::snprintf(b, sizeof(b), "{%.17g, %.17g, %.17g, %.17g}", q.x, q.y, q.z, q.w);
	return b;
}

} // namespace qr
