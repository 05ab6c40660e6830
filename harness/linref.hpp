// Exact linear algebra on small rational numbers: the reference for C24, C25, C26.
#pragma once
#include "mc.hpp"
#include <array>
#include <vector>

namespace linref {

using I = long long;
inline I gcd(I a, I b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { I t = a % b; a = b; b = t; } return a; }

struct Rat {
	I n {0}, d {1};
	Rat() = default;
	Rat(I num) : n(num) {}
	Rat(__int128 num, __int128 den) {
		if(den < 0) { num = -num; den = -den; }
		__int128 a = num < 0 ? -num : num, b = den;
		while(b) { auto t = a % b; a = b; b = t; }
		if(a > 1) { num /= a; den /= a; }
		const __int128 lim = (__int128(1) << 62);
		if(num > lim || num < -lim || den > lim) mc::fail("reference: rational overflow");
		n = I(num);
		d = I(den);
	}
	bool zero() const { return n == 0; }
	bool dyadic() const { return (d & (d - 1)) == 0; }
	double val() const { return double(n) / double(d); }
	friend Rat operator+(Rat a, Rat b) { return {__int128(a.n) * b.d + __int128(b.n) * a.d, __int128(a.d) * b.d}; }
	friend Rat operator-(Rat a, Rat b) { return {__int128(a.n) * b.d - __int128(b.n) * a.d, __int128(a.d) * b.d}; }
	friend Rat operator*(Rat a, Rat b) { return {__int128(a.n) * b.n, __int128(a.d) * b.d}; }
	friend Rat operator/(Rat a, Rat b) { return {__int128(a.n) * b.d, __int128(a.d) * b.n}; }
	friend bool operator==(Rat a, Rat b) { return a.n == b.n && a.d == b.d; }
	friend bool operator!=(Rat a, Rat b) { return !(a == b); }
	Rat abs() const { Rat r = *this; if(r.n < 0) r.n = -r.n; return r; }
	friend bool operator<(Rat a, Rat b) { return __int128(a.n) * b.d < __int128(b.n) * a.d; }
};

using Row = std::vector<Rat>;
using M = std::vector<Row>;

// The (unique) reduced row echelon form. exact: whether the numbers met by the elimination (with the
// largest and with the first nonzero pivot), and the reciprocals of the pivots, before any column was
// found to be zero are dyadic, i.e. whether floating point arithmetic finds the same zeros.
struct Rref { M m; unsigned rank; std::vector<unsigned> pivots; bool exact; };

inline Rref rref(M m, bool largest) {
	Rref ret;
	ret.exact = true;
	bool dyadic = true;
	unsigned R = m.size(), C = m[0].size(), r = 0;
	for(auto c = 0u; c < C && r < R; ++c) {
		int p = -1;
		for(auto i = r; i < R; ++i) {
			if(m[i][c].zero()) { if(!dyadic) ret.exact = false; continue; }
			if(p < 0 || (largest && m[p][c].abs() < m[i][c].abs())) p = i;
		}
		if(p < 0) continue;
		std::swap(m[p], m[r]);
		auto f = m[r][c];
		if(!(Rat(1) / f).dyadic()) dyadic = false;
		for(auto i = 0u; i < C; ++i) { m[r][i] = m[r][i] / f; if(!m[r][i].dyadic()) dyadic = false; }
		for(auto i = 0u; i < R; ++i) {
			if(i == r) continue;
			auto g = m[i][c];
			if(g.zero()) continue;
			for(auto j = 0u; j < C; ++j) { m[i][j] = m[i][j] - g * m[r][j]; if(!m[i][j].dyadic()) dyadic = false; }
		}
		ret.pivots.push_back(c);
		++r;
	}
	ret.rank = r;
	ret.m = m;
	return ret;
}

inline Rref rref(const M& m) {
	auto a = rref(m, true), b = rref(m, false);
	a.exact &= b.exact;
	return a;
}

// fraction-free determinant
inline I det(const M& src) {
	auto n = src.size();
	std::vector<std::vector<__int128>> m(n, std::vector<__int128>(n));
	for(auto r = 0u; r < n; ++r) for(auto c = 0u; c < n; ++c) m[r][c] = src[r][c].n;
	__int128 prev = 1;
	int sign = 1;
	for(auto k = 0u; k + 1 < n; ++k) {
		if(m[k][k] == 0) {
			auto p = k + 1;
			while(p < n && m[p][k] == 0) ++p;
			if(p == n) return 0;
			std::swap(m[p], m[k]);
			sign = -sign;
		}
		for(auto i = k + 1; i < n; ++i)
			for(auto j = k + 1; j < n; ++j)
				m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
		prev = m[k][k];
	}
	return I(sign * m[n - 1][n - 1]);
}

} // namespace linref
