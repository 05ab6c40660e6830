// C25: LU decomposition, determinant and invertibility.
// C26 (C26_SOLVE): solutions of linear equation systems and inverse matrices.
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include "mc.hpp"
#include "linref.hpp"
#include <cmath>

namespace {

template<std::size_t R, std::size_t C, typename T> using Mat = nytl::Mat<R, C, T>;
template<std::size_t D, typename T> using Vec = nytl::Vec<D, T>;

template<std::size_t D, typename T> std::string str(const Mat<D, D, T>& m) {
	std::string s = "{";
	for(auto r = 0u; r < D; ++r) { s += r ? "; " : ""; for(auto c = 0u; c < D; ++c) { char b[40]; std::snprintf(b, sizeof(b), "%s%.17g", c ? " " : "", double(m[r][c])); s += b; } }
	return s + "}";
}

template<std::size_t D, typename T> linref::M exact(const Mat<D, D, T>& a) {
	linref::M m(D, linref::Row(D));
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) m[r][c] = linref::I(a[r][c]);
	return m;
}

#define CHK(cond, fmt, ...) MC_CHECK(cond, "%s: " fmt, str<D, T>(a).c_str(), ##__VA_ARGS__)

template<std::size_t D, typename L> bool perm(const L& lu, std::array<unsigned, D>& p) {
	std::array<bool, D> used {};
	for(auto r = 0u; r < D; ++r) {
		int at = -1;
		for(auto c = 0u; c < D; ++c) if(lu.perm[r][c]) { if(at >= 0) return false; at = c; }
		if(at < 0 || used[at]) return false;
		used[at] = true;
		p[r] = at;
	}
	return true;
}

template<std::size_t D, typename T> void decompose(const Mat<D, D, T>& a) {
	mc::eval(5);
	const auto a0 = a;
	double max = 1;
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) max = std::max(max, std::abs(double(a[r][c])));
	auto lu = nytl::luDecomp(a);
	CHK(a == a0, "operand was changed");
	std::array<unsigned, D> p {};
	CHK((perm<D>(lu, p)), "not a permutation");
	int sign = 1;
	for(auto r = 0u; r < D; ++r) for(auto c = r + 1; c < D; ++c) if(p[c] < p[r]) sign = -sign;
	CHK(lu.sign == sign, "sign is %g instead of %d", double(lu.sign), sign);
	for(auto r = 0u; r < D; ++r) {
		CHK(lu.lower[r][r] == 1, "diagonal of the lower matrix");
		for(auto c = 0u; c < D; ++c) {
			if(c > r) CHK(lu.lower[r][c] == 0, "lower matrix: (%u, %u) is %g", r, c, lu.lower[r][c]);
			if(c < r) CHK(std::abs(lu.upper[r][c]) < 1e-9 * max, "upper matrix: (%u, %u) is %g", r, c, lu.upper[r][c]);
			double s = 0;
			for(auto k = 0u; k < D; ++k) s += lu.lower[r][k] * lu.upper[k][c];
			CHK(std::abs(s - double(a[p[r]][c])) < 1e-9 * max, "LU differs from PA at (%u, %u): %.17g instead of %.17g", r, c, s, double(a[p[r]][c]));
		}
	}
	auto m = exact<D, T>(a);
	auto d = linref::det(m);
	auto det = nytl::determinant(a);
	CHK((std::is_same_v<decltype(det), T>), "type of the determinant");
	if constexpr(std::is_integral_v<T>) {
		CHK(det == d, "determinant is %lld instead of %lld", (long long) det, d);
		CHK(nytl::invertible(a) == (d != 0), "invertible is %d, determinant %lld", int(nytl::invertible(a)), d);
	} else {
		double eps = sizeof(T) == 4 ? 1e-4 : 1e-9;
		double scale = std::pow(max, D);
		CHK(std::abs(det - d) <= eps * scale, "determinant is %.17g instead of %lld", double(det), d);
		if(d != 0 || linref::rref(m).exact) CHK(nytl::invertible(a) == (d != 0), "invertible is %d, determinant %lld", int(nytl::invertible(a)), d);
	}
	auto det2 = nytl::determinant(lu);
	CHK(std::abs(det2 - d) <= 1e-9 * std::pow(max, D), "determinant of the decomposition is %.17g instead of %lld", double(det2), d);
	CHK((nytl::determinant(static_cast<Mat<D, D, T>>(nytl::transpose(a))) - det) <= 1e-4 * std::pow(max, D), "determinant of the transposed");
	mc::outcome(mc::comb(mc::u64(d + 1000000), sign + 1));
}

template<std::size_t D, typename T> void solve(const Mat<D, D, T>& a) {
	auto m = exact<D, T>(a);
	if(linref::det(m) == 0) return;
	const auto a0 = a;
	mc::eval(4 + 3 * D);
	auto aug = m;
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) aug[r].push_back(c == r ? 1 : 0);
	auto ref = linref::rref(aug, true);
	double scale = 1;
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) scale = std::max(scale, std::abs(ref.m[r][D + c].val()));
	auto lu = nytl::luDecomp(a);
	auto i1 = nytl::inverse(a), i2 = nytl::inverse(lu);
	CHK((std::is_same_v<decltype(i1), Mat<D, D, double>>), "type of the inverse");
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) {
		auto e = ref.m[r][D + c].val();
		CHK(std::abs(i1[r][c] - e) < 1e-9 * scale, "inverse: (%u, %u) is %.17g instead of %.17g", r, c, i1[r][c], e);
		CHK(std::abs(i2[r][c] - e) < 1e-9 * scale, "inverse of the decomposition: (%u, %u) is %.17g instead of %.17g", r, c, i2[r][c], e);
	}
	// right hand sides
	for(auto k = 0u; k < D + 2; ++k) {
		const int dense[] = {1, -2, 3, 5, -7, 4, -6, 2};
		int b[std::max<std::size_t>(D, 5)] {};
		for(auto i = 0u; i < D; ++i) b[i] = k == D ? dense[i % 8] : k == i;
		Vec<D, T> v {};
		Vec<D, double> vp {};
		for(auto i = 0u; i < D; ++i) v[i] = T(b[i]);
		for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) if(lu.perm[i][j]) vp[i] += v[j];
		const auto v0 = v;
		auto x = nytl::luEvaluate(lu, v);
		auto y = nytl::luEvaluate(lu.lower, lu.upper, vp);
		for(auto i = 0u; i < D; ++i) {
			linref::Rat e;
			for(auto j = 0u; j < D; ++j) e = e + ref.m[i][D + j] * linref::Rat(b[j]);
			CHK(std::abs(x[i] - e.val()) < 1e-8 * scale, "solution for {%d %d %d %d %d}: component %u is %.17g instead of %.17g", b[0], b[1], b[2], b[3], b[4], i, x[i], e.val());
			CHK(std::abs(y[i] - e.val()) < 1e-8 * scale, "solution (LU) for {%d %d %d %d %d}: component %u is %.17g instead of %.17g", b[0], b[1], b[2], b[3], b[4], i, y[i], e.val());
		}
		CHK(v == v0, "operand was changed");
	}
	CHK(a == a0, "operand was changed");
	mc::outcome(mc::comb(mc::hashBytes(&i1[0][0], sizeof(double)), mc::u64(scale * 1000)));
}

template<std::size_t D, typename T> void one(const Mat<D, D, T>& a) {
#ifdef C26_SOLVE
	solve<D, T>(a);
#else
	decompose<D, T>(a);
#endif
}

// all matrices with entries lo, lo + step, ..., (n values)
template<std::size_t D, typename T> void all(const std::vector<int>& vals) {
	auto n = vals.size();
	// the first row is drawn from the explorer, the others are enumerated here
	Mat<D, D, T> a {};
	mc::u64 h = D;
	for(auto c = 0u; c < D; ++c) { auto v = mc::choose(n); a[0][c] = T(vals[v]); h = mc::comb(h, v); }
	unsigned rest = D * D - D, count = 1;
	for(auto i = 0u; i < rest; ++i) count *= n;
	for(auto idx = 0u; idx < count; ++idx) {
		auto x = idx;
		for(auto i = 0u; i < rest; ++i) { a[1 + i / D][i % D] = T(vals[x % n]); x /= n; }
		one<D, T>(a);
	}
	mc::step(count * 5);
	mc::state(mc::comb(h, mc::hashStr(typeid(T).name()) + n));
}

} // namespace

MC_SCENARIO("small", "all 1x1 matrices over -20..20 and all 2x2 over -5..5, int, float and double", 2) {
	std::vector<int> wide, narrow;
	for(auto i = -20; i <= 20; ++i) wide.push_back(i);
	for(auto i = mc::bound(-3, -5, -5, -9); i <= mc::bound(3, 5, 5, 9); ++i) narrow.push_back(i);
	switch(mc::choose(6)) {
		case 0: all<1, int>(wide); break;
		case 1: all<1, double>(wide); break;
		case 2: all<2, int>(narrow); break;
		case 3: all<2, double>(narrow); break;
		case 4: all<2, float>(narrow); break;
		case 5: all<1, float>(wide); break;
	}
}

MC_SCENARIO("three", "all 3x3 matrices over {0, 1, -1} and {0, 3, 7} (without sanitizers: {0, 1, -2, 3, 7} and {0, 1, 3, 7, -5}), int and double", 3) {
	auto pick = [](std::vector<int> s, std::vector<int> f, std::vector<int> d) { return mc::bound(0, 1, 1, 2) == 2 ? d : mc::bound(0, 1, 1, 2) ? f : s; };
	switch(mc::choose(4)) {
		case 0: all<3, int>(pick({0, 1, -1}, {0, 1, -2, 3, 7}, {0, 1, -1, 2, -3, 7})); break;
		case 1: all<3, double>(pick({0, 1, -1}, {0, 1, -2, 3, 7}, {0, 1, -1, 2, -3, 7})); break;
		case 2: all<3, int>(pick({0, 3, 7}, {0, 1, 3, 7, -5}, {0, 1, 3, 7, -5, 11})); break;
		case 3: all<3, double>(pick({0, 3, 7}, {0, 1, 3, 7, -5}, {0, 1, 3, 7, -5, 11})); break;
	}
}

MC_SCENARIO("four", "all 4x4 matrices over {0, 1} and {1, 3} as int, over {0, 2} and {-1, 3} as double", 4) {
	switch(mc::choose(4)) {
		case 0: all<4, int>({0, 1}); break;
		case 1: all<4, double>({0, 2}); break;
		case 2: all<4, double>({-1, 3}); break;
		case 3: all<4, int>({1, 3}); break;
	}
}

MC_SCENARIO("permutations", "5x5: all permutations of the rows of 12 matrices (triangular, singular, dense)", 2) {
	constexpr auto D = 5u;
	std::array<unsigned, D> p {};
	bool used[D] {};
	for(auto i = 0u; i < D; ++i) {
		std::vector<unsigned> free;
		for(auto j = 0u; j < D; ++j) if(!used[j]) free.push_back(j);
		p[i] = free[mc::choose(free.size())];
		used[p[i]] = true;
	}
	for(auto k = 0; k < 12; ++k) {
		auto entry = [&](unsigned r, unsigned c) -> int {
			switch(k % 6) {
				case 0: return r == c ? int(r + 1) : 0;
				case 1: return c < r ? 0 : int((r * 3 + c * c) % 5) + 1;
				case 2: return c > r ? 0 : int((r * 2 + c * 3) % 4) + 1;
				case 3: return int((r * 7 + c * 5 + r * c * 3) % 11) - 5;
				case 4: return r == 3 ? int(c) - 2 : r == 1 ? 2 * (int(c) - 2) : int((r * 4 + c * 7 + r * r * c) % 9) - 4;
				default: return r + c == D - 1 ? 1 + int(r) : (r + c == D ? 2 : 0);
			}
		};
		auto fill = [&](auto m) { for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) m[r][c] = entry(p[r], c); return m; };
		if(k < 6) one<D, int>(fill(Mat<D, D, int> {})); else one<D, double>(fill(Mat<D, D, double> {}));
	}
	mc::u64 h = 3;
	for(auto x : p) h = mc::comb(h, x);
	mc::step(60);
	mc::state(h);
	mc::outcome(h);
}

namespace {
// P L U for sparse triangular matrices, every position of a zero on the diagonal (or none)
template<std::size_t D, typename T> void larges() {
	auto zero = mc::choose(D + 1), k = mc::choose(6);
	Mat<D, D, int> l {}, u {}, b {};
	const int diag[] = {1, -2, 1, 3, -1, 1, 2};
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) {
		if(r == c) { l[r][c] = 1; u[r][c] = r == zero ? 0 : diag[(r + k) % 7]; }
		if(c < r) l[r][c] = (r * 3 + c * 5 + k) % 4 == 0 ? (r + c) % 2 ? 1 : -1 : 0;
		if(c > r) u[r][c] = (r * 5 + c * 3 + k * 2) % 3 == 0 ? 0 : (r * 7 + c + k) % 4 == 1 ? 2 : (r + c) % 2 ? -1 : 1;
	}
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) for(auto i = 0u; i < D; ++i) b[r][c] += l[r][i] * u[i][c];
	unsigned n = 0;
	auto run = [&](auto row) {
		Mat<D, D, T> a {}, t {};
		for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) t[c][r] = a[r][c] = T(b[row(r)][c]);
		one<D, T>(a);
		one<D, T>(t);
		n += 2;
	};
	// all exchanges of two rows, rotations, the reverse order
	for(auto i = 0u; i < D; ++i) for(auto j = i ? i + 1 : 0u; j < D; ++j) run([&](unsigned r) { return r == i ? j : r == j ? i : r; });
	for(auto i = 1u; i < D; ++i) { run([&](unsigned r) { return (r + i) % unsigned(D); }); run([&](unsigned r) { return (2 * unsigned(D) - r - i) % unsigned(D); }); }
	mc::step(n * 5);
	auto id = mc::comb(D * 100 + zero * 10 + k, mc::hashStr(typeid(T).name()));
	mc::state(id);
	mc::outcome(id);
}
} // namespace

MC_SCENARIO("large", "6x6, 7x7 and 8x8 matrices: products of triangular matrices (6 patterns, every position of a zero on the diagonal or none) with two rows exchanged, all rows rotated or reversed, also transposed", 2) {
	switch(mc::choose(5)) {
		case 0: larges<6, double>(); break;
		case 1: larges<6, int>(); break;
		case 2: larges<7, double>(); break;
		case 3: larges<8, double>(); break;
		case 4: larges<8, int>(); break;
	}
}

namespace {
template<std::size_t D> void scaled(const Mat<D, D, double>& b, double f, double g) {
	using T = double;
	auto m = exact<D, double>(b);
	auto d = linref::det(m);
	auto a = f * b;
	for(auto c = 0u; c < D; ++c) a[D - 1][c] *= g;
	auto fac = std::pow(f, int(D)) * g;
	mc::eval(3);
#ifdef C26_SOLVE
	if(d == 0) return;
	auto i = nytl::inverse(a);
	auto id = i * a;
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c)
		CHK(std::abs(id[r][c] - (r == c)) < 1e-9, "inverse * matrix: (%u, %u) is %.17g", r, c, id[r][c]);
	for(auto k = 0u; k < D; ++k) {
		auto x = nytl::luEvaluate(nytl::luDecomp(a), nytl::col(a, k));
		for(auto r = 0u; r < D; ++r) CHK(std::abs(x[r] - (r == k)) < 1e-9, "solution for column %u: component %u is %.17g", k, r, x[r]);
	}
#else
	auto det = nytl::determinant(a);
	double s = std::abs(fac) * 1e-9 * std::pow(8.0, int(D));
	CHK(std::abs(det - d * fac) <= s, "determinant is %.17g instead of %.17g", det, d * fac);
	if(d != 0 || linref::rref(m).exact) CHK(nytl::invertible(a) == (d != 0), "invertible is %d, determinant %.17g", int(nytl::invertible(a)), d * fac);
	auto lu = nytl::luDecomp(a);
	auto prod = lu.lower * lu.upper;
	auto pa = lu.perm * a;
	for(auto r = 0u; r < D; ++r) {
		double rs = 0;
		for(auto c = 0u; c < D; ++c) rs = std::max(rs, std::abs(pa[r][c]));
		for(auto c = 0u; c < D; ++c) {
			CHK(std::abs(prod[r][c] - pa[r][c]) <= 1e-9 * rs, "LU differs from PA at (%u, %u)", r, c);
			if(c < r) CHK(std::abs(lu.upper[r][c]) <= 1e-9 * rs, "upper matrix");
		}
	}
#endif
	mc::outcome(mc::comb(mc::u64(d + 1000000), mc::u64(f * 1000 + g)));
}
} // namespace

MC_SCENARIO("scaled", "all 2x2 matrices over -3..3 and 3x3 matrices over {0, 1, -2} (double), scaled by 2^-150, 2^-40, 2^-20, 2^20, 2^40 and 2^150, "
	"also with a differently scaled last row", 3) {
	const double fs[] = {1.0, std::ldexp(1, -40), std::ldexp(1, -20), std::ldexp(1, 20), std::ldexp(1, -150), std::ldexp(1, 40), std::ldexp(1, 150)};
	auto f = fs[mc::choose(7)], g = fs[mc::choose(5)];
	if(mc::flip()) {
		Mat<2, 2, double> b {};
		for(auto i = 0; i < 7 * 7 * 7 * 7; ++i) {
			auto x = i;
			for(auto k = 0; k < 4; ++k) { b[k / 2][k % 2] = x % 7 - 3; x /= 7; }
			scaled<2>(b, f, g);
		}
	} else {
		Mat<3, 3, double> b {};
		for(auto i = 0; i < 19683; ++i) {
			auto x = i;
			for(auto k = 0; k < 9; ++k) { b[k / 3][k % 3] = x % 3 == 2 ? -2 : x % 3; x /= 3; }
			scaled<3>(b, f, g);
		}
	}
	mc::step(19683 * 3);
	mc::state(mc::hashBytes(&f, 8, 3) ^ mc::hashBytes(&g, 8));
}

#ifdef C26_SOLVE
namespace {
// luEvaluate for triangular matrices and right sides of different types
template<std::size_t D, typename T1, typename T2> void triangular() {
	const double ls[] = {0, 1, -2, 0.5}, us[] = {0, 3, -1, 0.25}, ds[] = {1, -2, 4, 3};
	const double bs[] = {0, 1, -3, 0.1, 16777217, -0.7, 2147483520.0 / 4, 1e-3};
	Mat<D, D, T1> l {}, u {};
	const auto n = D * (D - 1) / 2;
	unsigned li = mc::choose(D == 2 ? 4 : 16), rot = mc::choose(4);
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) {
		if(c < r) { l[r][c] = T1(ls[(D == 2 ? li : (li >> ((r + c) % 3)) ) % 4]); }
		if(c == r) { l[r][c] = T1(ds[(rot * r) % 4]); }
	}
	for(auto idx = 0u; idx < 4u * (1u << (2 * n)); ++idx) {
		auto x = idx / 4;
		for(auto r = 0u; r < D; ++r) {
			u[r][r] = T1(ds[(idx + r) % 4]);
			for(auto c = r + 1; c < D; ++c) { u[r][c] = T1(us[x % 4]); x /= 4; }
		}
		for(auto k = 0u; k < 8; ++k) {
			Vec<D, T2> b {};
			for(auto i = 0u; i < D; ++i) b[i] = T2(bs[(k + i * 3) % 8]);
			auto s = nytl::luEvaluate(l, u, b);
			static_assert(std::is_same_v<decltype(s), Vec<D, double>>);
			// residual
			for(auto r = 0u; r < D; ++r) {
				long double sum = 0, big = 1e-300L;
				for(auto i = 0u; i <= r; ++i) for(auto c = i; c < D; ++c) {
					auto t = (long double)(l[r][i]) * (long double)(u[i][c]) * (long double)(s[c]);
					sum += t;
					big = std::max(big, std::abs(t));
				}
				big = std::max(big, std::abs((long double)(b[r])));
				MC_CHECK(std::abs(sum - (long double)(b[r])) <= 1e-12L * big, "luEvaluate of triangular matrices, right side %.17g...: component %u is %.17g after the evaluation",
					double(b[0]), r, double(sum));
			}
			mc::eval();
		}
	}
	mc::step(32u * (1u << (2 * n)));
	mc::state(mc::comb(D * 1000 + li * 4 + rot, mc::hashStr(typeid(T1).name()) + 5 * mc::hashStr(typeid(T2).name())));
	mc::outcome(mc::comb(D, li));
}
template<typename T1> void triangularOf() {
	switch(mc::choose(8)) {
		case 0: triangular<2, T1, double>(); break;
		case 1: triangular<2, T1, float>(); break;
		case 2: triangular<2, T1, int>(); break;
		case 3: triangular<2, T1, long long>(); break;
		case 4: triangular<3, T1, double>(); break;
		case 5: triangular<3, T1, float>(); break;
		case 6: triangular<3, T1, int>(); break;
		case 7: triangular<3, T1, long long>(); break;
	}
}
} // namespace
MC_SCENARIO("types", "forward and back substitution for 2x2 and 3x3 triangular matrices of int, float and double and right sides of double, float, int and long long "
	"whose values the other type can not represent", 3) {
	switch(mc::choose(3)) {
		case 0: triangularOf<int>(); break;
		case 1: triangularOf<float>(); break;
		case 2: triangularOf<double>(); break;
	}
}
#endif
