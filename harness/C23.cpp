// C23: matrix arithmetic follows the rules of linear algebra, also if operands alias.
#include <complex> // before the headers under test: they use qualified names of functions
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include "matgen.hpp"

namespace {

template<std::size_t R, std::size_t C, typename T> using Mat = nytl::Mat<R, C, T>;
template<std::size_t D, typename T> using Vec = nytl::Vec<D, T>;

#define ALLM(expr, ROWS, COLS, ref) do { auto m_ = (expr); mc::eval(); \
	static_assert(m_.rows() == ROWS && m_.cols() == COLS); \
	using R_ = std::decay_t<decltype(m_[0][0])>; \
	for(std::size_t r = 0; r < ROWS; ++r) for(std::size_t c = 0; c < COLS; ++c) { auto e_ = (ref); \
		MC_CHECK((std::is_same_v<R_, std::decay_t<decltype(e_)>> && m_[r][c] == e_), "%s, %dx%d: entry (%d, %d) is %.17g instead of %.17g", #expr, \
			int(ROWS), int(COLS), int(r), int(c), double(m_[r][c]), double(e_)); } } while(0)

template<std::size_t R, std::size_t C, typename T1, typename T2> void sameSize(const Mat<R, C, T1>& a, const Mat<R, C, T2>& b) {
	const auto a0 = a;
	const auto b0 = b;
	ALLM(a + b, R, C, a0[r][c] + b0[r][c]);
	ALLM(a - b, R, C, a0[r][c] - b0[r][c]);
	{ auto m = a; auto* p = &(m += b); MC_CHECK(p == &m, "+= returns another object"); ALLM(m, R, C, static_cast<T1>(a0[r][c] + b0[r][c])); }
	{ auto m = a; auto* p = &(m -= b); MC_CHECK(p == &m, "-= returns another object"); ALLM(m, R, C, static_cast<T1>(a0[r][c] - b0[r][c])); }
	bool eq = true;
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) eq &= (a[r][c] == b[r][c]);
	MC_CHECK((a == b) == eq && (a != b) == !eq, "comparison");
	if constexpr(R == C) {
		auto prod = [&](auto r, auto c) { decltype(a0[0][0] * b0[0][0]) s {}; for(auto i = 0u; i < R; ++i) s += a0[r][i] * b0[i][c]; return s; };
		auto m = a;
		auto* p = &(m *= b);
		MC_CHECK(p == &m, "*= returns another object");
		ALLM(m, R, C, static_cast<T1>(prod(r, c)));
	}
	ALLM(a, R, C, a0[r][c]);
	ALLM(b, R, C, b0[r][c]);
}

template<std::size_t R, std::size_t M, std::size_t C, typename T1, typename T2> void product(const Mat<R, M, T1>& a, const Mat<M, C, T2>& b) {
	const auto a0 = a;
	const auto b0 = b;
	auto prod = [&](auto r, auto c) { decltype(a0[0][0] * b0[0][0]) s {}; for(auto i = 0u; i < M; ++i) s += a0[r][i] * b0[i][c]; return s; };
	ALLM(a * b, R, C, prod(r, c));
	for(auto c = 0u; c < C; ++c) {
		auto v = nytl::col(b, c);
		auto w = a * v;
		static_assert(w.size() == R);
		mc::eval();
		for(auto r = 0u; r < R; ++r) MC_CHECK(w[r] == prod(r, c), "matrix * vector: %.17g instead of %.17g", double(w[r]), double(prod(r, c)));
	}
	ALLM(a, R, M, a0[r][c]);
	ALLM(b, M, C, b0[r][c]);
}

template<std::size_t R, std::size_t C, typename T> void single(const Mat<R, C, T>& a, bool access) {
	const auto a0 = a;
	ALLM(-a, R, C, static_cast<T>(-a0[r][c]));
	ALLM(nytl::transpose(a), C, R, static_cast<T>(a0[c][r]));
	for(auto s = 0u; s < 8; ++s) {
		auto f = gen::exact<T>(s);
		ALLM(f * a, R, C, f * a0[r][c]);
		auto m = a;
		auto* p = &(m *= f);
		MC_CHECK(p == &m, "*= returns another object");
		ALLM(m, R, C, static_cast<T>(a0[r][c] * f));
	}
	// aliasing
	for(auto x = 0u; x < R; ++x) for(auto y = 0u; y < C; ++y) {
		{ auto m = a; m *= m[x][y]; ALLM(m, R, C, static_cast<T>(a0[r][c] * a0[x][y])); }
		{ auto m = a; auto q = m[x][y] * m; ALLM(q, R, C, a0[x][y] * a0[r][c]); }
		{ auto m = a; m[x][y] += T(1); MC_CHECK(m != a && !(m == a), "comparison"); }
		// the smallest possible difference
		if constexpr(std::is_floating_point_v<T>) for(auto to : {T(1e30), T(-1e30)}) {
			auto m = a;
			m[x][y] = std::nextafter(m[x][y], to);
			MC_CHECK(m != a && !(m == a), "comparison of matrices that differ in the last digit");
			if constexpr(R == C) if(x != y) {
				auto s = a;
				for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < i; ++j) s[i][j] = s[j][i];
				MC_CHECK(nytl::symmetric(s), "symmetric");
				s[x][y] = std::nextafter(s[x][y], to);
				MC_CHECK(!nytl::symmetric(s), "symmetric, but (%d, %d) differs in the last digit", int(x), int(y));
			}
		}
	}
	{ auto m = a; m += m; ALLM(m, R, C, static_cast<T>(a0[r][c] + a0[r][c])); }
	{ auto m = a; m -= m; ALLM(m, R, C, static_cast<T>(0)); }
	if constexpr(R == C) {
		auto prod = [&](auto r, auto c) { T s {}; for(auto i = 0u; i < R; ++i) s += a0[r][i] * a0[i][c]; return s; };
		{ auto m = a; m *= m; ALLM(m, R, C, prod(r, c)); }
		{ auto m = a; const auto& o = m; m *= o; ALLM(m, R, C, prod(r, c)); }
		{ auto m = a; m = m * m; ALLM(m, R, C, prod(r, c)); }
		T tr {}, di {1};
		bool sym = true;
		for(auto i = 0u; i < R; ++i) { tr += a[i][i]; di *= a[i][i]; for(auto j = 0u; j < R; ++j) sym &= (a[i][j] == a[j][i]); }
		MC_CHECK(nytl::trace(a) == tr, "trace is %.17g instead of %.17g", double(nytl::trace(a)), double(tr));
		MC_CHECK(nytl::symmetric(a) == sym, "symmetric");
		if(di < T(1e6) && di > T(-1e6)) MC_CHECK(gen::near<T>(nytl::multiplyDiagonal(a), static_cast<long double>(di)), "multiplyDiagonal is %.17g instead of %.17g", double(nytl::multiplyDiagonal(a)), static_cast<long double>(di));
		{ auto s = static_cast<Mat<R, C, T>>(a + nytl::transpose(a)); MC_CHECK(nytl::symmetric(s), "symmetric"); }
		{ auto m = a; nytl::identity(m); ALLM(m, R, C, static_cast<T>(r == c)); }
		auto id = nytl::identity<R, T>();
		ALLM(id, R, C, static_cast<T>(r == c));
		ALLM(a * id, R, C, static_cast<T>(a0[r][c]));
		ALLM(id * a, R, C, static_cast<T>(a0[r][c]));
	}
	{ auto m = a; nytl::one(m); ALLM(m, R, C, static_cast<T>(1)); }
	// rows and columns
	for(auto x = 0u; x < C; ++x) {
		auto v = nytl::col(a, x);
		static_assert(v.size() == R);
		for(auto r = 0u; r < R; ++r) MC_CHECK(v[r] == a0[r][x], "col");
		Vec<R, T> n {};
		for(auto r = 0u; r < R; ++r) n[r] = gen::exact<T>(r + 2);
		{ auto m = a; nytl::col(m, x, n); ALLM(m, R, C, static_cast<T>(c == x ? gen::exact<T>(r + 2) : a0[r][c])); }
		for(auto y = 0u; y < C; ++y) {
			{ auto m = a; nytl::swapCol(m, x, y); ALLM(m, R, C, static_cast<T>(a0[r][c == x ? y : c == y ? x : c])); }
			{ auto m = a; nytl::col(m, x, nytl::col(m, y)); ALLM(m, R, C, static_cast<T>(a0[r][c == x ? y : c])); }
		}
		if constexpr(R == C) for(auto y = 0u; y < R; ++y) {
			auto m = a; nytl::col(m, x, m[y]); ALLM(m, R, C, static_cast<T>(c == x ? a0[y][r] : a0[r][c])); }
	}
	for(auto x = 0u; x < R; ++x) {
		for(auto y = 0u; y < R; ++y) { auto m = a; nytl::swapRow(m, x, y); ALLM(m, R, C, static_cast<T>(a0[r == x ? y : r == y ? x : r][c])); }
	}
	ALLM(a, R, C, a0[r][c]);
	// checked access
	if(!access) return;
	auto m = a;
	const auto& cm = m;
	for(std::size_t x : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 1000u, ~0u}) {
		int thrown = 0;
		try { MC_CHECK(&m.at(x) == &m[x] && x < R, "at"); } catch(const std::out_of_range&) { ++thrown; }
		try { MC_CHECK(&cm.at(x) == &cm[x] && x < R, "at const"); } catch(const std::out_of_range&) { ++thrown; }
		MC_CHECK(thrown == (x < R ? 0 : 2), "at(%d) of a matrix with %d rows: thrown %d times", int(x), int(R), thrown);
		for(std::size_t y : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 1000u, ~0u}) {
			thrown = 0;
			mc::eval(2);
			bool in = x < R && y < C;
			try { MC_CHECK(&m.at(x, y) == &m[x][y] && in, "at"); } catch(const std::out_of_range&) { ++thrown; }
			try { MC_CHECK(&cm.at(x, y) == &cm[x][y] && in, "at const"); } catch(const std::out_of_range&) { ++thrown; }
			MC_CHECK(thrown == (in ? 0 : 2), "at(%d, %d) of a %dx%d matrix: thrown %d times", int(x), int(y), int(R), int(C), thrown);
		}
	}
	ALLM(a, R, C, a0[r][c]);
}

template<std::size_t R, std::size_t C, typename T> void singles() {
	gen::Mats<R, C, T> ms(mc::bound(100, 700, 300, 5000), mc::choose(8));
	for(auto i = 0u; i < ms.n; ++i) single<R, C, T>(ms.get(i), i < 2);
	mc::step(ms.n * 20);
	auto id = mc::comb(R * 1000 + C * 100 + ms.rot, mc::hashStr(typeid(T).name()));
	mc::state(id); mc::outcome(id);
}
template<std::size_t R, std::size_t C, typename T1, typename T2> void pairs() {
	auto rot = mc::choose(8);
	gen::Mats<R, C, T1> as(mc::bound(64, 500, 300, 3000), rot);
	gen::Mats<R, C, T2> bs(mc::bound(64, 500, 300, 3000), rot);
	for(auto i = 0u; i < as.n; ++i) { auto a = as.get(i); for(auto j = 0u; j < bs.n; ++j) sameSize<R, C, T1, T2>(a, bs.get(j)); }
	mc::step(as.n * bs.n * 7);
	auto id = mc::comb(mc::comb(R * 1000 + C * 100 + rot, mc::hashStr(typeid(T1).name())), mc::hashStr(typeid(T2).name()));
	mc::state(id); mc::outcome(id);
}
template<std::size_t R, std::size_t M, std::size_t C, typename T1, typename T2> void products() {
	auto rot = mc::choose(8);
	gen::Mats<R, M, T1> as(mc::bound(60, 300, 300, 2000), rot);
	gen::Mats<M, C, T2> bs(mc::bound(60, 300, 300, 2000), rot);
	for(auto i = 0u; i < as.n; ++i) { auto a = as.get(i); for(auto j = 0u; j < bs.n; ++j) product<R, M, C, T1, T2>(a, bs.get(j)); }
	mc::step(as.n * bs.n * (1 + C));
	auto id = mc::comb(mc::comb(R * 10000 + M * 1000 + C * 100 + rot, mc::hashStr(typeid(T1).name())), mc::hashStr(typeid(T2).name()));
	mc::state(id); mc::outcome(id);
}

template<typename T> void singleDims() {
	switch(mc::choose(11)) {
		case 0: singles<1, 1, T>(); break;
		case 1: singles<1, 3, T>(); break;
		case 2: singles<2, 1, T>(); break;
		case 3: singles<2, 2, T>(); break;
		case 4: singles<2, 3, T>(); break;
		case 5: singles<3, 2, T>(); break;
		case 6: singles<3, 3, T>(); break;
		case 7: singles<3, 4, T>(); break;
		case 8: singles<4, 3, T>(); break;
		case 9: singles<4, 4, T>(); break;
		case 10: singles<5, 5, T>(); break;
	}
}
template<typename T1, typename T2> void pairDims() {
	switch(mc::choose(7)) {
		case 0: pairs<1, 1, T1, T2>(); break;
		case 1: pairs<2, 2, T1, T2>(); break;
		case 2: pairs<2, 3, T1, T2>(); break;
		case 3: pairs<3, 2, T1, T2>(); break;
		case 4: pairs<3, 3, T1, T2>(); break;
		case 5: pairs<4, 4, T1, T2>(); break;
		case 6: pairs<4, 2, T1, T2>(); break;
	}
}
template<typename T1, typename T2> void productDims() {
	switch(mc::choose(9)) {
		case 0: products<1, 1, 1, T1, T2>(); break;
		case 1: products<2, 2, 2, T1, T2>(); break;
		case 2: products<1, 3, 1, T1, T2>(); break;
		case 3: products<3, 1, 2, T1, T2>(); break;
		case 4: products<2, 3, 4, T1, T2>(); break;
		case 5: products<3, 2, 3, T1, T2>(); break;
		case 6: products<3, 3, 3, T1, T2>(); break;
		case 7: products<4, 4, 4, T1, T2>(); break;
		case 8: products<4, 3, 2, T1, T2>(); break;
	}
}

} // namespace

#if MC_IN_PART(1)
MC_SCENARIO("single", "matrices of 11 sizes of int, float, double, long double: all over (rotated) alphabets or, for large sizes, all single-entry matrices "
	"and 56 patterns: scalar operations, aliasing, rows, columns, identity, transpose, trace, checked access", 3) {
	switch(mc::choose(4)) { case 3: singleDims<long double>(); break; case 0: singleDims<int>(); break; case 1: singleDims<double>(); break; case 2: singleDims<float>(); break; }
}
#endif
#if MC_IN_PART(3)
MC_SCENARIO("pairs", "all pairs of such matrices of 7 sizes and 16 pairs of types: sum, difference, comparison, assignment forms", 3) {
	using L = long long;
	using U = unsigned;
	switch(mc::choose(16)) {
		case 14: pairDims<long double, long double>(); break;
		case 15: pairDims<double, long double>(); break;
		case 0: pairDims<int, int>(); break;
		case 1: pairDims<double, double>(); break;
		case 2: pairDims<double, int>(); break;
		case 3: pairDims<double, float>(); break;
		case 4: pairDims<int, double>(); break;
		case 5: pairDims<float, double>(); break;
		case 6: pairDims<int, float>(); break;
		case 7: pairDims<float, int>(); break;
		case 8: pairDims<int, L>(); break;
		case 9: pairDims<L, int>(); break;
		case 10: pairDims<L, double>(); break;
		case 11: pairDims<U, U>(); break;
		case 12: pairDims<int, U>(); break;
		case 13: pairDims<U, int>(); break;
	}
}
#endif
#if MC_IN_PART(4)
MC_SCENARIO("products", "all pairs of such matrices of 9 combinations of sizes and 11 pairs of types: products with matrices and vectors", 3) {
	using L = long long;
	switch(mc::choose(11)) {
		case 9: productDims<long double, long double>(); break;
		case 10: productDims<double, long double>(); break;
		case 0: productDims<int, int>(); break;
		case 1: productDims<double, double>(); break;
		case 2: productDims<int, double>(); break;
		case 3: productDims<float, double>(); break;
		case 4: productDims<double, int>(); break;
		case 5: productDims<double, float>(); break;
		case 6: productDims<int, L>(); break;
		case 7: productDims<L, int>(); break;
		case 8: productDims<unsigned, unsigned>(); break;
	}
}
#endif

namespace {
template<typename T> void largeSingles() {
	switch(mc::choose(6)) {
		case 0: singles<1, 9, T>(); break;
		case 1: singles<9, 2, T>(); break;
		case 2: singles<6, 6, T>(); break;
		case 3: singles<8, 8, T>(); break;
		case 4: singles<5, 7, T>(); break;
		case 5: singles<4, 1, T>(); break;
	}
}
template<typename T1, typename T2> void largeOps() {
	switch(mc::choose(8)) {
		case 0: pairs<6, 6, T1, T2>(); break;
		case 1: pairs<1, 9, T1, T2>(); break;
		case 2: pairs<8, 3, T1, T2>(); break;
		case 3: products<5, 6, 7, T1, T2>(); break;
		case 4: products<1, 9, 1, T1, T2>(); break;
		case 5: products<6, 1, 5, T1, T2>(); break;
		case 6: products<8, 8, 8, T1, T2>(); break;
		case 7: products<2, 8, 1, T1, T2>(); break;
	}
}
}

#if MC_IN_PART(2)
MC_SCENARIO("large", "matrices of 6 further sizes up to 8x8 of int and double, pairs of 3 sizes and products of 5 combinations of sizes: single entries and patterns", 3) {
	switch(mc::choose(4)) { case 0: largeSingles<int>(); break; case 1: largeSingles<double>(); break; case 2: largeOps<int, int>(); break; case 3: largeOps<double, double>(); break; }
}
#endif

#include "cplxgen.hpp"
namespace {
template<std::size_t R, std::size_t C, typename T> Mat<R, C, T> cmat(unsigned idx) {
	Mat<R, C, T> m {};
	if(idx < R * C * 2) m[idx / 2 / C][idx / 2 % C] = cgen::value<T>(idx % 2 ? 2 : 3);
	else for(auto i = 0u; i < R * C; ++i) m[i / C][i % C] = cgen::value<T>(i * (idx / 8 + 1) + idx % 8 + i * i / 3);
	return m;
}
template<std::size_t R, std::size_t C, std::size_t N, typename T> void complexMats() {
	using S = typename T::value_type;
	auto x = mc::choose(R * C * 2 + 40), y = mc::choose(R * C * 2 + 24);
	auto a = cmat<R, C, T>(x), b = cmat<R, C, T>(y);
	auto o = cmat<C, N, T>(y % (C * N * 2 + 24));
	const auto a0 = a, b0 = b;
	const auto o0 = o;
	const T f = cgen::value<T>(y);
	CALLM(a + b, R, C, a0[r][c] + b0[r][c]);
	CALLM(a - b, R, C, a0[r][c] - b0[r][c]);
	CALLM(-a, R, C, -a0[r][c]);
	CALLM(f * a, R, C, f * a0[r][c]);
	CALLM(S(2) * a, R, C, S(2) * a0[r][c]);
	{ auto m = a; m += b; CALLM(m, R, C, a0[r][c] + b0[r][c]); }
	{ auto m = a; m -= b; CALLM(m, R, C, a0[r][c] - b0[r][c]); }
	{ auto m = a; m *= f; CALLM(m, R, C, f * a0[r][c]); }
	auto prod = [&](auto r, auto c) { T s {}; for(auto i = 0u; i < C; ++i) s += a0[r][i] * o0[i][c]; return s; };
	CALLM(a * o, R, N, prod(r, c));
	for(auto c = 0u; c < N; ++c) {
		auto v = a * nytl::col(o, c);
		for(auto r = 0u; r < R; ++r) MC_CHECK(cgen::near(T(v[r]), prod(r, c)), "complex matrix * vector");
	}
	CALLM(nytl::transpose(a), C, R, a0[c][r]);
	bool eq = true;
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) eq &= a0[r][c] == b0[r][c];
	MC_CHECK((a == b) == eq && (a != b) == !eq, "comparison of complex matrices");
	if constexpr(R == C) {
		{ auto m = a; m *= m; T s; CALLM(m, R, C, ([&]{ s = T {}; for(auto i = 0u; i < R; ++i) s += a0[r][i] * a0[i][c]; return s; }())); }
		T tr {}, di {1};
		bool sym = true;
		for(auto i = 0u; i < R; ++i) { tr += a0[i][i]; di *= a0[i][i]; for(auto j = 0u; j < R; ++j) sym &= a0[i][j] == a0[j][i]; }
		MC_CHECK(cgen::near(T(nytl::trace(a)), tr), "trace of a complex matrix");
		MC_CHECK(cgen::near(T(nytl::multiplyDiagonal(a)), di), "multiplyDiagonal of a complex matrix");
		MC_CHECK(nytl::symmetric(a) == sym, "symmetric for a complex matrix");
		MC_CHECK(nytl::symmetric(a + nytl::transpose(a)), "symmetric for a complex matrix");
		auto id = nytl::identity<R, T>();
		CALLM(id, R, C, T(S(r == c)));
		CALLM(a * id, R, C, a0[r][c]);
	}
	{ auto m = a; nytl::one(m); CALLM(m, R, C, T(S(1))); }
	CALLM(a, R, C, a0[r][c]);
	mc::step(20);
	auto id = mc::comb(mc::comb(x, y), mc::comb(R * 8 + C, sizeof(T)));
	mc::state(id);
	mc::outcome(id);
}
} // namespace
#if MC_IN_PART(1)
MC_SCENARIO("complex", "complex matrices (1x1, 2x2, 3x3, 4x4, 2x3, 3x2, 1x4; float and double): single entries and patterns of 8 values, all pairs: arithmetic, products, transposition, trace, identity, comparison", 2) {
	using D = std::complex<double>;
	using F = std::complex<float>;
	switch(mc::choose(8)) {
		case 0: complexMats<1, 1, 2, D>(); break;
		case 1: complexMats<2, 2, 3, D>(); break;
		case 2: complexMats<3, 3, 1, D>(); break;
		case 3: complexMats<4, 4, 2, D>(); break;
		case 4: complexMats<2, 3, 4, D>(); break;
		case 5: complexMats<3, 2, 3, F>(); break;
		case 6: complexMats<1, 4, 1, F>(); break;
		case 7: complexMats<2, 2, 2, F>(); break;
	}
}
#endif
