// C24: row echelon forms.
#include <complex> // before the headers under test: they use qualified names of functions
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include "mc.hpp"
#include "linref.hpp"
#include <cmath>

namespace {

template<std::size_t R, std::size_t C, typename T> using Mat = nytl::Mat<R, C, T>;

template<std::size_t R, std::size_t C, typename T> std::string str(const Mat<R, C, T>& m) {
	std::string s = "{";
	for(auto r = 0u; r < R; ++r) { s += r ? "; " : ""; for(auto c = 0u; c < C; ++c) { char b[40]; std::snprintf(b, sizeof(b), "%s%.17g", c ? " " : "", double(m[r][c])); s += b; } }
	return s + "}";
}

#define CHK(cond, fmt, ...) MC_CHECK(cond, "%s: " fmt, str<R, C, T>(a).c_str(), ##__VA_ARGS__)

// Is e a row echelon form (reduced: the one) of the matrix a with the given reference?
template<std::size_t R, std::size_t C, typename T, typename E>
void form(const char* name, const Mat<R, C, T>& a, const Mat<R, C, E>& e, const linref::Rref& ref, bool reduced) {
	double scale = 1;
	for(auto& row : ref.m) for(auto& x : row) scale = std::max(scale, std::abs(x.val()));
	double eps = (sizeof(E) == 4 ? 2e-4 : 1e-9) * scale * scale;
	for(auto r = 0u; r < R; ++r) {
		auto lead = r < ref.rank ? ref.pivots[r] : C;
		for(auto c = 0u; c < lead; ++c) CHK(std::abs(e[r][c]) <= eps, "%s: %s: (%u, %u) is not zero", name, str<R, C, E>(e).c_str(), r, c);
		if(lead < C) CHK(std::abs(e[r][lead] - 1) <= eps, "%s: %s: row %u does not have a leading one", name, str<R, C, E>(e).c_str(), r);
		if(reduced) for(auto c = 0u; c < C; ++c)
			CHK(std::abs(e[r][c] - ref.m[r][c].val()) <= eps, "%s: %s: (%u, %u) should be %g", name, str<R, C, E>(e).c_str(), r, c, ref.m[r][c].val());
	}
	if(reduced) return;
	// same row space: finishing the reduction yields the reference. Every row r of the echelon form
	// must be the combination of the reference rows given by its pivot columns.
	for(auto r = 0u; r < ref.rank; ++r) for(auto c = 0u; c < C; ++c) {
		double s = 0, big = 1;
		for(auto k = 0u; k < ref.rank; ++k) { s += e[r][ref.pivots[k]] * ref.m[k][c].val(); big = std::max(big, std::abs(double(e[r][ref.pivots[k]]))); }
		CHK(std::abs(s - e[r][c]) <= eps * big, "%s: %s: row %u is not a combination of the rows of the matrix", name, str<R, C, E>(e).c_str(), r);
	}
}

template<std::size_t R, std::size_t C, typename T> void one(const Mat<R, C, T>& b, double f, double g) {
	linref::M m(R, linref::Row(C));
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) m[r][c] = linref::I(b[r][c]);
	auto ref = linref::rref(m);
	if(!ref.exact) return;
	auto a = b;
	if constexpr(std::is_floating_point_v<T>) {
		for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) a[r][c] *= T(r + 1 == R ? f * g : f);
	}
	mc::eval(4);
	const auto a0 = a;
	auto e = nytl::rowEcholonCopy(a);
	auto d = nytl::reducedRowEcholonCopy(a);
	CHK((std::is_same_v<decltype(e), Mat<R, C, double>> && std::is_same_v<decltype(d), Mat<R, C, double>>), "type of the copy");
	CHK(a == a0, "operand was changed");
	form("rowEcholonCopy", a, e, ref, false);
	form("reducedRowEcholonCopy", a, d, ref, true);
	if constexpr(std::is_floating_point_v<T>) {
		auto x = a, y = a;
		nytl::rowEcholon(x);
		nytl::reducedRowEcholon(y);
		form("rowEcholon", a, x, ref, false);
		form("reducedRowEcholon", a, y, ref, true);
	}
	mc::u64 h = ref.rank;
	for(auto p : ref.pivots) h = mc::comb(h, p);
	mc::outcome(mc::comb(h, R * 8 + C));
}

template<std::size_t R, std::size_t C, typename T> void all(const std::vector<int>& vals, double f = 1, double g = 1) {
	auto n = vals.size();
	Mat<R, C, T> a {};
	mc::u64 h = R * 16 + C;
	for(auto c = 0u; c < C; ++c) { auto v = mc::choose(n); a[0][c] = T(vals[v]); h = mc::comb(h, v); }
	unsigned rest = R * C - C, count = 1;
	for(auto i = 0u; i < rest; ++i) count *= n;
	for(auto idx = 0u; idx < count; ++idx) {
		auto x = idx;
		for(auto i = 0u; i < rest; ++i) { a[1 + i / C][i % C] = T(vals[x % n]); x /= n; }
		one<R, C, T>(a, f, g);
	}
	mc::step(count * 4);
	mc::state(mc::comb(h, mc::hashStr(typeid(T).name()) + n + mc::hashBytes(&f, 8, 3) + mc::hashBytes(&g, 8)));
}

template<std::size_t R, std::size_t C> void types(const std::vector<int>& vals) {
	switch(mc::choose(3)) {
		case 0: all<R, C, int>(vals); break;
		case 1: all<R, C, double>(vals); break;
		case 2: all<R, C, float>(vals); break;
	}
}

std::vector<int> vals(std::vector<int> v, unsigned san, unsigned fast, unsigned dsan, unsigned dfast) {
	v.resize(mc::bound(san, fast, dsan, dfast));
	return v;
}

} // namespace

MC_SCENARIO("small", "all 1x1, 1x3, 3x1, 2x2, 2x3 and 3x2 matrices over 5 to 9 of {0, 1, -2, 3, 4, -1, 2, 8, 5} as int, float and double", 3) {
	auto v = vals({0, 1, -2, 3, 4, -1, 2, 8, 5}, 4, 6, 6, 9);
	auto w = vals({0, 1, -2, 3, 4, -1, 2, 8, 5}, 3, 5, 5, 7);
	switch(mc::choose(6)) {
		case 0: types<1, 1>(v); break;
		case 1: types<1, 3>(v); break;
		case 2: types<3, 1>(v); break;
		case 3: types<2, 2>(v); break;
		case 4: types<2, 3>(w); break;
		case 5: types<3, 2>(w); break;
	}
}

MC_SCENARIO("square", "all 3x3 matrices over {0, 1, -2} (without sanitizers: {0, 1, -2, 4}) as int, float and double, 4x4 over {0, 1} and {0, 2} as double", 3) {
	auto v = vals({0, 1, -2, 4, 3}, 3, 4, 4, 5);
	switch(mc::choose(3)) {
		case 0: types<3, 3>(v); break;
		case 1: all<4, 4, double>({0, 1}); break;
		case 2: all<4, 4, double>({-2, 1}); break;
	}
}

MC_SCENARIO("rectangular", "all 3x4, 4x3 and 2x5 matrices over {0, 1} and {0, -2}, 2x4 and 4x2 over {0, 1, -2, 4}, as double", 2) {
	auto v = vals({0, 1, -2, 4, 3}, 3, 4, 4, 5);
	switch(mc::choose(8)) {
		case 0: all<3, 4, double>({0, 1}); break;
		case 1: all<4, 3, double>({0, 1}); break;
		case 2: all<2, 5, double>({0, 1}); break;
		case 3: all<3, 4, double>({0, -2}); break;
		case 4: all<4, 3, double>({0, -2}); break;
		case 5: all<2, 4, double>(v); break;
		case 6: all<4, 2, double>(v); break;
		case 7: all<2, 5, double>({1, -2}); break;
	}
}

MC_SCENARIO("scaled", "all 2x2 and 2x3 matrices over {0, 1, -2, 3} and 3x3 over {0, 1, -2} as double, scaled by powers of two between 2^-150 and 2^150, "
	"also with a differently scaled last row", 3) {
	const double fs[] = {1.0, std::ldexp(1, -40), std::ldexp(1, -20), std::ldexp(1, 20), std::ldexp(1, -150), std::ldexp(1, 40), std::ldexp(1, 150)};
	auto f = fs[mc::choose(7)], g = fs[mc::choose(5)];
	switch(mc::choose(3)) {
		case 0: all<2, 2, double>({0, 1, -2, 3}, f, g); break;
		case 1: all<2, 3, double>({0, 1, -2, 3}, f, g); break;
		case 2: all<3, 3, double>({0, 1, -2}, f, g); break;
	}
}

namespace {
template<std::size_t R, std::size_t C, typename T> void pivots() {
	const int vals[] = {0, 1, -2, 2, 3, -3};
	Mat<R, C, T> a {};
	unsigned cc = mc::choose(C);
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) a[r][c] = T(c == cc ? vals[mc::choose(6)] : 10 * r + c);
	const auto a0 = a;
	mc::eval(R * 2);
	for(auto row = 0u; row < R; ++row) for(auto only = 0; only < 3; ++only) {
		auto b = a0;
		auto ret = only == 2 ? nytl::pivot(b, row, cc) : nytl::pivot(b, row, cc, only == 1);
		CHK(ret == b[row][cc], "pivot(%u, %u): returned %g", row, cc, double(ret));
		// rows that may be chosen
		double max = std::abs(a0[row][cc]);
		for(auto r = only == 1 ? row + 1 : 0u; r < R; ++r) max = std::max(max, double(std::abs(a0[r][cc])));
		CHK(std::abs(b[row][cc]) == max, "pivot(%u, %u, %d): %g was chosen", row, cc, only, double(b[row][cc]));
		// at most one swap of two rows
		unsigned from = row;
		for(auto r = 0u; r < R; ++r) if(b[row] == a0[r]) from = r;
		CHK(only != 1 || from >= row, "pivot(%u, %u, %d): chose row %u", row, cc, only, from);
		auto e = a0;
		std::swap(e[row], e[from]);
		CHK(e == b, "pivot(%u, %u, %d): result is %s", row, cc, only, (str<R, C, T>(b).c_str()));
	}
	mc::step(R * 2);
	mc::u64 h = R * 8 + C;
	for(auto r = 0u; r < R; ++r) { double d = a[r][cc]; h = mc::comb(h, mc::hashBytes(&d, 8)); }
	mc::state(mc::comb(h, cc + 7 * mc::hashStr(typeid(T).name())));
	mc::outcome(h);
}
} // namespace

MC_SCENARIO("pivot", "pivoting at every position of matrices with up to 4 rows, the column over {0, 1, -2, 2, 3, -3}", 3) {
	switch(mc::choose(6)) {
		case 0: pivots<1, 2, double>(); break;
		case 1: pivots<2, 2, double>(); break;
		case 2: pivots<3, 2, int>(); break;
		case 3: pivots<4, 3, double>(); break;
		case 4: pivots<3, 4, float>(); break;
		case 5: pivots<2, 1, int>(); break;
	}
}

namespace {
// lower * echelon form with the given pivot columns, two rows exchanged
template<std::size_t R, std::size_t C, typename T> void larges() {
	auto set = mc::choose(1u << C);
	auto k = mc::choose(4);
	if(__builtin_popcount(set) > int(R)) return;
	Mat<R, C, int> e {}, b {};
	const int lead[] = {1, -1, 2, 1};
	unsigned rank = 0;
	for(auto c = 0u; c < C; ++c) {
		if(!(set & (1u << c))) continue;
		e[rank][c] = lead[(rank + k) % 4];
		for(auto j = c + 1; j < C; ++j) e[rank][j] = int((rank * 3 + j * 5 + k * 7) % 5) - 2;
		++rank;
	}
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) for(auto i = 0u; i <= r && i < rank; ++i)
		b[r][c] += (i == r ? 1 : int((r * 2 + i + k) % 3) - 1) * e[i][c];
	unsigned n = 0;
	for(auto i = 0u; i < R; ++i) for(auto j = i ? i + 1 : 0u; j < R; ++j) {
		Mat<R, C, T> a {};
		for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) a[r][c] = T(b[r == i ? j : r == j ? i : r][c]);
		one<R, C, T>(a, 1, 1);
		++n;
	}
	mc::step(n * 4);
	mc::state(mc::comb(R * 16 + C, mc::comb(set * 4 + k, mc::hashStr(typeid(T).name()))));
}
} // namespace

MC_SCENARIO("large", "6x6, 4x7, 7x4, 5x8 and 8x6 matrices for every set of pivot columns (products of a lower triangular matrix and an echelon form, 4 patterns), all exchanges of two rows", 2) {
	switch(mc::choose(6)) {
		case 0: larges<6, 6, double>(); break;
		case 1: larges<4, 7, double>(); break;
		case 2: larges<7, 4, double>(); break;
		case 3: larges<5, 8, double>(); break;
		case 4: larges<8, 6, double>(); break;
		case 5: larges<6, 6, int>(); break;
	}
}

// - complex numbers -
namespace {
struct CRat { // exact Gaussian rationals
	linref::Rat re, im;
	bool zero() const { return re.zero() && im.zero(); }
	friend CRat operator-(CRat a, CRat b) { return {a.re - b.re, a.im - b.im}; }
	friend CRat operator*(CRat a, CRat b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
	friend CRat operator/(CRat a, CRat b) {
		auto n = b.re * b.re + b.im * b.im;
		auto c = a * CRat {b.re, linref::Rat(0) - b.im};
		return {c.re / n, c.im / n};
	}
	linref::Rat norm() const { return re * re + im * im; }
	bool dyadic() const { return re.dyadic() && im.dyadic(); }
	std::complex<double> val() const { return {re.val(), im.val()}; }
};

// reduced row echelon form; whether the zeros are found in floating point arithmetic as well
inline bool crref(std::vector<std::vector<CRat>>& m, std::vector<unsigned>& pivots) {
	bool dyadic = true, exact = true;
	unsigned R = m.size(), C = m[0].size(), r = 0;
	for(auto c = 0u; c < C && r < R; ++c) {
		int p = -1;
		for(auto i = r; i < R; ++i) {
			if(m[i][c].zero()) { if(!dyadic) exact = false; continue; }
			if(p < 0 || m[p][c].norm() < m[i][c].norm()) p = i;
		}
		if(p < 0) continue;
		std::swap(m[p], m[r]);
		auto f = m[r][c];
		// only pivots that are divided by exactly
		if(!(f.norm() == linref::Rat(1) || (f.im.zero() && (linref::Rat(1) / f.re).dyadic()))) dyadic = false;
		for(auto i = 0u; i < C; ++i) m[r][i] = m[r][i] / f;
		for(auto i = 0u; i < R; ++i) {
			if(i == r) continue;
			auto g = m[i][c];
			if(!g.zero()) for(auto j = 0u; j < C; ++j) m[i][j] = m[i][j] - g * m[r][j];
		}
		pivots.push_back(c);
		++r;
	}
	return exact;
}

template<std::size_t R, std::size_t C> void complexRef(unsigned values) {
	using T = std::complex<double>;
	const int re[] = {0, 1, 0, -2, 1, 2};
	const int im[] = {0, 0, 1, 0, -1, 1};
	auto first = mc::choose(values), second = mc::choose(values);
	unsigned count = 1;
	for(auto i = 2u; i < R * C; ++i) count *= values;
	mc::u64 out = 0;
	for(auto idx = 0u; idx < count; ++idx) {
		auto x = idx;
		Mat<R, C, T> a {};
		std::vector<std::vector<CRat>> m(R, std::vector<CRat>(C));
		for(auto i = 0u; i < R * C; ++i) {
			auto v = i == 0 ? first : i == 1 ? second : x % values;
			if(i > 1) x /= values;
			a[i / C][i % C] = T(re[v], im[v]);
			m[i / C][i % C] = CRat {linref::Rat(linref::I(re[v])), linref::Rat(linref::I(im[v]))};
		}
		std::vector<unsigned> pivots;
		if(!crref(m, pivots)) continue;
		mc::eval(2);
		auto e = a, d = a;
		nytl::rowEcholon(e);
		nytl::reducedRowEcholon(d);
		for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) {
			MC_CHECK(std::abs(d[r][c] - m[r][c].val()) < 1e-9, "matrix %u of %dx%d: entry (%u, %u) of the reduced form is (%g, %g) instead of (%g, %g)", idx, int(R), int(C), r, c,
				d[r][c].real(), d[r][c].imag(), m[r][c].val().real(), m[r][c].val().imag());
			auto lead = r < pivots.size() ? pivots[r] : C;
			if(c < lead) MC_CHECK(std::abs(e[r][c]) < 1e-9, "matrix %u of %dx%d: entry (%u, %u) of the echelon form is not zero", idx, int(R), int(C), r, c);
			if(c == lead) MC_CHECK(std::abs(e[r][c] - 1.0) < 1e-9, "matrix %u of %dx%d: row %u has no leading one", idx, int(R), int(C), r);
			// same row space
			T s {};
			for(auto k = 0u; k < pivots.size(); ++k) s += e[r][pivots[k]] * m[k][c].val();
			MC_CHECK(std::abs(s - e[r][c]) < 1e-8, "matrix %u of %dx%d: row %u of the echelon form is not a combination of the rows", idx, int(R), int(C), r);
		}
		out = mc::comb(out, pivots.size());
	}
	mc::step(count * 2);
	mc::state(mc::comb(R * 8 + C, first * 10 + second));
	mc::outcome(mc::comb(R * 8 + C, out));
}
} // namespace

MC_SCENARIO("complex", "1x2, 2x1, 2x2, 2x3, 3x2 and 3x3 complex matrices over {0, 1, i, -2, 1-i, 2+i} (the first 4, 3 or 2 of them for the bigger ones) in place", 2) {
	switch(mc::choose(6)) {
		case 0: complexRef<1, 2>(6); break;
		case 1: complexRef<2, 1>(6); break;
		case 2: complexRef<2, 2>(6); break;
		case 3: complexRef<2, 3>(mc::bound(4, 5, 5, 6)); break;
		case 4: complexRef<3, 2>(mc::bound(4, 5, 5, 6)); break;
		case 5: complexRef<3, 3>(3); break;
	}
}
