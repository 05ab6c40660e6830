// C38: conversions between dimensions and element types.
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include "mc.hpp"
#include <cstdint>
#include <limits>
#include <utility>

namespace {

// The values a component may have: all can be converted to every type used here
template<typename T> T val(unsigned i) {
	const double v[] = {1, 7, 2.75, 120, 0.5, 3, 64.25};
	return static_cast<T>(v[i % 7]);
}
template<typename T> T sval(unsigned i) { // signed
	const double v[] = {1, -7, 2.75, -120, -0.5, 1000, -64.25};
	return static_cast<T>(v[i % 7]);
}
template<typename T, typename OT> T any(unsigned i) {
	// values that need the precision of the type, where both types can represent their magnitude
	if(i % 7 == 6 && sizeof(T) >= 4 && sizeof(OT) >= 4) return static_cast<T>(16777217);
	if constexpr(sizeof(T) == 8 && sizeof(OT) == 8) if(i % 7 == 5) return static_cast<T>(9007199254740993LL);
	if constexpr(sizeof(T) == 8 && std::is_floating_point_v<T> && std::is_floating_point_v<OT>) if(i % 7 == 3) return static_cast<T>(0.1);
	if constexpr(std::is_unsigned_v<T> || std::is_unsigned_v<OT> || sizeof(OT) == 1) return val<T>(i);
	else return sval<T>(i);
}

[[gnu::noinline]] void expect(const char* what, unsigned a, unsigned b, unsigned c, unsigned d, unsigned i, unsigned j, long double got, long double e) {
	if(got != e) mc::fail("%s %u %u -> %u %u: component %u %u is %.20Lg instead of %.20Lg", what, a, b, c, d, i, j, got, e);
}
[[gnu::noinline]] void unchanged(bool b) { if(!b) mc::fail("source was changed"); }

template<std::size_t D, typename T, std::size_t OD, typename OT> void vec(unsigned seed) {
	nytl::Vec<D, T> v {};
	for(auto i = 0u; i < D; ++i) { v[i] = any<T, OT>(seed % 7); seed /= 7; }
	const auto o = v;
	auto r = static_cast<nytl::Vec<OD, OT>>(v);
	auto s = nytl::Vec<OD, OT>(o);
	for(auto i = 0u; i < OD; ++i) {
		auto e = i < D ? static_cast<OT>(o[i]) : OT {};
		expect("Vec", D, 1, OD, 1, i, 0, (long double)(r[i]), (long double)(e));
		expect("Vec", D, 1, OD, 1, i, 1, (long double)(s[i]), (long double)(e));
	}
	for(auto i = 0u; i < D; ++i) unchanged(v[i] == o[i]);
	mc::eval(1);
}

template<std::size_t D, typename T, typename OT, std::size_t... OD> void vecTo(unsigned seed, std::index_sequence<OD...>) {
	(vec<D, T, OD + 1, OT>(seed), ...);
	(vec<D, OT, OD + 1, T>(seed), ...);
}
template<std::size_t D, typename T, typename OT> void vecs() {
	unsigned n = 1;
	for(auto i = 0u; i < D; ++i) n *= 7;
	const unsigned step = D < 5 ? 1 : 11;
	for(auto i = 0u; i < n; i += step) vecTo<D, T, OT>(i, std::make_index_sequence<5>());
	mc::step(n / step * 10);
	mc::state(mc::comb(mc::hashStr(typeid(T).name()), mc::hashStr(typeid(OT).name()) + D));
	mc::outcome(D);
}
template<typename T, typename OT> void vecsOf() {
	switch(mc::choose(5)) {
		case 0: vecs<1, T, OT>(); break;
		case 1: vecs<2, T, OT>(); break;
		case 2: vecs<3, T, OT>(); break;
		case 3: vecs<4, T, OT>(); break;
		case 4: vecs<5, T, OT>(); break;
	}
}

template<std::size_t R, std::size_t C, std::size_t OR, std::size_t OC, typename T, typename OT> void mat() {
	for(auto k = 0u; k < 14; ++k) {
		nytl::Mat<R, C, T> m {};
		for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) m[r][c] = T(any<T, OT>(r * 3 + c * 5 + k + r * c) + T((k / 7) * (r * 4 + c)));
		const auto o = m;
		auto x = static_cast<nytl::Mat<OR, OC, OT>>(m);
		for(auto r = 0u; r < OR; ++r) for(auto c = 0u; c < OC; ++c) {
			auto e = r < R && c < C ? static_cast<OT>(o[r][c]) : OT {};
			expect("Mat", R, C, OR, OC, r, c, (long double)(x[r][c]), (long double)(e));
		}
		unchanged(m == o);
	}
	mc::eval(14);
}
template<std::size_t R, std::size_t C, typename T, typename OT, std::size_t... I> void matTo(std::index_sequence<I...>) {
	(mat<R, C, I / 3 + 1, I % 3 + 1, T, OT>(), ...);
}
template<typename T, typename OT> void mats4() {
	mat<4, 4, 4, 4, T, OT>(); mat<4, 4, 3, 3, T, OT>(); mat<3, 3, 4, 4, T, OT>(); mat<2, 2, 4, 4, T, OT>();
	mat<4, 2, 2, 4, T, OT>(); mat<1, 4, 4, 1, T, OT>(); mat<5, 3, 3, 5, T, OT>(); mat<4, 1, 1, 5, T, OT>();
	mc::step(14 * 8);
	mc::state(mc::comb(999, mc::hashStr(typeid(T).name()) + 3 * mc::hashStr(typeid(OT).name())));
	mc::outcome(999);
}
template<typename T, typename OT, std::size_t... I> void mats(std::index_sequence<I...>) {
	auto k = mc::choose(9);
	((k == I ? matTo<I / 3 + 1, I % 3 + 1, T, OT>(std::make_index_sequence<9>()) : void()), ...);
	mc::step(14 * 9);
	mc::state(mc::comb(k, mc::hashStr(typeid(T).name()) + 3 * mc::hashStr(typeid(OT).name())));
	mc::outcome(k);
}

template<std::size_t D, std::size_t OD, typename T, typename OT> void rect() {
	for(auto k = 0u; k < 49; ++k) {
		nytl::Rect<D, T> a {};
		for(auto i = 0u; i < D; ++i) { a.position[i] = any<T, OT>(k + i * 2); a.size[i] = any<T, OT>(k / 7 + i * 3 + 1); }
		auto r = static_cast<nytl::Rect<OD, OT>>(a);
		for(auto i = 0u; i < OD; ++i) {
			auto p = i < D ? static_cast<OT>(a.position[i]) : OT {}, s = i < D ? static_cast<OT>(a.size[i]) : OT {};
			expect("Rect", D, 1, OD, 1, i, 0, (long double)(r.position[i]), (long double)(p));
			expect("Rect", D, 1, OD, 1, i, 1, (long double)(r.size[i]), (long double)(s));
		}
	}
	mc::eval(49);
}
template<typename T, typename OT, std::size_t... I> void rects(std::index_sequence<I...>) {
	auto k = mc::choose(16);
	((k == I ? rect<I / 4 + 1, I % 4 + 1, T, OT>() : void()), ...);
	mc::step(49);
	mc::state(mc::comb(k + 100, mc::hashStr(typeid(T).name()) + 3 * mc::hashStr(typeid(OT).name())));
	mc::outcome(k + 100);
}

template<std::size_t D, std::size_t OD, std::size_t A, typename T, typename OT> void simplex() {
	if constexpr(D >= A && OD >= A) {
		for(auto k = 0u; k < 28; ++k) {
			nytl::Simplex<D, T, A> a {};
			static_assert(nytl::Simplex<D, T, A>::pointCount == A + 1);
			for(auto p = 0u; p < A + 1; ++p) for(auto i = 0u; i < D; ++i) a.points()[p][i] = T(any<T, OT>(k + p * 2 + i) + T(p + (k / 7) * i));
			const auto& ca = a;
			auto r = static_cast<nytl::Simplex<OD, OT, A>>(a);
			for(auto p = 0u; p < A + 1; ++p) {
				unchanged(&ca.points()[p] == &a.points_[p] && &a.points()[p] == &a.points_[p]);
				for(auto i = 0u; i < OD; ++i) {
					auto e = i < D ? static_cast<OT>(ca.points()[p][i]) : OT {};
					expect("Simplex", D, A, OD, A, p, i, (long double)(r.points_[p][i]), (long double)(e));
				}
			}
		}
		mc::eval(28);
	}
}
template<std::size_t A, typename T, typename OT, std::size_t... I> void simplices(std::index_sequence<I...>) {
	auto k = mc::choose(16);
	((k == I ? simplex<I / 4 + 1, I % 4 + 1, A, T, OT>() : void()), ...);
	mc::step(28);
	mc::state(mc::comb(k + 200 + A * 1000, mc::hashStr(typeid(T).name()) + 3 * mc::hashStr(typeid(OT).name())));
	mc::outcome(k + 200 + A * 1000);
}

} // namespace

#if MC_IN_PART(1)
MC_SCENARIO("vec", "all vectors over 7 values per component (5D: every 11th), between all dimensions from 1 to 5 and 18 pairs of types", 2) {
	using L = long long;
	using U = unsigned long long;
	switch(mc::choose(9)) {
		case 4: vecsOf<L, int>(); break;
		case 5: vecsOf<L, U>(); break;
		case 6: vecsOf<L, double>(); break;
		case 7: vecsOf<double, double>(); break;
		case 8: vecsOf<short, unsigned char>(); break;
		case 0: vecsOf<int, double>(); break;
		case 1: vecsOf<float, double>(); break;
		case 2: vecsOf<int, unsigned>(); break;
		case 3: vecsOf<unsigned char, float>(); break;
	}
}
#endif
#if MC_IN_PART(2)
MC_SCENARIO("mat", "14 matrices of each size up to 3x3 to each size up to 3x3, and of 8 larger pairs of sizes, 3 to 7 pairs of types", 2) {
	switch(mc::choose(10)) {
		case 7: mats4<long long, long long>(); break;
		case 8: mats4<long long, int>(); break;
		case 9: mats<int, long long>(std::make_index_sequence<9>()); break;
		case 0: mats<int, double>(std::make_index_sequence<9>()); break;
		case 1: mats<double, int>(std::make_index_sequence<9>()); break;
		case 2: mats4<float, double>(); break;
		case 3: mats4<double, double>(); break;
		case 4: mats4<int, float>(); break;
		case 5: mats4<int, double>(); break;
		case 6: mats4<double, int>(); break;
	}
}
MC_SCENARIO("rect", "49 rects of each dimension up to 4 to each dimension up to 4, 5 pairs of types", 2) {
	switch(mc::choose(5)) {
		case 3: rects<long long, long long>(std::make_index_sequence<16>()); break;
		case 4: rects<float, double>(std::make_index_sequence<16>()); break;
		case 0: rects<int, double>(std::make_index_sequence<16>()); break;
		case 1: rects<double, int>(std::make_index_sequence<16>()); break;
		case 2: rects<unsigned, float>(std::make_index_sequence<16>()); break;
	}
}
MC_SCENARIO("simplex", "28 points, lines, triangles and tetrahedrons of each space up to 4D to each such space, 5 pairs of types", 2) {
	switch(mc::choose(8)) {
		case 4: simplices<2, long long, long long>(std::make_index_sequence<16>()); break;
		case 5: simplices<1, float, double>(std::make_index_sequence<16>()); break;
		case 6: simplices<1, int, double>(std::make_index_sequence<16>()); break;
		case 7: simplices<3, double, double>(std::make_index_sequence<16>()); break;
		case 0: simplices<0, int, double>(std::make_index_sequence<16>()); break;
		case 1: simplices<1, double, int>(std::make_index_sequence<16>()); break;
		case 2: simplices<2, int, double>(std::make_index_sequence<16>()); break;
		case 3: simplices<3, double, int>(std::make_index_sequence<16>()); break;
	}
}
#endif

#if MC_IN_PART(3)
namespace {
template<std::size_t D, typename T, std::size_t OD, typename OT> void wide(unsigned rot, unsigned odd) {
	nytl::Vec<D, T> v {};
	for(auto i = 0u; i < D; ++i) v[i] = any<T, OT>(i * (1 + rot / 7) + rot + (i == odd ? 3 : 0));
	const auto o = v;
	auto r = static_cast<nytl::Vec<OD, OT>>(v);
	for(auto i = 0u; i < OD; ++i) expect("Vec", D, 1, OD, 1, i, 0, (long double)(r[i]), (long double)(i < D ? static_cast<OT>(o[i]) : OT {}));
	for(auto i = 0u; i < D; ++i) unchanged(v[i] == o[i]);
	mc::eval(1);
}
template<std::size_t D, typename T, typename OT, std::size_t... OD> void wideTo(std::index_sequence<OD...>) {
	for(auto rot = 0u; rot < 14; ++rot) for(auto odd = 0u; odd <= D; ++odd) (wide<D, T, OD, OT>(rot, odd), ...);
	mc::step(14 * (D + 1) * sizeof...(OD));
	auto id = mc::comb(D * 1000, mc::hashStr(typeid(T).name()) + 3 * mc::hashStr(typeid(OT).name()));
	mc::state(id);
	mc::outcome(id);
}
template<typename T, typename OT> void wides() {
	using Dims = std::index_sequence<1, 2, 3, 5, 6, 7, 8, 9, 16, 17, 33>;
	switch(mc::choose(8)) {
		case 0: wideTo<1, T, OT>(Dims()); break;
		case 1: wideTo<3, T, OT>(Dims()); break;
		case 2: wideTo<6, T, OT>(Dims()); break;
		case 3: wideTo<8, T, OT>(Dims()); break;
		case 4: wideTo<9, T, OT>(Dims()); break;
		case 5: wideTo<16, T, OT>(Dims()); break;
		case 6: wideTo<17, T, OT>(Dims()); break;
		case 7: wideTo<33, T, OT>(Dims()); break;
	}
}
template<typename T, typename OT> void bigMats() {
	mat<5, 5, 6, 6, T, OT>(); mat<6, 6, 5, 5, T, OT>(); mat<8, 8, 8, 8, T, OT>(); mat<8, 8, 3, 9, T, OT>(); mat<2, 9, 9, 2, T, OT>();
	mat<1, 16, 2, 17, T, OT>(); mat<16, 1, 17, 2, T, OT>(); mat<7, 5, 4, 8, T, OT>();
	rect<5, 6, T, OT>(); rect<6, 5, T, OT>(); rect<8, 8, T, OT>(); rect<8, 2, T, OT>(); rect<1, 9, T, OT>();
	simplex<5, 6, 4, T, OT>(); simplex<6, 5, 5, T, OT>(); simplex<8, 8, 8, T, OT>(); simplex<9, 7, 2, T, OT>(); simplex<5, 9, 1, T, OT>();
	mc::step(18);
	auto id = mc::comb(77, mc::hashStr(typeid(T).name()) + 3 * mc::hashStr(typeid(OT).name()));
	mc::state(id);
	mc::outcome(id);
}
} // namespace

MC_SCENARIO("large", "vectors of 8 dimensions up to 33 to 11 dimensions up to 33 (patterns, one odd component), matrices up to 16x16, rects up to 8D, simplices up to 8D to each other", 2) {
	switch(mc::choose(8)) {
		case 0: wides<int, double>(); break;
		case 1: wides<double, double>(); break;
		case 2: wides<double, int>(); break;
		case 3: wides<long long, long long>(); break;
		case 4: wides<float, unsigned char>(); break;
		case 5: bigMats<int, double>(); break;
		case 6: bigMats<double, double>(); break;
		case 7: bigMats<double, int>(); break;
	}
}
#endif

#if MC_IN_PART(4)
// extreme values: everything an integer can be converted to is defined
namespace {
template<typename T> T extreme(unsigned i) {
	using L = std::numeric_limits<T>;
	if constexpr(std::is_floating_point_v<T>) {
		// only for conversions between floating point types
		const T v[] = {T(0.1), T(-0.1), T(16777217), T(1e30), T(-1e-30), T(0), T(2.5), L::infinity(), -L::infinity()};
		return v[i % 9];
	} else {
		const T v[] = {L::min(), L::max(), static_cast<T>(-1), T(1), static_cast<T>(200), static_cast<T>(-100),
			static_cast<T>(L::max() / 2 + 1), static_cast<T>(0x123456789abcdefll), T(0)};
		return v[i % 9];
	}
}
template<std::size_t D, std::size_t OD, typename T, typename OT> void wrapVec() {
	for(auto rot = 0u; rot < 18; ++rot) {
		nytl::Vec<D, T> v {};
		for(auto i = 0u; i < D; ++i) v[i] = extreme<T>(rot + i * (1 + rot / 9));
		auto r = static_cast<nytl::Vec<OD, OT>>(v);
		for(auto i = 0u; i < OD; ++i) {
			auto e = i < D ? static_cast<OT>(v[i]) : OT {};
			if(r[i] != e) expect("Vec", D, 1, OD, 1, i, 0, (long double)(r[i]), (long double)(e));
		}
	}
	mc::eval(18);
	mc::step(18);
}
template<typename T, typename OT> void wrap() {
	wrapVec<1, 1, T, OT>(); wrapVec<2, 2, T, OT>(); wrapVec<3, 3, T, OT>(); wrapVec<4, 4, T, OT>();
	wrapVec<2, 3, T, OT>(); wrapVec<3, 2, T, OT>(); wrapVec<4, 2, T, OT>(); wrapVec<3, 5, T, OT>(); wrapVec<9, 8, T, OT>();
	for(auto rot = 0u; rot < 9; ++rot) {
		nytl::Mat<2, 3, T> m {};
		nytl::Rect<2, T> b {};
		nytl::Rect<4, T> b4 {};
		nytl::Simplex<2, T, 2> t {};
		for(auto r = 0u; r < 2; ++r) for(auto c = 0u; c < 3; ++c) m[r][c] = extreme<T>(rot + r * 3 + c);
		for(auto i = 0u; i < 2; ++i) { b.position[i] = extreme<T>(rot + i); b.size[i] = extreme<T>(rot + i + 2); }
		for(auto i = 0u; i < 4; ++i) { b4.position[i] = extreme<T>(rot + i); b4.size[i] = extreme<T>(rot + i + 4); }
		for(auto p = 0u; p < 3; ++p) for(auto i = 0u; i < 2; ++i) t.points_[p][i] = extreme<T>(rot + p * 2 + i);
		auto mr = static_cast<nytl::Mat<2, 3, OT>>(m);
		auto ms = static_cast<nytl::Mat<3, 2, OT>>(m);
		for(auto r = 0u; r < 2; ++r) for(auto c = 0u; c < 3; ++c) {
			auto e = static_cast<OT>(m[r][c]);
			if(mr[r][c] != e) expect("Mat", 2, 3, 2, 3, r, c, (long double)(mr[r][c]), (long double)(e));
			if(c < 2 && ms[r][c] != e) expect("Mat", 2, 3, 3, 2, r, c, (long double)(ms[r][c]), (long double)(e));
		}
		auto b2 = static_cast<nytl::Rect<2, OT>>(b);
		auto b3 = static_cast<nytl::Rect<3, OT>>(b4);
		for(auto i = 0u; i < 2; ++i) {
			auto e = static_cast<OT>(b.position[i]), f = static_cast<OT>(b.size[i]);
			if(b2.position[i] != e) expect("Rect", 2, 1, 2, 1, i, 0, (long double)(b2.position[i]), (long double)(e));
			if(b2.size[i] != f) expect("Rect", 2, 1, 2, 1, i, 1, (long double)(b2.size[i]), (long double)(f));
		}
		for(auto i = 0u; i < 3; ++i) {
			auto e = static_cast<OT>(b4.position[i]), f = static_cast<OT>(b4.size[i]);
			if(b3.position[i] != e) expect("Rect", 4, 1, 3, 1, i, 0, (long double)(b3.position[i]), (long double)(e));
			if(b3.size[i] != f) expect("Rect", 4, 1, 3, 1, i, 1, (long double)(b3.size[i]), (long double)(f));
		}
		auto tr = static_cast<nytl::Simplex<3, OT, 2>>(t);
		for(auto p = 0u; p < 3; ++p) for(auto i = 0u; i < 3; ++i) {
			auto e = i < 2 ? static_cast<OT>(t.points_[p][i]) : OT {};
			if(tr.points_[p][i] != e) expect("Simplex", 2, 2, 3, 2, p, i, (long double)(tr.points_[p][i]), (long double)(e));
		}
	}
	mc::eval(54);
	mc::step(54);
	auto id = mc::comb(mc::hashStr(typeid(T).name()), mc::hashStr(typeid(OT).name()));
	mc::state(id);
	mc::outcome(id);
}
template<typename T, typename... OT> void wrapTo() {
	auto k = mc::choose(sizeof...(OT));
	auto i = 0u;
	((k == i++ ? wrap<T, OT>() : void()), ...);
}
template<typename T> void wrapInt() {
	wrapTo<T, std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, int, unsigned, std::int64_t, std::uint64_t, bool, float, double>();
}
} // namespace

MC_SCENARIO("extreme", "vectors, matrices, rects and simplices of 8 integer types with the extreme values of their type to 11 types, floating point types to each other", 2) {
	switch(mc::choose(11)) {
		case 0: wrapInt<std::int8_t>(); break;
		case 1: wrapInt<std::uint8_t>(); break;
		case 2: wrapInt<std::int16_t>(); break;
		case 3: wrapInt<std::uint16_t>(); break;
		case 4: wrapInt<int>(); break;
		case 5: wrapInt<unsigned>(); break;
		case 6: wrapInt<std::int64_t>(); break;
		case 7: wrapInt<std::uint64_t>(); break;
		case 8: wrapTo<float, float, double, long double, bool>(); break;
		case 9: wrapTo<double, double, long double, bool>(); break;
		case 10: wrapTo<long double, long double, bool>(); break;
	}
}
#endif
