// C42: access to the elements of vectors and matrices.
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include <cstdint>
#include "mc.hpp"
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <vector>

namespace {

// A history of writes through any of the ways to access an element; after each of them all ways to
// read are compared with an array.
template<std::size_t D, typename T> struct Model {
	T ref[D] {};
	nytl::Vec<D, T> v {};
	mc::u64 h = D;

	void check() {
		const auto& c = v;
		static_assert(nytl::Vec<D, T>::size() == D);
		MC_CHECK(sizeof(v) == sizeof(T) * D, "size of the type");
		MC_CHECK(v.size() == D && std::distance(v.begin(), v.end()) == D && c.end() - c.begin() == D, "size");
		MC_CHECK(v.data() == c.data() && (void*) v.data() == (void*) &v && &*v.begin() == v.data() && &*c.begin() == v.data(), "data");
		MC_CHECK(&v.front() == v.data() && &c.front() == v.data() && &v.back() == v.data() + D - 1 && &c.back() == v.data() + D - 1, "front, back");
		auto it = c.begin();
		for(auto i = 0u; i < D; ++i, ++it) {
			MC_CHECK(v[i] == ref[i] && c[i] == ref[i], "[%u] is %g instead of %g", i, double(c[i]), double(ref[i]));
			MC_CHECK(&v[i] == v.data() + i && &c[i] == v.data() + i, "&[%u]", i);
			MC_CHECK(*it == ref[i] && c.data()[i] == ref[i], "iteration: %u is %g instead of %g", i, double(*it), double(ref[i]));
		}
		MC_CHECK(it == c.end(), "end");
		auto i = 0u;
		for(auto& x : v) { MC_CHECK(&x == &v[i], "range for"); ++i; }
		if constexpr(D == 2) MC_CHECK(v.x == ref[0] && v.y == ref[1], "members are %g, %g", double(v.x), double(v.y));
		if constexpr(D == 3) MC_CHECK(v.x == ref[0] && v.y == ref[1] && v.z == ref[2], "members are %g, %g, %g", double(v.x), double(v.y), double(v.z));
		auto copy = v;
		MC_CHECK(copy == v && !(copy != v), "copy differs");
		mc::eval(D * 4 + 4);
		mc::step();
		mc::state(mc::hashBytes(ref, sizeof(ref), D));
	}
	void write() {
		auto way = mc::choose(7);
		auto i = way < 4 ? mc::choose(D) : 0;
		T x = T(mc::choose(3) * 5 + 1);
		h = mc::comb(h, way * 64 + i * 8 + unsigned(x));
		switch(way) {
			case 0: v[i] = x; break;
			case 1: v.data()[i] = x; break;
			case 2: *(v.begin() + i) = x; break;
			case 3:
				if constexpr(D == 2) (i == 0 ? v.x : v.y) = x;
				else if constexpr(D == 3) (i == 0 ? v.x : i == 1 ? v.y : v.z) = x;
				else v[i] = x;
				break;
			case 4: v.front() = x; i = 0; break;
			case 5: v.back() = x; i = D - 1; break;
			case 6: std::fill(v.begin(), v.end(), x); for(auto& r : ref) r = x; break;
		}
		if(way != 6) ref[i] = x;
	}
	void run(unsigned n) {
		for(auto i = 0u; i < n; ++i) { write(); check(); }
		// indices that do not exist are rejected (only by the types with named members)
		if constexpr(D == 2 || D == 3) {
			const auto& c = v;
			for(std::size_t i : {D, D + 1, std::size_t(7), std::size_t(-1), std::size_t(1) << 32}) {
				bool a = false, b = false;
				try { (void) v[i]; } catch(const std::out_of_range&) { a = true; }
				try { (void) c[i]; } catch(const std::out_of_range&) { b = true; }
				MC_CHECK(a && b, "[%zu] was not rejected", i);
			}
		}
		check();
		mc::outcome(h);
	}
};

template<std::size_t R, std::size_t C, typename T> void mat() {
	nytl::Mat<R, C, T> m {};
	T ref[R][C] {};
	mc::u64 h = R * 8 + C;
	for(auto n = 0; n < 2; ++n) {
		auto way = mc::choose(4);
		auto r = mc::choose(R), c = mc::choose(C);
		T x = T(mc::choose(2) + 2);
		ref[r][c] = x;
		switch(way) {
			case 0: m[r][c] = x; break;
			case 1: m.at(r)[c] = x; break;
			case 2: m.at(r, c) = x; break;
			case 3: { auto row = m[r]; row[c] = x; m[r] = row; break; }
		}
		h = mc::comb(h, way * 1000 + r * 100 + c * 10 + unsigned(x));
		const auto& k = m;
		MC_CHECK(m.rows() == R && m.cols() == C && sizeof(m) == sizeof(T) * R * C, "dimensions");
		for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) {
			MC_CHECK(k[i][j] == ref[i][j] && k.at(i, j) == ref[i][j] && k.at(i)[j] == ref[i][j], "(%u, %u) is %g instead of %g", i, j, double(k[i][j]), double(ref[i][j]));
			// row-major
			MC_CHECK((const char*) &m[i][j] == (const char*) &m + (i * C + j) * sizeof(T) && &k[i][j] == &m[i][j] && &m.at(i, j) == &m[i][j] && &k.at(i, j) == &m[i][j], "address of (%u, %u)", i, j);
		}
		for(std::size_t i : {std::size_t(0), R - 1, R, R + 1, std::size_t(-1)}) for(std::size_t j : {std::size_t(0), C - 1, C, C + 1, std::size_t(-1)}) {
			bool e = i >= R || j >= C, a = false, b = false;
			try { (void) m.at(i, j); } catch(const std::out_of_range&) { a = true; }
			try { (void) k.at(i, j); } catch(const std::out_of_range&) { b = true; }
			MC_CHECK(a == e && b == e, "at(%zu, %zu): rejected %d", i, j, int(a));
			a = b = false;
			try { (void) m.at(i); } catch(const std::out_of_range&) { a = true; }
			try { (void) k.at(i); } catch(const std::out_of_range&) { b = true; }
			MC_CHECK(a == (i >= R) && b == (i >= R), "at(%zu): rejected %d", i, int(a));
		}
		mc::step();
		mc::eval(R * C * 3 + 100);
		mc::state(mc::hashBytes(ref, sizeof(ref), R));
	}
	mc::outcome(h);
}

template<std::size_t D, typename T> void braces() {
	// aggregate initialization and deduction
	if constexpr(D == 2) {
		nytl::Vec<2, T> v {T(1), T(2)};
		auto d = nytl::Vec {T(1), T(2)};
		static_assert(std::is_same_v<decltype(d), nytl::Vec<2, T>>);
		MC_CHECK(v[0] == 1 && v[1] == 2 && d == v, "Vec {1, 2}");
		nytl::Vec<2, T> p {T(4)};
		MC_CHECK(p[0] == 4 && p[1] == 0, "Vec {4}");
	} else if constexpr(D == 3) {
		nytl::Vec<3, T> v {T(1), T(2), T(3)};
		auto d = nytl::Vec {T(1), T(2), T(3)};
		static_assert(std::is_same_v<decltype(d), nytl::Vec<3, T>>);
		MC_CHECK(v[0] == 1 && v[1] == 2 && v[2] == 3 && d == v, "Vec {1, 2, 3}");
	} else {
		nytl::Vec<4, T> v {T(1), T(2), T(3), T(4)};
		auto d = nytl::Vec {T(1), T(2), T(3), T(4)};
		static_assert(std::is_same_v<decltype(d), nytl::Vec<4, T>>);
		MC_CHECK(v[0] == 1 && v[1] == 2 && v[2] == 3 && v[3] == 4 && d == v, "Vec {1, 2, 3, 4}");
	}
	nytl::Vec<D, T> z {};
	for(auto i = 0u; i < D; ++i) MC_CHECK(z[i] == 0, "Vec {}");
	mc::eval(3);
	mc::step();
	mc::state(D * 16 + sizeof(T));
	mc::outcome(D * 16 + sizeof(T));
}

} // namespace

MC_SCENARIO("vec", "all histories of 2 (without sanitizers 3, 2D: 4) writes in 7 ways to vectors of 1 to 5 components, read in all ways after each", 3) {
	auto n = mc::bound(2, 3, 3, 4);
	switch(mc::choose(9)) {
		case 0: Model<1, int>().run(n); break;
		case 1: Model<2, int>().run(mc::bound(2, 3, 3, 4)); break;
		case 2: Model<3, int>().run(n); break;
		case 3: Model<4, int>().run(n); break;
		case 4: Model<5, double>().run(mc::bound(1, 2, 2, 3)); break;
		case 5: Model<2, double>().run(n); break;
		case 6: Model<3, float>().run(n); break;
		case 7: Model<2, unsigned char>().run(n); break;
		case 8: Model<3, long>().run(2); break;
	}
}
MC_SCENARIO("mat", "all histories of 2 writes in 4 ways to matrices of 8 sizes; all reads; checked access inside and outside", 3) {
	switch(mc::choose(8)) {
		case 0: mat<1, 1, int>(); break;
		case 1: mat<2, 2, int>(); break;
		case 2: mat<3, 3, float>(); break;
		case 3: mat<4, 4, double>(); break;
		case 4: mat<1, 4, int>(); break;
		case 5: mat<4, 1, double>(); break;
		case 6: mat<2, 3, float>(); break;
		case 7: mat<3, 2, int>(); break;
	}
}
MC_SCENARIO("initialization", "braced initialization and deduction of 2, 3 and 4 component vectors of 5 types", 1) {
	auto d = [](auto t) {
		using T = decltype(t);
		switch(mc::choose(3)) { case 0: braces<2, T>(); break; case 1: braces<3, T>(); break; case 2: braces<4, T>(); break; }
	};
	switch(mc::choose(5)) { case 0: d(int()); break; case 1: d(float()); break; case 2: d(double()); break; case 3: d((unsigned char) 0); break; case 4: d(long()); break; }
}
MC_SCENARIO("large", "all histories of 2 writes to vectors of 6, 8, 9, 16 and 33 components, of 2 writes to 5x5, 8x2, 2x8 and 6x3 matrices", 3) {
	switch(mc::choose(10)) {
		case 0: Model<6, int>().run(2); break;
		case 1: Model<8, double>().run(mc::bound(1, 2, 2, 2)); break;
		case 2: Model<9, short>().run(1); break;
		case 3: Model<16, int>().run(mc::bound(1, 2, 2, 2)); break;
		case 4: Model<33, float>().run(1); break;
		case 5: mat<5, 5, double>(); break;
		case 6: mat<8, 2, int>(); break;
		case 7: mat<2, 8, float>(); break;
		case 8: mat<6, 3, short>(); break;
		case 9: Model<7, unsigned char>().run(1); break;
	}
}

namespace {

// The named types: what they say, given as dimensions and element type, against what they are:
// distinct values are written to every element and the object is read as bytes.
template<typename V, std::size_t D, typename T> void namedVec(const char* name) {
	using E = std::remove_reference_t<decltype(std::declval<V&>()[0])>;
	MC_CHECK((std::is_same_v<E, T>), "%s: element type", name);
	MC_CHECK(V::size() == D && sizeof(V) == D * sizeof(T), "%s: %u components, %u bytes", name, unsigned(V::size()), unsigned(sizeof(V)));
	V v {};
	for(auto i = 0u; i < D; ++i) v[i] = T(i + 1);
	T raw[D];
	std::memcpy(raw, &v, sizeof(raw));
	for(auto i = 0u; i < D; ++i) MC_CHECK(raw[i] == T(i + 1) && v[i] == T(i + 1), "%s: component %u", name, i);
	MC_CHECK((std::is_same_v<V, nytl::Vec<D, T>>), "%s is another type", name);
	mc::eval(5);
}
template<typename M, std::size_t R, std::size_t C, typename T> void namedMat(const char* name) {
	using E = std::remove_reference_t<decltype(std::declval<M&>()[0][0])>;
	MC_CHECK((std::is_same_v<E, T>), "%s: element type", name);
	MC_CHECK(M::rows() == R && M::cols() == C && sizeof(M) == R * C * sizeof(T), "%s: %ux%u", name, unsigned(M::rows()), unsigned(M::cols()));
	M m {};
	for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) m[i][j] = T(i * 4 + j);
	for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) MC_CHECK(m[i][j] == T(i * 4 + j), "%s: element %u, %u", name, i, j);
	MC_CHECK((std::is_same_v<M, nytl::Mat<R, C, T>>), "%s is another type", name);
	mc::eval(4);
}
template<typename X, std::size_t D, typename T> void namedRect(const char* name) {
	X r {};
	for(auto i = 0u; i < D; ++i) { r.position[i] = T(i + 1); r.size[i] = T(i + 7); }
	MC_CHECK((std::is_same_v<decltype(r.position), nytl::Vec<D, T>>) && (std::is_same_v<decltype(r.size), nytl::Vec<D, T>>), "%s: dimension or type", name);
	for(auto i = 0u; i < D; ++i) MC_CHECK(r.position[i] == T(i + 1) && r.size[i] == T(i + 7), "%s: %u", name, i);
	MC_CHECK((std::is_same_v<X, nytl::Rect<D, T>>), "%s is another type", name);
	mc::eval(4);
}
template<typename S, std::size_t D, typename P, std::size_t N> void namedSimplex(const char* name) {
	S s {};
	MC_CHECK((std::is_same_v<S, nytl::Simplex<D, P, N>>), "%s is another type", name);
	MC_CHECK(sizeof(S) == (N + 1) * D * sizeof(P) && (std::is_same_v<std::decay_t<decltype(s.points()[0])>, nytl::Vec<D, P>>), "%s: %u bytes", name, unsigned(sizeof(S)));
	mc::eval(2);
}

} // namespace

MC_SCENARIO("names", "all named types of vectors, matrices, rects and simplices: dimensions, element types and layout", 1) {
	using std::uint8_t; using std::uint16_t; using std::uint32_t; using std::uint64_t;
	using std::int8_t; using std::int16_t; using std::int32_t; using std::int64_t;
	auto which = mc::choose(9);
	switch(which) {
#define NAMED_VEC(D) \
		namedVec<nytl::Vec ## D ## f, D, float>("Vec" #D "f"); namedVec<nytl::Vec ## D ## d, D, double>("Vec" #D "d"); \
		namedVec<nytl::Vec ## D ## i, D, int>("Vec" #D "i"); namedVec<nytl::Vec ## D ## ui, D, unsigned>("Vec" #D "ui"); \
		namedVec<nytl::Vec ## D ## u8, D, uint8_t>("Vec" #D "u8"); namedVec<nytl::Vec ## D ## u16, D, uint16_t>("Vec" #D "u16"); \
		namedVec<nytl::Vec ## D ## u32, D, uint32_t>("Vec" #D "u32"); namedVec<nytl::Vec ## D ## u64, D, uint64_t>("Vec" #D "u64"); \
		namedVec<nytl::Vec ## D ## i8, D, int8_t>("Vec" #D "i8"); namedVec<nytl::Vec ## D ## i16, D, int16_t>("Vec" #D "i16"); \
		namedVec<nytl::Vec ## D ## i32, D, int32_t>("Vec" #D "i32"); namedVec<nytl::Vec ## D ## i64, D, int64_t>("Vec" #D "i64"); \
		namedVec<nytl::Vec ## D<short>, D, short>("Vec" #D);
		case 0: NAMED_VEC(2) namedVec<nytl::Vec2b, 2, bool>("Vec2b"); break;
		case 1: NAMED_VEC(3) break; // the one of bool is called Vec3c
		case 2: NAMED_VEC(4) namedVec<nytl::Vec4b, 4, bool>("Vec4b"); break;
#define NAMED_MAT(D) \
		namedMat<nytl::Mat ## D ## f, D, D, float>("Mat" #D "f"); namedMat<nytl::Mat ## D ## d, D, D, double>("Mat" #D "d"); \
		namedMat<nytl::Mat ## D ## i, D, D, int>("Mat" #D "i"); namedMat<nytl::Mat ## D ## ui, D, D, unsigned>("Mat" #D "ui"); \
		namedMat<nytl::Mat ## D<short>, D, D, short>("Mat" #D); namedMat<nytl::SquareMat<D, long>, D, D, long>("SquareMat");
		case 3: NAMED_MAT(2) break;
		case 4: NAMED_MAT(3) break;
		case 5: NAMED_MAT(4) break;
		case 6: {
			namedMat<nytl::Mat23<float>, 2, 3, float>("Mat23"); namedMat<nytl::Mat24<int>, 2, 4, int>("Mat24");
			namedMat<nytl::Mat32<float>, 3, 2, float>("Mat32"); namedMat<nytl::Mat34<int>, 3, 4, int>("Mat34");
			namedMat<nytl::Mat42<float>, 4, 2, float>("Mat42"); namedMat<nytl::Mat43<int>, 4, 3, int>("Mat43");
			break;
		}
#define NAMED_RECT(D) \
		namedRect<nytl::Rect ## D ## f, D, float>("Rect" #D "f"); namedRect<nytl::Rect ## D ## d, D, double>("Rect" #D "d"); \
		namedRect<nytl::Rect ## D ## i, D, int>("Rect" #D "i"); namedRect<nytl::Rect ## D ## ui, D, unsigned>("Rect" #D "ui"); \
		namedRect<nytl::Rect ## D<short>, D, short>("Rect" #D);
		case 7: NAMED_RECT(2) NAMED_RECT(3) NAMED_RECT(4) break;
		case 8: {
			namedSimplex<nytl::Line<2>, 2, double, 1>("Line<2>"); namedSimplex<nytl::Line<3, float>, 3, float, 1>("Line<3, float>");
			namedSimplex<nytl::Triangle<2>, 2, double, 2>("Triangle<2>"); namedSimplex<nytl::Triangle<3, float>, 3, float, 2>("Triangle<3, float>");
			namedSimplex<nytl::Tetrahedron<3>, 3, double, 3>("Tetrahedron<3>"); namedSimplex<nytl::Tetrahedron<4, float>, 4, float, 3>("Tetrahedron<4, float>");
			namedSimplex<nytl::Simplex<2>, 2, double, 2>("Simplex<2>"); namedSimplex<nytl::Simplex<4, int>, 4, int, 4>("Simplex<4, int>");
			break;
		}
	}
	mc::step();
	mc::state(which + 1000);
	mc::outcome(which + 1000);
}
