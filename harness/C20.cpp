// C20: vector arithmetic is component-wise, also if operands alias.
#include <complex> // before the headers under test: they use qualified names of functions
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include "vecgen.hpp"

namespace {

template<std::size_t D, typename T> using Vec = nytl::Vec<D, T>;

#define ALL(expr, ref) do { auto r_ = (expr); mc::eval(); \
	using R_ = std::decay_t<decltype(r_[0])>; \
	static_assert(r_.size() == D); \
	for(std::size_t i = 0; i < D; ++i) { auto e_ = (ref); \
		MC_CHECK((std::is_same_v<R_, std::decay_t<decltype(e_)>> && gen::same<decltype(e_)>(e_, r_[i])), "%s, dimension %d, component %d: %.17g instead of %.17g", #expr, \
			int(D), int(i), double(r_[i]), double(e_)); } } while(0)

template<std::size_t D, typename T1, typename T2> void binary(const Vec<D, T1>& a, const Vec<D, T2>& b) {
	const auto a0 = a;
	const auto b0 = b;
	ALL(a + b, a0[i] + b0[i]);
	ALL(a - b, a0[i] - b0[i]);
	bool eq = true;
	for(auto i = 0u; i < D; ++i) eq &= (a0[i] == b0[i]);
	MC_CHECK((a == b) == eq && (a != b) == !eq, "comparison");
	// converting would be undefined
	constexpr bool narrows = std::is_integral_v<T1> && std::is_floating_point_v<T2> && (std::is_unsigned_v<T1> || sizeof(T1) < 4);
	if constexpr(!narrows) {
		auto c = a;
		auto* r = &(c += b);
		MC_CHECK(r == &c, "+= returns another object");
		ALL(c, static_cast<T1>(a0[i] + b0[i]));
	}
	if constexpr(!narrows) {
		auto c = a;
		auto* r = &(c -= b);
		MC_CHECK(r == &c, "-= returns another object");
		ALL(c, static_cast<T1>(a0[i] - b0[i]));
		(c += b) -= b;
		ALL(c, static_cast<T1>(static_cast<T1>(static_cast<T1>(a0[i] - b0[i]) + b0[i]) - b0[i]));
	}
	ALL(a, a0[i]);
	ALL(b, b0[i]);
}

template<std::size_t D, typename T, typename F> void scalar(const Vec<D, T>& a, F f) {
	const auto a0 = a;
	ALL(f * a, f * a0[i]);
	if constexpr(!(std::is_integral_v<T> && std::is_floating_point_v<F> && (std::is_unsigned_v<T> || sizeof(T) < 4))) {
		auto c = a;
		auto* r = &(c *= f);
		MC_CHECK(r == &c, "*= returns another object");
		ALL(c, static_cast<T>(a0[i] * f));
	}
	{
		using namespace nytl::vec::operators;
		ALL(a * f, a0[i] * f);
		if(f != F(0)) ALL(a / f, a0[i] / f);
		bool zero = false;
		for(auto i = 0u; i < D; ++i) zero |= (a0[i] == T(0));
		if(!zero) ALL(f / a, f / a0[i]);
	}
	ALL(a, a0[i]);
}

template<std::size_t D, typename T> void unary(const Vec<D, T>& a) {
	const auto a0 = a;
	ALL(-a, static_cast<T>(-a0[i]));
	ALL(+a, a0[i]);
	ALL(a, a0[i]);
	MC_CHECK(a == a && !(a != a), "comparison with itself");
	// the smallest possible difference
	if constexpr(std::is_floating_point_v<T>) for(auto x = 0u; x < D; ++x) for(auto to : {T(1e30), T(-1e30)}) {
		auto o = a;
		o[x] = std::nextafter(o[x], to);
		MC_CHECK(!(a == o) && a != o && !(o == a) && o != a, "comparison with a vector that differs in the last digit");
	}
	// aliasing
	{ auto c = a; c += c; ALL(c, static_cast<T>(a0[i] + a0[i])); }
	{ auto c = a; c -= c; ALL(c, static_cast<T>(a0[i] - a0[i])); }
	{ auto c = a; c = static_cast<Vec<D, T>>(c + c); ALL(c, static_cast<T>(a0[i] + a0[i])); }
	{ auto c = a; c = static_cast<Vec<D, T>>(-c); ALL(c, static_cast<T>(-a0[i])); }
	for(auto k = 0u; k < D; ++k) {
		{ auto c = a; c *= c[k]; ALL(c, static_cast<T>(a0[i] * a0[k])); }
		{ auto c = a; const auto& f = c[k]; c *= f; ALL(c, static_cast<T>(a0[i] * a0[k])); }
		{ auto c = a; auto d = c[k] * c; ALL(d, a0[i] * a0[k]); ALL(c, a0[i]); }
		{ using namespace nytl::vec::operators; auto c = a; auto d = c * c[k]; ALL(d, a0[i] * a0[k]); }
		{ auto c = a; c = static_cast<Vec<D, T>>(c[k] * c); ALL(c, static_cast<T>(a0[i] * a0[k])); }
	}
}

template<std::size_t D, typename T1, typename T2> void pairs() {
	auto k = gen::perComponent(D, mc::bound(64, 1100, 260, 4096));
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	auto chunks = std::min(n, 16u);
	auto chunk = mc::choose(chunks);
	for(auto x = chunk; x < n; x += chunks) {
		Vec<D, T1> a {};
		gen::fill(a, D, x, k, rot, gen::value<T1>);
		unary<D, T1>(a);
		for(auto f = 0u; f < 8; ++f) scalar<D, T1, T2>(a, gen::value<T2>(f));
		for(auto y = 0u; y < n; ++y) {
			Vec<D, T2> b {};
			gen::fill(b, D, y, k, rot + (y % 3), gen::value<T2>);
			binary<D, T1, T2>(a, b);
		}
	}
	mc::step(n / chunks * (n + 9));
	auto id = mc::comb(mc::comb(D * 64 + rot, chunk), mc::comb(mc::hashStr(typeid(T1).name()), mc::hashStr(typeid(T2).name())));
	mc::state(id);
	mc::outcome(id);
}

template<typename T1, typename T2> void dims() {
	switch(mc::choose(6)) {
		case 0: pairs<1, T1, T2>(); break;
		case 1: pairs<2, T1, T2>(); break;
		case 2: pairs<3, T1, T2>(); break;
		case 3: pairs<4, T1, T2>(); break;
		case 4: pairs<5, T1, T2>(); break;
		case 5: pairs<7, T1, T2>(); break;
	}
}

} // namespace

#if MC_IN_PART(1)
MC_SCENARIO("same_type", "vectors of dimension 1..5 and 7 of int, unsigned, int64, float, double, long double, short: all pairs of vectors over an alphabet "
	"of 8 (higher dimensions: 8 rotated alphabets of 2..8) values, all operators, all scalars, all forms of aliasing", 3) {
	switch(mc::choose(7)) {
		case 5: dims<long double, long double>(); break;
		case 6: dims<short, short>(); break;
		case 0: dims<int, int>(); break;
		case 1: dims<double, double>(); break;
		case 2: dims<float, float>(); break;
		case 3: dims<std::int64_t, std::int64_t>(); break;
		case 4: dims<unsigned, unsigned>(); break;
	}
}
#endif

#if MC_IN_PART(2)
MC_SCENARIO("mixed_types", "as above for mixed component types", 3) {
	switch(mc::choose(6)) {
		case 0: dims<int, double>(); break;
		case 1: dims<double, int>(); break;
		case 2: dims<float, double>(); break;
		case 3: dims<std::int64_t, int>(); break;
		case 4: dims<short, int>(); break;
		case 5: dims<float, signed char>(); break;
	}
}
#endif

namespace {
template<typename T1> void second() {
	switch(mc::choose(7)) {
		case 0: pairs<3, T1, unsigned char>(); break;
		case 1: pairs<3, T1, int>(); break;
		case 2: pairs<3, T1, unsigned>(); break;
		case 3: pairs<3, T1, std::int64_t>(); break;
		case 4: pairs<3, T1, float>(); break;
		case 5: pairs<3, T1, double>(); break;
		case 6: pairs<3, T1, long double>(); break;
	}
}
}

#if MC_IN_PART(3)
MC_SCENARIO("all_types", "vectors of dimension 3: all ordered pairs of unsigned char, int, unsigned, int64, float, double, long double", 3) {
	switch(mc::choose(7)) {
		case 0: second<unsigned char>(); break;
		case 1: second<int>(); break;
		case 2: second<unsigned>(); break;
		case 3: second<std::int64_t>(); break;
		case 4: second<float>(); break;
		case 5: second<double>(); break;
		case 6: second<long double>(); break;
	}
}
#endif

namespace {
template<std::size_t D, typename T1, typename T2> void large() {
	auto n = gen::patterns(D);
	auto x = mc::choose(n);
	auto a = gen::pattern<Vec<D, T1>>(D, x, gen::value<T1>);
	unary<D, T1>(a);
	for(auto f = 0u; f < 8; ++f) scalar<D, T1, T2>(a, gen::value<T2>(f));
	for(auto y = 0u; y < n; ++y) binary<D, T1, T2>(a, gen::pattern<Vec<D, T2>>(D, y, gen::value<T2>));
	mc::step(n + 9);
	auto id = mc::comb(mc::comb(D * 64, x), mc::comb(mc::hashStr(typeid(T1).name()), mc::hashStr(typeid(T2).name())));
	mc::state(id);
	mc::outcome(id);
}
template<typename T1, typename T2> void largeDims() {
	switch(mc::choose(5)) {
		case 0: large<6, T1, T2>(); break;
		case 1: large<8, T1, T2>(); break;
		case 2: large<9, T1, T2>(); break;
		case 3: large<16, T1, T2>(); break;
		case 4: large<33, T1, T2>(); break;
	}
}

template<typename T> bool overflows(T a, T b) {
	if constexpr(std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int)) {
		T r;
		return __builtin_add_overflow(a, b, &r) || __builtin_sub_overflow(a, b, &r);
	} else return false;
}

// without overflow of signed numbers
template<std::size_t D, typename T> void specials() {
	auto k = gen::perComponent(D, 512);
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	auto chunk = mc::choose(8);
	for(auto x = chunk; x < n; x += 8) {
		Vec<D, T> a {};
		gen::fill(a, D, x, k, rot, gen::special<T>);
		const auto a0 = a;
		MC_CHECK(a == a && !(a != a), "comparison with itself");
		ALL(+a, a0[i]);
		ALL(T(1) * a, T(1) * a0[i]);
		ALL(T(0) * a, T(0) * a0[i]);
		{ auto c = a; c *= T(1); ALL(c, a0[i]); c *= T(0); ALL(c, static_cast<T>(a0[i] * T(0))); }
		bool neg = true;
		for(auto i = 0u; i < D; ++i) neg &= !std::is_integral_v<T> || a[i] != std::numeric_limits<T>::min() || std::is_unsigned_v<T> || sizeof(T) < 4;
		if(neg) ALL(-a, static_cast<T>(-a0[i]));
		for(auto y = 0u; y < n; ++y) {
			Vec<D, T> b {};
			gen::fill(b, D, y, k, rot + (y % 3), gen::special<T>);
			bool eq = true;
			for(auto i = 0u; i < D; ++i) eq &= (a0[i] == b[i]);
			MC_CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "comparison");
			for(auto i = 0u; i < D; ++i) if(overflows(a[i], b[i])) b[i] = T(0);
			const auto b0 = b;
			ALL(a + b, a0[i] + b0[i]);
			ALL(a - b, a0[i] - b0[i]);
			{ auto c = a; c += b; ALL(c, static_cast<T>(a0[i] + b0[i])); }
			{ auto c = a; c -= b; ALL(c, static_cast<T>(a0[i] - b0[i])); }
		}
	}
	mc::step(n / 8 * (n + 4));
	auto id = mc::comb(mc::comb(D * 64 + rot, chunk), mc::hashStr(typeid(T).name()));
	mc::state(id);
	mc::outcome(id);
}
template<typename T> void specialDims() {
	switch(mc::choose(3)) { case 0: specials<2, T>(); break; case 1: specials<3, T>(); break; case 2: specials<4, T>(); break; }
}
}

#if MC_IN_PART(2)
MC_SCENARIO("large", "vectors of dimension 6, 8, 9, 16 and 33 of int, double, short and float with int: all pairs of patterns and of vectors that differ in one component, all operators, scalars, aliasing", 2) {
	switch(mc::choose(4)) {
		case 0: largeDims<int, int>(); break;
		case 1: largeDims<double, double>(); break;
		case 2: largeDims<short, short>(); break;
		case 3: largeDims<float, int>(); break;
	}
}
#endif

#if MC_IN_PART(2)
MC_SCENARIO("special_values", "dimensions 2 to 4: all pairs of vectors over the ends of the range (also infinity, denormalized numbers) where nothing overflows", 3) {
	switch(mc::choose(6)) {
		case 0: specialDims<int>(); break;
		case 1: specialDims<double>(); break;
		case 2: specialDims<float>(); break;
		case 3: specialDims<std::int64_t>(); break;
		case 4: specialDims<unsigned>(); break;
		case 5: specialDims<short>(); break;
	}
}
#endif

#include "cplxgen.hpp"
#if MC_IN_PART(3)
MC_SCENARIO("complex", "pairs of vectors (dimensions 1, 2, 3, 4, 6) over 8 complex numbers (float and double): sum, difference, negation, scaling by complex and real numbers, comparison, aliasing", 2) {
	cgen::dims([](auto dim, auto t) {
		constexpr std::size_t D = dim;
		using T = decltype(t);
		using S = typename T::value_type;
		cgen::pairs<D, T>(mc::bound(64, 100, 100, 260), [](const Vec<D, T>& a, const Vec<D, T>& b) {
			const auto a0 = a, b0 = b;
			CALL(a + b, a0[i] + b0[i]);
			CALL(a - b, a0[i] - b0[i]);
			CALL(-a, -a0[i]);
			CALL(+a, a0[i]);
			bool eq = true;
			for(auto i = 0u; i < D; ++i) eq &= a0[i] == b0[i];
			MC_CHECK((a == b) == eq && (a != b) == !eq, "comparison of complex vectors");
			{ auto c = a; auto* r = &(c += b); MC_CHECK(r == &c, "+= returns another object"); CALL(c, a0[i] + b0[i]); }
			{ auto c = a; auto* r = &(c -= b); MC_CHECK(r == &c, "-= returns another object"); CALL(c, a0[i] - b0[i]); }
			auto f = b0[0];
			CALL(f * a, f * a0[i]);
			CALL(S(-2) * a, S(-2) * a0[i]);
			{ auto c = a; auto* r = &(c *= f); MC_CHECK(r == &c, "*= returns another object"); CALL(c, a0[i] * f); }
			{ auto c = a; c *= S(3); CALL(c, a0[i] * S(3)); }
			for(auto k = 0u; k < D; ++k) { auto c = a; c *= c[k]; CALL(c, a0[i] * a0[k]); }
			{ auto c = a; c += c; CALL(c, a0[i] + a0[i]); }
			{ auto c = a; c -= c; CALL(c, T {}); }
			{
				using namespace nytl::vec::operators;
				CALL(a * f, a0[i] * f);
				if(f != T {}) CALL(a / f, a0[i] / f);
			}
			// real components
			Vec<D, S> re {};
			for(auto i = 0u; i < D; ++i) re[i] = b0[i].real();
			CALL(a + re, a0[i] + b0[i].real());
			CALL(re - a, b0[i].real() - a0[i]);
			CALL(a, a0[i]);
			CALL(b, b0[i]);
		});
	});
}
#endif
