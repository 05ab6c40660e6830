// C22: component-wise functions and reductions of vectors.
#include <complex> // before the headers under test: they use qualified names of functions
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include "vecgen.hpp"

namespace {

template<std::size_t D, typename T> using Vec = nytl::Vec<D, T>;
namespace cw = nytl::vec::cw;

#define ALL(expr, ref) do { auto r_ = (expr); mc::eval(); \
	using R_ = std::decay_t<decltype(r_[0])>; \
	static_assert(r_.size() == D); \
	for(std::size_t i = 0; i < D; ++i) { auto e_ = (ref); \
		MC_CHECK((std::is_same_v<R_, std::decay_t<decltype(e_)>> && gen::same<decltype(e_)>(e_, r_[i])), "%s, dimension %d, component %d: %.17g instead of %.17g", #expr, \
			int(D), int(i), double(r_[i]), double(e_)); } } while(0)

template<std::size_t D, typename T> bool has(const Vec<D, T>& v, T x) {
	for(auto i = 0u; i < D; ++i) if(v[i] == x) return true;
	return false;
}

template<std::size_t D, typename T> void pair(const Vec<D, T>& a, const Vec<D, T>& b) {
	const auto a0 = a;
	const auto b0 = b;
	ALL(cw::max(a, b), (b0[i] > a0[i] ? b0[i] : a0[i]));
	ALL(cw::min(a, b), (b0[i] < a0[i] ? b0[i] : a0[i]));
	ALL(cw::multiply(a, b), a0[i] * b0[i]);
	auto noZero = !has<D, T>(b, T(0));
	if(noZero) ALL(cw::divide(a, b), a0[i] / b0[i]);
	{
		using namespace nytl::vec::cw::operators;
		ALL(a * b, a0[i] * b0[i]);
		if(noZero) ALL(a / b, a0[i] / b0[i]);
		{ auto c = a; auto* r = &(c *= b); MC_CHECK(r == &c, "*= returns another object"); ALL(c, static_cast<T>(a0[i] * b0[i])); }
		if(noZero) { auto c = a; auto* r = &(c /= b); MC_CHECK(r == &c, "/= returns another object"); ALL(c, static_cast<T>(a0[i] / b0[i])); }
	}
	Vec<D, T> lo = a, hi = a;
	for(auto i = 0u; i < D; ++i) { lo[i] = std::min(a[i], b[i]); hi[i] = std::max(a[i], b[i]); }
	for(auto s = 0u; s < 8; ++s) {
		Vec<D, T> v = a;
		for(auto i = 0u; i < D; ++i) v[i] = gen::value<T>(s + i);
		const auto v0 = v;
		ALL(cw::clamp(v, lo, hi), (v0[i] < lo[i] ? lo[i] : hi[i] < v0[i] ? hi[i] : v0[i]));
		{ auto c = v; cw::ip::clamp(c, lo, hi); ALL(c, (v0[i] < lo[i] ? lo[i] : hi[i] < v0[i] ? hi[i] : v0[i])); }
		ALL(v, v0[i]);
	}
	ALL(a, a0[i]);
	ALL(b, b0[i]);
}

template<std::size_t D, typename T> void scalars(const Vec<D, T>& a) {
	const auto a0 = a;
	for(auto s = 0u; s < 8; ++s) {
		const T x = gen::value<T>(s);
		ALL(cw::max(a, x), (x > a0[i] ? x : a0[i]));
		ALL(cw::min(a, x), (x < a0[i] ? x : a0[i]));
		{
			using namespace nytl::vec::cw::operators;
			ALL(a + x, a0[i] + x);
			ALL(x + a, x + a0[i]);
			ALL(a - x, a0[i] - x);
			ALL(x - a, x - a0[i]);
		}
		{
			using namespace nytl::vec::operators;
			const auto anyZero = has<D, T>(a, T(0));
			ALL(a * x, a0[i] * x);
			ALL(x * a, x * a0[i]);
			if(x != T(0)) ALL(a / x, a0[i] / x);
			if(!anyZero) ALL(x / a, x / a0[i]);
			// scalars of another type
			const double d = 0.75 * (int(s) - 3);
			ALL(a * d, a0[i] * d);
			if(d != 0) ALL(a / d, a0[i] / d);
			if(!anyZero) ALL(d / a, d / a0[i]);
			const short h = short(2 * int(s) - 5);
			ALL(a * h, a0[i] * h);
			ALL(a / h, a0[i] / h);
			if(!anyZero) ALL(h / a, h / a0[i]);
		}
		for(auto t = 0u; t < 8; ++t) {
			const T y = gen::value<T>(t);
			if(y < x) continue;
			ALL(cw::clamp(a, x, y), (a0[i] < x ? x : y < a0[i] ? y : a0[i]));
			{ auto c = a; cw::ip::clamp(c, x, y); ALL(c, (a0[i] < x ? x : y < a0[i] ? y : a0[i])); }
		}
	}
	// aliasing
	for(auto k = 0u; k < D; ++k) {
		{ auto c = a; c = cw::max(c, c[k]); ALL(c, (a0[k] > a0[i] ? a0[k] : a0[i])); }
		{ auto c = a; c = cw::min(c, c[k]); ALL(c, (a0[k] < a0[i] ? a0[k] : a0[i])); }
	}
	{
		using namespace nytl::vec::cw::operators;
		{ auto c = a; c *= c; ALL(c, static_cast<T>(a0[i] * a0[i])); }
		if(!has<D, T>(a, T(0))) { auto c = a; c /= c; ALL(c, static_cast<T>(a0[i] / a0[i])); }
	}
	ALL(a, a0[i]);
	// reductions
	auto sum = decltype(a[0] + a[0])(0);
	for(auto i = 0u; i < D; ++i) sum += a0[i];
	auto rs = nytl::sum(a);
	MC_CHECK((std::is_same_v<decltype(rs), decltype(a[0] + a[0])> && gen::near<decltype(rs)>(rs, static_cast<long double>(sum), 4e6)), "sum is %.17g instead of %.17g", double(rs), double(sum));
	if constexpr(!std::is_floating_point_v<T>) MC_CHECK(rs == sum, "sum is %.17g instead of %.17g", double(rs), double(sum));
}

template<std::size_t D, typename T> void product() {
	// factors for which all partial products are exact
	const int f[] = {2, -1, 3, 0, 1, -2, 5, 4};
	auto k = gen::perComponent(D, 512);
	for(auto x = 0u; x < gen::ipow(k, D); ++x) {
		Vec<D, T> a {};
		for(auto r = 0u; r < 8; ++r) {
			gen::fill(a, D, x, k, r, [&](unsigned i) { auto v = f[i % 8]; return T(std::is_unsigned_v<T> && v < 0 ? 7 : v); });
			auto p = decltype(a[0] * a[0])(1);
			for(auto i = 0u; i < D; ++i) p *= a[i];
			auto rp = nytl::multiply(a);
			mc::eval();
			MC_CHECK((std::is_same_v<decltype(rp), decltype(a[0] * a[0])> && rp == p), "multiply is %.17g instead of %.17g", double(rp), double(p));
		}
	}
}

template<std::size_t D, typename T> void pairs() {
	auto k = gen::perComponent(D, mc::bound(27, 260, 125, 1100));
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	auto chunks = std::min(n, 8u);
	auto chunk = mc::choose(chunks);
	for(auto x = chunk; x < n; x += chunks) {
		Vec<D, T> a {};
		gen::fill(a, D, x, k, rot, gen::value<T>);
		scalars<D, T>(a);
		for(auto y = 0u; y < n; ++y) {
			Vec<D, T> b {};
			gen::fill(b, D, y, k, rot + (y % 3), gen::value<T>);
			pair<D, T>(a, b);
		}
	}
	if(chunk == 0) product<D, T>();
	mc::step(n / chunks * (n + 1));
	auto id = mc::comb(mc::comb(D * 64 + rot, chunk), mc::hashStr(typeid(T).name()));
	mc::state(id);
	mc::outcome(id);
}

template<typename T> void dims() {
	switch(mc::choose(5)) {
		case 0: pairs<1, T>(); break;
		case 1: pairs<2, T>(); break;
		case 2: pairs<3, T>(); break;
		case 3: pairs<4, T>(); break;
		case 4: pairs<6, T>(); break;
	}
}

// functions of the standard library applied to all components
template<std::size_t D, typename T> void funcs() {
	const double vals[] = {0.0, 0.25, -0.5, 1.0, -1.0, 2.5, -3.75, 10.0};
	auto k = gen::perComponent(D, mc::bound(64, 600, 512, 4096));
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	for(auto x = 0u; x < n; ++x) {
		Vec<D, T> a {};
		gen::fill(a, D, x, k, rot, [&](unsigned i) { return T(vals[i % 8]); });
		const auto a0 = a;
#define FUNC(f) do { \
		ALL(cw::f(a), static_cast<T>(std::f(a0[i]))); \
		{ auto c = a; cw::ip::f(c); ALL(c, static_cast<T>(std::f(a0[i]))); } \
		ALL(a, a0[i]); } while(0)
		FUNC(abs); FUNC(sin); FUNC(cos); FUNC(tan); FUNC(asin); FUNC(acos); FUNC(atan); FUNC(sqrt); FUNC(log); FUNC(exp); FUNC(exp2);
		FUNC(floor); FUNC(ceil);
#undef FUNC
		for(auto e : {T(2), T(0), T(-1), T(0.5), T(1), T(3), T(-2)}) {
			ALL(cw::pow(a, e), static_cast<T>(std::pow(a0[i], e)));
			{ auto c = a; cw::ip::pow(c, e); ALL(c, static_cast<T>(std::pow(a0[i], e))); }
		}
		auto powOf = [&](auto e) {
			ALL(cw::pow(a, e), static_cast<T>(std::pow(a0[i], e)));
			{ auto c = a; cw::ip::pow(c, e); ALL(c, static_cast<T>(std::pow(a0[i], e))); }
			Vec<D, decltype(e)> ev {};
			for(auto i = 0u; i < D; ++i) ev[i] = static_cast<decltype(e)>(e + decltype(e)(i % 2));
			ALL(cw::pow(a, ev), static_cast<T>(std::pow(a0[i], ev[i])));
			{ auto c = a; cw::ip::pow(c, ev); ALL(c, static_cast<T>(std::pow(a0[i], ev[i]))); }
		};
		for(auto e : {3, -1, 0, -3, 2}) powOf(e);
		powOf(std::int64_t(-2)); powOf(short(-1)); powOf(2u); powOf(0.5f); powOf(-1.5); powOf(std::uint8_t(4));
		Vec<D, T> ex {};
		const double exps[] = {2.0, 3.0, 0.5, -0.5, 0.0, 1.0, -1.0, -2.0, 0.25, 2.5};
		for(auto r = 0u; r < 10; ++r) {
			for(auto i = 0u; i < D; ++i) ex[i] = T(exps[(r + i) % 10]);
			ALL(cw::pow(a, ex), static_cast<T>(std::pow(a0[i], ex[i])));
			{ auto c = a; cw::ip::pow(c, ex); ALL(c, static_cast<T>(std::pow(a0[i], ex[i]))); }
		}
		{ auto c = a; cw::ip::pow(c, c); ALL(c, static_cast<T>(std::pow(a0[i], a0[i]))); }
		ALL(a, a0[i]);
	}
	mc::step(n * 16);
	mc::state(D * 64 + rot + sizeof(T) * 1024);
	mc::outcome(D * 64 + rot + sizeof(T) * 1024);
}

template<std::size_t D, typename T> void intFuncs() {
	const int vals[] = {0, 1, 2, -3, 5, -1, 10, 7};
	auto k = gen::perComponent(D, 512);
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	for(auto x = 0u; x < n; ++x) {
		Vec<D, T> a {};
		gen::fill(a, D, x, k, rot, [&](unsigned i) { return T(vals[i % 8]); });
		const auto a0 = a;
		ALL(cw::abs(a), static_cast<T>(std::abs(a0[i])));
		{ auto c = a; cw::ip::abs(c); ALL(c, static_cast<T>(std::abs(a0[i]))); }
		for(auto e = 0; e < 5; ++e) {
			ALL(cw::pow(a, e), static_cast<T>(std::pow(a0[i], e)));
			{ auto c = a; cw::ip::pow(c, e); ALL(c, static_cast<T>(std::pow(a0[i], e))); }
			Vec<D, int> ex {};
			for(auto i = 0u; i < D; ++i) ex[i] = (e + i) % 5;
			ALL(cw::pow(a, ex), static_cast<T>(std::pow(a0[i], ex[i])));
			{ auto c = a; cw::ip::pow(c, ex); ALL(c, static_cast<T>(std::pow(a0[i], ex[i]))); }
		}
		ALL(a, a0[i]);
	}
	mc::step(n * 10);
	mc::state(D * 64 + rot + sizeof(T) * 2048);
	mc::outcome(D * 64 + rot + sizeof(T) * 2048);
}

template<typename T> void funcDims() {
	switch(mc::choose(4)) {
		case 0: funcs<1, T>(); break;
		case 1: funcs<2, T>(); break;
		case 2: funcs<3, T>(); break;
		case 3: funcs<4, T>(); break;
	}
}

} // namespace

#if MC_IN_PART(1)
MC_SCENARIO("operations", "dimensions 1..4 and 6 of int, unsigned, int64, float, double, long double, short: min, max, multiply, divide, clamp, scalar operators, "
	"sum, product for all pairs of vectors over an alphabet of 8 (higher dimensions: 8 rotated alphabets) values", 3) {
	switch(mc::choose(7)) {
		case 5: dims<long double>(); break;
		case 6: dims<short>(); break;
		case 0: dims<int>(); break;
		case 1: dims<double>(); break;
		case 2: dims<float>(); break;
		case 3: dims<std::int64_t>(); break;
		case 4: dims<unsigned>(); break;
	}
}
#endif

#if MC_IN_PART(2)
MC_SCENARIO("functions", "the functions of the standard library on all float, double and long double vectors of dimension 1..4 over 8 values, in place and not", 2) {
	switch(mc::choose(3)) { case 0: funcDims<float>(); break; case 1: funcDims<double>(); break; case 2: funcDims<long double>(); break; }
}
#endif

#if MC_IN_PART(2)
MC_SCENARIO("integer_functions", "absolute value and power on all int and int64 vectors of dimension 1..4 over 8 values, in place and not", 2) {
	auto b = mc::flip();
	switch(mc::choose(4)) {
		case 0: if(b) intFuncs<1, int>(); else intFuncs<1, std::int64_t>(); break;
		case 1: if(b) intFuncs<2, int>(); else intFuncs<2, std::int64_t>(); break;
		case 2: if(b) intFuncs<3, int>(); else intFuncs<3, std::int64_t>(); break;
		case 3: if(b) intFuncs<4, int>(); else intFuncs<4, std::int64_t>(); break;
	}
}
#endif

namespace {
template<std::size_t D, typename T> void large() {
	auto n = gen::patterns(D);
	auto x = mc::choose(n);
	auto a = gen::pattern<Vec<D, T>>(D, x, gen::value<T>);
	scalars<D, T>(a);
	for(auto y = 0u; y < n; ++y) pair<D, T>(a, gen::pattern<Vec<D, T>>(D, y, gen::value<T>));
	// products with few factors other than +-1
	Vec<D, T> f {};
	auto p = decltype(a[0] * a[0])(1);
	for(auto i = 0u; i < D; ++i) { f[i] = T(i == x % D ? 5 : i % 7 == 3 ? 2 : 1); p *= f[i]; }
	MC_CHECK(nytl::multiply(f) == p, "multiply");
	if constexpr(std::is_floating_point_v<T>) {
		Vec<D, T> v {};
		for(auto i = 0u; i < D; ++i) v[i] = T(0.125) * T((i * 5 + x) % 19) + T(0.0625);
		const auto a0 = v;
#define FUNC(f) do { ALL(cw::f(v), static_cast<T>(std::f(a0[i]))); { auto c = v; cw::ip::f(c); ALL(c, static_cast<T>(std::f(a0[i]))); } } while(0)
		FUNC(abs); FUNC(sin); FUNC(cos); FUNC(tan); FUNC(asin); FUNC(acos); FUNC(atan); FUNC(sqrt); FUNC(log); FUNC(exp); FUNC(exp2); FUNC(floor); FUNC(ceil);
#undef FUNC
		ALL(cw::pow(v, T(2.5)), static_cast<T>(std::pow(a0[i], T(2.5))));
		{ auto c = v; cw::ip::pow(c, T(-2)); ALL(c, static_cast<T>(std::pow(a0[i], T(-2)))); }
		ALL(cw::pow(v, a), static_cast<T>(std::pow(a0[i], a[i])));
	}
	mc::step(n + 20);
	auto id = mc::comb(mc::comb(D * 64, x), mc::hashStr(typeid(T).name()));
	mc::state(id);
	mc::outcome(id);
}
template<typename T> void largeDims() {
	switch(mc::choose(6)) {
		case 0: large<5, T>(); break;
		case 1: large<7, T>(); break;
		case 2: large<8, T>(); break;
		case 3: large<9, T>(); break;
		case 4: large<16, T>(); break;
		case 5: large<33, T>(); break;
	}
}

template<std::size_t D, typename T> void specials() {
	auto k = gen::perComponent(D, 512);
	auto n = gen::ipow(k, D);
	auto rot = mc::choose(8);
	for(auto x = 0u; x < n; ++x) {
		Vec<D, T> a {};
		gen::fill(a, D, x, k, rot, gen::special<T>);
		const auto a0 = a;
		for(auto s = 0u; s < 8; ++s) {
			const T z = gen::special<T>(s);
			ALL(cw::max(a, z), (z > a0[i] ? z : a0[i]));
			ALL(cw::min(a, z), (z < a0[i] ? z : a0[i]));
			for(auto t = 0u; t < 8; ++t) {
				const T y = gen::special<T>(t);
				if(y < z) continue;
				ALL(cw::clamp(a, z, y), (a0[i] < z ? z : y < a0[i] ? y : a0[i]));
				{ auto c = a; cw::ip::clamp(c, z, y); ALL(c, (a0[i] < z ? z : y < a0[i] ? y : a0[i])); }
			}
		}
		if constexpr(std::is_floating_point_v<T>) ALL(cw::abs(a), std::abs(a0[i]));
		for(auto y = x % 3; y < n; y += 3) {
			Vec<D, T> b {}, lo {}, hi {}, v {};
			gen::fill(b, D, y, k, rot + y % 5, gen::special<T>);
			const auto b0 = b;
			ALL(cw::max(a, b), (b0[i] > a0[i] ? b0[i] : a0[i]));
			ALL(cw::min(a, b), (b0[i] < a0[i] ? b0[i] : a0[i]));
			for(auto i = 0u; i < D; ++i) { lo[i] = std::min(a[i], b[i]); hi[i] = std::max(a[i], b[i]); v[i] = gen::special<T>(i + y); }
			const auto v0 = v;
			ALL(cw::clamp(v, lo, hi), (v0[i] < lo[i] ? lo[i] : hi[i] < v0[i] ? hi[i] : v0[i]));
			{ auto c = v; cw::ip::clamp(c, lo, hi); ALL(c, (v0[i] < lo[i] ? lo[i] : hi[i] < v0[i] ? hi[i] : v0[i])); }
			if constexpr(std::is_floating_point_v<T>) {
				ALL(cw::multiply(a, b), a0[i] * b0[i]);
				ALL(cw::divide(a, b), a0[i] / b0[i]);
			}
		}
	}
	mc::step(n * 100);
	auto id = mc::comb(D * 64 + rot, mc::hashStr(typeid(T).name()));
	mc::state(id);
	mc::outcome(id);
}
template<typename T> void specialDims() {
	switch(mc::choose(3)) { case 0: specials<1, T>(); break; case 1: specials<2, T>(); break; case 2: specials<3, T>(); break; }
}
}

#if MC_IN_PART(3)
MC_SCENARIO("large", "dimensions 5, 7, 8, 9, 16 and 33 of int, double and float: all pairs of patterns and of vectors that differ in one component", 2) {
	switch(mc::choose(3)) { case 0: largeDims<int>(); break; case 1: largeDims<double>(); break; case 2: largeDims<float>(); break; }
}
#endif

#if MC_IN_PART(3)
MC_SCENARIO("special_values", "dimensions 1 to 3: minimum, maximum, clamping of vectors over the ends of the range (also infinity, denormalized numbers)", 2) {
	switch(mc::choose(6)) {
		case 0: specialDims<int>(); break;
		case 1: specialDims<double>(); break;
		case 2: specialDims<float>(); break;
		case 3: specialDims<std::int64_t>(); break;
		case 4: specialDims<unsigned>(); break;
		case 5: specialDims<short>(); break;
	}
}
#endif

#include "cplxgen.hpp"
#if MC_IN_PART(1)
MC_SCENARIO("complex", "pairs of vectors (dimensions 1, 2, 3, 4, 6) over 8 complex numbers (float and double): products, quotients, scalar operators, functions", 2) {
	cgen::dims([](auto dim, auto t) {
		constexpr std::size_t D = dim;
		using T = decltype(t);
		cgen::pairs<D, T>(mc::bound(36, 64, 64, 130), [](const nytl::Vec<D, T>& a, const nytl::Vec<D, T>& b) {
			namespace cw = nytl::vec::cw;
			const auto a0 = a, b0 = b;
			bool zero = false;
			for(auto i = 0u; i < D; ++i) zero |= b0[i] == T {};
			CALL(cw::multiply(a, b), a0[i] * b0[i]);
			if(!zero) CALL(cw::divide(a, b), a0[i] / b0[i]);
			{
				using namespace nytl::vec::cw::operators;
				{ auto c = a; c *= b; CALL(c, a0[i] * b0[i]); }
				if(!zero) { auto c = a; c /= b; CALL(c, a0[i] / b0[i]); }
				CALL(a + b0[0], a0[i] + b0[0]);
				CALL(b0[0] - a, b0[0] - a0[i]);
				CALL(a - b0[0], a0[i] - b0[0]);
			}
			CALL(cw::exp(a), std::exp(a0[i]));
			CALL(cw::sin(a), std::sin(a0[i]));
			CALL(cw::sqrt(a), std::sqrt(a0[i]));
			{ auto c = a; cw::ip::cos(c); CALL(c, std::cos(a0[i])); }
			CALL(cw::pow(a, 2), T(std::pow(a0[i], 2)));
			CALL(a, a0[i]);
			CALL(b, b0[i]);
		});
	});
}
#endif
