// C30: scalar helpers.
#include <nytl/math.hpp>
#include "mc.hpp"
#include <cmath>
#include <limits>

namespace {

bool near(double a, double b, double eps) { return std::abs(a - b) <= eps * std::max(1.0, std::max(std::abs(a), std::abs(b))); }
template<typename T> constexpr double eps = sizeof(T) == 4 ? 1e-5 : 1e-10;

// the documented constants have a finite number of digits
constexpr double deg = 57.29577951308232;

template<typename T> void angles(int k) {
	// k steps of 1/8 degree
	T d = T(k) / T(8);
	auto r = nytl::radians(d);
	MC_CHECK(near(r, double(d) / deg, eps<T>), "radians(%g) is %.12g instead of %.12g", double(d), double(r), double(d) / deg);
	auto b = nytl::degrees(T(r));
	MC_CHECK(near(b, d, eps<T>), "degrees(radians(%g)) is %.12g", double(d), double(b));
	T x = T(k) / T(64);
	MC_CHECK(near(nytl::degrees(x), double(x) * deg, eps<T>), "degrees(%g) is %.12g instead of %.12g", double(x), double(nytl::degrees(x)), double(x) * deg);
	MC_CHECK(near(nytl::radians(T(nytl::degrees(x))), x, eps<T>), "radians(degrees(%g)) is %.12g", double(x), double(nytl::radians(T(nytl::degrees(x)))));
	mc::eval(4);
}

template<typename P, typename T> void mixes(unsigned n) {
	auto v = [](unsigned i) { const double vals[] = {0, 1, -1, 2, -3.5, 100, 0.125, -1e4, 7, 12.25}; return P(std::is_unsigned_v<P> ? std::abs(vals[i % 10]) : vals[i % 10]); };
	P x = v(mc::choose(10)), y = v(mc::choose(10));
	mc::u64 h = mc::hashBytes(&x, sizeof(x)) * 3 + mc::hashBytes(&y, sizeof(y));
	for(auto i = 0u; i <= n; ++i) {
		T a = T(i) / T(n);
		auto m = nytl::mix(x, y, a);
		double e = double(x) + double(a) * (double(y) - double(x));
		MC_CHECK(std::abs(double(m) - e) <= eps<T> * std::max({1.0, std::abs(double(x)), std::abs(double(y))}), "mix(%g, %g, %g) is %g instead of %g", double(x), double(y), double(a), double(m), e);
		if(i == 0) MC_CHECK(double(m) == double(x), "mix(%g, %g, 0) is %g", double(x), double(y), double(m));
		if(i == n) MC_CHECK(double(m) == double(y), "mix(%g, %g, 1) is %g", double(x), double(y), double(m));
	}
	mc::eval(n + 1);
	mc::step(n + 1);
	mc::state(mc::comb(h, mc::hashStr(typeid(P).name()) + mc::hashStr(typeid(T).name()) * 3));
	mc::outcome(h);
}

template<typename P> void smooth(unsigned n) {
	const double mins[] = {0, -1, 3, -100.5, 1e4}, lens[] = {1, 2, 0.25, 1000, 1e-2};
	P min = P(mins[mc::choose(5)]);
	P max = P(double(min) + lens[mc::choose(5)]);
	double prev = 0;
	for(auto i = 0u; i <= 2 * n; ++i) {
		// from half of the range before to half of the range after
		P x = P(double(min) + (double(max) - double(min)) * (double(i) / n - 0.5));
		auto s = nytl::smoothstep(min, max, x);
		double t = (double(x) - double(min)) / (double(max) - double(min));
		t = t < 0 ? 0 : t > 1 ? 1 : t;
		double e = t * t * (3 - 2 * t);
		MC_CHECK(std::abs(s - e) <= (sizeof(P) == 4 ? 2e-3 : 1e-9), "smoothstep(%g, %g, %g) is %.12g instead of %.12g", double(min), double(max), double(x), double(s), e);
		if(x <= min) MC_CHECK(s == 0, "smoothstep(%g, %g, %g) is %g", double(min), double(max), double(x), double(s));
		if(x >= max) MC_CHECK(s == 1, "smoothstep(%g, %g, %g) is %g", double(min), double(max), double(x), double(s));
		MC_CHECK(s >= prev - 1e-6, "smoothstep(%g, %g, %g) decreases", double(min), double(max), double(x));
		prev = s;
	}
	mc::eval(2 * n + 1);
	mc::step(2 * n + 1);
	mc::u64 h = mc::comb(mc::hashBytes(&min, sizeof(P)), mc::hashBytes(&max, sizeof(P)));
	mc::state(mc::comb(h, sizeof(P)));
	mc::outcome(h);
}

} // namespace

MC_SCENARIO("angles", "all angles in steps of 1/8 degree and 1/64 radian up to +-5 turns, float and double: values and round trips", 1) {
	auto c = mc::choose(64);
	for(auto i = 0; i < 450; ++i) {
		auto k = int(c * 450 + i) - 14400;
		angles<double>(k);
		angles<float>(k);
	}
	mc::step(900);
	mc::state(c);
	mc::outcome(c);
}

MC_SCENARIO("mix", "all pairs of 10 values and all factors i / 64 (thorough: i / 4096), of float, double and integers (signed and unsigned, 16 to 64 bit), factor types float and double", 1) {
	unsigned n = mc::tier(64, 4096);
	switch(mc::choose(9)) {
		case 4: mixes<unsigned, double>(n); break;
		case 5: mixes<std::uint64_t, double>(n); break;
		case 6: mixes<short, float>(n); break;
		case 7: mixes<std::uint16_t, double>(n); break;
		case 8: mixes<std::int64_t, double>(n); break;
		case 0: mixes<double, double>(n); break;
		case 1: mixes<float, float>(n); break;
		case 2: mixes<float, double>(n); break;
		case 3: mixes<int, double>(n); break;
	}
}

MC_SCENARIO("smoothstep", "25 ranges, all positions in steps of 1/512 of the range (thorough: 1/65536), also outside of it", 1) {
	unsigned n = mc::tier(512, 65536);
	if(mc::flip()) smooth<double>(n); else smooth<float>(n);
}

MC_SCENARIO("factorial", "all factorials that fit into an unsigned long", 0) {
	unsigned long e = 1;
	for(auto i = 0u; i <= 20; ++i) {
		if(i) e *= i;
		MC_CHECK(nytl::factorial(i) == e, "factorial(%u) is %lu instead of %lu", i, nytl::factorial(i), e);
	}
	mc::eval(21);
	mc::step(21);
	mc::state(1);
	mc::outcome(e);
}

MC_SCENARIO("constants", "pi, e and degree, to ten digits", 1) {
	MC_CHECK(std::abs(nytl::constants::pi - 3.14159265358979) < 1e-10, "pi is %.15g", double(nytl::constants::pi));
	MC_CHECK(std::abs(nytl::constants::e - 2.71828182845904) < 1e-10, "e is %.15g", double(nytl::constants::e));
	MC_CHECK(std::abs(nytl::constants::degree - 0.0174532925199433) < 1e-11, "degree is %.15g", double(nytl::constants::degree));
	mc::step(3);
	mc::state(1);
	mc::outcome(1);
}

MC_SCENARIO("clamp", "all triples of 13 values with min <= max, incl. infinity; any previous value of the flag", 1) {
	const float inf = std::numeric_limits<float>::infinity();
	const float v[] = {0.f, 1.f, -1.f, 0.5f, -0.5f, 2.f, -2.f, 1e-30f, 1e30f, -1e30f, inf, -inf, 1.0000001f};
	auto x = v[mc::choose(13)];
	for(auto min : v) for(auto max : v) {
		if(min > max) continue;
		for(auto init : {0, 1, -1, 77}) {
			auto store = init;
			auto r = nytl::clampStore(x, min, max, store);
			static_assert(std::is_same_v<decltype(r), float>);
			auto e = x < min ? min : x > max ? max : x;
			MC_CHECK(r == e, "clampStore(%g, %g, %g) is %g", x, min, max, r);
			// a value on a bound may count as clamped or not
			if(x > min && x < max) MC_CHECK(store == 0, "clampStore(%g, %g, %g) stored %d", x, min, max, store);
			else if(x < min) MC_CHECK(store == -1, "clampStore(%g, %g, %g) stored %d", x, min, max, store);
			else if(x > max) MC_CHECK(store == 1, "clampStore(%g, %g, %g) stored %d", x, min, max, store);
			else MC_CHECK(store == 0 || (store == -1 && x == min) || (store == 1 && x == max), "clampStore(%g, %g, %g) stored %d", x, min, max, store);
		}
		mc::eval(4);
	}
	mc::step(300);
	mc::state(mc::hashBytes(&x, 4));
	mc::outcome(mc::hashBytes(&x, 4));
}

MC_SCENARIO("all floats", "all finite floats (quick: every 5th, with sanitizers: every 4099th): radians, degrees, smoothstep in [-1, 3], clampStore to [-2, 5], mix of 3 and -1", 1) {
	auto c = mc::choose(4096);
	const mc::u64 stride = mc::bound(4099, mc::thorough() ? 1 : 5, 61, 1);
	mc::u64 n = 0;
	for(mc::u64 i = mc::u64(c) << 20; i < mc::u64(c + 1) << 20; i += stride) {
		mc::u32 bits = mc::u32(i);
		float x;
		std::memcpy(&x, &bits, 4);
		if(!std::isfinite(x)) continue;
		++n;
		double d = x;
		double r = nytl::radians(x), g = nytl::degrees(x);
		if(std::abs(r - d / deg) > 1e-6 * std::abs(d)) mc::fail("radians(%.9g) is %.12g", d, r);
		if(std::abs(g - d * deg) > 1e-6 * std::abs(d * deg)) mc::fail("degrees(%.9g) is %.12g", d, g);
		double t = (d + 1) / 4;
		t = t < 0 ? 0 : t > 1 ? 1 : t;
		double s = nytl::smoothstep(-1.f, 3.f, x);
		if(std::abs(s - t * t * (3 - 2 * t)) > 1e-5) mc::fail("smoothstep(-1, 3, %.9g) is %.12g", d, s);
		int store = 77;
		auto cl = nytl::clampStore(x, -2.f, 5.f, store);
		if(cl != (x < -2.f ? -2.f : x > 5.f ? 5.f : x)) mc::fail("clampStore(%.9g, -2, 5) is %.9g", d, double(cl));
		if(x < -2.f ? store != -1 : x > 5.f ? store != 1 : x != -2.f && x != 5.f && store != 0) mc::fail("clampStore(%.9g, -2, 5) stored %d", d, store);
		if(std::abs(d) < 1e30) {
			double m = nytl::mix(3.f, -1.f, x);
			if(std::abs(m - (3 - 4 * d)) > 1e-5 * std::max(1.0, std::abs(d))) mc::fail("mix(3, -1, %.9g) is %.12g", d, m);
		}
	}
	mc::eval(n * 5);
	mc::step(n);
	mc::state(c + 1000);
	mc::outcome(c);
}
