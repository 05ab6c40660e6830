// C18: flags behave like sets of bits.
#include <nytl/flags.hpp>
#include "mc.hpp"
#include <cstdint>

namespace {

enum class E8 : std::uint8_t { a = 1, b = 2, c = 4, d = 128 };
NYTL_FLAG_OPS(E8)
enum class E16 : std::uint16_t { a = 1, b = 0x100, c = 0x8000 };
NYTL_FLAG_OPS(E16)
enum class E32 : std::uint32_t { a = 1, b = 1u << 16, c = 1u << 31 };
NYTL_FLAG_OPS(E32)
enum class E64 : std::uint64_t { a = 1, b = 1ull << 32, c = 1ull << 63, d = 1ull << 31 };
NYTL_FLAG_OPS(E64)
enum class ES : int { a = 1, b = 64, c = 1 << 30, n = INT32_MIN };
NYTL_FLAG_OPS(ES)
enum class EI8 : signed char { a = 1, b = 2, c = 64, n = -128 };
NYTL_FLAG_OPS(EI8)
enum class EI16 : short { a = 1, b = 256, c = 0x4000, n = -0x8000 };
NYTL_FLAG_OPS(EI16)
enum class EI64 : std::int64_t { a = 1, b = 1ll << 32, c = 1ll << 62, n = INT64_MIN };
NYTL_FLAG_OPS(EI64)

template<typename F> struct EnumOf;
template<typename E, typename U> struct EnumOf<nytl::Flags<E, U>> { using type = E; };
template<typename F, typename U> F mk(U v) { return F(static_cast<typename EnumOf<F>::type>(v)); }

#define EQ(expr, val) do { mc::tick(); if(!(U((expr).value()) == U(val))) mc::fail("%s: %s is %llx instead of %llx", name, #expr, \
	(unsigned long long)(expr).value(), (unsigned long long)(U(val))); } while(0)

// all operations on two sets of bits

template<typename E> void pair(const char* name, std::underlying_type_t<E> x, std::underlying_type_t<E> y) {
	using U = std::underlying_type_t<E>;
	using F = nytl::Flags<E>;
	const auto a = mk<F>(x), b = mk<F>(y);
	mc::eval(14);
	EQ(a | b, U(x | y));
	EQ(a & b, U(x & y));
	EQ(a ^ b, U(x ^ y));
	{ auto c = a; auto& r = (c |= b); EQ(c, U(x | y)); if(&r != &c) mc::fail("%s: |= returns another object", name); }
	{ auto c = a; auto& r = (c &= b); EQ(c, U(x & y)); if(&r != &c) mc::fail("%s: &= returns another object", name); }
	{ auto c = a; auto& r = (c ^= b); EQ(c, U(x ^ y)); if(&r != &c) mc::fail("%s: ^= returns another object", name); }
	{ auto c = a; c |= c; EQ(c, x); c &= c; EQ(c, x); c ^= c; EQ(c, U(0)); }
	EQ(a, x);
	EQ(b, y);
	if((a == b) != (x == y) || (a != b) != (x != y)) mc::fail("%s: comparison of %llx and %llx", name, (unsigned long long)x, (unsigned long long)y);
	if(static_cast<U>(a) != x || bool(a) != (x != 0)) mc::fail("%s: conversion of %llx", name, (unsigned long long)x);
	F copy = a;
	EQ(copy, x);
	copy = b;
	EQ(copy, y);
}

// one operand is a value of the enumeration
template<typename E> void single(const char* name, E e, std::underlying_type_t<E> x) {
	using U = std::underlying_type_t<E>;
	using F = nytl::Flags<E>;
	const auto a = mk<F>(x);
	auto v = static_cast<U>(e);
	mc::eval(10);
	EQ(F(e), v);
	EQ(a | e, U(x | v));
	EQ(a & e, U(x & v));
	EQ(a ^ e, U(x ^ v));
	EQ(e | a, U(x | v));
	EQ(e & a, U(x & v));
	EQ(e ^ a, U(x ^ v));
	{ auto c = a; c |= e; EQ(c, U(x | v)); }
	{ auto c = a; c &= e; EQ(c, U(x & v)); }
	{ auto c = a; c ^= e; EQ(c, U(x ^ v)); }
	EQ(F(nytl::invertFlags, e), U(~v));
	EQ(~e, U(~v));
	EQ(a & ~e, U(x & U(~v)));
	EQ(a | ~e, U(x | U(~v)));
	if((a == e) != (x == v) || (a != e) != (x != v)) mc::fail("%s: comparison with value", name);
	F f = e;
	EQ(f, v);
	f = F();
	EQ(f, U(0));
	f = e;
	EQ(f, v);
}

template<typename E> void ofValues(const char* name, E e, E f) {
	using U = std::underlying_type_t<E>;
	auto x = static_cast<U>(e), y = static_cast<U>(f);
	mc::eval(4);
	EQ(e | f, U(x | y));
	EQ(e & f, U(x & y));
	EQ(e ^ f, U(x ^ y));
	static_assert(std::is_same_v<decltype(e | f), nytl::Flags<E>> && std::is_same_v<decltype(~e), nytl::Flags<E>>);
}

template<typename E, std::size_t N> void all(const char* name, const E (&vals)[N]) {
	using U = std::underlying_type_t<E>;
	using F = nytl::Flags<E>;
	// every subset of the values, and its complement
	auto subset = [&](unsigned m) { U r {}; for(auto i = 0u; i < N; ++i) if(m & (1u << i)) r |= static_cast<U>(vals[i]); return r; };
	auto m1 = mc::choose(2u << N), m2 = mc::choose(2u << N);
	auto x = m1 >> N ? U(~subset(m1)) : subset(m1), y = m2 >> N ? U(~subset(m2)) : subset(m2);
	pair<E>(name, x, y);
	for(auto e : vals) { single<E>(name, e, x); for(auto f : vals) ofValues<E>(name, e, f); }
	// expression programs: all sequences of 4 operations with enum values
	for(auto prog = 0u; prog < 3 * N * 3 * N * 3 * N; ++prog) {
		F f = mk<F>(x);
		U v = x;
		auto p = prog;
		for(auto i = 0; i < 3; ++i) {
			auto op = p % 3; p /= 3;
			auto e = vals[p % N]; p /= N;
			auto ev = static_cast<U>(e);
			switch(op) {
				case 0: if(i % 2) f |= e; else f = f | e; v = U(v | ev); break;
				case 1: if(i % 2) f &= ~e; else f = f & ~e; v = U(v & U(~ev)); break;
				case 2: if(i % 2) f ^= e; else f = e ^ f; v = U(v ^ ev); break;
			}
		}
		mc::eval();
		EQ(f, v);
		if((f == mk<F>(v)) != true || (f != mk<F>(v)) != false) mc::fail("%s: comparison", name);
	}
	mc::step(60);
	mc::state(mc::comb(mc::hashStr(name), m1 * 1000 + m2));
	mc::outcome(mc::comb(mc::hashStr(name), mc::comb(mc::u64(x), mc::u64(y))));
}

} // namespace

MC_SCENARIO("uint8_exhaustive", "all 2^16 pairs of 8 bit flag sets, all operations", 1) {
	auto x = mc::choose(256);
	for(auto y = 0u; y < 256; ++y) pair<E8>("uint8", x, y);
	for(auto e : {E8::a, E8::b, E8::c, E8::d}) single<E8>("uint8", e, x);
	mc::step(256 * 14);
	mc::state(x);
	mc::outcome(x);
}

MC_SCENARIO("widths", "enums over uint8, uint16, uint32, uint64, int (including the sign bit): all pairs of "
	"subsets and their complements, all programs of 3 operations", 3) {
	switch(mc::choose(5)) {
		case 0: { const E8 v[] = {E8::a, E8::b, E8::c, E8::d}; all<E8>("uint8", v); break; }
		case 1: { const E16 v[] = {E16::a, E16::b, E16::c}; all<E16>("uint16", v); break; }
		case 2: { const E32 v[] = {E32::a, E32::b, E32::c}; all<E32>("uint32", v); break; }
		case 3: { const E64 v[] = {E64::a, E64::b, E64::c, E64::d}; all<E64>("uint64", v); break; }
		case 4: { const ES v[] = {ES::a, ES::b, ES::c, ES::n}; all<ES>("int", v); break; }
	}
}

namespace {

// all sets of one or two bits, without a bit, ranges of bits; each also inverted
template<typename U> U word(unsigned i) {
	using V = std::make_unsigned_t<U>;
	constexpr auto n = sizeof(U) * 8;
	auto inv = i % 2;
	i /= 2;
	V v = i < n ? V(V(1) << i) : i < 2 * n ? V(V(~V(0)) >> (i - n)) : i < 3 * n - 1 ? V(V(3) << (i - 2 * n)) : i == 3 * n - 1 ? V(0) : V(0x5a5a5a5a5a5a5a5aull);
	return U(inv ? V(~v) : v);
}
template<typename U> constexpr unsigned words = 2 * (3 * sizeof(U) * 8 + 1);

template<typename E> void bits(const char* name) {
	using U = std::underlying_type_t<E>;
	auto i = mc::choose(words<U>);
	auto x = word<U>(i);
	for(auto j = 0u; j < words<U>; ++j) {
		auto y = word<U>(j);
		pair<E>(name, x, y);
		// any combination may be stored in the enumeration
		single<E>(name, static_cast<E>(y), x);
		ofValues<E>(name, static_cast<E>(x), static_cast<E>(y));
	}
	mc::step(words<U> * 27);
	auto id = mc::comb(mc::hashStr(name), i);
	mc::state(id);
	mc::outcome(id);
}

// values stored in another type than the underlying type
template<typename E, typename W> void stored(const char* name) {
	using U = W;
	using F = nytl::Flags<E, W>;
	using B = std::underlying_type_t<E>;
	auto i = mc::choose(words<B>);
	auto e = static_cast<E>(word<B>(i));
	auto v = static_cast<W>(e);
	for(auto j = 0u; j < words<B>; ++j) for(auto k = 0u; k < 2; ++k) {
		auto f = static_cast<E>(word<B>(j));
		auto y = k ? W(~static_cast<W>(f)) : static_cast<W>(f);
		const F a = k ? F(nytl::invertFlags, f) : F(f);
		mc::eval(14);
		EQ(a, y);
		EQ(F(e), v);
		EQ(F(nytl::invertFlags, e), W(~v));
		EQ((a | e), W(y | v));
		EQ((a & e), W(y & v));
		EQ((a ^ e), W(y ^ v));
		EQ((a | F(nytl::invertFlags, e)), W(y | W(~v)));
		EQ((a & F(nytl::invertFlags, e)), W(y & W(~v)));
		EQ((a ^ F(nytl::invertFlags, e)), W(y ^ W(~v)));
		{ auto c = a; c |= e; EQ(c, W(y | v)); c ^= a; EQ(c, W(W(y | v) ^ y)); }
		{ auto c = a; c &= e; EQ(c, W(y & v)); }
		{ auto c = a; c ^= e; EQ(c, W(y ^ v)); c = F(); EQ(c, W(0)); }
		if((a == F(e)) != (y == v) || (a != F(e)) != (y != v)) mc::fail("%s: comparison", name);
		if(static_cast<W>(a) != y || bool(a) != (y != 0)) mc::fail("%s: conversion of %llx", name, (unsigned long long)y);
	}
	mc::step(words<B> * 28);
	auto id = mc::comb(mc::hashStr(name), i);
	mc::state(id);
	mc::outcome(id);
}

} // namespace

MC_SCENARIO("bits", "enums over all 8 integer types: all pairs of sets of one or two bits, of ranges of bits, and their complements, as flags and as values", 2) {
	switch(mc::choose(9)) {
		case 0: bits<E8>("uint8"); break;
		case 1: bits<E16>("uint16"); break;
		case 2: bits<E32>("uint32"); break;
		case 3: bits<E64>("uint64"); break;
		case 4: bits<ES>("int"); break;
		case 5: bits<EI8>("int8"); break;
		case 6: bits<EI16>("int16"); break;
		case 7: bits<EI64>("int64"); break;
		case 8: { const EI64 v[] = {EI64::a, EI64::b, EI64::c, EI64::n}; all<EI64>("int64", v); break; }
	}
}

MC_SCENARIO("stored", "values of enumerations stored in wider types: all pairs as in bits", 2) {
	switch(mc::choose(6)) {
		case 0: stored<E8, unsigned>("uint8 in unsigned"); break;
		case 1: stored<E8, std::uint64_t>("uint8 in uint64"); break;
		case 2: stored<E32, std::uint64_t>("uint32 in uint64"); break;
		case 3: stored<ES, std::int64_t>("int in int64"); break;
		case 4: stored<ES, unsigned>("int in unsigned"); break;
		case 5: stored<E16, std::uint32_t>("uint16 in uint32"); break;
	}
}
