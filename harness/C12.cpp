// C12: spans view exactly the elements they were created for.
#include <nytl/span.hpp>
#include "mc.hpp"
#include <array>
#include <string>
#include <vector>

namespace {

struct Big { int a; double b; char c; bool operator==(const Big& o) const { return a == o.a && b == o.b && c == o.c; } };

template<typename T> T mk(int i);
template<> int mk<int>(int i) { return i * 3 + 1; }
template<> std::string mk<std::string>(int i) { return "element " + std::to_string(i); }
template<> Big mk<Big>(int i) { return {i, i * .5, char('a' + i)}; }
template<> std::uint8_t mk<std::uint8_t>(int i) { return i + 1; }

// the span must show exactly [ptr, ptr + n)
template<typename E, std::size_t X>
void same(nytl::span<E, X> s, const std::remove_const_t<E>* ptr, std::size_t n, const char* what) {
	mc::step();
	MC_CHECK(s.size() == n, "%s: size %d instead of %d", what, int(s.size()), int(n));
	MC_CHECK(s.size_bytes() == n * sizeof(E), "%s: size_bytes", what);
	MC_CHECK(s.empty() == (n == 0), "%s: empty", what);
	MC_CHECK(n == 0 || s.data() == ptr, "%s: data is %d elements off", what, int(s.data() - ptr));
	MC_CHECK(s.end() - s.begin() == std::ptrdiff_t(n) && s.cend() - s.cbegin() == std::ptrdiff_t(n), "%s: iterators", what);
	std::size_t i = 0;
	for(auto& e : s) { MC_CHECK(&e == ptr + i, "%s: iteration", what); ++i; }
	MC_CHECK(i == n, "%s: iterated over %d elements", what, int(i));
	for(i = 0; i < n; ++i) {
		MC_CHECK(&s[i] == ptr + i && &s(i) == ptr + i, "%s: element %d", what, int(i));
		MC_CHECK(&*(s.rbegin() + i) == ptr + (n - 1 - i) && &*(s.crbegin() + i) == ptr + (n - 1 - i), "%s: reverse iteration", what);
	}
	MC_CHECK(s.rend() - s.rbegin() == std::ptrdiff_t(n) && s.crend() - s.crbegin() == std::ptrdiff_t(n), "%s: reverse iterators", what);
	if(n) MC_CHECK(&s.front() == ptr && &s.back() == ptr + n - 1, "%s: front, back", what);
	auto b = nytl::as_bytes(s);
	MC_CHECK(b.size() == n * sizeof(E), "%s: as_bytes size", what);
	MC_CHECK(n == 0 || static_cast<const void*>(b.data()) == static_cast<const void*>(ptr), "%s: as_bytes data", what);
	static_assert(decltype(b)::extent == (X == nytl::dynamic_extent ? nytl::dynamic_extent : X * sizeof(E)));
	if constexpr(!std::is_const_v<E>) {
		auto w = nytl::as_writeable_bytes(s);
		MC_CHECK(w.size() == n * sizeof(E), "%s: as_writeable_bytes size", what);
		MC_CHECK(n == 0 || static_cast<const void*>(w.data()) == static_cast<const void*>(ptr), "%s: as_writeable_bytes data", what);
	}
	nytl::span<const E> cs = s; // conversions
	MC_CHECK(cs.size() == n && (n == 0 || cs.data() == ptr), "%s: conversion", what);
	nytl::span<E, X> cp = s;
	MC_CHECK(cp.size() == n && (n == 0 || cp.data() == ptr), "%s: copy", what);
	mc::state(mc::comb(n, sizeof(E) * 1000 + X));
}

// all chains of subviews
template<typename E, std::size_t X>
void chain(nytl::span<E, X> s, const std::remove_const_t<E>* ptr, std::size_t n, int depth) {
	same(s, ptr, n, "view");
	mc::outcome(mc::comb(mc::comb(n, depth), X));
	if(depth == 0) return;
	switch(mc::choose(5)) {
		case 0: return;
		case 1: {
			auto c = mc::choose(n + 1);
			mc::note("first(%u)", c);
			chain(s.first(c), ptr, c, depth - 1);
			break;
		}
		case 2: {
			auto c = mc::choose(n + 1);
			mc::note("last(%u)", c);
			chain(s.last(c), ptr + (n - c), c, depth - 1);
			break;
		}
		case 3: {
			auto o = mc::choose(n + 1);
			mc::note("subspan(%u)", o);
			chain(s.subspan(o), ptr + o, n - o, depth - 1);
			break;
		}
		case 4: {
			auto o = mc::choose(n + 1);
			auto c = mc::choose(n - o + 1);
			mc::note("subspan(%u, %u)", o, c);
			chain(s.subspan(o, c), ptr + o, c, depth - 1);
			break;
		}
	}
}

// static subviews
template<std::size_t C, typename E, std::size_t X>
void fixed(nytl::span<E, X> s, const std::remove_const_t<E>* ptr, std::size_t n) {
	if(C > n) return;
	auto f = s.template first<C>();
	static_assert(decltype(f)::extent == C);
	same(f, ptr, C, "first<N>");
	auto l = s.template last<C>();
	static_assert(decltype(l)::extent == C);
	same(l, ptr + (n - C), C, "last<N>");
	auto r = s.template subspan<C>();
	static_assert(decltype(r)::extent == (X == nytl::dynamic_extent ? nytl::dynamic_extent : (X >= C ? X - C : 0)));
	same(r, ptr + C, n - C, "subspan<O>");
	if(C + 1 <= n) {
		auto q = s.template subspan<C, 1>();
		static_assert(decltype(q)::extent == 1);
		same(q, ptr + C, 1, "subspan<O, 1>");
	}
	if(C + 2 <= n) same(s.template subspan<C, 2>(), ptr + C, 2, "subspan<O, 2>");
	auto z = s.template subspan<C, 0>();
	same(z, ptr + C, 0, "subspan<O, 0>");
	chain(f, ptr, C, 1);
}

template<typename E, std::size_t X>
void allFixed(nytl::span<E, X> s, const std::remove_const_t<E>* ptr, std::size_t n) {
	constexpr auto max = X == nytl::dynamic_extent ? 4 : X;
	switch(mc::choose(5)) {
		case 0: fixed<0>(s, ptr, n); break;
		case 1: if constexpr(max >= 1) fixed<1>(s, ptr, n); break;
		case 2: if constexpr(max >= 2) fixed<2>(s, ptr, n); break;
		case 3: if constexpr(max >= 3) fixed<3>(s, ptr, n); break;
		case 4: if constexpr(max >= 4) fixed<4>(s, ptr, n); break;
	}
}

template<typename T, std::size_t N> void fromArrays(int depth) {
	// guard elements around the viewed storage, to see views that are off
	struct { T pre; T arr[N]; T post; } st;
	std::array<T, N> sa;
	for(auto i = 0u; i < N; ++i) st.arr[i] = sa[i] = mk<T>(i);
	const auto& csa = sa;
	const auto& carr = st.arr;
	nytl::span<T, N> s1(st.arr);
	nytl::span<T> s2(st.arr);
	nytl::span<const T, N> s3(carr);
	nytl::span<T, N> s4(sa);
	nytl::span<const T> s5(csa);
	nytl::span<const T, N> s6(csa);
	nytl::span s7(st.arr);
	nytl::span s8(sa);
	nytl::span s9(csa);
	static_assert(std::is_same_v<decltype(s7), nytl::span<T, N>> && std::is_same_v<decltype(s8), nytl::span<T, N>> &&
		std::is_same_v<decltype(s9), nytl::span<const T, N>>);
	auto s10 = nytl::make_span(st.arr);
	nytl::span<T, N> s11(s2); // dynamic to fixed
	nytl::span<const T, N> s12(s1);
	nytl::span<T> s13(s4);
	switch(mc::choose(13)) {
		case 0: chain(s1, st.arr, N, depth); break;
		case 1: chain(s2, st.arr, N, depth); break;
		case 2: chain(s3, st.arr, N, 1); break;
		case 3: chain(s4, sa.data(), N, 1); break;
		case 4: chain(s5, sa.data(), N, 1); break;
		case 5: chain(s6, sa.data(), N, 1); break;
		case 6: chain(s10, st.arr, N, 1); break;
		case 7: chain(s11, st.arr, N, 1); break;
		case 8: chain(s12, st.arr, N, 1); break;
		case 9: chain(s13, sa.data(), N, 1); break;
		case 10: allFixed(s1, st.arr, N); break;
		case 11: allFixed(s2, st.arr, N); break;
		case 12: same(s7, st.arr, N, "deduced"); same(s8, sa.data(), N, "deduced"); same(s9, sa.data(), N, "deduced"); break;
	}
}

template<typename T> void fromContainers(int depth) {
	auto n = mc::choose(7);
	std::vector<T> v;
	for(auto i = 0u; i < n; ++i) v.push_back(mk<T>(i));
	const auto& cv = v;
	switch(mc::choose(10)) {
		case 0: chain(nytl::span<T>(v), v.data(), n, depth); break;
		case 1: chain(nytl::span<const T>(cv), v.data(), n, depth - 1); break;
		case 2: chain(nytl::span<const T>(v), v.data(), n, 1); break;
		case 3: chain(nytl::span<T>(v.data(), std::size_t(n)), v.data(), n, 1); break;
		case 4: chain(nytl::span<T>(v.data(), v.data() + n), v.data(), n, 1); break;
		case 5: chain(nytl::make_span(v), v.data(), n, 1); chain(nytl::make_span(cv), v.data(), n, 1); break;
		case 6: chain(nytl::make_span(v.data(), std::size_t(n)), v.data(), n, 1); break;
		case 7: chain(nytl::make_span(v.data(), v.data() + n), v.data(), n, 1); break;
		case 8: {
			nytl::span a(v);
			nytl::span b(cv);
			static_assert(std::is_same_v<decltype(a), nytl::span<T>> && std::is_same_v<decltype(b), nytl::span<const T>>);
			same(a, v.data(), n, "deduced");
			same(b, v.data(), n, "deduced");
			nytl::span<T> e;
			same(e, nullptr, 0, "empty");
			a = e; // assignment
			same(a, nullptr, 0, "assigned");
			a = nytl::span<T>(v);
			same(a, v.data(), n, "assigned");
			break;
		}
		case 9: allFixed(nytl::span<T>(v), v.data(), n); break;
	}
}

template<typename T> void types(int depth) {
	switch(mc::choose(6)) {
		case 0: fromArrays<T, 1>(depth); break;
		case 1: fromArrays<T, 2>(depth); break;
		case 2: fromArrays<T, 3>(depth); break;
		case 3: fromArrays<T, 4>(depth); break;
		case 4: fromArrays<T, 6>(depth); break;
		case 5: fromContainers<T>(depth); break;
	}
}

} // namespace

MC_SCENARIO("views", "spans of int, uint8, string and a struct over arrays, std::arrays, vectors, pointers with 0..6 "
	"elements; all chains of first, last, subspan with all arguments, static and dynamic", 3) {
	auto d = mc::bound(2, 3, 3, 4);
	switch(mc::choose(4)) {
		case 0: types<int>(d); break;
		case 1: types<std::string>(d - 1); break;
		case 2: types<Big>(d - 1); break;
		case 3: types<std::uint8_t>(d - 1); break;
	}
}

MC_SCENARIO("writes", "writing each element through each view of a vector changes exactly that element", 2) {
	int n = 1 + mc::choose(5);
	int o = mc::choose(n), c = 1 + mc::choose(n - o);
	int i = mc::choose(c);
	std::vector<int> v(n, 0), e(n, 0);
	auto s = nytl::span<int>(v).subspan(o, c);
	switch(mc::choose(5)) {
		case 0: s[i] = 5; break;
		case 1: s(i) = 5; break;
		case 2: *(s.begin() + i) = 5; break;
		case 3: *(s.rbegin() + (c - 1 - i)) = 5; break;
		case 4: {
			int x = 5;
			auto b = nytl::as_writeable_bytes(s);
			std::memcpy(&b[i * sizeof(int)], &x, sizeof(x));
			break;
		}
	}
	e[o + i] = 5;
	MC_CHECK(v == e, "write through the view changed other elements");
	mc::step();
	mc::state(mc::comb(n * 100 + o * 10 + c, i));
	mc::outcome(mc::comb(n, o + i));
}

MC_SCENARIO("comparisons", "all pairs of sequences over {0, 1, 2} with up to 4 elements, fixed and dynamic extents", 3) {
	auto seq = [](std::vector<int>& v) {
		auto n = mc::choose(5);
		for(auto i = 0u; i < n; ++i) v.push_back(mc::choose(3));
	};
	std::vector<int> a, b;
	seq(a);
	seq(b);
	nytl::span<const int> sa(a), sb(b);
	MC_CHECK((sa == sb) == (a == b), "==");
	MC_CHECK((sa != sb) == (a != b), "!=");
	MC_CHECK((sa < sb) == (a < b), "<");
	MC_CHECK((sa <= sb) == (a <= b), "<=");
	MC_CHECK((sa > sb) == (a > b), ">");
	MC_CHECK((sa >= sb) == (a >= b), ">=");
	if(a.size() == 2) {
		nytl::span<const int, 2> fa(sa);
		MC_CHECK((fa == sb) == (a == b) && (sb == fa) == (a == b), "== with different extents");
		if(b.size() == 2) {
			nytl::span<const int, 2> fb(sb);
			MC_CHECK((fa == fb) == (a == b) && (fa != fb) == (a != b) && (fa < fb) == (a < b) &&
				(fa <= fb) == (a <= b) && (fa > fb) == (a > b) && (fa >= fb) == (a >= b), "fixed extents");
		}
	}
	mc::step(6);
	mc::state(mc::hashBytes(a.data(), a.size() * 4, mc::hashBytes(b.data(), b.size() * 4)));
	mc::outcome(mc::hashBytes(a.data(), a.size() * 4, mc::hashBytes(b.data(), b.size() * 4)));
}

namespace {

// sizes around powers of two, where a size kept in a smaller type or a special case would show
std::vector<std::size_t> sizes(std::size_t max) {
	std::vector<std::size_t> r;
	for(auto n = std::size_t(8); n <= max; n *= 2)
		for(auto k : {-1, 0, 1}) if(n + k <= max) r.push_back(n + k);
	for(auto n : {5, 10, 100, 300, 1000, 70000}) if(std::size_t(n) <= max) r.push_back(n);
	return r;
}

template<typename E, std::size_t X>
void slices(nytl::span<E, X> s, const std::remove_const_t<E>* ptr, std::size_t n, bool all) {
	auto at = [&](auto sub, std::size_t off, std::size_t c, const char* what) {
		if(all) return same(sub, ptr + off, c, what);
		mc::eval();
		MC_CHECK(sub.size() == c && sub.data() == ptr + off && sub.size_bytes() == c * sizeof(E) && sub.empty() == (c == 0) &&
			std::size_t(sub.end() - sub.begin()) == c, "%s", what);
		if(c) MC_CHECK(&sub.front() == ptr + off && &sub.back() == ptr + off + c - 1 && &sub[c / 2] == ptr + off + c / 2 && &sub(c - 1) == ptr + off + c - 1 &&
			&*sub.rbegin() == ptr + off + c - 1, "%s: elements", what);
		auto b = nytl::as_bytes(sub);
		MC_CHECK(b.size() == c * sizeof(E) && static_cast<const void*>(b.data()) == static_cast<const void*>(ptr + off), "%s: bytes", what);
	};
	at(s, 0, n, "whole");
	std::vector<std::size_t> pos;
	for(auto d : {std::size_t(0), std::size_t(1), std::size_t(2), n / 2, n - 2, n - 1, n}) if(d <= n) pos.push_back(d);
	for(auto d = std::size_t(8); d < n; d *= 2) { pos.push_back(d - 1); pos.push_back(d); if(d + 1 <= n) pos.push_back(d + 1); }
	for(auto o : pos) {
		at(s.first(o), 0, o, "first");
		at(s.last(o), n - o, o, "last");
		at(s.subspan(o), o, n - o, "subspan(o)");
		for(auto c : pos) if(o + c <= n) at(s.subspan(o, c), o, c, "subspan(o, c)");
	}
}

template<typename T> void largeSpans(std::size_t max) {
	auto ns = sizes(max);
	auto n = ns[mc::choose(ns.size())];
	std::vector<T> v(n);
	if constexpr(std::is_arithmetic_v<T>) for(auto i = 0u; i < n; ++i) v[i] = T(i * 7);
	const auto& cv = v;
	mc::note("%d elements", int(n));
	slices(nytl::span<T>(v), v.data(), n, n < 300);
	slices(nytl::span<const T>(cv), v.data(), n, false);
	slices(nytl::span<T>(v.data(), n), v.data(), n, false);
	slices(nytl::span<T>(v.data(), v.data() + n), v.data(), n, false);
	slices(nytl::make_span(v), v.data(), n, false);
	same(nytl::span<const T>(v), v.data(), n, "large");
	mc::outcome(mc::comb(n, sizeof(T)));
}

template<typename T, std::size_t N> void largeFixed() {
	static std::array<T, N> a;
	static T c[N];
	slices(nytl::span<T, N>(a), a.data(), N, false);
	slices(nytl::span<const T, N>(c), c, N, false);
	slices(nytl::span<T>(a), a.data(), N, false);
	nytl::span<T> d(c);
	same(nytl::span<T, N>(d), c, N, "fixed");
	same(d.template first<N>(), c, N, "first<N>");
	same(d.template last<N - 1>(), c + 1, N - 1, "last<N>");
	same(d.template subspan<N / 2, N / 2>(), c + N / 2, N / 2, "subspan<O, N>");
	same(nytl::span<T, N>(a).template subspan<3>(), a.data() + 3, N - 3, "subspan<O>");
	mc::outcome(mc::comb(N, sizeof(T)));
}

template<typename T> void longComparison(std::initializer_list<T> values) {
	auto ns = sizes(300);
	auto n = ns[mc::choose(ns.size())];
	std::vector<T> a(n, *values.begin());
	for(auto& x : values) a.back() = a[n / 2] = x;
	auto compare = [](const std::vector<T>& a, const std::vector<T>& b) {
		mc::eval();
		nytl::span<const T> sa(a), sb(b);
		MC_CHECK((sa == sb) == (a == b) && (sa != sb) == (a != b) && (sa < sb) == (a < b) && (sa <= sb) == (a <= b) && (sa > sb) == (a > b) &&
			(sa >= sb) == (a >= b), "comparison of %d and %d elements", int(a.size()), int(b.size()));
	};
	for(auto k = 0u; k < n; ++k) {
		for(auto& x : values) for(auto& y : values) {
			auto b = a, c = a;
			b[k] = x;
			c[k] = y;
			compare(b, c);
			if(k + 1 < n) { b[n - 1] = y; c[n - 1] = x; compare(b, c); } // two differences
		}
		std::vector<T> b(a.begin(), a.begin() + k); // a prefix
		compare(a, b);
		compare(b, a);
		if(n < 70) for(auto& x : values) if(k) { b[k - 1] = x; compare(a, b); compare(b, a); }
	}
	mc::outcome(mc::comb(n, sizeof(T)));
}

} // namespace

MC_SCENARIO("large", "spans of 5 to 2^17 (uint8: 2^20) elements of 4 types around all powers of two, fixed ones of up to 70000; all slices at ends, middle and around all powers of two", 2) {
	switch(mc::choose(11)) {
		case 0: largeSpans<std::uint8_t>(mc::bound(1 << 17, 1 << 20, 1 << 20, 1 << 22)); break;
		case 1: largeSpans<int>(1 << 17); break;
		case 2: largeSpans<std::string>(1 << 10); break;
		case 3: largeSpans<Big>(1 << 12); break;
		case 4: largeFixed<std::uint8_t, 255>(); break;
		case 5: largeFixed<std::uint8_t, 256>(); break;
		case 6: largeFixed<std::uint8_t, 257>(); break;
		case 7: largeFixed<std::uint8_t, 70000>(); break;
		case 8: largeFixed<int, 17>(); break;
		case 9: largeFixed<int, 33000>(); break;
		case 10: largeFixed<double, 128>(); break;
	}
}

MC_SCENARIO("huge", "spans of around 2^31, 2^32 and 2^33 bytes and elements (memory that is only reserved): sizes, elements and slices", 1) {
	const auto total = (std::size_t(1) << 34) + 64;
	auto mem = mmap(nullptr, total, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(mem == MAP_FAILED) return;
	auto bits = 30 + mc::choose(4);
	auto n = (std::size_t(1) << bits) - 2 + mc::choose(4);
	slices(nytl::span<const std::uint8_t>(static_cast<const std::uint8_t*>(mem), n), static_cast<const std::uint8_t*>(mem), n, false);
	slices(nytl::span<const int>(static_cast<const int*>(mem), n / 2), static_cast<const int*>(mem), n / 2, false);
	auto d = nytl::span<const int>(static_cast<const int*>(mem), static_cast<const int*>(mem) + n / 2);
	MC_CHECK(d.size() == n / 2 && nytl::as_bytes(d).size() == n / 2 * 4, "size of %zu elements", n / 2);
	mc::outcome(n);
	munmap(mem, total);
}

MC_SCENARIO("long_comparisons", "sequences of 5 to 300 elements that differ in one or two places, and prefixes, for types whose order is not that of their bytes", 2) {
	switch(mc::choose(7)) {
		case 0: longComparison<int>({0, -1, 256}); break;
		case 1: longComparison<unsigned>({1, 0x100, 0x01000000}); break;
		case 2: longComparison<std::int8_t>({0, -1, 127}); break;
		case 3: longComparison<std::uint8_t>({0, 128, 255}); break;
		case 4: longComparison<double>({0.0, -0.0, -1.5, 2.0}); break;
		case 5: longComparison<std::string>({"", "a", "ab"}); break;
		case 6: longComparison<std::int64_t>({0, -1, std::int64_t(1) << 40}); break;
	}
}
