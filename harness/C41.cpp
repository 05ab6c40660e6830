// C41: NonCopyable and NonMovable, and the classes that are built on them.
#include <nytl/nonCopyable.hpp>
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/scope.hpp>
#include "mc.hpp"
#include <memory>
#include <string>

namespace {

template<typename B> struct Direct : B { int v {}; };
template<typename B> class Private : B { public: int v {}; };
template<typename B> class Protected : protected B { public: int v {}; };
template<typename B> struct Second : Direct<B> { std::string s {"text that does not fit into small buffers"}; };
struct Other { int o {5}; };
template<typename B> struct Multi : Other, B { std::string s {"other text that does not fit into buffers"}; int v {}; };
template<typename B> struct MultiFirst : B, Other { std::vector<int> s {1, 2, 3}; int v {}; };
template<typename B> struct Member { Direct<B> m; int v {}; };
template<typename B> struct Array { Direct<B> m[2]; int v {}; };
template<typename B> struct Owner : B { std::unique_ptr<int> p {new int(7)}; int v {}; };
template<typename B> struct Ctor : B { Ctor(int x = 3) : v(x) {} int v; };
template<typename B> struct Virt : B { virtual ~Virt() = default; Virt() = default; Virt(Virt&&) = default; Virt& operator=(Virt&&) = default; int v {}; };
template<typename B> struct VirtBase : virtual B { int v {}; };
template<typename B> struct Final final : B { int v {}; };
template<typename B> struct Nested { struct In : B { int v {}; } in; std::tuple<int> t; int v {}; };

struct Answer { const char* name; bool copyC, copyNC, copyA, copyNA, constMoveC, constMoveA, moveC, moveA, defaultC; };

template<typename T> Answer ask(const char* n) {
	return {n, std::is_constructible_v<T, const T&>, std::is_constructible_v<T, T&>,
		std::is_assignable_v<T&, const T&>, std::is_assignable_v<T&, T&>, std::is_constructible_v<T, const T>, std::is_assignable_v<T&, const T>,
		std::is_constructible_v<T, T>, std::is_assignable_v<T&, T>, std::is_default_constructible_v<T>};
}
template<typename B> std::vector<Answer> derived() {
	return {ask<Direct<B>>("direct"), ask<Private<B>>("private"), ask<Protected<B>>("protected"), ask<Second<B>>("second"), ask<Multi<B>>("multi"),
		ask<MultiFirst<B>>("multiFirst"), ask<Member<B>>("member"), ask<Array<B>>("array"), ask<Owner<B>>("owner"), ask<Ctor<B>>("ctor"),
		ask<Virt<B>>("virt"), ask<VirtBase<B>>("virtBase"), ask<Final<B>>("final"), ask<Nested<B>>("nested")};
}

MC_SCENARIO("traits", "14 ways of using NonCopyable and NonMovable as base, all ways of copying and moving", 1) {
	bool mov = mc::flip();
	auto v = mov ? derived<nytl::NonMovable>() : derived<nytl::NonCopyable>();
	auto i = mc::choose(v.size());
	auto& a = v[i];
	mc::step(9);
	MC_CHECK(!a.copyC && !a.copyNC && !a.constMoveC, "%s of %s can be copied", a.name, mov ? "NonMovable" : "NonCopyable");
	MC_CHECK(!a.copyA && !a.copyNA && !a.constMoveA, "%s of %s can be copy assigned", a.name, mov ? "NonMovable" : "NonCopyable");
	MC_CHECK(a.moveC == !mov, "%s of %s: move constructible %d", a.name, mov ? "NonMovable" : "NonCopyable", a.moveC);
	MC_CHECK(a.moveA == !mov, "%s of %s: move assignable %d", a.name, mov ? "NonMovable" : "NonCopyable", a.moveA);
	MC_CHECK(a.defaultC, "%s: not default constructible", a.name);
	mc::state(i * 2 + mov);
	mc::outcome(i * 2 + mov);
}

MC_SCENARIO("library", "copying and moving of callbacks, connections and scope guards of the library", 1) {
	using Cb = nytl::Callback<void()>;
	using RCb = nytl::RecursiveCallback<int(int)>;
	using TCb = nytl::TrackedCallback<void()>;
	using TRCb = nytl::TrackedRecursiveCallback<void(std::string)>;
	auto fn = []{};
	using Fn = decltype(fn);
	const Answer cb[] = {ask<Cb>("Callback"), ask<RCb>("RecursiveCallback"), ask<TCb>("TrackedCallback"), ask<TRCb>("TrackedRecursiveCallback")};
	const Answer un[] = {ask<nytl::UniqueConnection>("UniqueConnection"), ask<nytl::TrackedUniqueConnection>("TrackedUniqueConnection")};
	const Answer con[] = {ask<nytl::Connection>("Connection"), ask<nytl::TrackedConnection>("TrackedConnection")};
	const Answer sc[] = {ask<nytl::ScopeGuard<Fn>>("ScopeGuard"), ask<nytl::SuccessGuard<Fn>>("SuccessGuard"), ask<nytl::ExceptionGuard<Fn>>("ExceptionGuard")};
	auto i = mc::choose(4);
	mc::step();
	auto check = [](const Answer& a, bool copy) {
		MC_CHECK(a.copyC == copy && a.copyNC == copy && a.copyA == copy && a.copyNA == copy, "%s: copying", a.name);
	};
	// (assigning to a callback replaces its functions with the assigned function)
	if(i == 0) for(auto& a : cb) MC_CHECK(!a.copyC && !a.copyNC && !a.constMoveC && !a.moveC, "%s: copying", a.name);
	if(i == 1) for(auto& a : un) { check(a, false); MC_CHECK(a.moveC && a.moveA && a.defaultC, "%s: moving", a.name); }
	if(i == 2) for(auto& a : con) { check(a, true); MC_CHECK(a.moveC && a.moveA && a.defaultC, "%s: moving", a.name); }
	if(i == 3) for(auto& a : sc) { check(a, false); MC_CHECK(!a.moveC && !a.moveA, "%s: moving", a.name); }
	mc::state(i);
	mc::outcome(i);
}

// Moving keeps the values
template<typename T> void moves() {
	int x = 10 + mc::choose(3);
	T a;
	a.v = x;
	T b = std::move(a);
	MC_CHECK(b.v == x, "move construction");
	T c;
	c.v = -1;
	c = std::move(b);
	MC_CHECK(c.v == x, "move assignment");
	if constexpr(std::is_base_of_v<Other, T>) MC_CHECK(c.o == 5, "second base");
	mc::step(2);
}
MC_SCENARIO("moves", "moving objects of 11 classes derived from NonCopyable", 1) {
	using B = nytl::NonCopyable;
	auto i = mc::choose(11);
	switch(i) {
		case 0: moves<Direct<B>>(); break;
		case 1: moves<Private<B>>(); break;
		case 2: moves<Second<B>>(); break;
		case 3: moves<Multi<B>>(); break;
		case 4: moves<MultiFirst<B>>(); break;
		case 5: moves<Member<B>>(); break;
		case 6: moves<Array<B>>(); break;
		case 7: moves<Owner<B>>(); break;
		case 8: moves<Ctor<B>>(); break;
		case 9: moves<Virt<B>>(); break;
		default: moves<Nested<B>>(); break;
	}
	mc::state(i);
	mc::outcome(i);
}

} // anon namespace

