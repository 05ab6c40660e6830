// C40: compile time information about callables and expressions.
// The whole grid of (form, return type, parameter list) is instantiated; the
// answers of the headers are compared one by one.
#include <nytl/functionTraits.hpp>
#include <nytl/tmpUtil.hpp>
#include "mc.hpp"
#include <functional>
#include <memory>
#include <string>

namespace {

struct Cls { int m; };
struct Incomplete;
template<typename... T> struct L { static constexpr std::size_t size = sizeof...(T); };

// A functor with the given signature
template<typename R, typename... A> struct Fun { R operator()(A...); };
template<typename R, typename... A> struct ConstFun { R operator()(A...) const; };
template<typename R, typename... A> struct NoexFun { R operator()(A...) noexcept; };
template<typename R, typename... A> struct ConstNoexFun { R operator()(A...) const noexcept; };
template<typename R, typename... A> struct DerivedFun : Fun<R, A...> {};
struct Base2 { int x; };
template<typename R, typename... A> struct DerivedConstFun : Base2, ConstFun<R, A...> { void other(int, int, int, int); };

// reference implementation of the i-th type
template<std::size_t I, typename H, typename... T> struct Nth { using type = typename Nth<I - 1, T...>::type; };
template<typename H, typename... T> struct Nth<0, H, T...> { using type = H; };

struct Answer { bool known, callable, ret, count, isConst, tuple, args, sig, cls; };

template<typename F, typename C, typename = void> struct ClassOk { static constexpr bool value = std::is_same_v<C, void>; };
template<typename F, typename C> struct ClassOk<F, C, std::void_t<typename nytl::FunctionTraits<F>::Class>> {
	static constexpr bool value = std::is_same_v<C, typename nytl::FunctionTraits<F>::Class>;
};

template<typename F, typename... A, std::size_t... I> constexpr bool argsOk(std::index_sequence<I...>) {
	return (std::is_same_v<typename nytl::FunctionTraits<F>::template ArgType<I>, typename Nth<I, A...>::type> && ... && true);
}

template<typename F, bool Const, bool Callable, typename C, typename R, typename... A> constexpr Answer ask() {
	using Tr = nytl::FunctionTraits<F>;
	using Sig = std::conditional_t<Const, R(A...) const, R(A...)>;
	return {true, !Callable || nytl::isCallable<F>, std::is_same_v<typename Tr::ReturnType, R>,
		Tr::NumArgs == sizeof...(A), Tr::IsConst == Const, std::is_same_v<typename Tr::ArgTuple, std::tuple<A...>>,
		argsOk<F, A...>(std::make_index_sequence<sizeof...(A)>()), std::is_same_v<typename Tr::Signature, Sig>, ClassOk<F, C>::value};
}

template<typename R, typename... A> Answer form(unsigned f) {
	using P = R(*)(A...);
	using M = R(Cls::*)(A...);
	using CM = R(Cls::*)(A...) const;
	using Fn = Fun<R, A...>;
	using CFn = ConstFun<R, A...>;
	using D = DerivedFun<R, A...>;
	using DC = DerivedConstFun<R, A...>;
	using S = std::function<R(A...)>;
	using NF = NoexFun<R, A...>;
	using CNF = ConstNoexFun<R, A...>;
	switch(f) {
		case 0: return ask<R(A...), false, true, void, R, A...>();
		case 1: return ask<R(A...) const, true, false, void, R, A...>();
		case 2: return ask<P, true, true, void, R, A...>();
		case 3: return ask<M, false, true, Cls, R, A...>();
		case 4: return ask<CM, true, true, const Cls, R, A...>();
		case 5: return ask<Fn, false, true, Fn, R, A...>();
		case 6: return ask<CFn, true, true, const CFn, R, A...>();
		case 7: return ask<Fn&, false, true, Fn, R, A...>();
		case 8: return ask<CFn&&, true, true, const CFn, R, A...>();
		case 9: return ask<P&, true, true, void, R, A...>();
		case 10: return ask<M&&, false, true, Cls, R, A...>();
		case 11: return ask<CM&, true, true, const Cls, R, A...>();
		case 12: return ask<R(&)(A...), false, true, void, R, A...>();
		case 13: return ask<D, false, true, Fn, R, A...>();
		case 14: return ask<DC, true, true, const CFn, R, A...>();
		case 15: return ask<const CFn, true, true, const CFn, R, A...>();
		case 16: return ask<const CFn&, true, true, const CFn, R, A...>();
		case 17: return ask<S, true, true, const S, R, A...>();
		case 18: return ask<R(A...) noexcept, false, true, void, R, A...>();
		case 19: return ask<R(*)(A...) noexcept, true, true, void, R, A...>();
		case 20: return ask<R(Cls::*)(A...) noexcept, false, true, Cls, R, A...>();
		case 21: return ask<R(Cls::*)(A...) const noexcept, true, true, const Cls, R, A...>();
		case 22: return ask<NF, false, true, NF, R, A...>();
		case 23: return ask<CNF, true, true, const CNF, R, A...>();
		case 24: return ask<R(&)(A...) noexcept, false, true, void, R, A...>();
		case 25: return ask<const P, true, true, void, R, A...>();
		case 26: return ask<const P&, true, true, void, R, A...>();
		case 27: return ask<const M, false, true, Cls, R, A...>();
		case 28: return ask<const CM&, true, true, const Cls, R, A...>();
		case 29: return ask<const Fn&, false, true, Fn, R, A...>();
		case 30: return ask<R(A...) const noexcept, true, false, void, R, A...>();
		case 31: return ask<const NF&&, false, true, NF, R, A...>();
		default: return {};
	}
}
constexpr unsigned forms = 32;

using Lists = L<
	L<>, L<int>, L<const int&>, L<std::string&&>, L<Cls*>, L<std::string>, L<Incomplete&>,
	L<int, int>, L<int, const int&>, L<const int&, int>, L<std::string&&, Cls*>, L<Cls*, std::string&>, L<char, Cls>, L<Cls, char>,
	L<Incomplete&, const Incomplete*>, L<std::unique_ptr<int>, std::unique_ptr<int>&>, L<double, const char*>, L<void*, void(*)(int)>,
	L<int, char, int>, L<char, int, int>, L<int, int, char>, L<const int&, int&, int&&>, L<Cls, std::string, double&>, L<int(&)[3], int, char*>,
	L<int, int, int, int>, L<int, char, double, Cls>, L<Cls, double, char, int>, L<const char*, int, std::string, std::string&>,
	L<int, unsigned, long, char, short>, L<bool, Cls&, Cls&&, const Cls&, Cls*, const Cls*>, L<int, int, int, int, int, int, int, char>>;
using Rets = L<void, int, const int&, std::string, std::unique_ptr<int>, Cls*, Incomplete&, void(*)(int)>;

template<typename R, typename... A> Answer ofList(unsigned f, L<A...>) { return form<R, A...>(f); }
template<typename R, typename... Ls> Answer ofLists(unsigned f, unsigned l, L<Ls...>) {
	using Fp = Answer(*)(unsigned);
	static const Fp fp[] = {+[](unsigned g) { return ofList<R>(g, Ls {}); }...};
	return fp[l](f);
}
template<typename... R> Answer ofRets(unsigned f, unsigned r, unsigned l, L<R...>) {
	using Fp = Answer(*)(unsigned, unsigned);
	static const Fp fp[] = {+[](unsigned g, unsigned k) { return ofLists<R>(g, k, Lists {}); }...};
	return fp[r](f, l);
}

MC_SCENARIO("traits", "32 forms of callables (signatures, function and member function pointers, functors, references to them, noexcept and const ones, "
	"derived and const functors, std::function) x 8 return types x 31 parameter lists of up to 8 parameters", 2) {
	auto f = mc::choose(forms), r = mc::choose(Rets::size), l = mc::choose(Lists::size);
	auto a = ofRets(f, r, l, Rets {});
	mc::note("form %u return %u list %u", f, r, l);
	mc::step(9);
	MC_CHECK(a.known, "form %u", f);
	MC_CHECK(a.callable, "form %u ret %u list %u: isCallable", f, r, l);
	MC_CHECK(a.ret, "form %u ret %u list %u: ReturnType", f, r, l);
	MC_CHECK(a.count, "form %u ret %u list %u: NumArgs", f, r, l);
	MC_CHECK(a.isConst, "form %u ret %u list %u: IsConst", f, r, l);
	MC_CHECK(a.tuple, "form %u ret %u list %u: ArgTuple", f, r, l);
	MC_CHECK(a.args, "form %u ret %u list %u: ArgType", f, r, l);
	MC_CHECK(a.sig, "form %u ret %u list %u: Signature", f, r, l);
	MC_CHECK(a.cls, "form %u ret %u list %u: Class", f, r, l);
	mc::state(f * 10000 + r * 100 + l);
	mc::outcome(f * 10000 + r * 100 + l);
}

// - isCallable: things that cannot be called -
enum E1 { e1 };
enum class E2 { e2 };
union U { int a; float b; };
struct Conv { operator int() const; };
struct Named { void call(); static int operate(int); };
struct FpMember { void (*fp)(); };
template<typename... T> std::vector<bool> callables(L<T...>) { return {nytl::isCallable<T>...}; }
using NotCallable = L<const int&, Cls* const&, Cls&&, void(**const)(), std::string&, int Cls::*const, int, bool, double, char, void, void*, int*, std::nullptr_t, E1, E2, U, Cls, Conv, Named, FpMember, std::string,
	std::unique_ptr<int>, std::vector<int>, std::tuple<>, int&, const int&, int&&, Cls&, int[3], int Cls::*, std::pair<int, int>,
	Incomplete*, const Cls, std::function<void()>*, void(**)(int), std::unique_ptr<std::function<void()>>>;
struct St { int operator()(int) const; private: int x; };
struct Varying { template<typename T> void foo(T); void operator()(const Varying&); };
using YesCallable = L<std::function<void()>&, const std::function<void()>&, std::hash<int>&&, void(*const)(), void(*&)() noexcept, int(Cls::*const&)(int) const noexcept, std::function<void()>, std::hash<int>, std::is_enum<int>, std::less<int>, St, const St, Varying, std::plus<int>>;

MC_SCENARIO("callable", "isCallable of 38 types that cannot be called and 14 types that can, and of lambdas", 1) {
	auto no = callables(NotCallable {});
	auto yes = callables(YesCallable {});
	auto i = mc::choose(no.size() + yes.size());
	mc::step();
	if(i < no.size()) MC_CHECK(!no[i], "type %u of the list of types that cannot be called", i);
	else MC_CHECK(yes[i - no.size()], "type %u of the list of types that can be called", unsigned(i - no.size()));
	int n = 0;
	auto l1 = [](int, char&) { return 1.f; };
	auto l2 = [&](std::string) mutable { ++n; };
	auto l3 = [=](int) -> const int& { return n; };
	bool ok[] = {nytl::isCallable<decltype(l1)>, nytl::isCallable<decltype(l2)>, nytl::isCallable<decltype(l3)>,
		std::is_same_v<nytl::FunctionTraits<decltype(l1)>::Signature, float(int, char&) const>,
		std::is_same_v<nytl::FunctionTraits<decltype(l2)>::Signature, void(std::string)>,
		std::is_same_v<nytl::FunctionTraits<decltype(l3)&>::Signature, const int&(int) const>,
		nytl::FunctionTraits<decltype(l1)>::NumArgs == 2, nytl::FunctionTraits<decltype(l2)>::IsConst == false};
	for(auto b : ok) MC_CHECK(b, "lambda");
	mc::state(i);
	mc::outcome(i);
}

// - validExpression: compared with the corresponding standard traits -
template<typename T, typename O> using Assign = decltype(std::declval<T>() = std::declval<O>());
template<typename T, typename O> using Call = decltype(std::declval<T>()(std::declval<O>()));
template<typename T> using Call0 = decltype(std::declval<T>()());
template<typename T> using Deref = decltype(*std::declval<T>());
template<typename T> using ValueType = typename T::value_type;
template<typename T> using Size = decltype(std::declval<const T&>().size());
template<typename T, typename O> using Plus = decltype(std::declval<T>() + std::declval<O>());
template<typename... T> using AllSum = decltype((std::declval<T>() + ...));
template<typename T> using If = std::enable_if_t<(sizeof(T) > 4)>;
template<typename A, typename B, typename C> using Three = decltype(std::declval<A>() ? std::declval<B>() : std::declval<C>());

// independent detection by overload resolution
template<template<typename...> typename E, typename... T> struct Detect {
	template<template<typename...> typename X, typename = X<T...>> static std::true_type test(int);
	template<template<typename...> typename X> static std::false_type test(long);
	static constexpr bool value = decltype(test<E>(0))::value;
};
using Ts = L<int, int&, const int&, double, int*, const char*, std::string, std::string&, const std::string&, Cls, Cls&, std::vector<int>,
	std::unique_ptr<int>, std::unique_ptr<int>&, std::function<int(int)>, void(*)(), int(*)(std::string), std::less<int>, std::nullptr_t, bool>;

struct Pair { bool got, expected; };
template<template<typename...> typename E, typename... T> constexpr Pair cmp() { return {nytl::validExpression<E, T...>, Detect<E, T...>::value}; }
template<typename T, typename O> void two(std::vector<Pair>& v) {
	v.push_back({nytl::validExpression<Assign, T, O>, std::is_assignable_v<T, O>});
	v.push_back({nytl::validExpression<Call, T, O>, std::is_invocable_v<T, O>});
	v.push_back(cmp<Plus, T, O>());
	v.push_back(cmp<AllSum, T, O>());
	v.push_back(cmp<AllSum, T, O, int>());
	v.push_back(cmp<Three, bool, T, O>());
	v.push_back(cmp<Three, T, O, O>());
}
template<typename T> void one(std::vector<Pair>& v) {
	v.push_back({nytl::validExpression<Call0, T>, std::is_invocable_v<T>});
	v.push_back(cmp<Deref, T>());
	v.push_back(cmp<ValueType, T>());
	v.push_back(cmp<Size, T>());
	v.push_back(cmp<AllSum, T>());
	v.push_back(cmp<AllSum, T, T, T>());
	v.push_back({nytl::validExpression<If, T>, (sizeof(T) > 4)});
}
template<typename T, typename... O> std::vector<Pair> row(unsigned j, L<O...>) {
	using Fp = void(*)(std::vector<Pair>&);
	static const Fp fp[] = {&two<T, O>...};
	std::vector<Pair> v;
	one<T>(v);
	fp[j](v);
	return v;
}
template<typename... T> std::vector<Pair> rows(unsigned i, unsigned j, L<T...>) {
	using Fp = std::vector<Pair>(*)(unsigned);
	static const Fp fp[] = {+[](unsigned k) { return row<T>(k, Ts {}); }...};
	return fp[i](j);
}
MC_SCENARIO("expressions", "validExpression of 14 expressions over all pairs of 20 types", 2) {
	auto i = mc::choose(Ts::size), j = mc::choose(Ts::size);
	auto v = rows(i, j, Ts {});
	mc::step(v.size());
	mc::u64 h = 0;
	for(auto k = 0u; k < v.size(); ++k) {
		MC_CHECK(v[k].got == v[k].expected, "types %u %u expression %u: validExpression is %d instead of %d", i, j, k, v[k].got, v[k].expected);
		h = h * 2 + v[k].got;
	}
	mc::state(i * 100 + j);
	mc::outcome(h);
}

// - LastType, Variadic, templatize, unused, Expand -
template<typename... T> struct Last;
template<typename T> struct Last<T> { using type = T; };
template<typename H, typename N, typename... T> struct Last<H, N, T...> { using type = typename Last<N, T...>::type; };
template<typename... A> bool lastOk(L<A...>) {
	if constexpr(sizeof...(A) == 0) return true;
	else return std::is_same_v<nytl::LastType<A...>, typename Last<A...>::type>;
}
template<typename... A> bool variadicOk(L<A...>) {
	return (std::is_same_v<nytl::Variadic<Cls, A>, Cls> && ... && true) && (std::is_same_v<nytl::Variadic<A, int>, A> && ... && true);
}
template<typename... Ls> std::vector<Pair> utils(L<Ls...>) {
	return {Pair {lastOk(Ls {}), variadicOk(Ls {})}...};
}

MC_SCENARIO("utilities", "LastType and Variadic of 31 type lists, templatize and unused for all value categories, "
	"order of Expand", 1) {
	auto v = utils(Lists {});
	auto i = mc::choose(v.size());
	mc::step(2);
	MC_CHECK(v[i].got, "LastType of list %u", i);
	MC_CHECK(v[i].expected, "Variadic of list %u", i);

	std::string s("a string that is too long for small buffers");
	const std::string cs(s);
	auto&& a = nytl::templatize<int>(s);
	auto&& b = nytl::templatize<Cls>(cs);
	auto&& c = nytl::templatize<void>(std::move(s));
	static_assert(true);
	bool types = std::is_same_v<decltype(nytl::templatize<int>(s)), std::string&> &&
		std::is_same_v<decltype(nytl::templatize<int>(cs)), const std::string&> &&
		std::is_same_v<decltype(nytl::templatize<int>(std::move(s))), std::string&&>;
	MC_CHECK(types, "templatize: types");
	MC_CHECK(&a == &s && &b == &cs && &c == &s && s == cs, "templatize: object");
	std::unique_ptr<int> up(new int(5));
	nytl::unused(s, cs, std::move(s), std::move(up), 5, "a");
	nytl::unused();
	MC_CHECK(s == cs && up && *up == 5, "unused changes its arguments");
	std::string order;
	(void) nytl::Expand {((void) (order += "a"), 0), ((void) (order += "b"), 0), ((void) (order += "c"), 0)};
	MC_CHECK(order == "abc", "order of Expand");
	mc::state(i);
	mc::outcome(i);
}

} // anon namespace

