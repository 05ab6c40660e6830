// C09: every function of a call receives the arguments of the call.
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include "mc.hpp"
#include <memory>
#include <string>
#include <vector>

namespace {

struct Obj { // counts its value in an own allocation, moved from objects are empty
	std::unique_ptr<int> v;
	Obj() = default;
	explicit Obj(int i) : v(std::make_unique<int>(i)) {}
	Obj(const Obj& o) : v(o.v ? std::make_unique<int>(*o.v) : nullptr) {}
	Obj(Obj&&) noexcept = default;
	Obj& operator=(const Obj& o) { v = o.v ? std::make_unique<int>(*o.v) : nullptr; return *this; }
	Obj& operator=(Obj&&) noexcept = default;
};

std::string str(int i) { return "a string that is too long for the small buffer " + std::to_string(i); }

template<typename T> T make(int i);
template<> int make<int>(int i) { return i; }
template<> std::string make<std::string>(int i) { return str(i); }
template<> std::vector<int> make<std::vector<int>>(int i) { return {i, i + 1, i + 2}; }
template<> std::shared_ptr<int> make<std::shared_ptr<int>>(int i) { return std::make_shared<int>(i); }
template<> Obj make<Obj>(int i) { return Obj(i); }

bool is(const int& v, int i) { return v == i; }
bool is(const std::string& v, int i) { return v == str(i); }
bool is(const std::vector<int>& v, int i) { return v == std::vector<int>{i, i + 1, i + 2}; }
bool is(const std::shared_ptr<int>& v, int i) { return v && *v == i; }
bool is(const Obj& v, int i) { return v.v && *v.v == i; }

void modify(int& v) { v = -7; }
void modify(std::string& v) { v.clear(); }
void modify(std::vector<int>& v) { v.clear(); }
void modify(std::shared_ptr<int>& v) { v.reset(); }
void modify(Obj& v) { v.v.reset(); }

int depth = 0;
int ncalled = 0;

// What a handler does with its arguments: reads, changes or moves out of its
// own copy, accepts them as rvalue, calls the callback again with them.
template<typename CB, typename T> void addByValue(CB& cb, int kind, int a, int b, bool connForm, bool nested) {
	auto body = [&cb, a, b, nested](const T& x, const int& y) {
		++ncalled;
		MC_CHECK(is(x, a), "a function received another first argument than the one of the call");
		MC_CHECK(y == b, "a function received another second argument than the one of the call");
		if(nested && depth == 0) {
			++depth;
			cb.call(x, y);
			--depth;
			MC_CHECK(is(x, a), "argument changed by a nested call");
		}
	};
	using C = typename CB::Connection;
	if(connForm) {
		if constexpr(std::is_same<CB, nytl::RecursiveCallback<typename CB::Signature>>::value) {
			switch(kind) {
				case 0: cb.add([=](C, const T& x, int y) { body(x, y); return y; }); break;
				case 1: cb.add([=](C, T x, int y) { body(x, y); modify(x); y = 0; return y; }); break;
				case 2: cb.add([=](C, T&& x, int y) { body(x, y); modify(x); return y; }); break;
				case 3: cb.add([=](C, T x, int y) { body(x, y); T z = std::move(x); modify(z); return y; }); break;
			}
			return;
		}
	}
	switch(kind) {
		case 0: cb.add([=](const T& x, int y) { body(x, y); return y; }); break;
		case 1: cb.add([=](T x, int y) { body(x, y); modify(x); y = 0; return y; }); break;
		case 2: cb.add([=](T&& x, int y) { body(x, y); T z = std::move(x); return y; }); break;
		case 3: cb.add([=](T x, int y) { body(x, y); T z = std::move(x); modify(z); return y; }); break;
	}
}

template<typename CB, typename T> void byValue(bool recursive) {
	CB cb;
	int n = 1 + mc::choose(mc::bound(3, 4, 4, 5));
	int a = 3, b = 8;
	mc::u64 h = n;
	for(auto i = 0; i < n; ++i) {
		int kind = mc::choose(4);
		bool conn = recursive && mc::flip();
		bool nested = recursive && mc::flip();
		mc::note("function %d: kind %d, connection form %d, nested call %d", i, kind, conn, nested);
		h = mc::comb(h, kind * 4 + conn * 2 + nested);
		addByValue<CB, T>(cb, kind, a, b, conn, nested);
	}
	depth = ncalled = 0;
	auto arg = make<T>(a);
	switch(mc::choose(3)) {
		case 0: cb.call(arg, b); MC_CHECK(is(arg, a), "argument of the caller changed"); break;
		case 1: cb(arg, b); MC_CHECK(is(arg, a), "argument of the caller changed"); break;
		case 2: cb.call(make<T>(a), b); break;
	}
	mc::step(ncalled);
	MC_CHECK(ncalled >= n, "not all functions called");
	mc::state(h);
	mc::outcome(mc::comb(h, ncalled));
}

// references: the object of the caller, changes are visible to the next ones
template<typename CB, typename T> void byRef(bool recursive) {
	CB cb;
	int n = 1 + mc::choose(mc::bound(3, 4, 4, 5));
	T arg = make<T>(0);
	const T carg = make<T>(55);
	int count = 0;
	mc::u64 h = n;
	for(auto i = 0; i < n; ++i) {
		bool writes = mc::flip();
		bool conn = recursive && mc::flip();
		h = mc::comb(h, writes * 2 + conn);
		auto body = [&, writes](T& x, const T& y) {
			MC_CHECK(&x == &arg, "reference argument does not refer to the object of the caller");
			MC_CHECK(&y == &carg, "const reference argument does not refer to the object of the caller");
			MC_CHECK(is(x, count), "reference argument has the wrong value");
			if(writes) x = make<T>(++count);
			mc::step();
		};
		using C = typename CB::Connection;
		if constexpr(std::is_same<CB, nytl::RecursiveCallback<typename CB::Signature>>::value) {
			if(conn) { cb.add([=](C, T& x, const T& y) { body(x, y); }); continue; }
		}
		cb.add([=](T& x, const T& y) { body(x, y); });
	}
	if(mc::flip()) cb.call(arg, carg); else cb(arg, carg);
	MC_CHECK(is(arg, count), "changes are not visible to the caller");
	MC_CHECK(is(carg, 55), "constant argument changed");
	mc::state(h);
	mc::outcome(mc::comb(h, count));
}

template<template<typename, typename> class CBT> void all(bool recursive) {
	using ID = nytl::ConnectionID;
	switch(mc::choose(9)) {
		case 0: byValue<CBT<void(int, int), ID>, int>(recursive); break;
		case 1: byValue<CBT<int(std::string, int), ID>, std::string>(recursive); break;
		case 2: byValue<CBT<void(std::vector<int>, int), ID>, std::vector<int>>(recursive); break;
		case 3: byValue<CBT<int(std::shared_ptr<int>, int), ID>, std::shared_ptr<int>>(recursive); break;
		case 4: byValue<CBT<void(Obj, int), ID>, Obj>(recursive); break;
		case 5: byRef<CBT<void(std::string&, const std::string&), ID>, std::string>(recursive); break;
		case 6: byRef<CBT<void(Obj&, const Obj&), ID>, Obj>(recursive); break;
		case 7: byRef<CBT<void(int&, const int&), ID>, int>(recursive); break;
		case 8: { // not copyable: a single function receives it
			CBT<int(std::unique_ptr<int>), ID> cb;
			int got = 0;
			cb.add([&](std::unique_ptr<int> p) { return got = p ? *p : -1; });
			auto r = mc::flip() ? cb.call(std::make_unique<int>(4)) : cb(std::make_unique<int>(4));
			MC_CHECK(got == 4 && r == std::vector<int>{4}, "move only argument was lost");
			mc::step();
			break;
		}
	}
}

} // namespace

MC_SCENARIO("callback", "Callback: 8 signatures (values, references, constant references), 1..4 functions that each "
	"read, change or move out of their parameters; call and operator(); lvalues and rvalues", 3) {
	all<nytl::Callback>(false);
}
MC_SCENARIO("recursive", "RecursiveCallback: additionally the connection form of add and nested calls", 3) {
	all<nytl::RecursiveCallback>(true);
}

// - other kinds of parameters -
namespace {

struct Base { virtual ~Base() = default; virtual int id() const = 0; };
struct Impl : Base { int v {}; int id() const override { return v; } };
struct Pinned { int v {5}; Pinned() = default; Pinned(const Pinned&) = delete; };
struct Big { int v[100]; };

int twice(int i) { return 2 * i; }

// how often each of n functions of each form was called, with the arguments of the call
template<template<typename, typename> class CBT, typename ID, bool recursive> void kinds() {
	auto n = 1 + mc::choose(4);
	auto mask = recursive ? mc::choose(1 << n) : 0; // which functions take their connection
	auto op = mc::flip();
	auto sig = mc::choose(9);
	int count = 0;

	auto add = [&](auto& cb, auto plain, auto conn) {
		for(auto i = 0; i < n; ++i) {
			if constexpr(recursive) { if(mask & (1 << i)) { cb.add(conn); continue; } }
			(void) conn;
			cb.add(plain);
		}
	};
	switch(sig) {
		case 0: { // rvalue reference: the object of the caller
			using CB = CBT<void(std::string&&), ID>; using C = typename CB::Connection;
			CB cb; auto s = str(3); const auto* addr = &s;
			auto f = [&](std::string&& x) { MC_CHECK(&x == addr && x == str(3), "rvalue reference does not refer to the object of the caller"); ++count; };
			add(cb, [&](std::string&& x) { f(std::move(x)); }, [&](C, std::string&& x) { f(std::move(x)); });
			if(op) cb(std::move(s)); else cb.call(std::move(s));
			MC_CHECK(s == str(3), "argument was moved although no function did so");
			break;
		}
		case 1: { // polymorphic object
			using CB = CBT<void(const Base&, Base&), ID>; using C = typename CB::Connection;
			CB cb; Impl a, b; a.v = 4; b.v = 6;
			auto f = [&](const Base& x, Base& y) { MC_CHECK(&x == &a && &y == &b && x.id() == 4 && y.id() == 6, "object was sliced or copied"); ++count; };
			add(cb, f, [&](C, const Base& x, Base& y) { f(x, y); });
			if(op) cb(a, b); else cb.call(a, b);
			break;
		}
		case 2: { // object that can neither be copied nor moved
			using CB = CBT<int(Pinned&, const Pinned&), ID>; using C = typename CB::Connection;
			CB cb; Pinned a, b;
			auto f = [&](Pinned& x, const Pinned& y) { MC_CHECK(&x == &a && &y == &b, "another object was passed"); return ++count; };
			add(cb, f, [&](C, Pinned& x, const Pinned& y) { return f(x, y); });
			auto r = op ? cb(a, b) : cb.call(a, b);
			for(auto i = 0; i < n; ++i) MC_CHECK(r[i] == i + 1, "result %d is %d", i, r[i]);
			break;
		}
		case 3: { // pointers, arrays, functions
			using CB = CBT<void(int*, const char*, int (&)[3], int (*)(int)), ID>; using C = typename CB::Connection;
			CB cb; int v = 3, arr[3] {1, 2, 3}; const char* t = "text";
			auto f = [&](int* p, const char* x, int (&a)[3], int (*fn)(int)) { MC_CHECK(p == &v && x == t && &a == &arr && fn == twice, "pointers changed"); ++count; };
			add(cb, f, [&](C, int* p, const char* x, int (&a)[3], int (*fn)(int)) { f(p, x, a, fn); });
			if(op) cb(&v, t, arr, twice); else cb.call(&v, t, arr, twice);
			break;
		}
		case 4: { // no parameters
			using CB = CBT<void(), ID>; using C = typename CB::Connection;
			CB cb;
			add(cb, [&] { ++count; }, [&](C) { ++count; });
			if(op) cb(); else cb.call();
			break;
		}
		case 5: { // many parameters, moved from by the functions
			using CB = CBT<bool(int, std::string, const std::string&, Obj, double, char, std::vector<int>, bool), ID>; using C = typename CB::Connection;
			CB cb; auto s = str(9);
			auto f = [&](int a, std::string b, const std::string& c, Obj o, double d, char e, std::vector<int> v, bool g) {
				MC_CHECK(a == 1 && b == str(2) && &c == &s && c == str(9) && is(o, 4) && d == 5.5 && e == 'e' && is(v, 7) && g, "a function received wrong arguments");
				auto x = std::move(b); auto y = std::move(o); auto z = std::move(v);
				return ++count % 2 == 1;
			};
			add(cb, [&](int a, std::string b, const std::string& c, Obj o, double d, char e, std::vector<int> v, bool g) { return f(a, std::move(b), c, std::move(o), d, e, std::move(v), g); },
				[&](C, int a, std::string b, const std::string& c, Obj o, double d, char e, std::vector<int> v, bool g) { return f(a, std::move(b), c, std::move(o), d, e, std::move(v), g); });
			auto call = [&](auto&&... args) { return op ? cb(std::forward<decltype(args)>(args)...) : cb.call(std::forward<decltype(args)>(args)...); };
			auto r = call(1, str(2), s, make<Obj>(4), 5.5, 'e', make<std::vector<int>>(7), true);
			for(auto i = 0; i < n; ++i) MC_CHECK(r[i] == (i % 2 == 0), "result %d is wrong", i);
			break;
		}
		case 6: { // move only object as reference
			using CB = CBT<void(std::unique_ptr<int>&, const std::unique_ptr<int>&), ID>; using C = typename CB::Connection;
			CB cb; auto a = std::make_unique<int>(0); const auto b = std::make_unique<int>(7);
			auto f = [&](std::unique_ptr<int>& x, const std::unique_ptr<int>& y) { MC_CHECK(&x == &a && &y == &b && *x == count, "another object was passed"); x = std::make_unique<int>(++count); };
			add(cb, f, [&](C, std::unique_ptr<int>& x, const std::unique_ptr<int>& y) { f(x, y); });
			if(op) cb(a, b); else cb.call(a, b);
			break;
		}
		case 7: { // large values and functions as values
			using CB = CBT<int(Big, std::function<int(int)>), ID>; using C = typename CB::Connection;
			CB cb; Big g; for(auto i = 0; i < 100; ++i) g.v[i] = i * i;
			auto f = [&](Big x, std::function<int(int)> fn) { for(auto i = 0; i < 100; ++i) MC_CHECK(x.v[i] == i * i, "value changed"); MC_CHECK(fn && fn(3) == 6, "function was lost"); fn = {}; x = {}; return ++count; };
			add(cb, f, [&](C, Big x, std::function<int(int)> fn) { return f(x, std::move(fn)); });
			auto r = op ? cb(g, twice) : cb.call(g, twice);
			MC_CHECK(int(r.size()) == n, "%d results", int(r.size()));
			break;
		}
		case 8: { // move only value: can only be given to a single function
			using CB = CBT<int(std::unique_ptr<int>), ID>; using C = typename CB::Connection;
			CB cb;
			n = 1;
			auto f = [&](std::unique_ptr<int> p) { MC_CHECK(p && *p == 4, "move only argument was lost"); return ++count; };
			add(cb, [&](std::unique_ptr<int> p) { return f(std::move(p)); }, [&](C, std::unique_ptr<int> p) { return f(std::move(p)); });
			auto r = op ? cb(std::make_unique<int>(4)) : cb.call(std::make_unique<int>(4));
			MC_CHECK(r == std::vector<int> {1}, "wrong result");
			break;
		}
	}
	MC_CHECK(count == n, "%d of %d functions were called", count, n);
	mc::step(n);
	mc::state(mc::comb(mc::comb(sig, n), mask));
	mc::outcome(mc::comb(mc::comb(sig, n), mask * 2 + op));
}

} // namespace

MC_SCENARIO("signatures", "9 further signatures (rvalue references, polymorphic, pinned and move-only objects, pointers, arrays, functions, none, many parameters), "
	"1..4 functions with and without connection, both callback classes, both id classes, call and operator()", 3) {
	switch(mc::choose(4)) {
		case 0: kinds<nytl::Callback, nytl::ConnectionID, false>(); break;
		case 1: kinds<nytl::RecursiveCallback, nytl::ConnectionID, true>(); break;
		case 2: kinds<nytl::Callback, nytl::TrackedConnectionID, false>(); break;
		case 3: kinds<nytl::RecursiveCallback, nytl::TrackedConnectionID, true>(); break;
	}
}
