// C01: a (possibly nested) call reaches exactly the functions that were
// registered when it started, in order, once, and collects their results.
#include "rcb.hpp"

MC_SCENARIO("void", "RecursiveCallback<void(int)>, ConnectionID: 0..3 functions, 2 free top level "
	"operations, budget of operations drawn inside of handlers (disconnect any, clear, add, nested "
	"call), at most 3 active calls", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.budget = mc::bound(3, 4, 4, 5);
	rcb::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("int_tracked", "RecursiveCallback<int(int), TrackedConnectionID>: 0..3 functions, 2 free "
	"top level operations, handlers as above", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.budget = mc::bound(3, 4, 4, 5);
	rcb::explore<nytl::TrackedConnectionID, int>(c);
}

MC_SCENARIO("deep", "RecursiveCallback<int(int)>: 2..4 functions, 1 top level operation, larger budget "
	"in handlers, up to 4 active calls", 3) {
	rcb::Cfg c;
	c.minPre = 2;
	c.maxPre = 4;
	c.top = 1;
	c.depth = 4;
	c.budget = mc::bound(3, 4, 4, 6);
	rcb::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("all_forms", "both forms of add and operator=, operator+= and operator(): 0..2 functions, 2 "
	"top level operations", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.connForm = true;
	c.assign = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<nytl::TrackedConnectionID, void>(c);
}

MC_SCENARIO("history", "longer histories on the top level: 0..3 functions, 4 operations, small budget in "
	"handlers", 3) {
	rcb::Cfg c;
	c.top = 4;
	c.maxFuns = 5;
	c.budget = mc::bound(1, 2, 2, 3);
	rcb::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("two", "two RecursiveCallback<int(int)> with 0..2 functions each, functions of both use both (the second "
	"one may be destroyed while it is not being called), 1 top level operation", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.depth = 4;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("aged", "RecursiveCallback<int(int)> that has given 0..2^63-512 ids and made that many calls (around the ends of the ranges of integers, ids may be 2^8, 2^16 or 2^32 apart), 0..3 functions, 1 top level operation, operations in handlers", 3) {
	auto c = rcb::agedCfg();
	c.connForm = true;
	rcb::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("many", "RecursiveCallback<int(int)> with up to 300 functions, operations on the first, middle and last ones", 2) {
	auto c = rcb::manyCfg();
	c.assign = true;
	rcb::explore<nytl::ConnectionID, int>(c);
}

// - types of results -
#include <memory>
#include <string>
namespace {
struct NoDefault { int v; explicit NoDefault(int i) : v(i) {} };
struct Throwing { int v; explicit Throwing(int i) : v(i) {} Throwing(const Throwing& o) : v(o.v) {} Throwing(Throwing&& o) noexcept(false) : v(o.v) { o.v = -1; } };
enum class Kind { a, b, c, d, e };

template<typename R> struct Res;
template<> struct Res<bool> { static bool make(int i) { return i % 3 == 1; } static bool is(bool v, int i) { return v == (i % 3 == 1); } };
template<> struct Res<double> { static double make(int i) { return i + 0.25; } static bool is(double v, int i) { return v == i + 0.25; } };
template<> struct Res<std::int64_t> { static std::int64_t make(int i) { return i + (1ll << 40); } static bool is(std::int64_t v, int i) { return v == make(i); } };
template<> struct Res<std::string> { static std::string make(int i) { return std::string(40, 'a' + i % 26); } static bool is(const std::string& v, int i) { return v == make(i); } };
template<> struct Res<std::unique_ptr<int>> { static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); } static bool is(const std::unique_ptr<int>& v, int i) { return v && *v == i; } };
template<> struct Res<NoDefault> { static NoDefault make(int i) { return NoDefault(i); } static bool is(const NoDefault& v, int i) { return v.v == i; } };
template<> struct Res<Throwing> { static Throwing make(int i) { return Throwing(i); } static bool is(const Throwing& v, int i) { return v.v == i; } };
template<> struct Res<Kind> { static Kind make(int i) { return Kind(i % 5); } static bool is(Kind v, int i) { return v == Kind(i % 5); } };
template<> struct Res<const int*> { static const int* make(int i) { static const int a[300] {}; return a + i; } static bool is(const int* v, int i) { return v == make(i); } };
template<> struct Res<std::vector<bool>> { static std::vector<bool> make(int i) { return {i % 2 == 0, i % 3 == 0, true}; } static bool is(const std::vector<bool>& v, int i) { return v == make(i); } };

// n functions, functions before and after may be removed, the one in the middle
// may add and remove others and make a nested call
template<typename R> void results() {
	using CB = nytl::RecursiveCallback<R(int)>;
	CB cb;
	static const int sizes[] = {0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 130};
	auto n = sizes[mc::choose(13)];
	auto removed = mc::choose(4); // none, first, last, every other one
	auto inside = mc::choose(4); // nothing, adds, removes the next one, calls again
	auto op = mc::flip();
	std::vector<nytl::Connection> conns(n);
	std::vector<int> expected;
	int depth = 0;
	auto check = [&](const std::vector<R>& r, const std::vector<int>& e) {
		MC_CHECK(r.size() == e.size(), "%d results instead of %d", int(r.size()), int(e.size()));
		for(auto i = 0u; i < r.size(); ++i) MC_CHECK(Res<R>::is(r[i], e[i]), "result %u is not the one of function %d", i, e[i]);
		mc::step(r.size());
	};
	for(auto i = 0; i < n; ++i) {
		conns[i] = cb.add([&, i](int) -> R {
			if(i == n / 2 && depth == 0) {
				++depth;
				if(inside == 1) for(auto k = 0; k < 3; ++k) cb.add([](int) -> R { return Res<R>::make(200); });
				if(inside == 2 && i + 1 < n) conns[i + 1].disconnect();
				if(inside == 3) check(cb.call(1), expected);
				--depth;
			}
			return Res<R>::make(i);
		});
	}
	for(auto i = 0; i < n; ++i) {
		auto rem = (removed == 1 && i == 0) || (removed == 2 && i == n - 1) || (removed == 3 && i % 2 == 1);
		if(rem) conns[i].disconnect(); else expected.push_back(i);
	}
	check(op ? cb(1) : cb.call(1), expected);
	mc::state(mc::comb(n, removed * 4 + inside));
	mc::outcome(mc::comb(n, removed * 8 + inside * 2 + op));
}
} // namespace

MC_SCENARIO("results", "10 types of results (bool, numbers, strings, move-only, not default constructible, ...), 0..130 functions, some of them removed, one of them "
	"may add, remove or call", 2) {
	switch(mc::choose(10)) {
		case 0: results<bool>(); break;
		case 1: results<double>(); break;
		case 2: results<std::int64_t>(); break;
		case 3: results<std::string>(); break;
		case 4: results<std::unique_ptr<int>>(); break;
		case 5: results<NoDefault>(); break;
		case 6: results<Throwing>(); break;
		case 7: results<Kind>(); break;
		case 8: results<const int*>(); break;
		case 9: results<std::vector<bool>>(); break;
	}
}

#include "deepcall.hpp"
MC_SCENARIO("nested", "RecursiveCallback<int(int)> called nested up to 65537 (thorough: 70000) deep: 1..3 functions (1..2 beyond 1000 levels), 1 operation and optionally a further call innermost, 1 operation on the way out, exceptions from the innermost call, caught at different levels", 3) {
	deep::nested<nytl::ConnectionID, int>();
}

MC_SCENARIO("crowd", "RecursiveCallback<int(int)> with 257..70000 functions (up to 1025 with sanitizers): 2 operations, outside or inside of a call, on the first, middle or last ones, then calls", 2) {
	deep::crowd<nytl::ConnectionID, false>();
}
