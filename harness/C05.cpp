// C05: exceptions of handlers.
#include "rcb.hpp"

MC_SCENARIO("void", "RecursiveCallback<void(int), instrumented ID>: 1..3 functions, 2 free top level "
	"operations, handlers may throw after any sequence of operations, nested calls may catch or pass on", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.top = 2;
	c.throws = true;
	c.budget = mc::bound(3, 4, 4, 5);
	rcb::explore<rcb::InstID, void>(c);
}

MC_SCENARIO("int", "RecursiveCallback<int(int)>: as above with return values and the connection form", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.maxPre = 2;
	c.top = 2;
	c.throws = true;
	c.connForm = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("empty_functions", "adding empty functions in any state", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.throws = true;
	c.emptyAdd = true;
	c.connForm = mc::flip();
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<rcb::InstID, void>(c);
}

#include "cbplain.hpp"
MC_SCENARIO("plain", "Callback<int(int), TrackedConnectionID>: all histories of up to N operations, every "
	"function may throw in every call", 3) {
	cbp::Cfg c;
	c.stale = false;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<nytl::TrackedConnectionID, int>(c);
}

MC_SCENARIO("two", "two RecursiveCallback<int(int), instrumented ID> with 1..2 functions each, functions of both use both and may throw, "
	"1 top level operation", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.maxPre = 2;
	c.throws = true;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<rcb::InstID, int>(c);
}

MC_SCENARIO("nested_plain", "two Callback<int(int)> with 1..2 functions each, functions of both use both (only "
	"calling the ones that are being called already) and may throw, 1 top level operation", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.maxPre = 2;
	c.throws = true;
	c.budget = mc::bound(3, 4, 4, 5);
	rcb::exploreTwo<nytl::ConnectionID, int, true>(c);
}

MC_SCENARIO("aged", "RecursiveCallback<int(int), instrumented ID> with throwing functions that has given 0..2^63-512 ids and made that many calls (around the ends of the ranges of integers, ids may be 2^8, 2^16 or 2^32 apart), 0..2 functions, 1 top level operation, operations in handlers", 3) {
	auto c = rcb::agedCfg(2);
	c.throws = true;
	rcb::explore<rcb::InstID, int>(c);
}

MC_SCENARIO("many", "RecursiveCallback<void(int), instrumented ID> with throwing functions with up to 300 functions, operations on the first, middle and last ones", 2) {
	auto c = rcb::manyCfg();
	c.throws = true;
	rcb::explore<rcb::InstID, void>(c);
}

MC_SCENARIO("plain_many", "Callback<int(int)> with up to 65 functions (33 with sanitizers), any of them may throw", 2) {
	auto c = cbp::manyCfg();
	if(mc::bound(1, 0, 0, 0)) c.sizes = {0, 3, 9, 33};
	else c.sizes = {0, 3, 8, 9, 17, 33, 65};
	c.throws = true;
	c.assign = false;
	cbp::explore<nytl::ConnectionID, int>(c);
}

// - kinds of exceptions -
namespace {

struct Own : std::exception {
	int payload;
	std::shared_ptr<int> owned;
	explicit Own(int p) : payload(p), owned(std::make_shared<int>(p)) {}
	const char* what() const noexcept override { return "own"; }
};

struct Derived : std::out_of_range {
	int payload;
	explicit Derived(int p) : std::out_of_range("derived"), payload(p) {}
};

struct Foreign {
	std::vector<int> payload;
};

struct MoveOnly {
	std::unique_ptr<int> payload;
};

enum class Code { none, first, second };

constexpr auto kinds = 13;
[[noreturn]] void throwKind(int kind, int p) {
	switch(kind) {
		case 0: throw p;
		case 1: throw "text";
		case 2: throw std::runtime_error("runtime");
		case 3: throw std::out_of_range("range");
		case 4: throw Own(p);
		case 5: throw Derived(p);
		case 6: throw std::bad_alloc();
		case 7: throw Foreign {{p, p + 1}};
		case 8: throw MoveOnly {std::make_unique<int>(p)};
		case 9: throw Code::second;
		case 10: throw std::bad_function_call();
		case 11: throw std::invalid_argument("argument");
		default: throw std::make_shared<int>(p);
	}
}

// the kind of the exception that leaves f, -1 if none does, -2 if it was changed
template<typename F> int leaves(F&& f, int p) {
	using S = std::string;
	auto is = [](int kind, bool same) { return same ? kind : -2; };
	try { f(); return -1; }
	catch(int v) { return is(0, v == p); }
	catch(const char* s) { return is(1, s == S("text")); }
	catch(const Derived& e) { return is(5, e.payload == p && e.what() == S("derived")); }
	catch(const Own& e) { return is(4, e.payload == p && *e.owned == p); }
	catch(const std::bad_alloc& e) { return is(6, typeid(e) == typeid(std::bad_alloc)); }
	catch(const std::bad_function_call& e) { return is(10, typeid(e) == typeid(std::bad_function_call)); }
	catch(const std::out_of_range& e) { return is(3, typeid(e) == typeid(std::out_of_range) && e.what() == S("range")); }
	catch(const std::invalid_argument& e) { return is(11, typeid(e) == typeid(std::invalid_argument) && e.what() == S("argument")); }
	catch(const std::runtime_error& e) { return is(2, typeid(e) == typeid(std::runtime_error) && e.what() == S("runtime")); }
	catch(const Foreign& e) { return is(7, e.payload == std::vector<int> {p, p + 1}); }
	catch(const MoveOnly& e) { return is(8, e.payload && *e.payload == p); }
	catch(Code c) { return is(9, c == Code::second); }
	catch(const std::shared_ptr<int>& e) { return is(12, e && *e == p); }
	catch(...) { return -2; }
}

// A callback that is part of a chain of calls.
struct Level {
	virtual ~Level() = default;
	virtual void call(int arg) = 0;
	std::vector<int> called;
	std::function<void(int)> hook; // what the function at pos does
	int pos {};
};

template<typename Ret, typename CB> struct LevelOf : Level {
	CB cb;
	bool op;
	bool rec;
	std::vector<typename CB::Connection> conns;
	bool gone {}; // the function at pos disconnected itself

	Ret run(int i, int arg) {
		called.push_back(i);
		if(i == pos && hook) hook(arg);
		if constexpr(!std::is_void_v<Ret>) return arg + i;
	}

	LevelOf(int p, bool useOp, bool connForm) : op(useOp) {
		pos = p;
		for(auto i = 0; i < 3; ++i) {
			if constexpr(std::is_same_v<CB, nytl::RecursiveCallback<Ret(int), nytl::TrackedConnectionID>>) {
				if(connForm) {
					conns.push_back(cb.add(std::function<Ret(typename CB::Connection, int)>(
						[this, i](typename CB::Connection, int arg) { return run(i, arg); })));
					continue;
				}
			}
			(void) connForm;
			conns.push_back(cb.add([this, i](int arg) { return run(i, arg); }));
		}
	}

	void call(int arg) override {
		mc::step();
		called.clear();
		if constexpr(std::is_void_v<Ret>) {
			if(op) cb(arg); else cb.call(arg);
		} else {
			auto ret = op ? cb(arg) : cb.call(arg);
			MC_CHECK(ret.size() == called.size(), "%d return values of %d functions", int(ret.size()), int(called.size()));
			for(auto i = 0u; i < ret.size(); ++i) MC_CHECK(ret[i] == arg + called[i], "return value %u is wrong", i);
		}
	}
};

template<typename Ret> std::unique_ptr<Level> makeLevel(int type, int pos, bool op) {
	using ID = nytl::TrackedConnectionID;
	if(type == 0) return std::make_unique<LevelOf<Ret, nytl::Callback<Ret(int), ID>>>(pos, op, false);
	return std::make_unique<LevelOf<Ret, nytl::RecursiveCallback<Ret(int), ID>>>(pos, op, type == 2);
}

// an argument or return value whose copies and moves may fail
int copyFault = -1;
struct CopyFailed { int mark; };
struct Value {
	int v {};
	static void fault() { if(copyFault >= 0 && copyFault-- == 0) throw CopyFailed {77}; }
	Value() = default;
	explicit Value(int i) : v(i) {}
	Value(const Value& o) : v(o.v) { fault(); }
	Value(Value&& o) : v(o.v) { fault(); o.v = -1; }
	Value& operator=(const Value&) = default;
};

template<typename CB, typename Ret> void copyFaults() {
	auto n = 1 + mc::choose(3);
	auto op = mc::flip();
	auto discInside = mc::flip() ? mc::choose(n) : -1; // this function disconnects itself
	auto fail = mc::choose(24);
	constexpr auto recursive = std::is_same_v<CB, nytl::RecursiveCallback<Ret(Value), nytl::TrackedConnectionID>>;
	if(!recursive && discInside >= 0) return;

	int live = 0;
	struct Live {
		int* count;
		Live(int& c) : count(&c) { ++c; }
		Live(const Live& o) : count(o.count) { ++*count; }
		~Live() { --*count; }
	};

	{
		CB cb;
		std::vector<typename CB::Connection> conns;
		std::vector<int> called;
		bool act = true;
		for(auto i = 0; i < n; ++i) {
			conns.push_back(cb.add([&, i, l = Live(live)](const Value& v) -> Ret {
				MC_CHECK(v.v == 5, "function %d received %d", i, v.v);
				called.push_back(i);
				if(act && i == discInside) conns[i].disconnect();
				if constexpr(!std::is_void_v<Ret>) return Ret(i);
			}));
		}
		MC_CHECK(live == n, "%d function objects instead of %d", live, n);

		copyFault = fail;
		bool thrown = false;
		try {
			Value arg(5);
			if(op) cb(arg); else cb.call(arg);
		} catch(const CopyFailed& e) { thrown = e.mark == 77; }
		auto fired = copyFault < 0;
		copyFault = -1;
		mc::note("%d functions, copy %d fails: %d", n, fail, thrown);
		MC_CHECK(thrown == fired, "a copy failed: %d, the caller received the exception: %d", fired, thrown);
		auto calledN = int(called.size());
		MC_CHECK(thrown ? calledN <= n : calledN == n, "%d functions were called", calledN);
		for(auto i = 0; i < calledN; ++i) MC_CHECK(called[i] == i, "function %d was called as number %d", called[i], i);
		mc::step();

		// the callback is usable as before
		act = false;
		auto gone = discInside >= 0 && calledN > discInside;
		std::vector<int> expected;
		for(auto i = 0; i < n; ++i) if(!gone || i != discInside) expected.push_back(i);
		MC_CHECK(live == int(expected.size()), "%d function objects instead of %d after the call", live, int(expected.size()));
		called.clear();
		cb.call(Value(5));
		MC_CHECK(called == expected, "%d of %d functions are called after the failed copy", int(called.size()), int(expected.size()));
		auto last = cb.add([&](const Value&) -> Ret { called.push_back(9); if constexpr(!std::is_void_v<Ret>) return Ret(9); });
		if(!expected.empty()) {
			auto id = conns[expected.front()].id();
			MC_CHECK(cb.disconnect(id), "disconnect failed");
			MC_CHECK(!conns[expected.front()].connected(), "still connected");
			expected.erase(expected.begin());
			MC_CHECK(live == int(expected.size()), "disconnect did not destroy the function");
		}
		called.clear();
		expected.push_back(9);
		cb.call(Value(5));
		MC_CHECK(called == expected, "wrong functions are called in the end");
		mc::state(mc::comb(mc::comb(n, thrown), mc::comb(calledN, gone) + op * 3));
		mc::outcome(mc::comb(mc::comb(fail, n), mc::comb(calledN, gone) + op * 3));
	}
	MC_CHECK(live == 0, "function objects leaked");
}

} // namespace

MC_SCENARIO("kinds", "13 kinds of exceptions (of fundamental, standard, derived, move-only, user types) thrown by any of 3 functions through "
	"1..2 (thorough: 3) nested calls of different callbacks (simple, recursive, with connection parameter; void, int; call, call operator)", 3) {
	auto kind = mc::choose(kinds);
	auto nlev = 1 + mc::choose(mc::bound(2, 2, 2, 3));
	auto p = 40 + kind;
	std::vector<std::unique_ptr<Level>> lev;
	for(auto i = 0; i < nlev; ++i) {
		auto type = mc::choose(3);
		auto pos = mc::choose(3);
		auto op = mc::flip();
		lev.push_back(mc::flip() ? makeLevel<int>(type, pos, op) : makeLevel<void>(type, pos, op));
	}
	for(auto i = 0; i < nlev; ++i) {
		if(i + 1 < nlev) lev[i]->hook = [&, i](int a) { lev[i + 1]->call(a + 1); };
		else lev[i]->hook = [&](int) { throwKind(kind, p); };
	}
	auto got = leaves([&] { lev[0]->call(3); }, p);
	MC_CHECK(got == kind, "an exception of kind %d was thrown, %d reached the caller (-1: none, -2: another one)", kind, got);
	mc::u64 h = nlev;
	for(auto& l : lev) {
		MC_CHECK(int(l->called.size()) == l->pos + 1, "%d functions were called, the one at %d threw", int(l->called.size()), l->pos);
		h = mc::comb(h, l->pos);
		l->hook = {};
		l->call(7);
		MC_CHECK(l->called == (std::vector<int> {0, 1, 2}), "not all functions are called after the exception");
	}
	mc::state(mc::comb(h, kind));
	mc::outcome(mc::comb(h, kind));
}

MC_SCENARIO("copies", "calls of 1..3 functions where any copy or move of the argument or the return values fails, a function may have disconnected itself", 3) {
	using ID = nytl::TrackedConnectionID;
	switch(mc::choose(4)) {
		case 0: copyFaults<nytl::RecursiveCallback<Value(Value), ID>, Value>(); break;
		case 1: copyFaults<nytl::RecursiveCallback<void(Value), ID>, void>(); break;
		case 2: copyFaults<nytl::Callback<Value(Value), ID>, Value>(); break;
		case 3: copyFaults<nytl::Callback<void(Value), ID>, void>(); break;
	}
}

#include "deepcall.hpp"
MC_SCENARIO("nested", "RecursiveCallback<int(int), instrumented ID> called nested up to 65537 (thorough: 70000) deep: 1..3 functions (1..2 beyond 1000 levels), 1 operation and optionally a further call innermost, 1 operation on the way out, exceptions from the innermost call, caught at different levels", 3) {
	deep::nested<rcb::InstID, int>();
}
