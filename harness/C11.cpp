// C11: scope guards run their function exactly when the scope is left in the
// way they were declared for. All programs up to a size over nested scopes,
// guards of every kind, unset, throw, catch and destructors that run further
// programs (also while an exception is in flight) are executed.
#include <nytl/scope.hpp>
#include "mc.hpp"
#include <memory>
#include <optional>
#include <functional>
#include <stdexcept>
#include <vector>

namespace {

struct Boom { int id; };
struct StdBoom : std::runtime_error { int id; StdBoom(int i) : std::runtime_error("boom"), id(i) {} };

enum Kind { always, onSuccess, onException };

struct GuardRec {
	int id;
	Kind kind;
	bool unset {};
	bool left {}; // the end of the guarded scope was reached
	bool normal {}; // ... normally
	int ran {};
	std::function<void()> doUnset;
};

struct Program {
	int budget;
	int boomCount {};
	int inFlight {}; // id of exception in flight at the innermost level, 0: none
	std::vector<GuardRec*> stack; // active guards
	int nextGuard {};
	int indent {};
	mc::u64 trace {9};

	// runs when a guard executes its function; behaviour:
	// 0: nothing, 1: throws std::exception, 2: throws something else,
	// 3: runs another program (with its own scope, exceptions are caught inside)
	void guardBody(GuardRec& r, int behaviour) {
		mc::step();
		++r.ran;
		mc::note("%*sguard %d runs", indent, "", r.id);
		MC_CHECK(!stack.empty() && stack.back() == &r, "guard %d runs out of order", r.id);
		MC_CHECK(!r.unset, "guard %d runs although it was unset", r.id);
		MC_CHECK(r.ran == 1, "guard %d runs %d times", r.id, r.ran);
		MC_CHECK(r.kind != onSuccess || r.normal, "success guard %d runs on exception", r.id);
		MC_CHECK(r.kind != onException || !r.normal, "exception guard %d runs on success", r.id);
		if(behaviour == 1) throw std::runtime_error("guard function failed");
		if(behaviour == 2) throw 42;
		if(behaviour == 3) nested();
	}

	struct Verify { // destroyed after the guard
		Program& p;
		GuardRec& r;
		~Verify() {
			MC_CHECK(p.stack.back() == &r, "guard order");
			p.stack.pop_back();
			int exp = !r.unset && (r.kind == always || (r.kind == onSuccess) == r.normal);
			p.trace = mc::comb(p.trace, r.id * 8 + exp * 2 + r.normal);
			MC_CHECK(r.ran == exp, "guard %d (kind %d, unset %d) ran %d times when its scope was left %s, expected %d",
				r.id, r.kind, r.unset, r.ran, r.normal ? "normally" : "by an exception", exp);
		}
	};

	template<typename F> void guarded(GuardRec& r, F&& func, bool lvalue) {
		Verify v {*this, r};
		stack.push_back(&r);
		std::function<void()> f = func;
		std::function<void()> wrong = []{ mc::fail("guard used an old value of the function"); };
		std::function<void()> ref = lvalue ? wrong : f;
		auto inner = [&](auto& g) {
			r.doUnset = [&g]{ g.unset(); };
			if(lvalue) ref = f; // the guard references the function
			++indent;
			rest();
			--indent;
			r.normal = true;
			mc::note("%*send of the scope of guard %d", indent, "", r.id);
		};
		auto ind = indent;
		struct Restore { int& i; int v; ~Restore() { i = v; } } restore {indent, ind};
		if(lvalue) {
			switch(r.kind) {
				case always: { nytl::ScopeGuard g(ref); inner(g); return; }
				case onSuccess: { nytl::SuccessGuard g(ref); inner(g); return; }
				case onException: { nytl::ExceptionGuard g(ref); inner(g); return; }
			}
		} else {
			switch(r.kind) {
				case always: { auto g = nytl::ScopeGuard([&]{ f(); }); inner(g); return; }
				case onSuccess: { nytl::SuccessGuard g([&]{ f(); }); inner(g); return; }
				case onException: { nytl::ExceptionGuard g([&]{ f(); }); inner(g); return; }
			}
		}
	}

	struct Dtor { // something else that runs a program when it is destroyed
		Program& p;
		~Dtor() { p.nested(); }
	};

	// executes the remaining statements of the current scope
	void rest() {
		while(budget > 0) {
			// 0 end, 1..: guard kinds, unset, throw, try, dtor
			auto c = mc::choose(6);
			if(c == 0) return;
			--budget;
			mc::state(mc::comb(mc::comb(stack.size(), c), std::uncaught_exceptions() * 16 + budget));
			switch(c) {
				case 1: {
					GuardRec r;
					r.id = nextGuard++;
					auto k = mc::choose(6);
					r.kind = Kind(k % 3);
					auto behaviour = mc::choose(4);
					mc::note("%*sguard %d: kind %d, behaviour %d", indent, "", r.id, r.kind, behaviour);
					guarded(r, [this, &r, behaviour]{ guardBody(r, behaviour); }, k >= 3);
					return; // the rest of the statements was executed inside
				}
				case 2: { // unset one of the active guards
					if(stack.empty()) return;
					auto& r = *stack[mc::choose(stack.size())];
					if(r.ran || r.left || r.normal) return;
					mc::note("%*sunset guard %d", indent, "", r.id);
					r.unset = true;
					r.doUnset();
					break;
				}
				case 3: {
					auto id = ++boomCount;
					mc::note("%*sthrow %d", indent, "", id);
					if(mc::flip()) throw StdBoom(id);
					throw Boom {id};
				}
				case 4:
					scope();
					break;
				case 5: {
					mc::note("%*sobject whose destructor runs a program", indent, "");
					Dtor d {*this};
					rest();
					return;
				}
			}
		}
	}

	// a scope that catches all exceptions
	void scope() {
		auto before = stack;
		auto count = std::uncaught_exceptions();
		auto boomBefore = boomCount;
		mc::note("%*stry", indent, "");
		auto ind = indent++;
		try {
			rest();
		} catch(const Boom& b) {
			MC_CHECK(b.id > boomBefore, "exception of another scope arrived");
			mc::note("%*scaught %d", indent, "", b.id);
		} catch(const StdBoom& b) {
			MC_CHECK(b.id > boomBefore, "exception of another scope arrived");
			mc::note("%*scaught %d", indent, "", b.id);
		} catch(...) {
			mc::fail("an exception of a guard function left the guard");
		}
		indent = ind;
		MC_CHECK(stack == before, "guards still active");
		MC_CHECK(std::uncaught_exceptions() == count, "exception count");
	}

	void nested() {
		if(budget <= 0) return;
		mc::note("%*snested program, %d exceptions in flight", indent, "", std::uncaught_exceptions());
		scope();
	}
};

void run(int budget) {
	Program p {budget};
	p.scope();
	mc::outcome(p.trace);
}

} // namespace

MC_SCENARIO("programs", "all programs of up to N statements: guards (always, on success, on exception; taking the "
	"function by value or by reference; function returns, throws, runs a program), unset of any active guard, throw, "
	"nested try blocks, destructors that run programs (also during unwinding)", 4) {
	run(mc::bound(4, 4, 5, 5));
}

MC_SCENARIO("in_flight", "all programs of up to N statements, run while 1..3 exceptions are in flight", 4) {
	Program p {mc::bound(3, 3, 4, 4)};
	struct Level { // runs the program or raises the next exception while it is destroyed
		Program& p;
		int left;
		static void run(Program& p, int left) {
			try {
				Level l {p, left};
				throw 1;
			} catch(int) {}
		}
		~Level() {
			if(left == 1) p.scope();
			else run(p, left - 1);
		}
	};
	Level::run(p, 1 + mc::choose(3));
	mc::outcome(p.trace);
}

// Guards whose lifetime is not bound to a block: in an optional or on the heap.
// They may be created while an exception is in flight and destroyed when it is
// not any more, or the other way around.
namespace {

struct Count { int* n; void operator()() const { ++*n; } };

template<typename G> struct Slot {
	std::unique_ptr<G> heap;
	std::optional<G> opt;
	int kind {};

	void make(int k, int* n) {
		kind = k;
		if(k) opt.emplace(Count {n}); else heap.reset(new G(Count {n}));
	}
	void drop() { if(kind) opt.reset(); else heap.reset(); }
};

// executes f while n exceptions are in flight
template<typename F> void inFlight(int n, F f) {
	if(!n) return f();
	struct D {
		F& f; int n;
		~D() { inFlight(n - 1, f); }
	};
	try { D d {f, n}; throw n; } catch(int) {}
}

template<typename G> void lifetime(bool success, bool exception) {
	auto a = int(mc::choose(4)), b = int(mc::choose(4)), d = int(mc::choose(4));
	auto kinds = mc::choose(4);
	auto unset = mc::flip();
	int n1 = 0, n2 = 0;
	Slot<G> s1, s2;
	mc::note("guard created with %d exceptions in flight, another one with %d, destroyed with %d", a, b, d);
	auto second = [&]{ s2.make(kinds >> 1, &n2); };
	// the second one is created after the first one, with more or less exceptions in flight
	inFlight(a, [&]{ s1.make(kinds & 1, &n1); if(b > a) inFlight(b - a, second); });
	if(b <= a) inFlight(b, second);
	MC_CHECK(n1 == 0 && n2 == 0, "executed before the end");
	if(unset) { if(s1.kind) s1.opt->unset(); else s1.heap->unset(); }
	inFlight(d, [&]{ s1.drop(); s2.drop(); });
	auto e1 = !unset && (d > a ? exception : success), e2 = d > b ? exception : success;
	MC_CHECK(n1 == int(e1), "created with %d, destroyed with %d exceptions in flight: executed %d times", a, d, n1);
	MC_CHECK(n2 == int(e2), "created with %d, destroyed with %d exceptions in flight: executed %d times", b, d, n2);
	auto id = mc::comb(a * 64 + b * 16 + d * 4 + kinds, unset * 4 + success * 2 + exception);
	mc::state(id);
	mc::outcome(id);
}

} // namespace

MC_SCENARIO("lifetimes", "guards of dynamic lifetime (heap, optional) created and destroyed with 0..3 exceptions in flight each: all combinations for two guards", 2) {
	switch(mc::choose(3)) {
		case 0: lifetime<nytl::ScopeGuard<Count>>(true, true); break;
		case 1: lifetime<nytl::SuccessGuard<Count>>(true, false); break;
		default: lifetime<nytl::ExceptionGuard<Count>>(false, true); break;
	}
}
