// C02: disconnect removes exactly the identified function, at most once.
#include "rcb.hpp"
#include "cbplain.hpp"

MC_SCENARIO("recursive", "RecursiveCallback<void(int), ConnectionID>: 0..3 functions, 2 free top level "
	"operations, operations in handlers; disconnect of every id ever returned (also stale ones) and of a "
	"default constructed one", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.stale = true;
	c.budget = mc::bound(2, 4, 3, 4);
	rcb::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("recursive_tracked", "TrackedRecursiveCallback: additionally via connection objects", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.stale = true;
	c.viaConn = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<nytl::TrackedConnectionID, void>(c);
}

MC_SCENARIO("recursive_history", "4 free top level operations, small budget in handlers", 3) {
	rcb::Cfg c;
	c.top = 4;
	c.maxFuns = 5;
	c.budget = mc::bound(1, 2, 2, 3);
	rcb::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("plain", "Callback<int(int), ConnectionID>: all histories of 6 operations (thorough: 7)", 3) {
	cbp::Cfg c;
	c.throws = c.emptyAdd = false;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("plain_tracked", "TrackedCallback: additionally via connection objects", 3) {
	cbp::Cfg c;
	c.throws = c.emptyAdd = false;
	c.viaConn = true;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<nytl::TrackedConnectionID, void>(c);
}

MC_SCENARIO("two", "two RecursiveCallback<void(int)> with 1..2 functions each, functions of both use both, 1 top level operation", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.maxPre = 2;
	c.stale = true;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("aged", "RecursiveCallback<void(int)> that has given 0..2^63-512 ids and made that many calls (around the ends of the ranges of integers, ids may be 2^8, 2^16 or 2^32 apart), 0..3 functions, 1 top level operation, operations in handlers", 3) {
	auto c = rcb::agedCfg();
	c.stale = c.viaConn = true;
	rcb::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("many", "RecursiveCallback<void(int)> with up to 300 functions, operations on the first, middle and last ones", 2) {
	auto c = rcb::manyCfg();
	c.stale = true;
	rcb::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("plain_many", "Callback<int(int)> with up to 300 functions and up to 2^63-512 ids given (may be 2^8, 2^16 or 2^32 apart), histories of operations on the first, middle and last functions", 2) {
	auto c = cbp::manyCfg();
	c.viaConn = true;
	cbp::explore<nytl::ConnectionID, int>(c);
}

#include "deepcall.hpp"
MC_SCENARIO("nested", "RecursiveCallback<void(int)> called nested up to 65537 (thorough: 70000) deep: 1..3 functions (1..2 beyond 1000 levels), 1 operation and optionally a further call innermost, 1 operation on the way out, exceptions from the innermost call, caught at different levels", 3) {
	deep::nested<nytl::ConnectionID, void>();
}

MC_SCENARIO("crowd", "RecursiveCallback<int(int)> with 257..70000 functions (up to 1025 with sanitizers): 2 operations, outside or inside of a call, on the first, middle or last ones, then calls", 2) {
	deep::crowd<nytl::ConnectionID, false>();
}

MC_SCENARIO("crowd_plain", "Callback<int(int)> with 257..70000 functions (up to 1025 with sanitizers): 2 operations on the first, middle or last ones, then calls", 2) {
	deep::crowd<nytl::ConnectionID, true>();
}
