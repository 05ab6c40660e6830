// C04: tracked connections always report whether their function is registered.
#include "rcb.hpp"

MC_SCENARIO("recursive", "TrackedRecursiveCallback<void(int)>: 0..3 functions, 2 free top level "
	"operations (disconnect via the callback or via a connection), budget of operations in handlers", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.viaConn = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<nytl::TrackedConnectionID, void>(c);
}

MC_SCENARIO("recursive_forms", "TrackedRecursiveCallback<int(int)>: both forms of add, operator=, "
	"handlers may throw", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.throws = true;
	c.connForm = true;
	c.assign = true;
	c.viaConn = true;
	c.budget = mc::bound(2, 3, 2, 3);
	rcb::explore<nytl::TrackedConnectionID, int>(c);
}

#include "cbplain.hpp"
MC_SCENARIO("plain", "TrackedCallback<int(int)>: all histories of up to N operations", 3) {
	cbp::Cfg c;
	c.viaConn = true;
	c.emptyAdd = false;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<nytl::TrackedConnectionID, int>(c);
}

MC_SCENARIO("two", "two TrackedRecursiveCallback<int(int)> with 1..2 functions each, functions of both use both, 1 top level operation", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.maxPre = 2;
	c.assign = true;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<nytl::TrackedConnectionID, int>(c);
}

MC_SCENARIO("two_plain", "two TrackedCallback<void(int)> with 0..2 functions each, functions of both use both (only "
	"calling the ones that are being called already), 2 top level operations", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.assign = true;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<nytl::TrackedConnectionID, void, true>(c);
}

MC_SCENARIO("aged", "TrackedRecursiveCallback<int(int)> that has given 0..2^63-512 ids and made that many calls (around the ends of the ranges of integers, ids may be 2^8, 2^16 or 2^32 apart), 0..2 functions, 1 top level operation, operations in handlers", 3) {
	auto c = rcb::agedCfg(2);
	c.viaConn = true;
	rcb::explore<nytl::TrackedConnectionID, int>(c);
}

MC_SCENARIO("many", "TrackedRecursiveCallback<void(int)> with up to 300 functions, operations on the first, middle and last ones", 2) {
	rcb::explore<nytl::TrackedConnectionID, void>(rcb::manyCfg());
}

MC_SCENARIO("plain_many", "TrackedCallback<int(int)> with up to 300 functions and up to 2^63-512 ids given (may be 2^8, 2^16 or 2^32 apart), histories of operations on the first, middle and last functions", 2) {
	cbp::explore<nytl::TrackedConnectionID, int>(cbp::manyCfg());
}

#include "deepcall.hpp"
MC_SCENARIO("nested", "TrackedRecursiveCallback<int(int)> called nested up to 65537 (thorough: 70000) deep: 1..3 functions (1..2 beyond 1000 levels), 1 operation and optionally a further call innermost, 1 operation on the way out, exceptions from the innermost call, caught at different levels", 3) {
	deep::nested<nytl::TrackedConnectionID, int>();
}

MC_SCENARIO("crowd", "TrackedRecursiveCallback<int(int)> with 257..70000 functions (up to 1025 with sanitizers): 2 operations, outside or inside of a call, on the first, middle or last ones, then calls", 2) {
	deep::crowd<nytl::TrackedConnectionID, false>();
}

MC_SCENARIO("crowd_plain", "TrackedCallback<int(int)> with 257..70000 functions (up to 1025 with sanitizers): 2 operations on the first, middle or last ones, then calls", 2) {
	deep::crowd<nytl::TrackedConnectionID, true>();
}
