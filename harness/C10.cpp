// C10: lifetime of the stored function objects.
#include "rcb.hpp"

MC_SCENARIO("void", "RecursiveCallback<void(int)>: 0..3 self checking function objects, 2 free top level "
	"operations, budget of operations in handlers", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.connForm = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("throwing", "RecursiveCallback<int(int), TrackedConnectionID>: with exceptions and operator=", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.throws = true;
	c.assign = true;
	c.budget = mc::bound(3, 4, 3, 5);
	rcb::explore<nytl::TrackedConnectionID, int>(c);
}

#include "cbplain.hpp"
MC_SCENARIO("plain", "Callback<void(int)>: all histories of up to N operations", 3) {
	cbp::Cfg c;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("two", "two RecursiveCallback<void(int)> with 1..2 self checking function objects each, functions of both use both (the second "
	"callback may be destroyed while it is not being called), 1 top level operation", 3) {
	rcb::Cfg c;
	c.minPre = 1;
	c.maxPre = 2;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("aged", "RecursiveCallback<void(int)> that has given 0..2^63-512 ids and made that many calls (around the ends of the ranges of integers, ids may be 2^8, 2^16 or 2^32 apart), 0..3 functions, 1 top level operation, operations in handlers", 3) {
	auto c = rcb::agedCfg();
	c.connForm = true;
	rcb::explore<nytl::ConnectionID, void>(c);
}

MC_SCENARIO("many", "RecursiveCallback<int(int)> with self checking function objects with up to 300 functions, operations on the first, middle and last ones", 2) {
	auto c = rcb::manyCfg();
	c.assign = true;
	rcb::explore<nytl::ConnectionID, int>(c);
}

#include "deepcall.hpp"
MC_SCENARIO("nested", "RecursiveCallback<void(int)> called nested up to 65537 (thorough: 70000) deep: 1..3 functions (1..2 beyond 1000 levels), 1 operation and optionally a further call innermost, 1 operation on the way out, exceptions from the innermost call, caught at different levels", 3) {
	deep::nested<nytl::ConnectionID, void>();
}
