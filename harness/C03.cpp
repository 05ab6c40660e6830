// C03: notifications of connection ids.
#include "rcb.hpp"

MC_SCENARIO("void", "RecursiveCallback<void(int), instrumented ID>: 0..3 functions, 2 free top level "
	"operations, budget of operations in handlers (disconnect any, clear, add, nested call)", 3) {
	rcb::Cfg c;
	c.top = 2;
	c.budget = mc::bound(3, 4, 4, 5);
	rcb::explore<rcb::InstID, void>(c);
}

MC_SCENARIO("throwing", "RecursiveCallback<int(int), instrumented ID>: handlers may throw, both forms "
	"of add, operator=", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.throws = true;
	c.connForm = true;
	c.assign = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<rcb::InstID, int>(c);
}

MC_SCENARIO("history", "4 operations on the top level, small budget in handlers", 3) {
	rcb::Cfg c;
	c.top = 4;
	c.maxFuns = 5;
	c.budget = mc::bound(1, 2, 2, 3);
	rcb::explore<rcb::InstID, void>(c);
}

MC_SCENARIO("outside", "RecursiveCallback<void(int), instrumented ID>: ids may also be reset from the outside "
	"(which removes their function), 2 free top level operations, operations in handlers", 3) {
	rcb::Cfg c;
	c.maxPre = 3;
	c.top = 2;
	c.maxFuns = 5;
	c.ext = true;
	c.budget = mc::bound(2, 3, 3, 4);
	rcb::explore<rcb::InstID, void>(c);
}

#include "cbplain.hpp"
MC_SCENARIO("plain", "Callback<int(int), instrumented ID>: all histories of up to N operations", 3) {
	cbp::Cfg c;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<rcb::InstID, int>(c);
}

MC_SCENARIO("two", "two RecursiveCallback<void(int), instrumented ID> with 0..2 functions each, functions of both use both (the "
	"second one may be destroyed while it is not being called), 1 top level operation", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<rcb::InstID, void>(c);
}

MC_SCENARIO("two_plain", "two Callback<void(int), instrumented ID> with 0..2 functions each, functions of both use both (only "
	"calling the ones that are being called already), 2 top level operations", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<rcb::InstID, void, true>(c);
}

MC_SCENARIO("aged", "RecursiveCallback<void(int), instrumented ID> that has given 0..2^63-512 ids and made that many calls (around the ends "
	"of the ranges of integers, ids may be 2^8, 2^16 or 2^32 apart), 0..3 functions, 1 top level operation, operations in handlers", 3) {
	rcb::explore<rcb::InstID, void>(rcb::agedCfg());
}

MC_SCENARIO("many", "RecursiveCallback<int(int), instrumented ID> with up to 300 functions, operations on the first, middle and last ones", 2) {
	auto c = rcb::manyCfg();
	c.assign = true;
	rcb::explore<rcb::InstID, int>(c);
}

MC_SCENARIO("plain_many", "Callback<void(int), instrumented ID> with up to 300 functions and up to 2^63-512 ids given (may be 2^8, 2^16 or 2^32 apart), histories of operations on the first, middle and last functions", 2) {
	cbp::explore<rcb::InstID, void>(cbp::manyCfg());
}

#include "deepcall.hpp"
MC_SCENARIO("nested", "RecursiveCallback<void(int), instrumented ID> called nested up to 65537 (thorough: 70000) deep: 1..3 functions (1..2 beyond 1000 levels), 1 operation and optionally a further call innermost, 1 operation on the way out, exceptions from the innermost call, caught at different levels", 3) {
	deep::nested<rcb::InstID, void>();
}

MC_SCENARIO("crowd", "RecursiveCallback<int(int), instrumented ID> with 257..70000 functions (up to 1025 with sanitizers): 2 operations, outside or inside of a call, on the first, middle or last ones, then calls", 2) {
	deep::crowd<rcb::InstID, false>();
}

MC_SCENARIO("crowd_plain", "Callback<int(int), instrumented ID> with 257..70000 functions (up to 1025 with sanitizers): 2 operations on the first, middle or last ones, then calls", 2) {
	deep::crowd<rcb::InstID, true>();
}
