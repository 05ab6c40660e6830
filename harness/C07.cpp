// C07: histories of Callback agree with a list of functions.
#include "cbplain.hpp"

MC_SCENARIO("int", "Callback<int(int), ConnectionID>: all histories of up to N operations (add, operator=, "
	"disconnect any, clear, call with any function throwing, invalid disconnects, empty functions)", 3) {
	cbp::Cfg c;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<nytl::ConnectionID, int>(c);
}

MC_SCENARIO("void_instrumented", "Callback<void(int), instrumented ID>, as above", 3) {
	cbp::Cfg c;
	c.ops = mc::bound(5, 7, 6, 8);
	cbp::explore<rcb::InstID, void>(c);
}

MC_SCENARIO("outside", "Callback<int(int), instrumented ID>: ids may also be reset from the outside, which removes their function", 3) {
	cbp::Cfg c;
	c.throws = c.emptyAdd = false;
	c.ext = true;
	c.ops = mc::bound(5, 6, 6, 7);
	cbp::explore<rcb::InstID, int>(c);
}

MC_SCENARIO("outside_tracked", "Callback<void(int), TrackedConnectionID>, as above with exceptions", 3) {
	cbp::Cfg c;
	c.emptyAdd = c.assign = false;
	c.ext = true;
	c.ops = mc::bound(5, 6, 6, 7);
	cbp::explore<nytl::TrackedConnectionID, void>(c);
}

MC_SCENARIO("long", "longer histories of add, disconnect, clear and call", 3) {
	cbp::Cfg c;
	c.throws = c.emptyAdd = c.assign = c.stale = false;
	c.maxFuns = 5;
	c.ops = mc::bound(5, 8, 6, 9);
	cbp::explore<nytl::TrackedConnectionID, int>(c);
}

#include "rcb.hpp"
MC_SCENARIO("two", "two Callback<int(int)> with 0..2 functions each, functions of both use both (only "
	"calling the ones that are being called already), 2 top level operations", 3) {
	rcb::Cfg c;
	c.maxPre = 2;
	c.top = 2;
	c.depth = 4;
	c.budget = mc::bound(2, 4, 3, 5);
	rcb::exploreTwo<nytl::ConnectionID, int, true>(c);
}

MC_SCENARIO("many", "Callback<int(int)> with up to 300 functions and up to 2^63-512 ids given (may be 2^8, 2^16 or 2^32 apart), histories of operations on the first, middle and last functions", 2) {
	cbp::explore<nytl::ConnectionID, int>(cbp::manyCfg());
}

#include "deepcall.hpp"
MC_SCENARIO("crowd", "Callback<int(int)> with 257..70000 functions (up to 1025 with sanitizers): 2 operations on the first, middle or last ones, then calls", 2) {
	deep::crowd<nytl::ConnectionID, true>();
}
