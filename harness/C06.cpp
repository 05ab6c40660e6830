// C06: add is all-or-nothing when a memory allocation or the construction of
// the id fails. The allocations made by the real code are counted by a
// replacement of operator new; every allocation of every add in every explored
// history is made to fail.
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include "rcb.hpp"
#include <new>

static int armed = -1; // number of allocations left until one fails; -1: off
static bool fired = false;

void* operator new(std::size_t n) {
	if(armed >= 0 && armed-- == 0) {
		fired = true;
		throw std::bad_alloc();
	}
	auto p = std::malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace {

struct IdFail {};
int idArmed = -1; // constructions of ids left until one throws

struct FaultID : rcb::InstID {
	FaultID() = default;
	FaultID(std::int64_t v) : rcb::InstID(check(v)) {}
	static inline long objects {}; // number of existing objects
	struct Count { Count() { ++objects; } Count(const Count&) { ++objects; } ~Count() { --objects; } Count& operator=(const Count&) = default; } count;
	static std::int64_t check(std::int64_t v) {
		if(idArmed >= 0 && idArmed-- == 0) { fired = true; throw IdFail {}; }
		return v;
	}
};

template<typename CB, typename ID, bool recursive, typename Ret>
struct World {
	using Conn = typename CB::Connection;
	struct Fun { bool registered {}; int live {}; ID id; Conn conn; int calls {}; bool added {}; };
	struct Fn {
		World* w; int fid; long pad[4] {};
		Fn(World* w, int f) : w(w), fid(f) { ++w->funs[f].live; }
		Fn(const Fn& o) : w(o.w), fid(o.fid) { ++w->funs[fid].live; }
		~Fn() { --w->funs[fid].live; }
	};
	struct P : Fn { using Fn::Fn; Ret operator()(int) const { return this->w->invoked(this->fid); } };
	struct C : Fn { using Fn::Fn; Ret operator()(Conn, int) const { return this->w->invoked(this->fid); } };

	std::unique_ptr<CB> cb {new CB};
	std::deque<Fun> funs;
	std::vector<int> reg;
	struct Frame { std::vector<int> snap; std::size_t idx; };
	std::vector<Frame> frames;
	int budget {};
	mc::u64 trace {5};

	void compare(const char* after) {
		mc::step();
		mc::u64 h = frames.size();
		for(auto r : reg) h = mc::comb(h, r);
		mc::state(mc::comb(h, funs.size()));
		for(auto i = 0u; i < funs.size(); ++i) {
			auto& f = funs[i];
			if(frames.empty() || f.registered)
				MC_CHECK(f.registered ? f.live >= 1 : f.live == 0, "after %s: %d copies of function object %u, registered %d",
					after, f.live, i, f.registered);
			if constexpr(!std::is_same<ID, nytl::ConnectionID>::value) {
				if(f.added) MC_CHECK(f.conn.connected() == f.registered, "after %s: connection %u: connected()=%d, registered=%d",
					after, i, f.conn.connected(), f.registered);
			}
		}
	}

	// tries to add a function while one allocation/id construction fails
	// returns whether the fault was reached
	void addFaulty(int form, int fault) {
		int fid = funs.size();
		funs.emplace_back();
		fired = false;
		bool failed = false;
		mc::note("%*sadd (form %d) with fault %d", int(frames.size() * 2), "", form, fault);
		auto arm = [&]{ if(fault == 0) idArmed = 0; else if(fault > 0) armed = fault - 1; };
		auto done = [&]{ armed = -1; idArmed = -1; };
		long objects = FaultID::objects;
		Conn c;
		try {
			if(form == 0) {
				std::function<Ret(int)> f {P(this, fid)};
				arm();
				c = cb->add(std::move(f));
				done();
			} else if(form == 1) {
				std::function<Ret(int)> f {P(this, fid)};
				arm();
				c = (*cb += std::move(f));
				done();
			} else {
				if constexpr(recursive) {
					std::function<Ret(Conn, int)> f {C(this, fid)};
					arm();
					c = cb->add(std::move(f));
					done();
				}
			}
		} catch(const std::bad_alloc&) { done(); failed = true; }
		catch(const IdFail&) { done(); failed = true; }
		MC_CHECK(failed == fired, "the failure of add was%s reported", failed ? "" : " not");
		if(!failed) {
			funs[fid].registered = true;
			funs[fid].added = true;
			funs[fid].id = c.id();
			funs[fid].conn = c;
			reg.push_back(fid);
			MC_CHECK(c.connected(), "add returned an invalid connection");
		}
		trace = mc::comb(trace, failed);
		if(failed && frames.empty()) MC_CHECK(FaultID::objects <= objects + (std::is_same<ID, FaultID>::value ? 1 : 0),
			"a failed add left %ld entries behind", FaultID::objects - objects - 1);
		compare(failed ? "failed add" : "add");
	}

	Ret invoked(int fid) {
		armed = -1;
		MC_CHECK(!frames.empty(), "function %d called while no call is active", fid);
		{
			auto& f = frames.back();
			MC_CHECK(f.idx < f.snap.size() && f.snap[f.idx] == fid, "function %d called unexpectedly", fid);
			++f.idx;
		}
		mc::note("%*sfunction %d called", int(frames.size() * 2), "", fid);
		trace = mc::comb(trace, fid + 10);
		if(recursive) {
			while(budget > 0) {
				auto c = mc::choose(5);
				if(c == 0) break;
				--budget;
				op(c);
			}
		}
		if constexpr(!std::is_same<Ret, void>::value) return fid;
	}

	void doCall(bool faulty) {
		auto depth = frames.size();
		frames.push_back({reg, 0});
		auto own = reg;
		mc::note("%*scall%s", int(depth * 2), "", faulty ? " with failing allocation" : "");
		fired = false;
		bool failed = false;
		if(faulty) armed = 0;
		try {
			if constexpr(std::is_same<Ret, void>::value) {
				cb->call(1);
				armed = -1;
			} else {
				auto r = cb->call(1);
				armed = -1;
				MC_CHECK(r == own, "wrong return values");
			}
		} catch(const std::bad_alloc&) { armed = -1; failed = true; }
		MC_CHECK(frames.size() == depth + 1, "frames");
		if(!failed) MC_CHECK(frames.back().idx == own.size(), "%d of %d functions called", int(frames.back().idx), int(own.size()));
		else MC_CHECK(frames.back().idx == 0 && faulty, "call failed");
		frames.pop_back();
		compare("call");
	}

	void op(int c) {
		switch(c) {
			case 1: {
				int form = mc::choose(recursive ? 3 : 2);
				// 0: construction of the id, n: allocation number n (ids may allocate)
				int fault = mc::choose(8) - 1;
				addFaulty(form, fault);
				break;
			}
			case 2: { // disconnect
				if(funs.empty()) return;
				int fid = mc::choose(funs.size());
				if(!funs[fid].added) return;
				mc::note("%*sdisconnect %d", int(frames.size() * 2), "", fid);
				auto was = funs[fid].registered;
				funs[fid].registered = false;
				for(auto i = 0u; i < reg.size(); ++i) if(reg[i] == fid) { reg.erase(reg.begin() + i); break; }
				MC_CHECK(cb->disconnect(funs[fid].id) == was, "disconnect returned the wrong value");
				compare("disconnect");
				break;
			}
			case 3:
				if(frames.size() < 3) doCall(false);
				break;
			case 4:
				if(frames.size() < 3) doCall(true);
				break;
		}
	}

	void run(int ops, int b) {
		budget = b;
		int n = mc::choose(3);
		for(auto i = 0; i < n; ++i) addFaulty(0, -1);
		for(auto i = 0; i < ops; ++i) {
			auto c = mc::choose(5);
			if(c == 0) break;
			op(c);
		}
		budget = 0;
		doCall(false);
		addFaulty(0, -1);
		doCall(false);
		cb.reset();
		for(auto& f : funs) f.registered = false;
		reg.clear();
		compare("destruction");
		mc::outcome(trace);
	}
};

template<typename ID, typename Ret> void rec(int ops, int b) {
	World<nytl::RecursiveCallback<Ret(int), ID>, ID, true, Ret> w;
	w.run(ops, b);
}
template<typename ID, typename Ret> void plain(int ops) {
	World<nytl::Callback<Ret(int), ID>, ID, false, Ret> w;
	w.run(ops, 0);
}

} // namespace

MC_SCENARIO("recursive_id", "RecursiveCallback<int(int), throwing and allocating ID>: 0..2 functions, histories "
	"of 3 operations at the top level and in handlers (add in all forms with the n-th allocation or the id "
	"failing, disconnect, call, call with failing allocation)", 3) {
	int total = mc::bound(2, 3, 3, 3);
	int inside = mc::choose(total + 1);
	rec<FaultID, int>(1 + total - inside, inside);
}

MC_SCENARIO("recursive_tracked", "RecursiveCallback<void(int), TrackedConnectionID>, as above", 3) {
	int total = mc::bound(2, 3, 3, 3);
	int inside = mc::choose(total + 1);
	rec<nytl::TrackedConnectionID, void>(1 + total - inside, inside);
}

MC_SCENARIO("recursive_plain_id", "RecursiveCallback<int(int), ConnectionID>, as above", 3) {
	int total = mc::bound(2, 2, 2, 3);
	int inside = mc::choose(total + 1);
	rec<nytl::ConnectionID, int>(1 + total - inside, inside);
}

MC_SCENARIO("plain_id", "Callback<int(int), throwing and allocating ID>: histories of 4 operations", 3) {
	plain<FaultID, int>(mc::bound(3, 4, 4, 5));
}

MC_SCENARIO("plain_tracked", "Callback<void(int), TrackedConnectionID>: histories of 4 operations", 3) {
	plain<nytl::TrackedConnectionID, void>(mc::bound(3, 4, 4, 5));
}
