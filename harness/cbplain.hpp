// cbplain.hpp - reference model and driver for histories of nytl::Callback.
#pragma once

#include <nytl/callback.hpp>
#include "rcb.hpp" // instrumented ID, Boom

namespace cbp {

using rcb::InstID;
using rcb::Boom;
using rcb::Rec;

struct Cfg {
	int ops {5}; // length of the history
	int maxFuns {4};
	bool throws {true};
	bool viaConn {false};
	bool stale {true};
	bool emptyAdd {true};
	bool assign {true};
	bool ext {}; // ids may be reset from the outside, which removes their function
	std::vector<int> sizes {}; // possible numbers of initially registered functions
	bool ends {}; // only the first, middle and last functions are disconnected
	bool holes {}; // many functions may have been removed already
};

// Configuration of callbacks with a long history and with many functions.
inline Cfg manyCfg() {
	Cfg c;
#ifdef MC_SAN
	c.sizes = {0, 3, 8, 9, 17, 33, 65};
#else
	c.sizes = {0, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 300};
#endif
	c.maxFuns = 1000;
	c.ops = mc::bound(2, 2, 3, 3);
	c.throws = c.emptyAdd = false;
	c.ends = true;
	c.holes = true;
	return c;
}

template<typename ID, typename Ret>
struct World {
	using CB = nytl::Callback<Ret(int), ID>;
	using Conn = typename CB::Connection;
	static constexpr bool isInst = std::is_same<ID, InstID>::value;
	static constexpr bool isTracked = isInst || std::is_same<ID, nytl::TrackedConnectionID>::value;
	static constexpr bool isVoid = std::is_same<Ret, void>::value;

	struct Fun {
		Conn conn;
		ID id;
		bool registered {};
		bool ext {}; // removed from the outside
		int live {};
		int gen {}; // number of calls
		std::shared_ptr<Rec> rec;
	};

	struct Fn {
		World* w;
		int fid;
		unsigned magic {0xc0ffee11u};

		Fn(World* w, int fid) : w(w), fid(fid) { ++w->funs[fid].live; }
		Fn(const Fn& o) : w(o.w), fid(o.fid) { o.alive(); ++w->funs[fid].live; }
		~Fn() { alive(); --w->funs[fid].live; magic = 0; }
		void alive() const {
			if(magic != 0xc0ffee11u) mc::fail("function object used after its destruction");
		}
		Ret operator()(int a) const {
			alive();
			return w->invoked(fid, a);
		}
	};

	Cfg cfg;
	std::unique_ptr<CB> cb {new CB};
	std::deque<Fun> funs;
	std::vector<int> reg;
	bool calling {};
	bool settled {true}; // no removal from the outside since the last call
	std::size_t idx {};
	int arg {}, nextArg {50}, throwAt {-1};
	std::vector<int> rets;
	mc::u64 trace {3};

	Ret invoked(int fid, int a) {
		mc::step();
		MC_CHECK(calling, "function %d called while no call is active", fid);
		MC_CHECK(idx < reg.size(), "function %d called after all functions were called", fid);
		MC_CHECK(reg[idx] == fid, "function %d called, expected %d", fid, reg[idx]);
		MC_CHECK(a == arg, "function %d called with %d instead of %d", fid, a, arg);
		trace = mc::comb(trace, fid);
		if(int(idx++) == throwAt) throw Boom {77};
		if constexpr(!isVoid) {
			int r = fid * 10 + arg;
			rets.push_back(r);
			return r;
		}
	}

	void compare(const char* after, bool alive = true) {
		mc::step();
		mc::u64 h = reg.size();
		for(auto r : reg) h = mc::comb(h, r);
		mc::state(mc::comb(h, funs.size()));
		for(auto i = 0u; i < funs.size(); ++i) {
			auto& f = funs[i];
			if constexpr(isTracked) {
				MC_CHECK(f.conn.connected() == f.registered, "after %s: connection %u: connected()=%d, registered %d",
					after, i, f.conn.connected(), f.registered);
			}
			bool open = f.ext && !settled; // the callback may not know of it yet
			if constexpr(isInst) {
				auto& r = *f.rec;
				MC_CHECK(!r.touched, "after %s: id %u was accessed after its removal", after, i);
				MC_CHECK(r.removed == (f.registered ? 0 : 1) || (open && !r.removed), "after %s: id %u: notified of removal %d times, registered %d",
					after, i, r.removed, f.registered);
				MC_CHECK(!f.registered || (r.sets == 0 && r.value > 0), "after %s: id %u of a registered function was signaled", after, i);
				MC_CHECK(!r.badSet, "after %s: id %u set to a non-negative value", after, i);
			}
			MC_CHECK(open || (f.registered ? f.live >= 1 : f.live == 0), "after %s: %d copies of function object %u exist, registered %d",
				after, f.live, i, f.registered);
		}
		if(alive) {
			auto& subs = cb->subscriptions();
			if(!settled) return;
			MC_CHECK(subs.size() == reg.size(), "after %s: %d subscriptions, expected %d", after, int(subs.size()), int(reg.size()));
			for(auto i = 0u; i < subs.size(); ++i)
				MC_CHECK(subs[i].id.get() == funs[reg[i]].id.get(), "after %s: subscription %u is not function %d", after, i, reg[i]);
		}
	}

	void added(int fid, Conn c) {
		funs[fid].conn = c;
		funs[fid].id = c.id();
		if constexpr(isInst) funs[fid].rec = c.id().rec;
		MC_CHECK(c.connected() && c.id().get() > 0, "add returned an invalid connection");
		MC_CHECK(c.connectable() == static_cast<nytl::ConnectableT<ID>*>(cb.get()), "add returned a wrong connection");
		for(auto i = 0; i < fid; ++i)
			if(funs[i].registered) MC_CHECK(funs[i].id.get() != c.id().get(), "add returned an id that is in use");
		compare("add");
	}

	void doCall(int thr) {
		calling = true;
		idx = 0;
		arg = nextArg++;
		throwAt = thr;
		rets.clear();
		bool thrown = false;
		mc::note("call, function at %d throws", thr);
		std::vector<int> got;
		try {
			if constexpr(isVoid) { if(arg % 2) cb->call(arg); else (*cb)(arg); }
			else got = (arg % 2) ? cb->call(arg) : (*cb)(arg);
		} catch(const Boom& b) { thrown = b.id == 77; }
		calling = false;
		MC_CHECK(thrown == (thr >= 0), "exception thrown: %d, expected %d", thrown, thr >= 0);
		MC_CHECK(int(idx) == (thr >= 0 ? thr + 1 : int(reg.size())), "call called %d of %d functions", int(idx), int(reg.size()));
		if(!thrown) MC_CHECK(got == rets, "wrong return values");
		trace = mc::comb(trace, thrown);
		settled = true;
		compare("call");
	}

	void addFn() {
		int fid = funs.size();
		mc::note("add -> %d", fid);
		funs.emplace_back();
		funs[fid].registered = true;
		reg.push_back(fid);
		if(fid % 2) { auto conn = (*cb += Fn(this, fid)); added(fid, conn); }
		else { auto conn = cb->add(Fn(this, fid)); added(fid, conn); }
	}

	void disconnectFn(int fid, bool via = false) {
		auto was = funs[fid].registered;
		mc::note("disconnect %d%s", fid, via ? " via connection" : "");
		funs[fid].registered = false;
		for(auto i = 0u; i < reg.size(); ++i) if(reg[i] == fid) { reg.erase(reg.begin() + i); break; }
		if(via) {
			auto conn = funs[fid].conn;
			conn.disconnect();
			MC_CHECK(!conn.connected(), "still connected after disconnect");
		} else {
			auto id = funs[fid].id;
			auto r = cb->disconnect(id);
			MC_CHECK(r == was, "disconnect of %d returned %d, was registered: %d", fid, r, was);
		}
		compare("disconnect");
	}

	// An id that is not valid any more removes its function, see the
	// description of Subscription.
	void resetId(int fid) {
		if constexpr(isTracked) {
			mc::note("id %d is reset from the outside", fid);
			auto& f = funs[fid];
			if(!f.registered) return;
			if constexpr(isInst) f.rec->value = 0;
			else f.id.set(0);
			f.ext = true;
			settled = f.registered = false;
			for(auto i = 0u; i < reg.size(); ++i) if(reg[i] == fid) { reg.erase(reg.begin() + i); break; }
			compare("reset of the id");
		}
	}

	void run() {
		if(!cfg.sizes.empty()) {
			auto age = mc::pick(rcb::ages());
			mc::note("%llu ids were given", (unsigned long long) age);
			using C = rcb::Counters<CB>;
			C::set(*cb, C::ids(0), age);
			auto n = mc::pick(cfg.sizes);
			for(auto i = 0; i < n; ++i) addFn();
			auto j = n <= 65 ? mc::pick(rcb::jumps()) : 0;
			if(j > unsigned(n) && age < (1ull << 62)) {
				mc::note("another %llu ids were given", (unsigned long long) j);
				C::set(*cb, C::ids(0), age + j);
			}
			if(cfg.holes && n >= 15) {
				auto pat = mc::choose(rcb::holePatterns);
				for(auto i = 0; i < n; ++i) {
					// front to back and back to front
					auto fid = pat % 2 ? n - 1 - i : i;
					if(rcb::hole(pat, fid, n)) disconnectFn(fid);
				}
			}
		}
		for(auto k = 0; k < cfg.ops; ++k) {
			// alphabet: stop, add, call (throwing at i), disconnect i, clear, ...
			int nf = funs.size(), nr = reg.size();
			int nCall = 1 + (cfg.throws ? nr : 0);
			// the functions that are disconnected
			std::vector<int> df;
			for(auto i = 0; i < nf; ++i) if(!cfg.ends || i < 2 || i + 2 >= nf || i == nf / 2
				|| (cfg.holes && nr && i == reg[nr / 2])) df.push_back(i);
			int nd = df.size();
			int nDisc = nd * (cfg.viaConn ? 2 : 1);
			int nAdd = nf < cfg.maxFuns ? (cfg.assign ? 2 : 1) : 0;
			int nExt = cfg.ext ? nf : 0;
			int c = mc::choose(1 + nExt + nAdd + nDisc + nCall + 1 + cfg.stale + cfg.emptyAdd);
			if(c == 0) break;
			--c;
			if(c < nExt) { resetId(c); continue; }
			c -= nExt;
			if(c < nAdd) {
				if(c == 0) { addFn(); continue; }
				int fid = funs.size();
				{
					for(auto r : reg) funs[r].registered = false;
					reg.clear();
				}
				mc::note("assign -> %d", fid);
				funs.emplace_back();
				funs[fid].registered = true;
				reg.push_back(fid);
				settled = true;
				auto conn = (*cb = Fn(this, fid));
				added(fid, conn);
				continue;
			}
			c -= nAdd;
			if(c < nDisc) {
				disconnectFn(df[c % nd], c >= nd);
				continue;
			}
			c -= nDisc;
			if(c < nCall) {
				doCall(c - 1);
				continue;
			}
			c -= nCall;
			if(c == 0) {
				mc::note("clear");
				for(auto r : reg) funs[r].registered = false;
				reg.clear();
				cb->clear();
				settled = true;
				compare("clear");
			} else if(c == 1 && cfg.stale) {
				mc::note("disconnect invalid id");
				MC_CHECK(!cb->disconnect(ID {}), "disconnect of an invalid id returned true");
				compare("disconnect of an invalid id");
			} else {
				mc::note("add empty function");
				bool thrown = false;
				try { cb->add(std::function<Ret(int)> {}); }
				catch(const std::invalid_argument&) { thrown = true; }
				MC_CHECK(thrown, "adding an empty function did not throw");
				compare("add of an empty function");
			}
		}
		if(!cfg.ext || mc::flip()) doCall(-1);
		cb.reset();
		settled = true;
		reg.clear();
		for(auto& f : funs) f.registered = false;
		compare("destruction", false);
		mc::outcome(trace);
	}
};

template<typename ID, typename Ret> void explore(const Cfg& cfg) {
	World<ID, Ret> w {cfg};
	w.run();
}

} // namespace cbp
