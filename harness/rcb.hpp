// rcb.hpp - reference model and driver for nytl::RecursiveCallback.
//
// The driver runs on the real RecursiveCallback. Every operation, at the top
// level as well as inside of handlers, is drawn from mc::choose and is applied
// to the real object and to a boring reference model (list of registered
// functions, stack of active calls with the snapshot they have to call). All
// observable effects are compared after every operation.
#pragma once

#include <nytl/recursiveCallback.hpp>
#include <nytl/callback.hpp>
#include "mc.hpp"
#include <deque>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace rcb {

// ID with instrumentation. All copies share a record, like TrackedConnectionID.
struct Rec {
	std::int64_t value {};
	int sets {};
	int removed {};
	bool badSet {}; // set to a value that is not negative
	bool touched {}; // accessed after removed() returned
};

struct InstID {
	std::shared_ptr<Rec> rec;
	bool gone {}; // removed() was called on this copy

	InstID() = default;
	InstID(std::int64_t v) : rec(std::make_shared<Rec>()) { rec->value = v; }
	InstID(const InstID& o) noexcept : rec(o.rec), gone(false) {}
	InstID& operator=(const InstID& o) noexcept { rec = o.rec; gone = false; return *this; }

	std::int64_t get() const noexcept {
		if(!rec) return 0;
		if(gone) rec->touched = true;
		return rec->value;
	}
	void set(std::int64_t v) noexcept {
		if(!rec) return;
		if(gone || rec->removed) rec->touched = true;
		if(v >= 0) rec->badSet = true;
		++rec->sets;
		rec->value = v;
	}
	void removed() noexcept {
		if(!rec) return;
		++rec->removed;
		rec->value = 0;
		gone = true;
	}
};

struct Boom { int id; };

struct Cfg {
	int minPre {0}, maxPre {3}; // functions registered initially
	int top {1}; // number of top level operations that are drawn
	int budget {3}; // number of operations drawn inside of handlers
	int depth {3}; // max number of active calls
	int maxFuns {6}; // max number of functions ever registered
	bool connForm {}; // use add(function with connection parameter) too
	bool throws {}; // handlers may throw
	bool assign {}; // use operator= (clear and add)
	bool clear {true};
	bool emptyAdd {}; // try to add empty functions
	bool stale {}; // pass default constructed ids to disconnect
	bool viaConn {}; // disconnect via a copy of the connection object
	bool ext {}; // ids may be reset from the outside, which removes their function
	std::vector<int> sizes; // possible numbers of initially registered functions, instead of minPre..maxPre
	bool aged {}; // the callback has a long history: many ids were given, many calls were made
	bool ends {}; // only the first, middle and last functions are disconnected
	bool holes {}; // many functions may have been removed already
};

// Whether function i of n is removed (by the disconnects done before the
// explored part of the history) in the given pattern.
constexpr auto holePatterns = 5u;
inline bool hole(unsigned pattern, unsigned i, unsigned n) {
	switch(pattern) {
		case 1: return i % 2 == 1;
		case 2: return i >= 1 && i < n / 2;
		case 3: return i < 2 * n / 3;
		case 4: return i != 0 && i + 1 != n && i != n / 2;
		default: return false;
	}
}

// Access to the counters of a callback (if it has them), to explore objects
// with a history of billions of operations.
template<typename CB>
struct Counters : CB {
	template<typename P = Counters> static auto ids(int) -> decltype(&P::subID_) { return &P::subID_; }
	template<typename P = Counters> static std::nullptr_t ids(long) { return nullptr; }
	template<typename P = Counters> static auto calls(int) -> decltype(&P::callID_) { return &P::callID_; }
	template<typename P = Counters> static std::nullptr_t calls(long) { return nullptr; }

	// whether the counter could be set
	template<typename C, typename M> static bool set(C& cb, M member, std::uint64_t v) {
		if constexpr(!std::is_same_v<M, std::nullptr_t>) {
			using T = std::remove_reference_t<decltype(cb.*member)>;
			if constexpr(std::is_integral_v<T>) {
				if(v > static_cast<std::uint64_t>(std::numeric_limits<T>::max())) return false;
				cb.*member = static_cast<T>(v);
				return true;
			}
		}
		return false;
	}
};

// Numbers of further ids given (and calls made) after the initial functions
// were registered: later ids only differ in the upper bits from earlier ones.
inline const std::vector<std::uint64_t>& jumps() {
	static const std::vector<std::uint64_t> v {0, 1ull << 8, 1ull << 16, 1ull << 32};
	return v;
}

// The ages: numbers of operations around which the range of integers ends.
inline const std::vector<std::uint64_t>& ages() {
	static const std::vector<std::uint64_t> v {0, 0x7e, 0xfe, 0x7ffe, 0xfffe, 0x7ffffffe, 0xfffffffe, 0x7ffffffffffffe00};
	return v;
}

// what several callbacks in one program share
struct Shared {
	int budget {};
	int nextBoom {1};
	int boom {0}; // the exception that is in flight
	int depth {}; // number of active calls
	int indent() const { return depth * 2; }
};

template<typename ID, typename Ret, bool Plain = false>
struct World {
	// Plain: a simple callback, must not be changed while it is being called
	using CB = std::conditional_t<Plain, nytl::Callback<Ret(int), ID>, nytl::RecursiveCallback<Ret(int), ID>>;
	using Conn = typename CB::Connection;
	static constexpr bool isInst = std::is_same<ID, InstID>::value;
	static constexpr bool isTracked = isInst || std::is_same<ID, nytl::TrackedConnectionID>::value;
	static constexpr bool isVoid = std::is_same<Ret, void>::value;

	struct Fun {
		Conn conn;
		ID id;
		bool registered {};
		bool known {}; // add has returned
		bool ext {}; // removed by resetting the id, at the latest the next call cleans up
		int live {}; // number of existing copies of the function object
		std::shared_ptr<Rec> rec; // InstID
	};

	struct Frame {
		std::vector<int> snap;
		std::size_t idx {};
		int arg {};
		std::vector<int> rets;
	};

	// the registered function objects
	struct Fn {
		World* w;
		int fid;
		mutable int executing {};
		unsigned magic {0xc0ffee11u};

		Fn(World* w, int fid) : w(w), fid(fid) { ++w->funs[fid].live; }
		Fn(const Fn& o) : w(o.w), fid(o.fid) { o.alive(); ++w->funs[fid].live; }
		Fn(Fn&& o) : w(o.w), fid(o.fid) { o.alive(); ++w->funs[fid].live; }
		~Fn() {
			alive();
			if(executing) mc::fail("function object %d was destroyed while it was executing", fid);
			--w->funs[fid].live;
			magic = 0xdead;
		}
		void alive() const {
			if(magic != 0xc0ffee11u) mc::fail("function object used after its destruction");
		}
		Ret run(int a, Conn* c) const {
			alive();
			struct G { int& e; G(int& e) : e(e) { ++e; } ~G() { --e; } } g(executing);
			return w->invoked(fid, a, c);
		}
	};
	struct FnPlain : Fn { using Fn::Fn; Ret operator()(int a) const { return this->run(a, nullptr); } };
	struct FnConn : Fn { using Fn::Fn; Ret operator()(Conn c, int a) const { return this->run(a, &c); } };

	Cfg cfg;
	std::unique_ptr<CB> cb {new CB};
	std::deque<Fun> funs;
	std::vector<int> reg; // registered functions in order of registration
	std::vector<Frame> frames;
	std::shared_ptr<Shared> sh {std::make_shared<Shared>()};
	std::vector<World*> group {this}; // all callbacks that handlers can use
	const char* name {""};
	int& budget {sh->budget};
	int& boom {sh->boom};
	int& nextBoom {sh->nextBoom};
	int nextArg {100}, nextRet {1000};
	int calls {}; // for the outcome
	mc::u64 trace {17};
	bool settled {true}; // no removal from the outside since the last outermost call

	explicit World(Cfg c) : cfg(c) { budget = c.budget; }
	World(Cfg c, std::shared_ptr<Shared> shared, const char* n) : cfg(c), sh(shared), name(n) {}
	World(const World&) = delete;

	// - model helper -
	bool pending(int fid) const {
		for(auto& f : frames)
			for(auto i = f.idx; i < f.snap.size(); ++i)
				if(f.snap[i] == fid) return true;
		return false;
	}

	void stateHash() const {
		mc::u64 h = mc::comb(frames.size(), reg.size());
		for(auto r : reg) h = mc::comb(h, r);
		for(auto& f : frames) {
			h = mc::comb(h, 0x777);
			for(auto i = f.idx; i < f.snap.size(); ++i) h = mc::comb(h, f.snap[i]);
		}
		h = mc::comb(h, funs.size());
		for(auto& f : funs) h = mc::comb(h, f.registered);
		mc::state(h);
	}

	// compares everything that can be observed without calling
	void compare(const char* after) {
		for(auto* w : group) if(w->cb || w == this) w->compareOne(after);
	}

	void compareOne(const char* after) {
		mc::step();
		stateHash();
		for(auto i = 0u; i < funs.size(); ++i) {
			auto& f = funs[i];
			if(!f.known) continue;
			if constexpr(isTracked) {
				MC_CHECK(f.conn.connected() == f.registered,
					"after %s: connection %u reports connected=%d but its function is%s registered",
					after, i, f.conn.connected(), f.registered ? "" : " not");
			}
			if constexpr(isInst) {
				auto& r = *f.rec;
				MC_CHECK(!r.badSet, "after %s: id %u was set to a non-negative value", after, i);
				MC_CHECK(!r.touched, "after %s: id %u was accessed after its removal", after, i);
				MC_CHECK(r.removed <= 1, "after %s: id %u was notified of its removal %d times", after, i, r.removed);
				if(f.registered) {
					MC_CHECK(r.removed == 0 && r.sets == 0 && r.value > 0,
						"after %s: id %u of a registered function was signaled (removed %d, set %d, value %d)",
						after, i, r.removed, r.sets, int(r.value));
				} else if(f.ext && frames.empty() && !settled) {
					// removed from the outside, the callback was not used since
				} else if(frames.empty()) {
					MC_CHECK(r.removed == 1,
						"after %s: no call active but id %u was not notified of its removal", after, i);
				} else {
					MC_CHECK(r.value <= 0, "after %s: id %u was not signaled its deferred removal", after, i);
					MC_CHECK(r.removed == 1 || r.value < 0 || f.ext,
						"after %s: id %u is neither negative nor removed", after, i);
					if(!f.ext && pending(i)) MC_CHECK(r.removed == 0,
						"after %s: id %u was notified of its removal while a call still has to call it", after, i);
				}
			}
			if(f.registered) MC_CHECK(f.live >= 1, "after %s: function object %u was destroyed too early", after, i);
			else if(frames.empty() && (!f.ext || settled)) MC_CHECK(f.live == 0,
				"after %s: function object %u still exists after its removal", after, i);
		}
	}

	// - operations -
	void addFn(bool connForm, bool plus = false) {
		int fid = funs.size();
		funs.emplace_back();
		mc::note("%*sadd%s -> %d", sh->indent(), name, connForm ? " (connection form)" : "", fid);
		reg.push_back(fid);
		funs[fid].registered = true;
		auto store = [&](Conn c) {
			funs[fid].id = c.id();
			funs[fid].conn = c;
			funs[fid].known = true;
			if constexpr(isInst) funs[fid].rec = c.id().rec;
			MC_CHECK(c.id().get() > 0 && c.connected(), "add returned an invalid connection");
			MC_CHECK(static_cast<nytl::ConnectableT<ID>*>(cb.get()) == c.connectable(),
				"add returned a connection for another object");
			for(auto i = 0; i < fid; ++i) {
				if(funs[i].registered && i != fid) MC_CHECK(funs[i].id.get() != c.id().get(),
					"add returned the id of another registered function");
			}
		};
		if constexpr(!Plain) if(connForm) {
			std::function<Ret(Conn, int)> f {FnConn(this, fid)};
			store(plus ? (*cb += std::move(f)) : cb->add(std::move(f)));
		}
		if(Plain || !connForm) {
			std::function<Ret(int)> f {FnPlain(this, fid)};
			store(plus ? (*cb += std::move(f)) : cb->add(std::move(f)));
		}
		compare("add");
	}

	void addEmpty(bool connForm) {
		mc::note("%*sadd empty function", sh->indent(), name);
		bool thrown = false;
		try {
			if constexpr(!Plain) if(connForm) cb->add(std::function<Ret(Conn, int)>{});
			if(Plain || !connForm) cb->add(std::function<Ret(int)>{});
		} catch(const std::invalid_argument&) { thrown = true; }
		MC_CHECK(thrown, "adding an empty function did not throw std::invalid_argument");
		compare("failed add");
	}

	void assign() {
		mc::note("%*sassign (clear and add)", sh->indent(), name);
		for(auto r : reg) funs[r].registered = false;
		reg.clear();
		int fid = funs.size();
		funs.emplace_back();
		reg.push_back(fid);
		funs[fid].registered = true;
		if(frames.empty()) settled = true;
		{
			auto c = (*cb = FnPlain(this, fid));
			funs[fid].id = c.id();
			funs[fid].conn = c;
			funs[fid].known = true;
			if constexpr(isInst) funs[fid].rec = c.id().rec;
			MC_CHECK(c.connected(), "assignment returned an invalid connection");
		}
		compare("assignment");
	}

	void disconnectFn(int fid, bool viaConn = false) {
		mc::note("%*sdisconnect %d%s", sh->indent(), name, fid, viaConn ? " via connection" : "");
		auto was = funs[fid].registered;
		funs[fid].registered = false;
		for(auto i = 0u; i < reg.size(); ++i) if(reg[i] == fid) { reg.erase(reg.begin() + i); break; }
		if(viaConn) {
			auto c = funs[fid].conn;
			c.disconnect();
			MC_CHECK(!c.connected(), "connection still connected after disconnect");
		} else {
			auto id = funs[fid].id;
			auto ret = cb->disconnect(id);
			MC_CHECK(ret == was, "disconnect of function %d returned %d but it was%s registered",
				fid, ret, was ? "" : " not");
		}
		compare("disconnect");
	}

	void disconnectStale() {
		mc::note("%*sdisconnect default constructed id", sh->indent(), name);
		MC_CHECK(!cb->disconnect(ID {}), "disconnect of an invalid id returned true");
		compare("disconnect of an invalid id");
	}

	// An id that is not valid any more removes its function, see the
	// description of Subscription.
	void resetId(int fid) {
		if constexpr(isInst) {
			mc::note("%*sid %d is reset from the outside", sh->indent(), name, fid);
			auto& f = funs[fid];
			if(!f.registered) return;
			f.rec->value = 0;
			f.ext = true;
			settled = false;
			f.registered = false;
			for(auto i = 0u; i < reg.size(); ++i) if(reg[i] == fid) { reg.erase(reg.begin() + i); break; }
			compare("reset of the id");
		}
	}

	void clearAll() {
		mc::note("%*sclear", sh->indent(), name);
		for(auto r : reg) funs[r].registered = false;
		reg.clear();
		cb->clear();
		if(frames.empty()) settled = true;
		compare("clear");
	}

	// returns whether the call was left by an exception
	// functions removed from the outside may or may not be called by a pending call
	void skipExt(Frame& fr, int next) {
		while(fr.idx < fr.snap.size() && fr.snap[fr.idx] != next && funs[fr.snap[fr.idx]].ext) ++fr.idx;
	}

	bool callAll(bool op = false) {
		auto depth = frames.size();
		Frame fr;
		fr.snap = reg;
		fr.arg = nextArg++;
		auto arg = fr.arg;
		mc::note("%*scall(%d), %d registered", sh->indent(), name, arg, int(reg.size()));
		frames.push_back(std::move(fr));
		++sh->depth;
		bool thrown = false;
		std::vector<int> got;
		try {
			if constexpr(isVoid) {
				if(op) (*cb)(arg); else cb->call(arg);
			} else {
				got = op ? (*cb)(arg) : cb->call(arg);
			}
		} catch(const Boom& b) {
			MC_CHECK(boom == b.id, "a call was left by exception %d instead of %d", b.id, boom);
			thrown = true;
		}
		MC_CHECK(frames.size() == depth + 1, "driver: frame stack");
		auto& top = frames.back();
		if(thrown) {
			boom = 0;
		} else {
			skipExt(top, -1);
			MC_CHECK(boom == 0, "a handler threw but the call returned");
			MC_CHECK(top.idx == top.snap.size(), "call returned after %d of %d registered functions, next is %d",
				int(top.idx), int(top.snap.size()), top.snap[top.idx]);
			if constexpr(!isVoid) {
				MC_CHECK(got == top.rets, "call returned %d values, expected the %d in order of the calls",
					int(got.size()), int(top.rets.size()));
			}
		}
		trace = mc::comb(trace, top.idx * 2 + thrown);
		frames.pop_back();
		--sh->depth;
		if(frames.empty()) settled = true;
		mc::note("%*send of call(%d)%s", sh->indent(), name, arg, thrown ? " by exception" : "");
		compare("call");
		return thrown;
	}

	// - handlers -
	Ret invoked(int fid, int arg, Conn* self) {
		mc::step();
		MC_CHECK(!frames.empty(), "function %d was called while no call is active", fid);
		{
			auto& fr = frames.back();
			MC_CHECK(boom == 0, "function %d was called after another one threw", fid);
			skipExt(fr, fid);
			MC_CHECK(fr.idx < fr.snap.size(), "function %d was called but all functions were already called", fid);
			MC_CHECK(fr.snap[fr.idx] == fid, "function %d was called, expected %d", fid, fr.snap[fr.idx]);
			MC_CHECK(fr.arg == arg, "function %d was called with argument %d instead of %d", fid, arg, fr.arg);
			++fr.idx;
		}
		mc::note("%*sfunction %d called", sh->indent(), name, fid);
		trace = mc::comb(trace, fid + 100);
		++calls;
		if(self) {
			MC_CHECK(self->connectable() == static_cast<nytl::ConnectableT<ID>*>(cb.get()),
				"function %d got a connection of another object", fid);
			if constexpr(isTracked) {
				MC_CHECK(self->connected() == funs[fid].registered, "function %d got a connection in the wrong state", fid);
				if constexpr(isInst) MC_CHECK(self->id().rec == funs[fid].rec, "function %d got another function's id", fid);
				else MC_CHECK(self->id().value == funs[fid].id.value, "function %d got another function's id", fid);
			} else {
				MC_CHECK(self->id().get() == funs[fid].id.get(), "function %d got another function's id", fid);
			}
		}
		actions();
		if constexpr(!isVoid) {
			auto r = nextRet++;
			frames.back().rets.push_back(r);
			return r;
		}
	}

	enum Op { reset, disc, discConn, discStale, clr, add, addConn, asgn, addNull, call, thrw, kill };
	struct Option { Op op; int fid; World* w; };

	void options(std::vector<Option>& o, bool inHandler) {
		for(auto* w : group) if(w->cb) w->ownOptions(o);
		if(cfg.throws && inHandler) o.push_back({thrw, 0, this});
	}

	void ownOptions(std::vector<Option>& opts) {
		struct { std::vector<Option>& v; World* w; void push_back(std::pair<Op, int> x) { v.push_back({x.first, x.second, w}); } } o {opts, this};
		if(sh->depth < cfg.depth) o.push_back({call, 0});
		if(Plain && !frames.empty()) return;
		if(group.size() > 1 && frames.empty() && this != group[0]) o.push_back({kill, 0});
		for(auto i = 0u; i < funs.size(); ++i) {
			if(!funs[i].known) continue;
			if(cfg.ends && i > 1 && i + 2 < funs.size() && i != funs.size() / 2
				&& (!cfg.holes || reg.empty() || int(i) != reg[reg.size() / 2])) continue;
			o.push_back({disc, int(i)});
			if(cfg.viaConn) o.push_back({discConn, int(i)});
			if(cfg.ext && funs[i].registered) o.push_back({reset, int(i)});
		}
		if(int(funs.size()) < cfg.maxFuns) {
			o.push_back({add, 0});
			if(cfg.connForm) o.push_back({addConn, 0});
			if(cfg.assign) o.push_back({asgn, 0});
		}
		if(cfg.clear) o.push_back({clr, 0});
		if(cfg.stale) o.push_back({discStale, 0});
		if(cfg.emptyAdd) o.push_back({addNull, 0});
	}

	void perform(const Option& o) { o.w->performOwn(o); }
	void performOwn(const Option& o) {
		switch(o.op) {
			case reset: resetId(o.fid); break;
			case disc: disconnectFn(o.fid); break;
			case discConn: disconnectFn(o.fid, true); break;
			case discStale: disconnectStale(); break;
			case clr: clearAll(); break;
			case add: addFn(false, funs.size() % 2); break;
			case addConn: addFn(true, funs.size() % 2); break;
			case asgn: assign(); break;
			case addNull: addEmpty(cfg.connForm); break;
			case kill: destroy(); break;
			case call:
				if(callAll(nextArg % 2) && sh->depth) {
					// the handler may or may not catch it
					if(mc::flip()) {
						boom = nextBoom++;
						mc::note("%*sexception passed on", sh->indent(), name);
						throw Boom {boom};
					}
				}
				break;
			case thrw:
				boom = nextBoom++;
				mc::note("%*sthrow", sh->indent(), name);
				throw Boom {boom};
		}
	}

	void actions() {
		while(budget > 0) {
			std::vector<Option> o;
			options(o, true);
			auto c = mc::choose(o.size() + 1);
			if(c == 0) return;
			--budget;
			perform(o[c - 1]);
		}
	}

	// makes the callback old
	void age() {
		using C = Counters<CB>;
		auto a = age1 = mc::choose(ages().size());
		auto b = Plain ? 0 : mc::choose(ages().size());
		mc::note("%*s%llu ids were given, %llu calls were made", sh->indent(), name,
			(unsigned long long) ages()[a], (unsigned long long) ages()[b]);
		C::set(*cb, C::ids(0), ages()[a]);
		if constexpr(!Plain) C::set(*cb, C::calls(0), ages()[b]);
	}

	int age1 {};
	void jump() {
		using C = Counters<CB>;
		auto j = mc::pick(jumps());
		if(!j || ages()[age1] > (1ull << 62)) return;
		mc::note("%*sanother %llu ids were given", sh->indent(), name, (unsigned long long) j);
		C::set(*cb, C::ids(0), ages()[age1] + j);
	}

	void run() {
		for(auto* w : group) {
			if(cfg.aged) w->age();
			int n = cfg.sizes.empty() ? cfg.minPre + mc::choose(cfg.maxPre - cfg.minPre + 1) : mc::pick(cfg.sizes);
			for(auto i = 0; i < n; ++i) w->addFn(cfg.connForm && mc::flip(), i % 2);
			if(cfg.aged) w->jump();
			if(cfg.holes && n >= 15) {
				auto pat = mc::choose(holePatterns);
				for(auto i = 0; i < n; ++i) {
					// front to back and back to front
					auto fid = pat % 2 ? n - 1 - i : i;
					if(hole(pat, fid, n)) w->disconnectFn(fid);
				}
			}
		}
		for(auto t = 0; t < cfg.top; ++t) {
			std::vector<Option> o;
			options(o, false);
			auto c = mc::choose(o.size() + 1);
			if(c == 0) break;
			perform(o[c - 1]);
		}
		// finally call what is left, without further operations
		budget = 0;
		if(cfg.ext && !settled && mc::flip()) { // or destroy it before it could clean up
			for(auto* w : group) if(w != this && w->cb) w->destroy();
			destroy();
			mc::outcome(mc::comb(trace, calls) + 1);
			return;
		}
		callAll();
		addFn(false);
		callAll();
		for(auto* w : group) if(w != this && w->cb) { w->callAll(); w->destroy(); trace = mc::comb(trace, w->trace); }
		destroy();
		mc::outcome(mc::comb(trace, calls));
	}

	void destroy() {
		mc::note("%*sdestroy", sh->indent(), name);
		cb.reset();
		settled = true;
		for(auto& f : funs) f.registered = false;
		reg.clear();
		compare("destruction");
	}
};

// Configurations of callbacks with a long history and with many functions.
inline Cfg agedCfg(int maxPre = 3) {
	Cfg c;
	c.aged = true;
	c.maxPre = maxPre;
	c.budget = mc::bound(2, 2, 2, 3);
	return c;
}

inline Cfg manyCfg() {
	Cfg c;
#ifdef MC_SAN
	c.sizes = {4, 8, 9, 16, 17, 33, 65};
#else
	c.sizes = {4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
#endif
	c.maxFuns = 1000;
	c.ends = true;
	c.holes = true;
	c.budget = mc::bound(1, 1, 1, 2);
	return c;
}

template<typename ID, typename Ret> void explore(const Cfg& cfg) {
	World<ID, Ret> w(cfg);
	w.run();
}

// Two callbacks, the functions of both use both of them. The second one may
// be destroyed while the first one is being called.
template<typename ID, typename Ret, bool Plain = false> void exploreTwo(const Cfg& cfg) {
	World<ID, Ret, Plain> a(cfg);
	a.name = "A: ";
	World<ID, Ret, Plain> b(cfg, a.sh, "B: ");
	a.group = {&a, &b};
	b.group = {&a, &b};
	a.run();
}

} // namespace rcb
