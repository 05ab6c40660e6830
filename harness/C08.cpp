// C08: connection handles. Two callbacks, three owning handles, one plain
// connection; every history of up to N operations is executed and compared
// with a table of who owns what.
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include "mc.hpp"
#include <memory>
#include <optional>

namespace {

template<template<typename, typename> class CBT, typename ID>
struct World {
	using CB = CBT<void(), ID>;
	using Conn = typename CB::Connection;
	using Connectable = nytl::ConnectableT<ID>;
	using Unique = nytl::UniqueConnectionT<Connectable, ID>;
	static constexpr bool tracked = std::is_same<ID, nytl::TrackedConnectionID>::value;
	static constexpr int slots = 3;

	struct Fun { int cb; bool registered; std::int64_t id; };

	std::vector<Fun> funs;
	std::vector<int> called;
	std::unique_ptr<CB> cbs[2] {std::make_unique<CB>(), std::make_unique<CB>()};
	Connectable* addr[2] {cbs[0].get(), cbs[1].get()}; // also after their end
	std::optional<Unique> u[slots]; // must be destroyed before the callbacks (unless tracked)
	int own[slots] {-2, -2, -2}; // -2: no handle, -1: empty handle, else the function
	Conn plain;
	int plainFun {-1};
	mc::u64 trace {1};

	void gone(int fid) { if(fid >= 0) funs[fid].registered = false; }

	void compare(const char* after) {
		mc::step();
		mc::u64 h = 1;
		for(auto s = 0; s < slots; ++s) h = mc::comb(h, own[s] < 0 ? own[s] : funs[own[s]].cb + 2 * funs[own[s]].registered);
		h = mc::comb(h, plainFun < 0 ? 9 : funs[plainFun].registered);
		mc::state(h);
		for(auto s = 0; s < slots; ++s) {
			if(own[s] == -2) continue;
			auto& c = *u[s];
			if(own[s] == -1) {
				MC_CHECK(!c.connected(), "after %s: empty handle %d is connected", after, s);
				MC_CHECK(c.connectable() == nullptr, "after %s: empty handle %d has a connectable", after, s);
				MC_CHECK(c.id().get() == 0, "after %s: empty handle %d has an id", after, s);
				continue;
			}
			auto& f = funs[own[s]];
			MC_CHECK(c.connectable() == addr[f.cb], "after %s: handle %d refers to the wrong object", after, s);
			if(f.registered) {
				MC_CHECK(c.connected(), "after %s: handle %d is not connected", after, s);
				MC_CHECK(c.id().get() == f.id, "after %s: handle %d has the wrong id", after, s);
			} else if(tracked) {
				MC_CHECK(!c.connected(), "after %s: handle %d still connected", after, s);
			}
		}
		if(plainFun == -1) {
			MC_CHECK(!plain.connected() && !plain.connectable(), "after %s: empty connection is connected", after);
		} else {
			MC_CHECK(plain.connectable() == addr[funs[plainFun].cb], "after %s: connection has the wrong object", after);
			if(tracked || funs[plainFun].registered)
				MC_CHECK(plain.connected() == funs[plainFun].registered, "after %s: connection has the wrong state", after);
		}
		// which functions are really registered
		for(auto b = 0; b < 2; ++b) {
			called.clear();
			if(!cbs[b]) continue;
			cbs[b]->call();
			std::vector<int> exp;
			for(auto i = 0u; i < funs.size(); ++i) if(funs[i].cb == b && funs[i].registered) exp.push_back(i);
			MC_CHECK(called == exp, "after %s: callback %d has %d registered functions, expected %d",
				after, b, int(called.size()), int(exp.size()));
		}
	}

	int addFun(int b, Conn& c) {
		int fid = funs.size();
		funs.push_back({b, true, 0});
		c = cbs[b]->add([this, fid]{ called.push_back(fid); });
		funs[fid].id = c.id().get();
		return fid;
	}

	enum Op { add, moveCtor, moveAssign, disc, destroy, release, connDisc, connCopy, ownConn, clear, end };
	struct Option { Op op; int a, b; };

	std::vector<Option> enabled() const {
		std::vector<Option> o;
		for(auto s = 0; s < slots; ++s) {
			// the first unused slot stands for all of them
			bool firstUnused = own[s] == -2;
			for(auto t = 0; t < s; ++t) firstUnused &= own[t] != -2;
			if(own[s] != -2 || firstUnused) {
				if(funs.size() < 4) for(auto b = 0; b < 2; ++b) if(cbs[b]) o.push_back({add, s, b});
				for(auto d = 0; d < slots; ++d) if(d != s && own[d] != -2) o.push_back({moveCtor, d, s});
			}
			if(own[s] == -2) continue;
			for(auto d = 0; d < slots; ++d) if(d != s && own[d] != -2) o.push_back({moveAssign, d, s});
			o.push_back({disc, s, 0});
			o.push_back({destroy, s, 0});
			o.push_back({release, s, 0});
			if(own[s] >= 0 && own[s] != plainFun && cbs[funs[own[s]].cb]) o.push_back({connCopy, s, 0});
			bool owned = false; // two owners of one function are not allowed
			for(auto f : own) owned |= f == plainFun;
			if(plainFun >= 0 && !owned) o.push_back({ownConn, s, 0});
		}
		if(plainFun >= 0) o.push_back({connDisc, 0, 0});
		for(auto b = 0; b < 2; ++b) for(auto& f : funs) if(f.cb == b && f.registered) {
			o.push_back({clear, b, 0});
			break;
		}
		// tracked connections and handles may outlive their callback
		if(tracked) for(auto b = 0; b < 2; ++b) if(cbs[b]) o.push_back({end, b, 0});
		return o;
	}

	void perform(const Option& o) {
		auto s = o.b, d = o.a;
		switch(o.op) {
			case add: { // new handle for a new function, from a connection
				mc::note("handle %d = callback %d add", d, o.b);
				Conn c;
				auto f = addFun(o.b, c);
				if(own[d] == -2) {
					if(f % 2) u[d].emplace(c); else u[d].emplace(*c.connectable(), c.id());
				} else {
					gone(own[d]);
					*u[d] = Unique(c);
				}
				own[d] = f;
				compare("handle = add");
				break;
			}
			case moveCtor:
				mc::note("handle %d move constructed from %d", s, d);
				if(own[s] != -2) { gone(own[s]); u[s].reset(); }
				u[s].emplace(std::move(*u[d]));
				own[s] = own[d];
				own[d] = -1;
				compare("move construction");
				break;
			case moveAssign:
				mc::note("handle %d = move(%d)", d, s);
				gone(own[d]);
				*u[d] = std::move(*u[s]);
				own[d] = own[s];
				own[s] = -1;
				compare("move assignment");
				break;
			case disc:
				mc::note("handle %d disconnect", d);
				gone(own[d]);
				u[d]->disconnect();
				own[d] = -1;
				compare("handle.disconnect");
				break;
			case destroy:
				mc::note("handle %d destroyed", d);
				gone(own[d]);
				u[d].reset();
				own[d] = -2;
				compare("handle destruction");
				break;
			case release:
				mc::note("handle %d release", d);
				plain = u[d]->release();
				plainFun = own[d];
				own[d] = -1;
				compare("release");
				break;
			case connDisc:
				mc::note("connection disconnect");
				gone(plainFun);
				plain.disconnect();
				plainFun = -1;
				compare("connection.disconnect");
				break;
			case connCopy:
				mc::note("connection = copy of handle %d", d);
				plain = Conn(*u[d]->connectable(), u[d]->id());
				plainFun = own[d];
				compare("copy");
				break;
			case ownConn:
				mc::note("handle %d = connection", d);
				gone(own[d]);
				*u[d] = plain;
				own[d] = plainFun;
				compare("handle = connection");
				break;
			case clear:
				mc::note("callback %d cleared", d);
				for(auto& f : funs) if(f.cb == d) f.registered = false;
				cbs[d]->clear();
				compare("clear");
				break;
			case end:
				mc::note("callback %d destroyed", d);
				for(auto& f : funs) if(f.cb == d) f.registered = false;
				cbs[d].reset();
				compare("end of the callback");
				break;
		}
	}

	void run(int ops) {
		plain = Conn {};
		for(auto k = 0; k < ops; ++k) {
			auto o = enabled();
			auto c = mc::choose(o.size() + 1);
			if(c == 0) break;
			trace = mc::comb(trace, o[c - 1].op * 16 + o[c - 1].a * 4 + o[c - 1].b);
			perform(o[c - 1]);
		}
		for(auto s = 0; s < slots; ++s) {
			if(own[s] == -2) continue;
			gone(own[s]);
			u[s].reset();
			own[s] = -2;
			compare("handle destruction");
		}
		mc::outcome(trace);
	}
};

} // namespace

MC_SCENARIO("callback", "Callback, ConnectionID: 2 callbacks, 3 owning handles, 1 connection, all histories of N "
	"operations (own a new function, move construct/assign, disconnect, destroy, release, own a connection, clear)", 3) {
	World<nytl::Callback, nytl::ConnectionID> w;
	w.run(mc::bound(4, 6, 5, 7));
}
MC_SCENARIO("callback_tracked", "TrackedCallback, as above, and the end of the callbacks before their handles and connections", 3) {
	World<nytl::Callback, nytl::TrackedConnectionID> w;
	w.run(mc::bound(4, 6, 5, 7));
}
MC_SCENARIO("recursive", "RecursiveCallback, ConnectionID", 3) {
	World<nytl::RecursiveCallback, nytl::ConnectionID> w;
	w.run(mc::bound(4, 6, 5, 7));
}
MC_SCENARIO("recursive_tracked", "TrackedRecursiveCallback", 3) {
	World<nytl::RecursiveCallback, nytl::TrackedConnectionID> w;
	w.run(mc::bound(4, 6, 5, 7));
}

// A connectable that is not a callback: it records which ids it was asked to
// disconnect, may refuse to do so by throwing and gives ids of any magnitude.
namespace {

struct Refused : public std::runtime_error { Refused() : std::runtime_error("refused") {} };

template<typename ID>
struct Custom : public nytl::ConnectableT<ID> {
	std::vector<std::int64_t> asked;
	bool refuse {};
	bool disconnect(const ID& id) override {
		asked.push_back(id.get());
		if(refuse) throw Refused();
		return true;
	}
};

template<typename ID>
struct CustomWorld {
	using Connectable = nytl::ConnectableT<ID>;
	using Unique = nytl::UniqueConnectionT<Connectable, ID>;
	using Conn = nytl::ConnectionT<Connectable, ID>;

	Custom<ID> c[2];
	// vague: not connected after a refused disconnect, with whatever id
	struct Own { int con {-1}; std::int64_t id {}; bool vague {}; };
	std::optional<Unique> u[2];
	Own own[2];
	int next {};
	mc::u64 trace {3};

	static ID make(std::int64_t v) { return ID {v}; }

	// checks that exactly this connection was disconnected
	void expect(const char* after, Own o) {
		for(auto i = 0; i < 2; ++i) {
			std::vector<std::int64_t> e;
			if(o.con == i) e.push_back(o.id);
			MC_CHECK(c[i].asked == e, "after %s: connectable %d was asked to disconnect %d ids, expected %d", after, i,
				int(c[i].asked.size()), int(e.size()));
			c[i].asked.clear();
			c[i].refuse = false;
		}
		mc::step();
		mc::state(mc::comb(mc::comb(own[0].con, own[0].id), mc::comb(own[1].con, own[1].id)));
		for(auto s = 0; s < 2; ++s) if(u[s]) {
			MC_CHECK(u[s]->connected() == (own[s].con >= 0), "after %s: handle %d in wrong state", after, s);
			if(own[s].vague) continue;
			MC_CHECK(u[s]->connectable() == (own[s].con < 0 ? nullptr : &c[own[s].con]), "after %s: handle %d has the wrong object", after, s);
			MC_CHECK(u[s]->id().get() == own[s].id, "after %s: handle %d has the wrong id", after, s);
		}
	}

	void run(int ops) {
		static const std::int64_t ids[] = {1, 0x80, 0x8000, 0x80000000ll, 0x100000000ll, 0x100000001ll, 0x7fffffffffffffffll};
		for(auto k = 0; k < ops; ++k) {
			auto op = mc::choose(7);
			if(op == 0) break;
			auto s = mc::choose(2), d = 1 - s;
			bool refuse = mc::flip();
			for(auto& x : c) x.refuse = refuse;
			trace = mc::comb(trace, op * 4 + s * 2 + refuse);
			mc::note("operation %d on handle %d, connectables %s", op, s, refuse ? "refuse" : "accept");
			switch(op) {
				case 1: { // new connection
					Own o {int(mc::choose(2)), ids[next++ % 7]};
					auto old = own[s];
					own[s] = o;
					if(!u[s]) u[s].emplace(c[o.con], make(o.id));
					else *u[s] = Unique(Conn(c[o.con], make(o.id)));
					expect("assigning a new connection", old);
					break;
				}
				case 2: if(u[s] && u[d]) {
					auto old = own[s];
					own[s] = own[d];
					own[d] = {};
					*u[s] = std::move(*u[d]);
					expect("move assignment", old);
				} break;
				case 3: if(u[s] && !u[d]) {
					own[d] = own[s];
					own[s] = {};
					u[d].emplace(std::move(*u[s]));
					expect("move construction", {});
				} break;
				case 4: if(u[s]) { // destruction
					auto old = own[s];
					own[s] = {};
					u[s].reset();
					expect("destruction", old);
				} break;
				case 5: if(u[s]) {
					auto old = own[s];
					own[s] = {};
					auto r = u[s]->release();
					MC_CHECK(r.connected() == (old.con >= 0) && (old.vague || r.id().get() == old.id &&
						r.connectable() == (old.con < 0 ? nullptr : &c[old.con])), "release returned another connection");
					expect("release", {});
					if(old.con >= 0) {
						for(auto& x : c) x.refuse = false;
						r.disconnect();
						MC_CHECK(!r.connected(), "connection still connected after disconnect");
						expect("disconnect of the released connection", old);
					}
				} break;
				case 6: if(u[s]) {
					auto old = own[s];
					bool thrown = false;
					try { u[s]->disconnect(); } catch(const Refused&) { thrown = true; }
					MC_CHECK(thrown == (refuse && old.con >= 0), "exception of disconnect was lost");
					if(!thrown) own[s] = {};
					else { // not specified whether the handle still owns it
						if(!u[s]->connected()) own[s] = {-1, 0, true};
					}
					expect("disconnect", old);
				} break;
			}
			for(auto& x : c) x.refuse = false;
		}
		for(auto s = 0; s < 2; ++s) {
			auto old = own[s];
			own[s] = {};
			u[s].reset();
			expect("destruction", old);
		}
		mc::outcome(trace);
	}
};

} // namespace

MC_SCENARIO("custom", "two user-defined connectables that may refuse to disconnect (throw) and give ids up to 2^63-1, 2 owning handles, "
	"all histories of N operations", 3) {
	CustomWorld<nytl::ConnectionID> w;
	w.run(mc::bound(4, 5, 5, 6));
}
MC_SCENARIO("custom_tracked", "as above, tracked ids", 3) {
	CustomWorld<nytl::TrackedConnectionID> w;
	w.run(mc::bound(4, 5, 5, 6));
}
