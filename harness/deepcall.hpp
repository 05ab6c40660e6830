// deepcall.hpp - calls nested very deeply, and callbacks with very many
// functions: sizes around which counters of 8 or 16 bits overflow.
#pragma once
#include "rcb.hpp"
#include <pthread.h>

namespace deep {

using rcb::InstID;

// Runs f on a thread with a big stack (which is kept, so that its pages are only touched once).
template<typename F> void onBigStack(F f) {
	struct Arg { F* f; std::exception_ptr e; } arg {&f, {}};
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	constexpr auto size = std::size_t(1) << 30;
	static void* stack = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(stack == MAP_FAILED) { std::fprintf(stderr, "mmap failed\n"); _exit(3); }
	pthread_attr_setstack(&attr, stack, size);
	pthread_t t;
	auto r = pthread_create(&t, &attr, [](void* p) -> void* {
		auto& a = *static_cast<Arg*>(p);
		try { (*a.f)(); } catch(...) { a.e = std::current_exception(); }
		return nullptr;
	}, &arg);
	pthread_attr_destroy(&attr);
	if(r) { std::fprintf(stderr, "pthread_create failed\n"); _exit(3); }
	pthread_join(t, nullptr);
	if(arg.e) std::rethrow_exception(arg.e);
}

struct Stop {};

template<typename ID, typename Ret> struct Nest {
	using CB = nytl::RecursiveCallback<Ret(int), ID>;
	using Conn = typename CB::Connection;
	static constexpr bool isInst = std::is_same<ID, InstID>::value;
	static constexpr bool isTracked = isInst || std::is_same<ID, nytl::TrackedConnectionID>::value;
	static constexpr bool isVoid = std::is_same<Ret, void>::value;

	struct Fun { Conn conn; bool registered {}; int live {}; int pending {}; std::shared_ptr<rcb::Rec> rec; };
	struct Frame { std::vector<int> snap; unsigned idx {}; };

	struct Fn {
		Nest* w;
		int fid;
		mutable int executing {};
		Fn(Nest* w, int fid) : w(w), fid(fid) { ++w->funs[fid].live; }
		Fn(const Fn& o) : w(o.w), fid(o.fid) { ++w->funs[fid].live; }
		~Fn() {
			if(executing) mc::fail("function object %d was destroyed while it was executing %d times", fid, executing);
			--w->funs[fid].live;
		}
		Ret operator()(int a) const {
			struct G { int& e; G(int& e) : e(e) { ++e; } ~G() { --e; } } g(executing);
			w->invoked(fid, a);
			if constexpr(!isVoid) return fid * 7 + a;
		}
	};

	std::deque<Fun> funs;
	std::vector<int> reg;
	std::vector<Frame> frames;
	unsigned depth {}; // the nesting to be reached
	int rec {}; // the function that calls again
	int op1 {}, op2 {}; // what happens innermost, and on the way out
	unsigned at2 {}; // level of op2, 0: none
	bool again {}; // one more call innermost
	bool boom {}; // throw innermost
	unsigned catchAt {}; // level of the handler that catches it, 0: outside
	bool reached {};
	mc::u64 trace {};
	std::unique_ptr<CB> cb {new CB};

	void verify(const char* after) {
		mc::step();
		for(auto i = 0u; i < funs.size(); ++i) {
			auto& f = funs[i];
			if constexpr(isTracked) MC_CHECK(f.conn.connected() == f.registered,
				"after %s at level %d: connection %u reports connected=%d", after, int(frames.size()), i, f.conn.connected());
			bool must = f.registered || f.pending > 0;
			if constexpr(isInst) {
				auto& r = *f.rec;
				if(f.registered) MC_CHECK(r.removed == 0 && r.sets == 0, "after %s at level %d: id %u was signaled", after, int(frames.size()), i);
				else if(frames.empty()) MC_CHECK(r.removed == 1, "after %s: id %u was notified of its removal %d times", after, i, r.removed);
				else if(must) MC_CHECK(r.removed == 0 && r.value < 0, "after %s at level %d: id %u was notified too early", after, int(frames.size()), i);
				MC_CHECK(!r.badSet && !r.touched && r.removed <= 1, "after %s at level %d: wrong use of id %u", after, int(frames.size()), i);
			}
			if(must) MC_CHECK(f.live >= 1, "after %s at level %d: function object %u was destroyed too early", after, int(frames.size()), i);
			else if(frames.empty()) MC_CHECK(f.live == 0, "after %s: function object %u still exists", after, i);
		}
	}

	void add() {
		int fid = funs.size();
		funs.emplace_back();
		std::function<Ret(int)> f {Fn(this, fid)};
		funs[fid].conn = cb->add(std::move(f));
		if constexpr(isInst) funs[fid].rec = funs[fid].conn.id().rec;
		added(fid);
	}
	void added(int fid) {
		funs[fid].registered = true;
		reg.push_back(fid);
		MC_CHECK(funs[fid].conn.id().get() > 0, "add returned an invalid id");
	}
	void disconnect(int fid) {
		auto was = funs[fid].registered;
		if(was) reg.erase(std::find(reg.begin(), reg.end(), fid));
		funs[fid].registered = false;
		auto id = funs[fid].conn.id();
		MC_CHECK(cb->disconnect(id) == was, "disconnect of function %d at level %d does not return %d", fid, int(frames.size()), was);
	}
	void clear() {
		for(auto r : reg) funs[r].registered = false;
		reg.clear();
		cb->clear();
	}
	void op(int o) {
		switch(o) {
			case 1: disconnect(0); break;
			case 2: disconnect(int(funs.size()) - 1); break;
			case 3: disconnect(rec); break;
			case 4: clear(); break;
			case 5: add(); break;
			case 6: disconnect(0); add(); break;
			case 7: {
				for(auto r : reg) funs[r].registered = false;
				reg.clear();
				int fid = funs.size();
				funs.emplace_back();
				funs[fid].conn = (*cb = Fn(this, fid));
				if constexpr(isInst) funs[fid].rec = funs[fid].conn.id().rec;
				added(fid);
				break;
			}
			default: break;
		}
		verify("an operation");
	}

	void call() {
		frames.push_back({reg});
		for(auto r : reg) ++funs[r].pending;
		auto level = frames.size();
		if constexpr(isVoid) cb->call(int(level));
		else {
			auto ret = cb->call(int(level));
			auto& snap = frames.back().snap;
			MC_CHECK(ret.size() == snap.size(), "the call at level %d returned %d results instead of %d", int(level), int(ret.size()), int(snap.size()));
			for(auto i = 0u; i < snap.size(); ++i) MC_CHECK(ret[i] == snap[i] * 7 + int(level), "wrong result %u of the call at level %d", i, int(level));
		}
		MC_CHECK(frames.back().idx == frames.back().snap.size(), "the call at level %d called %u of %d functions", int(level),
			frames.back().idx, int(frames.back().snap.size()));
		leave(level - 1);
		verify("a call");
	}
	// drops all frames above the level
	void leave(std::size_t level) {
		while(frames.size() > level) {
			for(auto r : frames.back().snap) --funs[r].pending;
			frames.pop_back();
		}
	}
	void callCatching() {
		auto level = frames.size();
		try { call(); } catch(const Stop&) {
			trace = mc::comb(trace, frames.size());
			leave(level);
			verify("an exception");
		}
	}

	void invoked(int fid, int a) {
		{
			auto& f = frames.back();
			MC_CHECK(f.idx < f.snap.size() && f.snap[f.idx] == fid, "the call at level %d called function %d", int(frames.size()), fid);
			MC_CHECK(a == int(frames.size()), "wrong argument");
			++f.idx;
		}
		auto level = frames.size();
		if(fid != rec) { return; }
		if(level == depth && !reached) {
			reached = true;
			op(op1);
			if(again) call();
			if(boom) throw Stop {};
		} else if(level < depth && !reached) {
			if(boom && catchAt == level) callCatching(); else call();
			if(at2 == level) op(op2);
		}
	}

	void run() {
		depth = mc::pick(depths());
		bool big = depth > 1000;
		int n = 1 + mc::choose(big ? 2 : 3);
		rec = mc::choose(n);
		op1 = mc::choose(8);
		again = mc::flip();
		if(mc::flip()) {
			boom = true;
			std::vector<unsigned> at {0};
			for(auto l : {1u, depth / 2, depth - 1}) if(l > at.back() && l < depth && !(big && l == 1)) at.push_back(l);
			catchAt = mc::pick(at);
		}
		if(!big && depth > 1) {
			op2 = mc::pick(mc::thorough() ? std::vector<int> {0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int> {0, 1, 4, 6});
			if(op2) at2 = mc::flip() ? depth - 1 : 1;
		}
		onBigStack([&]{
			for(auto i = 0; i < n; ++i) add();
			if(boom && catchAt == 0) callCatching(); else call();
			MC_CHECK(reached, "the nesting was not reached");
			verify("the outermost call");
			add();
			call();
			for(auto r : std::vector<int>(reg)) disconnect(r);
			verify("removing everything");
			call();
		});
		mc::state(mc::hashBytes(&depth, 4, n * 1000 + rec * 100 + op1 * 10 + op2));
		mc::outcome(mc::comb(mc::comb(trace, funs.size()), n * 1000 + rec * 100 + op1 * 10 + op2));
	}

	static const std::vector<unsigned>& depths() {
#ifdef MC_SAN
		static const std::vector<unsigned> v {1, 2, 5, 16, 127, 128, 129, 255, 256, 257};
#else
		static const std::vector<unsigned> quick {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 32768, 65535, 65536, 65537};
		static const std::vector<unsigned> deep {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300,
			1024, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
		auto& v = mc::thorough() ? deep : quick;
#endif
		return v;
	}
};

template<typename ID, typename Ret> void nested() { Nest<ID, Ret> n; n.run(); }

// Very many functions.
template<typename ID, bool Plain> void crowd() {
	using CB = std::conditional_t<Plain, nytl::Callback<int(int), ID>, nytl::RecursiveCallback<int(int), ID>>;
#ifdef MC_SAN
	static const std::vector<int> sizes {300, 1025};
#else
	static const std::vector<int> sizes {257, 511, 1000, 1025, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
#endif
	auto n = mc::pick(sizes);
	// where the operations are done: outside or by one of the functions
	int who = Plain ? 0 : mc::choose(4);
	int inside = who == 0 ? -1 : who == 1 ? 0 : who == 2 ? n / 2 : n - 1;
	int ops[2];
	for(auto& o : ops) o = mc::choose(8);
	struct W {
		CB cb;
		std::vector<typename CB::Connection> conns;
		std::vector<bool> registered;
		int next {}, calls {};
		std::vector<int>* snap {};
		int inside {-1};
		const int* ops {};

		void add() {
			int fid = conns.size();
			conns.push_back(cb.add([this, fid](int a) { return invoked(fid, a); }));
			registered.push_back(true);
		}
		int invoked(int fid, int a) {
			MC_CHECK(next < int(snap->size()) && (*snap)[next] == fid, "function %d was called instead of function %d", fid, next < int(snap->size()) ? (*snap)[next] : -1);
			++next;
			if(fid == inside && ops) { auto o = ops; ops = nullptr; perform(o); }
			return fid + a;
		}
		std::vector<int> model() const {
			std::vector<int> r;
			for(auto i = 0u; i < registered.size(); ++i) if(registered[i]) r.push_back(i);
			return r;
		}
		void disconnect(int fid) {
			bool was = registered[fid];
			registered[fid] = false;
			MC_CHECK(cb.disconnect(conns[fid].id()) == was, "disconnect of function %d does not return %d", fid, was);
			MC_CHECK(!cb.disconnect(conns[fid].id()), "disconnecting function %d again succeeds", fid);
		}
		void perform(const int* o) {
			int n = conns.size();
			for(auto k = 0; k < 2; ++k) {
				switch(o[k]) {
					case 1: disconnect(0); break;
					case 2: disconnect(1); break;
					case 3: disconnect(n / 2); break;
					case 4: disconnect(n - 2); break;
					case 5: disconnect(n - 1); break;
					case 6: registered.assign(registered.size(), false); cb.clear(); break;
					case 7: add(); break;
				}
				mc::step();
			}
		}
		void call() {
			auto m = model();
			auto old = snap;
			snap = &m;
			next = 0;
			auto r = cb.call(5);
			MC_CHECK(next == int(m.size()), "%d of %d functions were called", next, int(m.size()));
			MC_CHECK(r.size() == m.size(), "%d results instead of %d", int(r.size()), int(m.size()));
			for(auto i = 0u; i < r.size(); ++i) if(r[i] != m[i] + 5) mc::fail("result %u is %d instead of %d", i, r[i], m[i] + 5);
			snap = old;
			mc::eval(r.size());
		}
		void connected() {
			if constexpr(std::is_same_v<ID, nytl::TrackedConnectionID>)
				for(auto i = 0u; i < conns.size(); ++i) if(conns[i].connected() != registered[i])
					mc::fail("connection %u reports connected=%d", i, conns[i].connected());
			if constexpr(std::is_same_v<ID, InstID>)
				for(auto i = 0u; i < conns.size(); ++i) {
					auto r = conns[i].id().rec;
					if(!r || r->removed != !registered[i] || r->touched || r->badSet) mc::fail("id %u was notified %d times", i, r ? r->removed : -1);
				}
		}
	};
	auto w = std::make_unique<W>();
	for(auto i = 0; i < n; ++i) w->add();
	if(inside < 0) w->perform(ops);
	else { w->inside = inside; w->ops = ops; }
	w->call();
	w->connected();
	w->add();
	w->call();
	w->connected();
	auto conns = w->conns;
	w.reset();
	if constexpr(std::is_same_v<ID, InstID>) for(auto& c : conns) if(c.id().rec->removed != 1) mc::fail("an id was notified %d times", c.id().rec->removed);
	if constexpr(std::is_same_v<ID, nytl::TrackedConnectionID>) for(auto& c : conns) if(c.connected()) mc::fail("connected after the end of the callback");
	mc::state(n * 1000 + who * 100 + ops[0] * 10 + ops[1]);
	mc::outcome(n * 1000 + who * 100 + ops[0] * 10 + ops[1]);
}

} // namespace deep
