// C19: clone and cloneMove duplicate the complete dynamic object.
#include <nytl/clone.hpp>
#include "mc.hpp"
#include <memory>
#include <typeinfo>
#include <vector>

namespace {

// A value owned by an object. Every payload knows its own address, so that
// objects that were copied bytewise or sliced are noticed.
int live, copies, moves, throwAt;
struct CopyError {};
struct Payload {
	std::unique_ptr<int> value;
	Payload* self {this};
	Payload() : value(std::make_unique<int>(0)) { ++live; }
	Payload(const Payload& o) : value(o.value ? std::make_unique<int>(*o.value) : nullptr) {
		o.check();
		if(throwAt > 0 && --throwAt == 0) throw CopyError();
		++live;
		++copies;
	}
	Payload(Payload&& o) : value(std::move(o.value)) { o.check(); ++live; ++moves; }
	Payload& operator=(const Payload&) = delete;
	~Payload() { check(); --live; self = nullptr; }
	void check() const { MC_CHECK(self == this, "object without constructor"); }
	int get() const { check(); return value ? *value : -1; }
	void set(int v) { check(); value = std::make_unique<int>(v); }
};

using Payloads = std::vector<Payload*>;

// 1: Cloneable, derived once, twice, thrice
struct Base : public nytl::Cloneable<Base> {
	Payload p0;
	Base() = default;
	explicit Base(int v) { p0.set(v); }
	virtual void collect(Payloads& r) { r.push_back(&p0); }
	virtual int tag() const { return 10; }
	virtual ~Base() = default;
	Base(const Base&) = default;
	Base(Base&&) = default;
};
struct D1 : public nytl::DeriveCloneable<D1, Base> {
	using nytl::DeriveCloneable<D1, Base>::DeriveCloneable;
	Payload p1;
	void collect(Payloads& r) override { Base::collect(r); r.push_back(&p1); }
	int tag() const override { return 11; }
};
struct D2 : public nytl::DeriveCloneable<D2, D1> {
	using nytl::DeriveCloneable<D2, D1>::DeriveCloneable;
	Payload p2;
	void collect(Payloads& r) override { D1::collect(r); r.push_back(&p2); }
	int tag() const override { return 12; }
};
struct D3 : public nytl::DeriveCloneable<D3, D2> {
	Payload p3;
	void collect(Payloads& r) override { D2::collect(r); r.push_back(&p3); }
	int tag() const override { return 13; }
};

// 2: interfaces, several of them, next to unrelated bases
struct IA : public nytl::AbstractCloneable<IA> {
	virtual void collect(Payloads& r) = 0;
	virtual int tag() const = 0;
	virtual int a() const = 0;
};
struct IB : public nytl::AbstractCloneable<IB> {
	Payload pb;
	virtual int b() const = 0;
};
struct IC : public nytl::AbstractCloneable<IC> {
	Payload pc;
	virtual int c() const = 0;
};
struct Other {
	long long pad[3] {1, 2, 3};
	virtual ~Other() = default;
	virtual int other() const { return 99; }
};
struct PlainOther { long long pad[2] {4, 5}; };

struct Single : public nytl::DeriveCloneable<Single, IA> {
	Payload p;
	void collect(Payloads& r) override { r.push_back(&p); }
	int tag() const override { return 20; }
	int a() const override { return 120; }
};
struct Two : public nytl::DeriveCloneable<Two, IA, IB> {
	Payload p;
	void collect(Payloads& r) override { r.push_back(&p); r.push_back(&pb); }
	int tag() const override { return 21; }
	int a() const override { return 121; }
	int b() const override { return 221; }
};
struct TwoR : public nytl::DeriveCloneable<TwoR, IB, IA> {
	Payload p;
	void collect(Payloads& r) override { r.push_back(&pb); r.push_back(&p); }
	int tag() const override { return 22; }
	int a() const override { return 122; }
	int b() const override { return 222; }
};
struct Three : public nytl::DeriveCloneable<Three, IC, IB, IA> {
	void collect(Payloads& r) override { r.push_back(&pb); r.push_back(&pc); }
	int tag() const override { return 23; }
	int a() const override { return 123; }
	int b() const override { return 223; }
	int c() const override { return 323; }
};
struct Beside : public Other, public nytl::DeriveCloneable<Beside, IB, IA> {
	Payload p;
	void collect(Payloads& r) override { r.push_back(&pb); r.push_back(&p); MC_CHECK(pad[0] == 1 && pad[2] == 3, "base"); }
	int tag() const override { return 24 + other() - 99; }
	int a() const override { return 124; }
	int b() const override { return 224; }
};
struct BesidePlain : public PlainOther, public nytl::DeriveCloneable<BesidePlain, IA> {
	Payload p;
	void collect(Payloads& r) override { r.push_back(&p); MC_CHECK(pad[0] == 4 && pad[1] == 5, "base"); }
	int tag() const override { return 25; }
	int a() const override { return 125; }
};
struct TwoDeep : public nytl::DeriveCloneable<TwoDeep, TwoR> {
	Payload q;
	void collect(Payloads& r) override { TwoR::collect(r); r.push_back(&q); }
	int tag() const override { return 26; }
};
struct BaseDeep : public Other, public nytl::DeriveCloneable<BaseDeep, IC, Beside> {
	Payload q;
	void collect(Payloads& r) override { Beside::collect(r); r.push_back(&pc); r.push_back(&q); }
	int tag() const override { return 27; }
	int c() const override { return 327; }
};

// 3: only movable
struct M : public nytl::CloneMovable<M> {
	Payload p;
	std::unique_ptr<int> only;
	M() = default;
	M(M&&) = default;
	virtual ~M() = default;
	virtual void collect(Payloads& r) { r.push_back(&p); }
	virtual int tag() const { return 30; }
};
struct MD : public nytl::DeriveCloneMovable<MD, M> {
	Payload q;
	void collect(Payloads& r) override { M::collect(r); r.push_back(&q); }
	int tag() const override { return 31; }
};
struct AM : public nytl::AbstractCloneMovable<AM> {
	Payload p;
	virtual int am() const = 0;
};
struct MM : public nytl::DeriveCloneMovable<MM, AM, M> {
	void collect(Payloads& r) override { M::collect(r); r.push_back(&this->AM::p); }
	int tag() const override { return 32; }
	int am() const override { return 432; }
};

struct Model { int type; std::vector<int> values; };

template<typename I> struct World {
	struct View {
		const char* name;
		bool (*has)(I&);
		std::unique_ptr<I> (*clone)(I&);
		std::unique_ptr<I> (*move)(I&);
	};
	std::vector<std::unique_ptr<I>> objs;
	std::vector<Model> model;
	std::vector<View> views;

	static Payloads payloads(I& o) { Payloads r; o.collect(r); return r; }

	void check() {
		int n = 0;
		mc::u64 h = 3;
		for(auto i = 0u; i < objs.size(); ++i) {
			MC_CHECK(objs[i]->tag() == model[i].type, "object %u has type %d instead of %d", i, objs[i]->tag(), model[i].type);
			auto ps = payloads(*objs[i]);
			MC_CHECK(ps.size() == model[i].values.size(), "object %u", i);
			h = mc::comb(h, model[i].type);
			for(auto j = 0u; j < ps.size(); ++j) {
				MC_CHECK(ps[j]->get() == model[i].values[j], "object %u: value %u is %d instead of %d", i, j,
					ps[j]->get(), model[i].values[j]);
				h = mc::comb(h, model[i].values[j]);
			}
			n += ps.size();
		}
		MC_CHECK(live == n, "%d values are alive instead of %d", live, n);
		mc::state(h);
	}

	void add(std::unique_ptr<I> o, int base) {
		auto ps = payloads(*o);
		Model m {o->tag(), {}};
		for(auto p : ps) { p->set(base); m.values.push_back(base++); }
		objs.push_back(std::move(o));
		model.push_back(m);
	}

	void run(int depth, bool movesOnly) {
		int next = 1000;
		check();
		for(auto s = 0; s < depth; ++s) {
			auto op = mc::choose(movesOnly ? 4 : 5); // done, destroy, change, move, clone
			if(op == 0) break;
			if(objs.empty()) break;
			auto i = mc::choose(objs.size());
			mc::step();
			if(op == 1) {
				objs.erase(objs.begin() + i);
				model.erase(model.begin() + i);
			} else if(op == 2) {
				auto ps = payloads(*objs[i]);
				auto j = mc::choose(ps.size());
				ps[j]->set(next);
				model[i].values[j] = next++;
			} else {
				std::vector<View*> vs;
				for(auto& v : views) if(v.has(*objs[i])) vs.push_back(&v);
				auto& v = *vs[mc::choose(vs.size())];
				mc::note("%s object %d (type %d) via %s\n", op == 3 ? "move" : "clone", i, model[i].type, v.name);
				copies = moves = 0;
				int n = model[i].values.size();
				if(op == 3) {
					auto r = v.move(*objs[i]);
					MC_CHECK(copies == 0, "cloneMove copied %d values", copies);
					MC_CHECK(moves == n, "cloneMove moved %d of %d values", moves, n);
					Model m = model[i];
					for(auto& x : model[i].values) x = -1;
					objs.push_back(std::move(r));
					model.push_back(m);
				} else {
					throwAt = mc::choose(n + 1); // the n-th copy fails
					try {
						auto before = throwAt;
						auto r = v.clone(*objs[i]);
						MC_CHECK(before == 0, "exception was swallowed");
						MC_CHECK(copies == n && moves == 0, "clone copied %d and moved %d of %d values", copies, moves, n);
						model.push_back(Model(model[i]));
						objs.push_back(std::move(r));
					} catch(const CopyError&) {
					}
					throwAt = 0;
				}
			}
			check();
		}
		mc::u64 h = 1;
		for(auto& m : model) { h = mc::comb(h, m.type); for(auto v : m.values) h = mc::comb(h, v); }
		mc::outcome(h);
		objs.clear();
		MC_CHECK(live == 0, "%d values are still alive", live);
	}
};

template<typename Via, typename I> std::unique_ptr<I> finish(Via& v, std::unique_ptr<Via> c) {
	static_assert(std::is_same_v<decltype(nytl::cloneMove(v)), std::unique_ptr<Via>>);
	MC_CHECK(c != nullptr, "null");
	MC_CHECK(c.get() != &v, "same object");
	auto& cr = *c;
	MC_CHECK(typeid(cr) == typeid(v), "type %s instead of %s", typeid(cr).name(), typeid(v).name());
	auto off = [](Via& x) { return reinterpret_cast<char*>(&x) - static_cast<char*>(dynamic_cast<void*>(&x)); };
	MC_CHECK(off(*c) == off(v), "the returned pointer is at offset %d instead of %d", int(off(*c)), int(off(v)));
	auto p = dynamic_cast<I*>(c.get());
	MC_CHECK(p != nullptr, "lost");
	(void) c.release();
	return std::unique_ptr<I>(p);
}

template<typename Via, typename I> typename World<I>::View moveView(const char* name) {
	return {name, [](I& o) { return dynamic_cast<Via*>(&o) != nullptr; }, nullptr,
		[](I& o) { auto& v = dynamic_cast<Via&>(o); return finish<Via, I>(v, nytl::cloneMove(v)); }};
}
template<typename Via, typename I> typename World<I>::View view(const char* name) {
	auto r = moveView<Via, I>(name);
	r.clone = [](I& o) { const auto& v = dynamic_cast<Via&>(o); return finish<Via, I>(const_cast<Via&>(v), nytl::clone(v)); };
	return r;
}

} // namespace

MC_SCENARIO("single_inheritance", "Cloneable and classes derived from it up to three times: all histories of up to 3..4 "
	"(thorough 4..5) operations (clone and cloneMove via each of the static types, change, destroy), each copy may throw", 4) {
	live = copies = moves = throwAt = 0;
	World<Base> w;
	w.views = {view<Base, Base>("Base"), view<D1, Base>("D1"), view<D2, Base>("D2"), view<D3, Base>("D3")};
	switch(mc::choose(5)) {
		case 0: w.add(std::make_unique<Base>(), 1); break;
		case 1: w.add(std::make_unique<D1>(5), 1); break;
		case 2: w.add(std::make_unique<D2>(5), 1); break;
		case 3: w.add(std::make_unique<D3>(), 1); break;
		case 4: w.add(std::make_unique<D2>(), 1); w.add(std::make_unique<Base>(), 10); break;
	}
	w.run(mc::bound(3, 4, 4, 5), false);
}

MC_SCENARIO("multiple_inheritance", "implementations of up to 3 interfaces in all orders, next to unrelated bases, derived "
	"further: histories as above, clone and cloneMove via each interface", 4) {
	live = copies = moves = throwAt = 0;
	World<IA> w;
	w.views = {view<IA, IA>("IA"), view<IB, IA>("IB"), view<IC, IA>("IC"), view<Single, IA>("Single"), view<Two, IA>("Two"),
		view<TwoR, IA>("TwoR"), view<Three, IA>("Three"), view<Beside, IA>("Beside"), view<TwoDeep, IA>("TwoDeep"),
		view<BesidePlain, IA>("BesidePlain"), view<BaseDeep, IA>("BaseDeep")};
	switch(mc::choose(8)) {
		case 0: w.add(std::make_unique<Single>(), 1); break;
		case 1: w.add(std::make_unique<Two>(), 1); break;
		case 2: w.add(std::make_unique<TwoR>(), 1); break;
		case 3: w.add(std::make_unique<Three>(), 1); break;
		case 4: w.add(std::make_unique<Beside>(), 1); break;
		case 5: w.add(std::make_unique<TwoDeep>(), 1); break;
		case 6: w.add(std::make_unique<BesidePlain>(), 1); break;
		case 7: w.add(std::make_unique<BaseDeep>(), 1); break;
	}
	w.run(mc::bound(3, 3, 4, 5), false);
}

MC_SCENARIO("move_only", "classes that can only be moved: histories of up to 4 (thorough 5) operations", 3) {
	live = copies = moves = throwAt = 0;
	World<M> w;
	w.views = {moveView<M, M>("M"), moveView<MD, M>("MD"), moveView<AM, M>("AM"), moveView<MM, M>("MM")};
	switch(mc::choose(3)) {
		case 0: w.add(std::make_unique<M>(), 1); break;
		case 1: w.add(std::make_unique<MD>(), 1); break;
		case 2: w.add(std::make_unique<MM>(), 1); break;
	}
	w.run(mc::bound(3, 4, 4, 5), true);
}
