// C13: what is written to a byte buffer is what is read from it; every
// operation advances its buffer by exactly the size it transferred.
// C14 (NYTL_BYTES_ASSERT throws): transfers that don't fit are rejected before
// any memory or buffer is changed.
struct AssertFailed {};
#define NYTL_BYTES_ASSERT(x) if(!(x)) { throw AssertFailed {}; }
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include "mc.hpp"
#include <array>
#include <string>
#include <vector>

namespace {

struct Pod { std::int16_t a; float b; std::uint8_t c[3]; };

// the types and values of the alphabet
template<typename T> T mk(int i);
template<> std::uint8_t mk<std::uint8_t>(int i) { return 0x81 + i * 7; }
template<> std::uint16_t mk<std::uint16_t>(int i) { return 0x1234 + i * 771; }
template<> std::int32_t mk<std::int32_t>(int i) { return std::int32_t(-123456789u + unsigned(i) * 1000003u); }
template<> std::uint64_t mk<std::uint64_t>(int i) { return 0x0123456789abcdefull + i; }
template<> float mk<float>(int i) { return 1.5f + i; }
template<> double mk<double>(int i) { return -2.25 * (i + 1); }
template<> nytl::Vec3f mk<nytl::Vec3f>(int i) { return {1.f + i, -2.f, 3.5f}; }
template<> std::array<std::int16_t, 3> mk<std::array<std::int16_t, 3>>(int i) { return {std::int16_t(i), -1, 300}; }
template<> Pod mk<Pod>(int i) { Pod p; std::memset(&p, 0x5a, sizeof(p)); p.a = -i; p.b = i * .25f; p.c[0] = i; p.c[1] = 7; p.c[2] = 0xff; return p; }

constexpr int nTypes = 9;
template<typename F> void withType(int t, F&& f) {
	switch(t) {
		case 0: f(std::uint8_t {}); break;
		case 1: f(std::uint16_t {}); break;
		case 2: f(std::int32_t {}); break;
		case 3: f(std::uint64_t {}); break;
		case 4: f(float {}); break;
		case 5: f(double {}); break;
		case 6: f(nytl::Vec3f {}); break;
		case 7: f(std::array<std::int16_t, 3> {}); break;
		case 8: f(Pod {}); break;
	}
}

using Model = std::vector<std::byte>;
template<typename T> void append(Model& m, const T* p, std::size_t n) {
	auto b = reinterpret_cast<const std::byte*>(p);
	m.insert(m.end(), b, b + n * sizeof(T));
}

struct Item { int type; int kind; int n; int idx; std::size_t size; };
// kind: 0 object, 1 vector, 2 span, 3 raw ReadBuf, 4 initializer list (3 ints), 5 C array

std::vector<Item> drawItems(int count) {
	std::vector<Item> r;
	for(auto i = 0; i < count; ++i) {
		auto c = mc::choose(nTypes + 9);
		if(c < nTypes) r.push_back({int(c), 0, 1, i, 0});
		else switch(c - nTypes) {
			case 0: r.push_back({2, 1, 0, i, 0}); break;
			case 1: r.push_back({2, 1, 1, i, 0}); break;
			case 2: r.push_back({1, 1, 3, i, 0}); break;
			case 3: r.push_back({8, 2, 2, i, 0}); break;
			case 4: r.push_back({0, 2, 0, i, 0}); break;
			case 5: r.push_back({0, 3, 5, i, 0}); break;
			case 6: r.push_back({2, 4, 3, i, 0}); break;
			case 7: r.push_back({1, 5, 2, i, 0}); break;
			case 8: return r;
		}
	}
	return r;
}

template<typename Buf> void writeItem(Buf& buf, const Item& it, Model& m) {
	mc::step();
	withType(it.type, [&](auto dummy) {
		using T = decltype(dummy);
		std::vector<T> v;
		for(auto i = 0; i < it.n; ++i) v.push_back(mk<T>(it.idx + i));
		switch(it.kind) {
			case 0: nytl::write(buf, v[0]); break;
			case 1: nytl::write(buf, v); break;
			case 2: nytl::write(buf, nytl::bytes(nytl::span<const T>(v))); break;
			case 3: nytl::write(buf, nytl::ReadBuf(nytl::bytes(v))); break;
			case 4: {
				if constexpr(std::is_same_v<T, std::int32_t>) {
					std::initializer_list<std::int32_t> l = {mk<T>(it.idx), mk<T>(it.idx + 1), mk<T>(it.idx + 2)};
					nytl::write(buf, l);
				}
				break;
			}
			case 5: { T arr[2] = {v[0], v[1]}; nytl::write(buf, arr); break; }
		}
		append(m, v.data(), v.size());
	});
}

template<typename T> bool eq(const T& a, const T& b) { return std::is_empty_v<T> || std::memcmp(&a, &b, sizeof(T)) == 0; }

// reads it back in one of several ways
void readItem(nytl::ReadBuf& buf, const Item& it, int how) {
	mc::step();
	auto before = buf;
	withType(it.type, [&](auto dummy) {
		using T = decltype(dummy);
		std::size_t size = it.n * sizeof(T);
		std::vector<T> v, exp;
		for(auto i = 0; i < it.n; ++i) exp.push_back(mk<T>(it.idx + i));
		v.resize(it.n);
		if(it.n == 1 && it.kind == 0) {
			switch(how) {
				case 0: v[0] = nytl::read<T>(buf); break;
				case 1: nytl::read(buf, v[0]); break;
				case 2: v[0] = nytl::copy<T>(buf); MC_CHECK(buf.data() == before.data() && buf.size() == before.size(),
					"copy advanced the buffer"); nytl::skip(buf, sizeof(T)); break;
				case 3: v[0] = nytl::copyExact<T>(buf.first(sizeof(T))); nytl::skip(buf, sizeof(T)); break;
			}
		} else {
			switch(how) {
				case 0: nytl::read(buf, v); break;
				case 1: nytl::read(buf, nytl::bytes(v)); break;
				case 2: nytl::copy(buf.first(size), nytl::bytes(v)); MC_CHECK(buf.data() == before.data() && buf.size() == before.size(),
					"copy advanced the buffer"); nytl::skip(buf, size); break;
				case 3: for(auto& x : v) nytl::read(buf, x); break;
			}
		}
		MC_CHECK(buf.size() == before.size() - size, "reading %d bytes changed the size of the buffer from %d to %d",
			int(size), int(before.size()), int(buf.size()));
		MC_CHECK(buf.data() == before.data() + size, "reading %d bytes moved the buffer by %d", int(size), int(buf.data() - before.data()));
		for(auto i = 0; i < it.n; ++i) MC_CHECK(eq(v[i], exp[i]), "read another value than was written");
	});
}

mc::u64 hashModel(const Model& m) { return mc::hashBytes(m.data(), m.size()); }

} // namespace

#include <sys/mman.h>
namespace {
// far more than 2^32 bytes; only the touched pages exist
constexpr std::size_t farSize = (std::size_t(1) << 33) + (1 << 20);
std::byte* farMem() {
	static auto p = mmap(nullptr, farSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return p == MAP_FAILED ? nullptr : static_cast<std::byte*>(p);
}

void gigabytes(bool rejects) {
	constexpr auto K = std::size_t(1);
	const std::size_t sizes[] = {(K << 31) - 1, K << 31, (K << 31) + 9, (K << 32) - 1, K << 32, (K << 32) + 1, (K << 32) + 40, (K << 33) + 3};
	const std::size_t steps[] = {1, (K << 31) - 1, K << 31, (K << 31) + 3, (K << 32) - 1, K << 32, (K << 32) + 1, (K << 32) + 17};
	auto mem = farMem();
	if(!mem) return; // no address space: nothing to explore
	auto cap = sizes[mc::choose(8)];
	nytl::WriteBuf w(mem, cap);
	nytl::ReadBuf r(mem, cap);
	MC_CHECK(w.size() == cap && r.size() == cap, "size of %zu bytes", cap);
	std::size_t pos = 0;
	for(auto i = 0; i < mc::bound(2, 3, 3, 4); ++i) {
		auto k = mc::choose(11);
		auto s = k < 8 ? steps[k] : k == 8 ? cap - pos : std::size_t(k == 9 ? 8 : 24);
		auto fits = s <= cap - pos;
		if(!fits && !rejects) return;
		bool wf = false, rf = false;
		if(k <= 8) { // skip
			mc::note("skip %zu of %zu bytes", s, cap - pos);
			try { nytl::skip(w, s); } catch(const AssertFailed&) { wf = true; }
			try { nytl::skip(r, s); } catch(const AssertFailed&) { rf = true; }
		} else {
			mc::note("write and read %zu bytes at %zu", s, pos);
			std::uint64_t v = 0x0123456789abcdefull + i, v2 = 0;
			std::vector<std::uint32_t> x {1, 2, 3, 4, 5, 6u + unsigned(i)}, y(6);
			try { if(k == 9) nytl::write(w, v); else nytl::write(w, x); } catch(const AssertFailed&) { wf = true; }
			try { if(k == 9) nytl::read(r, v2); else nytl::read(r, y); } catch(const AssertFailed&) { rf = true; }
			if(fits) MC_CHECK(k == 9 ? v == v2 : x == y, "other contents read than written at %zu", pos);
		}
		MC_CHECK(wf == !fits && rf == !fits, "%zu bytes at %zu of %zu: %s", s, pos, cap, fits ? "rejected" : "accepted");
		if(fits) pos += s;
		MC_CHECK(w.data() == mem + pos && w.size() == cap - pos, "write buffer: %zu left instead of %zu", w.size(), cap - pos);
		MC_CHECK(r.data() == mem + pos && r.size() == cap - pos, "read buffer: %zu left instead of %zu", r.size(), cap - pos);
		// remaining part as bytes
		MC_CHECK(nytl::bytes(w).size() == cap - pos && nytl::bytes(r).size() == cap - pos, "bytes of the rest");
	}
	mc::state(mc::comb(cap, pos));
	mc::outcome(mc::comb(cap, pos));
}
} // namespace

#ifndef BYTES_C14
MC_SCENARIO("dynamic", "sequences of up to 4 writes to a dynamic buffer: objects of 9 types, vectors, spans, raw bytes, "
	"initializer lists and arrays; all of them read back in 4 ways each", 3) {
	auto items = drawItems(mc::bound(2, 3, 3, 4));
	nytl::DynWriteBuf buf;
	Model m;
	if(mc::flip()) { // non empty buffer
		m.assign(3, std::byte {0x77});
		buf = m;
	}
	auto pre = m.size();
	for(auto& it : items) {
		writeItem(buf, it, m);
		MC_CHECK(buf == m, "buffer has other contents than what was written");
	}
	mc::state(hashModel(m));
	nytl::ReadBuf src(buf);
	nytl::skip(src, pre);
	auto how = mc::choose(4);
	for(auto& it : items) readItem(src, it, (how + it.idx) % 4);
	MC_CHECK(src.size() == 0, "bytes left after everything was read");
	mc::outcome(mc::comb(hashModel(m), how));
}

MC_SCENARIO("fixed", "sequences of up to 4 writes (and skips) to a buffer of fixed size with up to 3 bytes more than "
	"needed, read back in 4 ways", 3) {
	auto items = drawItems(mc::bound(2, 3, 3, 4));
	auto extra = mc::choose(4);
	auto skipAt = int(mc::choose(items.size() + 2)) - 1; // skip 2 bytes before that item
	Model m;
	{
		nytl::DynWriteBuf tmp;
		for(auto& it : items) writeItem(tmp, it, m);
	}
	auto total = m.size() + extra + (skipAt >= 0 ? 2 : 0);
	// red zone around
	std::vector<std::byte> mem(total + 16, std::byte {0xee});
	nytl::WriteBuf dst(mem.data() + 8, total);
	std::size_t off = 0;
	Model exp;
	for(auto i = 0u; i <= items.size(); ++i) {
		if(int(i) == skipAt) {
			nytl::skip(dst, 2);
			exp.insert(exp.end(), 2, std::byte {0xee});
			off += 2;
			MC_CHECK(dst.size() == total - off && dst.data() == mem.data() + 8 + off, "skip moved the buffer to the wrong position");
		}
		if(i == items.size()) break;
		writeItem(dst, items[i], exp);
		off = exp.size();
		MC_CHECK(dst.size() == total - off, "write changed the size of the buffer to %d instead of %d", int(dst.size()), int(total - off));
		MC_CHECK(dst.data() == mem.data() + 8 + off, "write moved the buffer to the wrong position");
	}
	exp.insert(exp.end(), total - exp.size(), std::byte {0xee});
	MC_CHECK(std::equal(exp.begin(), exp.end(), mem.begin() + 8), "buffer has other contents than what was written");
	for(auto i = 0; i < 8; ++i) MC_CHECK(mem[i] == std::byte {0xee} && mem[mem.size() - 1 - i] == std::byte {0xee}, "write out of bounds");
	mc::state(mc::comb(hashModel(exp), skipAt));
	nytl::ReadBuf src(mem.data() + 8, total);
	auto how = mc::choose(4);
	for(auto i = 0u; i <= items.size(); ++i) {
		if(int(i) == skipAt) nytl::skip(src, 2);
		if(i < items.size()) readItem(src, items[i], (how + i) % 4);
	}
	MC_CHECK(src.size() == extra, "wrong number of bytes left");
	mc::outcome(mc::comb(hashModel(exp), how * 8 + extra));
}

MC_SCENARIO("views", "bytes of objects, vectors, spans and arrays are views of the objects: writes are visible in both directions", 2) {
	withType(mc::choose(nTypes), [&](auto dummy) {
		using T = decltype(dummy);
		auto n = 1 + mc::choose(3);
		std::vector<T> v;
		for(auto i = 0u; i < n; ++i) v.push_back(mk<T>(i));
		const auto& cv = v;
		auto check = [&](auto buf, const void* ptr, std::size_t size, const char* what) {
			mc::step();
			MC_CHECK(static_cast<const void*>(buf.data()) == ptr, "%s: wrong position", what);
			MC_CHECK(buf.size() == size, "%s: wrong size %d instead of %d", what, int(buf.size()), int(size));
		};
		check(nytl::bytes(v), v.data(), n * sizeof(T), "vector");
		check(nytl::bytes(cv), v.data(), n * sizeof(T), "const vector");
		check(nytl::bytes(v[n - 1]), &v[n - 1], sizeof(T), "object");
		check(nytl::bytes(cv[n - 1]), &v[n - 1], sizeof(T), "const object");
		check(nytl::bytes(nytl::span<T>(v)), v.data(), n * sizeof(T), "span");
		check(nytl::bytes(nytl::span<const T>(v)), v.data(), n * sizeof(T), "const span");
		std::array<T, 2> arr {mk<T>(0), mk<T>(1)};
		check(nytl::bytes(nytl::span<T, 2>(arr)), arr.data(), 2 * sizeof(T), "fixed span");
		check(nytl::bytes(nytl::span<const T, 2>(arr)), arr.data(), 2 * sizeof(T), "const fixed span");
		check(nytl::bytes(arr), arr.data(), 2 * sizeof(T), "array");
		static_assert(std::is_same_v<decltype(nytl::bytes(cv)), nytl::ReadBuf>);
		static_assert(std::is_same_v<decltype(nytl::bytes(v)), nytl::WriteBuf>);
		static_assert(std::is_same_v<decltype(nytl::bytes(std::declval<const T&>())), nytl::ReadBuf>);
		// change every byte through the view
		for(auto i = 0u; i < n * sizeof(T); ++i) {
			auto w = nytl::bytes(v);
			auto copy = v;
			w[i] ^= std::byte {0x11};
			std::vector<unsigned char> a(n * sizeof(T)), b(a.size());
			std::memcpy(a.data(), v.data(), a.size());
			std::memcpy(b.data(), copy.data(), a.size());
			b[i] ^= 0x11;
			MC_CHECK(a == b, "write through the byte view changed something else");
			v = copy;
		}
		mc::state(mc::comb(sizeof(T), n));
		mc::outcome(mc::comb(sizeof(T), n));
	});
}

MC_SCENARIO("large", "transfers of up to 2^17 bytes around all powers of two, all ways of writing and reading, to dynamic buffers of several fill levels and fixed ones", 2) {
	std::vector<std::size_t> ns;
	for(auto k = 3; k <= 17; ++k) for(auto d : {-1, 0, 1}) ns.push_back((1 << k) + d);
	auto n = ns[mc::choose(ns.size())];
	auto how = mc::choose(4);
	withType(mc::choose(nTypes), [&](auto dummy) {
		using T = decltype(dummy);
		auto c = (n + sizeof(T) - 1) / sizeof(T);
		std::vector<T> v;
		for(auto i = 0u; i < c; ++i) v.push_back(mk<T>(i));
		for(auto pre : {std::size_t(0), std::size_t(1), std::size_t(100), n}) {
			mc::step();
			nytl::DynWriteBuf buf(pre, std::byte {0x5c});
			Model m(pre, std::byte {0x5c});
			if(how & 1) buf.reserve(pre + n / 2); // grows in the middle of the write
			if(how < 2) nytl::write(buf, v);
			else nytl::write(buf, nytl::bytes(nytl::span<const T>(v)));
			append(m, v.data(), c);
			nytl::write(buf, std::uint8_t(0xa5));
			m.push_back(std::byte {0xa5});
			MC_CHECK(buf == m, "buffer has other contents than what was written");

			Model mem(m.size() + 16, std::byte {0xee});
			nytl::WriteBuf w(mem.data() + 8, m.size());
			nytl::write(w, nytl::ReadBuf(buf).first(pre));
			nytl::write(w, v);
			MC_CHECK(w.size() == 1 && w.data() == mem.data() + 8 + m.size() - 1, "write moved the buffer to the wrong position");
			nytl::write(w, std::uint8_t(0xa5));
			MC_CHECK(std::equal(m.begin(), m.end(), mem.begin() + 8) && mem[7] == std::byte {0xee} && mem[mem.size() - 8] == std::byte {0xee}, "wrong bytes");

			nytl::ReadBuf r(buf);
			nytl::skip(r, pre);
			std::vector<T> g(c);
			std::memset(static_cast<void*>(g.data()), 0, c * sizeof(T));
			switch(how) {
				case 0: nytl::read(r, g); break;
				case 1: nytl::read(r, nytl::bytes(g)); break;
				case 2: nytl::copy(r.first(c * sizeof(T)), nytl::bytes(g)); nytl::skip(r, c * sizeof(T)); break;
				case 3: for(auto& x : g) x = nytl::read<T>(r); break;
			}
			MC_CHECK(std::memcmp(g.data(), v.data(), c * sizeof(T)) == 0, "read other values than were written");
			MC_CHECK(r.size() == 1 && nytl::read<std::uint8_t>(r) == 0xa5 && r.size() == 0, "wrong position after reading");
			mc::state(mc::comb(n, pre));
		}
		mc::outcome(mc::comb(n * 4 + how, sizeof(T)));
	});
}

namespace {
template<std::size_t N> struct Blob { std::uint8_t d[N]; };
enum class En : std::int16_t { a = -5, b = 300 };
struct Empty {};

template<typename T> void object(const T& a, const T& b) {
	mc::step();
	std::vector<std::byte> mem(2 * sizeof(T) + 19, std::byte {0xee}), exp = mem;
	for(auto off = 0u; off < 9; ++off) {
		nytl::WriteBuf w(mem.data() + off, 2 * sizeof(T) + 1);
		nytl::write(w, a);
		MC_CHECK(w.data() == mem.data() + off + sizeof(T) && w.size() == sizeof(T) + 1, "position after writing");
		nytl::write(w, b);
		MC_CHECK(w.data() == mem.data() + off + 2 * sizeof(T) && w.size() == 1, "position after writing");
		std::memcpy(exp.data() + off, &a, sizeof(T));
		std::memcpy(exp.data() + off + sizeof(T), &b, sizeof(T));
		MC_CHECK(mem == exp, "wrong bytes");
		nytl::ReadBuf r(mem.data() + off, 2 * sizeof(T) + 1);
		auto x = nytl::copy<T>(r);
		MC_CHECK(eq(x, a), "copied another value");
		x = nytl::read<T>(r);
		MC_CHECK(eq(x, a) && r.size() == sizeof(T) + 1, "read another value");
		auto y = nytl::copyExact<T>(r.first(sizeof(T)));
		MC_CHECK(eq(y, b), "copied another value");
		y = x;
		nytl::read(r, y);
		MC_CHECK(eq(y, b) && r.size() == 1 && r.data() == mem.data() + off + 2 * sizeof(T), "read another value");
		mc::state(mc::comb(sizeof(T), off));
	}
	nytl::DynWriteBuf d;
	nytl::write(d, a);
	nytl::write(d, b);
	MC_CHECK(d.size() == 2 * sizeof(T) && !std::memcmp(d.data(), &a, sizeof(T)) && !std::memcmp(d.data() + sizeof(T), &b, sizeof(T)), "wrong bytes in a dynamic buffer");
	mc::outcome(sizeof(T));
}

template<std::size_t N> void blob() {
	Blob<N> a, b;
	for(auto i = 0u; i < N; ++i) { a.d[i] = i * 3 + 1; b.d[i] = 255 - i; }
	object(a, b);
}
template<std::size_t... I> void blobs(std::index_sequence<I...>) {
	auto k = mc::choose(sizeof...(I));
	((k == I ? blob<I + 1>() : void()), ...);
}
}

MC_SCENARIO("objects", "objects of every size from 1 to 72 bytes and some up to 5000 (also enums, bools, pointers, wide characters, empty classes) at 9 alignments", 1) {
	static int dummy;
	switch(mc::choose(12)) {
		case 0: blobs(std::make_index_sequence<72>()); break;
		case 1: blob<127>(); blob<128>(); blob<129>(); blob<255>(); blob<256>(); blob<257>(); blob<5000>(); break;
		case 2: object(true, false); break;
		case 3: object(En::a, En::b); break;
		case 4: object<int*>(&dummy, nullptr); break;
		case 5: object(char32_t(0x12345678), char32_t(3)); break;
		case 6: object(Empty {}, Empty {}); break;
		case 7: object(std::int8_t(-1), std::int8_t(127)); break;
		case 8: object(std::byte(0xff), std::byte(3)); break;
		case 9: object(std::array<std::array<std::uint8_t, 3>, 3> {{{1, 2, 3}, {4, 5, 6}, {7, 8, 255}}}, std::array<std::array<std::uint8_t, 3>, 3> {}); break;
		case 10: object(nytl::Vec<5, double> {1., -2., 3., 4., 5.}, nytl::Vec<5, double> {}); break;
		case 11: object(std::int64_t(-1), std::int64_t(1) << 62); break;
	}
}

MC_SCENARIO("gigabytes", "buffers of 2^31-1 .. 2^33+3 bytes, sequences of up to 2 (3) operations: skips of 1 .. 2^32+17 bytes or the rest, writing and reading back objects and vectors", 2) {
	gigabytes(false);
}
#endif

#ifdef BYTES_C14
namespace {

// tries to transfer; fits tells whether it has to succeed
template<typename F> void attempt(bool fits, const char* what, F&& f) {
	mc::step();
	bool failed = false;
	try { f(); } catch(const AssertFailed&) { failed = true; }
	MC_CHECK(failed == !fits, "%s: %s although it %s", what, failed ? "rejected" : "accepted", fits ? "fits" : "does not fit");
}

} // namespace

MC_SCENARIO("transfers", "buffers of 0..10 bytes, sequences of up to 3 (thorough 4) operations (write objects, vectors, "
	"raw bytes; read; skip; copy; copyExact) of which any may not fit", 3) {
	int cap = mc::choose(11);
	std::vector<std::byte> mem(cap + 16);
	for(auto i = 0u; i < mem.size(); ++i) mem[i] = std::byte(i + 100);
	auto model = mem;
	nytl::WriteBuf w(mem.data() + 8, cap);
	nytl::ReadBuf r(mem.data() + 8, cap);
	std::size_t wo = 0, ro = 0; // model of the positions
	auto verify = [&](const char* what) {
		MC_CHECK(w.data() == mem.data() + 8 + wo && w.size() == cap - wo, "%s: write buffer at %d with size %d, expected %d and %d", what,
			int(w.data() - mem.data() - 8), int(w.size()), int(wo), int(cap - wo));
		MC_CHECK(r.data() == mem.data() + 8 + ro && r.size() == cap - ro, "%s: read buffer at %d with size %d, expected %d and %d", what,
			int(r.data() - mem.data() - 8), int(r.size()), int(ro), int(cap - ro));
		MC_CHECK(mem == model, "%s: memory has other contents than expected", what);
		mc::state(mc::comb(wo * 16 + ro, cap));
	};
	auto wrote = [&](const void* p, std::size_t n) { std::memcpy(model.data() + 8 + wo, p, n); wo += n; };
	mc::u64 trace = cap;
	auto ops = mc::bound(2, 3, 3, 4);
	for(auto k = 0; k < ops; ++k) {
		auto op = mc::choose(12);
		if(op == 0) break;
		bool fits = true;
		switch(op) {
			case 1: withType(mc::choose(6), [&](auto d) {
				using T = decltype(d);
				auto v = mk<T>(k);
				fits = sizeof(T) <= w.size();
				mc::note("write object of %d bytes, %d free", int(sizeof(T)), int(w.size()));
				attempt(fits, "write", [&]{ nytl::write(w, v); });
				if(fits) wrote(&v, sizeof(T));
			}); break;
			case 2: {
				std::vector<std::uint16_t> v(mc::choose(7), 0x4142);
				fits = v.size() * 2 <= w.size();
				mc::note("write vector of %d bytes, %d free", int(v.size() * 2), int(w.size()));
				attempt(fits, "write vector", [&]{ nytl::write(w, v); });
				if(fits) wrote(v.data(), v.size() * 2);
				break;
			}
			case 3: {
				std::vector<std::byte> v(mc::choose(12), std::byte(0x20 + k));
				fits = v.size() <= w.size();
				mc::note("write %d bytes, %d free", int(v.size()), int(w.size()));
				attempt(fits, "write bytes", [&]{ nytl::write(w, nytl::ReadBuf(v)); });
				if(fits) wrote(v.data(), v.size());
				break;
			}
			case 4: {
				std::size_t n = mc::choose(12);
				fits = n <= w.size();
				mc::note("skip %d of write buffer with %d", int(n), int(w.size()));
				attempt(fits, "skip write", [&]{ nytl::skip(w, n); });
				if(fits) wo += n;
				break;
			}
			case 5: {
				std::size_t n = mc::choose(12);
				fits = n <= r.size();
				mc::note("skip %d of read buffer with %d", int(n), int(r.size()));
				attempt(fits, "skip read", [&]{ nytl::skip(r, n); });
				if(fits) ro += n;
				break;
			}
			case 6: withType(mc::choose(6), [&](auto d) {
				using T = decltype(d);
				fits = sizeof(T) <= r.size();
				mc::note("read<T> of %d bytes, %d available", int(sizeof(T)), int(r.size()));
				T v {};
				attempt(fits, "read<T>", [&]{ v = nytl::read<T>(r); });
				if(fits) { MC_CHECK(!std::memcmp(&v, model.data() + 8 + ro, sizeof(T)), "read<T>: wrong value"); ro += sizeof(T); }
			}); break;
			case 7: withType(mc::choose(6), [&](auto d) {
				using T = decltype(d);
				fits = sizeof(T) <= r.size();
				mc::note("read(obj) of %d bytes, %d available", int(sizeof(T)), int(r.size()));
				T v = mk<T>(3), old = v;
				attempt(fits, "read(obj)", [&]{ nytl::read(r, v); });
				if(fits) { MC_CHECK(!std::memcmp(&v, model.data() + 8 + ro, sizeof(T)), "read(obj): wrong value"); ro += sizeof(T); }
				else MC_CHECK(eq(v, old), "rejected read changed the object");
			}); break;
			case 8: {
				std::vector<std::byte> v(mc::choose(12), std::byte(9)), old = v;
				fits = v.size() <= r.size();
				mc::note("read %d bytes, %d available", int(v.size()), int(r.size()));
				attempt(fits, "read(vector)", [&]{ nytl::read(r, v); });
				if(fits) { MC_CHECK(std::equal(v.begin(), v.end(), model.begin() + 8 + ro), "read(vector): wrong value"); ro += v.size(); }
				else MC_CHECK(v == old, "rejected read changed the vector");
				break;
			}
			case 9: {
				std::vector<std::byte> v(mc::choose(12), std::byte(9)), old = v;
				fits = v.size() == r.size();
				mc::note("copy %d bytes, %d available", int(v.size()), int(r.size()));
				attempt(fits, "copy", [&]{ nytl::copy(r, nytl::bytes(v)); });
				if(fits) MC_CHECK(std::equal(v.begin(), v.end(), model.begin() + 8 + ro), "copy: wrong value");
				else MC_CHECK(v == old, "rejected copy changed the destination");
				break;
			}
			case 10: withType(mc::choose(6), [&](auto d) {
				using T = decltype(d);
				fits = sizeof(T) <= r.size();
				T v {};
				mc::note("copy<T> of %d bytes, %d available", int(sizeof(T)), int(r.size()));
				attempt(fits, "copy<T>", [&]{ v = nytl::copy<T>(r); });
				if(fits) MC_CHECK(!std::memcmp(&v, model.data() + 8 + ro, sizeof(T)), "copy<T>: wrong value");
			}); break;
			case 11: withType(mc::choose(6), [&](auto d) {
				using T = decltype(d);
				fits = sizeof(T) == r.size();
				T v {};
				mc::note("copyExact<T> of %d bytes, %d available", int(sizeof(T)), int(r.size()));
				attempt(fits, "copyExact<T>", [&]{ v = nytl::copyExact<T>(r); });
				if(fits) MC_CHECK(!std::memcmp(&v, model.data() + 8 + ro, sizeof(T)), "copyExact<T>: wrong value");
			}); break;
		}
		verify("after operation");
		trace = mc::comb(trace, op * 2 + fits);
	}
	mc::outcome(mc::comb(trace, wo * 16 + ro));
}

MC_SCENARIO("huge_sizes", "skipping any number of bytes (all around 0, the size, all powers of two and the greatest number) in buffers of 0..10 bytes; objects of 1..72 bytes and buffers around their size", 2) {
	std::size_t cap = mc::choose(11);
	std::vector<std::byte> mem(cap);
	std::vector<std::size_t> ns;
	for(auto k = 0; k < 64; ++k) for(auto d = -12; d <= 12; ++d) ns.push_back((std::size_t(1) << k) + d);
	for(auto d = -12; d <= 12; ++d) ns.push_back(d);
	for(auto n : ns) for(auto m : {n, n + cap, n - cap}) {
		nytl::WriteBuf w(mem.data(), cap);
		nytl::ReadBuf r(mem.data(), cap);
		auto fits = m <= cap;
		mc::note("skip %zu of %zu bytes", m, cap);
		attempt(fits, "skip write", [&]{ nytl::skip(w, m); });
		attempt(fits, "skip read", [&]{ nytl::skip(r, m); });
		auto o = fits ? m : 0;
		MC_CHECK(w.data() == mem.data() + o && w.size() == cap - o, "write buffer after skip");
		MC_CHECK(r.data() == mem.data() + o && r.size() == cap - o, "read buffer after skip");
	}
	mc::state(cap);
	mc::outcome(cap);
}

namespace {
template<std::size_t N> struct Obj { std::uint8_t d[N]; };

template<std::size_t N> void around() {
	for(auto cap = std::size_t(0); cap <= N + 2; ++cap) {
		std::vector<std::byte> mem(cap, std::byte {0x33}), old = mem;
		Obj<N> o {}, b;
		std::memset(&b, 0x33, N);
		std::vector<std::uint8_t> v(N, 0), z(N, 0);
		nytl::WriteBuf w(mem.data(), cap);
		nytl::ReadBuf r(mem.data(), cap);
		attempt(cap >= N, "read", [&]{ nytl::read(r, o); });
		MC_CHECK(r.size() == (cap >= N ? cap - N : cap) && (cap >= N ? eq(o, b) : eq(o, Obj<N> {})), "read object");
		r = {mem.data(), cap};
		o = {};
		attempt(cap >= N, "read<T>", [&]{ o = nytl::read<Obj<N>>(r); });
		MC_CHECK(r.size() == (cap >= N ? cap - N : cap) && (cap >= N ? eq(o, b) : true), "read object");
		r = {mem.data(), cap};
		attempt(cap >= N, "copy<T>", [&]{ o = nytl::copy<Obj<N>>(r); });
		attempt(cap == N, "copyExact<T>", [&]{ o = nytl::copyExact<Obj<N>>(r); });
		attempt(cap >= N, "read vector", [&]{ nytl::read(r, v); });
		MC_CHECK(r.size() == (cap >= N ? cap - N : cap) && (cap >= N || v == z), "read vector");
		r = {mem.data(), cap};
		v = z;
		attempt(cap == N, "copy", [&]{ nytl::copy(r, nytl::bytes(v)); });
		MC_CHECK(cap == N || v == z, "copy to vector");
		attempt(cap == N, "copy from", [&]{ nytl::copy(nytl::bytes(z), w); });
		MC_CHECK(cap == N || mem == old, "copy from vector");
		mem = old;
		w = {mem.data(), cap};
		o = {};
		attempt(cap >= N, "write", [&]{ nytl::write(w, o); });
		MC_CHECK(w.size() == (cap >= N ? cap - N : cap) && (cap >= N || mem == old), "write object");
		mem = old;
		w = {mem.data(), cap};
		attempt(cap >= N, "write vector", [&]{ nytl::write(w, z); });
		MC_CHECK(w.size() == (cap >= N ? cap - N : cap) && (cap >= N || mem == old), "write vector");
		mc::state(cap * 1000 + N);
	}
	mc::outcome(N);
}
template<std::size_t... I> void arounds(std::index_sequence<I...>) {
	auto k = mc::choose(sizeof...(I));
	((k == I ? around<I + 1>() : void()), ...);
}
}

MC_SCENARIO("around", "objects and vectors of every size from 1 to 72 bytes and of 128, 255..257 and 1000 bytes; buffers of every size up to two bytes more: all operations", 1) {
	if(mc::flip()) arounds(std::make_index_sequence<72>());
	else { around<128>(); around<255>(); around<256>(); around<257>(); around<1000>(); }
}

MC_SCENARIO("gigabytes", "buffers of 2^31-1 .. 2^33+3 bytes, sequences of up to 2 (3) operations: skips of 1 .. 2^32+17 bytes or the rest, writing and reading back objects and vectors, fitting or not", 2) {
	gigabytes(true);
}
#endif
