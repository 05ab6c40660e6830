// C16: counting and indexing of utf-8 characters.
#include <nytl/utf.hpp>
#include "mc.hpp"
#include "utfref.hpp"

namespace {

void check(const std::u32string& s, bool beyond = true) {
	std::string s8;
	std::vector<std::size_t> pos;
	std::vector<std::string> chars;
	for(auto c : s) {
		pos.push_back(s8.size());
		chars.push_back(utfref::enc8(c));
		s8 += chars.back();
	}
	auto first = s.empty() ? 0u : unsigned(s[0]);
	// the viewed string is surrounded by other characters
	std::string around = "\xE2\x82" + s8 + "\x82x";
	auto sv = std::string_view(around).substr(2, s8.size());
	mc::eval();
	MC_CHECK(nytl::charCount(sv) == s.size(), "charCount is %d instead of %d, U+%04X ...", int(nytl::charCount(sv)), int(s.size()), first);
	for(auto n = 0u; n < s.size() + (beyond ? 3 : 0); ++n) {
		mc::eval(3);
		bool in = n < s.size();
		int thrown = 0;
		try {
			auto r = nytl::nth(sv, n);
			std::array<char, 5> exp {};
			if(in) std::copy(chars[n].begin(), chars[n].end(), exp.begin());
			MC_CHECK(in && r == exp, "nth(%u) returned the wrong character, U+%04X ...", n, first);
		} catch(const std::out_of_range&) { ++thrown; }
		std::uint8_t size = 77;
		try {
			auto& r = nytl::nth(sv, n, size);
			MC_CHECK(in && &r == sv.data() + pos[n] && size == chars[n].size(), "nth(%u, size) returned the wrong position or size %d, U+%04X ...", n, size, first);
		} catch(const std::out_of_range&) { ++thrown; }
		auto copy = s8;
		size = 77;
		try {
			auto& r = nytl::nth(copy, n, size);
			static_assert(std::is_same_v<decltype(nytl::nth(copy, n, size)), char&>);
			MC_CHECK(in && &r == copy.data() + pos[n] && size == chars[n].size(), "nth(string, %u, size) returned the wrong position or size %d, U+%04X ...", n, size, first);
		} catch(const std::out_of_range&) { ++thrown; }
		MC_CHECK(thrown == (in ? 0 : 3), "std::out_of_range was thrown by %d of 3 functions for character %u of %d", thrown, n, int(s.size()));
		MC_CHECK(copy == s8, "nth changed the string");
	}
}

} // namespace

MC_SCENARIO("all_scalars", "every unicode scalar value: followed by another character (positions behind the end: for every 32nd)", 1) {
	auto block = mc::choose(0x110);
	for(auto i = 0u; i < 0x1000; ++i) {
		char32_t c = block * 0x1000 + i;
		if(utfref::surrogate(c)) continue;
		check(std::u32string(1, c) + U'\u00e4', i % 64 == 0 || i % 64 == 63);
	}
	mc::step(0x1000 * 13);
	mc::state(block);
	mc::outcome(block);
}

MC_SCENARIO("strings", "all strings of up to 3 (thorough: 4) characters over an alphabet of boundary values, all "
	"positions including three behind the end", 2) {
	std::u32string s;
	auto max = mc::bound(2, 4, 3, 5);
	for(auto i = 0; i < max; ++i) {
		auto c = mc::choose(utfref::alphabet().size() + 1);
		if(c == 0) break;
		s += utfref::alphabet()[c - 1];
	}
	check(s);
	mc::step(1 + 3 * (s.size() + 3));
	mc::state(mc::hashBytes(s.data(), s.size() * 4));
	mc::outcome(mc::hashBytes(s.data(), s.size() * 4));
}

MC_SCENARIO("long", "strings of 0..300 characters of each length, all positions", 2) {
	char32_t cs[] = {'a', 0xFC, 0x20AC, 0x1F600};
	auto n = mc::choose(301);
	auto k = mc::choose(6);
	std::u32string s;
	for(auto i = 0u; i < n; ++i) s += k < 4 ? cs[k] : k == 4 ? cs[i % 4] : cs[(i / 3) % 4];
	if(n % 50 == 0 || n == 255 || n == 256 || n == 257 || n < 3) check(s);
	else {
		std::string s8;
		for(auto c : s) s8 += utfref::enc8(c);
		MC_CHECK(nytl::charCount(s8) == n, "charCount of %u characters", n);
	}
	mc::step();
	mc::state(n * 8 + k);
	mc::outcome(n * 8 + k);
}

MC_SCENARIO("embedded", "each character of the alphabet after 0..70 and before 0, 1, 3, 8, 17, 64 others of one of 4 kinds, all positions", 2) {
	char32_t cs[] = {'a', 0xFC, 0x20AC, 0x1F600};
	auto c = utfref::alphabet()[mc::choose(utfref::alphabet().size())];
	auto before = mc::choose(71);
	auto k = mc::choose(4);
	for(auto after : {0, 1, 3, 8, 17, 64}) check(std::u32string(before, cs[k]) + c + std::u32string(after, cs[k]), after < 2);
	mc::step(6);
	mc::state(mc::comb(c, before * 4 + k));
	mc::outcome(mc::comb(c, before * 4 + k));
}

MC_SCENARIO("very_long", "strings of 4095..4097, 65535..65537 characters of each length and mixed: number and positions at the ends, the middle and around powers of two", 2) {
	char32_t cs[] = {'a', 0xFC, 0x20AC, 0x1F600};
	auto n = (mc::flip() ? 4096u : 65536u) - 1 + mc::choose(3);
	auto k = mc::choose(5);
	std::string s;
	std::vector<std::size_t> pos;
	for(auto i = 0u; i < n; ++i) { pos.push_back(s.size()); s += utfref::enc8(k < 4 ? cs[k] : cs[i % 4]); }
	MC_CHECK(nytl::charCount(s) == n, "charCount of %u characters", n);
	std::vector<unsigned> ps {0, 1, n / 2, n - 2, n - 1};
	for(auto p = 256u; p < n; p *= 2) for(auto d : {-1, 0, 1}) if(p + d < n) ps.push_back(p + d);
	for(auto p : ps) {
		mc::eval();
		std::uint8_t size = 77;
		auto exp = utfref::enc8(k < 4 ? cs[k] : cs[p % 4]);
		auto& r = nytl::nth(std::string_view(s), p, size);
		MC_CHECK(&r == s.data() + pos[p] && size == exp.size(), "nth(%u) of %u characters", p, n);
		MC_CHECK(exp == nytl::nth(std::string_view(s), p).data(), "nth(%u) of %u characters", p, n);
	}
	std::uint8_t size = 77;
	bool thrown = false;
	try { nytl::nth(s, n, size); } catch(const std::out_of_range&) { thrown = true; }
	MC_CHECK(thrown, "no exception for the character behind the end");
	mc::step();
	mc::state(n * 8 + k);
	mc::outcome(n * 8 + k);
}
