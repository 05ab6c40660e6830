// C15: conversions between utf-8, utf-16 and utf-32.
#include <nytl/utf.hpp>
#include "mc.hpp"
#include "utfref.hpp"

using utfref::enc8;
using utfref::enc16;

namespace {

void check(const std::u32string& s) {
	std::string s8;
	std::u16string s16;
	for(auto c : s) { s8 += enc8(c); s16 += enc16(c); }
	mc::eval(6);
	auto first = s.empty() ? 0u : unsigned(s[0]);
	MC_CHECK(nytl::toUtf8(std::u32string_view(s)) == s8, "utf32 to utf8, U+%04X ...", first);
	MC_CHECK(nytl::toUtf8(std::u16string_view(s16)) == s8, "utf16 to utf8, U+%04X ...", first);
	MC_CHECK(nytl::toUtf16(std::string_view(s8)) == s16, "utf8 to utf16, U+%04X ...", first);
	MC_CHECK(nytl::toUtf16(std::u32string_view(s)) == s16, "utf32 to utf16, U+%04X ...", first);
	MC_CHECK(nytl::toUtf32(std::string_view(s8)) == s, "utf8 to utf32, U+%04X ...", first);
	MC_CHECK(nytl::toUtf32(std::u16string_view(s16)) == s, "utf16 to utf32, U+%04X ...", first);
}

} // namespace

MC_SCENARIO("all_scalars", "every unicode scalar value as a string of one character, all 6 conversions", 1) {
	auto block = mc::choose(0x110);
	for(auto i = 0u; i < 0x1000; ++i) {
		char32_t c = block * 0x1000 + i;
		if(utfref::surrogate(c)) continue;
		check(std::u32string(1, c));
	}
	mc::step(0x1000 * 6);
	mc::state(block);
	mc::outcome(block);
}

MC_SCENARIO("strings", "all strings of up to 3 (thorough: 4) characters over an alphabet of boundary values (all "
	"encoding lengths, U+0000, U+FEFF, neighbours of surrogates)", 2) {
	std::u32string s;
	auto max = mc::bound(2, 3, 3, 4);
	for(auto i = 0; i < max; ++i) {
		auto c = mc::choose(utfref::alphabet().size() + 1);
		if(c == 0) break;
		s += utfref::alphabet()[c - 1];
	}
	check(s);
	mc::step(6);
	mc::state(mc::hashBytes(s.data(), s.size() * 4));
	mc::outcome(mc::hashBytes(s.data(), s.size() * 4));
}

MC_SCENARIO("windows", "strings of 40 consecutive scalar values starting anywhere near a boundary", 1) {
	auto c = utfref::alphabet()[mc::choose(utfref::alphabet().size())];
	auto off = mc::choose(40);
	std::u32string s;
	for(auto i = 0u; i < 40; ++i) {
		char32_t x = c + i - off;
		if(x > 0x10FFFF || utfref::surrogate(x)) continue;
		s += x;
	}
	check(s);
	mc::step(6);
	mc::state(mc::hashBytes(s.data(), s.size() * 4));
	mc::outcome(mc::hashBytes(s.data(), s.size() * 4));
}

MC_SCENARIO("long", "strings of 0..300 and around all powers of two up to 65536 characters of each length, also mixed", 2) {
	char32_t cs[] = {'a', 0xFC, 0x20AC, 0x1F600};
	auto i = mc::choose(301 + 3 * 9);
	std::size_t n = i <= 300 ? i : (std::size_t(1) << (8 + (i - 301) / 3)) - 1 + (i - 301) % 3;
	auto k = mc::choose(6);
	std::u32string s;
	for(auto i = 0u; i < n; ++i) s += k < 4 ? cs[k] : k == 4 ? cs[i % 4] : cs[(i / 3) % 4];
	check(s);
	mc::step(6);
	mc::state(n * 8 + k);
	mc::outcome(n * 8 + k);
}

MC_SCENARIO("embedded", "each character of the alphabet after 0..70 and before 0..9, 15..17, 31..33 and 63..65 others of one of 4 kinds", 2) {
	char32_t cs[] = {'a', 0xFC, 0x20AC, 0x1F600};
	auto c = utfref::alphabet()[mc::choose(utfref::alphabet().size())];
	auto before = mc::choose(71);
	auto k = mc::choose(4);
	for(auto after : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65})
		check(std::u32string(before, cs[k]) + c + std::u32string(after, cs[k]));
	mc::step(6 * 19);
	mc::state(mc::comb(c, before * 4 + k));
	mc::outcome(mc::comb(c, before * 4 + k));
}
