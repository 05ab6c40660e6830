// C17: string parameters are null-terminated.
#include <nytl/stringParam.hpp>
#include "mc.hpp"
#include <string>
#include <vector>

namespace {

template<typename Char>
void check(const nytl::BasicStringParam<Char>& p, const std::basic_string<Char>& text, const char* what) {
	mc::step();
	using SV = std::basic_string_view<Char>;
	MC_CHECK(p.c_str() != nullptr, "%s: c_str is null", what);
	MC_CHECK(p.size() == text.size(), "%s: size %d instead of %d", what, int(p.size()), int(text.size()));
	MC_CHECK(p.c_str()[p.size()] == Char {}, "%s: not null-terminated", what);
	MC_CHECK(std::char_traits<Char>::length(p.c_str()) == p.size(), "%s: a null character is part of the string", what);
	MC_CHECK(p.c_str() == p.data(), "%s: c_str and data differ", what);
	MC_CHECK(SV(p) == SV(text), "%s: other contents", what);
	MC_CHECK(p.empty() == text.empty(), "%s: empty", what);
	MC_CHECK(std::basic_string<Char>(p.c_str()) == text, "%s: other contents of c_str", what);
}

template<typename Char> void sink(nytl::BasicStringParam<Char> p, const std::basic_string<Char>& text, const char* what) {
	check(p, text, what);
	auto copy = p;
	check(copy, text, "copy");
	nytl::BasicStringParam<Char> assigned;
	check(assigned, {}, "default");
	assigned = copy;
	check(assigned, text, "assigned");
	MC_CHECK(assigned.data() == p.data(), "the string was not referenced but copied");
}

template<typename Char> void all() {
	const Char alpha[] = {Char('a'), Char(0), Char(0x7f), Char(-1), Char(sizeof(Char) > 1 ? 0x4100 : 0x80)};
	auto max = mc::bound(4, 5, 5, 7);
	std::basic_string<Char> s;
	auto n = mc::choose(max + 1);
	for(auto i = 0u; i < n; ++i) s += alpha[mc::choose(5)];
	if(mc::flip()) s += std::basic_string<Char>(40, Char('x')); // not in the small buffer
	auto cut = std::basic_string<Char>(s.c_str()); // up to the first null character
	mc::state(mc::hashBytes(s.data(), s.size() * sizeof(Char), sizeof(Char)));
	mc::outcome(mc::hashBytes(cut.data(), cut.size() * sizeof(Char), sizeof(Char)));

	sink<Char>(s, cut, "from string");
	nytl::BasicStringParam<Char> viaString(s);
	MC_CHECK(viaString.data() == s.c_str(), "does not reference the string");
	sink<Char>(s.c_str(), cut, "from pointer");
	sink<Char>({}, {}, "default constructed");
	sink<Char>(nytl::BasicStringParam<Char>(), {}, "default constructed");
	nytl::BasicStringParam<Char> p = s;
	p = s.c_str();
	check(p, cut, "assigned from pointer");
	p = std::basic_string<Char>();
	p = {};
	check(p, {}, "assigned empty");
	p = s;
	check(p, cut, "assigned from string");
}

} // namespace

MC_SCENARIO("char", "all strings of up to 5 (thorough: 7) characters over {a, null, 0x7f, 0x80 (wide types: 0x4100), -1}, also long ones", 3) { all<char>(); }
MC_SCENARIO("char16", "char16_t, as above", 3) { all<char16_t>(); }
MC_SCENARIO("char32", "char32_t, as above", 3) { all<char32_t>(); }
MC_SCENARIO("wchar", "wchar_t, as above", 3) { all<wchar_t>(); }

namespace {
template<typename Char> void lengths() {
	std::size_t ns[] = {0, 1, 7, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 100000};
	auto n = ns[mc::choose(sizeof(ns) / sizeof(*ns))];
	std::basic_string<Char> s;
	for(auto i = 0u; i < n; ++i) s += Char(1 + i % 120);
	std::vector<std::size_t> nulls {n};
	for(auto i = std::size_t(0); i < n; i += n < 300 ? 1 : n / 7) nulls.push_back(i);
	for(auto z : nulls) { // a null character there
		auto t = s;
		if(z < n) t[z] = Char {};
		auto cut = t.substr(0, z);
		mc::eval();
		sink<Char>(t, cut, "from string");
		sink<Char>(t.c_str(), cut, "from pointer");
		MC_CHECK(nytl::BasicStringParam<Char>(t).data() == t.data(), "does not reference the string");
		MC_CHECK(nytl::BasicStringParam<Char>(t.c_str()).data() == t.data(), "does not reference the string");
		if(n > 15) {
			std::basic_string<Char> reserved(t);
			reserved.reserve(n * 2);
			reserved += Char('y'); reserved.pop_back(); // longer storage than text
			sink<Char>(reserved, cut, "from string with more capacity");
		}
		mc::state(n * 1000 + z);
	}
	mc::outcome(n);
}
} // namespace

MC_SCENARIO("lengths", "texts of up to 100000 characters around all powers of two, a null character at any place (long ones: any seventh)", 2) {
	switch(mc::choose(4)) {
		case 0: lengths<char>(); break;
		case 1: lengths<char16_t>(); break;
		case 2: lengths<char32_t>(); break;
		case 3: lengths<wchar_t>(); break;
	}
}
