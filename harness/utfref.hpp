// utfref.hpp - reference encoders for unicode
#pragma once
#include <string>
#include <vector>

namespace utfref {

inline bool surrogate(char32_t c) { return c >= 0xD800 && c <= 0xDFFF; }

inline std::string enc8(char32_t c) {
	std::string r;
	auto put = [&](unsigned v) { r += char(static_cast<unsigned char>(v)); };
	if(c < 0x80) put(c);
	else if(c < 0x800) { put(0xC0 | (c >> 6)); put(0x80 | (c & 0x3F)); }
	else if(c < 0x10000) { put(0xE0 | (c >> 12)); put(0x80 | ((c >> 6) & 0x3F)); put(0x80 | (c & 0x3F)); }
	else { put(0xF0 | (c >> 18)); put(0x80 | ((c >> 12) & 0x3F)); put(0x80 | ((c >> 6) & 0x3F)); put(0x80 | (c & 0x3F)); }
	return r;
}

inline std::u16string enc16(char32_t c) {
	std::u16string r;
	if(c < 0x10000) r += char16_t(c);
	else {
		c -= 0x10000;
		r += char16_t(0xD800 + (c >> 10));
		r += char16_t(0xDC00 + (c & 0x3FF));
	}
	return r;
}

inline const std::vector<char32_t>& alphabet() {
	static const std::vector<char32_t> a {'a', 0, 0x7F, 0x80, 0xFC, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE,
		0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x3F, 0x41, 0x100000};
	return a;
}

} // namespace utfref
