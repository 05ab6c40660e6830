// C39: printing.
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <vector>

namespace {

template<typename T> T val(unsigned i) {
	if constexpr(std::is_floating_point_v<T>) { const double v[] = {0.5, -2, 7.25, 0, 12.5, -0.75, 9}; return T(v[i % 7]); }
	else { const int v[] = {0, 7, -1, 10, -25, 999, 123456}; return static_cast<T>(v[i % 7]); }
}
template<typename T> std::string one(T v) { std::ostringstream s; s << v; return s.str(); }

// the numbers in a text
std::vector<double> numbers(const std::string& s) {
	std::vector<double> r;
	for(std::size_t i = 0; i < s.size();) {
		bool start = std::isdigit(s[i]) || ((s[i] == '-' || s[i] == '.') && i + 1 < s.size() && std::isdigit(s[i + 1]));
		if(!start) { ++i; continue; }
		char* end;
		r.push_back(std::strtod(s.c_str() + i, &end));
		i = end - s.c_str();
	}
	return r;
}
void same(const char* what, const std::string& s, const std::vector<double>& e) {
	auto n = numbers(s);
	MC_CHECK(n.size() == e.size(), "%s: %zu instead of %zu numbers in \"%s\"", what, n.size(), e.size(), s.c_str());
	for(auto i = 0u; i < n.size(); ++i) MC_CHECK(n[i] == e[i], "%s: number %u should be %g in \"%s\"", what, i, e[i], s.c_str());
}
// the state of the stream: nothing that was set before may be changed
struct Stream {
	std::ostringstream os;
	std::streamsize prec;
	std::ios::fmtflags flags;
	char fill;
	Stream() {
		const int precs[] = {6, 3, 12};
		os.precision(precs[mc::choose(3)]);
		if(mc::flip()) os.fill('*');
		prec = os.precision();
		flags = os.flags();
		fill = os.fill();
	}
	void check(const char* what) {
		MC_CHECK(os.good(), "%s: stream failed", what);
		MC_CHECK(os.precision() == prec, "%s: precision of the stream was changed from %d to %d", what, int(prec), int(os.precision()));
		MC_CHECK(os.flags() == flags && os.fill() == fill && os.width() == 0, "%s: format of the stream was changed", what);
	}
};

template<std::size_t D, typename T> void vec() {
	Stream s;
	nytl::Vec<D, T> v {};
	mc::u64 h = D;
	for(auto i = 0u; i < D; ++i) { auto c = mc::choose(D > 3 ? 3 : 5); v[i] = val<T>(c + i); h = mc::comb(h, c); }
	const char* const starts[] = {"(", "", "<<"}, *const ends[] = {")", "", "]"}, *const seps[] = {", ", "", " | "};
	auto k = mc::choose(5);
	std::string e = k == 4 ? "(" : starts[k % 3];
	for(auto i = 0u; i < D; ++i) {
		if(i) e += k == 4 ? ", " : seps[(k + 1) % 3];
		std::ostringstream o;
		o.precision(s.prec);
		o << v[i];
		e += o.str();
	}
	e += k == 4 ? ")" : ends[(k + 2) % 3];
	auto& ret = k == 4 ? (s.os << v) : nytl::print(s.os, v, starts[k % 3], ends[(k + 2) % 3], seps[(k + 1) % 3]);
	MC_CHECK(&ret == &s.os, "Vec: returned stream");
	MC_CHECK(s.os.str() == e, "Vec: \"%s\" instead of \"%s\"", s.os.str().c_str(), e.c_str());
	s.check("Vec");
	mc::eval(1);
	mc::step();
	mc::state(mc::comb(h, k * 16 + sizeof(T)));
	mc::outcome(mc::hashStr(e.c_str()));
}

template<std::size_t D, typename T> void rect() {
	Stream s;
	nytl::Rect<D, T> r {};
	std::vector<double> e;
	for(auto i = 0u; i < D; ++i) r.position[i] = val<T>(mc::choose(4) + i);
	for(auto i = 0u; i < D; ++i) r.size[i] = val<T>(mc::choose(4) + i + 1);
	for(auto i = 0u; i < D; ++i) e.push_back(double(r.position[i]));
	for(auto i = 0u; i < D; ++i) e.push_back(double(r.size[i]));
	auto& ret = mc::flip() ? (s.os << r) : nytl::print(s.os, r);
	MC_CHECK(&ret == &s.os, "Rect: returned stream");
	same("Rect", s.os.str(), e);
	s.check("Rect");
	mc::eval(1);
	mc::step();
	mc::state(mc::hashStr(s.os.str().c_str()));
	mc::outcome(mc::hashStr(s.os.str().c_str()));
}

template<std::size_t R, std::size_t C, typename T> void mat() {
	Stream s;
	nytl::Mat<R, C, T> m {};
	std::vector<double> e;
	auto k = mc::choose(7), l = mc::choose(3);
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) { m[r][c] = val<T>(k + l * (r * C + c) + r); e.push_back(double(m[r][c])); }
	auto form = mc::choose(5);
	auto& ret = form == 0 ? (s.os << m) : form == 1 ? nytl::print(s.os, m) : form == 2 ? nytl::print(s.os, m, 0u) :
		form == 3 ? nytl::print(s.os, m, 12, "  ", false) : nytl::print(s.os, m, 9, "", true);
	MC_CHECK(&ret == &s.os, "Mat: returned stream");
	auto str = s.os.str();
	if(s.fill == '*') for(auto& c : str) if(c == '*') c = ' ';
	if(!(form == 2 && s.prec == 3 && std::is_floating_point_v<T>)) same("Mat", str, e);
	// one line for each row, with its values in it
	std::istringstream in(str);
	std::string line;
	auto rows = 0u;
	while(std::getline(in, line)) {
		auto n = numbers(line).size();
		if(!n) continue;
		MC_CHECK(n == C, "Mat: %zu instead of %zu numbers in the line \"%s\"", n, C, line.c_str());
		++rows;
	}
	MC_CHECK(rows == R, "Mat: %u instead of %zu lines: \"%s\"", rows, R, str.c_str());
	bool nl = str.back() == '\n';
	MC_CHECK(nl == (form != 3), "Mat: \"%s\" ends with%s a newline", str.c_str(), nl ? "" : "out");
	s.check("Mat");
	mc::eval(1);
	mc::step();
	mc::state(mc::hashStr(str.c_str()));
	mc::outcome(mc::hashStr(str.c_str()));
}

// the documented format: every value has the requested number of characters
template<std::size_t R, std::size_t C, typename T> void matFormat() {
	Stream s;
	const double vals[] = {1 / 3., -2 / 3., 3.14159265358979, -12.3456789, 100.125, 0, -7, 4321.98765};
	const unsigned widths[] = {8, 9, 12};
	const char* const spacings[] = {"    ", "", ">"};
	nytl::Mat<R, C, T> m {};
	auto k = mc::choose(8), l = mc::choose(8), f = mc::choose(4);
	for(auto r = 0u; r < R; ++r) for(auto c = 0u; c < C; ++c) m[r][c] = T(vals[(k + r * l + c * (l + 1)) % 8]);
	auto w = f == 3 ? 8u : widths[f];
	std::string sp = f == 3 ? "    " : spacings[f];
	if(f == 3) s.os << m; else nytl::print(s.os, m, w, sp.c_str());
	auto str = s.os.str();
	std::istringstream in(str);
	std::string line;
	auto r = 0u;
	while(std::getline(in, line)) {
		if(!numbers(line).size()) continue;
		MC_CHECK(r < R, "Mat: too many lines in \"%s\"", str.c_str());
		MC_CHECK(line.compare(0, sp.size() + 1, sp + "(") == 0 && line.back() == ')', "Mat: line \"%s\" does not start with \"%s(\" and end with )",
			line.c_str(), sp.c_str());
		auto rest = line.substr(sp.size() + 1, line.size() - sp.size() - 2);
		for(auto c = 0u; c < C; ++c) {
			auto p = rest.find(',');
			MC_CHECK((p == std::string::npos) == (c == C - 1), "Mat: wrong number of values in \"%s\"", line.c_str());
			auto field = rest.substr(0, p);
			if(p != std::string::npos) {
				MC_CHECK(p + 2 < rest.size() && rest[p + 1] == ' ', "Mat: separator in \"%s\"", line.c_str());
				rest = rest.substr(p + 2);
			}
			MC_CHECK(field.size() == w, "Mat: \"%s\" in \"%s\" has %zu instead of %u characters", field.c_str(), line.c_str(), field.size(), w);
			auto n = numbers(field);
			double v = m[r][c], digits = w - 2 - (v < 0) - (std::abs(v) >= 1 ? std::floor(std::log10(std::abs(v))) + 1 : 1);
			MC_CHECK(n.size() == 1 && std::abs(n[0] - v) <= std::max(std::pow(10., -digits), std::abs(v) * (std::is_same_v<T, float> ? 3e-7 : 1e-12)),
				"Mat: \"%s\" does not show %.10g to %d digits", field.c_str(), v, int(digits));
		}
		++r;
	}
	MC_CHECK(r == R, "Mat: %u instead of %zu lines: \"%s\"", r, R, str.c_str());
	s.check("Mat");
	mc::eval(1);
	mc::step();
	mc::state(mc::hashStr(str.c_str()));
	mc::outcome(mc::hashStr(str.c_str()));
}

} // namespace

MC_SCENARIO("mat_format", "matrices of 4 sizes, 64 contents (also values with infinitely many digits), 4 widths and row spacings, 6 states of the stream: "
	"every value has the requested width and as many digits as fit", 2) {
	switch(mc::choose(4)) {
		case 0: matFormat<2, 2, double>(); break;
		case 1: matFormat<2, 3, float>(); break;
		case 2: matFormat<4, 1, double>(); break;
		case 3: matFormat<3, 4, double>(); break;
	}
}

MC_SCENARIO("vec", "vectors of up to 5 dimensions, 3 to 5 values per component, 5 formats, 6 states of the stream: text", 2) {
	switch(mc::choose(8)) {
		case 0: vec<1, int>(); break;
		case 1: vec<2, int>(); break;
		case 2: vec<3, int>(); break;
		case 3: vec<4, int>(); break;
		case 4: vec<2, double>(); break;
		case 5: vec<3, float>(); break;
		case 6: vec<5, double>(); break;
		case 7: vec<1, double>(); break;
	}
}
MC_SCENARIO("rect", "rects of up to 3 dimensions, 4 values per component, 6 states of the stream: order of the printed numbers", 2) {
	switch(mc::choose(5)) {
		case 0: rect<1, int>(); break;
		case 1: rect<2, int>(); break;
		case 2: rect<2, double>(); break;
		case 3: rect<3, float>(); break;
		case 4: rect<3, int>(); break;
	}
}
MC_SCENARIO("mat", "matrices of 8 sizes, 21 contents, 5 formats, 6 states of the stream: order and lines of the printed numbers, state of the stream afterwards", 2) {
	switch(mc::choose(9)) {
		case 0: mat<1, 1, int>(); break;
		case 1: mat<1, 3, double>(); break;
		case 2: mat<3, 1, int>(); break;
		case 3: mat<2, 2, double>(); break;
		case 4: mat<2, 3, int>(); break;
		case 5: mat<3, 2, float>(); break;
		case 6: mat<3, 3, int>(); break;
		case 7: mat<4, 4, double>(); break;
		case 8: mat<4, 4, int>(); break;
	}
}
MC_SCENARIO("approx", "approximate values of scalars, vectors and matrices", 1) {
	using namespace nytl::approxOps;
	Stream s;
	auto k = mc::choose(7);
	switch(mc::choose(3)) {
		case 0: s.os << nytl::approx(val<double>(k), 0.25); same("Approx", s.os.str(), {val<double>(k)}); break;
		case 1: s.os << nytl::approx(nytl::Vec<2, double> {val<double>(k), val<double>(k + 1)}); same("Approx", s.os.str(), {val<double>(k), val<double>(k + 1)}); break;
		case 2: s.os << nytl::approx(nytl::Vec<3, float> {1.f, val<float>(k), 3.f}); same("Approx", s.os.str(), {1, val<float>(k), 3}); break;
	}
	s.check("Approx");
	mc::eval(1);
	mc::step();
	mc::state(mc::hashStr(s.os.str().c_str()));
	mc::outcome(mc::hashStr(s.os.str().c_str()));
}
