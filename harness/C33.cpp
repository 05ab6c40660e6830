// C33: euler angles.
#include "quatref.hpp"

namespace {

using namespace qr;
using RS = nytl::RotationSequence;
struct Seq { RS seq; int a, b, c; const char* name; };
const Seq seqs[] = {
	{RS::xyx, 0, 1, 0, "xyx"}, {RS::xzx, 0, 2, 0, "xzx"}, {RS::yzy, 1, 2, 1, "yzy"}, {RS::yxy, 1, 0, 1, "yxy"}, {RS::zxz, 2, 0, 2, "zxz"}, {RS::zyz, 2, 1, 2, "zyz"},
	{RS::xyz, 0, 1, 2, "xyz"}, {RS::xzy, 0, 2, 1, "xzy"}, {RS::yxz, 1, 0, 2, "yxz"}, {RS::yzx, 1, 2, 0, "yzx"}, {RS::zxy, 2, 0, 1, "zxy"}, {RS::zyx, 2, 1, 0, "zyx"},
};

Q axis(int i, F a) {
	double s = double(std::sin(a / 2)), c = double(std::cos(a / 2));
	return {i == 0 ? s : 0, i == 1 ? s : 0, i == 2 ? s : 0, c};
}

void check(const Q& q, const M3& ref, const Seq& s) {
	auto r = nytl::eulerAngles(q, s.seq);
	static_assert(std::is_same_v<decltype(r), std::array<double, 3>>);
	auto m = mul(mul(rot(s.a, r[0]), rot(s.b, r[1])), rot(s.c, r[2]));
	MC_CHECK(diff(m, ref) < 1e-5, "%s: %s angles {%.10g, %.10g, %.10g} represent a rotation that is off by %g", str(q).c_str(), s.name, r[0], r[1], r[2], diff(m, ref));
	mc::eval(1);
}

} // namespace

MC_SCENARIO("grid", "all quaternions with integer components in [-3, 3] (without sanitizers 6, thorough 10), normalized, all 12 sequences", 2) {
	Grid g {mc::bound(3, 6, 5, 10)};
	unsigned k = 2 * g.n + 1;
	auto f = mc::choose(k), s = mc::choose(k);
	for(auto i = 0u; i < k * k; ++i) {
		int c[4];
		if(!g.get(f + k * (s + k * i), c)) continue;
		auto q = unit(c[0], c[1], c[2], c[3]);
		auto ref = mat(q);
		for(auto& seq : seqs) check(q, ref, seq);
	}
	mc::step(k * k * 12);
	mc::state(f * 50 + s);
	mc::outcome(f * 50 + s);
}

MC_SCENARIO("angles", "rotations built from all triples of multiples of 15 degrees (thorough: 7.5) by each sequence, decomposed by each sequence", 2) {
	const int n = mc::tier(24, 48);
	auto& from = seqs[mc::choose(12)];
	auto i = mc::choose(n);
	const int step = mc::bound(2, 1, 2, 1);
	for(auto j = 0; j < n; ++j) for(auto k = 0; k < n; k += step) {
		F a = i * 2 * pi / n, b = j * 2 * pi / n, c = k * 2 * pi / n;
		auto q = axis(from.a, a) * axis(from.b, b) * axis(from.c, c);
		auto ref = mat(q);
		for(auto& seq : seqs) check(q, ref, seq);
	}
	mc::step(n * n * 12 / step);
	mc::state(mc::comb(from.a * 9 + from.b * 3 + from.c, i));
	mc::outcome(mc::comb(from.a * 9 + from.b * 3 + from.c, i));
}

MC_SCENARIO("almost indeterminate", "middle angles at all distances 10^-k from the indeterminate ones of each sequence, outer angles multiples of 30 degrees", 2) {
	auto& seq = seqs[mc::choose(12)];
	auto i = mc::choose(12);
	for(auto base = -2; base <= 4; ++base) for(auto e = 0; e <= 16; ++e) for(auto sgn : {1, -1}) for(auto j = 0; j < 12; ++j) {
		F d = e == 16 ? 0 : sgn * std::pow(F(10), -e);
		auto q = axis(seq.a, i * pi / 6) * axis(seq.b, base * pi / 2 + d) * axis(seq.c, j * pi / 6);
		auto ref = mat(q);
		check(q, ref, seq);
		check({-q.x, -q.y, -q.z, -q.w}, ref, seq);
	}
	mc::step(7 * 17 * 2 * 12 * 2);
	mc::state(mc::comb(seq.a * 9 + seq.b * 3 + seq.c, i));
	mc::outcome(mc::comb(seq.a * 9 + seq.b * 3 + seq.c, i));
}
