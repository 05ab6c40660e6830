// C34: spherical interpolation.
#include "quatref.hpp"

namespace {

using namespace qr;

double dist(const Q& a, const std::array<F, 4>& b, int sign) {
	F d = 0;
	auto x = arr(a);
	for(auto i = 0; i < 4; ++i) { F e = std::abs(x[i] - sign * b[i]); if(!(e <= d)) d = e; }
	return double(d);
}

void check(const Q& a, const Q& b, double t) {
	auto r = nytl::slerp(a, b, t);
	auto p = arr(a), q = arr(b);
	F d = 0;
	for(auto i = 0; i < 4; ++i) d += p[i] * q[i];
	// the shorter way; both are equally short when the quaternions are orthogonal
	double best = 100;
	for(auto sign : {1, -1}) {
		if(d * sign < -1e-9L) continue;
		F dot = std::min(d * sign, F(1));
		F theta = std::acos(dot), s = std::sin(theta);
		std::array<F, 4> e;
		for(auto i = 0; i < 4; ++i) {
			if(theta < 1e-6L) e[i] = p[i];
			else e[i] = std::sin((1 - t) * theta) / s * p[i] + std::sin(t * theta) / s * sign * q[i];
		}
		// q and -q are the same rotation
		best = std::min({best, dist(r, e, 1), dist(r, e, -1)});
	}
	MC_CHECK(best < 2e-6, "slerp(%s, %s, %g) is %s: off by %g", str(a).c_str(), str(b).c_str(), t, str(r).c_str(), best);
	mc::eval(1);
}

} // namespace

MC_SCENARIO("grid", "all pairs of rotations with integer components in [-1, 1] and [-2, 2] (without sanitizers [-2, 2] and [-3, 3]), t in steps of 1/8", 2) {
	Grid g {mc::bound(1, 2, 2, 2)}, o {mc::bound(2, 3, 2, 4)};
	int c[4], e[4];
	auto k = 2 * g.n + 1;
	if(!g.get(mc::choose(k * k) + k * k * mc::choose(k * k), c)) return;
	auto a = unit(c[0], c[1], c[2], c[3]);
	for(auto j = 0u; j < o.count(); ++j) {
		if(!o.get(j, e)) continue;
		auto b = unit(e[0], e[1], e[2], e[3]);
		for(auto t = 0; t <= 8; ++t) check(a, b, t / 8.0);
	}
	mc::step(o.count() * 9);
	mc::state(mc::hashBytes(c, sizeof(c)));
	mc::outcome(mc::hashBytes(c, sizeof(c)));
}

MC_SCENARIO("close", "pairs of rotations that differ by angles of 10^-k degrees, by 0 .. 10 degrees in steps of 1/16 and by almost 180 and 360 degrees, t in steps of 1/16", 2) {
	int c[4];
	Grid g {1};
	if(!g.get(mc::choose(81), c)) return;
	auto a = unit(c[0], c[1], c[2], c[3]);
	auto axis = mc::choose(7);
	V3 u {F(int(axis + 1) & 1), F((int(axis + 1) >> 1) & 1), F((int(axis + 1) >> 2) & 1)};
	F l = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
	auto one = [&](F degrees) {
		F h = degrees * pi / 360;
		F s = std::sin(h) / l;
		auto q = hamilton(arr(a), {u[0] * s, u[1] * s, u[2] * s, std::cos(h)});
		Q b {double(q[0]), double(q[1]), double(q[2]), double(q[3])};
		for(auto t = 0; t <= 16; ++t) { check(a, b, t / 16.0); check(a, {-b.x, -b.y, -b.z, -b.w}, t / 16.0); }
	};
	for(auto i = 0; i <= 160; ++i) one(i / F(16));
	for(auto k = 0; k <= 16; ++k) for(auto base : {0, 90, 180, 270, 360}) for(auto s : {1, -1}) one(base + s * std::pow(F(10), -k));
	mc::step(331 * 34);
	mc::state(mc::hashBytes(c, sizeof(c)) + axis);
	mc::outcome(mc::hashBytes(c, sizeof(c)) + axis);
}
