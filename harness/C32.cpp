// C32: quaternions represent rotations consistently.
#include "quatref.hpp"

namespace {

using namespace qr;
template<typename T> using Vec3 = nytl::Vec3<T>;

#define CHK(cond, fmt, ...) MC_CHECK(cond, "%s: " fmt, str(q).c_str(), ##__VA_ARGS__)

// up to the sign?
double same(const Q& a, const Q& b) {
	double p = std::max({std::abs(a.x - b.x), std::abs(a.y - b.y), std::abs(a.z - b.z), std::abs(a.w - b.w)});
	double m = std::max({std::abs(a.x + b.x), std::abs(a.y + b.y), std::abs(a.z + b.z), std::abs(a.w + b.w)});
	return std::min(p, m);
}

template<typename T, std::size_t N> void matrix(const Q& q, const M3& ref) {
	auto m = nytl::toMat<N, T>(q);
	const double eps = sizeof(T) == 4 ? 1e-6 : 1e-14;
	CHK(diff(m, ref) < eps, "toMat is off by %g", diff(m, ref));
	for(auto r = 0u; r < N; ++r) for(auto c = 0u; c < N; ++c)
		if(r > 2 || c > 2) CHK(m[r][c] == (r == c), "toMat: (%u, %u) is %g", r, c, double(m[r][c]));
	nytl::Mat3<T> m3;
	for(auto r = 0u; r < 3; ++r) for(auto c = 0u; c < 3; ++c) m3[r][c] = m[r][c];
	auto b = Q::fromMat(m3);
	CHK(same(b, q) < (sizeof(T) == 4 ? 2e-6 : 1e-13), "fromMat(toMat) is %s", str(b).c_str());
	CHK(diff(nytl::toMat<3, T>(b), ref) < 2 * eps, "toMat(fromMat(toMat)) is off by %g", diff(nytl::toMat<3, T>(b), ref));
}

template<typename T> void applied(const Q& q, const M3& ref) {
	const T vs[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {T(1.5), T(-2), T(0.25)}, {-3, -5, 7}, {0, 0, 0}};
	for(auto& v : vs) {
		auto r = nytl::apply(q, Vec3<T> {v[0], v[1], v[2]});
		static_assert(std::is_same_v<decltype(r), Vec3<T>>);
		auto e = mul(ref, V3 {v[0], v[1], v[2]});
		for(auto i = 0u; i < 3; ++i) CHK(std::abs(double(r[i] - e[i])) < (sizeof(T) == 4 ? 4e-6 : 1e-13), "apply(%g, %g, %g): component %u is %g instead of %g",
			double(v[0]), double(v[1]), double(v[2]), i, double(r[i]), double(e[i]));
	}
}

void single(const Q& q) {
	auto ref = mat(q);
	matrix<float, 3>(q, ref);
	matrix<double, 3>(q, ref);
	matrix<float, 4>(q, ref);
	matrix<double, 4>(q, ref);
	matrix<double, 5>(q, ref);
	applied<float>(q, ref);
	applied<double>(q, ref);
	auto c = nytl::conjugated(q);
	CHK((c == Q {-q.x, -q.y, -q.z, q.w}), "conjugated is %s", str(c).c_str());
	CHK(same(q * c, Q {0, 0, 0, 1}) < 1e-14, "q * conjugated(q) is %s", str(q * c).c_str());
	// any scale
	const double big[] = {1e-150, 1e-30, 1e-12, 1e-6, 1e6, 1e30, 1e150};
	for(auto s : big) {
		Q n {q.x * s, q.y * s, q.z * s, q.w * s};
		auto l = nytl::norm(n);
		CHK(std::abs(l - s) < 1e-14 * s, "norm of %g times it: %.17g", s, l);
		auto u = nytl::normalized(n);
		CHK(std::max({std::abs(u.x - q.x), std::abs(u.y - q.y), std::abs(u.z - q.z), std::abs(u.w - q.w)}) < 1e-14, "normalized %g times it: %s", s, str(u).c_str());
		auto r = nytl::apply(q, Vec3<double> {s, -2 * s, s / 2});
		auto e = mul(ref, V3 {s, -2 * s, s / 2});
		for(auto i = 0u; i < 3; ++i) CHK(std::abs(double(r[i] - e[i])) < 1e-14 * s * 4, "apply to a vector of scale %g: component %u is %g instead of %g", s, i, r[i], double(e[i]));
		Q d {q.x + (q.x ? q.x * 1e-15 : s), q.y, q.z, q.w};
		if(s < 1e-5) CHK(q != d && !(q == d) && !(d == q), "== to a different one: %s", str(d).c_str());
	}
	mc::eval(60);
}

Q some(unsigned i, int n) {
	int c[4];
	Grid g {n};
	if(!g.get(i, c)) return {0, 0, 0, 1};
	return unit(c[0], c[1], c[2], c[3]);
}

} // namespace

MC_SCENARIO("rotations", "all quaternions with integer components in [-3, 3] (without sanitizers 5, thorough 7), normalized: matrix, back, application to vectors, conjugate; norm and normalization of the integer ones", 2) {
	Grid g {mc::bound(3, 5, 4, 8)};
	unsigned k = 2 * g.n + 1;
	auto first = mc::choose(k), second = mc::choose(k);
	for(auto i = 0u; i < k * k; ++i) {
		int c[4];
		if(!g.get(first + k * (second + k * i), c)) continue;
		auto q = unit(c[0], c[1], c[2], c[3]);
		single(q);
		Q n {double(c[0]), double(c[1]), double(c[2]), double(c[3])};
		auto l = std::sqrt(double(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3]));
		CHK(std::abs(nytl::norm(n) - l) < 1e-14 * l, "norm is %.17g", nytl::norm(n));
		auto u = nytl::normalized(n);
		CHK(std::max({std::abs(u.x - q.x), std::abs(u.y - q.y), std::abs(u.z - q.z), std::abs(u.w - q.w)}) < 1e-14, "normalized is %s", str(u).c_str());
		CHK(std::abs(nytl::norm(u) - 1) < 1e-14, "norm of normalized");
	}
	auto z = nytl::normalized(Q {0, 0, 0, 0});
	MC_CHECK((z == Q {0, 0, 0, 1}), "normalized zero: %s", str(z).c_str());
	mc::step(k * k * 30);
	mc::state(first * 100 + second);
	mc::outcome(first * 100 + second);
}

MC_SCENARIO("nearly singular", "rotations of 10^-k around axes with components in [-1, 1], applied to all 80 rotations with components in [-1, 1] (identity, half turns, ...): same checks", 2) {
	int c[4];
	Grid g {1};
	auto ok = g.get(mc::choose(81), c);
	if(!ok) return;
	auto base = unit(c[0], c[1], c[2], c[3]);
	for(auto i = 0; i < 27; ++i) {
		int x = i % 3 - 1, y = i / 3 % 3 - 1, z = i / 9 - 1;
		if(!x && !y && !z) continue;
		F l = std::sqrt(F(x * x + y * y + z * z));
		for(auto e = 1; e < 18; ++e) {
			F a = 2 * std::pow(F(10), -e), s = std::sin(a / 2) / l;
			auto p = hamilton(arr(base), std::array<F, 4> {x * s, y * s, z * s, std::cos(a / 2)});
			single(Q {double(p[0]), double(p[1]), double(p[2]), double(p[3])});
		}
	}
	mc::step(26 * 17);
	mc::state(7000 + mc::hashBytes(c, sizeof(c)));
	mc::outcome(mc::hashBytes(c, sizeof(c)));
}

MC_SCENARIO("algebra", "all pairs of quaternions with integer components in [-1, 1] (without sanitizers [-2, 2]): product, sum, difference, dot, scaling, comparison; associativity with 8 third ones", 2) {
	Grid g {mc::bound(1, 2, 2, 2)};
	int c[4], d[4];
	unsigned k = 2 * g.n + 1;
	g.get(mc::choose(k * k) + k * k * mc::choose(k * k), c);
	Q q {double(c[0]), double(c[1]), double(c[2]), double(c[3])};
	auto a = arr(q);
	for(auto j = 0u; j < g.count(); ++j) {
		g.get(j, d);
		Q o {double(d[0]), double(d[1]), double(d[2]), double(d[3])};
		auto b = arr(o);
		auto e = hamilton(a, b);
		Q eq {double(e[0]), double(e[1]), double(e[2]), double(e[3])};
		auto p = q * o;
		CHK(arr(p) == e, "* %s is %s", str(o).c_str(), str(p).c_str());
		auto m = q;
		auto& ret = (m *= o);
		CHK(arr(m) == e && &ret == &m, "*= %s is %s", str(o).c_str(), str(m).c_str());
		double dot = 0, n1 = 0;
		bool equal = true;
		for(auto i = 0u; i < 4; ++i) { dot += double(a[i] * b[i]); n1 += double(e[i] * e[i]); equal &= a[i] == b[i]; }
		CHK(nytl::dot(q, o) == dot, "dot %s is %g", str(o).c_str(), nytl::dot(q, o));
		auto s = q + o, t = q - o;
		for(auto i = 0u; i < 4; ++i) CHK(arr(s)[i] == a[i] + b[i] && arr(t)[i] == a[i] - b[i], "+ or - %s: %s, %s", str(o).c_str(), str(s).c_str(), str(t).c_str());
		CHK((q == o) == equal && (q != o) == !equal, "comparison with %s", str(o).c_str());
		CHK(std::abs(nytl::norm(p) * nytl::norm(p) - n1) < 1e-9, "norm of product");
		auto sc = (d[0] * 0.5 + 1) * q;
		for(auto i = 0u; i < 4; ++i) CHK(arr(sc)[i] == a[i] * (d[0] * F(0.5) + 1), "scaled by %g: %s", d[0] * 0.5 + 1, str(sc).c_str());
		for(auto x = 0u; x < 8; ++x) {
			Q third {double(x & 1), double(1 - int(x & 2)), double(int(x & 4) - 2), double(x) - 3};
			CHK((q * o) * third == q * (o * third), "not associative: %s %s", str(o).c_str(), str(third).c_str());
		}
	}
	auto self = q;
	self *= self;
	auto e = hamilton(a, a);
	CHK(arr(self) == e, "*= itself is %s", str(self).c_str());
	mc::eval(g.count() * 15);
	mc::step(g.count() * 15);
	mc::state(mc::hashBytes(c, sizeof(c)));
	mc::outcome(mc::hashBytes(&self, sizeof(self)));
}

MC_SCENARIO("composition", "all pairs of rotations given by integer components in [-1, 1] and [-2, 2] (quick: every 3rd): matrix and application of the product", 2) {
	auto ia = mc::choose(81);
	auto q = some(ia, 1);
	auto ra = mat(q);
	const auto step = mc::tier(3, 1);
	for(auto j = 0u; j < 625; j += step) {
		auto b = some(j, 2);
		auto p = q * b;
		auto ref = mul(ra, mat(b));
		CHK(diff(nytl::toMat<3, double>(p), ref) < 1e-14, "toMat(* %s) is off by %g", str(b).c_str(), diff(nytl::toMat<3, double>(p), ref));
		applied<double>(p, ref);
		auto prod = nytl::toMat<3, double>(q) * nytl::toMat<3, double>(b);
		CHK(diff(prod, ref) < 1e-14, "product of matrices");
		Vec3<double> v {1, -2, 0.5};
		auto r1 = nytl::apply(p, v), r2 = nytl::apply(q, nytl::apply(b, v));
		for(auto i = 0u; i < 3; ++i) CHK(std::abs(r1[i] - r2[i]) < 1e-13, "apply(* %s) differs from applying both", str(b).c_str());
		mc::eval(10);
	}
	mc::step(6250 / step);
	mc::state(ia);
	mc::outcome(mc::hashBytes(&q, sizeof(q)));
}

MC_SCENARIO("construction", "axisAngle for all axes with integer components in [-2, 2] and all multiples of 7.5 degrees in two turns; yxz for all triples of multiples of 30 degrees", 2) {
	if(mc::flip()) {
		auto k = int(mc::choose(97)) - 48;
		F a = k * pi / 24;
		for(auto x = -2; x <= 2; ++x) for(auto y = -2; y <= 2; ++y) for(auto z = -2; z <= 2; ++z) {
			if(!x && !y && !z) continue;
			F l = std::sqrt(F(x * x + y * y + z * z));
			V3 u {x / l, y / l, z / l};
			auto ref = rodrigues(u, a);
			auto q = Q::axisAngle(double(u[0]), double(u[1]), double(u[2]), double(a));
			auto p = Q::axisAngle(nytl::Vec3f {float(u[0]), float(u[1]), float(u[2])}, double(a));
			CHK(diff(mat(q), ref) < 1e-14, "axisAngle(%d, %d, %d; %g) is off by %g", x, y, z, double(a), diff(mat(q), ref));
			CHK(diff(mat(p), ref) < 1e-6, "axisAngle((%d, %d, %d), %g) is off by %g", x, y, z, double(a), diff(mat(p), ref));
			applied<double>(q, ref);
		}
		mc::eval(124 * 8);
		mc::step(124 * 8);
		mc::state(k + 100);
		mc::outcome(k + 100);
	} else {
		auto i = int(mc::choose(25)) - 12, j = int(mc::choose(25)) - 12;
		for(auto k = -12; k <= 12; ++k) {
			F y = i * pi / 6, p = j * pi / 6, r = k * pi / 6;
			auto q = Q::yxz(double(y), double(p), double(r));
			auto e = Q::axisAngle(0, 1, 0, double(y)) * Q::axisAngle(1, 0, 0, double(p)) * Q::axisAngle(0, 0, 1, double(r));
			auto ref = mul(mul(rot(1, y), rot(0, p)), rot(2, r));
			CHK(same(q, e) < 1e-14, "yxz(%g, %g, %g) differs from %s", double(y), double(p), double(r), str(e).c_str());
			CHK(diff(mat(q), ref) < 1e-14, "yxz(%g, %g, %g) is off by %g", double(y), double(p), double(r), diff(mat(q), ref));
		}
		mc::eval(50);
		mc::step(50);
		mc::state(1000 + i * 50 + j);
		mc::outcome(1000 + i * 50 + j);
	}
}
