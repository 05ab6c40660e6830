// C36: projection matrices.
#include "transref.hpp"

namespace {

using namespace tr;

template<typename P> struct Box { P l, r, b, t, n, f; };
template<typename P> std::string str(const Box<P>& b) {
	char s[200];
	std::snprintf(s, sizeof(s), "(%g, %g, %g, %g, %g, %g)", double(b.l), double(b.r), double(b.b), double(b.t), double(b.n), double(b.f));
	return s;
}

template<typename P> V3 project(const nytl::Mat4<P>& m, const V3& v) {
	V3 r;
	F w = m[3][3];
	for(auto i = 0; i < 3; ++i) w += F(m[3][i]) * v[i];
	for(auto i = 0; i < 3; ++i) { r[i] = m[i][3]; for(auto j = 0; j < 3; ++j) r[i] += F(m[i][j]) * v[j]; r[i] /= w; }
	return r;
}

template<typename P> void expect(const char* name, const nytl::Mat4<P>& m, const Box<P>& b, const V3& v, const V3& e, double scale) {
	auto r = project(m, v);
	MC_CHECK(diffV(r, e) < eps<P> * scale, "%s%s: %s is mapped to %s instead of %s", name, str(b).c_str(), tr::str(v).c_str(), tr::str(r).c_str(), tr::str(e).c_str());
	V3p<P> p = toVec<P>(v);
	auto q = nytl::multPos(m, p);
	MC_CHECK(diffV(fromVec(q), e) < eps<P> * scale * 10, "%s%s: multPos %s is %s instead of %s", name, str(b).c_str(), tr::str(v).c_str(), tr::str(fromVec(q)).c_str(), tr::str(e).c_str());
	mc::eval(2);
}

const double fr[] = {0, 0.125, 0.5, 0.75, 1, -0.5, 1.5};
template<typename P> void sides(Box<P>& b, double k) {
	const double ls[] = {-1, -2, 0.5, 0, -0.1}, ws[] = {2, 1, 0.25, 10, -4};
	auto l = mc::choose(5), w = mc::choose(5), o = mc::choose(5), h = mc::choose(5);
	b.l = P(k * ls[l]); b.r = P(k * (ls[l] + ws[w]));
	b.b = P(k * ls[o] * 2); b.t = P(k * (ls[o] * 2 + ws[h]));
}
const double scales[] = {1, 1e-6, 1e6, 1e-3, 1e-5, 1e4};
template<typename P> double spread(const Box<P>& b) {
	auto big = [](double x, double y) { return 1 + (std::abs(x) + std::abs(y)) / std::abs(x - y); };
	return 4 * std::max({big(b.l, b.r), big(b.b, b.t), big(b.n, b.f)});
}

template<typename P> void orthos() {
	Box<P> b;
	auto sc = scales[mc::choose(4)];
	sides(b, sc);
	const double ns[] = {0, 0.1, -0.1, 1, -100, 5}, fs[] = {1, 100, -100, -1, 2, 0};
	for(auto n : ns) for(auto f : fs) {
		if(n == f) continue;
		b.n = P(n * sc); b.f = P(f * sc);
		auto m = nytl::ortho(b.l, b.r, b.b, b.t, b.n, b.f);
		static_assert(std::is_same_v<decltype(m), nytl::Mat4<P>>);
		for(auto x : fr) for(auto y : {0.0, 1.0, 0.25}) for(auto z : fr) {
			V3 v {b.l + F(x) * (F(b.r) - b.l), b.b + F(y) * (F(b.t) - b.b), b.n + F(z) * (F(b.f) - b.n)};
			expect("ortho", m, b, v, {F(2 * x - 1), F(2 * y - 1), F(z)}, spread(b));
		}
	}
	mc::step(36 * 7 * 3 * 7);
	mc::state(mc::hashBytes(&b, sizeof(P) * 4, sizeof(P)));
	mc::outcome(mc::hashBytes(&b, sizeof(P) * 4));
}

template<typename P> void frustums() {
	Box<P> b;
	auto sc = scales[mc::choose(4)];
	sides(b, sc);
	const double ns[] = {0.1, 1, 5, -0.1, -1, -5}, fs[] = {2, 1.5, 100, 1000};
	for(auto n : ns) for(auto f : fs) {
		b.n = P(n * sc); b.f = P(n * f * sc);
		auto m = nytl::frustum(b.l, b.r, b.b, b.t, b.n, b.f);
		auto rev = nytl::frustumRev(b.l, b.r, b.b, b.t, b.n, b.f);
		auto inf = nytl::frustumRevInf(b.l, b.r, b.b, b.t, b.n);
		static_assert(std::is_same_v<decltype(m), nytl::Mat4<P>>);
		for(auto x : fr) for(auto y : {0.0, 1.0, 0.25}) for(auto z : {0.0, 0.1, 0.5, 1.0, 3.0}) {
			// x, y on the near plane, extended to the depth of the point
			F d = b.n + F(z) * (F(b.f) - b.n), k = d / b.n;
			V3 v {(b.l + F(x) * (F(b.r) - b.l)) * k, (b.b + F(y) * (F(b.t) - b.b)) * k, d};
			F depth = b.f * (d - b.n) / (d * (F(b.f) - b.n));
			V3 e {F(2 * x - 1), F(2 * y - 1), depth};
			expect("frustum", m, b, v, e, spread(b));
			e[2] = 1 - depth;
			expect("frustumRev", rev, b, v, e, spread(b));
			e[2] = b.n / d;
			expect("frustumRevInf", inf, b, v, e, spread(b));
		}
	}
	mc::step(24 * 7 * 3 * 5 * 3);
	mc::state(mc::hashBytes(&b, sizeof(P) * 4, sizeof(P) + 7));
	mc::outcome(mc::hashBytes(&b, sizeof(P) * 4));
}

template<typename P> void perspectives() {
	auto k = mc::choose(35 + 6) + 1; // fov: multiples of 5 degrees, and very small and large ones
	const double fovs[] = {0.03, 0.004, 0.0001, 3.1, 3.13, 3.1412};
	P fov = P(k <= 35 ? k * pi / 36 : F(fovs[k - 36]));
	const double as[] = {1, 2, 0.5, 1.7777};
	P aspect = P(as[mc::choose(4)]);
	auto size = scales[mc::choose(6)];
	F ty = std::tan(F(fov) / 2), tx = ty * aspect;
	const double ns[] = {0.1, 1, 5, -0.1, -1, -5}, fs[] = {2, 1.5, 100, 1000, 0.5, 0.01};
	for(auto n : ns) for(auto f : fs) {
		Box<P> b {fov, aspect, 0, 0, P(n * size), P(n * f * size)};
		auto m = nytl::perspective(fov, aspect, b.n, b.f);
		auto rev = nytl::perspectiveRev(fov, aspect, b.n, b.f);
		auto inf = nytl::perspectiveRevInf(fov, aspect, b.n);
		static_assert(std::is_same_v<decltype(m), nytl::Mat4<P>>);
		auto s = 4 * (1 + (std::abs(n) + std::abs(n * f)) / std::abs(n - n * f));
		for(auto x : fr) for(auto y : {0.0, 1.0, 0.25}) for(auto z : {0.0, 0.1, 0.5, 1.0, 3.0}) {
			F d = b.n + F(z) * (F(b.f) - b.n);
			if(d * b.n <= 0) continue; // behind the eye (reversed planes)
			F a = std::abs(d);
			V3 v {F(2 * x - 1) * tx * a, F(2 * y - 1) * ty * a, d};
			F depth = b.f * (d - b.n) / (d * (F(b.f) - b.n));
			V3 e {F(2 * x - 1), F(2 * y - 1), depth};
			// tan is sensitive to the rounding of the angle
			double sc = s + 8 * double(F(fov) / (std::cos(F(fov) / 2) * std::sin(F(fov) / 2)));
			expect("perspective", m, b, v, e, sc);
			e[2] = 1 - depth;
			expect("perspectiveRev", rev, b, v, e, sc);
			e[2] = b.n / d;
			expect("perspectiveRevInf", inf, b, v, e, sc * (1 + double(std::abs(e[2]))));
			// w is positive in front of the eye
			F w = F(m[3][2]) * d + m[3][3], wi = F(inf[3][2]) * d + inf[3][3], wr = F(rev[3][2]) * d + rev[3][3];
			MC_CHECK(w > 0 && wi > 0 && wr > 0, "perspective%s: w of a visible point is %Lg, %Lg, %Lg", str(b).c_str(), w, wr, wi);
		}
	}
	mc::step(36 * 105 * 3);
	mc::state(mc::comb(mc::comb(k, mc::hashBytes(&aspect, sizeof(P))), mc::hashBytes(&size, sizeof(size))));
	mc::outcome(mc::comb(k, mc::hashBytes(&aspect, sizeof(P))));
}

} // namespace

MC_SCENARIO("ortho", "625 boxes (also inverted), 34 pairs of near and far plane, 147 points on, in and around the box; 4 scales from 1e-6 to 1e6; float and double", 2) {
	if(mc::flip()) orthos<double>(); else orthos<float>();
}
MC_SCENARIO("frustum", "625 rects of the near plane (also inverted), 24 pairs of near and far plane, 105 points of the frustum and around; normal, reversed and infinite; 4 scales from 1e-6 to 1e6; float and double", 2) {
	if(mc::flip()) frustums<double>(); else frustums<float>();
}
MC_SCENARIO("perspective", "all angles in steps of 5 degrees and 6 angles close to 0 and 180 degrees, 4 aspects, 36 pairs of planes (also reversed) in 6 scales from 1e-6 to 1e6, 105 points; normal, reversed and infinite; float and double", 2) {
	if(mc::flip()) perspectives<double>(); else perspectives<float>();
}
