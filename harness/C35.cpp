// C35: scaling, translation and rotation matrices.
#include "transref.hpp"

namespace {

using namespace tr;

const double comps[] = {0, 1, -1, 2.5, -0.25, 100, 1e-7, -1e6};

template<std::size_t D, typename P> Sq<D, P> someMat(unsigned k) {
	Sq<D, P> m {};
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) m[r][c] = P(comps[(r * D + c * 2 + k + r * r) % 5] + int(r) - int(c));
	return m;
}
template<std::size_t D, typename P> bool nearMat(const Sq<D, P>& a, const Sq<D, P>& b, double scale) {
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) if(!(std::abs(double(a[r][c] - b[r][c])) <= eps<P> * scale)) return false;
	return true;
}
// reference product
template<std::size_t D, typename P> Sq<D, P> prod(const Sq<D, P>& a, const Sq<D, P>& b) {
	Sq<D, P> m {};
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c) { F s = 0; for(auto k = 0u; k < D; ++k) s += F(a[r][k]) * b[k][c]; m[r][c] = P(s); }
	return m;
}

// R components of a D dimensional transform
template<std::size_t D, typename P, std::size_t R> void affine() {
	Vec<R, P> v {};
	mc::u64 h = D * 8 + R;
	for(auto i = 0u; i < R; ++i) { auto x = mc::choose(R > 4 ? 4 : R > 2 ? 6 : 8); v[i] = P(comps[(x + i) % 8]); h = mc::comb(h, x); }
	double big = 1; // the rounding errors of the products grow with the components
	for(auto i = 0u; i < R; ++i) big = std::max(big, std::abs(double(v[i])));
	auto s = nytl::scaleMat<D, P>(v);
	static_assert(std::is_same_v<decltype(s), Sq<D, P>>);
	for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c)
		MC_CHECK(s[r][c] == (r != c ? 0 : r < R ? v[r] : 1), "scaleMat<%zu>: %s", D, (str<D, P>(s).c_str()));
	for(auto k = 0u; k < 3; ++k) {
		auto m = someMat<D, P>(k), o = m;
		nytl::scale(m, v);
		MC_CHECK((nearMat<D, P>(m, prod<D, P>(s, o), 100 * big)), "scale<%zu>: %s", D, (str<D, P>(m).c_str()));
	}
	if constexpr(R < D) {
		auto t = nytl::translateMat<D, P>(v);
		static_assert(std::is_same_v<decltype(t), Sq<D, P>>);
		for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c)
			MC_CHECK(t[r][c] == (c == D - 1 && r < R ? v[r] : r == c), "translateMat<%zu>: %s", D, (str<D, P>(t).c_str()));
		for(auto k = 0u; k < 3; ++k) {
			auto m = someMat<D, P>(k), o = m;
			nytl::translate(m, v);
			MC_CHECK((nearMat<D, P>(m, prod<D, P>(t, o), 100 * big)), "translate<%zu>: %s", D, (str<D, P>(m).c_str()));
		}
	}
	if constexpr(D == 4 && R == 3) {
		for(auto k = 0u; k < 6; ++k) {
			V3p<P> pt {P(comps[k]), P(comps[(k + 1) % 6]), P(comps[(k + 3) % 6])};
			auto a = nytl::multPos(nytl::translateMat<4, P>(v), pt), b = nytl::multPos(nytl::scaleMat<4, P>(v), pt);
			for(auto i = 0u; i < 3; ++i) {
				MC_CHECK(a[i] == pt[i] + v[i], "multPos(translateMat): component %u is %g", i, double(a[i]));
				MC_CHECK(b[i] == pt[i] * v[i], "multPos(scaleMat): component %u is %g", i, double(b[i]));
			}
			auto m = someMat<4, P>(k);
			m[3] = {P(0.5), P(0.25), P(-0.5), P(150 + k)};
			auto p = nytl::multPos(m, pt);
			F w = m[3][3];
			for(auto i = 0u; i < 3; ++i) w += F(m[3][i]) * pt[i];
			for(auto i = 0u; i < 3; ++i) {
				F e = m[i][3];
				for(auto j = 0u; j < 3; ++j) e += F(m[i][j]) * pt[j];
				MC_CHECK(std::abs(double(p[i] - e / w)) < eps<P> * 100, "multPos: component %u is %g instead of %Lg", i, double(p[i]), e / w);
			}
		}
	}
	mc::eval(8);
	mc::step(8);
	mc::state(mc::comb(h, sizeof(P)));
	mc::outcome(h);
}

template<std::size_t D, typename P> void rotate2() {
	// multiples of 7.5 degrees and small angles
	auto k = int(mc::choose(97 + 40)) - 48;
	P a = P(k <= 48 ? k * pi / 24 : (k % 2 ? 3 : -1) * std::pow(F(10), -(k - 49) / 2));
	F c = std::cos(F(a)), s = std::sin(F(a));
	auto m = nytl::rotateMat<D, P>(a);
	static_assert(std::is_same_v<decltype(m), Sq<D, P>>);
	MC_CHECK(std::abs(double(m[0][0] - c)) < eps<P> && std::abs(double(m[1][1] - c)) < eps<P> && std::abs(double(m[1][0] - s)) < eps<P> &&
		std::abs(double(m[0][1] + s)) < eps<P> && (identityFrom<D, P>(m, 2)), "rotateMat<%zu>(%g): %s", D, double(a), (str<D, P>(m).c_str()));
	if(std::abs(a) < 1) MC_CHECK(std::abs(double(m[1][0] - s)) <= eps<P> * std::abs(double(s)) && m[0][1] == -m[1][0], "rotateMat<%zu>(%g): sine %g", D, double(a), double(m[1][0]));
	for(auto i = 0u; i < 3; ++i) {
		auto x = someMat<D, P>(i), o = x;
		nytl::rotate(x, a);
		MC_CHECK((nearMat<D, P>(x, prod<D, P>(m, o), 1e3)), "rotate<%zu>(%g): %s", D, double(a), (str<D, P>(x).c_str()));
	}
	mc::eval(4);
	mc::step(4);
	mc::state(mc::comb(k + 100, D * 16 + sizeof(P)));
	mc::outcome(k + 100);
}

template<std::size_t D, typename P> void orient2() {
	auto i = int(mc::choose(24)), j = int(mc::choose(24));
	for(auto l : {0.5, 1.0, 3.0, 1e-6, 1e7}) for(auto l2 : {1.0, 0.25, 10.0, 1e-7, 1e6}) {
		Vec<2, P> from {P(l * std::cos(i * pi / 12)), P(l * std::sin(i * pi / 12))}, to {P(l2 * std::cos(j * pi / 12)), P(l2 * std::sin(j * pi / 12))};
		auto m = nytl::orientMat<D, P>(from, to);
		static_assert(std::is_same_v<decltype(m), Sq<D, P>>);
		for(auto r = 0u; r < 2; ++r) {
			double x = double(m[r][0]) * from[0] + double(m[r][1]) * from[1];
			MC_CHECK(std::abs(x - to[r]) < eps<P> * 10 * l2, "orientMat<%zu>((%g, %g), (%g, %g)): component %u of the result is %g", D, double(from[0]), double(from[1]), double(to[0]), double(to[1]), r, x);
		}
		// a rotation with scale
		MC_CHECK(std::abs(double(m[0][0] - m[1][1])) < eps<P> * 10 * l2 / l && std::abs(double(m[0][1] + m[1][0])) < eps<P> * 10 * l2 / l && (identityFrom<D, P>(m, 2)),
			"orientMat<%zu>: %s", D, (str<D, P>(m).c_str()));
	}
	mc::eval(25);
	mc::step(25);
	mc::state(mc::comb(i * 24 + j, D * 16 + sizeof(P)));
	mc::outcome(i * 24 + j);
}

template<typename P> void rotate3() {
	V3 axis;
	auto n = mc::bound(1, 2, 2, 4);
	if(!direction(mc::choose(directions(n)), n, axis)) return;
	auto ax = toVec<P>(axis);
	for(auto k = -24; k <= 24 + 16; ++k) {
		P a = P(k <= 24 ? k * pi / 12 : 2 * std::pow(F(10), 25 - k)); // small angles
		auto ref = rodrigues(fromVec(ax), F(a));
		auto m3 = nytl::rotateMat<3, P>(ax, a);
		auto m4 = nytl::rotateMat<4, P>(ax, a);
		auto m5 = nytl::rotateMat<5, P>(ax, a);
		static_assert(std::is_same_v<decltype(m3), Sq<3, P>>);
		MC_CHECK(diff(m3, ref) < eps<P>, "rotateMat<3>(%s, %g): %s", str(axis).c_str(), double(a), (str<3, P>(m3).c_str()));
		MC_CHECK(diff(m4, ref) < eps<P> && (identityFrom<4, P>(m4, 3)), "rotateMat<4>(%s, %g): %s", str(axis).c_str(), double(a), (str<4, P>(m4).c_str()));
		MC_CHECK(diff(m5, ref) < eps<P> && (identityFrom<5, P>(m5, 3)), "rotateMat<5>(%s, %g): %s", str(axis).c_str(), double(a), (str<5, P>(m5).c_str()));
		if(k > 25) for(auto i = 0u; i < 3; ++i) {
			auto x = (i + 1) % 3, y = (i + 2) % 3;
			F sa = std::sin(F(a));
			MC_CHECK(std::abs(double((F(m3[y][x]) - m3[x][y]) / 2 - sa * ax[i])) < eps<P> * double(sa), "rotateMat<3>(%s, %g): the angle is lost: %s", str(axis).c_str(), double(a), (str<3, P>(m3).c_str()));
		}
		for(auto i = 0u; i < 6; ++i) {
			V3p<P> v {P(comps[i]), P(comps[(i + 1) % 6]), P(comps[(i + 4) % 6])};
			auto r = nytl::rotate(v, ax, a);
			auto e = mul(ref, fromVec(v));
			MC_CHECK(diffV(fromVec(r), e) < eps<P> * 200, "rotate((%g, %g, %g), %s, %g): (%g, %g, %g)", double(v[0]), double(v[1]), double(v[2]), str(axis).c_str(), double(a), double(r[0]), double(r[1]), double(r[2]));
		}
		auto q = nytl::Quaternion::axisAngle(double(ax[0]), double(ax[1]), double(ax[2]), double(a));
		MC_CHECK(diff(nytl::toMat<3, P>(q), top<3, P>(m3)) < 2 * eps<P>, "rotateMat(%s, %g) differs from the quaternion", str(axis).c_str(), double(a));
		auto x = someMat<4, P>(k + 24), o = x;
		nytl::rotate(x, ax, a);
		MC_CHECK((nearMat<4, P>(x, prod<4, P>(m4, o), 1e3)), "rotate(mat, %s, %g)", str(axis).c_str(), double(a));
	}
	mc::eval(65 * 11);
	mc::step(65 * 11);
	mc::state(mc::hashBytes(&ax, sizeof(ax)));
	mc::outcome(mc::hashBytes(&ax, sizeof(ax)));
}

template<typename P> void orientPair(const V3& from, const V3& to) {
	auto f = toVec<P>(from), t = toVec<P>(to);
	// 1 + c loses digits for nearly opposite directions (c is the cosine)
	V3 mid {from[0] + to[0], from[1] + to[1], from[2] + to[2]};
	double e = eps<P> * 8 / double(tr::dot(mid, mid));
	if(!(e < 0.02)) return; // opposite
	auto m3 = nytl::orientMat<3, P>(f, t);
	auto m4 = nytl::orientMat<4, P>(f, t);
	auto m = top<3, P>(m3);
	MC_CHECK(diffV(mul(m, fromVec(f)), fromVec(t)) < e, "orientMat<3>(%s, %s): %s", str(from).c_str(), str(to).c_str(), (str<3, P>(m3).c_str()));
	MC_CHECK(rotationError(m) < e * 4, "orientMat<3>(%s, %s) is not a rotation: %s", str(from).c_str(), str(to).c_str(), (str<3, P>(m3).c_str()));
	// around the axis orthogonal to both
	auto ax = tr::cross(from, to);
	MC_CHECK(diffV(mul(m, ax), ax) < e * 4, "orientMat<3>(%s, %s): other axis: %s", str(from).c_str(), str(to).c_str(), (str<3, P>(m3).c_str()));
	MC_CHECK(diff(m4, m) < e && (identityFrom<4, P>(m4, 3)), "orientMat<4>(%s, %s): %s", str(from).c_str(), str(to).c_str(), (str<4, P>(m4).c_str()));
	mc::eval(2);
	mc::step(2);
}

template<typename P> void orient3() {
	V3 from, to;
	auto n = mc::bound(1, 2, 2, 3);
	if(!direction(mc::choose(directions(n)), n, from)) return;
	for(auto j = 0u; j < directions(n); ++j) if(direction(j, n, to)) orientPair<P>(from, to);
	// all small angles between the directions, and nearly opposite ones
	V3 u = norm(tr::cross(from, std::abs(from[0]) < 0.6L ? V3 {1, 0, 0} : V3 {0, 1, 0})), v = tr::cross(from, u);
	for(auto s : {1, -1}) for(auto e = 0; e < 17; ++e) for(auto k : {0, 1, 5, 7}) for(auto x : {1.0, 2.0, 4.5}) {
		F a = std::pow(F(10), -e) * x, ca = s * std::cos(a), su = std::sin(a) * std::cos(F(k)), sv = std::sin(a) * std::sin(F(k));
		V3 t;
		for(auto i = 0u; i < 3; ++i) t[i] = ca * from[i] + su * u[i] + sv * v[i];
		orientPair<P>(from, t);
		if(s > 0 && e > 0) { // the angle itself is not lost
			auto m = nytl::orientMat<3, P>(toVec<P>(from), toVec<P>(t));
			auto ax = tr::cross(fromVec(toVec<P>(from)), fromVec(toVec<P>(t)));
			for(auto i = 0u; i < 3; ++i) {
				auto p = (i + 1) % 3, q = (i + 2) % 3;
				MC_CHECK(std::abs(double((F(m[q][p]) - m[p][q]) / 2 - ax[i])) < eps<P> * (double(len(ax)) + eps<P>) + double(ax[i]) * eps<P> + std::numeric_limits<P>::epsilon() * 4,
					"orientMat<3>(%s, %s): the angle is lost: %s", str(from).c_str(), str(t).c_str(), (str<3, P>(m).c_str()));
			}
		}
	}
	auto f = toVec<P>(from);
	mc::state(mc::hashBytes(&f, sizeof(f)));
	mc::outcome(mc::hashBytes(&f, sizeof(f)));
}

template<std::size_t D, typename P, std::size_t A> void flips() {
	for(auto k = 0u; k < 8; ++k) {
		auto o = someMat<D, P>(k), e = o;
		for(auto c = 0u; c < D; ++c) e[A][c] = -e[A][c];
		auto m = o;
		nytl::flipAxis<A>(m);
		MC_CHECK(m == e, "flipAxis<%zu>: %s", A, (str<D, P>(m).c_str()));
		auto f = nytl::flippedAxis<A>(o);
		MC_CHECK(f == e, "flippedAxis<%zu>: %s", A, (str<D, P>(f).c_str()));
		if constexpr(A == 1) {
			m = o;
			nytl::flipY(m);
			MC_CHECK(m == e && nytl::flippedY(o) == e, "flipY: %s", (str<D, P>(m).c_str()));
		}
		if constexpr(A == 2) {
			m = o;
			nytl::flipZ(m);
			MC_CHECK(m == e && nytl::flippedZ(o) == e, "flipZ: %s", (str<D, P>(m).c_str()));
		}
	}
	mc::eval(8 * 3);
	mc::step(24);
	mc::state(D * 64 + A * 16 + sizeof(P));
	mc::outcome(D * 64 + A);
}

template<std::size_t D, std::size_t O, typename P, typename T> void expand() {
	for(auto k = 0u; k < 8; ++k) {
		auto o = someMat<O, T>(k);
		auto m = nytl::expandIdentity<D, P>(o);
		static_assert(std::is_same_v<decltype(m), Sq<D, P>>);
		for(auto r = 0u; r < D; ++r) for(auto c = 0u; c < D; ++c)
			MC_CHECK(m[r][c] == (r < O && c < O ? P(o[r][c]) : P(r == c)), "expandIdentity<%zu> of %zux%zu: %s", D, O, O, (str<D, P>(m).c_str()));
	}
	mc::eval(8);
	mc::step(8);
	mc::state(10000 + D * 64 + O * 16 + sizeof(P) + sizeof(T) * 3);
	mc::outcome(10000 + D * 64 + O);
}

} // namespace

MC_SCENARIO("affine", "scale and translation for all vectors over 4 to 8 values per component (from 1e-7 to 1e6), in 2 to 5 dimensions, float and double; application to matrices and points", 2) {
	switch(mc::choose(12)) {
		case 0: affine<2, float, 1>(); break;
		case 1: affine<2, double, 2>(); break;
		case 2: affine<3, float, 2>(); break;
		case 3: affine<3, double, 3>(); break;
		case 4: affine<4, float, 3>(); break;
		case 5: affine<4, double, 3>(); break;
		case 6: affine<4, float, 4>(); break;
		case 7: affine<4, double, 2>(); break;
		case 8: affine<5, double, 4>(); break;
		case 9: affine<4, float, 2>(); break;
		case 10: affine<3, float, 3>(); break;
		case 11: affine<5, float, 5>(); break;
	}
}

MC_SCENARIO("rotation 2D", "all multiples of 7.5 degrees in two turns and angles down to 1e-19; all pairs of 24 directions with 25 length combinations from 1e-7 to 1e7; 2 to 4 dimensions", 2) {
	switch(mc::choose(9)) {
		case 0: rotate2<2, float>(); break;
		case 1: rotate2<3, float>(); break;
		case 2: rotate2<4, float>(); break;
		case 3: rotate2<2, double>(); break;
		case 4: rotate2<4, double>(); break;
		case 5: orient2<2, float>(); break;
		case 6: orient2<2, double>(); break;
		case 7: orient2<4, double>(); break;
		case 8: orient2<3, float>(); break;
	}
}

MC_SCENARIO("rotation 3D", "all axes with integer components in [-1, 1] (without sanitizers [-2, 2]), all multiples of 15 degrees in two turns and angles down to 1e-15; orientation of all pairs of such directions that are not opposite, and of directions at angles of 10^-k and 180 degrees minus 10^-k to each of them", 2) {
	switch(mc::choose(4)) {
		case 0: rotate3<float>(); break;
		case 1: rotate3<double>(); break;
		case 2: orient3<float>(); break;
		case 3: orient3<double>(); break;
	}
}

MC_SCENARIO("flip and expand", "all axes of 2 to 4 dimensional matrices, all expansions up to 5 dimensions", 1) {
	switch(mc::choose(16)) {
		case 0: flips<2, float, 0>(); break;
		case 1: flips<2, double, 1>(); break;
		case 2: flips<3, float, 0>(); break;
		case 3: flips<3, float, 1>(); break;
		case 4: flips<3, double, 2>(); break;
		case 5: flips<4, float, 0>(); break;
		case 6: flips<4, double, 1>(); break;
		case 7: flips<4, float, 2>(); break;
		case 8: flips<4, float, 3>(); break;
		case 9: expand<2, 2, float, float>(); break;
		case 10: expand<3, 2, float, double>(); break;
		case 11: expand<4, 2, double, float>(); break;
		case 12: expand<4, 3, float, float>(); break;
		case 13: expand<5, 1, double, double>(); break;
		case 14: expand<5, 4, double, double>(); break;
		case 15: expand<4, 4, double, float>(); break;
	}
}
