// C37: camera matrices and orthonormal bases.
#include "transref.hpp"

namespace {

using namespace tr;

const double poss[][3] = {{0, 0, 0}, {1, 2, 3}, {-5, 0.25, 10}, {100, -50, 0.5}};

template<typename P> void bases() {
	V3 dir;
	auto n = mc::bound(2, 4, 4, 8);
	auto k = 2 * n + 1;
	auto z = mc::choose(k), y = mc::choose(k);
	for(auto x = 0; x < k; ++x) {
		if(!direction(x + k * (y + k * z), n, dir)) continue;
		auto d = toVec<P>(dir);
		auto b = nytl::base(d);
		static_assert(std::is_same_v<decltype(b), std::array<V3p<P>, 2>>);
		auto u = fromVec(b[0]), v = fromVec(b[1]), w = fromVec(d);
		const double e = eps<P> * 10;
		MC_CHECK(std::abs(double(len(u) - 1)) < e && std::abs(double(len(v) - 1)) < e, "base(%s): lengths %Lg, %Lg", str(dir).c_str(), len(u), len(v));
		MC_CHECK(std::abs(double(tr::dot(u, v))) < e && std::abs(double(tr::dot(u, w))) < e && std::abs(double(tr::dot(v, w))) < e, "base(%s): not orthogonal: %s, %s",
			str(dir).c_str(), str(u).c_str(), str(v).c_str());
	}
	mc::eval(k);
	mc::step(k);
	mc::state(mc::comb(z * k + y, sizeof(P)));
	mc::outcome(z * k + y);
}

// directions at small angles to the z axes (the singularity of the implementation)
template<typename P> void poles() {
	auto k = mc::choose(24);
	for(auto s : {1, -1}) for(auto e = 0; e < 17; ++e) for(auto m : {1.0, 2.0, 4.5}) {
		F a = std::pow(F(10), -e) * m, c = k * pi / 12;
		V3 dir {std::sin(a) * std::cos(c), std::sin(a) * std::sin(c), s * std::cos(a)};
		auto d = toVec<P>(dir);
		auto b = nytl::base(d);
		auto u = fromVec(b[0]), v = fromVec(b[1]), w = fromVec(d);
		const double t = eps<P> * 10;
		MC_CHECK(std::abs(double(len(u) - 1)) < t && std::abs(double(len(v) - 1)) < t && std::abs(double(tr::dot(u, v))) < t && std::abs(double(tr::dot(u, w))) < t &&
			std::abs(double(tr::dot(v, w))) < t, "base(%s): %s, %s", str(dir).c_str(), str(u).c_str(), str(v).c_str());
	}
	mc::eval(102);
	mc::step(102);
	mc::state(1000 + mc::comb(k, sizeof(P)));
	mc::outcome(1000 + k);
}

template<typename P> void camera(const char* name, const nytl::Mat4<P>& m, const M3& rows, const double (&pos)[3], const std::string& what, double size = 1, double tol = 1) {
	const double e = eps<P> * 300 * size * tol;
	for(auto r = 0u; r < 3; ++r) for(auto c = 0u; c < 3; ++c)
		MC_CHECK(std::abs(double(m[r][c] - rows[r][c])) < eps<P> * 10 * tol, "%s(%s): (%u, %u) is %g instead of %Lg", name, what.c_str(), r, c, double(m[r][c]), rows[r][c]);
	for(auto c = 0u; c < 4; ++c) MC_CHECK(m[3][c] == (c == 3), "%s(%s): last row: %s", name, what.c_str(), (str<4, P>(m).c_str()));
	// the position is mapped to the origin
	auto o = nytl::multPos(m, V3p<P> {P(pos[0] * size), P(pos[1] * size), P(pos[2] * size)});
	MC_CHECK(diffV(fromVec(o), {0, 0, 0}) < e, "%s(%s): position is mapped to %s", name, what.c_str(), str(fromVec(o)).c_str());
	// and points around it to their coordinates in the basis
	for(auto i = 0u; i < 3; ++i) for(auto s : {1, -2}) {
		V3 pt {size * (pos[0] + s * rows[i][0]), size * (pos[1] + s * rows[i][1]), size * (pos[2] + s * rows[i][2])};
		V3 x {};
		x[i] = s * size;
		auto p = nytl::multPos(m, toVec<P>(pt));
		MC_CHECK(diffV(fromVec(p), x) < e, "%s(%s): %s is mapped to %s", name, what.c_str(), str(pt).c_str(), str(fromVec(p)).c_str());
	}
	mc::eval(8);
}

template<typename P> void byQuat() {
	Grid g {mc::bound(1, 2, 2, 3)};
	int c[4];
	auto k = 2 * g.n + 1;
	auto first = mc::choose(k);
	for(auto i = 0; i < k * k * k; ++i) {
		if(!g.get(first + k * i, c)) continue;
		auto q = unit(c[0], c[1], c[2], c[3]);
		auto m = mat(q);
		M3 rows;
		for(auto r = 0; r < 3; ++r) for(auto j = 0; j < 3; ++j) rows[r][j] = m[j][r];
		for(auto& pos : poss) for(auto size : {1.0, 1e-6, 1e6}) {
			V3p<P> p {P(pos[0] * size), P(pos[1] * size), P(pos[2] * size)};
			auto l = nytl::lookAt(q, p);
			static_assert(std::is_same_v<decltype(l), nytl::Mat4<P>>);
			camera("lookAt", l, rows, pos, str(q), size);
			auto z = nytl::apply(q, V3p<P> {0, 0, 1}), y = nytl::apply(q, V3p<P> {0, 1, 0});
			camera("lookAt", nytl::lookAt(p, z, y), rows, pos, str(q), size);
		}
	}
	mc::step(k * k * k * 24);
	mc::state(mc::comb(first, sizeof(P)));
	mc::outcome(first);
}

template<typename P> void byVec() {
	V3 z, up;
	int n = 2;
	if(!direction(mc::choose(directions(n)), n, z)) return;
	auto scale = mc::choose(5);
	const double ups[] = {1, 0.01, 50, 1e-7, 1e7};
	for(auto j = 0u; j < directions(1); ++j) {
		if(!direction(j, 1, up)) continue;
		if(std::abs(tr::dot(z, up)) > 0.98L) continue;
		for(auto& u : up) u *= ups[scale];
		auto zp = toVec<P>(z), upp = toVec<P>(up);
		M3 rows;
		rows[0] = norm(tr::cross(up, z));
		rows[1] = tr::cross(z, rows[0]);
		rows[2] = z;
		auto what = str(z) + " " + str(up);
		for(auto& pos : poss) for(auto size : {1.0, 1e-6, 1e6})
			camera("lookAt", nytl::lookAt(V3p<P> {P(pos[0] * size), P(pos[1] * size), P(pos[2] * size)}, zp, upp), rows, pos, what, size);
		auto m3 = nytl::lookAt<3, P>(zp, upp);
		auto m4 = nytl::lookAt<4, P>(zp, upp);
		auto m5 = nytl::lookAt<5, P>(zp, upp);
		MC_CHECK(diff(m3, rows) < eps<P> * 10, "lookAt<3>(%s): %s", what.c_str(), (str<3, P>(m3).c_str()));
		MC_CHECK(diff(m4, rows) < eps<P> * 10 && (identityFrom<4, P>(m4, 3)), "lookAt<4>(%s): %s", what.c_str(), (str<4, P>(m4).c_str()));
		MC_CHECK(diff(m5, rows) < eps<P> * 10 && (identityFrom<5, P>(m5, 3)), "lookAt<5>(%s): %s", what.c_str(), (str<5, P>(m5).c_str()));
		mc::eval(3);
	}
	mc::step(27 * 7);
	mc::state(mc::comb(mc::hashBytes(&z, sizeof(z)), scale * 16 + sizeof(P)));
	mc::outcome(mc::comb(scale, sizeof(P)));
}

// up vectors that are nearly parallel to the direction, on both sides
template<typename P> void nearlyParallel() {
	V3 z;
	int n = 2;
	if(!direction(mc::choose(directions(n)), n, z)) return;
	V3 u = norm(tr::cross(z, std::abs(z[0]) < 0.6L ? V3 {1, 0, 0} : V3 {0, 1, 0})), v = tr::cross(z, u);
	for(auto s : {1, -1}) for(auto e = 0; e < 14; ++e) for(auto k = 0; k < 4; ++k) for(auto x : {1.0, 3.0}) {
		F a = std::pow(F(10), -e) * x / 2;
		double tol = 1 / double(std::sin(a)); // the rounding of the inputs turns the plane by that much more
		if(eps<P> * 10 * tol > 0.05) continue;
		V3 up, y; // y: the part of up that is orthogonal
		for(auto i = 0u; i < 3; ++i) {
			y[i] = std::cos(F(k * 2)) * u[i] + std::sin(F(k * 2)) * v[i];
			up[i] = s * std::cos(a) * z[i] + std::sin(a) * y[i];
		}
		M3 rows {norm(tr::cross(y, z)), norm(y), z};
		auto zp = toVec<P>(z), upp = toVec<P>(up);
		auto what = str(z) + " " + str(up);
		for(auto& pos : poss) camera("lookAt", nytl::lookAt(V3p<P> {P(pos[0]), P(pos[1]), P(pos[2])}, zp, upp), rows, pos, what, 1, tol);
		auto m3 = nytl::lookAt<3, P>(zp, upp);
		MC_CHECK(diff(m3, rows) < eps<P> * 10 * tol, "lookAt<3>(%s): %s", what.c_str(), (str<3, P>(m3).c_str()));
		MC_CHECK(rotationError(top<3, P>(m3)) < eps<P> * 10 + 1e-6 * (sizeof(P) == 4 ? 1 : 1e-9), "lookAt<3>(%s): not orthonormal: %s", what.c_str(), (str<3, P>(m3).c_str()));
		mc::eval(2);
		mc::step(5);
	}
	mc::state(5000 + mc::hashBytes(&z, sizeof(z)) + sizeof(P));
	mc::outcome(mc::hashBytes(&z, sizeof(z)));
}

} // namespace

MC_SCENARIO("base", "all directions with integer components in [-2, 2] (without sanitizers [-4, 4]); directions at angles of 10^-k around both poles; float and double", 2) {
	switch(mc::choose(4)) {
		case 0: bases<float>(); break;
		case 1: bases<double>(); break;
		case 2: poles<float>(); break;
		case 3: poles<double>(); break;
	}
}
MC_SCENARIO("orientation", "all rotations with integer components in [-1, 1] (without sanitizers [-2, 2]), 4 positions in 3 scales from 1e-6 to 1e6: both forms; float and double", 2) {
	if(mc::flip()) byQuat<double>(); else byQuat<float>();
}
MC_SCENARIO("nearly parallel", "all directions with components in [-2, 2], up vectors at angles of 10^-k to it and to its opposite, in 4 planes; float and double", 2) {
	if(mc::flip()) nearlyParallel<double>(); else nearlyParallel<float>();
}
MC_SCENARIO("direction", "all directions with components in [-2, 2], all up vectors in [-1, 1] that are not parallel (in 5 lengths from 1e-7 to 1e7), 4 positions in 3 scales; float and double", 2) {
	if(mc::flip()) byVec<double>(); else byVec<float>();
}
