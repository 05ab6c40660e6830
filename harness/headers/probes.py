# A use of each header whose result must not depend on what else is included.
PROBES = {
    "approx.hpp": "using namespace nytl::approxOps; return (1.0 == nytl::approx(1.0 + 1e-12)) + 2 * (nytl::approx(1.f, 0.1) != 2.f);",
    "approxVec.hpp": "using namespace nytl::approxOps; return (nytl::Vec3d {1, 2, 3} == nytl::approx(nytl::Vec3d {1, 2, 3})) + 2 * (nytl::approx(nytl::Vec2f {1, 2}) == nytl::Vec2f {1, 3});",
    "bytes.hpp": "std::vector<std::byte> b; int i = 77; nytl::write(b, nytl::bytes(i)); nytl::ReadBuf r = b; return double(b.size()) + nytl::read<int>(r);",
    "callback.hpp": "nytl::Callback<int(int)> c; c += [](int i) { return i + 1; }; c.add([](int i) { return 2 * i; }); auto v = c(5); return v.size() + v[0] + 10 * v[1];",
    "clone.hpp": "struct B : nytl::AbstractCloneable<B> { virtual int v() const = 0; }; return std::is_polymorphic_v<B>;",
    "connection.hpp": "nytl::Connection c; nytl::UniqueConnection u; return c.connected() + 2 * u.connected();",
    "flags.hpp": "enum class E { a = 1, b = 2 }; nytl::Flags<E> f = E::a; f |= E::b; return f.value();",
    "functionTraits.hpp": "return nytl::FunctionTraits<int(char, long)>::NumArgs + nytl::isCallable<int> + 2 * nytl::isCallable<int(*)()>;",
    "mat.hpp": "nytl::Mat2d m {1, 2, 3, 4}; auto r = m * m; return r[0][0] + r[1][1];",
    "matOps.hpp": "nytl::Mat2d m {1, 2, 3, 5}; return nytl::determinant(m) + nytl::inverse(m)[0][0] + nytl::transpose(m)[0][1];",
    "math.hpp": "return nytl::mix(1.0, 3.0, 0.5) + nytl::pair(3u, 4u) + nytl::mapUnsigned(-7);",
    "nonCopyable.hpp": "struct A : nytl::NonCopyable {}; struct B : nytl::NonMovable {}; return __is_constructible(A, A) + 2 * __is_constructible(B, B) + 4 * __is_constructible(A, const A&);",
    "quaternion.hpp": "auto q = nytl::Quaternion::axisAngle(0, 0, 1, 1.0); return (q * q).w + nytl::apply(q, nytl::Vec3f {1, 0, 0}).x + nytl::slerp(q, nytl::Quaternion {}, 0.5).z;",
    "rect.hpp": "nytl::Rect2i r {{1, 2}, {3, 4}}; return static_cast<nytl::Rect2d>(r).size.y;",
    "rectOps.hpp": "nytl::Rect2i r {{1, 2}, {3, 4}}; return nytl::contains(r, nytl::Vec2i {2, 3}) + nytl::size(r) + 100 * nytl::difference(r, {{2, 3}, {1, 1}}).size();",
    "recursiveCallback.hpp": "nytl::RecursiveCallback<int(int)> c; c += [](int i) { return i + 1; }; c.add([](int i) { return 2 * i; }); auto v = c(5); return v.size() + v[0] + 10 * v[1];",
    "scope.hpp": "double d = 1; { nytl::ScopeGuard g([&]{ d += 1; }); nytl::SuccessGuard h([&]{ d *= 3; }); nytl::ExceptionGuard e([&]{ d = 77; }); } return d;",
    "simplex.hpp": "nytl::Simplex<2, double, 2> t; t.points()[1] = {1, 2}; return static_cast<nytl::Simplex<3, float, 2>>(t).points()[1][1] + t.pointCount;",
    "span.hpp": "int a[] = {1, 2, 3}; nytl::span<int> s(a); return s.size() + s.last(1)[0] + (s == nytl::span<int>(a));",
    "stringParam.hpp": "nytl::StringParam p(\"abc\"); return p.size() + p.c_str()[1];",
    "tmpUtil.hpp": "return sizeof(nytl::LastType<int, char>) + nytl::templatize<int>(5);",
    "transform.hpp": "auto m = nytl::translateMat<4, double>(nytl::Vec3d {1, 2, 3}); return m[1][3] + nytl::multPos(m, nytl::Vec3d {1, 1, 1}).z + nytl::scaleMat<4, float>(nytl::Vec3f {1, 2, 3})[2][2];",
    "utf.hpp": "return nytl::charCount(\"abc\") + nytl::toUtf16(std::string(\"ab\")).size() * 10;",
    "vec.hpp": "nytl::Vec2i a {1, 2}; nytl::Vec<4, float> b {1, 2, 3, 4}; return (a + a).y + (b - b)[2] + (a == a);",
    "vec2.hpp": "nytl::Vec<2, int> a {1, 2}; return a[1] + a.x + a.size();",
    "vec3.hpp": "nytl::Vec<3, int> a {1, 2, 3}; return a[1] + a.z + a.size();",
    "vecOps.hpp": "nytl::Vec3d a {1, 2, 3}; return nytl::dot(a, a) + nytl::length(a) + nytl::cross(a, nytl::Vec3d {1, 0, 0}).y + nytl::vec::cw::max(a, nytl::Vec3d {2, 2, 2}).x;",
    "fwd.hpp": "nytl::Connection* c = nullptr; nytl::Vec2f* v = nullptr; return !c + !v;",
    "fwd/flags.hpp": "enum class E {}; nytl::Flags<E>* f = nullptr; return !f;",
    "fwd/mat.hpp": "nytl::Mat3f* m = nullptr; return !m;",
    "fwd/rect.hpp": "nytl::Rect3d* m = nullptr; return !m;",
    "fwd/simplex.hpp": "nytl::Line<2>* m = nullptr; nytl::Simplex<2>* n = nullptr; return !m + !n;",
    "fwd/span.hpp": "nytl::span<int>* m = nullptr; nytl::span<int, 3>* n = nullptr; return !m + !n;",
    "fwd/vec.hpp": "nytl::Vec2f* m = nullptr; nytl::Vec<7, int>* n = nullptr; return !m + !n;",
}
