"""C44: which uses of the library compile. Every case of the tables is compiled
against the current headers: a use that is allowed has to compile, a use that
the types can rule out must not. The tables are generated from rules (which
element types and extents convert, which dimensions match, ...), not from the
code."""
import itertools, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from ..headers.check import Run as Base, STD


class Run(Base):
    """Compiles (without running) the texts of a case."""
    pre = []

    def precompile(self, headers):
        """Includes all headers of a group beforehand: only saves time."""
        h = os.path.join(self.wd, "group%d.hpp" % next(self.n))
        open(h, "w").write(program(headers, [])[:-len("int main() {}\n")])
        r = subprocess.run(STD + ["-I" + self.repo, "-x", "c++-header", h, "-o", h + ".gch"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.pre = ["-include", h] if r.returncode == 0 else []

    def compile(self, texts, link):
        f = os.path.join(self.wd, "tu%d.cpp" % next(self.n))
        open(f, "w").write(texts[0])
        r = subprocess.run(STD + ["-I" + self.repo] + self.pre + ["-fsyntax-only", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, LC_ALL="C"))
        os.unlink(f)
        return r.returncode, r.stdout, None


def span_cases():
    # name, declaration, expression, element type, const, extent (None: dynamic), writable source
    sources = [
        ("int[3]", "int s[3] {};", "s", "int", False, 3),
        ("const int[3]", "const int s[3] {};", "s", "int", True, 3),
        ("array<int, 3>", "std::array<int, 3> s {};", "s", "int", False, 3),
        ("const array<int, 3>", "const std::array<int, 3> s {};", "s", "int", True, 3),
        ("vector<int>", "std::vector<int> s(3);", "s", "int", False, None),
        ("const vector<int>", "const std::vector<int> s(3);", "s", "int", True, None),
        ("temporary vector<int>", "", "std::vector<int>(3)", "int", True, None),
        ("initializer_list<int>", "std::initializer_list<int> s {1, 2, 3};", "s", "int", True, None),
        ("span<int>", "int m[3] {}; nytl::span<int> s(m);", "s", "int", False, None),
        ("span<const int>", "int m[3] {}; nytl::span<const int> s(m);", "s", "int", True, None),
        ("const span<int>", "int m[3] {}; const nytl::span<int> s(m);", "s", "int", False, None),
        ("span<int, 3>", "int m[3] {}; nytl::span<int, 3> s(m);", "s", "int", False, 3),
        ("span<const int, 3>", "int m[3] {}; nytl::span<const int, 3> s(m);", "s", "int", True, 3),
        ("span<int, 2>", "int m[2] {}; nytl::span<int, 2> s(m);", "s", "int", False, 2),
        ("array<int, 4>", "std::array<int, 4> s {};", "s", "int", False, 4),
        ("vector<double>", "std::vector<double> s(3);", "s", "double", False, None),
        ("array<double, 3>", "std::array<double, 3> s {};", "s", "double", False, 3),
        ("span<double>", "double m[3] {}; nytl::span<double> s(m);", "s", "double", False, None),
        ("vector<unsigned>", "std::vector<unsigned> s(3);", "s", "unsigned", False, None),
        ("derived[3]", "Derived s[3] {};", "s", "Derived", False, 3),
        ("vector<derived>", "std::vector<Derived> s(3);", "s", "Derived", False, None),
        ("span<derived>", "Derived m[3] {}; nytl::span<Derived> s(m);", "s", "Derived", False, None),
        ("string", "std::string s(\"abc\");", "s", "char", False, None),
        ("string_view", "std::string_view s(\"abc\");", "s", "char", True, None),
        ("set<int>", "std::set<int> s;", "s", None, True, None),
        ("vector<bool>", "std::vector<bool> s(3);", "s", None, True, None),
        ("int", "int s {};", "s", None, False, None),
    ]
    views = [("span<int>", "int", False, None), ("span<const int>", "int", True, None), ("span<int, 3>", "int", False, 3),
             ("span<const int, 3>", "int", True, 3), ("span<const double>", "double", True, None), ("span<Base>", "Base", False, None),
             ("span<const Base>", "Base", True, None), ("span<char>", "char", False, None), ("span<const char>", "char", True, None)]
    pre = "struct Base { int a; }; struct Derived : Base { int b; };\n"
    for (sn, decl, ex, el, const, ext), (vn, vel, vconst, vext) in itertools.product(sources, views):
        ok = el == vel and (vconst or not const) and (ext is None or vext is None or ext == vext)
        yield ("%s of %s" % (vn, sn), pre, "%s nytl::%s v(%s); (void) v.size();" % (decl, vn, ex), ok)
        if not ok and el == vel:  # also not as an argument
            yield ("%s parameter for %s" % (vn, sn), pre + "void f(nytl::%s);\n" % vn, "%s f(%s);" % (decl, ex), False)
    # slices keep the constness
    for n, e in [("first", "first(1)"), ("last", "last(1)"), ("subspan", "subspan(1)"), ("subspan", "subspan(1, 1)"),
                 ("static first", "first<1>()"), ("static last", "last<1>()"), ("static subspan", "subspan<1>()"), ("static subspan", "subspan<1, 1>()")]:
        d = "int m[3] {}; nytl::span<%sint> s(m); "
        yield (n + " of span<int> is writable", "", d % "" + "s.%s[0] = 1;" % e, True)
        yield (n + " of span<const int> is readable", "", d % "const " + "(void) s.%s[0];" % e, True)
        yield (n + " of span<const int> is not writable", "", d % "const " + "s.%s[0] = 1;" % e, False)
    for e in ["s[0]", "s(0)", "*s.begin()", "*s.data()", "s.front()", "s.back()", "*s.rbegin()", "*(s.end() - 1)"]:
        d = "int m[3] {}; const nytl::span<%sint> s(m); "
        yield (e + " of span<int>", "", d % "" + e + " = 1;", True)
        yield (e + " of span<const int>", "", d % "const " + "(void) " + e + ";", True)
        yield (e + " of span<const int> written", "", d % "const " + e + " = 1;", False)
    for e in ["*s.cbegin()", "*(s.cend() - 1)", "*s.crbegin()", "nytl::as_bytes(s)[0]"]:
        yield (e + " read", "", "int m[3] {}; nytl::span<int> s(m); (void) " + e + ";", True)
        yield (e + " written", "", "int m[3] {}; nytl::span<int> s(m); %s = {};" % e, False)
    yield ("writable bytes of span<int>", "", "int m[3] {}; nytl::as_writeable_bytes(nytl::span<int>(m))[0] = {};", True)
    yield ("writable bytes of span<const int>", "", "int m[3] {}; nytl::as_writeable_bytes(nytl::span<const int>(m));", False)


def bytes_cases():
    pre = ("struct Pod { int a; char b[3]; }; struct Mixed { int a; private: int b; }; struct Virt { virtual void f() {} int a; };\n"
           "struct Owner { std::unique_ptr<int> p; }; struct Copy { Copy() {} Copy(const Copy&) {} int a; };\n"
           "struct Split0 { int a; }; struct Split : Split0 { int b; }; enum class En { a };\n")
    types = [("int", "{}", True), ("double", "{}", True), ("En", "{}", True), ("Pod", "{}", True), ("std::byte", "{}", True), ("nytl::Vec3f", "{}", True),
             ("std::array<int, 3>", "{}", True), ("std::string", "", False), ("Mixed", "", False), ("Virt", "", False), ("Owner", "", False),
             ("Copy", "", False), ("Split", "", False), ("std::unique_ptr<int>", "", False), ("std::function<void()>", "", False),
             ("std::initializer_list<std::string>", "", False), ("nytl::span<std::string>", "", False),
             ("std::vector<std::string>", "(2)", False), ("std::vector<Virt>", "(2)", False), ("std::vector<bool>", "(2)", False),
             ("std::map<int, int>", "", False)]
    R, W, D = "std::byte mem[64] {}; nytl::ReadBuf r(mem);", "std::byte mem[64] {}; nytl::WriteBuf w(mem);", "nytl::DynWriteBuf d;"
    for t, init, ok in types:
        decl = "%s v%s; const auto& c = v; (void) c; " % (t, init)
        yield ("bytes of " + t, pre, decl + "nytl::WriteBuf b = nytl::bytes(v);", ok)
        yield ("bytes of const " + t, pre, decl + "nytl::ReadBuf b = nytl::bytes(c);", ok)
        yield ("writable bytes of const " + t, pre, decl + "nytl::WriteBuf b = nytl::bytes(c);", False)
        yield ("write " + t, pre, decl + W + "nytl::write(w, c);", ok)
        yield ("write dynamic " + t, pre, decl + D + "nytl::write(d, c);", ok)
        yield ("read into " + t, pre, decl + R + "nytl::read(r, v);", ok)
        yield ("read into const " + t, pre, decl + R + "nytl::read(r, c);", False)
        if "list" not in t and "span" not in t:
            vec = t.startswith("std::vector")
            yield ("read " + t, pre, R + "auto v = nytl::read<%s>(r);" % t, ok and not vec)
            yield ("copy " + t, pre, R + "auto v = nytl::copy<%s>(r);" % t, ok and not vec)
            yield ("copyExact " + t, pre, R + "auto v = nytl::copyExact<%s>(r);" % t, ok and not vec)
    for t, ok in [("int", True), ("Pod", True), ("std::string", False), ("Virt", False)]:
        yield ("bytes of vector<%s>" % t, pre, "std::vector<%s> v(2); nytl::WriteBuf b = nytl::bytes(v);" % t, ok)
        yield ("bytes of const vector<%s>" % t, pre, "const std::vector<%s> v(2); nytl::ReadBuf b = nytl::bytes(v);" % t, ok)
        yield ("bytes of span<%s>" % t, pre, "std::vector<%s> v(2); nytl::WriteBuf b = nytl::bytes(nytl::span<%s>(v));" % (t, t), ok)
        yield ("bytes of span<const %s>" % t, pre, "std::vector<%s> v(2); nytl::ReadBuf b = nytl::bytes(nytl::span<const %s>(v));" % (t, t), ok)
        yield ("writable bytes of span<const %s>" % t, pre, "std::vector<%s> v(2); nytl::WriteBuf b = nytl::bytes(nytl::span<const %s>(v));" % (t, t), False)
    # spans (of any extent) stand for their elements, never for themselves; specialized types are prohibited
    for t, ok in [("int", True), ("Pod", True), ("nytl::Vec3f", True), ("std::string", False), ("Virt", False), ("Owner", False), ("Never", False),
                  ("std::initializer_list<int>", False), ("nytl::span<int>", False)]:
        for n in ("", ", 2"):
            for q in ("", "const "):
                s, decl = "nytl::span<%s%s%s>" % (q, t, n), "std::array<%s, 2> a {}; nytl::span<%s%s%s> v(a); const auto& c = v; (void) c; " % (t, q, t, n)
                yield ("bytes of " + s, pre, decl + "nytl::ReadBuf b = nytl::bytes(v);", ok)
                yield ("bytes of const " + s, pre, decl + "nytl::ReadBuf b = nytl::bytes(c);", ok)
                yield ("writable bytes of " + s, pre, decl + "nytl::WriteBuf b = nytl::bytes(v);", ok and not q)
                yield ("write " + s, pre, decl + W + "nytl::write(w, v);", ok)
                yield ("write dynamic " + s, pre, decl + D + "nytl::write(d, c);", ok)
                yield ("read into " + s, pre, decl + R + "nytl::read(r, v);", ok and not q)
                if n:
                    for e in ("read", "copy", "copyExact"): yield (e + " " + s, pre, R + "auto v = nytl::%s<%s>(r);" % (e, s), False)
    for e in ("nytl::bytes(v);", W + "nytl::write(w, v);", R + "nytl::read(r, v);", R + "auto x = nytl::read<Never>(r);", R + "auto x = nytl::copy<Never>(r);",
              R + "auto x = nytl::copyExact<Never>(r);"):
        yield ("prohibited type: " + e, pre, "Never v {}; " + e, False)
    yield ("write buffer as read buffer", pre, W + "nytl::ReadBuf b = w;", True)
    yield ("read buffer as write buffer", pre, R + "nytl::WriteBuf b = r;", False)
    yield ("write to a read buffer", pre, R + "nytl::write(r, 1);", False)
    yield ("copy to a write buffer", pre, R + W.replace("mem", "mem2") + "nytl::copy(r, w);", True)
    yield ("copy to a read buffer", pre, R + "nytl::copy(r, r);", False)
    yield ("skip const", pre, "std::byte mem[64] {}; const nytl::ReadBuf r(mem); nytl::skip(r, 1);", False)


def vec_cases():
    D = range(1, 5)
    for a, b in itertools.product(D, D):
        d = "nytl::Vec<%d, float> a {}; nytl::Vec<%d, float> b {}; " % (a, b)
        s = a == b
        dims = " of %d and %d dimensions" % (a, b)
        for n, e in [("+", "(void)(a + b);"), ("-", "(void)(a - b);"), ("==", "(void)(a == b);"), ("+=", "a += b;"), ("-=", "a -= b;"),
                     ("dot", "(void) nytl::dot(a, b);"), ("distance", "(void) nytl::distance(a, b);"), ("angle", "(void) nytl::angle(a, b);"),
                     ("assignment", "a = b;"), ("initialization", "nytl::Vec<%d, float> c = b; (void) c;" % a),
                     ("cw max", "(void) nytl::vec::cw::max(a, b);"), ("cw multiply", "(void) nytl::vec::cw::multiply(a, b);")]:
            yield (n + dims, "", d + e, s)
        if (a, b) in [(3, 3), (3, 4), (4, 3), (2, 3), (3, 2)]:
            yield ("cross" + dims, "", d + "(void) nytl::cross(a, b);", s and a == 3)
        yield ("explicit conversion" + dims, "", d + "(void) static_cast<nytl::Vec<%d, float>>(b);" % a, True)
    yield ("Vec2i from Vec2f", "", "nytl::Vec2f a {}; nytl::Vec2i b = a;", False)
    yield ("Vec2i from Vec2f, explicit", "", "nytl::Vec2f a {}; auto b = nytl::Vec2i(a); (void) b;", True)
    for t in ["Vec2f", "Vec3f", "Vec4i"]:
        for e in ["v[0]", "v.front()", "v.back()", "*v.begin()", "*v.data()"] + ([] if t == "Vec4i" else ["v.x", "v.y"]):
            yield ("%s of %s written" % (e, t), "", "nytl::%s v {}; %s = 1;" % (t, e), True)
            yield ("%s of const %s read" % (e, t), "", "const nytl::%s v {}; (void) (%s);" % (t, e), True)
            yield ("%s of const %s written" % (e, t), "", "const nytl::%s v {}; %s = 1;" % (t, e), False)
    for n, e in [("+=", "v += w;"), ("-=", "v -= w;"), ("*=", "v *= 2;"), ("normalize", "nytl::normalize(v);")]:
        yield (n, "", "nytl::Vec3f v {1, 2, 3}, w {}; (void) w; " + e, True)
        yield (n + " on const", "", "const nytl::Vec3f v {1, 2, 3}, w {}; (void) w; " + e, False)


def mat_cases():
    S = range(1, 4)
    for r, c, k, l in itertools.product(S, S, S, S):
        d = "nytl::Mat<%d, %d, float> a {}; nytl::Mat<%d, %d, float> b {}; " % (r, c, k, l)
        n = " of %dx%d and %dx%d" % (r, c, k, l)
        yield ("product" + n, "", d + "nytl::Mat<%d, %d, float> p = a * b; (void) p;" % (r, l), c == k)
        if (r, c, k, l) == (r, c, r, c) or r == l or c == k:
            s = (r, c) == (k, l)
            for o, e in [("+", "(void)(a + b);"), ("-", "(void)(a - b);"), ("+=", "a += b;"), ("-=", "a -= b;"), ("==", "(void)(a == b);"), ("assignment", "a = b;")]:
                yield (o + n, "", d + e, s)
    for r, c in itertools.product(S, S):
        d = "nytl::Mat<%d, %d, double> m {}; " % (r, c)
        n = " of %dx%d" % (r, c)
        sq = r == c
        for o, e in [("determinant", "(void) nytl::determinant(m);"), ("inverse", "(void) nytl::inverse(m);"), ("LU", "(void) nytl::luDecomp(m);"),
                     ("identity", "nytl::identity(m);"), ("trace", "(void) nytl::trace(m);"), ("symmetric", "(void) nytl::symmetric(m);")]:
            if o not in ("identity", "trace", "symmetric"):
                yield (o + n, "", d + e, sq)
            elif sq:
                yield (o + n, "", d + e, True)
        yield ("transpose" + n, "", d + "nytl::Mat<%d, %d, double> t = nytl::transpose(m); (void) t;" % (c, r), True)
        if not sq:
            yield ("transpose%s of the wrong size" % n, "", d + "nytl::Mat<%d, %d, double> t = nytl::transpose(m); (void) t;" % (r, c), False)
        for v in S:
            yield ("product%s with %d components" % (n, v), "", d + "nytl::Vec<%d, double> v {}; nytl::Vec<%d, double> p = m * v; (void) p;" % (v, r), v == c)
        yield ("element of const" + n, "", "const nytl::Mat<%d, %d, double> m {}; (void) m[0][0];" % (r, c), True)
        yield ("element written" + n, "", d + "m[0][0] = 1;", True)
        yield ("element of const written" + n, "", "const nytl::Mat<%d, %d, double> m {}; m[0][0] = 1;" % (r, c), False)


def other_cases():
    for a, b in itertools.product(range(1, 4), repeat=2):
        d = "nytl::Rect<%d, float> a {}; nytl::Rect<%d, float> b {}; nytl::Vec<%d, float> v {}; (void) v; (void) b; " % (a, b, b)
        n = " of %d and %d dimensions" % (a, b)
        for o, e in [("intersects", "(void) nytl::intersects(a, b);"), ("intersection", "(void) nytl::intersection(a, b);"), ("difference", "(void) nytl::difference(a, b);"),
                     ("contains point", "(void) nytl::contains(a, v);"), ("== ", "(void)(a == b);"), ("assignment", "a = b;")]:
            yield ("rect " + o + n, "", d + e, a == b)
    for D, A in itertools.product(range(1, 5), repeat=2):
        yield ("Simplex of %d points in %d dimensions" % (A + 1, D), "", "nytl::Simplex<%d, double, %d> s {}; (void) s;" % (D, A), A <= D)
    for t, ok in [("float", True), ("double", True), ("int", False), ("unsigned", False), ("bool", False)]:
        yield ("approx of " + t, "", "(void) (%s {1} == nytl::approx(%s {1}));" % (t, t), ok)
    pre = ("enum class A { a = 1, b = 2 }; enum class B { a = 1 }; NYTL_FLAG_OPS(A) NYTL_FLAG_OPS(B)\n")
    for n, e, ok in [("from its enum", "nytl::Flags<A> f = A::a; (void) f;", True), ("from another enum", "nytl::Flags<A> f = B::a; (void) f;", False),
                     ("from int", "nytl::Flags<A> f = 1; (void) f;", False), ("from other flags", "nytl::Flags<B> g = B::a; nytl::Flags<A> f = g; (void) f;", False),
                     ("|= enum", "nytl::Flags<A> f; f |= A::b;", True), ("|= other enum", "nytl::Flags<A> f; f |= B::a;", False), ("|= int", "nytl::Flags<A> f; f |= 1;", False),
                     ("&= other enum", "nytl::Flags<A> f; f &= B::a;", False), ("^= other enum", "nytl::Flags<A> f; f ^= B::a;", False),
                     ("|= other flags", "nytl::Flags<A> f; nytl::Flags<B> g; f |= g;", False), ("|= on const", "const nytl::Flags<A> f; f |= A::b;", False),
                     ("of two enum values", "nytl::Flags<A> f = A::a | A::b; (void) f;", True), ("of values of two enums", "nytl::Flags<A> f = A::a | B::a; (void) f;", False)]:
        yield ("Flags " + n, pre, e, ok)
    for c, n, e, ok in [("char", "const char*", "const char* s = \"a\";", True), ("char", "literal", "const auto& s = \"abc\";", True), ("char", "string", "std::string s;", True),
                        ("char", "const string", "const std::string s;", True), ("char", "string_view", "std::string_view s(\"abc\", 2);", False),
                        ("char", "vector<char>", "std::vector<char> s(2);", False), ("char", "span<char>", "char m[2] {}; nytl::span<char> s(m);", False), ("char", "char", "char s = 'a';", False),
                        ("char", "u16string", "std::u16string s;", False), ("char16_t", "u16string", "std::u16string s;", True), ("char16_t", "string", "std::string s;", False),
                        ("char16_t", "u16string_view", "std::u16string_view s(u\"ab\", 1);", False), ("char32_t", "u32string", "std::u32string s;", True),
                        ("char32_t", "u32string_view", "std::u32string_view s(U\"ab\", 1);", False), ("char32_t", "u16string", "std::u16string s;", False)]:
        yield ("StringParam<%s> of %s" % (c, n), "", e + " nytl::BasicStringParam<%s> p = s; (void) p;" % c, ok)
        yield ("StringParam<%s> argument %s" % (c, n), "void f(nytl::BasicStringParam<%s>);\n" % c, e + " f(s);", ok)
    yield ("StringParam written", "", "nytl::StringParam p(\"abc\"); (void) p[0];", True)
    yield ("StringParam written", "", "nytl::StringParam p(\"abc\"); const_cast<const nytl::StringParam&>(p)[0] = 'a';", False)
    yield ("c_str of StringParam is const", "", "nytl::StringParam p(\"abc\"); char* c = p.c_str(); (void) c;", False)


def callback_cases():
    for C in ["Callback", "RecursiveCallback", "TrackedCallback", "TrackedRecursiveCallback"]:
        d = "nytl::%s<int(int, std::string&)> cb; std::string s; (void) s; " % C
        rec = "Recursive" in C
        for n, e, ok in [("matching function", "cb.add([](int, std::string&) { return 1; });", True),
                         ("function with convertible parameters", "cb.add([](long, const std::string&) { return 1.5; });", True),
                         ("generic function", "cb.add(std::function<int(int, std::string&)>([](auto, auto&) { return 1; }));", True),
                         ("too few parameters", "cb.add([](int) { return 1; });", False), ("too many parameters", "cb.add([](int, std::string&, int) { return 1; });", False),
                         ("other parameter", "cb.add([](int, int) { return 1; });", False), ("rvalue parameter", "cb.add([](int, std::string&&) { return 1; });", False),
                         ("no result", "cb.add([](int, std::string&) {});", False), ("other result", "cb.add([](int, std::string&) { return std::string(); });", False),
                         ("no function", "cb.add(5);", False), ("+= other parameter", "cb += [](int, int) { return 1; };", False), ("= other parameter", "cb = [](int, int) { return 1; };", False),
                         ("+= function", "cb += [](int, std::string&) { return 1; };", True), ("= function", "cb = [](int, std::string&) { return 1; };", True),
                         ("connection parameter", "cb.add([](nytl::%s<int(int, std::string&)>::Connection, int, std::string&) { return 1; });" % C, rec),
                         ("call", "std::vector<int> r = cb.call(1, s); (void) r;", True), ("call operator", "std::vector<int> r = cb(1, s); (void) r;", True),
                         ("call with too few arguments", "cb.call(1);", False), ("call with too many arguments", "cb.call(1, s, 2);", False),
                         ("call with temporary for reference", "cb.call(1, std::string());", False), ("call with const for reference", "const std::string t; cb.call(1, t);", False),
                         ("call const", "const auto& c = cb; c.call(1, s);", False), ("add to const", "const auto& c = cb; c.add([](int, std::string&) { return 1; });", False),
                         ("copy", "auto c = cb; (void) c;", False), ("move", "auto c = std::move(cb); (void) c;", False),
                         ]:
            yield ("%s: %s" % (C, n), "", d + e, ok)
        tr = "Tracked" in C
        for n, t in [("Connection", False), ("TrackedConnection", True)]:
            yield ("%s: %s" % (C, n), "", d + "nytl::%s c = cb.add([](int, std::string&) { return 1; }); (void) c;" % n, t == tr)
            yield ("%s: %s" % (C, n.replace("Connection", "UniqueConnection")), "", d + "nytl::%s c(cb.add([](int, std::string&) { return 1; })); (void) c;" %
                   n.replace("Connection", "UniqueConnection"), t == tr)
    for n in ["UniqueConnection", "TrackedUniqueConnection"]:
        d = "nytl::%s a, b; (void) b; " % n
        c = n.replace("Unique", "")
        yield (n + " moved", "", d + "a = std::move(b); auto c = std::move(a); (void) c;", True)
        yield (n + " copied", "", d + "auto c = a; (void) c;", False)
        yield (n + " copy assigned", "", d + "a = b;", False)
        yield (n + " released", "", d + "nytl::%s c = a.release(); (void) c;" % c, True)
        yield (n + " to connection", "", d + "nytl::%s c = a; (void) c;" % c, False)
    g = "auto f = []{}; "
    for n, e, ok in [("function", "nytl::ScopeGuard g(f);", True), ("temporary", "nytl::ScopeGuard g([]{});", True), ("success", "nytl::SuccessGuard g(f);", True),
                     ("exception", "nytl::ExceptionGuard g(f);", True), ("never", "nytl::ScopeGuard<decltype(f), false, false> g(std::move(f));", False),
                     ("copied", "nytl::ScopeGuard g(f); auto h = g;", False), ("moved", "nytl::ScopeGuard g(f); auto h = std::move(g);", False),
                     ("assigned", "nytl::ScopeGuard<decltype(f)&> g(f), h(f); g = std::move(h);", False), ("with parameter", "nytl::ScopeGuard g([](int) {});", False)]:
        yield ("ScopeGuard " + n, "", g + e, ok)
    pre = ("struct C : nytl::Cloneable<C> { int v {}; }; struct D : nytl::DeriveCloneable<D, C> {}; struct M : nytl::CloneMovable<M> { std::unique_ptr<int> p; };\n"
           "struct A : nytl::AbstractCloneable<A> { virtual void f() = 0; }; struct AI : nytl::DeriveCloneable<AI, A> { void f() override {} }; struct N { int v; };\n"
           "struct AM : nytl::AbstractCloneMovable<AM> { virtual void f() = 0; }; struct AMI : nytl::DeriveCloneMovable<AMI, AM> { std::unique_ptr<int> p; void f() override {} };\n")
    for n, e, ok in [("clone", "C c; std::unique_ptr<C> p = nytl::clone(c); (void) p;", True), ("clone const", "const C c; auto p = nytl::clone(c); (void) p;", True),
                     ("cloneMove", "C c; std::unique_ptr<C> p = nytl::cloneMove(c); (void) p;", True), ("cloneMove const", "const C c; auto p = nytl::cloneMove(c); (void) p;", False),
                     ("clone derived", "D c; C& b = c; std::unique_ptr<C> p = nytl::clone(b); (void) p;", True), ("cloneMove move-only", "M c; std::unique_ptr<M> p = nytl::cloneMove(c); (void) p;", True),
                     ("clone move-only", "M c; auto p = nytl::clone(c); (void) p;", False), ("clone through interface", "AI c; A& b = c; std::unique_ptr<A> p = nytl::clone(b); (void) p;", True),
                     ("clone move-only through interface", "AMI c; AM& b = c; auto p = nytl::clone(b); (void) p;", False),
                     ("cloneMove move-only through interface", "AMI c; AM& b = c; auto p = nytl::cloneMove(b); (void) p;", True),
                     ("clone not cloneable", "N c {}; auto p = nytl::clone(c); (void) p;", False), ("cloneMove not cloneable", "N c {}; auto p = nytl::cloneMove(c); (void) p;", False),
                     ("clone temporary by cloneMove", "auto p = nytl::cloneMove(C()); (void) p;", False), ("doClone from outside", "C c; delete static_cast<C*>(c.doClone());", False),
                     ("doCloneMove from outside", "C c; delete static_cast<C*>(c.doCloneMove());", False)]:
        yield ("Cloneable: " + n, pre, e, ok)


STDH = "#include <array>\n#include <vector>\n#include <string>\n#include <string_view>\n#include <set>\n#include <map>\n#include <memory>\n#include <functional>\n#include <initializer_list>\n#include <cstddef>\n#include <utility>\n"
GROUPS = [
    ("span", "span.hpp", span_cases, "27 sources and 9 views, element access and slices of views of const and mutable elements"),
    ("bytes", "bytes.hpp vec.hpp", bytes_cases, "21 types, 10 operations on byte buffers, const and mutable; spans of fixed and dynamic extent of 9 types; prohibited types"),
    ("vec", "vec.hpp vec2.hpp vec3.hpp vecOps.hpp", vec_cases, "all pairs of dimensions 1 to 4, 13 operations; access to const vectors"),
    ("mat", "mat.hpp matOps.hpp", mat_cases, "all pairs of shapes up to 3x3, products, sums, comparisons, square operations, vectors; access to const matrices"),
    ("other", "rect.hpp rectOps.hpp simplex.hpp approx.hpp flags.hpp stringParam.hpp span.hpp", other_cases, "rects of all pairs of dimensions 1 to 3, simplices, approx, flags, string parameters"),
    ("callback", "callback.hpp recursiveCallback.hpp connection.hpp scope.hpp clone.hpp", callback_cases, "functions, arguments and connections of 4 callback classes, handles, guards and cloneable classes"),
]


def program(headers, cases):
    s = STDH + "".join("#include <nytl/%s>\n" % h for h in headers.split())
    if "bytes.hpp" in headers:
        s += "#ifndef NEVER\n#define NEVER\nstruct Never { int a; };\nnamespace nytl { template<> struct ProhibitByteConversion<Never> : std::true_type {}; }\n#endif\n"
    for i, (name, pre, body, ok) in enumerate(cases):
        s += "// %s\nnamespace c%d {\n%svoid test() { %s }\n}\n" % (name, i, pre, body)
    return s + "int main() {}\n"


def run(tier, repo, wd):
    """Returns (scenario results, violation or None)."""
    r = Run(repo, wd)
    results, violation = [], None
    for name, headers, gen, bounds in GROUPS:
        t0 = time.time()
        cases = list(gen())
        r.precompile(headers)
        good, bad = [c for c in cases if c[3]], [c for c in cases if not c[3]]
        n = 8 if tier == "quick" else 1  # allowed uses are compiled several at a time
        jobs = [([c], False) for c in bad] + [(good[i:i + n], True) for i in range(0, len(good), n)]
        samples, done = [], 0
        with ThreadPoolExecutor(8) as pool:
            for (cs, ok), res in zip(jobs, pool.map(lambda j: r.compile([program(headers, j[0])], False), jobs)):
                if violation:
                    continue
                if len(samples) < 3:
                    samples.append({"choices": cs[0][0], "text": cs[0][1] + cs[0][2], "compiled": res[0] == 0})
                if ok and res[0] != 0 and len(cs) > 1:  # find the one
                    for c in cs:
                        one = r.compile([program(headers, [c])], False)
                        if one[0] != 0:
                            cs, res = [c], one
                            break
                if (res[0] == 0) != ok:
                    violation = {"message": "%s: %s" % (cs[0][0], "does not compile but should" if ok else "compiles but should not"), "log": res[1][:4000],
                                 "texts": [program(headers, cs)], "link": False, "accept": ok}
                done += len(cs)
        results.append({"name": name, "bounds": "%s: %d uses that have to compile, %d that must not" % (bounds, len(good), len(bad)), "build": "syntax", "executions": done, "steps": done,
                        "evaluations": 0, "states": len(cases), "states_dropped": 0, "outcomes": 2, "max_choices": 2, "exhaustive": violation is None,
                        "wall_s": round(time.time() - t0, 3), "samples": samples})
        if violation:
            break
    return results, violation
