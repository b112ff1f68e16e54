// Polynomial: every operation agrees with the polynomial function it denotes, for every degree used and all
// coefficients and arguments.
#include "vc_eigen.h"
#include "util/polynomial.h"
using namespace vc;
using matslise::Polynomial;

template<int d> static Polynomial<Sym, d> arb(const std::string &n) {
    Polynomial<Sym, d> p;
    for (int i = 0; i <= d; ++i) p[i] = Sym::var(n + std::to_string(i));
    return p;
}
// the mathematical meaning of a coefficient list, with the k-th formal derivative
template<int d> static Sym meaning(const Polynomial<Sym, d> &p, const Sym &x, int k = 0) {
    Sym r(0), pw(1);
    for (int i = k; i <= d; ++i) {
        Sym c = p[i];
        for (int j = 0; j < k; ++j) c *= Sym(i - j);
        r += c * pw;
        pw *= x;
    }
    return r;
}
template<int d> static Sym antiderivative(const Polynomial<Sym, d> &p, const Sym &x) {
    Sym r(0), pw = x;
    for (int i = 0; i <= d; ++i) {
        r += p[i] * pw / Sym(i + 1);
        pw *= x;
    }
    return r;
}
template<int d, int k> static void derivatives(const Polynomial<Sym, d> &p, const Sym &x) {
    Sym want = meaning(p, x, k);
    prove("derivative<k>(x) is the k-th derivative", eq(p.template derivative<k>(x), want));
    if constexpr (k <= d) {
        prove("derivative<k>() is the k-th derivative polynomial", eq(meaning(p.template derivative<k>(), x), want));
        prove("derivative<k>()(x) evaluates it", eq(p.template derivative<k>()(x), want));
    }
    if constexpr (k < d && k < 4) derivatives<d, k + 1>(p, x);
}
template<int d> static void unary() {
    auto p = arb<d>("p");
    Sym x = Sym::var("x"), s = Sym::var("s");
    prove("p(x) is the value of the polynomial", eq(p(x), meaning(p, x)));
    prove("-p", eq((-p)(x), -meaning(p, x)));
    prove("+p", eq((+p)(x), meaning(p, x)));
    prove("p+s", eq((p + s)(x), meaning(p, x) + s));
    prove("s+p", eq((s + p)(x), meaning(p, x) + s));
    prove("p-s", eq((p - s)(x), meaning(p, x) - s));
    prove("s-p", eq((s - p)(x), s - meaning(p, x)));
    prove("p*s", eq((p * s)(x), meaning(p, x) * s));
    prove("s*p", eq((s * p)(x), meaning(p, x) * s));
    { auto q = p; q += s; prove("p+=s", eq(q(x), meaning(p, x) + s)); }
    { auto q = p; q -= s; prove("p-=s", eq(q(x), meaning(p, x) - s)); }
    { auto q = p; q *= s; prove("p*=s", eq(q(x), meaning(p, x) * s)); }
    assume(ne(s, 0));
    prove("p/s", eq((p / s)(x), meaning(p, x) / s));
    { auto q = p; q /= s; prove("p/=s", eq(q(x), meaning(p, x) / s)); }
    derivatives<d, 0>(p, x);
    prove("integral()(x)", eq(p.integral()(x), antiderivative(p, x)));
    prove("integral(x)", eq(p.integral(x), antiderivative(p, x)));
    prove("integral()' = p", eq(p.integral().derivative(x), meaning(p, x)));
    prove("integral vanishes at 0", eq(p.integral()(Sym(0)), 0));
    Polynomial<Sym, d> c(s), z;
    prove("constant polynomial", eq(c(x), s));
    prove("default polynomial is 0", eq(z(x), 0));
    prove("size", F(p.size() == d + 1));
    Eigen::Array<Sym, d + 1, 1> arr;
    for (int i = 0; i <= d; ++i) arr[i] = Sym::var("a" + std::to_string(i));
    Polynomial<Sym, d> fromArr(arr);
    for (int i = 0; i <= d; ++i) prove("construction from coefficients", eq(fromArr[i], arr[i]));
    Polynomial<Sym, d> lst{Sym::var("l0")};
    prove("initializer list is zero padded", eq(lst(x), Sym::var("l0")));
    if constexpr (d >= 2) {
        Polynomial<Sym, d> l3{Sym::var("l0"), Sym::var("l1"), Sym::var("l2")};
        prove("initializer list keeps the order", eq(l3(x), Sym::var("l0") + Sym::var("l1") * x + Sym::var("l2") * x * x));
    }
    canary("canary: p(x) = p(0)", eq(p(x) + x, p(Sym(0))));
    cover("unary");
}
template<int a, int b> static void binary() {
    auto p = arb<a>("p");
    auto q = arb<b>("q");
    Sym x = Sym::var("x");
    Sym P = meaning(p, x), Q = meaning(q, x);
    prove("(p*q)(x) = p(x) q(x)", eq((p * q)(x), P * Q));
    prove("degree of a product", F(int(decltype(p * q)::degree) == a + b));
    prove("p+q", eq((p + q)(x), P + Q));
    prove("q+p", eq((q + p)(x), P + Q));
    prove("p-q", eq((p - q)(x), P - Q));
    prove("q-p", eq((q - p)(x), Q - P));
    if constexpr (a >= b) {
        { auto r = p; r += q; prove("p+=q", eq(r(x), P + Q)); }
        { auto r = p; r -= q; prove("p-=q", eq(r(x), P - Q)); }
        Polynomial<Sym, a> conv(q);
        prove("widening conversion", eq(conv(x), Q));
    }
}
template<int d> static void comparison() {
    // equality is coefficientwise
    auto p = arb<d>("p");
    auto q = arb<d>("q");
    bool e = (p == q);
    bool n = (p != q);
    F all(true);
    for (int i = 0; i <= d; ++i) all = all && eq(p[i], q[i]);
    prove("operator== decides equality of all coefficients", e ? all : !all);
    prove("operator!= is its negation", F(e != n));
    cover(e ? "equal" : "different");
}
VC_CASE(unary_low) { explore("d<=5", [] { unary<0>(); unary<1>(); unary<2>(); unary<3>(); unary<4>(); unary<5>(); }); }
VC_CASE(unary_high) { explore("6<=d<=12", [] { unary<6>(); unary<7>(); unary<8>(); unary<9>(); unary<10>(); unary<12>(); }); }
VC_CASE(binary) {
    explore("mixed degrees", [] {
        binary<3, 2>(); binary<2, 3>(); binary<5, 1>(); binary<4, 0>(); binary<0, 4>(); binary<8, 7>(); binary<8, 3>(); binary<10, 8>(); binary<8, 8>();
        binary<1, 0>(); binary<2, 2>();
    });
}
VC_CASE(comparison) {
    explore("== d=0", [] { comparison<0>(); });
    explore("== d=2", [] { comparison<2>(); });
    explore("== d=4", [] { comparison<4>(); });
}
