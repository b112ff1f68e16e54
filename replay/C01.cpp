#include "common.h"
#include "util/polynomial.h"
using namespace nat;
using matslise::Polynomial;

template<int d> static std::string text(const Polynomial<double, d> &p) {
    Msg m;
    m << "[";
    for (int i = 0; i <= d; ++i) m << (i ? "," : "") << p[i];
    m << "]";
    return m;
}
template<int d> static Polynomial<double, d> arb() {
    Polynomial<double, d> p;
    for (int i = 0; i <= d; ++i) p[i] = irand(-5, 5);
    return p;
}
template<int d> static double val(const Polynomial<double, d> &p, double x, int k = 0) {
    double r = 0;
    for (int i = k; i <= d; ++i) {
        double c = p[i];
        for (int j = 0; j < k; ++j) c *= i - j;
        r += c * std::pow(x, i - k);
    }
    return r;
}
template<int d, int k> static void der(const Polynomial<double, d> &p, double x) {
    expectClose(p.template derivative<k>(x), val(p, x, k), 1e-9, 1e-6, Msg() << "derivative<" << k << ">(" << x << ") of " << text(p));
    if constexpr (k <= d)
        expectClose(p.template derivative<k>()(x), val(p, x, k), 1e-9, 1e-6, Msg() << "derivative<" << k << ">()(" << x << ") of " << text(p));
    if constexpr (k < d && k < 4) der<d, k + 1>(p, x);
}
template<int d> static void un() {
    auto p = arb<d>();
    double x = irand(-3, 3), s = irand(1, 4), P = val(p, x);
    std::string t = Msg() << " p=" << text(p) << " x=" << x << " s=" << s;
    auto is = [&](double a, double b, const char *w) { expectClose(a, b, 1e-9, 1e-6, w + t); };
    is(p(x), P, "p(x)");
    is((-p)(x), -P, "-p");
    is((p + s)(x), P + s, "p+s");
    is((s + p)(x), P + s, "s+p");
    is((p - s)(x), P - s, "p-s");
    is((s - p)(x), s - P, "s-p");
    is((p * s)(x), P * s, "p*s");
    is((s * p)(x), P * s, "s*p");
    is((p / s)(x), P / s, "p/s");
    double I = 0;
    for (int i = 0; i <= d; ++i) I += p[i] * std::pow(x, i + 1) / (i + 1);
    is(p.integral()(x), I, "integral()(x)");
    is(p.integral(x), I, "integral(x)");
    der<d, 0>(p, x);
}
template<int a, int b> static void bin() {
    auto p = arb<a>();
    auto q = arb<b>();
    double x = irand(-3, 3), P = val(p, x), Q = val(q, x);
    std::string t = Msg() << " p=" << text(p) << " q=" << text(q) << " x=" << x;
    expectClose((p * q)(x), P * Q, 1e-9, 1e-6, "p*q" + t);
    expectClose((p + q)(x), P + Q, 1e-9, 1e-6, "p+q" + t);
    expectClose((p - q)(x), P - Q, 1e-9, 1e-6, "p-q" + t);
    if constexpr (a >= b) {
        auto r = p;
        r += q;
        expectClose(r(x), P + Q, 1e-9, 1e-6, "p+=q" + t);
        auto u = p;
        u -= q;
        expectClose(u(x), P - Q, 1e-9, 1e-6, "p-=q" + t);
        Polynomial<double, a> w(q);
        expectClose(w(x), Q, 1e-9, 1e-6, "widening" + t);
    }
    if constexpr (a == b) {
        expect((p == q) == (text(p) == text(q)), "==" + t);
        expect((p != q) == (text(p) != text(q)), "!=" + t);
        auto r = p;
        int i = irand(0, a);
        expect(p == r, "p==p" + t);
        r[i] += 1;
        expect(!(p == r) && p != r, "p!=p+x^i" + t);
    }
}
NATIVE_SEARCH {
    while (timeLeft() && evaluations < 400000) {
        un<0>(); un<1>(); un<2>(); un<3>(); un<4>(); un<5>(); un<8>(); un<10>();
        bin<3, 2>(); bin<2, 3>(); bin<5, 1>(); bin<4, 0>(); bin<8, 8>(); bin<10, 8>(); bin<2, 2>(); bin<0, 0>(); bin<0, 3>();
    }
    return 0;
}
