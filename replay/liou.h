// Native Liouville transformations of random smooth coefficients
#pragma once
#include "mats.h"
#include "liouville/liouville.cpp"
#include "liouville/sturm_liouville.cpp"
namespace nat {
    using namespace matslise;
    struct Coefficient {
        int kind;
        double a, b;
        double operator()(double r) const { return kind == 0 ? a : kind == 1 ? a + b * r * r : kind == 2 ? a * std::exp(b * r) : a * (2 + std::sin(b * r)); }
        double d(double r) const { return kind == 0 ? 0 : kind == 1 ? 2 * b * r : kind == 2 ? a * b * std::exp(b * r) : a * b * std::cos(b * r); }
        double dd(double r) const { return kind == 0 ? 0 : kind == 1 ? 2 * b : kind == 2 ? a * b * b * std::exp(b * r) : -a * b * b * std::sin(b * r); }
        std::string text() const {
            Msg m;
            const char *f[] = {"a", "a+b*r^2", "a*exp(b*r)", "a*(2+sin(b*r))"};
            m << f[kind] << " (a=" << a << ", b=" << b << ")";
            return m;
        }
    };
    inline Coefficient randomCoefficient() { return {irand(0, 3), uni(.3, 2), uni(.1, 1)}; }
    struct SL {
        Coefficient p, q, w;
        double lo, hi;
        std::string text() const { return Msg() << "p=" << p.text() << " q=" << q.text() << " w=" << w.text() << " on [" << lo << ", " << hi << "]"; }
    };
    inline SL randomSL(double length = 2) {
        SL s{randomCoefficient(), randomCoefficient(), randomCoefficient(), uni(-1, 1), 0};
        s.hi = s.lo + uni(.3, length);
        return s;
    }
    inline double pointIn(double lo, double hi) { int k = irand(0, 6); return k == 0 ? lo : k == 1 ? hi : uni(lo, hi); }
}
