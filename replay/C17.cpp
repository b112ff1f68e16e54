#include "liou.h"
using namespace nat;
static double length(const SL &s, double a, double b) { // Simpson
    int n = 400;
    double h = (b - a) / n, r = 0;
    auto f = [&](double t) { return std::sqrt(s.w(t) / s.p(t)); };
    for (int i = 0; i < n; ++i) r += h / 6 * (f(a + i * h) + 4 * f(a + (i + .5) * h) + f(a + (i + 1) * h));
    return r;
}
static void one() {
    SL s = randomSL();
    LiouvilleTransformation<double> lt({s.lo, s.hi}, s.p, s.q, s.w);
    std::string w = s.text();
    auto &P = lt.pieces;
    expect(!P.empty(), w + " no pieces");
    expect(P.front().r.min == s.lo && P.back().r.max == s.hi, w + " the pieces do not cover the domain");
    expectClose(lt.xDomain().min, 0, 0, 1e-12, w + " x-domain start");
    expectClose(lt.xDomain().max, length(s, s.lo, s.hi), 1e-9, 1e-9, w + " x-domain end");
    for (size_t i = 0; i < P.size(); ++i) {
        expect(P[i].r.min < P[i].r.max && P[i].x.min < P[i].x.max, w + " empty piece");
        if (i) {
            expect(P[i].r.min == P[i - 1].r.max, w + " gap in r");
            expectClose(P[i].x.min, P[i - 1].x.max, 1e-12, 1e-13, w + " gap in x");
        }
    }
    double xmax = lt.xDomain().max;
    for (int i = 0; i < 40; ++i) {
        double r = coin(.3) ? (coin() ? pick(P).r.min : pick(P).r.max) : pointIn(s.lo, s.hi);
        std::string at = Msg() << w << " r=" << r;
        double x = lt.r2x(r);
        expectClose(x, length(s, s.lo, r), 1e-8, 1e-9, at + " r2x");
        if (x < 0) x = 0;
        if (x > xmax) x = xmax;
        expectClose(lt.x2r(x), r, 1e-10, 1e-10, at + " x2r(r2x(r))");
        double x2 = coin(.3) ? (coin() ? pick(P).x.min : pick(P).x.max) : uni(0, xmax);
        expectClose(lt.r2x(lt.x2r(x2)), x2, 1e-10, 1e-10, Msg() << w << " x=" << x2 << " r2x(x2r(x))");
        // V = q/w + m''/m, derivatives with respect to x
        double f = s.p(r) * s.w(r), f1 = s.p.d(r) * s.w(r) + s.p(r) * s.w.d(r), f2 = s.p.dd(r) * s.w(r) + 2 * s.p.d(r) * s.w.d(r) + s.p(r) * s.w.dd(r);
        double sp = std::sqrt(s.w(r) / s.p(r)), dsp = .5 * sp * (s.w.d(r) / s.w(r) - s.p.d(r) / s.p(r));
        double fx = f1 / sp, fxx = (f2 - fx * dsp) / (sp * sp);
        double V = s.q(r) / s.w(r) + fxx / (4 * f) - 3. / 16 * fx * fx / (f * f);
        expectClose(lt.V(x), V, 1e-4, 1e-4 * (1 + std::abs(V)), at + " transformed potential");
    }
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
