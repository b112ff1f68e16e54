#include "half.h"
#include "liou.h"
using namespace nat;
static void full() {
    Problem p = randomProblem(6, .4);
    Y<double> l = randomStart(), r = coin(.3) ? l : randomStart();
    int index = irand(0, 8);
    auto es = p.ms->eigenvaluesByIndex(index, index + 1, l, r);
    if (es.empty() || es[0].second < -30) return;
    double E = es[0].second;
    std::string w = Msg() << p.text() << " left " << l.data.transpose() << " right " << r.data.transpose() << " E " << E;
    double e = p.ms->eigenvalueError(E, l, r);
    if (!std::isfinite(e)) return;
    const AbstractMatslise<double> &a = *p.ms;
    expect(e >= 0, w + ": a negative error estimate");
    expect(p.ms->eigenvalueError(E, l, r, index) == e && a.eigenvalueError(E, l, r, index) == e && a.eigenvalueError(E, l, r) == e, w + ": the estimate depends on the call form");
    double same = p.ms->eigenvalueError(E, l, l);
    if (std::isfinite(same)) expect(a.eigenvalueError(E, l) == same && a.eigenvalueError(E, l, index) == same, w + ": the estimate with one condition");
    // the reference condition holds at that distance
    double f0, d0, best = 1e300, scale = 1;
    for (double c: {E - e, E + e}) {
        std::tie(f0, d0, std::ignore) = p.ms->matchingError(c, l, r, false);
        best = std::min(best, std::abs(f0 / d0));
        scale = std::max(scale, std::abs(c));
    }
    if (e < .1) expect(best <= 1e-6 * scale + .01 * e, Msg() << w << ": the reference formula has no eigenvalue at distance " << e << " (next one " << best << " further)");
    // zero when both agree: start from the eigenvalue of the reference formula
    double F = E;
    for (int i = 0; i < 30; ++i) { std::tie(f0, d0, std::ignore) = p.ms->matchingError(F, l, r, false); F -= f0 / d0; }
    std::tie(f0, d0, std::ignore) = p.ms->matchingError(F, l, r, false);
    if (std::abs(f0 / d0) < 1e-9) {
        expect(p.ms->eigenvalueError(F, l, r) < 1e-7 * scale, Msg() << w << ": the estimate at the eigenvalue of the reference formula is " << p.ms->eigenvalueError(F, l, r));
        if (std::abs(F - E) < .05) expectClose(e, std::abs(F - E), 1e-3, 1e-7 * scale, w + ": distance to the eigenvalue of the reference formula");
    }
}
static void halfRange() {
    HalfProblem h = randomHalf();
    int index = irand(0, 7);
    auto es = h.half->eigenvaluesByIndex(index, index + 1, h.side);
    if (es.empty() || es[0].second < -30) return;
    double E = es[0].second, e = h.half->eigenvalueError(E, h.side, index);
    std::string w = Msg() << h.text() << " E " << E << " index " << index;
    double want = h.half->ms->eigenvalueError(E, index % 2 ? Y<double>::Dirichlet() : Y<double>::Neumann(), h.side);
    const AbstractMatslise<double> &a = *h.half;
    if (!std::isfinite(e) && !std::isfinite(want)) return;
    expect(e == want, Msg() << w << ": " << e << " is not the estimate " << want << " of the half problem");
    expect(a.eigenvalueError(E, h.side, index) == e && a.eigenvalueError(E, h.side, h.side, index) == e, w + ": the estimate depends on the call form");
}
static void sl() {
    SL s = randomSL(1.5);
    SturmLiouville<double> sl(s.p, s.q, s.w, {s.lo, s.hi}, 1e-8);
    LiouvilleTransformation<double> lt({s.lo, s.hi}, s.p, s.q, s.w);
    Matslise<double> ms([&](double x) { return lt.V(x); }, lt.xDomain(), 1e-8);
    Y<double> l({0, 1}, {0, 0}), r({1, uni(-.5, .5)}, {0, 0});
    if (coin()) std::swap(l, r);
    auto L = lt.z2y(s.lo, l), R = lt.z2y(s.hi, r);
    int index = irand(0, 4);
    auto es = ms.eigenvaluesByIndex(index, index + 1, L, R);
    if (es.empty() || es[0].second < -30) return;
    double E = es[0].second, e = ms.eigenvalueError(E, L, R, index);
    expectClose(sl.eigenvalueError(E, l, r, index), e, 1e-3, 1e-9, Msg() << s.text() << " left " << l.data.transpose() << " right " << r.data.transpose() << ": error estimate");
}
NATIVE_SEARCH { while (timeLeft()) { full(); halfRange(); if (coin(.05)) sl(); } return 0; }
