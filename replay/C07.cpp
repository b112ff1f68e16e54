#include "mats.h"
using namespace nat;
typedef Matslise<double>::Sector Sector;
template<int cols> static void one() {
    double lo = uni(-2, 2), h = std::exp(uni(-4, -1.4)), hi = lo + h;
    Potential V = randomPotential(5);
    bool back = coin();
    Problem p;
    p.V = V; p.x = {lo, hi}; p.match = 0;
    p.ms = std::make_unique<Matslise<double>>(V, lo, hi, 1e-9, Mesh(p.x, 0));
    Sector &s = *p.ms->sectors[0];
    if (back) s.setDirection(Direction::backward);
    auto point = [&] { switch (irand(0, 5)) { case 0: return lo; case 1: return hi; case 2: return lo - uni(0, 2); case 3: return hi + uni(0, 2); default: return uni(lo, hi); } };
    auto clamp = [&](double x) { return std::min(hi, std::max(lo, x)); };
    double a = point(), b = point(), c = point(), E = uni(-30, 60);
    bool use_h = coin();
    Y<double, 1, cols> y, z;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < cols; ++j) y.data(i, j) = uni(-2, 2), z.data(i, j) = uni(-2, 2);
    std::string w = Msg() << V.text() << " interval [" << lo << "," << hi << "] " << (back ? "backward" : "forward") << " E=" << E << " a=" << a << " b=" << b << " c=" << c << " use_h=" << use_h << " columns " << cols;
    auto flow = [&](const Y<double, 1, cols> &v, double from, double to) { return s.template propagate<false>(E, v, from, to, use_h); };
    auto r = flow(y, a, b);
    auto rp = s.template propagate<true>(E, y, a, b, use_h).first;
    auto T = [&](double x) { double d = back ? hi - clamp(x) : clamp(x) - lo; return s.calculateT(E, d, use_h); };
    double sc = std::exp(std::sqrt(std::max(0., 6 * 5. - E)) * h * 2) * 20 * (1 + std::abs(E));
    double tol = 1e-12 * sc;
    // the solution through the clamped points, by the matrices of the interval
    auto Ta = T(a), Tb = T(b);
    Eigen::Matrix2d ia; ia << Ta.t(1, 1), -Ta.t(0, 1), -Ta.t(1, 0), Ta.t(0, 0);
    Eigen::Matrix<double, 2, cols> yy = y.y();
    if (back) yy.row(1) *= -1;
    Eigen::Matrix<double, 2, cols> e = Tb.t * (ia * yy);
    if (back) e.row(1) *= -1;
    double scE = 1 + std::sqrt(std::abs(E));
    for (int i = 0; i < 2; ++i) for (int j = 0; j < cols; ++j) {
        if (clamp(a) != clamp(b)) expectClose(r.data(i, j), e(i, j), 0, tol, w + " propagation over the clamped interval");
        expectClose(rp.data(i, j), r.data(i, j), 0, 0, w + " with and without the angle");
    }
    auto ab = flow(r, b, a);
    bool same = clamp(a) == clamp(b);
    auto loose = 1e-9 * sc + 1e4 * std::pow(h, 11) * scE;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < cols; ++j) {
        expectClose(ab.data(i, j), y.data(i, j), 0, same ? 1e-14 : loose, w + " there and back");
        if (same) expectClose(r.data(i, j), y.data(i, j), 0, 1e-11 * sc, w + " equal clamped points");
    }
    auto acb = flow(flow(y, a, c), c, b);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < cols; ++j) expectClose(acb.data(i, j), r.data(i, j), 0, loose, w + " a stop at c");
    auto q = flow(z, a, b);
    for (int j = 0; j < cols; ++j)
        expectClose(r.data(0, j) * q.data(1, j) - r.data(1, j) * q.data(0, j), y.data(0, j) * z.data(1, j) - y.data(1, j) * z.data(0, j), 0, loose * scE * 5, w + " Wronskian");
    s.setDirection(back ? Direction::forward : Direction::backward);
    auto o = s.template propagate<false>(E, y, a, b, use_h);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < cols; ++j) expectClose(o.data(i, j), r.data(i, j), 0, loose, w + " the other direction of the interval");
}
NATIVE_SEARCH {
    while (timeLeft()) one<1>(), one<2>();
    return 0;
}
