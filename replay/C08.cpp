#include "mats.h"
using namespace nat;
static double angle(double t) { return t; }
static double angle(const Eigen::Array<double, 2, 1> &t) { return t[0]; }
template<int cols> static void one() {
    Problem p = randomProblem(coin(.2) ? 20 : 6, .25);
    auto &ms = *p.ms;
    double lo = p.x.front(), hi = p.x.back();
    auto point = [&](bool out) { int k = irand(0, out ? 9 : 7); return k < 3 ? uni(lo, hi) : k == 3 ? lo : k == 4 ? hi : k < 8 ? pick(p.x) : k == 8 ? lo - uni(1e-9, 2) : hi + uni(1e-9, 2); };
    double a = point(coin(.1)), b = coin(.1) ? a : point(coin(.1)), E = uni(-10, 80);
    bool use_h = coin();
    Y<double, 1, cols> y;
    for (int j = 0; j < cols; ++j) { Y<double> s = randomStart(); for (int i = 0; i < 4; ++i) y.data(i, j) = i < 2 ? s.data[i] : uni(-1, 1); }
    std::string w = Msg() << p.text() << " E=" << E << " from a=" << a << " to b=" << b << " y=" << y.data.transpose() << " columns " << cols;
    bool inside = ms.domain.contains(a) && ms.domain.contains(b), thrown = false;
    Y<double, 1, cols> r;
    Eigen::Array<double, cols, 1> th;
    try {
        auto q = ms.template propagate<cols>(E, y, a, b, use_h);
        r = q.first;
        if constexpr (cols == 1) th[0] = q.second; else th = q.second;
    } catch (std::runtime_error &) { thrown = true; }
    expect(thrown == !inside, w + (thrown ? " raises an error inside the domain" : " raises no error outside the domain"));
    if (thrown) return;
    int n = p.x.size() - 1;
    for (int c = 0; c < cols; ++c) {
        Y<double> z = y.col(c);
        double t = 0;
        bool first = true;
        auto init = [&](int i) { t = ms.sectors[i]->theta0(E, z); if (t < 0 || ((a > b || a == p.x.back()) && t == 0)) t += M_PI; };
        for (int k = 0; k < n; ++k) {
            int i = a > b ? n - 1 - k : k;
            double f = std::min(p.x[i + 1], std::max(p.x[i], a)), g = std::min(p.x[i + 1], std::max(p.x[i], b));
            if (first && p.x[i] <= a && a <= p.x[i + 1]) init(i), first = false;
            if (f == g) continue;
            auto s = ms.sectors[i]->template propagate<true>(E, z, f, g, use_h);
            z = s.first;
            t += s.second[0];
        }
        for (int i = 0; i < 4; ++i) expectClose(r.data(i, c), z.data[i], 1e-7, 1e-7 * (1 + z.data.cwiseAbs().maxCoeff()), w + " composition of the intervals");
        expectClose(th[c], t, 1e-9, 1e-9, w + " accumulated angle");
    }
}
NATIVE_SEARCH {
    while (timeLeft()) one<1>(), one<2>();
    return 0;
}
