#include "mats.h"
using namespace nat;
static void one() {
    Problem p = randomProblem(5, .4, 2);
    Y<double> l = randomStart(), r = randomStart();
    std::string w = Msg() << p.text() << " left " << l.data[0] << "," << l.data[1] << " right " << r.data[0] << "," << r.data[1];
    int index = irand(0, 6);
    auto es = p.ms->eigenvaluesByIndex(index, index + 1, l, r);
    if (es.empty() || es[0].second < -30) return;
    double E = es[0].second, a = p.x.front(), b = p.x.back();
    double scale = 1 + std::sqrt(std::abs(E));
    w = Msg() << w << " E " << E;
    auto f = p.ms->eigenfunction(E, l, r, index);
    auto at = [&](double x) { return (*f)(x); };
    // boundary conditions
    auto ya = at(a), yb = at(b);
    expectClose(ya[0] * l.data[1], ya[1] * l.data[0], 1e-9, 1e-9 * scale, w + ": condition at the left end");
    expectClose(yb[0] * r.data[1], yb[1] * r.data[0], 1e-9, 1e-9 * scale, w + ": condition at the right end");
    // unit norm, by Gauss-free composite Simpson
    const int n = 1200;
    double s = 0;
    for (size_t i = 0; i + 1 < p.x.size(); ++i) {
        double h = (p.x[i + 1] - p.x[i]) / n;
        for (int k = 0; k <= n; ++k) {
            double x = k == 0 ? p.x[i] : k == n ? p.x[i + 1] : p.x[i] + k * h;
            double y = at(x)[0];
            s += (k == 0 || k == n ? 1 : k % 2 ? 4 : 2) * y * y * h / 3;
        }
    }
    expectClose(s, 1, 1e-3, 0, w + ": norm");
    // the solution from the left and from the right
    double m = p.x[p.match + 1];
    for (int t = 0; t < 4; ++t) {
        double x = coin(.2) ? pick(p.x) : uni(a, b);
        auto y = at(x);
        bool fromLeft = x < m;
        auto v = p.ms->propagate(E, fromLeft ? l : r, fromLeft ? a : b, x).first;
        auto e = at(fromLeft ? a : b);
        double c = std::abs(e[0]) > std::abs(e[1]) ? e[0] / (fromLeft ? l : r).data[0] : e[1] / (fromLeft ? l : r).data[1];
        for (int k = 0; k < 2; ++k) expectClose(y[k], c * v.data[k], 1e-4, 1e-4 * (k ? scale : 1), Msg() << w << ": component " << k << " at " << x);
    }
    auto before = at(m - 1e-9), after = at(m);
    for (int k = 0; k < 2; ++k) expectClose(before[k], after[k], 1e-3, 1e-3 * scale, Msg() << w << ": jump of component " << k << " at the matching point");
    // arrays
    int count = irand(1, 9);
    Eigen::Array<double, Eigen::Dynamic, 1> xs(count);
    for (int i = 0; i < count; ++i) xs[i] = coin(.15) ? uni(a - 1, b + 1) : coin(.3) ? pick(p.x) : uni(a, b);
    auto ys = (*f)(xs);
    expect(ys.rows() == count, w + ": number of values");
    for (int i = 0; i < count; ++i) {
        auto y = at(xs[i]);
        for (int k = 0; k < 2; ++k) expectClose(ys(i, k), y[k], 1e-4, 1e-4 * (k ? scale : 1), Msg() << w << ": array component " << k << " at " << xs[i]);
        if (xs[i] < a || xs[i] > b) expect(y[0] == 0 && y[1] == 0, w + ": outside the domain");
    }
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
