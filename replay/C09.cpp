#include "mats.h"
using namespace nat;
static double angleOf(double t, int) { return t; }
static double angleOf(const Eigen::Array<double, 2, 1> &t, int c) { return t[c]; }
// zeros of the solution strictly between a and b, by integrating the equation in small steps
static int zeros(const Potential &V, double E, double a, double b, double &u, double &w) {
    int N = 200 + (int) (std::abs(b - a) * 1500), count = 0;
    double x = a, dx = (b - a) / N;
    auto f = [&](double x) { return V(x) - E; };
    for (int i = 0; i < N; ++i) {
        double k1 = w, l1 = f(x) * u, k2 = w + dx / 2 * l1, l2 = f(x + dx / 2) * (u + dx / 2 * k1), k3 = w + dx / 2 * l2, l3 = f(x + dx / 2) * (u + dx / 2 * k2), k4 = w + dx * l3, l4 = f(x + dx) * (u + dx * k3);
        double un = u + dx / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
        w += dx / 6 * (l1 + 2 * l2 + 2 * l3 + l4);
        if (u * un < 0) ++count;
        u = un;
        x += dx;
    }
    return count;
}
template<int cols> static void one() {
    Problem p = randomProblem(5, .35, coin(.5) ? 3 : 20);
    auto &ms = *p.ms;
    double lo = p.x.front(), hi = p.x.back();
    // the reference assumption: the potential does not move much over one interval
    for (size_t i = 0; i + 1 < p.x.size(); ++i) {
        double h = p.x[i + 1] - p.x[i];
        for (int k = 0; k <= 8; ++k)
            if (std::abs(p.V(p.x[i] + h * k / 8) - ms.sectors[i]->vs[0]) * h * h > 1.5) return;
    }
    double v0 = pick(ms.sectors)->vs[0], E = coin() ? v0 + uni(-40, 40) : v0 + uni(-300, 900);
    if (coin(.1)) E = v0;
    auto point = [&] { int k = irand(0, 9); return k < 5 ? uni(lo, hi) : k == 5 ? lo : k == 6 ? hi : pick(p.x); };
    double a = point(), b = point();
    if (coin(.15)) a = std::min(hi, std::max(lo, a + uni(-1e-12, 1e-12)));
    if (std::abs(a - b) < 1e-3) return;
    Y<double, 1, cols> y;
    for (int j = 0; j < cols; ++j) { Y<double> s = randomStart(); for (int i = 0; i < 4; ++i) y.data(i, j) = s.data[i]; }
    auto r = ms.template propagate<cols>(E, y, a, b);
    double vm = ms.sectors[p.match]->vs[0], S = E - vm > 1 ? std::sqrt(E - vm) : 1;
    for (int c = 0; c < cols; ++c) {
        double u = y.data(0, c), w = y.data(1, c), th = angleOf(r.second, c);
        double ru = r.first.data(0, c), rw = r.first.data(1, c);
        std::string t = Msg() << p.text() << " E=" << E << " from a=" << a << " to b=" << b << " y=(" << u << "," << w << ") column " << c << " of " << cols << " theta/pi=" << th / M_PI;
        expectClose((std::sin(th) * rw - std::cos(th) * S * ru) / std::hypot(S * ru, rw), 0, 0, 1e-6 * (1 + std::abs(th)), t + " y=" + std::to_string(ru) + " y'=" + std::to_string(rw) + ": tan(theta) is not S y/y'");
        bool zeroStart = u == 0;
        if (!zeroStart && std::abs(u) < 1e-3) continue;
        int n = zeros(p.V, E, a, b, u, w);
        double sc = std::abs(u) + std::abs(w);
        if (std::abs(u - ru) + std::abs(w - rw) > 1e-5 * sc || std::abs(u) < 1e-3 * sc) continue;
        int counted = a < b ? (int) std::floor(th / M_PI) : -(int) std::floor(th / M_PI);
        expect(counted == n, t + ": the solution has " + std::to_string(n) + " zeros");
    }
}
NATIVE_SEARCH {
    while (timeLeft()) one<1>(), one<2>();
    return 0;
}
