#include "mats.h"
#define horner horner_coupled
#define angle angle_coupled
#include "matscs/matscs_formulas.cpp"
#include "matscs/sector.cpp"
#include "matscs/matscs.cpp"
#undef horner
#undef angle
#include "matslise/periodic.cpp"
using namespace nat;
template<typename F> static double diff(const F &f, double E) {
    double e = 1e-4 * (1 + std::abs(E));
    return (8 * (f(E + e) - f(E - e)) - (f(E + 2 * e) - f(E - 2 * e))) / (12 * e);
}
template<int cols> static void scalar() {
    Problem p = randomProblem();
    auto &ms = *p.ms;
    double E = uni(-10, 60), lo = p.x.front(), hi = p.x.back();
    double a = coin(.5) ? (coin() ? lo : hi) : uni(lo, hi), b = coin(.5) ? (coin() ? lo : hi) : uni(lo, hi);
    bool use_h = coin();
    Y<double, 1, cols> y;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < cols; ++j) y.data(i, j) = uni(-2, 2);
    double E0 = E;
    auto start = [&](double e) { Y<double, 1, cols> r = y; for (int i = 0; i < 2; ++i) for (int j = 0; j < cols; ++j) r.data(i, j) += (e - E0) * y.data(2 + i, j); return r; };
    auto r = ms.template propagate<cols>(E, y, a, b, use_h).first;
    std::string w = Msg() << p.text() << " E=" << E << " from " << a << " to " << b << " columns " << cols;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < cols; ++j) {
        double v = 0;
        for (int i2 = 0; i2 < 2; ++i2) v = std::max(v, std::abs(r.data(i2, j)) + std::abs(r.data(i2 + 2, j)));
        double d = diff([&](double e) { return ms.template propagate<cols>(e, start(e), a, b, use_h).first.data(i, j); }, E);
        expectClose(r.data(2 + i, j), d, 2e-6, 2e-6 * (1 + v), w + " energy derivative of entry " + std::to_string(i));
    }
    if constexpr (cols == 1) {
        Y<double> l = randomStart(), q = randomStart();
        for (int i = 2; i < 4; ++i) l.data[i] = uni(-1, 1), q.data[i] = uni(-1, 1);
        auto mv = [&](double e) { Y<double> L = l, Q = q; for (int i = 0; i < 2; ++i) L.data[i] += (e - E0) * l.data[i + 2], Q.data[i] += (e - E0) * q.data[i + 2];
            return std::get<0>(ms.matchingError(e, L, Q, use_h)); };
        auto m = ms.matchingError(E, l, q, use_h);
        double d = diff(mv, E);
        expectClose(std::get<1>(m), d, 1e-5, 1e-5 * (1 + std::abs(std::get<0>(m))), w + " energy derivative of the matching error");
    }
}
static void periodic() {
    Potential V = randomPotential();
    double a = uni(-1, 0), b = a + uni(.5, 2), E = uni(-10, 40);
    Eigen::Matrix2d K; 
    if (coin(.3)) K.setIdentity(); else if (coin(.3)) { K.setIdentity(); K *= -1; } else { K << uni(-2, 2), uni(-2, 2), uni(-2, 2), 0; double x = coin() ? uni(.3, 2) : -uni(.3, 2); K(0, 0) = x; K(1, 1) = (1 + K(0, 1) * K(1, 0)) / x; }
    PeriodicMatslise<double> p(V, a, b, 1e-8, K);
    bool use_h = coin();
    auto m = p.matchingError(E, use_h).first;
    std::string w = Msg() << V.text() << " on [" << a << "," << b << "] K=" << K << " E=" << E;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        double d = diff([&](double e) { return p.matchingError(e, use_h).first.data(i, j); }, E);
        expectClose(m.data(2 + i, j), d, 1e-5, 1e-5 * (1 + m.data.cwiseAbs().maxCoeff()), w + " energy derivative of the characteristic matrix");
    }
    auto v = [&](double e) { return calculateMatchingError(p.matchingError(e, use_h).first); };
    auto c = v(E);
    expectClose(c.second, diff([&](double e) { return v(e).first; }, E), 1e-5, 1e-5 * (1 + std::pow(m.data.cwiseAbs().maxCoeff(), 2)), w + " energy derivative of the characteristic value");
}
static void coupled() {
    int n = irand(1, 2), k = irand(1, 3);
    double a = uni(-1, 1), h = uni(.05, .4), b = a + h;
    Eigen::MatrixXd g[3];
    for (auto &m: g) { m.resize(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = uni(-3, 3); }
    struct CMesh : sector_builder::SectorBuilder<Matscs<double>> {
        Direction d;
        sector_builder::SectorBuilderReturn<Matscs<double>> operator()(const Matscs<double> *ms, const double &a, const double &b) const override {
            sector_builder::SectorBuilderReturn<Matscs<double>> r;
            r.sectors.push_back(std::make_unique<Matscs<double>::Sector>(ms, a, b, d));
            r.matchIndex = 0;
            return r;
        }
    } mesh;
    mesh.d = coin() ? Direction::forward : Direction::backward;
    Matscs<double> ms([&](double x) { return Eigen::MatrixXd(g[0] + (x - a) * g[1] + (x - a) * (x - a) * g[2]); }, n, a, b, mesh);
    auto &s = *ms.sectors[0];
    double E = uni(-10, 40), from = coin(.4) ? (coin() ? a : b) : uni(a, b), to = coin(.4) ? (coin() ? a : b) : uni(a, b);
    bool use_h = coin();
    if (k == 3) k = n;
    Y<double, Eigen::Dynamic, Eigen::Dynamic> y(n, k);
    for (int i = 0; i < 4 * n; ++i) for (int j = 0; j < k; ++j) y.data(i, j) = uni(-2, 2);
    auto start = [&](double e) { auto r = y; r.data.topRows(2 * n) += (e - E) * y.data.bottomRows(2 * n); return r; };
    auto r = s.template propagateColumn<Eigen::Dynamic>(E, y, from, to, use_h);
    std::string w = Msg() << "channels " << n << " columns " << k << " [" << a << "," << b << "] direction " << (int) mesh.d << " E=" << E << " from " << from << " to " << to;
    for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < k; ++j) {
        double d = diff([&](double e) { return s.template propagateColumn<Eigen::Dynamic>(e, start(e), from, to, use_h).data(i, j); }, E);
        expectClose(r.data(2 * n + i, j), d, 1e-5, 1e-5, w + " energy derivative of a coupled solution, entry " + std::to_string(i));
    }
}
NATIVE_SEARCH {
    while (timeLeft()) {
        scalar<1>();
        scalar<2>();
        coupled();
        if (coin(.2)) periodic();
    }
    return 0;
}
