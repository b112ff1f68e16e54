#include "common.h"
#include "matscs/matscs_formulas.cpp"
#include "matscs/sector.cpp"
#include "matscs/matscs.cpp"
using namespace nat;
typedef Matscs<double>::Sector Sector;
typedef Eigen::MatrixXd M;
typedef Eigen::Matrix<long double, -1, -1> ML;

struct Mesh : sector_builder::SectorBuilder<Matscs<double>> {
    Direction d;
    explicit Mesh(Direction d) : d(d) {}
    sector_builder::SectorBuilderReturn<Matscs<double>> operator()(const Matscs<double> *ms, const double &a, const double &b) const override {
        sector_builder::SectorBuilderReturn<Matscs<double>> r;
        r.sectors.push_back(std::make_unique<Sector>(ms, a, b, d));
        r.matchIndex = 0;
        return r;
    }
};
static double worst = 0;
static void one() {
    int n = irand(1, 3), deg = irand(0, 5);
    double a = uni(-3, 3), h = std::exp(uni(-3.5, -1.6)), b = a + h;
    std::vector<M> g(deg + 1);
    for (auto &m: g) {
        m = M(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = uni(-2, 2);
    }
    auto V = [&](double x) { M r = M::Zero(n, n); for (int i = deg; i >= 0; --i) r = r * (x - a) + g[i]; return r; };
    Direction dir = coin() ? Direction::forward : Direction::backward;
    Matscs<double> ms(V, n, a, b, Mesh(dir));
    Sector &s = *ms.sectors[0];
    if (coin()) {
        s.setDirection(coin() ? Direction::none : dir == Direction::forward ? Direction::backward : Direction::forward);
        s.setDirection(dir);
    }
    double E = uni(-20, 60), delta = coin(.3) ? h : h * uni(.05, 1);
    bool use_h = coin();
    auto t = delta == h && coin() ? s.calculateT(E, use_h) : s.calculateT(E, delta, use_h);
    double eps = 1e-4;
    auto tp = s.calculateT(E + eps, delta, use_h), tm = s.calculateT(E - eps, delta, use_h);
    std::vector<ML> c(deg + 1, ML::Zero(n, n));
    if (dir == Direction::forward) for (int i = 0; i <= deg; ++i) c[i] = g[i].cast<long double>();
    else for (int i = 0; i <= deg; ++i) {
        long double bin = 1;
        for (int j = 0; j <= i; ++j) {
            c[j] += g[i].cast<long double>() * bin * (j % 2 ? -1 : 1) * powl(h, i - j);
            bin = bin * (i - j) / (j + 1);
        }
    }
    for (int half = 0; half < 2; ++half) {
        std::vector<ML> y(90, ML::Zero(n, n));
        y[half] = ML::Identity(n, n);
        for (int m = 0; m + 2 < 90; ++m) {
            ML r = -E * y[m];
            for (int j = 0; j <= deg && j <= m; ++j) r += c[j] * y[m - j];
            y[m + 2] = r / ((m + 1.L) * (m + 2.L));
        }
        ML v = ML::Zero(n, n), dv = v;
        long double xp = 1;
        for (int m = 0; m < 89; ++m) v += y[m] * xp, dv += (m + 1) * y[m + 1] * xp, xp *= delta;
        std::string w = Msg() << "channels " << n << " interval [" << a << "," << b << "] direction " << (int) dir << " E=" << E << " delta=" << delta << " use_h=" << use_h << " half " << half;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            double sc = 1 + std::sqrt(std::abs(E)), tol = 1e-12 + 2 * std::pow(h, 10);
            worst = std::max({worst, std::abs(t.t(i, half * n + j) - (double) v(i, j)) / tol, std::abs(t.t(n + i, half * n + j) - (double) dv(i, j)) / tol / sc});
            expectClose(t.t(i, half * n + j), (double) v(i, j), 0, tol, w + " calculateT value");
            expectClose(t.t(n + i, half * n + j), (double) dv(i, j), 0, tol * sc, w + " calculateT derivative");
            for (int r = 0; r < 2; ++r)
                expectClose(t.dt(r * n + i, half * n + j), (tp.t(r * n + i, half * n + j) - tm.t(r * n + i, half * n + j)) / (2 * eps), 1e-5, 3e-8 * sc, w + " energy derivative row " + std::to_string(r));
        }
    }
    auto t0 = s.calculateT(E, 0., use_h);
    expect(t0.t.isIdentity(0) && t0.dt.isZero(0), "calculateT at offset 0 is not the identity");
}
NATIVE_SEARCH {
    while (timeLeft() && evaluations < 3000000) one();
    if (getenv("SHOW")) std::cerr << "worst " << worst << "\n";
    return 0;
}
