#include "common.h"
#include "big.h"
#include "matslise/matslise_formulas.cpp"
#include "matslise/sector.cpp"
#include "matslise/abstract_matslise.cpp"
#include "matslise/matslise.cpp"
#include "util/sectorbuilder.cpp"
using namespace nat;
typedef Matslise<double>::Sector Sector;

// eta_i(Z) by its power series
static Big eta(int i, const Big &Z) {
    Big t = 1, r;
    for (int j = 1; j < i; ++j) t = t / (2 * j + 1);
    r = t;
    for (int q = 1; q < 40; ++q) {
        t = t * Z / (i == 0 ? (2 * q) * (2 * q - 1) : (2 * q) * (2 * q + 2 * i - 1));
        r += t;
    }
    return r;
}
// exact solution of y'' = (v0 - E + sum_k v_k h^k P_k*(x/h)) y as power series, y(0)=a, y'(0)=b; at x
template<typename S> static void series(const std::vector<S> &vs, const S &E, const S &h, const S &x, const S &a, const S &b, S &y, S &dy) {
    int n = vs.size();
    std::vector<S> p(n);
    for (int k = 0; k < n; ++k) {
        // h^k P_k*(x/h) = sum_j (-1)^(k+j) C(k,j) C(k+j,j) x^j h^(k-j)
        for (int j = 0; j <= k; ++j) {
            double c = (k + j) % 2 ? -1 : 1;
            for (int m = 1; m <= j; ++m) c = c * (k - m + 1) / m;
            for (int m = 1; m <= j; ++m) c = c * (k + m) / m;
            S hp = 1;
            for (int m = 0; m < k - j; ++m) hp = hp * h;
            p[j] += S(std::round(c)) * hp * vs[k];
        }
    }
    p[0] -= E;
    const int N = 80;
    std::vector<S> c(N);
    c[0] = a, c[1] = b;
    for (int m = 0; m + 2 < N; ++m) {
        S r = 0;
        for (int j = 0; j < n && j <= m; ++j) r += p[j] * c[m - j];
        c[m + 2] = r / S((m + 1) * (m + 2));
    }
    y = 0, dy = 0;
    S xp = 1;
    for (int m = 0; m < N; ++m) {
        y += c[m] * xp;
        if (m + 1 < N) dy += c[m + 1] * xp * S(m + 1);
        xp = xp * x;
    }
}

static void orderTest(int used, double frac, bool atEnd, double minOrder) {
    std::vector<Big> vs(MATSLISE_N);
    std::vector<double> dv(MATSLISE_N);
    for (int k = 0; k < used; ++k) vs[k] = Big(dv[k] = uni(-1, 1));
    double Ed = uni(-2, 2);
    double lg[2][4];
    for (int pass = 0; pass < 2; ++pass) {
        Big h = Big(pass ? 1. / 4096 : 1. / 1024), d = h * Big(frac), E = Ed;
        std::array<Big, MATSLISE_N> va;
        for (int k = 0; k < MATSLISE_N; ++k) va[k] = vs[k];
        Eigen::Array<Eigen::Matrix<Big, 2, 2, Eigen::DontAlign>, MATSLISE_ETA_delta, MATSLISE_HMAX_delta, Eigen::DontAlign> tD;
        Eigen::Matrix<Big, 2, 2, Eigen::DontAlign> tH[MATSLISE_ETA_h];
        calculate_tcoeff_matrix<Big>(h, va, tD, tH);
        Big Z = (vs[0] - E) * d * d;
        for (int c = 0; c < 2; ++c) {
            Big y, dy;
            series<Big>(vs, E, h, d, c == 0 ? 1 : 0, c, y, dy);
            for (int r = 0; r < 2; ++r) {
                Big v = r == 1 && c == 0 ? (vs[0] - E) * d * eta(1, Z) : Big(0);
                for (int i = 0; i < (atEnd ? MATSLISE_ETA_h : MATSLISE_ETA_delta); ++i) {
                    Big p = 0;
                    if (atEnd) p = tH[i](r, c);
                    else for (int j = MATSLISE_HMAX_delta - 1; j >= 0; --j) p = p * d + tD(i, j)(r, c);
                    v += p * eta(i, Z);
                }
                lg[pass][2 * r + c] = (v - (r ? dy : y)).log2abs();
            }
        }
    }
    for (int e = 0; e < 4; ++e) {
        double order = (lg[0][e] - lg[1][e]) / 2;
        ++evaluations;
        if (lg[0][e] > -600 && order < minOrder) {
            Msg m;
            m << (atEnd ? "end-point formula" : "offset formula") << " entry " << e / 2 << "," << e % 2 << ": error at h=1/1024 is 2^" << lg[0][e] << ", at h=1/4096 2^" << lg[1][e]
              << ", observed order " << order << " instead of at least " << minOrder << "; E=" << Ed << " delta/h=" << frac << " v=";
            for (int k = 0; k < used; ++k) m << dv[k] << " ";
            throw Fail{m};
        }
    }
}

struct OneMesh : sector_builder::SectorBuilder<Matslise<double>> {
    Direction d;
    explicit OneMesh(Direction d) : d(d) {}
    sector_builder::SectorBuilderReturn<Matslise<double>> operator()(const Matslise<double> *ms, const double &a, const double &b) const override {
        sector_builder::SectorBuilderReturn<Matslise<double>> r;
        r.sectors.push_back(std::make_unique<Sector>(ms, a, b, d));
        r.matchIndex = 0;
        return r;
    }
};

static void sectorTest() {
    double a = uni(-3, 3), h = std::exp(uni(-2.5, -1)), b = a + h;
    int deg = irand(0, 6);
    std::vector<double> g(deg + 1);
    for (auto &x: g) x = uni(-4, 4);
    auto V = [&](double x) { double r = 0; for (int i = deg; i >= 0; --i) r = r * (x - a) + g[i]; return r; };
    Direction dir = coin() ? Direction::forward : Direction::backward;
    Matslise<double> ms([&](const double &x) { return V(x); }, a, b, 1e-8, OneMesh(dir));
    Sector &s = *ms.sectors[0];
    if (coin()) {
        Direction o = coin() ? Direction::none : dir == Direction::forward ? Direction::backward : Direction::forward;
        s.setDirection(o);
        s.setDirection(dir);
    }
    double E = uni(-60, 200), delta = coin(.3) ? h : h * uni(0, 1);
    bool use_h = coin();
    auto t = delta == h && coin() ? s.calculateT(E, use_h) : s.calculateT(E, delta, use_h);
    double eps = 1e-4;
    auto tp = s.calculateT(E + eps, delta, use_h), tm = s.calculateT(E - eps, delta, use_h);
    // potential seen from the start of the interval, as power series
    std::vector<long double> c(deg + 1, 0);
    if (dir == Direction::forward) for (int i = 0; i <= deg; ++i) c[i] = g[i];
    else for (int i = 0; i <= deg; ++i) { // V(b - x)
        long double bin = 1;
        for (int j = 0; j <= i; ++j) {
            c[j] += g[i] * bin * (j % 2 ? -1 : 1) * powl(h, i - j);
            bin = bin * (i - j) / (j + 1);
        }
    }
    for (int col = 0; col < 2; ++col) {
        std::vector<long double> y(120);
        y[0] = col == 0, y[1] = col == 1;
        for (int m = 0; m + 2 < 120; ++m) {
            long double r = -E * y[m];
            for (int j = 0; j <= deg && j <= m; ++j) r += c[j] * y[m - j];
            y[m + 2] = r / ((m + 1.L) * (m + 2.L));
        }
        long double v = 0, dv = 0, xp = 1;
        for (int m = 0; m < 119; ++m) v += y[m] * xp, dv += (m + 1) * y[m + 1] * xp, xp *= delta;
        std::string w = Msg() << "interval [" << a << "," << b << "] direction " << (int) dir << " E=" << E << " delta=" << delta << " use_h=" << use_h << " column " << col;
        double sc = 1 + std::sqrt(std::abs(E));
        expectClose(t.t(0, col), (double) v, 1e-9, 1e-9, w + " calculateT value");
        expectClose(t.t(1, col), (double) dv, 1e-9, 1e-9 * sc, w + " calculateT derivative");
        for (int r = 0; r < 2; ++r)
            expectClose(t.dt(r, col), (tp.t(r, col) - tm.t(r, col)) / (2 * eps), 1e-5, 1e-7 * sc, w + " energy derivative row " + std::to_string(r));
    }
    auto t0 = s.calculateT(E, 0., use_h);
    expect(t0.t == (Eigen::Matrix<double, 2, 2>::Identity()) && t0.dt.isZero(), "calculateT at offset 0 is not the identity");
}

NATIVE_SEARCH {
    for (int i = 0; i < 3 && timeLeft(.6); ++i) {
        orderTest(14, i == 0 ? .5 : uni(.05, .95), false, 15.4);
        orderTest(16, uni(.05, .95), false, 14.4);
        orderTest(16, 1, true, 17.4);
    }
    while (timeLeft() && evaluations < 4000000) sectorTest();
    return 0;
}
