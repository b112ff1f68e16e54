#include "half.h"
using namespace nat;
static void one() {
    HalfProblem p = randomHalf();
    auto v = p.half->eigenvaluesByIndex(0, irand(1, 6), p.side);
    for (auto &e: v) {
        if (e.second < -30) continue;
        std::string w = Msg() << p.text() << " eigenfunction " << e.first << " (E=" << e.second << ")";
        auto f = p.half->eigenfunction(e.second, p.side, coin(.8) ? e.first : -1);
        bool even = e.first % 2 == 0;
        auto u = p.half->ms->eigenfunction(e.second, even ? Y<double>::Neumann() : Y<double>::Dirichlet(), p.side, e.first / 2);
        for (int k = 0; k < 4; ++k) {
            double x = k == 0 ? p.xmax : uni(1e-6, p.xmax);
            auto a = (*f)(x), b = (*f)(-x), c = (*u)(x);
            double s = 1 + std::abs(a[0]) + std::abs(a[1]);
            expectClose(b[0], even ? a[0] : -a[0], 1e-9, 1e-9 * s, Msg() << w << " value at -" << x);
            expectClose(b[1], even ? -a[1] : a[1], 1e-9, 1e-9 * s, Msg() << w << " derivative at -" << x);
            expectClose(a[0] * a[0], .5 * c[0] * c[0], 1e-7, 1e-7 * s, Msg() << w << " scale at " << x);
        }
        int n = irand(0, 8);
        Eigen::Array<double, Eigen::Dynamic, 1> xs(n);
        int kind = irand(0, 3);
        for (int i = 0; i < n; ++i) xs[i] = kind == 0 ? uni(0, p.xmax) : kind == 1 ? -uni(0, p.xmax) : coin(.2) ? 0 : uni(-p.xmax, p.xmax);
        std::sort(xs.data(), xs.data() + n);
        auto ys = (*f)(xs);
        expect(ys.rows() == n, w + " rows");
        for (int i = 0; i < n; ++i) {
            auto a = (*f)(xs[i]);
            for (int c = 0; c < 2; ++c) expectClose(ys(i, c), a[c], 1e-8, 1e-8 * (1 + std::abs(a[c])), Msg() << w << " array [" << xs.transpose() << "] at " << xs[i]);
        }
    }
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
