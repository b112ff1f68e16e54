#include "liou.h"
using namespace nat;
static void one() {
    SL s = randomSL(1.5);
    SturmLiouville<double> sl(s.p, s.q, s.w, {s.lo, s.hi}, 1e-8);
    LiouvilleTransformation<double> lt({s.lo, s.hi}, s.p, s.q, s.w);
    Matslise<double> ms([&](double x) { return lt.V(x); }, lt.xDomain(), 1e-8);
    Y<double> l, r;
    for (auto *y: {&l, &r}) { int k = irand(0, 3); y->data[0] = k == 0 ? 0 : uni(-1, 1); y->data[1] = k == 1 ? 0 : k == 0 ? 1 : uni(-1, 1); if (k == 1) y->data[0] = 1; }
    std::string w = Msg() << s.text() << " left " << l.data.transpose() << " right " << r.data.transpose();
    auto L = lt.z2y(s.lo, l), R = lt.z2y(s.hi, r);
    int Imin = irand(0, 3), Imax = Imin + irand(0, 4);
    auto want = ms.eigenvaluesByIndex(Imin, Imax, L, R);
    auto got = sl.eigenvaluesByIndex(Imin, Imax, l, r);
    auto pairs = sl.eigenpairsByIndex(Imin, Imax, l, r);
    expect(got.size() == want.size() && pairs.size() == want.size(), w + " number of eigenvalues");
    for (size_t i = 0; i < want.size(); ++i) {
        expect(got[i].first == want[i].first && std::get<0>(pairs[i]) == want[i].first, Msg() << w << " index at position " << i);
        double E = want[i].second;
        if (E < -30) continue; // rounding: the decaying solution is lost
        expectClose(got[i].second, E, 1e-7, 1e-7, w + " eigenvalue");
        expectClose(std::get<1>(pairs[i]), E, 1e-7, 1e-7, w + " eigenvalue of the pair");
        expectClose(sl.eigenvalueError(E, l, r, want[i].first), ms.eigenvalueError(E, L, R, want[i].first), 1e-3, 1e-9, w + " error estimate");
        auto f = ms.eigenfunction(E, L, R, want[i].first);
        auto &g = *std::get<2>(pairs[i]);
        int n = irand(1, 6);
        Eigen::Array<double, Eigen::Dynamic, 1> rs(n);
        for (int k = 0; k < n; ++k) rs[k] = pointIn(s.lo, s.hi);
        std::sort(rs.data(), rs.data() + n);
        auto zs = g(rs);
        expect(zs.rows() == n, w + " rows of the array");
        for (int k = 0; k < n; ++k) {
            double x = std::min(lt.r2x(rs[k]), lt.xDomain().max);
            Y<double> y;
            y.y() = (*f)(x);
            auto z = lt.y2z(x, y);
            auto z1 = g(rs[k]);
            for (int c = 0; c < 2; ++c) {
                expectClose(z1[c], z.data[c], 1e-5, 1e-5 * (1 + std::abs(z.data[c])), Msg() << w << " eigenfunction " << want[i].first << " at " << rs[k]);
                expectClose(zs(k, c), z1[c], 1e-8, 1e-8 * (1 + std::abs(z.data[c])), Msg() << w << " array value of eigenfunction " << want[i].first << " at " << rs[k]);
            }
        }
    }
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
