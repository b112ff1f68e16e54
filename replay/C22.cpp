#include "mats.h"
#include "matslise/halfrange.cpp"
using namespace nat;
template<typename S> static void same(const S &s, const Y<double> &l, const Y<double> &r, bool oneSide, const std::string &w, double lo, double hi) {
    const AbstractMatslise<double> &ms = s;
    int Imin = irand(0, 3), Imax = Imin + irand(0, 4);
    std::string at = Msg() << w << " left " << l.data.transpose() << " right " << r.data.transpose() << " indices " << Imin << ".." << Imax;
    auto v = oneSide ? ms.eigenvaluesByIndex(Imin, Imax, l) : ms.eigenvaluesByIndex(Imin, Imax, l, r);
    auto p = oneSide ? ms.eigenpairsByIndex(Imin, Imax, l) : ms.eigenpairsByIndex(Imin, Imax, l, r);
    auto v2 = ms.eigenvaluesByIndex(Imin, Imax, l, r);
    expect(p.size() == v.size() && v2 == v, at + " number of pairs / shorthand");
    for (size_t i = 0; i < v.size(); ++i) {
        double E = v[i].second;
        expect(std::get<0>(p[i]) == v[i].first && std::get<1>(p[i]) == E, at + " pair and eigenvalue differ");
        if (E < -30) continue; // rounding: the decaying solution is lost
        auto f = ms.eigenfunction(E, l, r, v[i].first);
        if (oneSide) {
            double x = uni(lo, hi);
            auto a = (*ms.eigenfunction(E, l, v[i].first))(x), b = (*f)(x);
            expect(a[0] == b[0] && a[1] == b[1], Msg() << at << " shorthand of the eigenfunction " << v[i].first << " at " << x);
            expect(ms.eigenvalueError(E, l, v[i].first) == ms.eigenvalueError(E, l, r, v[i].first), at + " shorthand of the error estimate");
        }
        for (int k = 0; k < 4; ++k) {
            double x = uni(lo, hi);
            auto a = (*std::get<2>(p[i]))(x), b = (*f)(x);
            expect(a[0] == b[0] && a[1] == b[1], Msg() << at << " eigenfunction of pair " << v[i].first << " at " << x << " is not that of its eigenvalue");
        }
    }
    if (!v.empty()) {
        double lo = v.front().second - 1e-3, hi = v.back().second + 1e-3;
        if (oneSide) expect(ms.eigenvalues(lo, hi, l) == ms.eigenvalues(lo, hi, l, r), at + " shorthand of the energy range");
    }
}
static Y<double> condition() {
    int k = irand(0, 3);
    return Y<double>({k == 0 ? 0. : 1., k == 1 ? 0. : k == 0 ? 1. : uni(-3, 3)}, {0, 0});
}
NATIVE_SEARCH {
    while (timeLeft()) {
        Problem p = randomProblem(6, .3);
        auto l = condition(), r = condition();
        same(*p.ms, l, r, false, p.text(), p.x.front(), p.x.back());
        same(*p.ms, l, l, true, p.text(), p.x.front(), p.x.back());
        Potential V = randomPotential();
        for (size_t i = 1; i < V.c.size(); i += 2) V.c[i] = 0;
        double xmax = uni(.5, 2);
        MatsliseHalf<double> h(V, xmax, 1e-7);
        same(h, l, l, true, Msg() << "half range, " << V.text() << " xmax " << xmax, -xmax, xmax);
        if (l != r) {
            bool thrown = false;
            try { h.eigenvaluesByIndex(0, 1, l, r); } catch (std::runtime_error &) { thrown = true; }
            expect(thrown, "half range accepts different conditions");
        }
    }
    return 0;
}
