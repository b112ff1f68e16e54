#include "half.h"
using namespace nat;
static void one() {
    HalfProblem p = randomHalf();
    Y<double> l = p.side;
    l.reverse(); // the mirrored condition at -b
    for (int t = 0; t < 3; ++t) {
        int Imin = irand(0, 7), Imax = Imin + irand(0, 7);
        std::string w = Msg() << p.text() << " indices " << Imin << " to " << Imax;
        auto h = p.half->eigenvaluesByIndex(Imin, Imax, p.side);
        auto f = p.full->eigenvaluesByIndex(Imin, Imax, l, p.side);
        expect((int) h.size() == Imax - Imin, Msg() << w << ": " << h.size() << " eigenvalues");
        for (size_t i = 0; i < h.size(); ++i) {
            expect(h[i].first == Imin + (int) i, Msg() << w << ": index " << h[i].first << " at position " << i);
            if (f.size() == h.size()) expectClose(h[i].second, f[i].second, 1e-6, 1e-6, Msg() << w << ": eigenvalue " << h[i].first << " of the full problem");
        }
        if (h.size() < 2) continue;
        // an energy range between eigenvalues
        int a = irand(0, h.size() - 1), b = irand(0, h.size() - 1);
        if (a > b) std::swap(a, b);
        double d = 1e-4, lo = h[a].second - d, hi = h[b].second + d;
        if (a > 0 && h[a - 1].second > lo - d) continue;
        if (b + 1 < (int) h.size() && h[b + 1].second < hi + d) continue;
        if (a == 0 || b + 1 == (int) h.size()) continue;
        auto r = p.half->eigenvalues(lo, hi, p.side);
        expect((int) r.size() == b - a + 1, Msg() << w << ": " << r.size() << " eigenvalues in [" << lo << ", " << hi << "]");
        for (size_t i = 0; i < r.size(); ++i) {
            expect(r[i].first == h[a + i].first, Msg() << w << ": index " << r[i].first << " at position " << i << " of [" << lo << ", " << hi << "]");
            expectClose(r[i].second, h[a + i].second, 1e-6, 1e-6, w + ": eigenvalue in the range");
        }
    }
    bool thrown = false;
    Y<double> other = p.side;
    other.data[irand(0, 1)] += 1;
    try { ((AbstractMatslise<double> &) *p.half).eigenvaluesByIndex(0, 1, other, p.side); } catch (std::runtime_error &) { thrown = true; }
    expect(thrown, p.text() + ": different conditions are accepted");
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
