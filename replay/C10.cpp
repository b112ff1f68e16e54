#include "mats.h"
using namespace nat;
typedef Matslise<double> M;
static void mesh(const M &ms, double lo, double hi, const std::vector<double> &jumps, const std::string &w) {
    int n = ms.sectors.size();
    expect(n > 0 && ms.sectorCount == n, w + ": number of intervals");
    expect(ms.matchIndex >= 0 && ms.matchIndex < n, Msg() << w << ": matching index " << ms.matchIndex << " of " << n);
    expect(ms.sectors[0]->min == lo && ms.sectors[n - 1]->max == hi, w + ": ends");
    for (int i = 0; i < n; ++i) {
        auto &s = *ms.sectors[i];
        expect(s.min < s.max, Msg() << w << ": empty interval " << i);
        expectClose(s.h, s.max - s.min, 1e-12, 1e-14, w + ": length");
        if (i) expectClose(ms.sectors[i - 1]->max, s.min, 1e-15, 1e-15, Msg() << w << ": gap before interval " << i);
        expect((s.direction == Direction::forward) == (i <= ms.matchIndex), Msg() << w << ": direction of interval " << i << " with matching index " << ms.matchIndex);
    }
    for (double j: jumps) {
        bool found = false;
        for (auto &s: ms.sectors) found |= s->max == j;
        expect(found, Msg() << w << ": jump " << j << " is no mesh point");
    }
}
static void one() {
    double lo = uni(-2, 1), hi = lo + (coin(.2) ? uni(.01, .2) : uni(.5, 8));
    auto V = randomPotential(coin(.3) ? 30 : 3);
    std::vector<double> jumps;
    int count = irand(0, 4);
    for (int i = 0; i < count; ++i) jumps.push_back(coin(.2) ? .4956864123 * hi + .5043135877 * lo + uni(-1e-3, 1e-3) * (hi - lo) : uni(lo, hi));
    std::sort(jumps.begin(), jumps.end());
    std::vector<double> in;
    for (double j: jumps) if (j > lo + 1e-6 && j < hi - 1e-6 && (in.empty() || j > in.back() + 1e-6)) in.push_back(j);
    double height = coin() ? uni(-20, 20) : 0, wave = coin(.3) ? uni(5, 60) : 0;
    auto potential = [&](double x) {
        double v = V(x) + (wave ? std::sin(wave * x) * 10 : 0);
        for (double j: in) if (x >= j) v += height;
        return v;
    };
    double tolerance = std::pow(10., uni(-10, -2));
    std::string w = Msg() << V.text() << " + 10 sin(" << wave << " x), jumps of " << height << " on [" << lo << ", " << hi << "] tolerance " << tolerance;
    {
        int n = irand(1, 40);
        M ms(potential, lo, hi, tolerance, sector_builder::UniformSectorBuilder<M>(n));
        mesh(ms, lo, hi, {}, Msg() << w << " uniform " << n);
        expect((int) ms.sectors.size() == n, Msg() << w << ": " << ms.sectors.size() << " intervals instead of " << n);
        for (auto &s: ms.sectors) expectClose(s->h, (hi - lo) / n, 1e-9, 1e-12, w + ": equal lengths");
    }
    sector_builder::AutomaticSectorBuilder<M> b(tolerance);
    b.jumps = in;
    M ms(potential, lo, hi, tolerance, b);
    mesh(ms, lo, hi, in, w + " automatic");
    int worse = 0;
    for (auto &s: ms.sectors) {
        // a fresh interval of the same ends has the estimate that was accepted
        M::Sector t(&ms, s->min, s->max, s->direction);
        if (t.error() > tolerance * (1 + 1e-6) && t.h > 1.001e-3) ++worse;
    }
    // ten refinements are enough for these potentials (not always for the oscillating ones)
    if (!wave) expect(worse == 0, Msg() << w << ": " << worse << " of " << ms.sectors.size() << " intervals have an error above the tolerance");
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
