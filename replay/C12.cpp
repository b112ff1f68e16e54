#include "spectrum.h"
using namespace nat;
static void check(const Spectrum &s, double a, double b) {
    std::string w = Msg() << s.text << " energies " << a << ".." << b;
    if (!(a < b) || b > s.E[s.E.size() - 3] + 1e-9) return;
    auto v = s.p.ms->eigenvalues(a, b, s.l, s.r);
    int last = -1;
    for (auto &e: v) {
        expect(e.first > last, Msg() << w << ": index " << e.first << " after " << last);
        last = e.first;
        expect(e.first < (int) s.E.size(), Msg() << w << ": index " << e.first);
        expectClose(e.second, s.E[e.first], 0, tolerance(s.E[e.first]), Msg() << w << ": eigenvalue " << e.first);
        expect(e.second >= a - tolerance(a) && e.second <= b + tolerance(b), Msg() << w << ": " << e.second << " lies outside");
    }
    for (int i = 0; i < (int) s.E.size(); ++i)
        if (s.E[i] > a + tolerance(a) && s.E[i] < b - tolerance(b)) {
            bool found = false;
            for (auto &e: v) found = found || e.first == i;
            expect(found, Msg() << w << ": eigenvalue " << i << " = " << s.E[i] << " is missing");
        }
}
static void one() {
    Spectrum s = randomSpectrum();
    double lo = s.E.front() - 2, hi = s.E[s.E.size() - 3]; // two more are known, which may coincide
    for (int k = 0; k < 4; ++k) {
        double a = uni(lo, hi), b = uni(lo, hi);
        check(s, std::min(a, b), std::max(a, b));
    }
    // ends and split points on an eigenvalue
    int i = irand(0, s.E.size() - 1);
    double e = s.E[i], d = uni(.1, 5);
    check(s, e, hi);
    check(s, lo, e);
    check(s, e - d, e + d);
    check(s, e - d, e + 3 * d);
    check(s, e - 3 * d, e + d);
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
