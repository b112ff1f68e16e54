#include "spectrum.h"
using namespace nat;
static void one() {
    Spectrum s = randomSpectrum();
    int n = s.E.size(), Imin = irand(0, n - 1), Imax = irand(Imin, n);
    std::string w = Msg() << s.text << " indices " << Imin << ".." << Imax;
    auto v = s.p.ms->eigenvaluesByIndex(Imin, Imax, s.l, s.r);
    expect((int) v.size() == Imax - Imin, Msg() << w << ": " << v.size() << " eigenvalues");
    for (int i = Imin; i < Imax; ++i) {
        auto &e = v[i - Imin];
        expect(e.first == i, Msg() << w << ": index " << e.first << " at place " << i - Imin);
        expectClose(e.second, s.E[i], 0, tolerance(s.E[i]), Msg() << w << ": eigenvalue " << i);
    }
    for (auto bad: {std::make_pair(-1, irand(0, 3)), std::make_pair(-2, -1), std::make_pair(Imax + 1, Imax), std::make_pair(5, 0)}) {
        bool thrown = false;
        try { s.p.ms->eigenvaluesByIndex(bad.first, bad.second, s.l, s.r); } catch (std::runtime_error &) { thrown = true; }
        expect(thrown, Msg() << s.text << ": no error for the indices " << bad.first << ".." << bad.second);
    }
}
NATIVE_SEARCH { while (timeLeft()) one(); return 0; }
