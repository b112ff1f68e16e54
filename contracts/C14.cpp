// The half-range solver returns the interleaved spectrum of the even and the odd half problem
#include "env_queries.h"
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
using queries::side;
using queries::List;
static Options upTo(const char *b) {
    Options o;
    o.bounded = true;
    o.bound = b;
    return o;
}
static MatsliseHalf<Sym> problem() { queries::counts().clear(); return MatsliseHalf<Sym>([](const Sym &x) { return uf("V", {x}); }, Sym::var("b"), Sym::var("tol")); }
// the conditions at the middle, spelled out
static Y<Sym> middle(bool even) {
    Y<Sym> y;
    y.data[0] = Sym(even ? 1 : 0), y.data[1] = Sym(even ? 0 : 1), y.data[2] = 0, y.data[3] = 0;
    return y;
}
static void sound(const std::string &what, const List &got, const List &want) { queries::sameList(what, got, want); }

static void byIndex(int from, int to) {
    explore("by index", [from, to] {
        underContract("MatsliseHalf::eigenvaluesByIndex");
        underContract("mergeEigenvalues");
        auto h = problem();
        auto s = side("side");
        int Imin = from, Imax = 0;
        while (Imin < to && choose("Imin")) ++Imin;
        while (Imax < 11 && choose("Imax")) ++Imax;
        bool thrown = false;
        List got;
        try { got = h.eigenvaluesByIndex(Imin, Imax, s); } catch (std::runtime_error &) { thrown = true; }
        bool valid = Imin >= 0 && Imin <= Imax;
        proveExact("an invalid index range raises an error and a valid one does not", thrown == !valid, "indices " + std::to_string(Imin) + " to " + std::to_string(Imax));
        if (thrown) return;
        cover("valid");
        List want;
        for (int i = Imin; i < Imax; ++i) want.push_back({i, queries::energy(i / 2, middle(i % 2 == 0), s)});
        sound("every full index once, from the half problem of its parity", got, want);
        if (got.size() > 1) canary("even and odd agree", eq(got[0].second, got[1].second));
    }, upTo("indices up to 11"));
}
VC_CASE(by_index_low) { byIndex(-3, 3); }
VC_CASE(by_index_high) { byIndex(4, 10); }
VC_CASE(in_range) {
    explore("in a range", [] {
        underContract("MatsliseHalf::eigenvalues");
        underContract("mergeEigenvalues");
        auto h = problem();
        auto s = side("side");
        Sym Emin = Sym::var("Emin"), Emax = Sym::var("Emax");
        auto got = h.eigenvalues(Emin, Emax, s);
        List want;
        for (auto &p: queries::inRange(Emin, Emax, middle(true), s)) want.push_back({2 * p.first, p.second});
        for (auto &p: queries::inRange(Emin, Emax, middle(false), s)) want.push_back({2 * p.first + 1, p.second});
        std::stable_sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.first < b.first; });
        sound("the eigenvalues of both half problems, once each, by full index", got, want);
        if (got.size() > 2) cover("several");
        canary("the range plays no role", F(got.size() == 1));
    }, upTo("up to 3 eigenvalues of each parity"));
}
VC_CASE(sides) {
    explore("sides", [] {
        underContract("AbstractMatslise::checkSymmetry");
        auto h = problem();
        const AbstractMatslise<Sym> &as = h;
        auto s = side("side"), t = side("other");
        bool same = true;
        for (int k = 0; k < 4; ++k) if (!(s.data[k] == t.data[k])) { same = false; break; }
        cover(same ? "identical conditions" : "different conditions");
        auto raises = [&](int what) {
            try {
                if (what == 0) as.eigenvaluesByIndex(0, 2, s, t);
                else as.eigenvalues(Sym(0), Sym(1), s, t);
                return false;
            } catch (std::runtime_error &) { return true; }
        };
        queries::maxCount() = 0;
        for (int k = 0; k < 2; ++k)
            proveExact("different boundary conditions raise an error, identical ones do not", raises(k) == !same, same ? "error for identical conditions" : "no error for different conditions");
        queries::maxCount() = 3;
    });
}
VC_CASE(construction) {
    explore("construction", [] {
        underContract("MatsliseHalf::MatsliseHalf");
        Sym b = Sym::var("b"), x = Sym::var("x");
        auto h = problem();
        prove("the half problem lives on [0, b]", eq(queries::builtMin(), 0) && eq(queries::builtMax(), b));
        prove("the full domain is [-b, b]", eq(h.domain.min, -b) && eq(h.domain.max, b));
        prove("the half problem has the same potential", eq(queries::builtPotential()(x), uf("V", {x})));
        prove("the tolerance is passed on", eq(queries::builtTolerance(), Sym::var("tol")) && eq(h.ms->tolerance, Sym::var("tol")));
        canary("the half problem starts at -b", eq(queries::builtMin(), -b));
    });
}
