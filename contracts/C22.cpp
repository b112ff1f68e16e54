// Eigenpairs pair each eigenvalue with its own eigenfunction; the shorthands use one boundary condition on both sides
#include "env_queries.h"
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
using queries::side;
using queries::List;
typedef std::vector<std::tuple<int, Sym, std::unique_ptr<queries::Eigenfunction>>> Pairs;

static Options upTo() {
    Options o;
    o.bounded = true;
    o.bound = "up to 4 eigenvalues";
    return o;
}
static void sameFunction(const std::string &what, const queries::Eigenfunction &f, const queries::Eigenfunction &g) {
    Sym x = Sym::var("x");
    auto a = f(x), b = g(x);
    prove(what + ": value", eq(a[0], b[0]));
    prove(what + ": derivative", eq(a[1], b[1]));
}
template<typename S> static void pairsMatch(const std::string &what, const S &s, const Pairs &p, const List &l, const Y<Sym> &left, const Y<Sym> &right) {
    proveExact(what + ": as many", p.size() == l.size(), std::to_string(p.size()) + " instead of " + std::to_string(l.size()));
    for (size_t i = 0; i < p.size() && i < l.size(); ++i) {
        proveExact(what + ": the index of the eigenvalue", std::get<0>(p[i]) == l[i].first, std::to_string(std::get<0>(p[i])) + " instead of " + std::to_string(l[i].first));
        prove(what + ": the energy of the eigenvalue", eq(std::get<1>(p[i]), l[i].second));
        sameFunction(what + ": the eigenfunction of that energy and index", *std::get<2>(p[i]), *s.eigenfunction(l[i].second, left, right, l[i].first));
    }
}
VC_CASE(full_pairs) {
    explore("pairs", [] {
        underContract("AbstractMatslise::eigenpairsByIndex");
        queries::counts().clear();
        Matslise<Sym> ms([](const Sym &x) { return uf("V", {x}); }, Sym::var("a"), Sym::var("b"), Sym::var("tol"));
        auto l = side("left"), r = side("right");
        int Imin = 0, Imax;
        while (Imin < 2 && choose("Imin")) ++Imin;
        Imax = Imin;
        while (Imax < Imin + 4 && choose("Imax")) ++Imax;
        cover("asked");
        pairsMatch("pairs", ms, ms.eigenpairsByIndex(Imin, Imax, l, r), ms.eigenvaluesByIndex(Imin, Imax, l, r), l, r);
        pairsMatch("pairs with one condition", ms, ms.eigenpairsByIndex(Imin, Imax, l), ms.eigenvaluesByIndex(Imin, Imax, l, l), l, l);
        if (Imax > Imin) canary("the sides may be exchanged", eq(std::get<1>(ms.eigenpairsByIndex(Imin, Imax, l, r)[0]), queries::energy(Imin, r, l)));
    }, upTo());
}
VC_CASE(full_shorthands) {
    explore("shorthands", [] {
        underContract("AbstractMatslise::eigenvaluesByIndex (one condition)");
        underContract("AbstractMatslise::eigenvalues (one condition)");
        underContract("AbstractMatslise::eigenvalueError (one condition)");
        underContract("AbstractMatslise::eigenfunction (one condition)");
        queries::counts().clear();
        Matslise<Sym> ms([](const Sym &x) { return uf("V", {x}); }, Sym::var("a"), Sym::var("b"), Sym::var("tol"));
        const AbstractMatslise<Sym> &as = ms;
        auto s = side("side");
        Sym E = Sym::var("E"), Emin = Sym::var("Emin"), Emax = Sym::var("Emax");
        queries::sameList("by index", as.eigenvaluesByIndex(1, 4, s), queries::byIndex(1, 4, s, s));
        queries::sameList("in a range", as.eigenvalues(Emin, Emax, s), queries::inRange(Emin, Emax, s, s));
        prove("error estimate with one condition", eq(as.eigenvalueError(E, s), queries::error(E, s, s)));
        prove("error estimate with one condition and an index", eq(as.eigenvalueError(E, s, 3), queries::error(E, s, s)));
        sameFunction("eigenfunction with one condition", *as.eigenfunction(E, s), queries::Solution(E, s, s));
        sameFunction("eigenfunction with one condition and an index", *as.eigenfunction(E, s, 2), queries::Solution(E, s, s));
        canary("the condition plays no role", eq(as.eigenvalueError(E, s), queries::error(E, side("other"), s)));
    }, upTo());
}
VC_CASE(half) {
    explore("half", [] {
        underContract("AbstractMatslise::eigenpairsByIndex");
        underContract("AbstractMatslise::checkSymmetry");
        queries::counts().clear();
        MatsliseHalf<Sym> ms([](const Sym &x) { return uf("V", {x}); }, Sym::var("b"), Sym::var("tol"));
        const AbstractMatslise<Sym> &as = ms;
        auto s = side("side"), t = side("other");
        Sym E = Sym::var("E"), Emin = Sym::var("Emin"), Emax = Sym::var("Emax");
        int Imin = 0, Imax;
        while (Imin < 2 && choose("Imin")) ++Imin;
        Imax = Imin;
        while (Imax < Imin + 4 && choose("Imax")) ++Imax;
        pairsMatch("pairs", as, as.eigenpairsByIndex(Imin, Imax, s), as.eigenvaluesByIndex(Imin, Imax, s), s, s);
        pairsMatch("pairs with the condition twice", as, as.eigenpairsByIndex(Imin, Imax, s, s), as.eigenvaluesByIndex(Imin, Imax, s), s, s);
        queries::sameList("by index", as.eigenvaluesByIndex(Imin, Imax, s, s), as.eigenvaluesByIndex(Imin, Imax, s));
        prove("error estimate", eq(as.eigenvalueError(E, s, s, 1), as.eigenvalueError(E, s, 1)));
        if (Imin == 0 && Imax == 0) queries::sameList("in a range", as.eigenvalues(Emin, Emax, s, s), as.eigenvalues(Emin, Emax, s));
        canary("the energy plays no role", eq(as.eigenvalueError(E, s, 0), as.eigenvalueError(Emin, s, 0)));
    }, upTo());
}
VC_CASE(half_sides) {
    Options o;
    o.allowThrow = false;
    explore("sides", [] {
        underContract("AbstractMatslise::checkSymmetry");
        queries::counts().clear();
        MatsliseHalf<Sym> ms([](const Sym &x) { return uf("V", {x}); }, Sym::var("b"), Sym::var("tol"));
        const AbstractMatslise<Sym> &as = ms;
        auto s = side("side"), t = side("other");
        Sym E = Sym::var("E");
        bool same = true;
        for (int k = 0; k < 4; ++k) if (!(s.data[k] == t.data[k])) { same = false; break; }
        auto raises = [&](int what) {
            try {
                if (what == 0) as.eigenvaluesByIndex(0, 2, s, t);
                if (what == 1) as.eigenvalues(E, E + 1, s, t);
                if (what == 2) as.eigenvalueError(E, s, t, 0);
                if (what == 3) as.eigenfunction(E, s, t, 0);
                if (what == 4) as.eigenpairsByIndex(0, 2, s, t);
                return false;
            } catch (std::runtime_error &) { return true; }
        };
        const char *names[] = {"eigenvaluesByIndex", "eigenvalues", "eigenvalueError", "eigenfunction", "eigenpairsByIndex"};
        queries::maxCount() = 0;
        cover(same ? "identical conditions" : "different conditions");
        for (int k = 0; k < 5; ++k)
            proveExact(std::string("half range: ") + names[k] + " raises an error exactly for different conditions", raises(k) == !same, same ? "error for identical conditions" : "no error for different conditions");
    });
}
