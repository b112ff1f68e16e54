// The error estimate of an eigenvalue: the distance to the eigenvalue of the reference formula
#include "env_matslise.h"
namespace newton {
    using namespace vc;
    struct Evaluation { Sym E; bool use_h; std::vector<Sym> sides; };
    inline std::vector<Evaluation> &log() { static std::vector<Evaluation> l; return l; }
    inline std::vector<Sym> data(const matslise::Y<Sym> &l, const matslise::Y<Sym> &r) {
        std::vector<Sym> v;
        for (int i = 0; i < 4; ++i) v.push_back(l.data[i]);
        for (int i = 0; i < 4; ++i) v.push_back(r.data[i]);
        return v;
    }
    inline Sym f(int k, const Sym &E, bool use_h) { return uf("match" + std::to_string(k) + (use_h ? "h" : "ref"), {E}); }
}
// contract of matchingError (C06): functions of the energy, with the formula and the conditions asked for
template<> inline std::tuple<Sym, Sym, Sym> matslise::Matslise<Sym>::matchingError(const Sym &E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, bool use_h) const {
    newton::log().push_back({E, use_h, newton::data(l, r)});
    assume(ne(newton::f(1, E, use_h), 0));
    return {newton::f(0, E, use_h), newton::f(1, E, use_h), Sym(3) * vc::PI()};
}
#include "sources_matslise.h"
using namespace vc;
using matslise::Y;
static Y<Sym> side(const std::string &name) {
    Y<Sym> y;
    for (int i = 0; i < 4; ++i) y.data[i] = Sym::var(name + std::to_string(i));
    return y;
}
static std::unique_ptr<matslise::Matslise<Sym>> problem() {
    newton::log().clear();
    auto ms = oneSector(Sym::var("xmin"), Sym::var("xmax"), matslise::Direction::forward);
    ms->tolerance = Sym::var("tolerance");
    assume(gt(ms->tolerance, 0));
    return ms;
}
enum Form { plain, with_index, abstract, one_side, one_side_index };
static Sym ask(const matslise::Matslise<Sym> &ms, const Sym &E, const Y<Sym> &l, const Y<Sym> &r, Form form) {
    const matslise::AbstractMatslise<Sym> &a = ms;
    switch (form) {
        case plain: return ms.eigenvalueError(E, l, r);
        case with_index: return ms.eigenvalueError(E, l, r, 3);
        case abstract: return a.eigenvalueError(E, l, r, 7);
        case one_side: return a.eigenvalueError(E, l);
        default: return a.eigenvalueError(E, l, 5);
    }
}
static void estimate(Form form) {
    explore("estimate", [form] {
        underContract("Matslise::eigenvalueError");
        underContract("newtonIteration");
        auto ms = problem();
        auto l = side("left"), r = form >= one_side ? l : side("right");
        Sym E = Sym::var("E");
        Sym error = ask(*ms, E, l, r, form);
        auto log = newton::log();
        int n = log.size();
        proveExact("the reference formula is evaluated", n > 0, "");
        if (!n) return;
        for (auto &e: log) {
            proveExact("only the reference formula is used", !e.use_h, "");
            auto d = newton::data(l, r);
            for (int i = 0; i < 8; ++i) prove("the boundary conditions are those of the eigenvalue", eq(e.sides[i], d[i]));
        }
        prove("the search starts at the eigenvalue", eq(log[0].E, E));
        auto step = [&](int k) { return newton::f(0, log[k].E, false) / newton::f(1, log[k].E, false); };
        for (int k = 1; k < n; ++k) prove("the search follows the tangent", eq(log[k].E, log[k - 1].E - step(k - 1)));
        Sym found = log[n - 1].E - step(n - 1);
        prove("the estimate is the distance to the energy that was found", ge(error, 0) && (eq(error, E - found) || eq(error, found - E)));
        if (n < 20) prove("the search ends when the matching condition has converged", le(abs(step(n - 1)), ms->tolerance));
        if (n == 1) {
            prove("zero when the eigenvalue satisfies the reference condition", implies(eq(newton::f(0, E, false), 0), eq(error, 0)));
            prove("nothing but an exact match gives zero", implies(eq(error, 0), eq(newton::f(0, E, false), 0)));
            canary("always zero", eq(error, 0));
            canary("the fine formula", eq(error * newton::f(1, E, true), newton::f(0, E, true)));
        } else prove("the search only goes on where the conditions do not agree", ne(newton::f(0, E, false), 0));
        cover(n == 1 ? "found at once" : "found later");
    });
}
VC_CASE(form_plain) { estimate(plain); }
VC_CASE(form_index) { estimate(with_index); }
VC_CASE(form_abstract) { estimate(abstract); }
VC_CASE(form_one_side) { estimate(one_side); }
VC_CASE(form_one_side_index) { estimate(one_side_index); }
