// The Sturm-Liouville queries are those of the transformed Schrodinger problem
#include "env_queries.h"
#include "liouville.h"
using namespace vc;
using matslise::Y;
typedef matslise::LiouvilleTransformation<Sym> LT;
static Y<Sym> apply(const std::string &f, const Sym &at, const Y<Sym> &y) {
    Y<Sym> r;
    for (int i = 0; i < 2; ++i) r.data[i] = uf(f + std::to_string(i), {at, y.data[0], y.data[1]});
    for (int i = 2; i < 4; ++i) r.data[i] = uf(f + std::to_string(i), {at, y.data[0], y.data[1], y.data[2], y.data[3]});
    return r;
}
// contracts of the transformation (C16, C17)
static std::vector<LT::Function> given; // p, q, w as the transformation received them
static matslise::Domain<Sym> givenDomain;
template<> LT::Piece::Piece(const LT &, const matslise::Domain<Sym> &d) : r(d), x({Sym::var("xmin"), Sym::var("xmax")}) {}
template<> LT::LiouvilleTransformation(const matslise::Domain<Sym> &d, const Function &p, const Function &q, const Function &w)
        : m_rDomain(d), m_p(p), m_q(q), m_w(w), pieces{Piece(*this, d)} {
    given = {p, q, w};
    givenDomain = d;
}
template<> Sym LT::r2x(Sym r) const { return uf("r2x", {r}); }
template<> Sym LT::x2r(Sym x) const { return uf("x2r", {x}); }
template<> Sym LT::V(Sym x) const { return uf("transformedV", {x}); }
template<> Y<Sym> LT::z2y(const Sym &r, const Y<Sym> &z) const { return apply("z2y", r, z); }
template<> Y<Sym> LT::y2z(const Sym &x, const Y<Sym> &y) const { return apply("y2z", x, y); }
#include "sources_matslise.h"
#include "liouville/sturm_liouville.cpp"

static Sym a_ = Sym::var("a"), b_ = Sym::var("b"), tol = Sym::var("tol");
static matslise::SturmLiouville<Sym> problem() {
    return matslise::SturmLiouville<Sym>([](const Sym &r) { return uf("p", {r}); }, [](const Sym &r) { return uf("q", {r}); },
                                         [](const Sym &r) { return uf("w", {r}); }, {a_, b_}, tol);
}
static Options upTo() {
    Options o;
    o.bounded = true;
    o.bound = "up to 4 eigenvalues, arrays of up to 3 points";
    return o;
}
VC_CASE(constructor) {
    explore("constructor", [] {
        underContract("SturmLiouville::SturmLiouville");
        assume(lt(a_, b_));
        auto s = problem();
        Sym r = Sym::var("r");
        prove("p, q and w keep their places", eq(given[0](r), uf("p", {r})) && eq(given[1](r), uf("q", {r})) && eq(given[2](r), uf("w", {r})));
        prove("the domain is passed on", eq(givenDomain.min, a_) && eq(givenDomain.max, b_));
        prove("the Schrodinger problem has the transformed potential", eq(queries::builtPotential()(r), uf("transformedV", {r})));
        prove("the Schrodinger problem lives on the x-domain", eq(queries::builtMin(), Sym::var("xmin")) && eq(queries::builtMax(), Sym::var("xmax")));
        prove("the tolerance is passed on", eq(queries::builtTolerance(), tol));
        canary("the x-domain is the r-domain", eq(queries::builtMin(), a_));
    });
}
VC_CASE(values) {
    explore("values", [] {
        underContract("SturmLiouville::eigenvaluesByIndex");
        underContract("SturmLiouville::eigenvalueError");
        auto s = problem();
        auto l = queries::side("left"), r = queries::side("right");
        auto L = apply("z2y", a_, l), R = apply("z2y", b_, r);
        int Imin = 0, Imax;
        while (Imin < 2 && choose("Imin")) ++Imin;
        Imax = Imin;
        while (Imax < Imin + 4 && choose("Imax")) ++Imax;
        queries::sameList("eigenvalues by index", s.eigenvaluesByIndex(Imin, Imax, l, r), queries::byIndex(Imin, Imax, L, R));
        canary("the conditions are not transformed", eq(queries::energy(0, l, r), queries::energy(0, L, R)));
    }, upTo());
}
VC_CASE(error_estimate) {
    explore("error", [] {
        underContract("SturmLiouville::eigenvalueError");
        auto s = problem();
        auto l = queries::side("left"), r = queries::side("right");
        auto L = apply("z2y", a_, l), R = apply("z2y", b_, r);
        Sym E = Sym::var("E");
        prove("the error estimate is that of the Schrodinger problem", eq(s.eigenvalueError(E, l, r), queries::error(E, L, R)));
        prove("the error estimate with an index is that of the Schrodinger problem", eq(s.eigenvalueError(E, l, r, 4), queries::error(E, L, R)));
        canary("the sides may be exchanged", eq(queries::error(E, R, L), s.eigenvalueError(E, l, r)));
    });
}
VC_CASE(pairs) {
    explore("pairs", [] {
        underContract("SturmLiouville::eigenpairsByIndex");
        underContract("SLEigenfunction::operator()");
        auto s = problem();
        auto l = queries::side("left"), r = queries::side("right");
        auto L = apply("z2y", a_, l), R = apply("z2y", b_, r);
        int Imin = 0, Imax;
        while (Imin < 2 && choose("Imin")) ++Imin;
        Imax = Imin;
        while (Imax < Imin + 4 && choose("Imax")) ++Imax;
        auto p = s.eigenpairsByIndex(Imin, Imax, l, r);
        auto want = queries::byIndex(Imin, Imax, L, R);
        proveExact("eigenpairs: as many", p.size() == want.size(), std::to_string(p.size()) + " instead of " + std::to_string(want.size()));
        int points = 0;
        while (points < 3 && choose("points")) ++points;
        Eigen::Array<Sym, Eigen::Dynamic, 1> xs(points);
        for (int k = 0; k < points; ++k) xs[k] = Sym::var("x" + std::to_string(k));
        for (size_t i = 0; i < p.size() && i < want.size(); ++i) {
            proveExact("eigenpairs: the same indices in the same order", std::get<0>(p[i]) == want[i].first, std::to_string(std::get<0>(p[i])));
            prove("eigenpairs: the same energies in the same order", eq(std::get<1>(p[i]), want[i].second));
            auto &f = *std::get<2>(p[i]);
            auto expected = [&](const Sym &at) {
                Sym x = uf("r2x", {at});
                Y<Sym> y;
                y.data[0] = queries::value(0, want[i].second, L, R, x), y.data[1] = queries::value(1, want[i].second, L, R, x);
                y.data[2] = 0, y.data[3] = 0;
                return apply("y2z", x, y);
            };
            Sym at = Sym::var("at");
            auto z = f(at);
            for (int k = 0; k < 2; ++k) prove("the eigenfunction is transformed back at its point", eq(z[k], expected(at).data[k]));
            auto zs = f(xs);
            proveExact("an array of points: as many values", zs.rows() == points, std::to_string(zs.rows()));
            for (int j = 0; j < points && j < zs.rows(); ++j)
                for (int k = 0; k < 2; ++k) prove("an array of points: each value is transformed back at its point", eq(zs(j, k), expected(xs[j]).data[k]));
            canary("nothing is transformed back", eq(z[0], queries::value(0, want[i].second, L, R, at)));
        }
    }, upTo());
}
