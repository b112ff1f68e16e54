// The Sturm-Liouville solver reports the error of the transformed problem
#include "env_queries.h"
#include "liouville.h"
using namespace vc;
using matslise::Y;
typedef matslise::LiouvilleTransformation<Sym> LT;
static Y<Sym> apply(const std::string &f, const Sym &at, const Y<Sym> &y) {
    Y<Sym> r;
    for (int i = 0; i < 4; ++i) r.data[i] = uf(f + std::to_string(i), {at, y.data[0], y.data[1], y.data[2], y.data[3]});
    return r;
}
template<> LT::Piece::Piece(const LT &, const matslise::Domain<Sym> &d) : r(d), x({Sym::var("xmin"), Sym::var("xmax")}) {}
template<> LT::LiouvilleTransformation(const matslise::Domain<Sym> &d, const Function &p, const Function &q, const Function &w)
        : m_rDomain(d), m_p(p), m_q(q), m_w(w), pieces{Piece(*this, d)} {}
template<> Sym LT::r2x(Sym r) const { return uf("r2x", {r}); }
template<> Sym LT::x2r(Sym x) const { return uf("x2r", {x}); }
template<> Sym LT::V(Sym x) const { return uf("transformedV", {x}); }
template<> Y<Sym> LT::z2y(const Sym &r, const Y<Sym> &z) const { return apply("z2y", r, z); }
template<> Y<Sym> LT::y2z(const Sym &x, const Y<Sym> &y) const { return apply("y2z", x, y); }
#include "sources_matslise.h"
#include "liouville/sturm_liouville.cpp"
VC_CASE(sturm_liouville) {
    explore("sturm-liouville", [] {
        underContract("SturmLiouville::eigenvalueError");
        Sym a = Sym::var("a"), b = Sym::var("b"), E = Sym::var("E");
        matslise::SturmLiouville<Sym> s([](const Sym &r) { return uf("p", {r}); }, [](const Sym &r) { return uf("q", {r}); },
                                        [](const Sym &r) { return uf("w", {r}); }, {a, b}, Sym::var("tol"));
        auto l = queries::side("left"), r = queries::side("right");
        auto expected = queries::error(E, apply("z2y", a, l), apply("z2y", b, r));
        prove("the error of the Schrodinger problem with the transformed conditions", eq(s.eigenvalueError(E, l, r), expected));
        int index = 0;
        while (index < 4 && choose("index")) ++index;
        prove("the same with an index", eq(s.eigenvalueError(E, l, r, index), expected));
        canary("the conditions are not transformed", eq(s.eigenvalueError(E, l, r), queries::error(E, l, r)));
    });
}
