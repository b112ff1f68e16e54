// The constructor of one piece: p, w, the map r2x and the product p w are the projections of the right functions
#include "vc_eigen.h"
#include "env_legendre.h"
#include "liouville.h"
using vc::Sym;
using vc::F;
#include "liouville/liouville.cpp"
typedef matslise::LiouvilleTransformation<Sym> LT;
// one piece over the whole domain
template<> std::vector<LT::Piece> constructPiecewise<Sym>(const LT &lt) { return {LT::Piece{lt, lt.rDomain()}}; }
// contract of the bisection: the inverse of the map
template<> Sym x2r_impl<Sym>(const matslise::Polynomial<Sym, 8> &r2x, Sym x) { return vc::uf("inverse", {r2x(Sym(1)), x}); }
using namespace vc;

VC_CASE(piece) {
    explore("piece", [] {
        underContract("LiouvilleTransformation::Piece::Piece");
        Sym a = Sym::var("a"), b = Sym::var("b");
        assume(lt(a, b));
        LT t(matslise::Domain<Sym>{a, b}, [](const Sym &r) { return uf("p", {r}); }, [](const Sym &r) { return uf("q", {r}); },
             [](const Sym &r) { return uf("w", {r}); });
        auto &P = t.pieces[0];
        auto p = Legendre<Sym, 9>([](const Sym &r) { return uf("p", {r}); }, a, b).asPolynomial();
        auto w = Legendre<Sym, 9>([](const Sym &r) { return uf("w", {r}); }, a, b).asPolynomial();
        prove("the piece covers the given interval", eq(P.r.min, a) && eq(P.r.max, b));
        prove("the x-interval starts at zero", eq(P.x.min, 0));
        for (int i = 0; i <= 8; ++i) {
            prove("p is the projection of p on the interval", eq(P.p[i], p[i]));
            prove("w is the projection of w on the interval", eq(P.w[i], w[i]));
        }
        auto speed = Legendre<Sym, 8>([&](const Sym &r) { return sqrt(w(r) / p(r)); }, Sym(0), Sym(1)).asPolynomial();
        prove("the map starts at zero", eq(P.r2x[0], 0));
        for (int i = 0; i < 8; ++i)
            prove("the derivative of the map is the projection of sqrt(w/p)", eq((i + 1) * P.r2x[i + 1], (b - a) * speed[i]));
        prove("the x-interval ends at the image of the upper end", eq(P.x.max, P.r2x(Sym(1))));
        auto pw = Legendre<Sym, 11>([&](const Sym &x) {
            Sym r = uf("inverse", {P.r2x(Sym(1)), x});
            return p(r) * w(r);
        }, Sym(0), P.r2x(Sym(1))).asPolynomial();
        for (int i = 0; i <= 10; ++i) prove("p w is the projection of p w over the x-interval", eq(P.pwx[i], pw[i]));
        Sym nx = Sym::var("nx");
        prove("x2r of a piece scales the inverse of the map to the piece",
              eq(P.x2r(nx), a + (b - a) * uf("inverse", {P.r2x(Sym(1)), P.x.min + nx * (P.x.max - P.x.min)})));
        canary("the interval starts at zero", eq(P.r.min, 0));
    });
}
