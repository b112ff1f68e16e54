// The coordinate map across pieces and the transformed potential
#include "env_liouville.h"
LIOU_PIECE_X2R
#include "liouville/liouville.cpp"
using namespace vc;
using liou::Setup;
static Options pieces(int n) {
    Options o;
    if (n > 1) { o.bounded = true; o.bound = "lookup among up to 6 pieces"; }
    return o;
}
static void consistent(int n) {
    explore("map", [n] {
        underContract("LiouvilleTransformation::r2x");
        underContract("LiouvilleTransformation::x2r");
        underContract("findPiece");
        Setup s(n);
        cover("piece " + std::to_string(s.k));
        prove("r2x evaluates the map of the piece the point lies in", eq(s.lt->r2x(s.r), s.x));
        prove("x2r undoes r2x", eq(s.lt->x2r(s.x), s.r));
        prove("r2x undoes x2r", eq(s.lt->r2x(s.lt->x2r(s.x)), s.x));
        auto xd = s.lt->xDomain();
        prove("the x-domain starts where the first piece starts", eq(xd.min, s.lt->pieces.front().x.min));
        prove("the x-domain ends where the last piece ends", eq(xd.max, s.lt->pieces.back().x.max));
        canary("the map is the identity", eq(s.lt->r2x(s.r), s.r));
    }, pieces(n));
}
static void potential(int n) {
    explore("V", [n] {
        underContract("LiouvilleTransformation::V");
        Setup s(n);
        cover("piece " + std::to_string(s.k));
        auto &P = s.lt->pieces[s.k];
        // value and derivatives with respect to x of the polynomial for p w
        Sym nx = (s.x - P.x.min) / (P.x.max - P.x.min);
        Sym f = Sym::var("pw"), f1 = Sym::var("pw_x"), f2 = Sym::var("pw_xx");
        assume(gt(f, 0));
        // all polynomials of degree 10 with these values at nx
        Sym H = P.x.max - P.x.min;
        Eigen::Array<Sym, 11, 1> c;
        Sym power = 1, s2 = 0, s1 = 0, s0 = 0;
        for (int i = 3; i <= 10; ++i) {
            c[i] = Sym::var("pwx_" + std::to_string(i));
            power *= nx;
            s2 += i * (i - 1) * c[i] * power;
            s1 += i * c[i] * power * nx;
            s0 += c[i] * power * nx * nx;
        }
        c[2] = (f2 * H * H - s2) / 2;
        c[1] = f1 * H - s1 - 2 * c[2] * nx;
        c[0] = f - s0 - c[1] * nx - c[2] * nx * nx;
        P.pwx = matslise::Polynomial<Sym, 10>(c);
        Sym V = s.lt->V(s.x);
        prove("V is q/w plus the curvature of (pw)^(1/4) at the corresponding point",
              eq(V, uf("q", {s.r}) / s.w + f2 / (4 * f) - 3 * f1 * f1 / (16 * f * f)));
        canary("V is q/w", eq(V, uf("q", {s.r}) / s.w));
    }, pieces(n));
}
VC_CASE(map_one) { consistent(1); }
VC_CASE(map_two) { consistent(2); }
VC_CASE(map_six) { consistent(6); }
VC_CASE(potential_one) { potential(1); }
VC_CASE(potential_three) { potential(3); }
