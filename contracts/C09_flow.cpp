// Matslise::Sector::propagate with angles: what one interval adds to the angle of every column
#include "env_flow.h"
typedef matslise::Matslise<vc::Sym>::Sector Sector;
// contract of prufer (C09): the angle from a point to a point delta further to the right, of one column
static vc::Sym turn(const vc::Sym &E, const vc::Sym &delta, const vc::Sym &u0, const vc::Sym &v0, const vc::Sym &u1, const vc::Sym &v1) {
    return vc::uf("turn", {E, delta, u0, v0, u1, v1});
}
#ifndef REAL_PRUFER
template<> template<> inline Sym Sector::prufer<1>(const Sym &E, const Sym &delta, const matslise::Y<Sym, 1, 1> &y0, const matslise::Y<Sym, 1, 1> &y1) const {
    return turn(E, delta, y0.data(0, 0), y0.data(1, 0), y1.data(0, 0), y1.data(1, 0));
}
template<> template<> inline Eigen::Array<Sym, 2, 1> Sector::prufer<2>(const Sym &E, const Sym &delta, const matslise::Y<Sym, 1, 2> &y0, const matslise::Y<Sym, 1, 2> &y1) const {
    Eigen::Array<Sym, 2, 1> r;
    for (int c = 0; c < 2; ++c) r[c] = turn(E, delta, y0.data(0, c), y0.data(1, c), y1.data(0, c), y1.data(1, c));
    return r;
}
#endif
#include "sources_matslise.h"
using namespace vc;
typedef Eigen::Matrix<Sym, 2, 2> M2;

template<int cols> static Y<Sym, 1, cols> start() {
    Y<Sym, 1, cols> y;
    for (int c = 0; c < cols; ++c)
        for (int r = 0; r < 4; ++r) y.data(r, c) = Sym::var("y" + std::to_string(r) + "_" + std::to_string(c));
    return y;
}
template<int cols> static void angle(Direction d) {
    explore("angle", [d] {
        underContract("Matslise::Sector::propagate");
        underContract("propagateDelta (matslise/matslise/sector.cpp)");
        Sym lo = Sym::var("min"), hi = Sym::var("max");
        assume(lt(lo, hi));
        auto ms = oneSector(lo, hi, d);
        const Sector &s = *ms->sectors[0];
        Sym a = Sym::var("a"), b = Sym::var("b"), E = Sym::var("E");
        bool use_h = choose("use_h");
        auto y = start<cols>();
        auto r = s.template propagate<true, cols>(E, y, a, b, use_h);
        Sym ca = a < lo ? lo : hi < a ? hi : a, cb = b < lo ? lo : hi < b ? hi : b;
        M2 Fa = flow::Phi(s, E, a, use_h), Fb = flow::Phi(s, E, b, use_h);
        M2 toStart = flow::adj(Fa), U = Fb * toStart;
        bool stays = provable(eq(ca, cb)) && !provable(gt(a, lo) && lt(a, hi));
        if (provable(gt(a, lo)) && provable(lt(b, lo)) && provable(lt(a, hi))) cover("leftwards out of the interval");
        if (provable(lt(a, lo)) && provable(gt(b, hi))) cover("the interval is crossed");
        for (int c = 0; c < cols; ++c) {
            Sym u = y.data(0, c), v = y.data(1, c);
            // values where the formula starts and at b
            Sym us = toStart(0, 0) * u + toStart(0, 1) * v, vs = toStart(1, 0) * u + toStart(1, 1) * v;
            Sym ub = U(0, 0) * u + U(0, 1) * v, vb = U(1, 0) * u + U(1, 1) * v;
            prove("with angles the same solution", eq(r.first.data(0, c), ub) && eq(r.first.data(1, c), vb));
            Sym t(0);
            if (!stays) {
                if (d == Direction::forward) {
                    if (ca > lo) t -= turn(E, ca - lo, us, vs, u, v);
                    if (cb > lo) t += turn(E, cb - lo, us, vs, ub, vb);
                } else {
                    if (ca < hi) t += turn(E, hi - ca, u, v, us, vs);
                    if (cb < hi) t -= turn(E, hi - cb, ub, vb, us, vs);
                }
            }
            prove("the angle of the part between a and b, counted to the right, added to the right and subtracted to the left", eq(r.second[c], t));
        }
        canary("the angle does not change", eq(r.second[0], 0));
    });
}
VC_CASE(forward1) { angle<1>(Direction::forward); }
VC_CASE(backward1) { angle<1>(Direction::backward); }
VC_CASE(forward2) { angle<2>(Direction::forward); }
VC_CASE(backward2) { angle<2>(Direction::backward); }
