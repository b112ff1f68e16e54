// Matslise::Sector::propagate: the flow of the interval between the clamped end points
#include "env_flow.h"
#include "sources_matslise.h"
using namespace vc;
typedef Matslise<Sym>::Sector Sector;
typedef Eigen::Matrix<Sym, 2, 2> M2;

template<int cols> static Y<Sym, 1, cols> start() {
    Y<Sym, 1, cols> y;
    for (int c = 0; c < cols; ++c)
        for (int r = 0; r < 4; ++r) y.data(r, c) = Sym::var("y" + std::to_string(r) + "_" + std::to_string(c));
    return y;
}
static std::unique_ptr<Matslise<Sym>> any(Direction d) {
    Sym lo = Sym::var("min"), hi = Sym::var("max");
    assume(lt(lo, hi));
    return oneSector(lo, hi, d);
}
static void covers(const Sector &s, const Sym &a, const Sym &b) {
    bool ai = provable(gt(a, s.min) && lt(a, s.max)), bi = provable(gt(b, s.min) && lt(b, s.max));
    if (ai && bi) cover(std::string("both points inside, ") + (provable(lt(a, b)) ? "rightwards" : provable(gt(a, b)) ? "leftwards" : "unordered"));
    if (provable(lt(a, s.min)) && provable(gt(b, s.max))) cover("the interval is crossed");
    if (provable(gt(a, s.max)) && provable(lt(b, s.min))) cover("the interval is crossed leftwards");
}

template<int cols> static void value(Direction d) {
    explore("value", [d] {
        underContract("Matslise::Sector::propagate");
        underContract("propagateDelta (matslise/matslise/sector.cpp)");
        underContract("T::operator*, T::operator/ (matslise/util/y.h)");
        auto ms = any(d);
        const Sector &s = *ms->sectors[0];
        Sym a = Sym::var("a"), b = Sym::var("b"), E = Sym::var("E");
        bool use_h = choose("use_h");
        auto y = start<cols>();
        Y<Sym, 1, cols> r = s.template propagate<false, cols>(E, y, a, b, use_h);
        M2 F1 = flow::Phi(s, E, b, use_h), F0 = flow::Phi(s, E, a, use_h);
        Eigen::Matrix<Sym, 2, 2> U = F1 * flow::adj(F0);
        covers(s, a, b);
        for (int c = 0; c < cols; ++c)
            for (int q = 0; q < 2; ++q)
                prove("the solution of the interval's equation at the end points clamped to the interval, each column by itself", eq(r.data(q, c), U(q, 0) * y.data(0, c) + U(q, 1) * y.data(1, c)));
        canary("the solution does not change", eq(r.data(0, 0), y.data(0, 0)));
    });
}
VC_CASE(value_forward1) { value<1>(Direction::forward); }
VC_CASE(value_backward1) { value<1>(Direction::backward); }
VC_CASE(value_forward2) { value<2>(Direction::forward); }
VC_CASE(value_backward2) { value<2>(Direction::backward); }

// consequences, executed on the real code
static void stops(Direction d, bool inside) {
    explore("stops", [d, inside] {
        auto ms = any(d);
        const Sector &s = *ms->sectors[0];
        Sym a = Sym::var("a"), b = Sym::var("b"), c = Sym::var("c"), E = Sym::var("E");
        if (inside)
            for (auto &x: {a, b, c}) assume(le(s.min, x) && le(x, s.max));
        bool use_h = choose("use_h");
        auto y = start<1>();
        auto ab = s.template propagate<false, 1>(E, y, a, b, use_h);
        auto back = s.template propagate<false, 1>(E, ab, b, a, use_h);
        for (int q = 0; q < 4; ++q) prove("going there and back returns the start, with its energy derivative", eq(back.data(q), y.data(q)));
        if (inside) {
            auto ac = s.template propagate<false, 1>(E, y, a, c, use_h);
            auto acb = s.template propagate<false, 1>(E, ac, c, b, use_h);
            for (int q = 0; q < 4; ++q) prove("an intermediate stop does not matter", eq(acb.data(q), ab.data(q)));
        }
        Y<Sym, 1, 2> two = start<2>();
        auto r = s.template propagate<false, 2>(E, two, a, b, use_h);
        auto W = [](const Y<Sym, 1, 2> &y) { return y.data(0, 0) * y.data(1, 1) - y.data(1, 0) * y.data(0, 1); };
        prove("the Wronskian of two solutions is preserved", eq(W(r), W(two)));
        auto aa = s.template propagate<false, 1>(E, y, a, a, use_h);
        for (int q = 0; q < 4; ++q) prove("no step, no change", eq(aa.data(q), y.data(q)));
        canary("a = b", eq(a, b));
    });
}
VC_CASE(stops_forward) { stops(Direction::forward, true); }
VC_CASE(stops_backward) { stops(Direction::backward, true); }
VC_CASE(return_forward) { stops(Direction::forward, false); }
VC_CASE(return_backward) { stops(Direction::backward, false); }

