// Contract of Matslise::Sector::propagate and Matslise::Sector::theta0 as they are seen from the whole domain: every
// column moves by the flow of the interval between the end points clamped to it (C07), the angle grows by what the
// interval adds (C09); nothing happens between equal points.  The start angle is some number in (-pi/2, pi/2] that is
// the same for every interval of a mesh (C09).
#pragma once
#include "env_matslise.h"
namespace prop {
    using namespace vc;
    typedef matslise::Matslise<Sym>::Sector S;
    inline Sym clampTo(const Sym &x, const Sym &lo, const Sym &hi) { return x < lo ? lo : hi < x ? hi : x; }
    // one column and its angle over the interval [lo, hi], from a to b inside of it
    inline std::vector<Sym> step(const Sym &lo, const Sym &hi, const Sym &E, const Sym &a, const Sym &b, bool use_h, const std::vector<Sym> &y) {
        if (a == b) return {y[0], y[1], y[2], y[3], Sym(0)};
        std::vector<Sym> z{lo, hi, E, a, b, Sym((int) use_h), y[0], y[1], y[2], y[3]}, r;
        for (int i = 0; i < 4; ++i) r.push_back(uf("step" + std::to_string(i), z));
        r.push_back(uf("turn", {lo, hi, E, a, b, Sym((int) use_h), y[0], y[1]}));
        return r;
    }
    template<int cols> std::pair<matslise::Y<Sym, 1, cols>, Eigen::Array<Sym, cols, 1>>
    sector(const S &s, const Sym &E, const matslise::Y<Sym, 1, cols> &y0, const Sym &a, const Sym &b, bool use_h) {
        matslise::Y<Sym, 1, cols> y = y0;
        Eigen::Array<Sym, cols, 1> t;
        Sym ca = clampTo(a, s.min, s.max), cb = clampTo(b, s.min, s.max);
        for (int c = 0; c < cols; ++c) {
            auto r = step(s.min, s.max, E, ca, cb, use_h, {y0.data(0, c), y0.data(1, c), y0.data(2, c), y0.data(3, c)});
            for (int i = 0; i < 4; ++i) y.data(i, c) = r[i];
            t[c] = r[4];
        }
        return {y, t};
    }
    inline Sym theta0(const Sym &E, const Sym &y0, const Sym &y1) { return uf("theta0", {E, y0, y1}); }
    inline void registerAxioms() {
        static bool done = false;
        if (done) return;
        done = true;
        addAxiom("theta0", [](const std::vector<Sym> &, const Sym &v) { return gt(2 * v, -PI()) && le(2 * v, PI()); });
    }
    // a mesh on the given points, forward up to the matching interval and backward after it
    inline std::unique_ptr<matslise::Matslise<Sym>> onMesh(const std::vector<Sym> &x, int match) {
        registerAxioms();
        GivenMesh mesh;
        mesh.make = [=](const matslise::Matslise<Sym> *ms) {
            GivenMesh::Return r;
            for (size_t i = 0; i + 1 < x.size(); ++i)
                r.sectors.push_back(std::make_unique<S>(ms, x[i], x[i + 1], (int) i <= match ? matslise::Direction::forward : matslise::Direction::backward));
            r.matchIndex = match;
            return r;
        };
        return std::make_unique<matslise::Matslise<Sym>>([](const Sym &x) { return uf("V", {x}); }, x.front(), x.back(), Sym::var("tolerance"), mesh);
    }
    inline std::vector<Sym> meshPoints(int n) {
        std::vector<Sym> x;
        for (int i = 0; i <= n; ++i) {
            x.push_back(Sym::var("x" + std::to_string(i)));
            if (i) assume(lt(x[i - 1], x[i]));
        }
        return x;
    }
}
#define PROP_SPEC(cols) \
template<> template<> inline std::pair<matslise::Y<Sym, 1, cols>, Eigen::Array<Sym, cols, 1>> \
matslise::Matslise<Sym>::Sector::propagate<true, cols>(const Sym &E, const matslise::Y<Sym, 1, cols> &y0, const Sym &a, const Sym &b, bool use_h) const { \
    return prop::sector<cols>(*this, E, y0, a, b, use_h); \
} \
template<> template<> inline matslise::Y<Sym, 1, cols> \
matslise::Matslise<Sym>::Sector::propagate<false, cols>(const Sym &E, const matslise::Y<Sym, 1, cols> &y0, const Sym &a, const Sym &b, bool use_h) const { \
    return prop::sector<cols>(*this, E, y0, a, b, use_h).first; \
}
PROP_SPEC(1)
PROP_SPEC(2)
#undef PROP_SPEC
template<> inline Sym matslise::Matslise<Sym>::Sector::theta0(const Sym &E, const matslise::Y<Sym> &y0) const {
    return prop::theta0(E, y0.data[0], y0.data[1]);
}
