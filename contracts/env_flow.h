// Contract of Matslise::Sector::calculateT as the flow of one mesh interval: T(E, 0) = I, det T = 1 (truncation of the
// expansion aside, C04), dT = dT/dE.  m11 is expressed by the others, so identities are proved where m00 != 0, a dense
// subset of the matrices with determinant one.
#pragma once
#include "env_matslise.h"

namespace flow {
    using namespace vc;
    // the flag only matters at the end of the interval
    inline Sym formula(const matslise::Matslise<Sym>::Sector &s, const Sym &delta, bool use_h) {
        if (provable(eq(delta, s.h))) return Sym(use_h ? 1 : 2);
        if (provable(ne(delta, s.h))) return Sym(0);
        return delta == s.h ? Sym(use_h ? 1 : 2) : Sym(0);
    }
    inline std::vector<Sym> args(const matslise::Matslise<Sym>::Sector &s, const Sym &E, const Sym &delta, bool use_h) {
        Sym f = formula(s, delta, use_h);
        return {s.min, s.max, Sym((int) s.direction), f, E, provable(eq(f, 0)) ? delta : s.h};
    }
    inline matslise::T<Sym> at(const matslise::Matslise<Sym>::Sector &s, const Sym &E, const Sym &delta, bool use_h) {
        matslise::T<Sym> t(1);
        if (provable(eq(delta, 0))) return t;
        auto a = args(s, E, delta, use_h);
        Sym m00 = uf("m00", a), m01 = uf("m01", a), m10 = uf("m10", a);
        Sym d00 = uf("dm00", a), d01 = uf("dm01", a), d10 = uf("dm10", a);
        assume(ne(m00, 0));
        t.t << m00, m01, m10, (1 + m01 * m10) / m00;
        t.dt << d00, d01, d10, (d01 * m10 + m01 * d10) / m00 - (1 + m01 * m10) * d00 / (m00 * m00);
        return t;
    }
    // energy derivatives of the contract functions
    inline Sym rule(const std::string &fn, const std::vector<Sym> &a, const Sym &) {
        if (fn[0] == 'm' && fn.size() == 3) return uf("d" + fn, a);
        if (fn.substr(0, 2) == "eV") return Sym(0);
        throw std::runtime_error("no derivative for " + fn);
    }
    // flow from the start of the interval to x (clamped to it), in the coordinates of the problem
    inline Eigen::Matrix<Sym, 2, 2> Phi(const matslise::Matslise<Sym>::Sector &s, const Sym &E, const Sym &x, bool use_h) {
        Sym c = x < s.min ? s.min : s.max < x ? s.max : x;
        if (s.direction == matslise::Direction::forward) return at(s, E, c - s.min, use_h).t;
        Eigen::Matrix<Sym, 2, 2> m = at(s, E, s.max - c, use_h).t;
        m(0, 1) = -m(0, 1);
        m(1, 0) = -m(1, 0);
        return m;
    }
    inline Eigen::Matrix<Sym, 2, 2> adj(const Eigen::Matrix<Sym, 2, 2> &m) {
        Eigen::Matrix<Sym, 2, 2> r;
        r << m(1, 1), -m(0, 1), -m(1, 0), m(0, 0);
        return r;
    }
}
template<> matslise::T<Sym> inline matslise::Matslise<Sym>::Sector::calculateT(const Sym &E, const Sym &delta, bool use_h) const {
    return flow::at(*this, E, delta, use_h);
}
template<> matslise::T<Sym> inline matslise::Matslise<Sym>::Sector::calculateT(const Sym &E, bool use_h) const {
    return flow::at(*this, E, h, use_h);
}
