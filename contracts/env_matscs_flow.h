// Contract of Matscs::Sector::calculateT as the flow of one mesh interval, an arbitrary regular 2n x 2n matrix with its
// energy derivative, the identity at offset zero.
#pragma once
#include "env_matscs.h"
namespace flow {
    using namespace vc;
    typedef matslise::Matscs<Sym>::Sector CSector;
    inline Sym formula(const CSector &s, const Sym &delta, bool use_h) {
        if (provable(eq(delta, s.h))) return Sym(use_h ? 1 : 2);
        if (provable(ne(delta, s.h))) return Sym(0);
        return delta == s.h ? Sym(use_h ? 1 : 2) : Sym(0);
    }
    inline matslise::T<Sym, Eigen::Dynamic> at(const CSector &s, const Sym &E, const Sym &delta, bool use_h) {
        int n = s.n;
        matslise::T<Sym, Eigen::Dynamic> t(n);
        if (provable(eq(delta, 0))) return t;
        Sym f = formula(s, delta, use_h);
        std::vector<Sym> a{s.min, s.max, Sym((int) s.direction), f, E, provable(eq(f, 0)) ? delta : s.h};
        for (int r = 0; r < 2 * n; ++r)
            for (int c = 0; c < 2 * n; ++c) {
                std::string k = std::to_string(r) + std::to_string(c);
                t.t(r, c) = uf("m" + k, a);
                t.dt(r, c) = uf("dm" + k, a);
            }
        return t;
    }
    inline matslise::T<Sym, Eigen::Dynamic> atX(const CSector &s, const Sym &E, const Sym &x, bool use_h) {
        Sym c = x < s.min ? s.min : s.max < x ? s.max : x;
        return at(s, E, s.direction == matslise::Direction::forward ? c - s.min : s.max - c, use_h);
    }
}
template<> matslise::T<Sym, Eigen::Dynamic> inline matslise::Matscs<Sym>::Sector::calculateT(const Sym &E, const Sym &delta, bool use_h) const {
    return flow::at(*this, E, delta, use_h);
}
template<> matslise::T<Sym, Eigen::Dynamic> inline matslise::Matscs<Sym>::Sector::calculateT(const Sym &E, bool use_h) const {
    return flow::at(*this, E, h, use_h);
}
