// Contract of Matslise::Sector::propagate in the form that whole-domain solutions need: a homogeneous function of the
// start, between equal points the identity.  The flow of a start is a vector of named values; the flow of a multiple of
// that start is that multiple of it (C07).
#pragma once
#include "env_matslise.h"
namespace table {
    using namespace vc;
    typedef matslise::Matslise<Sym>::Sector S;
    typedef std::vector<Sym> Vec;
    struct Entry {
        Sym lo, hi, E, a, b;
        bool use_h;
        Vec start, end;
    };
    inline std::vector<Entry> &entries() { static std::vector<Entry> e; return e; }
    inline bool same(const Sym &a, const Sym &b) {
        F f = eq(a, b);
        return f.id == 1 || (f.id != 0 && provable(f));
    }
    inline Sym clampTo(const Sym &x, const Sym &lo, const Sym &hi) { return x < lo ? lo : hi < x ? hi : x; }
    // c with y = c * base
    inline bool multiple(const Vec &y, const Vec &base, Sym &c) {
        for (int j = 0; j < 4; ++j) {
            if (isConst(base[j].t())) continue;
            if (!factor(y[j], base[j], c)) return false;
            for (int k = 0; k < 4; ++k) if (k != j && eq(y[k], c * base[k]).id != 1) return false;
            return true;
        }
        return false;
    }
    inline Vec flow(const Sym &lo, const Sym &hi, const Sym &E, const Sym &a, const Sym &b, bool use_h, const Vec &y) {
        if (a == b) return y;
        Entry e{lo, hi, E, a, b, use_h, y, {}};
        std::vector<std::pair<Entry, Sym>> alike;
        for (auto &f: entries()) {
            Sym c;
            if (f.use_h != use_h || !same(f.lo, lo) || !same(f.hi, hi) || !same(f.E, E) || !same(f.a, a) || !multiple(y, f.start, c)) continue;
            if (same(f.b, b)) {
                Vec r;
                for (auto &s: f.end) r.push_back(c * s);
                return r;
            }
            alike.push_back({f, c});
        }
        for (int k = 0; k < 4; ++k) e.end.push_back(Sym::fresh("flow" + std::to_string(k)));
        // equal points have equal values, also when that is learned later
        for (auto &f: alike) for (int k = 0; k < 4; ++k) assume(implies(eq(f.first.b, b), eq(e.end[k], f.second * f.first.end[k])));
        entries().push_back(e);
        return e.end;
    }
    inline Vec vec(const matslise::Y<Sym> &y) { return {y.data[0], y.data[1], y.data[2], y.data[3]}; }
    inline matslise::Y<Sym> sector(const S &s, const Sym &E, const matslise::Y<Sym> &y0, const Sym &a, const Sym &b, bool use_h) {
        Vec r = flow(s.min, s.max, E, clampTo(a, s.min, s.max), clampTo(b, s.min, s.max), use_h, vec(y0));
        matslise::Y<Sym> y = y0;
        for (int i = 0; i < 4; ++i) y.data[i] = r[i];
        return y;
    }
    inline std::unique_ptr<matslise::Matslise<Sym>> onMesh(const std::vector<Sym> &x, int match) {
        GivenMesh mesh;
        mesh.make = [=](const matslise::Matslise<Sym> *ms) {
            GivenMesh::Return r;
            for (size_t i = 0; i + 1 < x.size(); ++i)
                r.sectors.push_back(std::make_unique<S>(ms, x[i], x[i + 1], (int) i <= match ? matslise::Direction::forward : matslise::Direction::backward));
            r.matchIndex = match;
            return r;
        };
        return std::make_unique<matslise::Matslise<Sym>>([](const Sym &x) { return uf("V", {x}); }, x.front(), x.back(), Sym::var("tolerance"), mesh);
    }
    inline std::vector<Sym> meshPoints(int n) {
        std::vector<Sym> x;
        for (int i = 0; i <= n; ++i) {
            x.push_back(Sym::var("x" + std::to_string(i)));
            if (i) assume(lt(x[i - 1], x[i]));
        }
        return x;
    }
}
template<> template<> inline matslise::Y<Sym, 1, 1>
matslise::Matslise<Sym>::Sector::propagate<false, 1>(const Sym &E, const matslise::Y<Sym, 1, 1> &y0, const Sym &a, const Sym &b, bool use_h) const {
    return table::sector(*this, E, y0, a, b, use_h);
}
template<> template<> inline std::pair<matslise::Y<Sym, 1, 1>, Eigen::Array<Sym, 1, 1>>
matslise::Matslise<Sym>::Sector::propagate<true, 1>(const Sym &E, const matslise::Y<Sym, 1, 1> &y0, const Sym &a, const Sym &b, bool use_h) const {
    Eigen::Array<Sym, 1, 1> t;
    t[0] = Sym::fresh("turn");
    return {table::sector(*this, E, y0, a, b, use_h), t};
}
