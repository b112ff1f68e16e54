// Contracts of the queries of Matslise as its callers see them: each result is a function of the arguments (energies,
// indices, boundary conditions); the number of eigenvalues in a range is any number up to a bound.  What the results
// are is decided by C11, C12, C13 and C21.
#pragma once
#include "env_matslise.h"
#include <map>
namespace queries {
    using namespace vc;
    using matslise::Matslise;
    using matslise::Y;
    typedef matslise::AbstractMatslise<Sym>::Eigenfunction Eigenfunction;
    inline int &maxCount() { static int n = 3; return n; }
    inline std::map<std::vector<Id>, int> &counts() { static std::map<std::vector<Id>, int> m; return m; }
    inline std::vector<Sym> data(const Y<Sym> &l, const Y<Sym> &r) {
        return {l.data[0], l.data[1], l.data[2], l.data[3], r.data[0], r.data[1], r.data[2], r.data[3]};
    }
    inline std::vector<Sym> cat(std::vector<Sym> a, const std::vector<Sym> &b) {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
    // the same question has the same number of answers
    inline int count(const std::vector<Sym> &key, int most) {
        std::vector<Id> k;
        for (auto &s: key) k.push_back(s.t());
        auto it = counts().find(k);
        if (it != counts().end()) return it->second;
        int n = 0;
        while (n < most && choose("one more")) ++n;
        return counts()[k] = n;
    }
    typedef std::vector<std::pair<int, Sym>> List;
    // the energy of an index with these boundary conditions
    inline Sym energy(int index, const Y<Sym> &l, const Y<Sym> &r) { return uf("E", cat({Sym(index)}, data(l, r))); }
    inline List byIndex(int Imin, int Imax, const Y<Sym> &l, const Y<Sym> &r) {
        if (Imin < 0 || Imin > Imax) throw std::runtime_error("index range");
        List out;
        for (int i = Imin; i < Imax; ++i) out.push_back({i, energy(i, l, r)});
        return out;
    }
    // in an energy range: some indices that follow on each other
    inline List inRange(const Sym &Emin, const Sym &Emax, const Y<Sym> &l, const Y<Sym> &r) {
        auto key = cat({Emin, Emax}, data(l, r));
        int n = count(key, maxCount());
        key.push_back(Sym(-1));
        int first = count(key, 2);
        List out;
        for (int i = 0; i < n; ++i) out.push_back({first + i, energy(first + i, l, r)});
        return out;
    }
    inline Sym error(const Sym &E, const Y<Sym> &l, const Y<Sym> &r) { return uf("error", cat({E}, data(l, r))); }
    inline Sym value(int k, const Sym &E, const Y<Sym> &l, const Y<Sym> &r, const Sym &x) { return uf("f" + std::to_string(k), cat({E, x}, data(l, r))); }
    struct Solution : Eigenfunction {
        Sym E;
        Y<Sym> l, r;
        Solution(const Sym &E, const Y<Sym> &l, const Y<Sym> &r) : E(E), l(l), r(r) {}
        Eigen::Array<Sym, 2, 1> operator()(const Sym &x) const override {
            Eigen::Array<Sym, 2, 1> a;
            a[0] = value(0, E, l, r, x), a[1] = value(1, E, l, r, x);
            return a;
        }
        Eigen::Array<Sym, Eigen::Dynamic, 2> operator()(const Eigen::Array<Sym, Eigen::Dynamic, 1> &x) const override {
            Eigen::Array<Sym, Eigen::Dynamic, 2> a(x.size(), 2);
            for (Eigen::Index i = 0; i < x.size(); ++i) a(i, 0) = value(0, E, l, r, x[i]), a(i, 1) = value(1, E, l, r, x[i]);
            return a;
        }
    };
    inline Y<Sym> side(const std::string &name) {
        Y<Sym> y;
        for (int i = 0; i < 4; ++i) y.data[i] = Sym::var(name + std::to_string(i));
        return y;
    }
    inline void sameList(const std::string &what, const List &a, const List &b) {
        proveExact(what + ": as many", a.size() == b.size(), std::to_string(a.size()) + " instead of " + std::to_string(b.size()));
        for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
            proveExact(what + ": the same indices in the same order", a[i].first == b[i].first, std::to_string(a[i].first) + " instead of " + std::to_string(b[i].first));
            prove(what + ": the same energies in the same order", eq(a[i].second, b[i].second));
        }
    }
}
template<> inline queries::List matslise::Matslise<Sym>::eigenvaluesByIndex(int Imin, int Imax, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r) const {
    return queries::byIndex(Imin, Imax, l, r);
}
template<> inline queries::List matslise::Matslise<Sym>::eigenvalues(const Sym &Emin, const Sym &Emax, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r) const {
    return queries::inRange(Emin, Emax, l, r);
}
template<> inline Sym matslise::Matslise<Sym>::eigenvalueError(const Sym &E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, int) const {
    return queries::error(E, l, r);
}
template<> inline std::unique_ptr<queries::Eigenfunction> matslise::Matslise<Sym>::eigenfunction(const Sym &E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, int) const {
    return std::make_unique<queries::Solution>(E, l, r);
}
// a mesh of one interval; what it was built for is remembered
namespace queries {
    inline std::function<Sym(Sym)> &builtPotential() { static std::function<Sym(Sym)> f; return f; }
    inline Sym &builtMin() { static Sym s; return s; }
    inline Sym &builtMax() { static Sym s; return s; }
    inline Sym &builtTolerance() { static Sym s; return s; }
}
template<> inline matslise::sector_builder::SectorBuilderReturn<matslise::Matslise<Sym>>
matslise::sector_builder::AutomaticSectorBuilder<matslise::Matslise<Sym>>::operator()(const matslise::Matslise<Sym> *ms, const Sym &min, const Sym &max) const {
    matslise::sector_builder::SectorBuilderReturn<matslise::Matslise<Sym>> r;
    queries::builtPotential() = ms->potential;
    queries::builtMin() = min, queries::builtMax() = max, queries::builtTolerance() = this->tolerance;
    r.sectors.push_back(std::make_unique<matslise::Matslise<Sym>::Sector>(ms, min, max, matslise::Direction::forward));
    r.matchIndex = 0;
    return r;
}
template<> inline std::tuple<Sym, Sym, Sym> matslise::Matslise<Sym>::matchingError(const Sym &E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, bool use_h) const {
    auto a = queries::cat({E, Sym((int) use_h)}, queries::data(l, r));
    return {vc::uf("match0", a), vc::uf("match1", a), vc::uf("match2", a)};
}
