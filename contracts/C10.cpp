// The mesh builders against the contract of a sector: it has the ends it was constructed with, any error estimate and
// any order.
#include "vc.h"
#include "vc_eigen.h"
#include "matslise.h"
#include <set>
using namespace vc;
namespace stub {
    inline bool &truthful() { static bool b = false; return b; } // the estimate of an interval depends on the interval
    inline int &made() { static int n = 0; return n; }
    inline int &most() { static int n = 8; return n; }
    inline std::function<Sym(const Sym &, const Sym &)> &estimate() { static std::function<Sym(const Sym &, const Sym &)> f; return f; }
    template<bool expensive_, bool refine_>
    struct Problem {
        typedef Sym Scalar;
        static constexpr int order = 15;
        static constexpr bool refineSectors = refine_;
        struct Sector {
            static const bool expensive = expensive_;
            Sym min, max, estimated;
            matslise::Direction direction;
            int number; // of the construction
            static std::set<const Sector *> &live() { static std::set<const Sector *> s; return s; }
            Sector(const Problem *, const Sym &min, const Sym &max, matslise::Direction d) : min(min), max(max), direction(d) {
                number = ++made();
                if (number > most()) throw PathEnd{};
                prove("a nonempty interval is constructed", lt(min, max));
                estimated = estimate()(min, max);
                live().insert(this);
            }
            ~Sector() { live().erase(this); }
            Sector *refine(const Problem *p, const Sym &min, const Sym &max, matslise::Direction d) const { return new Sector(p, min, max, d); }
            Sym error() const { return estimated; }
            static bool compare(const Sector &, const Sector &) { return choose("order"); }
        };
    };
}
#include "util/sectorbuilder.cpp"
using matslise::sector_builder::SectorBuilderReturn;
template<typename P>
static void tiles(const SectorBuilderReturn<P> &r, const Sym &lo, const Sym &hi) {
    auto &s = r.sectors;
    proveExact("at least one interval", !s.empty(), "");
    if (s.empty()) return;
    for (auto &i: s) if (!i) {
        proveExact("every position of the mesh has an interval", false, "");
        return;
    }
    int n = s.size();
    proveExact("the matching index is that of an interval", r.matchIndex >= 0 && r.matchIndex < n, std::to_string(r.matchIndex));
    prove("the mesh starts at the lower end", eq(s[0]->min, lo));
    prove("the mesh ends at the upper end", eq(s[n - 1]->max, hi));
    for (int i = 0; i < n; ++i) {
        prove("every interval is nonempty", lt(s[i]->min, s[i]->max));
        if (i) prove("an interval starts where the previous one ends", eq(s[i - 1]->max, s[i]->min));
        proveExact("forward left of the matching point, backward right of it", (s[i]->direction == matslise::forward) == (i <= r.matchIndex), std::to_string(i));
    }
    proveExact("only intervals of the mesh are kept", (int) P::Sector::live().size() == n, std::to_string(P::Sector::live().size()));
}
static Options upTo(const std::string &b) {
    Options o;
    o.bounded = true;
    o.bound = b;
    o.maxPaths = 400000;
    return o;
}
static Sym anyEstimate(const Sym &, const Sym &) { return Sym::fresh("estimate"); }
// estimates that are exactly the tolerance, but for some that are too large, small, zero or negative
static int specials = 0;
static const Sym given(mpq_class(1, 1000000));
static int large = 0; // the first constructed intervals have a too large estimate
static Sym fewSpecial(const Sym &, const Sym &) {
    if (stub::made() <= large) {
        // one fixed law of powers: a tiny number to a power of at least 1/20 is below 1/100
        static bool once = false;
        if (!once) addAxiom("pow", [](const std::vector<Sym> &x, const Sym &v) { return implies(gt(x[0], 0) && lt(x[0], Sym(1e-40)) && ge(x[1], Sym(mpq_class(1, 20))), lt(v, Sym(mpq_class(1, 100)))); });
        once = true;
        return given * Sym(1e60);
    }
    if (large) return Sym(0);
    if (specials > 0 && choose("special")) {
        --specials;
        if (choose("large")) return given * 2;
        if (choose("small")) return given * Sym(mpq_class(1, 4));
        return choose("zero") ? Sym(0) : -given;
    }
    return given;
}
template<typename P>
static void uniform(int n) {
    explore("uniform", [n] {
        underContract("UniformSectorBuilder::operator()");
        stub::made() = 0, stub::most() = 100, stub::estimate() = anyEstimate;
        P::Sector::live().clear();
        Sym lo = Sym::var("lo"), hi = Sym::var("hi");
        assume(lt(lo, hi));
        P problem;
        matslise::sector_builder::UniformSectorBuilder<P> b(n);
        auto r = b(&problem, lo, hi);
        proveExact("as many intervals as asked", (int) r.sectors.size() == n, std::to_string(r.sectors.size()));
        tiles(r, lo, hi);
        for (auto &s: r.sectors) if (s) prove("intervals of equal length", eq((s->max - s->min) * n, hi - lo));
        canary("the first interval ends at the middle", eq(r.sectors[0]->max * 2 + r.sectors[0]->min, hi));
    }, upTo("uniform meshes of up to 9 intervals; automatic meshes built with up to 6 constructed intervals (12 for a single one) and 2 jumps"));
}
template<typename P>
static void automatic(int jumps, int most, int special, int stubborn = 0, int segment = -1, std::vector<int> percent = {}) {
    explore("automatic", [=] {
        underContract("AutomaticSectorBuilder::operator()");
        underContract("automaticNextSector");
        stub::made() = 0, stub::most() = most, stub::estimate() = fewSpecial, specials = special, large = stubborn;
        P::Sector::live().clear();
        Sym lo = Sym::var("lo"), hi = Sym::var("hi"), tolerance = given;
        assume(lt(lo, hi));
        P problem;
        matslise::sector_builder::AutomaticSectorBuilder<P> b(tolerance);
        Sym last = lo;
        for (int i = 0; i < jumps; ++i) {
            Sym j = Sym::var("jump" + std::to_string(i));
            assume(lt(last, j) && lt(j, hi));
            if (!percent.empty()) assume(eq((j - lo) * 100, (hi - lo) * percent[i]));
            if (segment >= 0) assume(ge((j - lo) * 6, (hi - lo) * segment) && lt((j - lo) * 6, (hi - lo) * (segment + 1)));
            b.jumps.push_back(last = j);
        }
        auto r = b(&problem, lo, hi);
        cover(std::to_string(r.sectors.size()) + " intervals");
        tiles(r, lo, hi);
        for (auto &j: b.jumps) {
            F f(false);
            for (auto &s: r.sectors) if (s) f = f || eq(s->max, j);
            prove("every jump is a mesh point", f);
        }
        for (auto &s: r.sectors) if (s) {
            F improved = le(s->estimated, tolerance) || le(s->max - s->min, Sym(1e-3));
            // ten refinements are the most that are tried
            if (s->number != 11) prove("an interval is accepted when its error is small enough or it cannot be improved", improved);
        }
        canary("one interval", eq(r.sectors[0]->max, hi));
    }, upTo("uniform meshes of up to 9 intervals; automatic meshes built with up to 6 constructed intervals (12 for a single one) and 2 jumps"));
}
typedef stub::Problem<false, false> Plain;
typedef stub::Problem<true, true> Expensive;
#define U(n) VC_CASE(uniform_##n) { uniform<Plain>(n); }
U(1) U(2) U(3) U(4) U(5) U(6) U(9)
VC_CASE(automatic_0_0) { automatic<Plain>(0, 6, 0); }
VC_CASE(automatic_0_1) { automatic<Plain>(0, 6, 1); }
VC_CASE(automatic_0_2) { automatic<Plain>(0, 5, 2); }
#define J(k) VC_CASE(automatic_1_0_##k) { automatic<Plain>(1, 7, 0, 0, k); } VC_CASE(automatic_1_1_##k) { automatic<Plain>(1, 5, 1, 0, k); } VC_CASE(automatic_1_1_##k##_deep) { automatic<Plain>(1, 6, 1, 0, k); }
J(0) J(1) J(2) J(3) J(4) J(5)
VC_CASE(jumps_left) { automatic<Plain>(2, 8, 0, 0, -1, {10, 20}); }
VC_CASE(jumps_around) { automatic<Plain>(2, 8, 0, 0, -1, {45, 52}); }
VC_CASE(jumps_right) { automatic<Plain>(2, 8, 0, 0, -1, {60, 95}); }
VC_CASE(jumps_wide) { automatic<Plain>(2, 8, 0, 0, -1, {20, 80}); }
VC_CASE(jumps_left_1) { automatic<Plain>(2, 6, 1, 0, -1, {10, 20}); }
VC_CASE(jumps_around_1) { automatic<Plain>(2, 6, 1, 0, -1, {45, 52}); }
VC_CASE(jumps_right_1) { automatic<Plain>(2, 6, 1, 0, -1, {60, 95}); }
VC_CASE(jumps_wide_1) { automatic<Plain>(2, 6, 1, 0, -1, {20, 80}); }
VC_CASE(stubborn_11) { automatic<Plain>(0, 16, 0, 11); }
VC_CASE(stubborn_10) { automatic<Plain>(0, 15, 0, 10); }
VC_CASE(expensive_0_1) { automatic<Expensive>(0, 6, 1); }
VC_CASE(expensive_1_0) { automatic<Expensive>(1, 6, 0); }
