// Eigenvalues by index and in an energy range, over every increasing counting function.  The loops are verified with
// invariants: each starts in an arbitrary state that satisfies its invariant.
#define MATSLISE_VERIFICATION "hooks.h"
#define ENV_HALF_TURNS
#include "hooks.h"
#include "env_matslise.h"
namespace count {
    using namespace vc;
    struct Point { Sym E, t, step; };
    inline std::vector<Point> &points() { static std::vector<Point> l; return l; }
    inline int &lowest() { static int n = -1; return n; }
    inline int &highest() { static int n = 3; return n; }
    inline bool &wrong() { static bool b = false; return b; } // not the conditions that were asked for
    // theta / pi at E: increasing, eigenvalue i where it is i
    inline Point &at(const Sym &E) {
        for (auto &p: points()) if (eq(p.E, E).id == 1) return p;
        size_t k = 0; // in increasing order of E
        for (; k < points().size(); ++k) {
            if (points()[k].E < E) continue;
            if (points()[k].E == E) return points()[k];
            break;
        }
        Point n{E, Sym::fresh("t"), Sym::fresh("step")};
        assume(gt(n.t, k ? points()[k - 1].t : Sym(lowest())) && lt(n.t, k < points().size() ? points()[k].t : Sym(highest())));
        points().insert(points().begin() + k, n);
        return points()[k];
    }
    inline Sym t(const Sym &E) { return at(E).t; }
    inline Sym step(const Sym &E) { return at(E).step; }
}
// contract of matchingError (C06, C08, C09)
template<> inline std::tuple<Sym, Sym, Sym> matslise::Matslise<Sym>::matchingError(const Sym &E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, bool use_h) const {
    for (int i = 0; i < 4; ++i)
        if (l.data[i].t() != Sym::var("left" + std::to_string(i)).t() || r.data[i].t() != Sym::var("right" + std::to_string(i)).t() || !use_h) count::wrong() = true;
    Sym t = count::t(E);
    return {count::step(E) * 2, Sym(2), t * vc::PI()};
}
// contract of newtonIteration (C11_newton): an energy at which the matching condition converged for the index
namespace count {
    struct Answer { int index; Sym start, E; };
    inline std::vector<Answer> &answers() { static std::vector<Answer> l; return l; }
}
template<typename Scalar>
std::pair<int, Scalar> newtonIteration(const matslise::Matslise<Scalar> *, Scalar, const matslise::Y<Scalar> &, const matslise::Y<Scalar> &, bool);
template<> inline std::pair<int, Sym> newtonIteration<Sym>(const matslise::Matslise<Sym> *, Sym E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, bool use_h) {
    for (int i = 0; i < 4; ++i)
        if (l.data[i].t() != Sym::var("left" + std::to_string(i)).t() || r.data[i].t() != Sym::var("right" + std::to_string(i)).t() || !use_h) count::wrong() = true;
    Sym index = Sym::fresh("index"), found = Sym::fresh("found");
    assume(vc::ge(index, 0) && vc::le(index, count::highest()));
    int i = 0;
    while (i < count::highest() && index > i) ++i;
    assume(vc::eq(index, i));
    count::answers().push_back({i, E, found});
    return {i, found};
}
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
typedef std::vector<std::pair<int, Sym>> List;
typedef std::tuple<Sym, Sym, Sym, Sym, int> Entry;
typedef std::queue<Entry> Queue;
static const int H = 3; // indices up to here
static Y<Sym> side(const std::string &name) {
    Y<Sym> y;
    for (int i = 0; i < 4; ++i) y.data[i] = Sym::var(name + std::to_string(i));
    return y;
}
static int steps; // arrivals at the loop
static std::unique_ptr<Matslise<Sym>> problem() {
    loops().clear();
    steps = 0;
    count::points().clear();
    count::answers().clear();
    count::wrong() = false;
    count::lowest() = -1, count::highest() = H + 1;
    auto ms = oneSector(Sym::var("xmin"), Sym::var("xmax"), Direction::forward);
    ms->tolerance = Sym::var("tolerance");
    assume(gt(ms->tolerance, 0));
    return ms;
}
static void reached() {
    if (!steps) throw std::runtime_error("the loop is not reached");
}
static F has(const Sym &a, const Sym &b, int i) { return le(a, i) && lt(i, b); } // eigenvalue i between these angles
static std::vector<Entry> entries(Queue q) {
    std::vector<Entry> l;
    for (; !q.empty(); q.pop()) l.push_back(q.front());
    return l;
}
static F valid(const Entry &e) {
    auto [a, ta, b, tb, depth] = e;
    return lt(a, b) && eq(ta, count::t(a)) && eq(tb, count::t(b));
}

static F asked(int i, int Imin, int Imax) { return F(i >= Imin && i < Imax); }
// Every index asked for waits once or is answered once
static void invariant(const List &found, const std::vector<Entry> &waiting, int Imin, int Imax, const Sym &ta, const Sym &tb) {
    for (int i = -1; i <= H + 1; ++i) {
        bool ask = i >= Imin && i < Imax;
        int answered = 0;
        for (auto &f: found) answered += f.first == i;
        proveExact("an index is not answered twice", answered <= 1, std::to_string(i));
        if (answered) {
            proveExact("only what is asked for is answered", ask, std::to_string(i));
            prove("an answer belongs to the interval", has(ta, tb, i));
        }
        for (size_t k = 0; k < waiting.size(); ++k) {
            F here = has(std::get<1>(waiting[k]), std::get<3>(waiting[k]), i);
            if (answered) prove("what is answered does not wait", !here);
            for (size_t m = 0; m < k; ++m) prove("an index waits in one interval", !(here && has(std::get<1>(waiting[m]), std::get<3>(waiting[m]), i)));
        }
        if (ask && !answered) {
            F waits(false);
            for (auto &w: waiting) waits = waits || has(std::get<1>(w), std::get<3>(w), i);
            prove("what is asked for is answered or waits", implies(has(ta, tb, i), waits));
        }
    }
    for (auto &w: waiting) prove("a waiting interval has the angles of its ends", valid(w));
    proveExact("only the conditions and the formula that were asked for", !count::wrong(), "");
}
static Options range() {
    Options o;
    o.feasTimeoutMs = 500;
    return o;
}
typedef std::function<void(Queue &, List &)> AtRefine;
// calls the query with the given handler at each arrival at the refinement loop
static List query(const Matslise<Sym> &ms, int Imin, int Imax, bool byIndex, const AtRefine &handler) {
    loops()["computeEigenvaluesHelper"] = [&](const LoopState &s) {
        ++steps;
        handler(s[0].as<Queue>(), s[1].as<List>());
    };
    if (!byIndex) return ms.eigenvalues(Sym::var("Emin"), Sym::var("Emax"), side("left"), side("right"));
    // the bracket is found at once
    assume(ge(count::t(Sym(1)), Imax) && le(count::t(Sym(-1)), Imin));
    return ms.eigenvaluesByIndex(Imin, Imax, side("left"), side("right"));
}
// One turn of the refinement, from an arbitrary interval that waits
static void refine(int Imin, int Imax, int depth, bool byIndex) {
    explore("refine", [=] {
        underContract("computeEigenvaluesHelper");
        auto ms = problem();
        Sym a = Sym::var("a"), b = Sym::var("b");
        Sym ta, tb;
        // others that are answered or wait stay as they are
        const std::pair<int, Sym> earlier{99, Sym::var("earlier")};
        const Entry later{Sym::var("c"), Sym::var("tc"), Sym::var("d"), Sym::var("td"), 7};
        auto check = [&](List found, std::vector<Entry> waiting) {
            size_t n = found.size(), m = waiting.size();
            for (size_t i = n; i--;)
                if (found[i].first == 99 && found[i].second.t() == earlier.second.t()) found.erase(found.begin() + i);
            for (size_t i = m; i--;)
                if (std::get<0>(waiting[i]).t() == std::get<0>(later).t() && std::get<1>(waiting[i]).t() == std::get<1>(later).t() && std::get<2>(waiting[i]).t() == std::get<2>(later).t()
                    && std::get<3>(waiting[i]).t() == std::get<3>(later).t() && std::get<4>(waiting[i]) == 7) waiting.erase(waiting.begin() + i);
            proveExact("an earlier answer is kept", found.size() + 1 == n, "");
            proveExact("another interval keeps waiting", waiting.size() + 1 == m, "");
            invariant(found, waiting, Imin, Imax, ta, tb);
            for (auto &w: waiting)
                prove("a waiting interval is a smaller part", le(a, std::get<0>(w)) && le(std::get<2>(w), b) && lt(std::get<2>(w) - std::get<0>(w), b - a));
            for (auto &f: found) {
                prove("an answer lies in the interval", le(a, f.second) && le(f.second, b));
                bool converged = false;
                for (auto &p: count::answers()) converged = converged || (p.index == f.first && p.E.t() == f.second.t());
                proveExact("an answer is what the iteration found for its index", converged, "");
            }
            cover(std::to_string(found.size()) + " answers, " + std::to_string(waiting.size()) + " waiting");
        };
        query(*ms, Imin, Imax, byIndex, [&](Queue &queue, List &found) {
            if (steps == 1) {
                count::points().clear();
                count::answers().clear();
                assume(lt(a, b));
                ta = count::t(a), tb = count::t(b);
                queue = Queue();
                queue.push({a, ta, b, tb, depth});
                queue.push(later);
                found.clear();
                found.push_back(earlier);
                return;
            }
            check(found, entries(queue));
            throw PathEnd{};
        });
        reached();
        throw std::runtime_error("the loop ends while an interval waits");
    }, range());
}
// What the refinement starts with
static void start(int Imin, int Imax, bool byIndex) {
    explore("start", [=] {
        underContract("computeEigenvaluesHelper");
        underContract(byIndex ? "Matslise::eigenvaluesByIndex" : "Matslise::eigenvalues");
        auto ms = problem();
        if (!byIndex) assume(lt(Sym::var("Emin"), Sym::var("Emax")));
        query(*ms, Imin, Imax, byIndex, [&](Queue &queue, List &found) {
            Sym a = byIndex ? Sym(-1) : Sym::var("Emin"), b = byIndex ? Sym(1) : Sym::var("Emax");
            proveExact("nothing is answered at the start", found.empty(), "");
            auto waiting = entries(queue);
            invariant(found, waiting, Imin, Imax, count::t(a), count::t(b));
            for (auto &w: waiting) prove("the intervals lie in the range", le(a, std::get<0>(w)) && le(std::get<2>(w), b));
            throw PathEnd{};
        });
        reached();
    }, range());
}
// What is returned when nothing waits any more
static void finish(std::vector<int> order, bool byIndex) {
    explore("finish", [=] {
        underContract("computeEigenvaluesHelper");
        auto ms = problem();
        List all;
        for (int i: order) all.push_back({i, Sym::var("E" + std::to_string(i))});
        auto r = query(*ms, 0, byIndex ? H : INT_MAX, byIndex, [&](Queue &queue, List &found) {
            if (steps > 1) throw PathEnd{};
            // an interval without eigenvalues is the last that waits
            count::points().clear();
            Sym a = Sym::var("a"), b = Sym::var("b");
            assume(lt(a, b) && lt(count::t(b), 0) && le(count::t(a), count::t(b)));
            queue = Queue();
            queue.push({a, count::t(a), b, count::t(b), 0});
            found = all;
        });
        reached();
        proveExact("every answer is returned", r.size() == order.size(), "");
        for (size_t i = 0; i < r.size(); ++i) {
            proveExact("in increasing order", i == 0 || r[i - 1].first < r[i].first, "");
            proveExact("an index keeps its energy", r[i].second.t() == Sym::var("E" + std::to_string(r[i].first)).t(), "");
        }
    }, range());
}
// The bracket of eigenvaluesByIndex, both loops in an arbitrary state that satisfies their invariants
static void bracket(int Imin, int Imax, int loop) {
    explore("bracket", [=] {
        underContract("Matslise::eigenvaluesByIndex");
        auto ms = problem();
        int up = 0, down = 0;
        auto upInvariant = [&](const Sym &Emin, const Sym &Emax) {
            return ge(Emax, 1) && (eq(Emin, -1) || (ge(Emin, 1) && lt(Emin, Emax) && lt(count::t(Emin), Imin)));
        };
        auto downInvariant = [&](const Sym &Emin, const Sym &Emax) {
            return le(Emin, -1) && lt(Emin, Emax) && ge(count::t(Emax), Imax);
        };
        loops()["eigenvaluesByIndexUp"] = [&](const LoopState &s) {
            auto &Emin = s[0].as<Sym>();
            auto &Emax = s[1].as<Sym>();
            ++up;
            if (loop == 1) {
                assume(ge(count::t(Emax), Imax)); // leaves this loop
                return;
            }
            if (up == 1) {
                prove("the search upwards starts with its invariant", upInvariant(Emin, Emax));
                count::points().clear();
                Emax = Sym::var("Eup");
                if (Sym::var("low") > 0) {
                    Emin = Sym::var("Elow");
                    assume(ge(Emin, 1));
                }
                assume(upInvariant(Emin, Emax));
                return;
            }
            prove("the search upwards keeps its invariant", upInvariant(Emin, Emax));
            prove("the search upwards moves", gt(Emax, Sym::var("Eup")));
            throw PathEnd{};
        };
        loops()["eigenvaluesByIndexDown"] = [&](const LoopState &s) {
            auto &Emin = s[0].as<Sym>();
            auto &Emax = s[1].as<Sym>();
            ++down;
            if (down == 1) {
                prove("the search downwards starts with its invariant", downInvariant(Emin, Emax));
                if (loop == 0) throw PathEnd{};
                count::points().clear();
                Emin = Sym::var("Edown");
                Emax = Sym::var("Ehigh");
                assume(downInvariant(Emin, Emax));
                return;
            }
            prove("the search downwards keeps its invariant", downInvariant(Emin, Emax));
            prove("the search downwards moves", lt(Emin, Sym::var("Edown")));
            throw PathEnd{};
        };
        loops()["computeEigenvaluesHelper"] = [&](const LoopState &s) {
            ++steps;
            auto waiting = entries(s[0].as<Queue>());
            for (int i = 0; i <= H; ++i)
                if (i >= Imin && i < Imax) {
                    F waits(false);
                    for (auto &w: waiting) waits = waits || has(std::get<1>(w), std::get<3>(w), i);
                    prove("the bracket contains what is asked for", waits);
                }
            for (auto &w: waiting) prove("the bracket is an interval with the angles of its ends", valid(w));
            throw PathEnd{};
        };
        ms->eigenvaluesByIndex(Imin, Imax, side("left"), side("right"));
        reached();
    }, range());
}
static void invalid(int Imin, int Imax) {
    explore("invalid", [=] {
        underContract("computeEigenvaluesHelper");
        auto ms = problem();
        count::lowest() = -3;
        bool thrown = false;
        try {
            assume(ge(count::t(Sym(1)), Imax) && le(count::t(Sym(-1)), Imin));
            ms->eigenvaluesByIndex(Imin, Imax, side("left"), side("right"));
        } catch (std::runtime_error &) { thrown = true; }
        proveExact("an invalid range raises an error", thrown, "");
    }, range());
}
#ifdef ENERGY_RANGE
#define REFINED(depth) VC_CASE(refine_##depth) { refine(0, INT_MAX, depth, false); }
REFINED(0)
REFINED(1)
REFINED(4)
REFINED(5)
REFINED(31)
REFINED(32)
VC_CASE(start) { start(0, INT_MAX, false); }
VC_CASE(finish) { for (auto o: std::vector<std::vector<int>>{{}, {1}, {2, 0, 1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}}) finish(o, false); }
#else
#define INDEXED(depth) VC_CASE(refine_##depth) { for (auto r: {std::make_pair(0, 1), std::make_pair(1, 3)}) refine(r.first, r.second, depth, true); }
INDEXED(0)
INDEXED(1)
INDEXED(4)
INDEXED(5)
INDEXED(31)
INDEXED(32)
VC_CASE(start) { for (auto r: {std::make_pair(0, 1), std::make_pair(1, 3), std::make_pair(2, 2)}) start(r.first, r.second, true); }
VC_CASE(finish) { for (auto o: std::vector<std::vector<int>>{{}, {1}, {2, 0, 1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}}) finish(o, true); }
VC_CASE(bracket_up) { for (auto r: {std::make_pair(0, 1), std::make_pair(1, 3)}) bracket(r.first, r.second, 0); }
VC_CASE(bracket_down) { for (auto r: {std::make_pair(0, 1), std::make_pair(1, 3)}) bracket(r.first, r.second, 1); }
VC_CASE(invalid) { for (auto r: {std::make_pair(-1, 2), std::make_pair(-2, -1), std::make_pair(2, 1), std::make_pair(3, 0)}) invalid(r.first, r.second); }
#endif
