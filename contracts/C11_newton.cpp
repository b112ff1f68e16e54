// Newton's iteration that answers an interval: the energy it returns is one at which the matching condition converged, with
// the index the angle has there.
#define ENV_HALF_TURNS
#include "env_matslise.h"
namespace count {
    using namespace vc;
    struct Point { Sym E, t, error, derivative; };
    inline std::vector<Point> &points() { static std::vector<Point> l; return l; }
    inline bool &wrong() { static bool b = false; return b; }
    inline bool &formula() { static bool b = true; return b; }
}
// contract of matchingError (C06, C08, C09): any value with a derivative
template<> inline std::tuple<Sym, Sym, Sym> matslise::Matslise<Sym>::matchingError(const Sym &E, const matslise::Y<Sym> &l, const matslise::Y<Sym> &r, bool use_h) const {
    using namespace vc;
    for (int i = 0; i < 4; ++i)
        if (l.data[i].t() != Sym::var("left" + std::to_string(i)).t() || r.data[i].t() != Sym::var("right" + std::to_string(i)).t() || use_h != count::formula()) count::wrong() = true;
    std::string k = std::to_string(count::points().size());
    count::Point p{E, Sym::var("t" + k), Sym::var("error" + k), Sym::var("derivative" + k)};
    assume(gt(p.t, -2) && lt(p.t, 3) && ne(p.derivative, 0));
    count::points().push_back(p);
    return {p.error, p.derivative, p.t * PI()};
}
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
static void newton(bool use_h) {
    explore("newton", [=] {
        underContract("newtonIteration");
        count::points().clear();
        count::wrong() = false;
        count::formula() = use_h;
        auto ms = oneSector(Sym::var("xmin"), Sym::var("xmax"), Direction::forward);
        ms->tolerance = Sym::var("tolerance");
        assume(gt(ms->tolerance, 0));
        Y<Sym> l, r;
        for (int i = 0; i < 4; ++i) l.data[i] = Sym::var("left" + std::to_string(i)), r.data[i] = Sym::var("right" + std::to_string(i));
        auto answer = newtonIteration<Sym>(ms.get(), Sym::var("E"), l, r, use_h);
        auto &points = count::points();
        proveExact("the condition is evaluated", !points.empty(), "");
        if (points.empty()) return;
        prove("the iteration starts at the given energy", eq(points[0].E, Sym::var("E")));
        for (size_t i = 0; i + 1 < points.size(); ++i)
            prove("each step is one of Newton's", eq(points[i + 1].E, points[i].E - points[i].error / points[i].derivative));
        auto &last = points.back();
        Sym step = last.error / last.derivative;
        prove("the answer is the energy after the last step", eq(answer.second, last.E - step));
        if (points.size() < 20) prove("the iteration stops when the step is below the tolerance", le(abs(step), ms->tolerance));
        else cover("twenty steps");
        // the index is the nearest to the angle, and at least zero
        int i = answer.first;
        proveExact("the index is not negative", i >= 0, "");
        prove("the index is that of the angle at the last energy", i == 0 ? le(last.t, Sym(1) / 2) : le(abs(last.t - i), Sym(1) / 2));
        proveExact("the conditions and the formula that were asked for", !count::wrong(), "");
    }, [] { Options o; o.maxPaths = 400; return o; }());
}
VC_CASE(newton_end) { newton(true); }
VC_CASE(newton_reference) { newton(false); }
