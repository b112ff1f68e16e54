// Matslise::Sector::theta0 and prufer: the angle of one mesh interval and the zeros it counts.
// Angles are measured in half turns (pi = 1); the phase omega*delta is then any nonnegative real, as delta is.
#define ENV_HALF_TURNS
#include "env_matslise.h"
#include "sources_matslise.h"
using namespace vc;

struct Vec { Sym u, v; };
// any direction (u, v) != 0, one path per quadrant and axis
static Sym coordinate(const std::string &n) {
    Sym x = Sym::var(n);
    return x > 0 ? x : x == 0 ? Sym(0) : x;
}
static Vec direction(const std::string &n) {
    Vec r{coordinate("u" + n), coordinate("v" + n)};
    if (signOf(r.u) == 0 && signOf(r.v) == 0) throw PathEnd{};
    return r;
}
static Y<Sym> y(const Vec &a) { return Y<Sym>({a.u, a.v}, {Sym::var("ue"), Sym::var("ve")}); }
static int sgn(const Sym &s) { return s > 0 ? 1 : s == 0 ? 0 : -1; }
// The angle t belongs to the direction +-(k u, v), k > 0: the tangent, and (as facts of sine and cosine) its quadrant.
// (sin t, cos t) is proved parallel to (k u, v) and of length one, so it is +-1 times the direction with a sign that is
// constant on the quadrant (a connected set on which it is continuous): the sign at one point decides.
static void belongs(const std::string &what, const Sym &t, const Sym &k, const Vec &a) {
    Sym s = sin(t), c = cos(t);
    prove(what + ": the tangent of the angle is S y/y'", eq(s * a.v - c * k * a.u, 0));
    prove(what + ": sine and cosine of the angle have length one", eq(s * s + c * c, 1));
    Sym p = s * k * a.u + c * a.v;
    double at = sampleAt(p, [](const std::string &n) -> double {
        if (n == "S") return 1.7;
        if (n == "omega") return .83;
        if (n[0] != 'u' && n[0] != 'v') return NAN;
        return Sym::var(n) > 0 ? 1.3 : -1.3;
    });
    if (!(std::abs(at) > 1e-6)) {
        proveExact(what + ": the orientation of the angle is decided", false, show(s.t()) + " / " + show(c.t()));
        return;
    }
    int o = at > 0 ? 1 : -1, su = o * sgn(a.u), sv = o * sgn(a.v);
    Sym whole, rest;
    splitInteger(t / 2, whole, rest);
    Sym m = 2 * rest - 2 * Sym::raw(mkFresh("turns", true));
    if (su > 0) assume(gt(m, 0) && lt(m, 1));
    else if (su < 0) assume(gt(m, -1) && lt(m, 0));
    else assume(eq(m, sv > 0 ? 0 : 1));
    Sym h(mpq_class(1, 2));
    if (sv > 0) assume(gt(m, -h) && lt(m, h));
    else if (sv < 0) assume(gt(m, h) || lt(m, -h));
    else assume(eq(m, su > 0 ? h : -h));
}
struct Setting {
    std::unique_ptr<Matslise<Sym>> ms;
    Sym E, S, w, phase, delta;
    const Matslise<Sym>::Sector &s() const { return *ms->sectors[0]; }
};
// omega > 0 with E = V + omega^2 above the potential, S > 1 with E = v0Match + S^2 where that exceeds one
static Setting setting(bool above) {
    Setting r;
    Sym lo = Sym::var("min"), hi = Sym::var("max");
    assume(lt(lo, hi));
    r.ms = oneSector(lo, hi, Direction::forward);
    r.S = Sym(1);
    r.E = Sym::var("E");
    r.w = Sym::var("omega");
    // delta = phase / omega
    r.phase = Sym::var("phase");
    assume(ge(r.phase, 0));
    r.delta = above ? r.phase / r.w : Sym::var("delta");
    Sym V, match;
    if (above) {
        assume(gt(r.w, 0));
        V = r.E - r.w * r.w;
    } else {
        V = Sym::var("V");
        assume(le(r.E, V));
    }
    if (choose("E - v0Match > 1")) {
        r.S = Sym::var("S");
        assume(gt(r.S, 1));
        match = r.E - r.S * r.S;
        cover("a scaling other than one");
    } else {
        match = Sym::var("v0Match");
        assume(le(r.E - match, 1));
    }
    for (auto &s: r.ms->sectors) {
        s->v0Match = match;
        s->vs[0] = V;
    }
    return r;
}
// the angle of one column, alone or next to another one
static Sym turned(const Setting &q, const Vec &a, const Vec &b) {
    if (!choose("two columns")) return q.s().template prufer<1>(q.E, q.delta, y(a), y(b));
    int c = choose("second column") ? 1 : 0;
    Y<Sym, 1, 2> l, r;
    l.data.setConstant(Sym(1));
    r.data.setConstant(Sym(1));
    l.data.col(c) = y(a).data;
    r.data.col(c) = y(b).data;
    cover("two columns");
    return q.s().template prufer<2>(q.E, q.delta, l, r)[c];
}
static void start(bool above) {
    explore("theta0", [above] {
        underContract("Matslise::Sector::theta0");
        auto q = setting(above);
        Vec a = direction("0");
        Sym t = q.s().theta0(q.E, y(a));
        cover("any direction");
        belongs("start angle", t, q.S, a);
        prove("the start angle lies in (-pi/2, pi/2]", gt(2 * t, -1) && le(2 * t, 1));
        canary("the start angle is zero", eq(t, 0));
    });
}
VC_CASE(start_above) { start(true); }
VC_CASE(start_below) { start(false); }

VC_CASE(below) {
    explore("below", [] {
        underContract("Matslise::Sector::prufer");
        underContract("pruferHelper (matslise/matslise/sector.cpp)");
        assumption("at or below the potential a solution has a zero in (0, delta] exactly if it is not zero at 0 and changes sign up to delta or is zero there (at most one zero), and it has none if y' = 0 or y and y' have the same sign at 0");
        auto q = setting(false);
        Vec a = direction("0"), b = direction("1");
        bool zero = sgn(a.u) != 0 && sgn(a.u) * sgn(b.u) <= 0;
        bool twice = sgn(a.u) == 0 && sgn(b.u) == 0;
        if (zero && sgn(a.u) * sgn(a.v) >= 0) throw PathEnd{};
        if (twice && sgn(a.v) != sgn(b.v)) throw PathEnd{};
        Sym t = q.s().theta0(q.E, y(a));
        belongs("start angle", t, q.S, a);
        Sym end = t + turned(q, a, b);
        cover(zero ? "a zero" : "no zero");
        belongs("end angle", end, q.S, b);
        prove("below the potential the multiples of pi count the zeros", eq(floor(end) - floor(t), zero ? 1 : 0));
        prove("the angle does not turn back over a multiple of pi", ge(floor(end), floor(t)));
        canary("the angle does not change", eq(end, t));
    });
}
static void above(int part) {
    Options o;
    explore("above", [part] {
        auto q = setting(true);
        underContract("Matslise::Sector::prufer");
        underContract("pruferHelper (matslise/matslise/sector.cpp)");
        underContract("rescale (matslise/matslise/sector.cpp)");
        assumption("above the potential the angle of (omega y, y') grows by omega*delta up to less than half a turn (pi) of difference");
        Vec a = direction("0"), b = direction("1");
        if ((sgn(a.u) + 1) * 3 + sgn(a.v) + 1 != part) throw PathEnd{};
        Sym w = q.w;
        Sym phi0 = atan2(a.u * w, a.v), phi1 = atan2(b.u * w, b.v) + 2 * Sym::raw(mkVar("lift", true));
        assume(lt(phi1 - phi0 - q.phase, 1) && gt(phi1 - phi0 - q.phase, -1));
        Sym t = q.s().theta0(q.E, y(a));
        belongs("start angle", t, q.S, a);
        Sym end = t + turned(q, a, b);
        cover("any two directions");
        belongs("end angle", end, q.S, b);
        prove("above the potential the multiples of pi count the zeros", eq(floor(end) - floor(t), floor(phi1) - floor(phi0)));
        canary("no zeros", eq(floor(end), floor(t)));
        canary("the angle does not change", eq(end, t));
    }, o);
}
#define PART(i) VC_CASE(above##i) { above(i); }
PART(0) PART(1) PART(2) PART(3) PART(5) PART(6) PART(7) PART(8)

// the constructor gives every interval the potential of the matching interval as its scaling
VC_CASE(scaling) {
    Options o;
    o.bounded = true;
    o.bound = "meshes of up to 4 intervals for the common scaling";
    explore("scaling", [] {
        underContract("Matslise::Matslise");
        int n = 1;
        while (n < 4 && choose("one more interval")) ++n;
        int match = 0;
        while (match + 1 < n && choose("matching interval")) ++match;
        GivenMesh mesh;
        mesh.make = [=](const Matslise<Sym> *ms) {
            GivenMesh::Return r;
            Sym last = Sym::var("x0");
            for (int i = 0; i < n; ++i) {
                Sym next = Sym::var("x" + std::to_string(i + 1));
                assume(lt(last, next));
                r.sectors.push_back(std::make_unique<Matslise<Sym>::Sector>(ms, last, next, i <= match ? Direction::forward : Direction::backward));
                r.sectors.back()->vs[0] = Sym::var("V" + std::to_string(i));
                last = next;
            }
            r.matchIndex = match;
            return r;
        };
        Matslise<Sym> ms([](const Sym &x) { return uf("V", {x}); }, Sym::var("x0"), Sym::var("x" + std::to_string(n)), Sym(1e-8), mesh);
        proveExact("the object keeps the mesh and the matching index", (int) ms.sectors.size() == n && ms.sectorCount == n && ms.matchIndex == match, "");
        for (auto &s: ms.sectors)
            prove("the scaling of every interval is that of the matching interval", eq(s->v0Match, Sym::var("V" + std::to_string(match))));
        cover("several intervals");
        canary("the scaling is that of the first interval", eq(ms.sectors.back()->v0Match, Sym::var("V0") + 1));
    }, o);
}
