// Matslise::Sector: construction, direction changes, assembly of the propagation matrix from the formulas
#include "env_matslise.h"
#include "sources_matslise.h"
using namespace vc;
typedef Matslise<Sym>::Sector Sector;

static const char *dirName[] = {"none", "forward", "backward"};

static Sector makeSector(const Matslise<Sym> *ms, const Sym &lo, const Sym &hi, Direction d) { return Sector(ms, lo, hi, d); }

VC_CASE(construction) {
    explore("construction", [] {
        underContract("Matslise::Sector::Sector");
        underContract("Matslise::Sector::setDirection");
        underContract("Matslise::Sector::calculateTCoeffs");
        Sym lo = Sym::var("min"), hi = Sym::var("max");
        assume(lt(lo, hi));
        auto ms = oneSector(lo, hi, Direction::forward);
        auto c = legendre::getCoefficients<MATSLISE_N>(ms->potential, lo, hi);
        auto same = [&](const Sector &s, Direction d, const std::string &how) {
            prove(how + ": bounds and length", eq(s.min, lo) && eq(s.max, hi) && eq(s.h, hi - lo) && F(s.direction == d));
            for (int k = 0; k < MATSLISE_N; ++k)
                prove(how + ": coefficients of the potential, seen from the starting end of the interval", eq(s.vs[k], d == backward && k % 2 ? -c[k] : c[k]));
            if (d == none) return;
            for (int r = 0; r < 2; ++r)
                for (int q = 0; q < 2; ++q) {
                    for (int i = 0; i < MATSLISE_ETA_delta; ++i)
                        for (int j = 0; j < MATSLISE_HMAX_delta; ++j)
                            prove(how + ": formulas evaluated on these coefficients", eq(s.t_coeff(i, j)(r, q), tcoeffOf(false, i, j, r, q, s.h, s.vs)));
                    for (int i = 0; i < MATSLISE_ETA_h; ++i)
                        prove(how + ": formulas evaluated on these coefficients", eq(s.t_coeff_h[i](r, q), tcoeffOf(true, i, 0, r, q, s.h, s.vs)));
                }
        };
        for (Direction d: {Direction::none, Direction::forward, Direction::backward}) {
            same(makeSector(ms.get(), lo, hi, d), d, "new interval");
            for (Direction e: {Direction::none, Direction::forward, Direction::backward}) {
                Sector s = makeSector(ms.get(), lo, hi, d);
                s.setDirection(e);
                same(s, e, "direction changed");
                for (Direction f: {Direction::none, Direction::forward, Direction::backward}) {
                    Sector u = s;
                    u.setDirection(f);
                    same(u, f, "direction changed twice");
                }
            }
        }
        canary("interval has length one", eq(hi - lo, 1));
    });
}

// arbitrary coefficients
static void arbitrary(Sector &s) {
    s.h = Sym::var("h");
    s.vs[0] = Sym::var("v0");
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            for (int i = 0; i < MATSLISE_ETA_delta; ++i)
                for (int j = 0; j < MATSLISE_HMAX_delta; ++j)
                    s.t_coeff(i, j)(r, c) = Sym::var("a" + std::to_string(i) + "_" + std::to_string(j) + "_" + std::to_string(r) + std::to_string(c));
            for (int i = 0; i < MATSLISE_ETA_h; ++i)
                s.t_coeff_h[i](r, c) = Sym::var("b" + std::to_string(i) + "_" + std::to_string(r) + std::to_string(c));
        }
}

static Sym polyAt(const Sector &s, int i, int r, int c, const Sym &x) {
    Sym p = 0;
    for (int j = MATSLISE_HMAX_delta - 1; j >= 0; --j) p = p * x + s.t_coeff(i, j)(r, c);
    return p;
}

static void contractOffset(const Sector &s, const T<Sym> &t, const Sym &E, const Sym &d) {
    Sym Z = (s.vs[0] - E) * d * d;
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            Sym v = 0, dv = 0;
            for (int i = 0; i < MATSLISE_ETA_delta; ++i) {
                v += polyAt(s, i, r, c, d) * etaOf(i, Z);
                if (i + 1 < MATSLISE_ETA_delta) dv += polyAt(s, i, r, c, d) * (-d * d / 2) * etaOf(i + 1, Z);
            }
            if (r == 1 && c == 0) {
                v += (s.vs[0] - E) * d * etaOf(1, Z);
                dv += -d * etaOf(1, Z) - (s.vs[0] - E) * d * d * d / 2 * etaOf(2, Z);
            }
            prove("at an offset: T = sum_i C_i(delta) eta_i(Z) + [0 0; Z/delta eta_1 0]", eq(t.t(r, c), v));
            prove("at an offset: dT is the derivative of T to E (last eta term dropped)", eq(t.dt(r, c), dv));
        }
}

static void contractEnd(const Sector &s, const T<Sym> &t, const Sym &E) {
    Sym h = s.h, Z = (s.vs[0] - E) * h * h;
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 2; ++c) {
            Sym v = 0, dv = 0;
            for (int i = 0; i < MATSLISE_ETA_h; ++i) {
                v += s.t_coeff_h[i](r, c) * etaOf(i, Z);
                if (i + 1 < MATSLISE_ETA_h) dv += s.t_coeff_h[i](r, c) * (-h * h / 2) * etaOf(i + 1, Z);
            }
            if (r == 1 && c == 0) {
                v += (s.vs[0] - E) * h * etaOf(1, Z);
                dv += -h * etaOf(1, Z) - (s.vs[0] - E) * h * h * h / 2 * etaOf(2, Z);
            }
            prove("at the end: T = sum_i C_i eta_i(Z) + [0 0; Z/h eta_1 0]", eq(t.t(r, c), v));
            prove("at the end: dT is the derivative of T to E (last eta term dropped)", eq(t.dt(r, c), dv));
        }
}

VC_CASE(assembly) {
    explore("assembly", [] {
        underContract("Matslise::Sector::calculateT(E, delta, use_h)");
        underContract("Matslise::Sector::calculateT(E, use_h)");
        auto ms = oneSector(0, 1, Direction::forward);
        Sector &s = *ms->sectors[0];
        arbitrary(s);
        Sym E = Sym::var("E"), d = Sym::var("delta");
        assume(gt(s.h, Sym(1e-11)));
        bool use_h = choose("use_h");
        T<Sym> t = s.calculateT(E, d, use_h);
        Sym eps(1e-12);
        if (provable(le(d, eps) && ge(d, -eps))) {
            cover("offset zero");
            prove("starts as the identity", eq(t.t(0, 0), 1) && eq(t.t(0, 1), 0) && eq(t.t(1, 0), 0) && eq(t.t(1, 1), 1));
            prove("starts as the identity: no energy dependence", eq(t.dt(0, 0), 0) && eq(t.dt(0, 1), 0) && eq(t.dt(1, 0), 0) && eq(t.dt(1, 1), 0));
        } else if (use_h && provable(le(d - s.h, eps) && ge(d - s.h, -eps))) {
            cover("offset is the whole interval");
            contractEnd(s, t, E);
        } else {
            prove("the end-point formula is used only at the end, the identity only at the start", F(true));
            cover("general offset");
            contractOffset(s, t, E, d);
            // the identity may only stand in where the offset is zero up to rounding
        }
        canary("the offset is positive", gt(d, 0));
    });
}

VC_CASE(whole_interval) {
    explore("whole", [] {
        auto ms = oneSector(0, 1, Direction::forward);
        Sector &s = *ms->sectors[0];
        arbitrary(s);
        Sym E = Sym::var("E");
        assume(gt(s.h, Sym(1e-11)));
        if (choose("use_h")) contractEnd(s, s.calculateT(E), E);
        else contractOffset(s, s.calculateT(E, false), E, s.h);
        canary("h = 1", eq(s.h, 1));
    });
}
