// Matscs::Sector: construction, direction changes, assembly of the propagation matrix in original coordinates
#include "env_matscs.h"
#include "sources_matscs.h"
using namespace vc;
typedef Matscs<Sym>::Sector Sector;

static F sameMatrix(const MatX &a, const MatX &b) {
    F f = a.rows() == b.rows() && a.cols() == b.cols();
    if (a.rows() == b.rows() && a.cols() == b.cols())
        for (int i = 0; i < a.rows(); ++i)
            for (int j = 0; j < a.cols(); ++j) f = f && eq(a(i, j), b(i, j));
    return f;
}

static void construction(int n) {
    Options o;
    o.bounded = n > 1;
    o.bound = "number of channels " + std::to_string(n);
    explore("construction", [n] {
        underContract("Matscs::Sector::Sector");
        underContract("Matscs::Sector::setDirection");
        underContract("Matscs::Sector::calculateTCoeffs");
        Sym lo = Sym::var("min"), hi = Sym::var("max");
        assume(lt(lo, hi));
        auto ms = oneMatscsSector(n, lo, hi, Direction::forward);
        std::array<MatX, MATSCS_N> c;
        for (int k = 0; k < MATSCS_N; ++k) c[k].resize(n, n);
        for (int k = 0; k < MATSCS_N; ++k)
            for (int p = 0; p < n; ++p)
                for (int q = 0; q < n; ++q) c[k](p, q) = uf("coef" + std::to_string(k) + "_" + std::to_string(std::max(p, q)) + std::to_string(std::min(p, q)), {lo, hi});
        SelfAdjointEigenSolver<MatX> es(c[0]);
        MatX D = es.eigenvectors();
        auto same = [&](const Sector &s, Direction d, const std::string &how) {
            prove(how + ": bounds, length and size", eq(s.min, lo) && eq(s.max, hi) && eq(s.h, hi - lo) && F(s.direction == d) && F(s.n == n));
            prove(how + ": the basis diagonalises the constant part", sameMatrix(s.diagonalize, D));
            for (int k = 0; k < MATSCS_N; ++k) {
                MatX e(n, n);
                for (int p = 0; p < n; ++p)
                    for (int q = 0; q < n; ++q) {
                        e(p, q) = 0;
                        for (int i = 0; i < n; ++i)
                            for (int j = 0; j < n; ++j) e(p, q) += D(i, p) * c[k](i, j) * D(j, q);
                        if (d == backward && k % 2) e(p, q) = -e(p, q);
                    }
                prove(how + ": coefficients in the diagonalising basis, seen from the starting end", sameMatrix(s.vs[k], e));
            }
            if (d == none) return;
            F f = true;
            for (int r = 0; r < 2 * n; ++r)
                for (int q = 0; q < 2 * n; ++q) {
                    for (int i = 0; i < MATSCS_ETA_delta; ++i)
                        for (int j = 0; j < MATSCS_HMAX_delta; ++j) f = f && eq(s.t_coeff(i, j)(r, q), tcoeffOf(false, i, j, r, q, s.h, s.vs));
                    for (int i = 0; i < MATSCS_ETA_h; ++i) f = f && eq(s.t_coeff_h[i](r, q), tcoeffOf(true, i, 0, r, q, s.h, s.vs));
                }
            prove(how + ": formulas evaluated on these coefficients", f);
        };
        for (Direction d: {Direction::none, Direction::forward, Direction::backward}) {
            same(Sector(c, lo, hi, d), d, "new interval");
            for (Direction e: {Direction::none, Direction::forward, Direction::backward}) {
                Sector s(c, lo, hi, d);
                s.setDirection(e);
                same(s, e, "direction changed");
                for (Direction f: {Direction::none, Direction::forward, Direction::backward}) {
                    s.setDirection(f);
                    same(s, f, "direction changed twice");
                    s.setDirection(e);
                }
            }
        }
        // from a potential: the coefficients are those of the Legendre expansion (C02)
        auto leg = legendre::getCoefficients<MATSCS_N, Sym, MatX>(ms->V, lo, hi);
        Sector s(ms.get(), lo, hi, Direction::none), u(leg, lo, hi, Direction::none);
        F f = sameMatrix(s.diagonalize, u.diagonalize);
        prove("from a potential: same basis as for its Legendre coefficients", f);
        for (int k = 0; k < MATSCS_N; ++k) prove("from a potential: same coefficients as for its Legendre coefficients", sameMatrix(s.vs[k], u.vs[k]));
        canary("interval has length one", eq(hi - lo, 1));
    }, o);
}
VC_CASE(construction1) { construction(1); }
VC_CASE(construction2) { construction(2); }

// arbitrary coefficients and an arbitrary basis
static void arbitrary(Sector &s) {
    int n = s.n;
    s.h = Sym::var("h");
    for (int p = 0; p < n; ++p)
        for (int q = 0; q < n; ++q) {
            s.vs[0](p, q) = Sym::var("v" + std::to_string(p) + std::to_string(q));
            s.diagonalize(p, q) = Sym::var("D" + std::to_string(p) + std::to_string(q));
        }
    for (int r = 0; r < 2 * n; ++r)
        for (int c = 0; c < 2 * n; ++c) {
            auto nm = [&](const char *w, int i, int j) { return w + std::to_string(i) + "_" + std::to_string(j) + "_" + std::to_string(r) + "_" + std::to_string(c); };
            for (int i = 0; i < MATSCS_ETA_delta; ++i)
                for (int j = 0; j < MATSCS_HMAX_delta; ++j) s.t_coeff(i, j)(r, c) = Sym::var(nm("a", i, j));
            for (int i = 0; i < MATSCS_ETA_h; ++i) s.t_coeff_h[i](r, c) = Sym::var(nm("b", i, 0));
        }
}

static void contractT(const Sector &s, const T<Sym, Dynamic> &t, const Sym &E, const Sym &d, bool atEnd) {
    int n = s.n, etas = atEnd ? MATSCS_ETA_h : MATSCS_ETA_delta;
    std::string w = atEnd ? "at the end: " : "at an offset: ";
    prove(w + "size", F(t.t.rows() == 2 * n && t.t.cols() == 2 * n && t.dt.rows() == 2 * n && t.dt.cols() == 2 * n));
    MatX in(2 * n, 2 * n), din(2 * n, 2 * n);
    for (int r = 0; r < 2 * n; ++r)
        for (int c = 0; c < 2 * n; ++c) {
            Sym v0E = s.vs[0](c % n, c % n) - E, Z = v0E * d * d, v = 0, dv = 0;
            for (int i = 0; i < etas; ++i) {
                Sym co = 0;
                if (atEnd) co = s.t_coeff_h[i](r, c);
                else for (int j = MATSCS_HMAX_delta - 1; j >= 0; --j) co = co * d + s.t_coeff(i, j)(r, c);
                v += co * etaOf(i, Z);
                if (i + 1 < etas) dv += co * (-d * d / 2) * etaOf(i + 1, Z);
            }
            if (r - n == c) {
                v += v0E * d * etaOf(1, Z);
                dv += -d * etaOf(1, Z) - v0E * d * d * d / 2 * etaOf(2, Z);
            }
            in(r, c) = v, din(r, c) = dv;
        }
    for (int r = 0; r < 2 * n; ++r)
        for (int c = 0; c < 2 * n; ++c) {
            Sym v = 0, dv = 0;
            for (int p = 0; p < n; ++p)
                for (int q = 0; q < n; ++q) {
                    Sym f = s.diagonalize(r % n, p) * s.diagonalize(c % n, q);
                    v += f * in((r / n) * n + p, (c / n) * n + q);
                    dv += f * din((r / n) * n + p, (c / n) * n + q);
                }
            prove(w + "T = (I x D)[sum_i C_i eta_i(Z) + [0 0; Z/delta eta_1 0]](I x D^T)", eq(t.t(r, c), v));
            prove(w + "dT is the derivative of T to E (last eta term dropped)", eq(t.dt(r, c), dv));
        }
}

static void assembly(int n) {
    Options o;
    o.bounded = n > 1;
    o.bound = "number of channels " + std::to_string(n);
    explore("assembly", [n] {
        underContract("Matscs::Sector::calculateT(E, delta, use_h)");
        underContract("Matscs::Sector::calculateT(E, use_h)");
        underContract("calculateTFromVEd");
        auto ms = oneMatscsSector(n, 0, 1, Direction::forward);
        Sector &s = *ms->sectors[0];
        arbitrary(s);
        Sym E = Sym::var("E"), d = Sym::var("delta");
        assume(gt(s.h, Sym(1e-11)));
        bool use_h = choose("use_h");
        if (choose("whole")) {
            cover("whole interval");
            contractT(s, s.calculateT(E, use_h), E, s.h, use_h);
            return;
        }
        T<Sym, Dynamic> t = s.calculateT(E, d, use_h);
        Sym eps(1e-12);
        if (provable(le(d, eps) && ge(d, -eps))) {
            cover("offset zero");
            for (int r = 0; r < 2 * n; ++r)
                for (int c = 0; c < 2 * n; ++c) prove("starts as the identity, without energy dependence", eq(t.t(r, c), r == c ? 1 : 0) && eq(t.dt(r, c), 0));
        } else if (use_h && provable(le(d - s.h, eps) && ge(d - s.h, -eps))) {
            cover("offset is the whole interval");
            contractT(s, t, E, s.h, true);
        } else {
            cover("general offset");
            contractT(s, t, E, d, false);
        }
        canary("the offset is positive", gt(d, 0));
    }, o);
}
VC_CASE(assembly1) { assembly(1); }
VC_CASE(assembly2) { assembly(2); }
VC_CASE(assembly3) { assembly(3); }
