// A Liouville transformation with pieces that are given from outside.  Piece::x2r is replaced by its contract (C17):
// on each piece it inverts r2x, which maps [0,1] onto the x-interval of the piece and is increasing.
#pragma once
#include "vc_eigen.h"
#include "util/legendre.h"
// the tables play no role here: a rule that is exact on constants
namespace matslise::legendre {
    template<int k> Eigen::Array<vc::Sym, k, 1> zeroNodes() {
        Eigen::Array<vc::Sym, k, 1> a;
        for (int i = 0; i < k; ++i) a[i] = vc::Sym(0);
        return a;
    }
    template<int k> Eigen::Array<vc::Sym, k, k> firstNode() {
        Eigen::Array<vc::Sym, k, k> a;
        for (int i = 0; i < k; ++i)
            for (int j = 0; j < k; ++j) a(i, j) = vc::Sym(i == 0 && j == 0 ? 1 : 0);
        return a;
    }
#define VC_CONST(k) \
    template<> inline const Eigen::Array<vc::Sym, k, 1> nodes<vc::Sym, k> = zeroNodes<k>(); \
    template<> inline const Eigen::Array<vc::Sym, k, k> weights<vc::Sym, k> = firstNode<k>();
    VC_CONST(2) VC_CONST(4) VC_CONST(6) VC_CONST(8) VC_CONST(10) VC_CONST(12) VC_CONST(14) VC_CONST(16)
#undef VC_CONST
}
#include "liouville.h"
using vc::Sym;
using vc::F;
namespace liou {
    using namespace vc;
    using matslise::Polynomial;
    typedef matslise::LiouvilleTransformation<Sym> LT;
    typedef LT::Piece Piece;
    // (normalised x, r) pairs known to correspond on some piece
    struct Known { Sym rmin, rmax, x, r; };
    inline std::vector<Known> &known() { static std::vector<Known> k; return k; }
    inline bool &trivial() { static bool b = false; return b; }
    inline Sym x2r(const Piece &p, const Sym &nx) {
        if (trivial()) return p.r.min + nx * (p.r.max - p.r.min);
        for (auto &k: known())
            if (provable(eq(k.rmin, p.r.min) && eq(k.rmax, p.r.max) && eq(k.x, nx))) return k.r;
        return uf("piece_x2r", {p.r.min, p.r.max, nx});
    }
    template<int d> Polynomial<Sym, d> poly(const std::string &name) {
        Eigen::Array<Sym, d + 1, 1> c;
        for (int i = 0; i <= d; ++i) c[i] = Sym::var(name + "_" + std::to_string(i));
        return Polynomial<Sym, d>(c);
    }
    // a polynomial of degree d with value v and derivative dv at t: all of them, one coefficient vector for each choice
    // of the free coefficients 2..d
    template<int d> Polynomial<Sym, d> through(const std::string &name, const Sym &t, const Sym &v, const Sym &dv) {
        Eigen::Array<Sym, d + 1, 1> c;
        Sym power = t, s1 = 0, s0 = 0;
        for (int i = 2; i <= d; ++i) {
            c[i] = Sym::var(name + "_" + std::to_string(i));
            s1 += i * c[i] * power;
            power *= t;
            s0 += c[i] * power;
        }
        c[1] = dv - s1;
        c[0] = v - s0 - c[1] * t;
        return Polynomial<Sym, d>(c);
    }
    inline Sym one(const Sym &) { return Sym(1); }
    // n pieces with any end points and polynomials and the point r of the domain, which lies in piece k at nr
    struct Setup {
        std::unique_ptr<LT> lt;
        int k;
        Sym r, nr, x, p, w, dp, dw, dr2x;
        Setup(int n, const LT::Function &q = [](const Sym &r) { return uf("q", {r}); }) {
            known().clear();
            // the real constructor on the trivial problem, then other pieces
            matslise::Domain<Sym> dom{Sym(0), Sym(1)};
            trivial() = true;
            lt = std::make_unique<LT>(dom, one, q, one);
            trivial() = false;
            Piece p0 = lt->pieces.front();
            lt->pieces.clear();
            k = 0;
            while (k + 1 < n && !choose("piece")) ++k;
            r = Sym::var("r"), nr = Sym::var("nr");
            Sym h = Sym::var("h");
            assume(gt(h, 0) && ge(nr, 0));
            assume(k == n - 1 ? le(nr, 1) : vc::lt(nr, 1));
            p = Sym::var("p"), w = Sym::var("w"), dp = Sym::var("dp"), dw = Sym::var("dw"), x = Sym::var("x"), dr2x = Sym::var("dr2x");
            assume(gt(p, 0) && gt(w, 0));
            std::vector<Sym> R(n + 1), X(n + 1);
            auto r2x = through<8>("r2x", nr, x, dr2x);
            R[k] = r - nr * h, R[k + 1] = r + (1 - nr) * h;
            X[k] = r2x(Sym(0)), X[k + 1] = r2x(Sym(1));
            assume(ge(r, R[k]) && (k == n - 1 ? le(r, R[k + 1]) : vc::lt(r, R[k + 1])));
            for (int i = 0; i <= n; ++i) if (i != k && i != k + 1) R[i] = Sym::var("R" + std::to_string(i)), X[i] = Sym::var("X" + std::to_string(i));
            for (int i = 0; i < n; ++i) {
                std::string s = std::to_string(i);
                Piece q = p0;
                q.r = {R[i], R[i + 1]};
                q.x = {X[i], X[i + 1]};
                assume(vc::lt(R[i], R[i + 1]) && vc::lt(X[i], X[i + 1]));
                if (i == k) {
                    q.p = through<8>("p", nr, p, dp * h);
                    q.w = through<8>("w", nr, w, dw * h);
                    q.r2x = r2x;
                } else {
                    q.p = poly<8>("p" + s);
                    q.w = poly<8>("w" + s);
                    q.r2x = poly<8>("r2x" + s);
                }
                q.pwx = poly<10>("pwx" + s);
                lt->pieces.push_back(q);
            }
            // the map of a piece is increasing from end to end
            assume(ge(x, X[k]) && le(x, X[k + 1]) && implies(gt(nr, 0), gt(x, X[k])) && implies(vc::lt(nr, 1), vc::lt(x, X[k + 1])));
            assume(implies(eq(nr, 1), eq(x, X[k + 1])));
            if (k < n - 1) assume(vc::lt(x, X[k + 1]));
            known().push_back({R[k], R[k + 1], (x - X[k]) / (X[k + 1] - X[k]), r});
        }
    };
}
#define LIOU_PIECE_X2R \
template<> inline Sym matslise::LiouvilleTransformation<Sym>::Piece::x2r(Sym nx) const { return liou::x2r(*this, nx); }
