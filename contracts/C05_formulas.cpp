// calculate_tcoeff_matrix (coupled problem), executed on the free algebra Q<v0..v8>[h]: the matrices v_k do not
// commute, so an identity in this ring holds for matrices of every size.  The decimal literals in the code are
// rounded, so coefficients are compared up to 1e-9.
#include "vc_eigen.h"
#include "cpm_spec.h"
#include "matscs/matscs_formulas.cpp"
using namespace vc;
typedef ring::Poly<false> P;
typedef Eigen::Matrix<P, -1, -1> MP;

struct Computed {
    Eigen::Array<MP, MATSCS_ETA_delta, MATSCS_HMAX_delta> tD;
    std::array<MP, MATSCS_ETA_h> tH;

    Computed() {
        std::array<MP, MATSCS_N> vs;
        for (int i = 0; i < MATSCS_N; ++i) vs[i] = MP::Constant(1, 1, P::letter(i));
        calculate_tcoeff_matrix<P>(1, P::H(), vs, tD, tH);
    }
    P C(int i, int r, int c) const {
        P p;
        if (i < MATSCS_ETA_delta)
            for (int j = 0; j < MATSCS_HMAX_delta; ++j) p += tD(i, j)(r, c) * P::D(j);
        return p;
    }
};

static std::string at(int i, int r, int c) {
    return "coefficient of eta_" + std::to_string(i) + ", block (" + std::to_string(r) + "," + std::to_string(c) + "): ";
}
static const mpq_class tol(1, 1000000000);
static P large(const P &p) { // the part that is not rounding
    ring::Terms t;
    for (auto &x: p.terms()) if (::abs(x.second) > tol) t[x.first] = x.second;
    return P(std::move(t));
}
// the image when all v_k commute; v0 then only occurs in commutators and drops out
static ring::Poly<true> abelian(const P &p) {
    ring::Terms t;
    for (auto &x: p.terms()) {
        ring::Mono m = x.first;
        std::sort(m.w.begin(), m.w.end());
        t[m] += x.second;
    }
    return ring::Poly<true>(std::move(t));
}

VC_CASE(spec_lemma) {
    explore("spec", [] {
        cpm::Spec<false> S(MATSCS_N, 8, 12);
        for (int c = 0; c < 2; ++c) {
            auto C = [&](int i) { return S.C[c][i]; };
            auto R = [&](int i) { return S.R[c][i]; };
            for (int i = 0; i <= 6; ++i) {
                P r0 = S.residual0(i, C, R).truncate(11), r1 = S.residual1(i, C, R).truncate(10);
                proveExact("lemma: the specification's row 1 is the derivative of row 0", r0.terms().empty(), at(i, 0, c) + r0.show());
                proveExact("lemma: the specification solves Y'' = (V - E) Y", r1.terms().empty(), at(i, 1, c) + r1.show());
            }
            proveExact("lemma: the specification starts as the identity", S.C[c][0] == P(c == 0 ? 1 : 0) && S.R[c][0].truncate(1) == P(c) && S.C[c][1].truncate(1).terms().empty(), at(0, 0, c));
        }
        prove("reached", F(true));
    });
}

VC_CASE(formulas) {
    explore("formulas", [] {
        underContract("calculate_tcoeff_matrix<Scalar> (matslise/matscs/matscs_formulas.cpp)");
        assumption("coupled formulas: expansions are compared up to the total degree in step and offset that the code keeps (9 in the first block row, 8 in the second and for eta_5 at an offset, 10 at the end point) and up to 1e-9 per coefficient (rounded decimal literals)");
        Computed K;
        cpm::Spec<false> S(MATSCS_N, 8, 12);
        proveExact("the formulas are polynomials in the step and the potential coefficients", !ring::notPolynomial(), "");
        for (int i = 0; i < MATSCS_ETA_delta; ++i)
            for (int j = 0; j < MATSCS_HMAX_delta; ++j) proveExact("every coefficient is set, with the size of the system", K.tD(i, j).rows() == 2 && K.tD(i, j).cols() == 2, at(i, 0, 0));
        for (int c = 0; c < 2; ++c) {
            auto C = [&](int i) { return K.C(i, 0, c); };
            auto R = [&](int i) { return K.C(i, 1, c); };
            for (int i = 0; i <= MATSCS_ETA_delta; ++i) {
                P r0 = large(S.residual0(i, C, R).truncate(8)), r1 = large(S.residual1(i, C, R).truncate(7));
                proveExact("offset formula: row 1 is the derivative of row 0 to degree 7", r0.terms().empty(), at(i, 0, c) + r0.show());
                proveExact("offset formula: Y'' = (V - E) Y to degree 6", r1.terms().empty(), at(i, 1, c) + r1.show());
                for (int r = 0; r < 2; ++r) {
                    P d = large((K.C(i, r, c) - (r ? S.R[c][i] : S.C[c][i])).truncate(r || i >= MATSCS_ETA_delta ? 9 : 10));
                    proveExact("offset formula: every kept coefficient is that of the exact expansion", d.terms().empty(), at(i, r, c) + d.show());
                }
            }
            cpm::Spec<true> SC(MATSCS_N, 8, 12);
            for (int i = 0; i < MATSCS_ETA_h; ++i)
                for (int r = 0; r < 2; ++r) {
                    const P &s = r ? S.R[c][i] : S.C[c][i];
                    P d = large((K.tH[i](r, c) - s.atEnd()).truncate(11));
                    proveExact("end-point formula: every coefficient is that of the exact expansion at the end (degree <= 10)", d.terms().empty(), at(i, r, c) + d.show());
                    P e = large((K.tH[i](r, c) - K.C(i, r, c).atEnd()).truncate(r || i >= MATSCS_ETA_delta ? 9 : 10));
                    proveExact("end-point formula agrees with the offset formula at the end", e.terms().empty(), at(i, r, c) + e.show());
                    ring::Poly<true> ab = abelian(K.tH[i](r, c)) - (r ? SC.R[c][i] : SC.C[c][i]).atEnd();
                    proveExact("channels without coupling: the end-point formula of the scalar equation", cpm::orderUpTo(ab, tol) > 10, at(i, r, c) + ab.truncate(11).show());
                    ring::Poly<true> ad = abelian(K.C(i, r, c)) - (r ? SC.R[c][i] : SC.C[c][i]);
                    proveExact("channels without coupling: the offset formula of the scalar equation", cpm::orderUpTo(ad, tol) > (r || i >= MATSCS_ETA_delta ? 8 : 9), at(i, r, c) + ad.truncate(10).show());
                }
            proveExact("the formulas start as the identity", large(K.tD(0, 0)(0, c) - P(c == 0 ? 1 : 0)).terms().empty() && large(K.tD(0, 0)(1, c) - P(c)).terms().empty(), at(0, 0, c));
            for (int i = 1; i < MATSCS_ETA_delta; ++i)
                proveExact("the formulas start as the identity", large(K.tD(i, 0)(0, c)).terms().empty() && large(K.tD(i, 0)(1, c)).terms().empty(), at(i, 0, c));
        }
        prove("reached", F(true));
    });
}
