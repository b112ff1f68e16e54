// calculate_tcoeff_matrix (scalar problem), executed on the polynomial ring Q[h, v1..v15]: every coefficient it
// stores equals the exact expansion that is derived from the differential equation in cpm_spec.h.
#include "vc_eigen.h"
#include "cpm_spec.h"
#include "matslise/matslise_formulas.cpp"
using namespace vc;
typedef ring::Poly<true> P;

struct Computed {
    Eigen::Array<Eigen::Matrix<P, 2, 2, Eigen::DontAlign>, MATSLISE_ETA_delta, MATSLISE_HMAX_delta, Eigen::DontAlign> tD;
    Eigen::Matrix<P, 2, 2, Eigen::DontAlign> tH[MATSLISE_ETA_h];

    Computed() {
        std::array<P, MATSLISE_N> vs;
        for (int i = 0; i < MATSLISE_N; ++i) vs[i] = P::letter(i);
        P h = P::H();
        calculate_tcoeff_matrix<P>(h, vs, tD, tH);
    }

    P C(int i, int r, int c) const {
        P p;
        if (i < MATSLISE_ETA_delta)
            for (int j = 0; j < MATSLISE_HMAX_delta; ++j) p += tD(i, j)(r, c) * P::D(j);
        return p;
    }
};

static std::string at(int i, int r, int c) {
    return "coefficient of eta_" + std::to_string(i) + ", entry (" + std::to_string(r) + "," + std::to_string(c) + "): ";
}

VC_CASE(spec_lemma) {
    explore("spec", [] {
        cpm::Spec<true> S(MATSLISE_N, 12, 20);
        for (int c = 0; c < 2; ++c) {
            auto C = [&](int i) { return S.C[c][i]; };
            auto R = [&](int i) { return S.R[c][i]; };
            for (int i = 0; i <= 10; ++i) {
                P r0 = S.residual0(i, C, R).truncate(19), r1 = S.residual1(i, C, R).truncate(18);
                proveExact("lemma: the specification's row 1 is the derivative of row 0", r0.terms().empty(), at(i, 0, c) + r0.show());
                proveExact("lemma: the specification solves y'' = (V - E) y", r1.terms().empty(), at(i, 1, c) + r1.show());
            }
            proveExact("lemma: the specification starts as the identity", S.C[c][0] == P(c == 0 ? 1 : 0) && S.R[c][0].truncate(1) == P(c) && S.C[c][1].truncate(1).terms().empty(), at(0, 0, c));
        }
        prove("reached", F(true));
    });
}

VC_CASE(formulas) {
    explore("formulas", [] {
        underContract("calculate_tcoeff_matrix<Scalar> (matslise/matslise/matslise_formulas.cpp)");
        assumption("scalar formulas: expansions are compared up to the total degree in step and offset that the code keeps (16 at an offset, with the contribution of v14 and v15 only to degree 14; 18 at the end point)");
        Computed K;
        cpm::Spec<true> S(MATSLISE_N, 12, 20);
        proveExact("the formulas are polynomials in the step and the potential coefficients", !ring::notPolynomial(), "");
        for (int c = 0; c < 2; ++c) {
            auto C = [&](int i) { return K.C(i, 0, c); };
            auto R = [&](int i) { return K.C(i, 1, c); };
            for (int i = 0; i <= MATSLISE_ETA_delta; ++i) {
                P r0 = S.residual0(i, C, R).without(14).truncate(16), r1 = S.residual1(i, C, R).without(14).truncate(15);
                proveExact("offset formula: row 1 is the derivative of row 0 to degree 15", r0.terms().empty(), at(i, 0, c) + r0.show());
                proveExact("offset formula: y'' = (V - E) y to degree 14", r1.terms().empty(), at(i, 1, c) + r1.show());
                P a0 = S.residual0(i, C, R).truncate(14), a1 = S.residual1(i, C, R).truncate(13);
                proveExact("offset formula: row 1 is the derivative of row 0 to degree 13, all coefficients of the potential", a0.terms().empty(), at(i, 0, c) + a0.show());
                proveExact("offset formula: y'' = (V - E) y to degree 12, all coefficients of the potential", a1.terms().empty(), at(i, 1, c) + a1.show());
                for (int r = 0; r < 2; ++r) {
                    const P &s = r ? S.R[c][i] : S.C[c][i];
                    P d = (K.C(i, r, c) - s);
                    proveExact("offset formula: every kept coefficient is that of the exact expansion (degree <= 16)", d.without(14).truncate(17).terms().empty(), at(i, r, c) + d.without(14).truncate(17).show());
                    proveExact("offset formula: complete in all coefficients of the potential to degree 14", d.truncate(15).terms().empty(), at(i, r, c) + d.truncate(15).show());
                }
            }
            for (int i = 0; i < MATSLISE_ETA_h; ++i)
                for (int r = 0; r < 2; ++r) {
                    const P &s = r ? S.R[c][i] : S.C[c][i];
                    P d = K.tH[i](r, c) - s.atEnd();
                    proveExact("end-point formula: every coefficient is that of the exact expansion at the end (degree <= 18)", d.truncate(19).terms().empty(), at(i, r, c) + d.truncate(19).show());
                    P e = K.tH[i](r, c) - K.C(i, r, c).atEnd();
                    proveExact("end-point formula agrees with the offset formula at the end to degree 14", e.truncate(15).terms().empty(), at(i, r, c) + e.truncate(15).show());
                }
            proveExact("the formulas start as the identity", K.tD(0, 0)(0, c) == P(c == 0 ? 1 : 0) && K.tD(0, 0)(1, c) == P(c), at(0, 0, c));
            for (int i = 1; i < MATSLISE_ETA_delta; ++i)
                proveExact("the formulas start as the identity", K.tD(i, 0)(0, c).terms().empty() && K.tD(i, 0)(1, c).terms().empty(), at(i, 0, c));
        }
        prove("reached", F(true));
    });
}

