// The exact constant perturbation expansion, computed from the differential equation alone.
//
// T(delta) = sum_i C_i(delta) eta_i(Z delta^2) + [[0,0],[delta,0]] Z eta_1(Z delta^2),   Z = v0 - E,
// with eta_i' = Z delta eta_{i+1}  and  Z delta^2 eta_{i+1} = eta_{i-1} - (2i-1) eta_i  (i >= 1)  (proved of the
// series in C03) is a solution of   T_0' = T_1,  T_1' = (Z + Vtilde) T_0,  Vtilde = sum_k v_k h^k P_k*(delta/h),
// exactly when, in every column, with C_i = row 0 and R_i = row 1,
//   R_i = C_i' - (2i-1) C_i/delta + C_{i+1}/delta                                                             (i >= 1)
//   R_0 = C_0' + C_1/delta,   delta C_0 = D   (the coefficient of Z eta_1)
//   R_i' - (2i-1) R_i/delta + R_{i+1}/delta = Vtilde C_i + [v0, C_i] + C_{i+2}/delta^2 - (2i-1) C_{i+1}/delta^2   (i >= 1)
//   R_0' + R_1/delta = Vtilde C_0 + [v0, C_0] + C_2/delta^2,   delta R_0 = C_1
// which is solved degree by degree in delta.
#pragma once

#include "ring.h"

namespace cpm {
    // N: number of Legendre coefficients, terms up to total degree top in (h, delta) for row 0 (top-1 for row 1)
    template<bool commutative>
    struct Spec {
        typedef ring::Poly<commutative> P;
        int etas, top, N;
        P V, v0;
        std::vector<P> C[2], R[2]; // [column][eta]

        Spec(int N, int etas, int top) : etas(etas), top(top), N(N) {
            v0 = commutative ? P() : P::letter(0);
            for (int k = 1; k < N; ++k)
                for (int j = 0; j <= k; ++j) {
                    mpz_class b1, b2;
                    mpz_bin_uiui(b1.get_mpz_t(), k, j);
                    mpz_bin_uiui(b2.get_mpz_t(), k + j, j);
                    mpq_class q(b1 * b2);
                    if ((k + j) % 2) q = -q;
                    V += P(q) * P::letter(k) * P::D(j) * P::H(k - j);
                }
            for (int c = 0; c < 2; ++c) {
                C[c].resize(etas + 2);
                R[c].resize(etas + 2);
                C[c][0] = P(c == 0 ? 1 : 0);
                for (int i = 0; i <= etas; ++i) {
                    P rhs = V * C[c][i] + v0 * C[c][i] - C[c][i] * v0 - C[c][i].derivative().derivative();
                    rhs += P(2 * (2 * i - 1)) * C[c][i].derivative().shift(-1);
                    rhs -= P((2 * i - 1) + (2 * i - 1) * (2 * i - 1)) * C[c][i].shift(-2);
                    ring::Terms next;
                    for (auto &t: rhs.terms()) {
                        int m = t.first.d + 2; // power of delta in C_{i+1}
                        ring::Mono mo = t.first;
                        mo.d = m;
                        if (mo.h + mo.d > top) continue;
                        if (m == i + 1) throw std::logic_error("the expansion has no solution");
                        next[mo] = t.second / (2 * (m - i - 1));
                    }
                    C[c][i + 1] = P(std::move(next));
                    if (i == 0 && c == 1) C[c][1] += P::D();
                }
                for (int i = 0; i <= etas; ++i) {
                    R[c][i] = C[c][i].derivative() + C[c][i + 1].shift(-1);
                    if (i) R[c][i] -= P(2 * i - 1) * C[c][i].shift(-1);
                    R[c][i] = R[c][i].truncate(top);
                }
            }
        }

        // residuals of the four families above for given coefficient functions; zero below the returned degree
        template<typename CF, typename RF>
        static P residual0(int i, const CF &C, const RF &R) {
            P r = C(i).derivative() + C(i + 1).shift(-1) - R(i);
            if (i) r -= P(2 * i - 1) * C(i).shift(-1);
            return r;
        }

        template<typename CF, typename RF>
        P residual1(int i, const CF &C, const RF &R) const {
            P r = R(i).derivative() + R(i + 1).shift(-1) - V * C(i) - v0 * C(i) + C(i) * v0 - C(i + 2).shift(-2);
            if (i) r += P(2 * i - 1) * (C(i + 1).shift(-2) - R(i).shift(-1));
            return r;
        }
    };

    // largest degree below which all coefficients of p are at most tol
    template<typename P>
    int orderUpTo(const P &p, const mpq_class &tol) {
        int o = 1000;
        for (auto &t: p.terms())
            if (::abs(t.second) > tol) o = std::min(o, t.first.h + t.first.d);
        return o;
    }
}
