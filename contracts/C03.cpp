// calculateEta against the exact functions eta_0 = cosh sqrt Z, eta_1 = sinh(sqrt Z)/sqrt Z,
// eta_i = (eta_{i-2} - (2i-3) eta_{i-1})/Z, that is eta_i = sum_q Z^q 2^{i-1} (q+i-1)! / (q! (2q+2i-1)!) for i>=1
#include "vc_eigen.h"
#include "util/calculateEta.h"
using namespace vc;

static mpz_class fact(unsigned long n) {
    mpz_class r;
    mpz_fac_ui(r.get_mpz_t(), n);
    return r;
}
static mpq_class series(int i, int q) {
    if (i == 0) return mpq_class(mpz_class(1), fact(2 * q));
    mpz_class p2 = 1;
    for (int j = 1; j < i; ++j) p2 *= 2;
    mpq_class r(p2 * fact(q + i - 1), fact(q) * fact(2 * q + 2 * i - 1));
    r.canonicalize();
    return r;
}
static mpq_class power(const mpq_class &b, int n) {
    mpq_class r = 1;
    for (int i = 0; i < n; ++i) r *= b;
    return r;
}
// the exact series satisfies the recursion used everywhere: Z eta_{i} = eta_{i-2} - (2i-3) eta_{i-1}
VC_CASE(series_lemma) {
    explore("series", [] {
        for (int i = 2; i <= 40; ++i)
            for (int q = 0; q <= 80; ++q) {
                mpq_class lhs = q ? series(i, q - 1) : mpq_class(0);
                proveExact("lemma: Z eta_i = eta_{i-2} - (2i-3) eta_{i-1}, coefficientwise", lhs == series(i - 2, q) - (2 * i - 3) * series(i - 1, q), "i=" + std::to_string(i) + " q=" + std::to_string(q));
            }
        for (int i = 0; i < 40; ++i)
            for (int q = 0; q < 80; ++q) // d eta_i / dZ = eta_{i+1}/2
                proveExact("lemma: d eta_i/dZ = eta_{i+1}/2, coefficientwise", (q + 1) * series(i, q + 1) * 2 == series(i + 1, q), "i=" + std::to_string(i) + " q=" + std::to_string(q));
        prove("reached", F(true));
    });
}
// sup |value - eta_i| on |Z| <= zmax, from the coefficients, with the tail of the exact series bounded geometrically
static mpq_class errorBound(const std::vector<mpq_class> &c, int i, const mpq_class &zmax) {
    mpq_class e = 0, pw = 1;
    int top = std::max<int>(c.size(), 90);
    for (int q = 0; q < top; ++q) {
        mpq_class d = (q < (int) c.size() ? c[q] : mpq_class(0)) - series(i, q);
        e += ::abs(d) * pw;
        pw *= zmax;
    }
    // tail: term ratio is zmax/((2q+..)..) < 1/2 from q=90 on
    e += 2 * series(i, top) * pw;
    return e;
}
template<int n> static void contract() {
    underContract("calculateEta<Scalar, " + std::to_string(n) + "> (matslise/util/calculateEta.h)");
    Sym Z = Sym::var("Z");
    auto eta = calculateEta<Sym, n>(Z);
    std::vector<mpq_class> c;
    bool inside = provable(gt(Z, -100) && lt(Z, 100));
    if (inside) {
        // which unit interval of Z does this path cover (the series branch depends on it)
        int lo = 0, hi = 100; // |Z| <= hi holds, |Z| <= lo does not
        while (hi - lo > 1) {
            int k = (lo + hi) / 2;
            if (provable(ge(Z, -k) && le(Z, k))) hi = k; else lo = k;
        }
        mpq_class zmax = hi;
        for (int i = 0; i < n; ++i) {
            if (!univariate(eta[i], Z, c)) { // a closed form inside the disc: must be exact
                Sym s = sqrt(abs(Z));
                if (i == 0) prove("|Z|<100: eta_0 exact", implies(gt(Z, 0), eq(eta[0], cosh(sqrt(Z)))) && implies(lt(Z, 0), eq(eta[0], cos(sqrt(-Z)))) && implies(eq(Z, 0), eq(eta[0], 1)));
                else if (i == 1) prove("|Z|<100: eta_1 exact", implies(gt(Z, 0), eq(eta[1] * sqrt(Z), sinh(sqrt(Z)))) && implies(lt(Z, 0), eq(eta[1] * sqrt(-Z), sin(sqrt(-Z)))) && implies(eq(Z, 0), eq(eta[1], 1)));
                else prove("|Z|<100: recursion", eq(Z * eta[i], eta[i - 2] - Sym(2 * i - 3) * eta[i - 1]));
                continue;
            }
            mpq_class e = errorBound(c, i, zmax);
            proveExact("|Z|<100: |eta_i - exact| <= 1e-13 * eta_i(0)", e <= series(i, 0) * mpq_class("1/10000000000000"),
                       "i=" + std::to_string(i) + " on |Z|<=" + zmax.get_str() + ": error bound " + std::to_string(e.get_d()));
        }
        cover("series");
    } else {
        F pos = gt(Z, 0);
        prove("|Z|>=100 or closed form: eta_0", implies(pos, eq(eta[0], cosh(sqrt(Z)))) && implies(lt(Z, 0), eq(eta[0], cos(sqrt(-Z)))));
        prove("|Z|>=100 or closed form: eta_1", implies(pos, eq(eta[1] * sqrt(Z), sinh(sqrt(Z)))) && implies(lt(Z, 0), eq(eta[1] * sqrt(-Z), sin(sqrt(-Z)))));
        prove("closed form is not used at Z=0", ne(Z, 0));
        for (int i = 2; i < n; ++i)
            prove("|Z|>=100: recursion", eq(Z * eta[i], eta[i - 2] - Sym(2 * i - 3) * eta[i - 1]));
        canary("canary: eta_0 = eta_1", eq(eta[0], eta[1]));
        cover("closed form");
    }
}
VC_CASE(n9) { explore("n=9", [] { contract<9>(); }); }
VC_CASE(n10) { explore("n=10", [] { contract<10>(); }); }
VC_CASE(n5) { explore("n=5", [] { contract<5>(); }); }
VC_CASE(n6) { explore("n=6", [] { contract<6>(); }); }
VC_CASE(n2) { explore("n=2", [] { contract<2>(); }); }
VC_CASE(n12) { explore("n=12", [] { contract<12>(); }); }
VC_CASE(array) {
    explore("array", [] {
        underContract("calculateEta<Scalar, n>(Array) (matslise/util/calculateEta.h)");
        Eigen::Array<Sym, Eigen::Dynamic, 1> Z(3);
        for (int i = 0; i < 3; ++i) {
            Z[i] = Sym::var("Z" + std::to_string(i));
            assume(gt(Z[i], 100));
        }
        auto eta = calculateEta<Sym, 5>(Z);
        prove("one column per argument", F(eta.cols() == 3 && eta.rows() == 5));
        for (int i = 0; i < 3; ++i) {
            auto one = calculateEta<Sym, 5>(Z[i]);
            for (int j = 0; j < 5; ++j) prove("column i is eta of Z_i", eq(eta(j, i), one[j]));
        }
    });
}
