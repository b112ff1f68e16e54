// Half-range eigenfunctions: parity, norm, array = scalar
#include "env_queries.h"
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
using queries::side;
static MatsliseHalf<Sym> problem() { queries::counts().clear(); return MatsliseHalf<Sym>([](const Sym &x) { return uf("V", {x}); }, Sym::var("b"), Sym::var("tol")); }
static Y<Sym> middle(bool even) {
    Y<Sym> y;
    y.data[0] = Sym(even ? 1 : 0), y.data[1] = Sym(even ? 0 : 1), y.data[2] = 0, y.data[3] = 0;
    return y;
}
VC_CASE(reflection) {
    explore("reflection", [] {
        underContract("MatsliseHalf::eigenfunction");
        underContract("EigenfunctionHalf::operator()(Scalar)");
        underContract("isEven");
        underContract("getY0");
        auto h = problem();
        auto s = side("side");
        Sym E = Sym::var("E"), x = Sym::var("x");
        int index = -1;
        while (index < 6 && choose("index")) ++index;
        auto f = h.eigenfunction(E, s, index);
        bool even = index % 2 == 0;
        if (index == -1) {
            // without an index: the parity whose matching condition is met best
            Sym e = std::get<0>(h.ms->matchingError(E, middle(true), s)), o = std::get<0>(h.ms->matchingError(E, middle(false), s));
            even = abs(e) < abs(o);
            cover(even ? "even without an index" : "odd without an index");
        } else cover(even ? "even index" : "odd index");
        assume(gt(x, 0));
        auto p = (*f)(x), n = (*f)(-x);
        prove("the value is reflected with the parity of the index", eq(n[0], even ? p[0] : -p[0]));
        prove("the derivative is reflected with the opposite parity", eq(n[1], even ? -p[1] : p[1]));
        Sym u = queries::value(0, E, middle(even), s, x), d = queries::value(1, E, middle(even), s, x);
        // int_{-b}^{b} f^2 = 2 int_0^b f^2 and int_0^b u^2 = 1
        prove("the square is half of the square of the normalised half-range eigenfunction", eq(2 * p[0] * p[0], u * u));
        prove("value and derivative are scaled alike", eq(2 * p[1] * p[1], d * d) && eq(2 * p[0] * p[1], u * d));
        auto z = (*f)(Sym(0));
        Sym u0 = queries::value(0, E, middle(even), s, Sym(0)), d0 = queries::value(1, E, middle(even), s, Sym(0));
        prove("at the middle the half-range eigenfunction", eq(2 * z[0] * z[0], u0 * u0) && eq(2 * z[1] * z[1], d0 * d0) && eq(z[0] * u, p[0] * u0) && eq(z[1] * d, p[1] * d0));
        canary("every function is even", eq(n[0], p[0]) && eq(n[1], -p[1]));
    });
}
static void points(int n, bool even) {
    Options o;
    o.bounded = true;
    o.bound = "arrays of up to 8 points";
    o.maxPaths = 200000;
    explore("array", [n, even] {
        underContract("EigenfunctionHalf::operator()(Array)");
        auto h = problem();
        auto s = side("side");
        Sym E = Sym::var("E");
        auto f = h.eigenfunction(E, s, even ? 0 : 1);
        Eigen::Array<Sym, Eigen::Dynamic, 1> xs(n);
        for (int i = 0; i < n; ++i) xs[i] = Sym::var("x" + std::to_string(i));
        bool sorted = true;
        for (int i = 1; i < n; ++i) if (xs[i] < xs[i - 1]) { sorted = false; break; }
        Eigen::Array<Sym, Eigen::Dynamic, 2> ys;
        bool thrown = false;
        try { ys = (*f)(xs); } catch (std::runtime_error &) { thrown = true; }
        cover(sorted ? "sorted" : n > 1 ? "not sorted" : "sorted");
        // points that are not sorted may be refused; where values come back they have to be right
        if (sorted) proveExact("sorted points are evaluated", !thrown, "error for sorted points");
        if (thrown) return;
        proveExact("as many values as points", ys.rows() == n, std::to_string(ys.rows()));
        for (int i = 0; i < n && i < ys.rows(); ++i) {
            auto y = (*f)(xs[i]);
            prove("each value is that of the point alone", eq(ys(i, 0), y[0]));
            prove("each derivative is that of the point alone", eq(ys(i, 1), y[1]));
        }
        if (n) canary("every point has the same value", eq(ys(0, 0), (*f)(Sym(1))[0]));
    }, o);
}
VC_CASE(array_none) { points(0, true); }
VC_CASE(array_one) { points(1, true); }
VC_CASE(array_two) { points(2, false); }
VC_CASE(array_three) { points(3, true); }
VC_CASE(array_four) { points(4, false); }
VC_CASE(array_five) { points(5, true); }
VC_CASE(array_eight) { points(8, false); }
