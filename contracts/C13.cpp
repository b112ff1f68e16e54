// Eigenfunctions: the solution from the left, the multiple of the solution from the right, unit norm, array = scalar
#include "env_flow_table.h"
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
using table::Vec;

struct Setup {
    std::vector<Sym> x;
    std::unique_ptr<Matslise<Sym>> ms;
    int n, match;
    Sym E = Sym::var("E"), ratio = Sym::var("ratio"), norm2;
    Y<Sym> left, right;
    std::vector<Vec> L, R; // at mesh point i: the solution from the left (i <= match+1) and from the right (i > match)
    Setup(int n, int match) : n(n), match(match) {
        table::entries().clear();
        cancelFactors();
        x = table::meshPoints(n);
        ms = table::onMesh(x, match);
        left.data[0] = Sym::var("left0"), left.data[1] = Sym::var("left1"), left.data[2] = 0, left.data[3] = 0;
        right.data[0] = Sym::var("right0"), right.data[1] = Sym::var("right1"), right.data[2] = 0, right.data[3] = 0;
        L.resize(n + 1), R.resize(n + 1);
        R[n] = table::vec(right);
        for (int i = n - 1; i > match; --i) R[i] = table::flow(x[i], x[i + 1], E, x[i + 1], x[i], true, R[i + 1]);
        L[0] = table::vec(left);
        for (int i = 0; i < match; ++i) L[i + 1] = table::flow(x[i], x[i + 1], E, x[i], x[i + 1], true, L[i]);
        // E is an eigenvalue: at the matching point the solution from the left is a multiple of that from the right
        auto &r = R[match + 1];
        assume(ne(ratio, 0));
        Vec end{ratio * r[0], ratio * r[1], Sym::var("energy0"), Sym::var("energy1")};
        table::entries().push_back({x[match], x[match + 1], E, x[match], x[match + 1], true, L[match], end});
        L[match + 1] = end;
        // Lagrange identity: y_E y' - y_E' y at m is the integral of y^2 from the end to m (from the right: minus it)
        norm2 = end[2] * end[1] - end[3] * end[0] - ratio * ratio * (r[2] * r[1] - r[3] * r[0]);
        assume(gt(norm2, 0));
    }
    // the solution with unit norm, up to the factor 1/sqrt(norm2)
    Vec solution(const Sym &at) {
        for (int i = 0; i < n; ++i) {
            if (i < n - 1 && at >= x[i + 1]) continue;
            if (i <= match) return table::flow(x[i], x[i + 1], E, x[i], at, true, L[i]);
            Vec v = table::flow(x[i], x[i + 1], E, x[i + 1], at, true, R[i + 1]);
            for (auto &s: v) s = ratio * s;
            return v;
        }
        return {};
    }
};
static Options upTo(const std::string &b) {
    Options o;
    o.bounded = true;
    o.bound = b;
    o.maxPaths = 200000;
    return o;
}
static void single(int n, int match) {
    explore("single", [n, match] {
        underContract("Matslise::eigenfunction");
        underContract("propagationSteps");
        underContract("MEigenfunction::operator()(Scalar)");
        underContract("findSector");
        Setup s(n, match);
        auto f = s.ms->eigenfunction(s.E, s.left, s.right, choose("index") ? 3 : -1);
        Sym at = Sym::var("at");
        if (at < s.x[0] || at > s.x[n]) {
            cover("outside");
            auto y = (*f)(at);
            prove("zero outside the domain", eq(y[0], 0) && eq(y[1], 0));
            return;
        }
        Vec v = s.solution(at);
        auto y = (*f)(at);
        cover(at < s.x[match + 1] ? "left part" : "right part or matching point");
        Sym root = sqrt(s.norm2);
        for (int k = 0; k < 2; ++k) prove("the solution through the boundary conditions, scaled to agree at the matching point and to unit norm", eq(y[k] * root, v[k]));
        canary("the value is not scaled", eq(y[0], v[0]));
    }, upTo("meshes of up to 4 intervals, arrays of up to 4 points"));
}
static void points(int n, int match, int count) {
    explore("array", [n, match, count] {
        underContract("MEigenfunction::operator()(Array)");
        Setup s(n, match);
        auto f = s.ms->eigenfunction(s.E, s.left, s.right);
        Eigen::Array<Sym, Eigen::Dynamic, 1> xs(count);
        for (int i = 0; i < count; ++i) xs[i] = Sym::var("at" + std::to_string(i));
        auto ys = (*f)(xs);
        proveExact("as many values as points", ys.rows() == count, std::to_string(ys.rows()));
        for (int i = 0; i < count && i < ys.rows(); ++i) {
            auto y = (*f)(xs[i]);
            for (int k = 0; k < 2; ++k) prove("each value of an array is that of the point alone", eq(ys(i, k), y[k]));
        }
        canary("all values are zero", eq(ys(count - 1, 0), 0));
    }, upTo("meshes of up to 4 intervals, arrays of up to 4 points"));
}
VC_CASE(single_1) { single(1, 0); }
VC_CASE(single_2_0) { single(2, 0); }
VC_CASE(single_2_1) { single(2, 1); }
VC_CASE(single_3_0) { single(3, 0); }
VC_CASE(single_3_1) { single(3, 1); }
VC_CASE(single_4_1) { single(4, 1); }
VC_CASE(array_1_2) { points(1, 0, 2); }
VC_CASE(array_2_2) { points(2, 0, 2); }
VC_CASE(array_3_2) { points(3, 1, 2); }
VC_CASE(array_2_3) { points(2, 0, 3); }
VC_CASE(array_4_1) { points(4, 1, 1); }
