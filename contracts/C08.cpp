// Matslise::propagate: the composition of the intervals between a and b, the angle, the domain check
#include "env_prop.h"
#include "sources_matslise.h"
using namespace vc;

static Options upTo(int n) {
    Options o;
    o.bounded = true;
    o.bound = "meshes of up to 5 intervals";
    return o;
}
template<int cols> static Y<Sym, 1, cols> start() {
    Y<Sym, 1, cols> y;
    for (int c = 0; c < cols; ++c)
        for (int r = 0; r < 4; ++r) y.data(r, c) = Sym::var("y" + std::to_string(r) + "_" + std::to_string(c));
    return y;
}
static Sym angleOf(const Sym &t) { return t; }
static Sym angleOf(const Eigen::Array<Sym, 1, 1> &t, int) { return t[0]; }

template<int cols> static void composes(int n) {
    explore("composes", [n] {
        underContract("Matslise::propagate");
        underContract("matslise::find_sector");
        auto x = prop::meshPoints(n);
        int match = n / 2;
        auto ms = prop::onMesh(x, match);
        Sym a = Sym::var("a"), b = Sym::var("b"), E = Sym::var("E");
        bool use_h = choose("use_h");
        auto y = start<cols>();
        bool inside = (a >= x[0]) && (a <= x[n]) && (b >= x[0]) && (b <= x[n]);
        Y<Sym, 1, cols> r;
        Eigen::Array<Sym, cols, 1> theta;
        bool thrown = false;
        try {
            auto p = ms->template propagate<cols>(E, y, a, b, use_h);
            r = p.first;
            if constexpr (cols == 1) theta[0] = p.second; else theta = p.second;
        } catch (std::runtime_error &) {
            thrown = true;
        }
        if (!inside) {
            cover("a point outside the domain");
            proveExact("a point outside the domain raises an error", thrown, "no error for a point outside the domain");
            return;
        }
        proveExact("no error inside the domain", !thrown, "an error for points inside the domain");
        if (thrown) return;
        bool right = a < b, left = b < a;
        cover(right ? "a < b" : left ? "a > b" : "a = b");
        for (int c = 0; c < cols; ++c) {
            std::vector<Sym> z{y.data(0, c), y.data(1, c), y.data(2, c), y.data(3, c)};
            Sym t = prop::theta0(E, z[0], z[1]);
            // the representative modulo pi in [0, pi), in (0, pi] when moving left or at the right end of the domain
            if (t < 0) t += PI();
            else if ((left || a == ms->domain.max) && t == 0) t += PI();
            int steps = 0;
            for (int k = 0; k < n; ++k) {
                int i = left ? n - 1 - k : k;
                Sym from = prop::clampTo(a, x[i], x[i + 1]), to = prop::clampTo(b, x[i], x[i + 1]);
                if (from == to) continue;
                ++steps;
                auto s = prop::step(x[i], x[i + 1], E, from, to, use_h, z);
                t += s[4];
                s.pop_back();
                z = s;
            }
            if (steps == n && n > 1) cover("every interval is passed");
            for (int i = 0; i < 4; ++i) prove("the flows of exactly the intervals between a and b, in order", eq(r.data(i, c), z[i]));
            prove("the angle is the start angle plus the sum of the partial angles", eq(theta[c], t));
        }
        canary("the solution stays", eq(r.data(0, 0), y.data(0, 0)));
        canary("the angle stays", eq(theta[0], 0));
    }, upTo(n));
}
VC_CASE(one) { composes<1>(1); }
VC_CASE(two) { composes<1>(2); }
VC_CASE(three) { composes<1>(3); }
VC_CASE(four) { composes<1>(4); }
VC_CASE(five) { composes<1>(5); }
VC_CASE(two_columns) { composes<2>(2); }
VC_CASE(three_columns) { composes<2>(3); }
