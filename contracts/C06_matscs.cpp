// Energy derivatives of coupled solutions: matrix times solution, matrix inverse times solution, one interval
#include "env_matscs_flow.h"
#include "sources_matscs.h"
using namespace vc;
typedef Matscs<Sym>::Sector Sector;

static Options channels(int n) {
    Options o;
    o.bounded = n > 1;
    o.bound = "number of channels " + std::to_string(n);
    return o;
}
static Sym rule(const std::string &fn, const std::vector<Sym> &a, const Sym &) {
    if (fn[0] == 'y' || fn[0] == 'm') return uf("d" + fn, a);
    throw std::runtime_error("no derivative for " + fn);
}
template<int cols> static Y<Sym, Dynamic, cols> start(int n, int k, const Sym &E) {
    Y<Sym, Dynamic, cols> y(n, k);
    for (int c = 0; c < k; ++c)
        for (int r = 0; r < 2 * n; ++r) {
            std::string w = "y" + std::to_string(r) + "_" + std::to_string(c);
            y.data(r, c) = uf(w, {E});
            y.data(2 * n + r, c) = uf("d" + w, {E});
        }
    return y;
}

template<int cols> static void product(int n, int k) {
    explore("product", [n, k] {
        underContract("T::operator*, T::operator/ (matslise/util/y.h, several channels)");
        Sym E = Sym::var("E");
        auto y = start<cols>(n, k, E);
        T<Sym, Dynamic> t(n);
        for (int r = 0; r < 2 * n; ++r)
            for (int c = 0; c < 2 * n; ++c) {
                t.t(r, c) = uf("m" + std::to_string(r) + std::to_string(c), {E});
                t.dt(r, c) = uf("dm" + std::to_string(r) + std::to_string(c), {E});
            }
        Y<Sym, Dynamic, cols> p = t * y, q = t / y, b = t * q;
        for (int c = 0; c < k; ++c)
            for (int r = 0; r < 4 * n; ++r) {
                if (r < 2 * n) {
                    Sym v = 0;
                    for (int j = 0; j < 2 * n; ++j) v += t.t(r, j) * y.data(j, c);
                    prove("matrix times solution", eq(p.data(r, c), v));
                    prove("matrix times solution: product rule", eq(p.data(2 * n + r, c), derivative(v, E, rule)));
                }
                prove("the division undoes the multiplication, with derivative", eq(b.data(r, c), y.data(r, c)));
            }
        canary("constant solution", eq(y.data(2 * n, 0), 0));
    }, channels(n));
}
VC_CASE(product_1_1) { product<1>(1, 1); }
VC_CASE(product_1_d) { product<Dynamic>(1, 1); }
VC_CASE(product_2_1) { product<1>(2, 1); }
VC_CASE(product_2_d) { product<Dynamic>(2, 2); }

template<int cols> static void sector(int n, int k, Direction d) {
    explore("sector", [n, k, d] {
        underContract("Matscs::Sector::propagateColumn, propagateDeltaColumn");
        Sym lo = Sym::var("min"), hi = Sym::var("max"), a = Sym::var("a"), b = Sym::var("b"), E = Sym::var("E");
        assume(lt(lo, hi));
        auto ms = oneMatscsSector(n, lo, hi, d);
        const Sector &s = *ms->sectors[0];
        bool use_h = choose("use_h");
        auto y = start<cols>(n, k, E);
        Y<Sym, Dynamic, cols> r = s.template propagateColumn<cols>(E, y, a, b, use_h);
        auto Ta = flow::atX(s, E, a, use_h), Tb = flow::atX(s, E, b, use_h);
        Y<Sym, Dynamic, cols> z = y;
        if (d == backward) z.reverse();
        z = Ta / z;
        z = Tb * z;
        if (d == backward) z.reverse();
        for (int c = 0; c < k; ++c)
            for (int q = 0; q < 4 * n; ++q)
                prove("propagation of a coupled solution over one interval, with its energy derivative", eq(r.data(q, c), z.data(q, c)));
        canary("constant solution", eq(y.data(2 * n, 0), 0));
    }, channels(n));
}
VC_CASE(forward_1_1) { sector<1>(1, 1, Direction::forward); }
VC_CASE(backward_1_1) { sector<1>(1, 1, Direction::backward); }
VC_CASE(forward_2_d) { sector<Dynamic>(2, 2, Direction::forward); }
VC_CASE(backward_2_d) { sector<Dynamic>(2, 2, Direction::backward); }
