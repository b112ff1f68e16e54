// Energy derivatives of propagation matrices applied to solutions, and of propagation over one interval
#include "env_flow.h"
#include "sources_matslise.h"
using namespace vc;
typedef Matslise<Sym>::Sector Sector;

// a solution that depends on E, carrying its derivative
template<int cols> static Y<Sym, 1, cols> start(const Sym &E) {
    Y<Sym, 1, cols> y;
    for (int c = 0; c < cols; ++c)
        for (int r = 0; r < 2; ++r) {
            std::string n = "y" + std::to_string(r) + "_" + std::to_string(c);
            y.data(r, c) = uf(n, {E});
            y.data(2 + r, c) = uf("d" + n, {E});
        }
    return y;
}
static Sym rule(const std::string &fn, const std::vector<Sym> &a, const Sym &v) {
    if (fn[0] == 'y' || fn[0] == 't') return uf("d" + fn, a);
    return flow::rule(fn, a, v);
}
template<int cols> static void carries(const std::string &what, const Y<Sym, 1, cols> &y, const Sym &E) {
    for (int c = 0; c < cols; ++c)
        for (int r = 0; r < 2; ++r) prove(what, eq(y.data(2 + r, c), derivative(y.data(r, c), E, rule)));
}

template<int cols> static void matrixTimes() {
    explore("product", [] {
        underContract("T::operator*, T::operator/ (matslise/util/y.h, one channel)");
        Sym E = Sym::var("E");
        auto y = start<cols>(E);
        T<Sym> t(1);
        Sym m00 = uf("t00", {E}), m01 = uf("t01", {E}), m10 = uf("t10", {E});
        Sym d00 = uf("dt00", {E}), d01 = uf("dt01", {E}), d10 = uf("dt10", {E});
        t.t << m00, m01, m10, (1 + m01 * m10) / m00;
        assume(ne(m00, 0));
        t.dt << d00, d01, d10, derivative(t.t(1, 1), E, rule);
        Y<Sym, 1, cols> p = t * y, q = t / y;
        carries<cols>("matrix times solution: product rule", p, E);
        carries<cols>("matrix inverse times solution: product rule", q, E);
        for (int c = 0; c < cols; ++c)
            for (int r = 0; r < 2; ++r) {
                prove("matrix times solution", eq(p.data(r, c), t.t(r, 0) * y.data(0, c) + t.t(r, 1) * y.data(1, c)));
                Y<Sym, 1, cols> b = t * q;
                prove("the division undoes the multiplication, with derivative", eq(b.data(r, c), y.data(r, c)) && eq(b.data(2 + r, c), y.data(2 + r, c)));
            }
        // scaling, sign, reversal, combination of columns
        Sym f = Sym::var("f");
        carries<cols>("scaled solution", y * f, E);
        auto z = y;
        z *= f;
        carries<cols>("solution scaled in place", z, E);
        carries<cols>("negated solution", -y, E);
        z = y;
        z.reverse();
        carries<cols>("reversed solution", z, E);
        prove("reversal changes the sign of the derivative only", eq(z.data(0, 0), y.data(0, 0)) && eq(z.data(1, 0), -y.data(1, 0)));
        Eigen::Matrix<Sym, cols, cols> M;
        for (int i = 0; i < cols; ++i) for (int j = 0; j < cols; ++j) M(i, j) = Sym::var("M" + std::to_string(i) + std::to_string(j));
        z = y;
        z *= M;
        carries<cols>("combined columns", z, E);
        canary("constant solution", eq(y.data(2), 0));
    });
}
VC_CASE(matrix1) { matrixTimes<1>(); }
VC_CASE(matrix2) { matrixTimes<2>(); }

template<int cols> static void sector(Direction d) {
    explore("sector", [d] {
        underContract("Matslise::Sector::propagate");
        underContract("propagateDelta (matslise/matslise/sector.cpp)");
        Sym lo = Sym::var("min"), hi = Sym::var("max"), a = Sym::var("a"), b = Sym::var("b"), E = Sym::var("E");
        assume(lt(lo, hi));
        auto ms = oneSector(lo, hi, d);
        auto y = start<cols>(E);
        Y<Sym, 1, cols> r = ms->sectors[0]->template propagate<false, cols>(E, y, a, b, choose("use_h"));
        carries<cols>("propagation over one interval carries the energy derivative", r, E);
        canary("constant solution", eq(y.data(2), 0));
    });
}
VC_CASE(forward1) { sector<1>(Direction::forward); }
VC_CASE(backward1) { sector<1>(Direction::backward); }
VC_CASE(forward2) { sector<2>(Direction::forward); }
VC_CASE(backward2) { sector<2>(Direction::backward); }
