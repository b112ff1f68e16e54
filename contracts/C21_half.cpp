// The half-range solver reports the error of the even or odd half problem
#include "env_queries.h"
#include "sources_matslise.h"
using namespace vc;
using namespace matslise;
using queries::side;
static Y<Sym> middle(bool even) {
    Y<Sym> y;
    y.data[0] = Sym(even ? 1 : 0), y.data[1] = Sym(even ? 0 : 1), y.data[2] = 0, y.data[3] = 0;
    return y;
}
VC_CASE(half_range) {
    explore("half range", [] {
        underContract("MatsliseHalf::eigenvalueError");
        underContract("isEven");
        underContract("AbstractMatslise::eigenvalueError");
        queries::counts().clear();
        MatsliseHalf<Sym> h([](const Sym &x) { return uf("V", {x}); }, Sym::var("b"), Sym::var("tol"));
        const AbstractMatslise<Sym> &a = h;
        auto s = side("side");
        Sym E = Sym::var("E");
        int index = -1;
        while (index < 7 && choose("index")) ++index;
        bool even = index % 2 == 0;
        if (index == -1) {
            Sym e = std::get<0>(h.ms->matchingError(E, middle(true), s)), o = std::get<0>(h.ms->matchingError(E, middle(false), s));
            even = abs(e) < abs(o);
        }
        Sym expected = queries::error(E, middle(even), s);
        prove("the error of the half problem of that parity", eq(h.eigenvalueError(E, s, index), expected));
        prove("the same through the abstract solver", eq(a.eigenvalueError(E, s, index), expected));
        prove("the same with both conditions given", eq(a.eigenvalueError(E, s, s, index), expected));
        if (index == -1) prove("the same without an index", eq(h.eigenvalueError(E, s), expected) && eq(a.eigenvalueError(E, s, s), expected));
        canary("the error of the other half problem", eq(queries::error(E, middle(!even), s), h.eigenvalueError(E, s, index)));
    });
}
