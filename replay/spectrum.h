// Eigenvalues of random problems, found independently by bisection of the matching angle
#pragma once
#include "mats.h"
namespace nat {
    inline double turns(const Problem &p, double E, const Y<double> &l, const Y<double> &r) { return std::get<2>(p.ms->matchingError(E, l, r)) / constants<double>::PI; }
    // the energy at which the angle reaches i half turns
    inline double bisect(const Problem &p, int i, const Y<double> &l, const Y<double> &r) {
        double a = -1, b = 1;
        while (turns(p, a, l, r) > i) a *= 2;
        while (turns(p, b, l, r) < i) b *= 2;
        for (int k = 0; k < 200 && a < b; ++k) {
            double c = a + (b - a) / 2;
            if (c == a || c == b) break;
            (turns(p, c, l, r) < i ? a : b) = c;
        }
        return b;
    }
    inline Y<double> condition() {
        int k = irand(0, 3);
        return Y<double>({k == 0 ? 0. : 1., k == 1 ? 0. : k == 0 ? 1. : uni(-3, 3)}, {0, 0});
    }
    struct Spectrum {
        Problem p;
        Y<double> l, r;
        std::vector<double> E; // from bisection
        std::string text;
    };
    inline Problem doubleWell() {
        Problem p;
        double w = uni(1, 3.4);
        p.V.c = {w * w * w * w + uni(-3, 3), 0, -2 * w * w, 0, 1};
        double L = w + uni(1.2, 1.8);
        int n = 2 * irand(8, 12);
        for (int i = 0; i <= n; ++i) p.x.push_back(-L + 2 * L * i / n);
        p.match = irand(n / 4, n - n / 4);
        p.ms = std::make_unique<Matslise<double>>(p.V, p.x.front(), p.x.back(), 1e-9, Mesh(p.x, p.match));
        return p;
    }
    inline Spectrum randomSpectrum() {
        Spectrum s;
        s.p = coin(.2) ? doubleWell() : randomProblem(6, .4, 3);
        s.l = condition(), s.r = condition();
        int n = irand(3, 11);
        for (int i = 0; i < n; ++i) s.E.push_back(bisect(s.p, i, s.l, s.r));
        s.text = Msg() << s.p.text() << " left " << s.l.data[0] << "," << s.l.data[1] << " right " << s.r.data[0] << "," << s.r.data[1];
        return s;
    }
    inline double tolerance(double E) { return 1e-7 * (1 + std::abs(E)); }
}
