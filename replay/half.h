#pragma once
#include "mats.h"
#include "matslise/halfrange.cpp"
namespace nat {
    struct HalfProblem {
        Potential V;
        double xmax;
        Y<double> side;
        std::unique_ptr<MatsliseHalf<double>> half;
        std::unique_ptr<Matslise<double>> full;
        std::string text() const { return Msg() << V.text() << " on [-" << xmax << ", " << xmax << "], condition " << side.data.transpose(); }
    };
    inline HalfProblem randomHalf() {
        HalfProblem p;
        p.V = randomPotential(6, 4);
        for (size_t i = 1; i < p.V.c.size(); i += 2) p.V.c[i] = 0;
        p.xmax = uni(.6, 2.5);
        int k = irand(0, 2);
        p.side = Y<double>({k == 0 ? 0. : 1., k == 1 ? 0. : k == 0 ? 1. : uni(-.5, 2)}, {0, 0});
        p.half = std::make_unique<MatsliseHalf<double>>(p.V, p.xmax, 1e-9);
        Y<double> l = p.side;
        l.reverse();
        (void) l;
        p.full = std::make_unique<Matslise<double>>(p.V, -p.xmax, p.xmax, 1e-9);
        return p;
    }
}
