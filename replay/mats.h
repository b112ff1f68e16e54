// Native problems on arbitrary meshes
#pragma once
#include "common.h"
#include "matslise/matslise_formulas.cpp"
#include "matslise/sector.cpp"
#include "matslise/abstract_matslise.cpp"
#include "matslise/matslise.cpp"
#include "util/sectorbuilder.cpp"
namespace nat {
    using namespace matslise;
    struct Mesh : sector_builder::SectorBuilder<Matslise<double>> {
        std::vector<double> x;
        int match;
        Mesh(std::vector<double> x, int match) : x(std::move(x)), match(match) {}
        sector_builder::SectorBuilderReturn<Matslise<double>> operator()(const Matslise<double> *ms, const double &, const double &) const override {
            sector_builder::SectorBuilderReturn<Matslise<double>> r;
            for (size_t i = 0; i + 1 < x.size(); ++i)
                r.sectors.push_back(std::make_unique<Matslise<double>::Sector>(ms, x[i], x[i + 1], (int) i <= match ? Direction::forward : Direction::backward));
            r.matchIndex = match;
            double v = r.sectors[match]->vs[0];
            for (auto &s: r.sectors) s->v0Match = v;
            return r;
        }
    };
    struct Potential {
        std::vector<double> c;
        double operator()(double x) const {
            double r = 0;
            for (int i = (int) c.size() - 1; i >= 0; --i) r = r * x + c[i];
            return r;
        }
        std::string text() const {
            Msg m;
            m << "V(x)=";
            for (size_t i = 0; i < c.size(); ++i) m << (i ? " + " : "") << c[i] << (i ? "*x^" + std::to_string(i) : "");
            return m;
        }
    };
    inline Potential randomPotential(double scale = 3, int maxDeg = 4) {
        Potential p;
        int d = irand(0, maxDeg);
        for (int i = 0; i <= d; ++i) p.c.push_back(coin(.2) ? 0 : uni(-scale, scale));
        return p;
    }
    struct Problem {
        Potential V;
        std::vector<double> x;
        int match;
        std::unique_ptr<Matslise<double>> ms;
        std::string text() const {
            Msg m;
            m << V.text() << " mesh [";
            for (double v: x) m << v << " ";
            m << "] match " << match;
            return m;
        }
    };
    inline Problem randomProblem(int maxSectors = 6, double hmax = .5, double scale = 3, bool symmetric = false) {
        Problem p;
        p.V = randomPotential(scale);
        if (symmetric) for (size_t i = 1; i < p.V.c.size(); i += 2) p.V.c[i] = 0;
        int n = irand(1, maxSectors);
        p.x.push_back(symmetric ? 0 : uni(-1.5, .5));
        for (int i = 0; i < n; ++i) p.x.push_back(p.x.back() + uni(.1, hmax));
        p.match = irand(0, n - 1);
        p.ms = std::make_unique<Matslise<double>>(p.V, p.x.front(), p.x.back(), 1e-9, Mesh(p.x, p.match));
        return p;
    }
    inline Y<double> randomStart() {
        int k = irand(0, 4);
        double u = k == 0 ? 0 : uni(-2, 2), v = k == 1 ? 0 : uni(-2, 2);
        if (u == 0 && v == 0) v = 1;
        Y<double> y({u, v}, {0, 0});
        return y;
    }
}
