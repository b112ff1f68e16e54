// Native search for a failing input on the real code (double precision), seeded and time limited.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <vector>

namespace nat {
    inline std::mt19937_64 rng(1);
    inline double budget = 10;
    inline std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    inline long evaluations = 0;
    inline std::string hintFile;
    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); }
    inline bool timeLeft(double fraction = 1) { return elapsed() < budget * fraction; }
    inline double uni(double a, double b) { return a + (b - a) * (double) (rng() >> 11) / 9007199254740992.0; }
    inline int irand(int a, int b) { return a + (int) (rng() % (uint64_t) (b - a + 1)); }
    inline bool coin(double p = .5) { return uni(0, 1) < p; }
    template<typename T> inline const T &pick(const std::vector<T> &v) { return v[rng() % v.size()]; }

    struct Fail {
        std::string text;
    };
    struct Msg {
        std::ostringstream os;
        Msg() { os.precision(17); }
        template<typename T> Msg &operator<<(const T &t) {
            os << t;
            return *this;
        }
        operator std::string() const { return os.str(); }
    };
    inline void expect(bool ok, const std::string &text) {
        ++evaluations;
        if (!ok) throw Fail{text};
    }
    inline bool close(double a, double b, double rel, double absTol = 0) {
        if (!(std::isfinite(a) && std::isfinite(b))) return a == b;
        return std::abs(a - b) <= absTol + rel * std::max(std::abs(a), std::abs(b));
    }
    inline void expectClose(double a, double b, double rel, double absTol, const std::string &text) {
        ++evaluations;
        if (!close(a, b, rel, absTol)) throw Fail{Msg() << text << ": got " << a << ", expected " << b};
    }
    int search(); // runs checks until the time is used up or a Fail is thrown

    inline int mainImpl(int argc, char **argv) {
        unsigned long seed = 1;
        for (int i = 1; i + 1 < argc; ++i) {
            if (!strcmp(argv[i], "--seed")) seed = strtoul(argv[i + 1], nullptr, 10);
            if (!strcmp(argv[i], "--seconds")) budget = atof(argv[i + 1]);
            if (!strcmp(argv[i], "--hint")) hintFile = argv[i + 1];
        }
        rng.seed(seed);
        try {
            search();
        } catch (Fail &f) {
            printf("EVALUATIONS %ld\nFAILING-INPUT %s\n", evaluations, f.text.c_str());
            return 1;
        } catch (std::exception &e) {
            printf("EVALUATIONS %ld\nFAILING-INPUT unexpected exception from the real code: %s\n", evaluations, e.what());
            return 1;
        }
        printf("EVALUATIONS %ld\nno failing input found in %.1f s\n", evaluations, elapsed());
        return 0;
    }
}
#define NATIVE_SEARCH int nat::search()
int main(int argc, char **argv) { return nat::mainImpl(argc, argv); }
