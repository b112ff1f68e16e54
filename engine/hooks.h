// MATSLISE_LOOP of /repo's util/verification.h: hands the variables of a loop to the contract of that loop
#pragma once
#include "vc.h"
#include <map>
#include <stdexcept>
#include <typeinfo>
#include <vector>
namespace vc {
    struct LoopVariable {
        void *at;
        const std::type_info *type;
        template<typename T> T &as() const {
            if (*type != typeid(T)) throw std::runtime_error(std::string("a loop variable has type ") + type->name() + " instead of " + typeid(T).name());
            return *(T *) at;
        }
    };
    typedef std::vector<LoopVariable> LoopState;
    typedef std::function<void(const LoopState &)> LoopHandler;
    inline std::map<std::string, LoopHandler> &loops() { static std::map<std::string, LoopHandler> m; return m; }
    template<typename... A> void atLoop(const char *name, A &... a) {
        auto it = loops().find(name);
        if (it != loops().end() && it->second) it->second({LoopVariable{(void *) &a, &typeid(A)}...});
    }
}
#define MATSLISE_LOOP(name, ...) vc::atLoop(#name, __VA_ARGS__)
