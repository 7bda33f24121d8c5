// A real PowerPlant and reactor; the program is described by the lambda which binds the reactions.
#pragma once
#include "PowerPlant.hpp"
#include "Reactor.hpp"
#include "dsl/word/emit/Initialise.hpp"
#include "dsl/word/emit/Inline.hpp"
#include "dsl/word/emit/Local.hpp"
#include "message/ReactionStatistics.hpp"
#include "vf.hpp"
using namespace NUClear;
using namespace NUClear::dsl::word;
inline Configuration one_thread() { Configuration c; c.default_pool_concurrency = 1; return c; }
struct Body : Reactor {
    template <typename F> Body(std::unique_ptr<Environment> e, F f) : Reactor(std::move(e)) { f(*this); }
    using Reactor::emit;
    using Reactor::on;
};
// bind the program, run it until it shuts down
template <typename F> void program(F f) {
    PowerPlant p(one_thread());
    p.install<Body>(f);
    p.start();
}
// the observations of a run
struct Log {
    uint32_t v[32]; unsigned n = 0;
    void operator()(uint32_t x) { if (n < 32) v[n] = x; ++n; }
};
template <typename T, typename... A> std::unique_ptr<T> mk(A... a) { return std::unique_ptr<T>(new T{a...}); }
