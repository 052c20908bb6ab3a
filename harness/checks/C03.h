// Reference evaluator for generated trees of then() continuations (C03).
#pragma once

#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorotask.h>

#include <array>
#include <deque>

namespace c03 {

using pbt::Tracked;

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};
struct ErrorOdd {
    explicit ErrorOdd(int id) : t(id) {}
    Tracked t;
};

enum Kind { Pending, Value, Std, Odd };
struct Result {
    Kind kind = Pending;
    int id = 0; // of the value or of the exception
};

constexpr int Gates = 3; // gate number Gates: do not wait
constexpr int Slots = 4;
constexpr int MaxNodes = 24;
constexpr int DefaultTracked = -1;

struct Node {
    int type = 0;   // of the result: int, void, Tracked
    int pred = -1;  // -1: a coroutine
    bool coro = false;
    int takes = 0;
    Kind outcome = Value; // of the coroutine or callback
    int gate = Gates;
    int err = 0; // 0 no error callback, 1 handles, 2 throws std, 3 throws odd
    // observed
    int cbRuns = 0;
    int errRuns = 0;
    int cbFinished = 0;
    int observers = 0;
    int observed = 0;
};

inline int valueId(int n) { return 1000 + n; }
inline int errorId(int n) { return 2000 + n; }
inline int errCbErrorId(int n) { return 3000 + n; }
inline int cbStateId(int n) { return 4000 + n; }

struct World {
    std::deque<Node> nodes;
    std::array<pbt::Gate, Gates + 1> gates;
    std::array<QCoro::Task<int>, Slots> ints;
    std::array<QCoro::Task<void>, Slots> voids;
    std::array<QCoro::Task<Tracked>, Slots> objs;
    int ghost[3][Slots];
    int links = 0, chained = 0, errorsHandled = 0, coroCallbacks = 0;

    World() {
        for (auto &r : ghost) {
            for (auto &g : r) {
                g = -1;
            }
        }
        gates[Gates].open();
    }
    template<typename T>
    QCoro::Task<T> &slot(int i) {
        if constexpr (std::is_same_v<T, int>) {
            return ints[i];
        } else if constexpr (std::is_void_v<T>) {
            return voids[i];
        } else {
            return objs[i];
        }
    }

    int defaultId(int type) const { return type == 2 ? DefaultTracked : 0; }

    //! What the task of node n has produced in the present state of the gates
    Result eval(int n) const {
        const auto &nd = nodes[n];
        if (nd.pred >= 0) {
            const auto p = eval(nd.pred);
            if (p.kind == Pending) {
                return {};
            }
            if (p.kind == Odd) {
                return p;
            }
            if (p.kind == Std) {
                switch (nd.err) {
                case 1: return {Value, defaultId(nd.type)};
                case 2: return {Std, errCbErrorId(n)};
                case 3: return {Odd, errCbErrorId(n)};
                default: return p;
                }
            }
        }
        if ((nd.pred < 0 || nd.coro) && !gates[nd.gate].isOpen()) {
            return {};
        }
        return {nd.outcome, nd.outcome == Value ? (nd.type == 1 ? 0 : valueId(n)) : errorId(n)};
    }
    int expectedCbRuns(int n) const { return nodes[n].pred >= 0 && eval(nodes[n].pred).kind == Value; }
    int expectedErrRuns(int n) const { return nodes[n].pred >= 0 && nodes[n].err && eval(nodes[n].pred).kind == Std; }

    void invariants() {
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            const int n = static_cast<int>(i);
            const auto &nd = nodes[i];
            PBT_CHECK(nd.cbRuns == expectedCbRuns(n), "callback of #", n, " ran ", nd.cbRuns, " times, expected ", expectedCbRuns(n));
            PBT_CHECK(nd.errRuns == expectedErrRuns(n), "error callback of #", n, " ran ", nd.errRuns, " times, expected ",
                      expectedErrRuns(n));
            const bool done = eval(n).kind != Pending;
            PBT_CHECK(nd.observed == (done ? nd.observers : 0), nd.observed, " of ", nd.observers, " awaiters of #", n,
                      " were resumed, but it has ", done ? "" : "not ", "finished");
        }
        for (int s = 0; s < Slots; ++s) {
            ready<int>(0, s);
            ready<void>(1, s);
            ready<Tracked>(2, s);
        }
    }
    template<typename T>
    void ready(int type, int s) {
        const int n = ghost[type][s];
        const bool expected = n < 0 || eval(n).kind != Pending;
        PBT_CHECK(slot<T>(s).isReady() == expected, "isReady() of #", n, " is ", !expected);
    }
};

template<typename T>
constexpr int typeOf = std::is_same_v<T, int> ? 0 : std::is_void_v<T> ? 1 : 2;

[[noreturn]] inline void raise(Kind k, int id) {
    if (k == Std) {
        throw ErrorStd(id);
    }
    throw ErrorOdd(id);
}

template<typename T>
T produce(World &w, int n) {
    const auto o = w.nodes[n].outcome;
    if (o != Value) {
        raise(o, errorId(n));
    }
    if constexpr (std::is_same_v<T, int>) {
        return valueId(n);
    } else if constexpr (!std::is_void_v<T>) {
        return Tracked(valueId(n));
    }
}

template<typename T>
QCoro::Task<T> base(World &w, int n) {
    co_await w.gates[w.nodes[n].gate];
    co_return produce<T>(w, n);
}

struct CbState {
    World *w;
    int n;
    Tracked t;

    void called(int gotId, bool movedFrom, int argType) const {
        auto &nd = w->nodes[n];
        ++nd.cbRuns;
        PBT_LOG("callback of #", n, " runs");
        PBT_CHECK(t.id() == cbStateId(n), "callback of #", n, " lost its state");
        const auto p = w->eval(nd.pred);
        PBT_CHECK(p.kind == Value, "callback of #", n, " called although its predecessor ",
                  p.kind == Pending ? "has not finished" : "failed");
        if (argType >= 0) {
            PBT_CHECK(p.kind != Value || gotId == p.id, "callback of #", n, " received value ", gotId, " instead of ", p.id);
            (void)movedFrom;
        }
    }
    void finished() const {
        ++w->nodes[n].cbFinished;
        PBT_CHECK(t.id() == cbStateId(n), "callback of #", n, " lost its state");
    }
};

inline int idOf(int v) { return v; }
inline int idOf(const Tracked &t) { return t.id(); }

// Takes: 0 no argument, 1 by value, 2 by const reference
template<typename A, typename B, int Takes>
struct PlainCb;
template<typename A, typename B>
struct PlainCb<A, B, 0> : CbState {
    B operator()() {
        called(0, false, -1);
        finished();
        return produce<B>(*w, n);
    }
};
template<typename A, typename B>
struct PlainCb<A, B, 1> : CbState {
    B operator()(A a) {
        called(idOf(a), false, typeOf<A>);
        finished();
        return produce<B>(*w, n);
    }
};
template<typename A, typename B>
struct PlainCb<A, B, 2> : CbState {
    B operator()(const A &a) {
        called(idOf(a), false, typeOf<A>);
        finished();
        return produce<B>(*w, n);
    }
};
template<typename A, typename B, int Takes>
struct CoroCb;
template<typename A, typename B>
struct CoroCb<A, B, 0> : CbState {
    QCoro::Task<B> operator()() {
        called(0, false, -1);
        co_await w->gates[w->nodes[n].gate];
        finished();
        co_return produce<B>(*w, n);
    }
};
template<typename A, typename B>
struct CoroCb<A, B, 1> : CbState {
    QCoro::Task<B> operator()(A a) {
        called(idOf(a), false, typeOf<A>);
        const int before = idOf(a);
        co_await w->gates[w->nodes[n].gate];
        PBT_CHECK(idOf(a) == before, "the argument of a suspended continuation changed");
        finished();
        co_return produce<B>(*w, n);
    }
};
template<typename A, typename B>
struct CoroCb<A, B, 2> : CbState {
    QCoro::Task<B> operator()(const A &a) {
        called(idOf(a), false, typeOf<A>);
        const int before = idOf(a);
        co_await w->gates[w->nodes[n].gate];
        PBT_CHECK(idOf(a) == before, "the argument of a suspended continuation changed");
        finished();
        co_return produce<B>(*w, n);
    }
};

struct ErrCb {
    World *w;
    int n;
    Tracked t;
    void operator()(const std::exception &e) {
        auto &nd = w->nodes[n];
        ++nd.errRuns;
        PBT_LOG("error callback of #", n, " runs");
        PBT_CHECK(t.id() == cbStateId(n), "error callback of #", n, " lost its state");
        const auto p = w->eval(nd.pred);
        const auto *ours = dynamic_cast<const ErrorStd *>(&e);
        PBT_CHECK(p.kind == Std && ours && ours->t.id() == p.id, "error callback of #", n,
                  " called with something else than the exception of its predecessor");
        ++w->errorsHandled;
        if (nd.err > 1) {
            raise(nd.err == 2 ? Std : Odd, errCbErrorId(n));
        }
    }
};

struct LinkArgs {
    int src, dst, n;
    bool rvalue;
};

//! Attaches the continuation of node n to the task of type A in slot src, puts the result into slot dst.
template<typename A, typename B, typename Cb>
void attachCb(World &w, const LinkArgs &l) {
    Cb cb{{&w, l.n, Tracked(cbStateId(l.n))}};
    QCoro::Task<B> result;
    if (w.nodes[l.n].err) {
        if (l.rvalue) {
            w.ghost[typeOf<A>][l.src] = -1;
            result = std::move(w.slot<A>(l.src)).then(std::move(cb), ErrCb{&w, l.n, Tracked(cbStateId(l.n))});
        } else {
            ErrCb err{&w, l.n, Tracked(cbStateId(l.n))};
            result = w.slot<A>(l.src).then(cb, err);
        }
    } else {
        if (l.rvalue) {
            w.ghost[typeOf<A>][l.src] = -1;
            result = std::move(w.slot<A>(l.src)).then(std::move(cb));
        } else {
            result = w.slot<A>(l.src).then(cb);
        }
    }
    w.slot<B>(l.dst) = std::move(result);
    w.ghost[typeOf<B>][l.dst] = l.n;
}

template<typename A, typename B>
void attachB(World &w, const LinkArgs &l) {
    const auto &nd = w.nodes[l.n];
    if constexpr (std::is_void_v<A>) {
        nd.coro ? attachCb<A, B, CoroCb<A, B, 0>>(w, l) : attachCb<A, B, PlainCb<A, B, 0>>(w, l);
    } else {
        switch (nd.takes) {
        case 0: nd.coro ? attachCb<A, B, CoroCb<A, B, 0>>(w, l) : attachCb<A, B, PlainCb<A, B, 0>>(w, l); break;
        case 1: nd.coro ? attachCb<A, B, CoroCb<A, B, 1>>(w, l) : attachCb<A, B, PlainCb<A, B, 1>>(w, l); break;
        default: nd.coro ? attachCb<A, B, CoroCb<A, B, 2>>(w, l) : attachCb<A, B, PlainCb<A, B, 2>>(w, l); break;
        }
    }
}

// instantiated in separate files to build in parallel
#define C03_DECLARE(A, B, NAME) void NAME(World &w, const LinkArgs &l)
C03_DECLARE(int, int, attach_ii);
C03_DECLARE(int, void, attach_iv);
C03_DECLARE(int, Tracked, attach_it);
C03_DECLARE(void, int, attach_vi);
C03_DECLARE(void, void, attach_vv);
C03_DECLARE(void, Tracked, attach_vt);
C03_DECLARE(Tracked, int, attach_ti);
C03_DECLARE(Tracked, void, attach_tv);
C03_DECLARE(Tracked, Tracked, attach_tt);

} // namespace c03
