// Generated programs of QCoro::Task coroutines, with the bookkeeping ("ghost state") that says what must be true.
//
// A case defines up to five scripts (lists of steps) and a sequence of operations of the main program. Coroutines run
// scripts; steps await gates, sleeps, tasks in shared slots, temporaries or locals, and manipulate the shared slots
// while other coroutines are suspended on their contents. The ghost state is updated in the order in which things
// really happen, so no assumption is made about the order in which several awaiters of a task are resumed.
#pragma once

#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorotask.h>
#include <qcorotimer.h>

#include <array>
#include <deque>
#include <tuple>

namespace tw {

using pbt::Tracked;

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};
struct ErrorOdd {
    explicit ErrorOdd(int id) : t(id) {}
    Tracked t;
};

constexpr int Gates = 4;
constexpr int Slots = 4;
constexpr int Types = 3; // int, void, Tracked
constexpr int Scripts = 5;
constexpr int MaxNodes = 48;

enum Outcome { None, Value, Std, Odd };

enum StepKind {
    StGate,        // wait for gate
    StSleep,       // wait on the event loop
    StAwaitSlot,   // co_await slot;
    StAwaitMoved,  // auto t = move(slot); co_await t;
    StAwaitTemp,   // co_await body();
    StAwaitLocal,  // auto t = body(); co_await gate; co_await move(t);
    StDropSlot,    // slot = {}
    StMoveSlot,    // slot = move(other slot)
    StOpenGate,    // opens a gate: resumes others from within this coroutine
    StSpawn,       // slot = body()
    StAwaitEmpty,  // co_await Task{} (never resumed)
    StDetached,    // body();
    StKinds
};

//! How often each kind of step is chosen
inline StepKind stepKind(int b) {
    static const StepKind table[] = {StAwaitSlot, StGate,      StAwaitSlot,  StAwaitTemp,  StSleep,    StAwaitSlot,
                                     StGate,      StAwaitLocal, StAwaitMoved, StOpenGate,   StDropSlot, StMoveSlot,
                                     StSpawn,     StDetached,  StAwaitEmpty, StAwaitSlot};
    return table[b % 16];
}
constexpr int StepChoices = 16;

struct Step {
    int kind;
    int arg;
};

struct Node {
    int type = 0;
    int script = 0;
    bool started = false;
    bool finished = false;
    bool leftBody = false;
    Outcome outcome = None;
    int outcomeId = -1;
    int refs = 0;
    int deliveries = 0;
    // what the node is suspended on
    enum Wait { Running, OnGate, OnSleep, OnNode, Forever } wait = Running;
    int target = -1;
    bool mustNotSuspend = false;
    bool dropped = false; // a Task referring to it went away or moved while it was unfinished
};

inline int argId(int n) { return 1000 + n; }
inline int localId(int n) { return 2000 + n; }
inline int valueId(int n) { return 3000 + n; }
inline int errorId(int n) { return 4000 + n; }

struct World;
template<typename T>
QCoro::Task<T> body(World &w, int n, Tracked arg);

struct World {
    std::array<std::vector<Step>, Scripts> scripts;
    std::array<int, Scripts> finish{};
    std::array<bool, Scripts> catches{};
    std::deque<Node> nodes;
    std::array<pbt::Gate, Gates> gates;
    std::tuple<std::array<QCoro::Task<int>, Slots>, std::array<QCoro::Task<void>, Slots>,
               std::array<QCoro::Task<Tracked>, Slots>>
        slots;
    int ghost[Types][Slots]; // node the slot refers to, -1 if none
    bool checkDelivery = false;
    bool checkLifetime = false;
    int suspendedDeliveries = 0, multiDeliveries = 0, errorDeliveries = 0, syncDeliveries = 0, droppedFinished = 0;

    World() {
        for (auto &row : ghost) {
            for (auto &g : row) {
                g = -1;
            }
        }
    }

    template<typename T>
    auto &slot(int i) {
        if constexpr (std::is_same_v<T, int>) {
            return std::get<0>(slots)[i];
        } else if constexpr (std::is_void_v<T>) {
            return std::get<1>(slots)[i];
        } else {
            return std::get<2>(slots)[i];
        }
    }

    //! Mostly choose a slot that refers to a coroutine
    void occupied(int &type, int &s, int salt) const {
        if (salt == Scripts - 1) {
            return;
        }
        for (int i = 0; i < Types * Slots; ++i) {
            const int k = (type * Slots + s + i) % (Types * Slots);
            if (ghost[k / Slots][k % Slots] >= 0) {
                type = k / Slots;
                s = k % Slots;
                return;
            }
        }
    }

    void badDelivery(const std::string &m) {
        if (checkDelivery) {
            pbt::current->fail(m);
        } else {
            PBT_LOG("(delivery) ", m);
        }
    }
    void badLifetime(const std::string &m) {
        if (checkLifetime) {
            pbt::current->fail(m);
        } else {
            PBT_LOG("(lifetime) ", m);
        }
    }

    int newNode(int type, int script) {
        if (nodes.size() >= MaxNodes) {
            return -1;
        }
        Node n;
        n.type = type;
        n.script = script;
        n.refs = 1;
        nodes.push_back(n);
        return static_cast<int>(nodes.size()) - 1;
    }

    template<typename T>
    QCoro::Task<T> start(int n) {
        PBT_LOG("call coroutine #", n, " (script ", nodes[n].script, ")");
        auto t = body<T>(*this, n, Tracked(argId(n)));
        if (!nodes[n].started) {
            badDelivery(pbt::str("coroutine #", n, " did not start eagerly"));
        }
        return t;
    }

    //! As start(), in the operand of the co_await of node n
    template<typename T>
    QCoro::Task<T> startAwaited(int n, int target) {
        auto t = start<T>(target);
        nodes[n].mustNotSuspend = nodes[target].finished;
        return t;
    }

    void unref(int n) {
        if (n < 0) {
            return;
        }
        --nodes[n].refs;
        if (!nodes[n].finished) {
            nodes[n].dropped = true;
        }
    }

    template<typename T>
    void spawn(int type, int s, int script) {
        const int n = newNode(type, script);
        if (n < 0) {
            return;
        }
        auto t = start<T>(n);
        slot<T>(s) = std::move(t); // drops the previous content
        unref(ghost[type][s]);
        ghost[type][s] = n;
    }
    void spawnAny(int type, int s, int script) {
        type == 0 ? spawn<int>(type, s, script) : type == 1 ? spawn<void>(type, s, script) : spawn<Tracked>(type, s, script);
    }
    template<typename T>
    void detached(int type, int script) {
        const int n = newNode(type, script);
        if (n < 0) {
            return;
        }
        start<T>(n);
        unref(n);
    }
    void detachedAny(int type, int script) {
        type == 0 ? detached<int>(type, script) : type == 1 ? detached<void>(type, script) : detached<Tracked>(type, script);
    }
    template<typename T>
    void drop(int type, int s) {
        PBT_LOG("drop slot ", type, "/", s, " (#", ghost[type][s], ")");
        unref(ghost[type][s]);
        ghost[type][s] = -1;
        slot<T>(s) = QCoro::Task<T>{};
    }
    void dropAny(int type, int s) {
        type == 0 ? drop<int>(type, s) : type == 1 ? drop<void>(type, s) : drop<Tracked>(type, s);
    }
    template<typename T>
    void move(int type, int from, int to, bool construct) {
        PBT_LOG("move slot ", type, "/", from, " to ", to, construct ? " (through a new object)" : "");
        if (from != to) {
            unref(ghost[type][to]);
            ghost[type][to] = ghost[type][from];
            ghost[type][from] = -1;
            if (ghost[type][to] >= 0 && !nodes[ghost[type][to]].finished) {
                nodes[ghost[type][to]].dropped = true;
            }
        }
        if (construct) {
            QCoro::Task<T> tmp(std::move(slot<T>(from)));
            slot<T>(to) = std::move(tmp);
        } else {
            auto &dst = slot<T>(to);
            dst = std::move(slot<T>(from)); // self move included
        }
    }
    void moveAny(int type, int from, int to, bool construct) {
        type == 0 ? move<int>(type, from, to, construct)
                  : type == 1 ? move<void>(type, from, to, construct) : move<Tracked>(type, from, to, construct);
    }

    template<typename T>
    void checkReady(int type, int s) {
        const int n = ghost[type][s];
        const bool expected = n < 0 || nodes[n].finished;
        if (slot<T>(s).isReady() != expected) {
            badDelivery(pbt::str("isReady() of the task in slot ", type, "/", s, " is ", !expected, " but coroutine #", n,
                                 n < 0 ? " (none)" : nodes[n].finished ? " has finished" : " has not finished"));
        }
    }
    void checkReadyAll() {
        for (int s = 0; s < Slots; ++s) {
            checkReady<int>(0, s);
            checkReady<void>(1, s);
            checkReady<Tracked>(2, s);
        }
    }

    // ---- awaiting -------------------------------------------------------------------------------------------------
    void beginAwaitNode(int n, int target) {
        PBT_LOG("#", n, " awaits #", target);
        auto &nd = nodes[n];
        nd.wait = target < 0 ? Node::Forever : Node::OnNode;
        nd.target = target;
        nd.mustNotSuspend = target >= 0 && nodes[target].finished;
        if (nd.mustNotSuspend) {
            ++syncDeliveries;
        }
    }
    void endAwaitNode(int n, int target, Outcome outcome, int id, bool movedFrom = false) {
        PBT_LOG("#", n, " resumed from #", target, " outcome ", int(outcome), "/", id);
        auto &nd = nodes[n];
        if (nd.wait == Node::Forever || target < 0) {
            badDelivery(pbt::str("coroutine #", n, " was resumed from awaiting an empty task"));
            return;
        }
        if (nd.wait != Node::OnNode || nd.target != target) {
            badDelivery(pbt::str("coroutine #", n, " was resumed although it does not await #", target));
        }
        auto &t = nodes[target];
        if (!t.finished) {
            badDelivery(pbt::str("coroutine #", n, " was resumed before the awaited coroutine #", target, " finished"));
        } else if (t.outcome != outcome || (outcome != Value && t.outcomeId != id)
                   || (outcome == Value && t.type != 1 && t.outcomeId != id)) {
            badDelivery(pbt::str("coroutine #", n, " awaiting #", target, " observed outcome ", int(outcome), "/", id,
                                 " instead of ", int(t.outcome), "/", t.outcomeId));
        } else if (movedFrom && t.deliveries == 0) {
            badDelivery(pbt::str("the only awaiter of #", target, " received a moved-from value"));
        }
        ++t.deliveries;
        if (t.deliveries > 1) {
            ++multiDeliveries;
        }
        if (outcome != Value) {
            ++errorDeliveries;
        }
        if (!nd.mustNotSuspend) {
            ++suspendedDeliveries;
        }
        nd.wait = Node::Running;
        nd.mustNotSuspend = false;
    }
    void finishNode(int n, Outcome o, int id) {
        PBT_LOG("#", n, " finishes with outcome ", int(o), "/", id);
        auto &nd = nodes[n];
        if (nd.finished) {
            badLifetime(pbt::str("the body of coroutine #", n, " completed twice"));
        }
        nd.finished = true;
        nd.outcome = o;
        nd.outcomeId = id;
        if (nd.dropped) {
            ++droppedFinished;
        }
    }

    // ---- invariants -----------------------------------------------------------------------------------------------
    void invariantsImmediate() {
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            if (nodes[i].mustNotSuspend) {
                badDelivery(pbt::str("coroutine #", i, " was suspended by awaiting #", nodes[i].target,
                                     " which had already finished"));
            }
        }
    }
    void invariantsIdle() {
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            const auto &nd = nodes[i];
            const int n = static_cast<int>(i);
            if (nd.wait == Node::OnNode && nodes[nd.target].finished) {
                badDelivery(pbt::str("coroutine #", n, " was not resumed although #", nd.target, " has finished"));
            }
            if (nd.wait == Node::OnGate && gates[nd.target].isOpen()) {
                badLifetime(pbt::str("coroutine #", n, " no longer runs"));
            }
            if (nd.wait == Node::Running && nd.started && !nd.finished) {
                badLifetime(pbt::str("coroutine #", n, " stopped in the middle"));
            }
            const bool frame = !(nd.finished && nd.refs == 0);
            const int args = Tracked::liveOf(argId(n));
            if (args != (frame ? 1 : 0)) {
                badLifetime(pbt::str("argument of coroutine #", n, " has ", args, " live instances, expected ", frame ? 1 : 0,
                                     " (finished ", nd.finished, ", ", nd.refs, " tasks refer to it)"));
            }
            const int locals = Tracked::liveOf(localId(n));
            if (locals != (nd.finished ? 0 : 1)) {
                badLifetime(pbt::str("local of coroutine #", n, " has ", locals, " live instances (finished ", nd.finished, ")"));
            }
            if (nd.type == 2 && nd.finished && nd.outcome == Value) {
                const int values = Tracked::liveOf(valueId(n));
                if (values != (frame ? 1 : 0)) {
                    badLifetime(pbt::str("result of coroutine #", n, " has ", values, " live instances, expected ", frame ? 1 : 0,
                                         " (", nd.refs, " tasks refer to it)"));
                }
            }
        }
        // an exception lives as long as a coroutine holds it as its outcome
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            bool held = false;
            for (const auto &nd : nodes) {
                held = held || (nd.finished && nd.outcome > Value && nd.outcomeId == errorId(int(i)) && nd.refs > 0);
            }
            const int live = Tracked::liveOf(errorId(int(i)));
            if ((live > 0) != held) {
                badLifetime(pbt::str("the exception thrown by coroutine #", i, live ? " is still alive" : " is gone",
                                     " although it is", held ? "" : " not", " the outcome of a live task"));
            }
        }
        checkReadyAll();
    }
};

#define TW_AWAIT_AS(T, expr, tgt)                                                                                     \
    do {                                                                                                              \
        Outcome tw_o = Value;                                                                                         \
        int tw_id = -1;                                                                                               \
        bool tw_moved = false;                                                                                        \
        std::exception_ptr tw_ex;                                                                                     \
        const int tw_target = (tgt);                                                                                  \
        w.beginAwaitNode(n, tw_target);                                                                               \
        try {                                                                                                         \
            if constexpr (std::is_void_v<T>) {                                                                        \
                co_await expr;                                                                                        \
            } else if constexpr (std::is_same_v<T, int>) {                                                            \
                tw_id = co_await expr;                                                                                \
            } else {                                                                                                  \
                Tracked tw_v = co_await expr;                                                                         \
                tw_id = tw_v.id();                                                                                    \
                tw_moved = tw_v.movedFrom();                                                                          \
            }                                                                                                         \
        } catch (const ErrorStd &e) {                                                                                 \
            tw_o = Std;                                                                                               \
            tw_id = e.t.id();                                                                                         \
            tw_ex = std::current_exception();                                                                         \
        } catch (const ErrorOdd &e) {                                                                                 \
            tw_o = Odd;                                                                                               \
            tw_id = e.t.id();                                                                                         \
            tw_ex = std::current_exception();                                                                         \
        }                                                                                                             \
        w.endAwaitNode(n, tw_target, tw_o, tw_id, tw_moved);                                                          \
        if (tw_ex && !w.catches[w.nodes[n].script]) {                                                                 \
            propagate = tw_ex;                                                                                        \
            propagateKind = tw_o;                                                                                     \
            propagateId = tw_id;                                                                                      \
        }                                                                                                             \
    } while (false)

#define TW_WAIT_GATE(g)                                                                                               \
    do {                                                                                                              \
        w.nodes[n].wait = Node::OnGate;                                                                               \
        w.nodes[n].target = (g);                                                                                      \
        co_await w.gates[g];                                                                                          \
        if (!w.gates[g].isOpen() || w.nodes[n].wait != Node::OnGate || w.nodes[n].target != (g)) {                    \
            w.badDelivery(pbt::str("coroutine #", n, " was resumed while it waits for something else"));              \
        }                                                                                                             \
        w.nodes[n].wait = Node::Running;                                                                              \
    } while (false)

#define TW_AWAIT_MOVED(T)                                                                                             \
    do {                                                                                                              \
        const int tw_n = w.ghost[type][s];                                                                            \
        w.ghost[type][s] = -1;                                                                                        \
        if (tw_n >= 0 && !w.nodes[tw_n].finished) {                                                                   \
            w.nodes[tw_n].dropped = true;                                                                             \
        }                                                                                                             \
        Unref tw_ref{w, tw_n};                                                                                        \
        QCoro::Task<T> tw_t(std::move(w.template slot<T>(s)));                                                        \
        TW_AWAIT_AS(T, tw_t, tw_n);                                                                                   \
    } while (false)

#define TW_AWAIT_TEMP(T)                                                                                              \
    do {                                                                                                              \
        const int tw_n = w.newNode(type, x);                                                                          \
        if (tw_n >= 0) {                                                                                              \
            Unref tw_ref{w, tw_n};                                                                                    \
            /* the target runs (and may finish) while the operand is evaluated */                                     \
            TW_AWAIT_AS(T, w.template startAwaited<T>(n, tw_n), tw_n);                                                \
        }                                                                                                             \
    } while (false)

#define TW_AWAIT_LOCAL(T)                                                                                             \
    do {                                                                                                              \
        const int tw_n = w.newNode(type, x);                                                                          \
        if (tw_n >= 0) {                                                                                              \
            Unref tw_ref{w, tw_n};                                                                                    \
            QCoro::Task<T> tw_t = w.template start<T>(tw_n);                                                          \
            TW_WAIT_GATE(s);                                                                                          \
            TW_AWAIT_AS(T, std::move(tw_t), tw_n);                                                                    \
        }                                                                                                             \
    } while (false)

#define TW_BY_TYPE(M)                                                                                                 \
    if (type == 0) {                                                                                                  \
        M(int);                                                                                                       \
    } else if (type == 1) {                                                                                           \
        M(void);                                                                                                      \
    } else {                                                                                                          \
        M(Tracked);                                                                                                   \
    }                                                                                                                 \
    break

#define TW_AWAIT_SLOT(T) TW_AWAIT_AS(T, w.template slot<T>(s), w.ghost[type][s])
#define TW_AWAIT_EMPTY(T) TW_AWAIT_AS(T, QCoro::Task<T>{}, -1)

struct Unref {
    World &w;
    int n;
    ~Unref() { w.unref(n); }
};

template<typename T>
QCoro::Task<T> body(World &w, int n, Tracked arg) {
    w.nodes[n].started = true;
    struct Local {
        World &w;
        int n;
        Tracked t;
        ~Local() {
            if (w.nodes[n].leftBody) {
                w.badLifetime(pbt::str("locals of coroutine #", n, " destroyed twice"));
            }
            w.nodes[n].leftBody = true;
        }
    } local{w, n, Tracked(localId(n))};
    std::exception_ptr propagate;
    Outcome propagateKind = None;
    int propagateId = -1;
    const int script = w.nodes[n].script;

    for (std::size_t i = 0; i < w.scripts[script].size() && !propagate; ++i) {
        const Step st = w.scripts[script][i];
        int type = st.arg % Types;
        int s = (st.arg / Types) % Slots;
        const int x = (st.arg / (Types * Slots)) % Scripts;
        if (arg.id() != argId(n) || local.t.id() != localId(n)) {
            w.badLifetime("the state of a running coroutine is corrupted");
        }
        if (st.kind == StAwaitSlot || st.kind == StAwaitMoved || st.kind == StDropSlot || st.kind == StMoveSlot) {
            w.occupied(type, s, x);
        }
        switch (st.kind) {
        case StGate:
            TW_WAIT_GATE(s);
            break;
        case StSleep: {
            const auto due = vloop::now() + s * 10;
            w.nodes[n].wait = Node::OnSleep;
            co_await QCoro::sleepFor(std::chrono::milliseconds(s * 10));
            if (vloop::now() < due || w.nodes[n].wait != Node::OnSleep) {
                w.badDelivery(pbt::str("coroutine #", n, " was resumed while it sleeps"));
            }
            w.nodes[n].wait = Node::Running;
            break;
        }
        case StAwaitSlot:
            TW_BY_TYPE(TW_AWAIT_SLOT);
        case StAwaitMoved:
            TW_BY_TYPE(TW_AWAIT_MOVED);
        case StAwaitTemp:
            TW_BY_TYPE(TW_AWAIT_TEMP);
        case StAwaitLocal:
            TW_BY_TYPE(TW_AWAIT_LOCAL);
        case StDropSlot:
            w.dropAny(type, s);
            break;
        case StMoveSlot:
            w.moveAny(type, s, x % Slots, st.arg % 2);
            break;
        case StOpenGate:
            PBT_LOG("#", n, " opens gate ", s);
            w.gates[s].open();
            break;
        case StSpawn:
            w.spawnAny(type, s, x);
            break;
        case StDetached:
            w.detachedAny(type, x);
            break;
        case StAwaitEmpty:
            if (x == 0) {
                TW_BY_TYPE(TW_AWAIT_EMPTY);
            }
            break;
        default:
            break;
        }
        w.checkReadyAll();
    }

    if (propagate) {
        w.finishNode(n, propagateKind, propagateId);
        std::rethrow_exception(propagate);
    }
    if (w.finish[script] == 2) {
        w.finishNode(n, Std, errorId(n));
        throw ErrorStd(errorId(n));
    }
    if (w.finish[script] == 3) {
        w.finishNode(n, Odd, errorId(n));
        throw ErrorOdd(errorId(n));
    }
    w.finishNode(n, Value, std::is_void_v<T> ? -1 : valueId(n));
    if constexpr (std::is_same_v<T, int>) {
        co_return valueId(n);
    } else if constexpr (std::is_void_v<T>) {
        co_return;
    } else {
        Tracked result(valueId(n));
        co_return result;
    }
}

inline std::vector<pbt::CfgSpec> cfgSpecs() {
    return {{"finish0", 3}, {"finish1", 3}, {"finish2", 3}, {"finish3", 3}, {"finish4", 3}, {"catch", 31},
            {"first0", 5}, {"first1", 5}, {"first2", 5}, {"first3", 5}, {"first4", 5}};
}
enum MainOp { OpStep, OpSpawn, OpDetached, OpDrop, OpMove, OpOpen, OpAdvance };
inline std::vector<pbt::OpSpec> opSpecs() {
    return {{"step", 10, Scripts - 1, StepChoices - 1, Types * Slots * Scripts - 1},
            {"spawn", 8, Types - 1, Slots - 1, Scripts - 1},
            {"detached", 1, Types - 1, Scripts - 1},
            {"drop", 2, Types - 1, Slots - 1},
            {"move", 2, Types - 1, Slots * Slots - 1, 1},
            {"open", 3, Gates - 1},
            {"advance", 2, 3}};
}

//! Runs the program; afterwards everything that can finish has finished.
inline void runProgram(const pbt::Case &c, pbt::Run &run, bool delivery, bool lifetime) {
    Tracked::reset();
    // Coroutines that wait for ever keep referring to the world, so it is not destroyed then.
    auto *wp = new World;
    World &w = *wp;
    w.checkDelivery = delivery;
    w.checkLifetime = lifetime;
    for (int i = 0; i < Scripts; ++i) {
        w.finish[i] = c.cfg[i];
        w.catches[i] = (c.cfg[5] >> i) & 1;
        // most coroutines start by suspending
        if (const int first = c.cfg[6 + i]; first < Gates) {
            w.scripts[i].push_back({StGate, first * Types});
        } else if (first == Gates) {
            w.scripts[i].push_back({StSleep, Types});
        }
    }
    for (const auto &op : c.ops) {
        if (op.k == OpStep && w.scripts[op.a].size() < 6) {
            w.scripts[op.a].push_back({stepKind(op.b), op.c});
        }
    }
    const auto after = [&]() {
        w.invariantsImmediate();
        vloop::drain();
        w.invariantsIdle();
    };
    for (const auto &op : c.ops) {
        switch (op.k) {
        case OpStep:
            continue;
        case OpSpawn:
            w.spawnAny(op.a, op.b, op.c);
            break;
        case OpDetached:
            w.detachedAny(op.a, op.b);
            break;
        case OpDrop: {
            int t = op.a, s = op.b;
            w.occupied(t, s, 0);
            w.dropAny(t, s);
            break;
        }
        case OpMove: {
            int t = op.a, s = op.b / Slots;
            w.occupied(t, s, 0);
            w.moveAny(t, s, op.b % Slots, op.c);
            break;
        }
        case OpOpen:
            PBT_LOG("main opens gate ", op.a);
            w.gates[op.a].open();
            break;
        case OpAdvance:
            vloop::advance(op.a * 10);
            break;
        default:
            break;
        }
        after();
        if (run.failed()) {
            break;
        }
    }
    for (auto &g : w.gates) {
        g.open();
    }
    vloop::settle();
    after();
    for (int t = 0; t < Types; ++t) {
        for (int s = 0; s < Slots; ++s) {
            w.dropAny(t, s);
        }
    }
    after();
    bool stuck = false;
    for (std::size_t i = 0; i < w.nodes.size(); ++i) {
        const auto &nd = w.nodes[i];
        if (!nd.finished) {
            stuck = true;
            if (nd.wait != Node::OnNode && nd.wait != Node::Forever) {
                w.badDelivery(pbt::str("coroutine #", i, " never finished although nothing holds it up"));
            }
        }
    }
    if (w.suspendedDeliveries) {
        run.tag("suspended-await");
    }
    if (w.syncDeliveries) {
        run.tag("await-of-finished");
    }
    if (w.multiDeliveries) {
        run.tag("several-awaiters");
    }
    if (w.errorDeliveries) {
        run.tag("exception-delivered");
    }
    if (w.droppedFinished) {
        run.tag("finished-after-task-was-dropped-or-moved");
    }
    if (w.nodes.size() > 5) {
        run.tag("more-than-5-coroutines");
    }
    if (delivery && w.suspendedDeliveries && (w.multiDeliveries || w.errorDeliveries)) {
        run.nontrivial();
    }
    if (lifetime && w.droppedFinished && w.suspendedDeliveries) {
        run.nontrivial();
    }
    if (stuck) {
        run.tag("awaits-for-ever");
    } else {
        if (Tracked::total() != 0) {
            w.badLifetime(pbt::str(Tracked::total(), " objects leaked at the end of the program"));
        }
        delete wp;
    }
}

} // namespace tw
