// C07: a LazyTask runs only when awaited, once, and then behaves like a Task.
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorolazytask.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>

#include <array>
#include <deque>
#include <memory>

using namespace pbt;

namespace {

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};
struct ErrorOdd {
    explicit ErrorOdd(int id) : t(id) {}
    Tracked t;
};

constexpr int Gates = 4;
constexpr int Slots = 4;
constexpr int Types = 3;
constexpr int Scripts = 4;
constexpr int MaxNodes = 40;

enum Kind { Pending, Value, Std, Odd };
enum StepKind { StGate, StSleep, StAwaitSlot, StAwaitTemp, StAwaitLocal, StAwaitEmpty, StDropSlot, StCreate, StOpenGate, StObserve, StDiscard };
const StepKind stepTable[] = {StAwaitSlot, StGate, StAwaitSlot, StAwaitTemp, StSleep, StAwaitLocal, StAwaitSlot, StGate, StDropSlot,
                              StCreate, StOpenGate, StObserve, StDiscard, StAwaitEmpty};
constexpr int StepChoices = sizeof(stepTable) / sizeof(stepTable[0]);

struct Step {
    StepKind kind;
    int arg;
};

struct Node {
    int type = 0;
    int script = -1; // -1: a continuation
    // continuations
    int pred = -1;
    int cbKind = 0; // 0 plain, 1 returns LazyTask, 2 returns Task
    int cbOutcome = 0;
    int cbGate = Gates;
    int err = 0;
    bool byRef = false; // chained to an lvalue
    int cbRuns = 0, errRuns = 0;

    bool awaited = false;
    bool started = false;
    bool finished = false;
    Kind outcome = Pending;
    int outcomeId = 0;
    int refs = 0;
    bool consumed = false; // owned by a continuation
    bool chained = false; // has continuations, which may hold copies of its result
    int deliveries = 0;
    enum Wait { None, OnGate, OnSleep, OnNode, Forever } wait = None;
    int target = -1;
    bool mustNotSuspend = false;
};

int argId(int n) { return 1000 + n; }
int localId(int n) { return 2000 + n; }
int valueId(int n) { return 3000 + n; }
int errorId(int n) { return 4000 + n; }
int stateId(int n) { return 5000 + n; }

template<typename T>
constexpr int typeOf = std::is_same_v<T, int> ? 0 : std::is_void_v<T> ? 1 : 2;

template<typename T>
using Slot = std::unique_ptr<QCoro::LazyTask<T>>;

struct World {
    std::array<std::vector<Step>, Scripts> scripts;
    std::array<int, Scripts> finish{};
    std::array<bool, Scripts> catches{};
    std::deque<Node> nodes;
    std::array<Gate, Gates + 1> gates;
    std::array<Slot<int>, Slots> ints;
    std::array<Slot<void>, Slots> voids;
    std::array<Slot<Tracked>, Slots> objs;
    std::array<QCoro::Task<int>, Slots> eagers;
    int ghost[Types][Slots];
    int ghostEager[Slots];
    int neverStarted = 0, suspended = 0, multi = 0, errors = 0, links = 0, emptyAwaits = 0, concurrent = 0;

    World() {
        for (auto &r : ghost) {
            for (auto &g : r) {
                g = -1;
            }
        }
        for (auto &g : ghostEager) {
            g = -1;
        }
        gates[Gates].open();
    }

    template<typename T>
    Slot<T> &slot(int i) {
        if constexpr (std::is_same_v<T, int>) {
            return ints[i];
        } else if constexpr (std::is_void_v<T>) {
            return voids[i];
        } else {
            return objs[i];
        }
    }
    void occupied(int &type, int &s, int salt) const {
        if (salt == 0) {
            return;
        }
        for (int i = 0; i < Types * Slots; ++i) {
            const int k = (type * Slots + s + i) % (Types * Slots);
            if (ghost[k / Slots][k % Slots] >= 0) {
                type = k / Slots;
                s = k % Slots;
                return;
            }
        }
    }
    int newNode(int type) {
        if (nodes.size() >= MaxNodes) {
            return -1;
        }
        nodes.emplace_back();
        nodes.back().type = type;
        nodes.back().refs = 1;
        return static_cast<int>(nodes.size()) - 1;
    }
    //! A continuation chained to an lvalue refers to the lazy task until it starts, which then has to stay alive.
    bool pinned(int n) const {
        for (std::size_t i = 0; n >= 0 && i < nodes.size(); ++i) {
            const auto &o = nodes[i];
            if (o.pred == n && o.byRef && !o.awaited && held(static_cast<int>(i))) {
                return true;
            }
        }
        return false;
    }
    //! Held by a slot, or by a continuation that is
    bool held(int n) const {
        if (nodes[n].refs > 0) {
            return true;
        }
        for (std::size_t i = 0; nodes[n].consumed && i < nodes.size(); ++i) {
            if (nodes[i].pred == n && !nodes[i].byRef && held(static_cast<int>(i))) {
                return true;
            }
        }
        return false;
    }
    void unref(int n) {
        if (n >= 0) {
            --nodes[n].refs;
            neverStarted += nodes[n].refs == 0 && !nodes[n].started;
        }
    }

    //! Marks the node, and what it owns, as awaited
    void markAwaited(int n) {
        nodes[n].awaited = true;
        if (nodes[n].pred >= 0) {
            markAwaited(nodes[n].pred);
        }
    }
    void markStarted(int n) {
        nodes[n].started = true;
    }

    void beginAwait(int n, int target) {
        PBT_LOG(n < 0 ? std::string("an observer") : str("#", n), " awaits #", target);
        if (target < 0) {
            ++emptyAwaits;
        } else {
            if (nodes[target].awaited && !nodes[target].finished) {
                ++concurrent;
            }
            markAwaited(target);
        }
        if (n >= 0) {
            auto &nd = nodes[n];
            nd.wait = target < 0 ? Node::Forever : Node::OnNode;
            nd.target = target;
            nd.mustNotSuspend = target >= 0 && nodes[target].finished;
        }
    }
    void endAwait(int n, int target, Kind kind, int id, bool movedFrom) {
        PBT_LOG(n < 0 ? std::string("an observer") : str("#", n), " resumed from #", target, " with ", int(kind), "/", id);
        if (target < 0) {
            PBT_FAIL("awaiting an empty lazy task was resumed");
            return;
        }
        if (n >= 0) {
            auto &nd = nodes[n];
            PBT_CHECK(nd.wait == Node::OnNode && nd.target == target, "coroutine #", n, " was resumed although it does not await #", target);
            suspended += !nd.mustNotSuspend;
            nd.wait = Node::None;
            nd.mustNotSuspend = false;
        }
        auto &t = nodes[target];
        const auto e = result(target);
        PBT_CHECK(e.first != Pending, "an awaiter was resumed before #", target, " finished");
        PBT_CHECK(e.first == Pending || (e.first == kind && (e.second == id || (kind == Value && t.type == 1))), "an awaiter of #", target,
                  " observed ", int(kind), "/", id, " instead of ", int(e.first), "/", e.second);
        PBT_CHECK(!movedFrom || t.deliveries > 0 || t.chained, "the first awaiter of #", target, " received a moved-from value");
        ++t.deliveries;
        multi += t.deliveries > 1;
        errors += kind > Value;
    }

    //! Outcome of a node; for continuations derived from that of the predecessor
    std::pair<Kind, int> result(int n) const {
        const auto &nd = nodes[n];
        if (nd.pred < 0) {
            return {nd.finished ? nd.outcome : Pending, nd.outcomeId};
        }
        if (!nd.awaited) {
            return {Pending, 0};
        }
        const auto p = result(nd.pred);
        if (p.first == Pending || p.first == Odd) {
            return p;
        }
        if (p.first == Std) {
            return nd.err ? std::pair<Kind, int>{Value, nd.type == 2 ? -1 : 0} : p;
        }
        if (nd.cbKind && !gates[nd.cbGate].isOpen()) {
            return {Pending, 0};
        }
        return {nd.cbOutcome < 2 ? Value : nd.cbOutcome == 2 ? Std : Odd, nd.cbOutcome < 2 ? valueId(n) : errorId(n)};
    }

    void invariants() {
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            const int n = static_cast<int>(i);
            auto &nd = nodes[i];
            if (nd.pred >= 0) {
                const auto p = nd.awaited ? result(nd.pred).first : Pending;
                PBT_CHECK(nd.cbRuns == (p == Value), "continuation #", n, " ran its callback ", nd.cbRuns, " times, expected ", p == Value);
                PBT_CHECK(nd.errRuns == (nd.err && p == Std), "continuation #", n, " ran its error callback ", nd.errRuns, " times");
                if (!nd.awaited && nd.refs > 0) {
                    PBT_CHECK(Tracked::liveOf(stateId(n)) >= 1, "the callbacks of unstarted continuation #", n, " are gone");
                }
                continue;
            }
            PBT_CHECK(nd.started == nd.awaited, "coroutine #", n, nd.started ? " started without being awaited" : " was awaited but did not start");
            PBT_CHECK(!nd.mustNotSuspend, "coroutine #", n, " was suspended by awaiting the finished #", nd.target);
            if (nd.wait == Node::OnNode) {
                PBT_CHECK(result(nd.target).first == Pending, "coroutine #", n, " was not resumed although #", nd.target, " has finished");
            }
            PBT_CHECK(nd.wait != Node::OnGate || !gates[nd.target].isOpen(), "coroutine #", n, " was not resumed");
            PBT_CHECK(!(nd.started && !nd.finished && nd.wait == Node::None), "coroutine #", n, " stopped in the middle");
            if (!nd.consumed) {
                const bool frame = nd.refs > 0 || (nd.started && !nd.finished);
                PBT_CHECK(Tracked::liveOf(argId(n)) == frame, "argument of #", n, " has ", Tracked::liveOf(argId(n)),
                          " live instances, expected ", frame, " (started ", nd.started, ", finished ", nd.finished, ", ", nd.refs, " tasks)");
                if (nd.type == 2 && nd.finished && nd.outcome == Value && !nd.chained) {
                    PBT_CHECK(Tracked::liveOf(valueId(n)) == frame, "result of #", n, " has ", Tracked::liveOf(valueId(n)), " live instances");
                }
            }
            PBT_CHECK(Tracked::liveOf(localId(n)) == (nd.started && !nd.finished), "local of #", n, " has ", Tracked::liveOf(localId(n)),
                      " live instances");
        }
        for (int t = 0; t < Types; ++t) {
            for (int s = 0; s < Slots; ++s) {
                const int n = ghost[t][s];
                if (n >= 0) {
                    const bool ready = t == 0 ? ints[s]->isReady() : t == 1 ? voids[s]->isReady() : objs[s]->isReady();
                    PBT_CHECK(ready == (result(n).first != Pending), "isReady() of #", n, " is ", ready);
                }
            }
        }
    }
};

template<typename T>
QCoro::LazyTask<T> body(World &w, int n, Tracked arg);

//! Keeps the temporary argument from living as long as an await of the task
template<typename T>
QCoro::LazyTask<T> call(World &w, int n) {
    return body<T>(w, n, Tracked(argId(n)));
}

struct Unref {
    World &w;
    int n;
    ~Unref() { w.unref(n); }
};

template<typename T>
void create(World &w, int s, int script) {
    if (w.pinned(w.ghost[typeOf<T>][s])) {
        return;
    }
    const int n = w.newNode(typeOf<T>);
    if (n < 0) {
        return;
    }
    w.nodes[n].script = script;
    PBT_LOG("create #", n, " (script ", script, ") in slot ", typeOf<T>, "/", s);
    const int old = w.ghost[typeOf<T>][s];
    Slot<T> p(new QCoro::LazyTask<T>(body<T>(w, n, Tracked(argId(n)))));
    PBT_CHECK(!w.nodes[n].started, "a lazy coroutine ran when it was called");
    w.ghost[typeOf<T>][s] = n;
    w.unref(old);
    w.slot<T>(s) = std::move(p);
}
void createAny(World &w, int type, int s, int script) {
    type == 0 ? create<int>(w, s, script) : type == 1 ? create<void>(w, s, script) : create<Tracked>(w, s, script);
}
template<typename T>
void drop(World &w, int s) {
    if (w.pinned(w.ghost[typeOf<T>][s])) {
        return;
    }
    PBT_LOG("drop slot ", typeOf<T>, "/", s, " (#", w.ghost[typeOf<T>][s], ")");
    w.unref(w.ghost[typeOf<T>][s]);
    w.ghost[typeOf<T>][s] = -1;
    w.slot<T>(s).reset();
}
void dropAny(World &w, int type, int s) {
    type == 0 ? drop<int>(w, s) : type == 1 ? drop<void>(w, s) : drop<Tracked>(w, s);
}

#define AWAIT_AS(T, expr, tgt)                                                                                        \
    do {                                                                                                              \
        Kind a_k = Value;                                                                                             \
        int a_id = 0;                                                                                                 \
        bool a_moved = false;                                                                                         \
        std::exception_ptr a_ex;                                                                                      \
        const int a_target = (tgt);                                                                                   \
        w.beginAwait(n, a_target);                                                                                    \
        try {                                                                                                         \
            if constexpr (std::is_void_v<T>) {                                                                        \
                co_await expr;                                                                                        \
            } else if constexpr (std::is_same_v<T, int>) {                                                            \
                a_id = co_await expr;                                                                                 \
            } else {                                                                                                  \
                Tracked a_v = co_await expr;                                                                          \
                a_id = a_v.id();                                                                                      \
                a_moved = a_v.movedFrom();                                                                            \
            }                                                                                                         \
        } catch (const ErrorStd &e) {                                                                                 \
            a_k = Std;                                                                                                \
            a_id = e.t.id();                                                                                          \
            a_ex = std::current_exception();                                                                          \
        } catch (const ErrorOdd &e) {                                                                                 \
            a_k = Odd;                                                                                                \
            a_id = e.t.id();                                                                                          \
            a_ex = std::current_exception();                                                                          \
        }                                                                                                             \
        w.endAwait(n, a_target, a_k, a_id, a_moved);                                                                  \
        if (a_ex && n >= 0 && !w.catches[w.nodes[n].script]) {                                                        \
            propagate = a_ex;                                                                                         \
            propagateKind = a_k;                                                                                      \
            propagateId = a_id;                                                                                       \
        }                                                                                                             \
    } while (false)

template<typename T>
QCoro::Task<> observe(World &w, int s) {
    const int n = -1;
    std::exception_ptr propagate;
    Kind propagateKind = Pending;
    int propagateId = 0;
    const int target = w.ghost[typeOf<T>][s];
    if (target < 0) {
        co_return;
    }
    AWAIT_AS(T, *w.slot<T>(s), target);
    (void)propagateKind;
    (void)propagateId;
}
void observeAny(World &w, int type, int s) {
    type == 0 ? observe<int>(w, s) : type == 1 ? observe<void>(w, s) : observe<Tracked>(w, s);
}

template<typename T>
QCoro::Task<> observeEager(World &w, int s) {
    const int n = -1;
    std::exception_ptr propagate;
    Kind propagateKind = Pending;
    int propagateId = 0;
    const int target = w.ghostEager[s];
    if (target < 0) {
        co_return;
    }
    AWAIT_AS(T, w.eagers[s], target);
    (void)propagateKind;
    (void)propagateId;
}

#define AWAIT_SLOT(T)                                                                                                 \
    if (w.ghost[type][s] >= 0) {                                                                                      \
        AWAIT_AS(T, *w.slot<T>(s), w.ghost[type][s]);                                                                 \
    }
#define AWAIT_TEMP(T)                                                                                                 \
    do {                                                                                                              \
        const int c = w.newNode(type);                                                                                \
        if (c >= 0) {                                                                                                 \
            w.nodes[c].script = x;                                                                                    \
            Unref ref{w, c};                                                                                          \
            AWAIT_AS(T, call<T>(w, c), c);                                                         \
        }                                                                                                             \
    } while (false)
#define AWAIT_LOCAL(T)                                                                                                \
    do {                                                                                                              \
        const int c = w.newNode(type);                                                                                \
        if (c >= 0) {                                                                                                 \
            w.nodes[c].script = x;                                                                                    \
            Unref ref{w, c};                                                                                          \
            QCoro::LazyTask<T> task = call<T>(w, c);                                               \
            WAIT_GATE(s);                                                                                             \
            if (w.nodes[c].started) {                                                                                 \
                PBT_FAIL("coroutine #", c, " started without being awaited");                                         \
            }                                                                                                         \
            AWAIT_AS(T, task, c);                                                                                     \
        }                                                                                                             \
    } while (false)
#define DISCARD(T)                                                                                                    \
    do {                                                                                                              \
        const int c = w.newNode(type);                                                                                \
        if (c >= 0) {                                                                                                 \
            w.nodes[c].script = x;                                                                                    \
            call<T>(w, c);                                                                         \
            w.unref(c);                                                                                               \
        }                                                                                                             \
    } while (false)
#define AWAIT_EMPTY(T) AWAIT_AS(T, QCoro::LazyTask<T>{}, -1)
#define WAIT_GATE(g)                                                                                                  \
    do {                                                                                                              \
        w.nodes[n].wait = Node::OnGate;                                                                               \
        w.nodes[n].target = (g);                                                                                      \
        co_await w.gates[g];                                                                                          \
        PBT_CHECK(w.gates[g].isOpen() && w.nodes[n].wait == Node::OnGate, "coroutine #", n,                           \
                  " was resumed while it waits for something else");                                                  \
        w.nodes[n].wait = Node::None;                                                                                 \
    } while (false)
#define BY_TYPE(M)                                                                                                    \
    if (type == 0) {                                                                                                  \
        M(int);                                                                                                       \
    } else if (type == 1) {                                                                                           \
        M(void);                                                                                                      \
    } else {                                                                                                          \
        M(Tracked);                                                                                                   \
    }                                                                                                                 \
    break

template<typename T>
QCoro::LazyTask<T> body(World &w, int n, Tracked arg) {
    PBT_LOG("#", n, " starts");
    PBT_CHECK(!w.nodes[n].started, "coroutine #", n, " started twice");
    PBT_CHECK(w.nodes[n].awaited, "coroutine #", n, " started without being awaited");
    w.nodes[n].started = true;
    Tracked local(localId(n));
    std::exception_ptr propagate;
    Kind propagateKind = Pending;
    int propagateId = 0;
    const int script = w.nodes[n].script;
    for (std::size_t i = 0; i < w.scripts[script].size() && !propagate; ++i) {
        const Step st = w.scripts[script][i];
        int type = st.arg % Types;
        int s = (st.arg / Types) % Slots;
        const int x = (st.arg / (Types * Slots)) % Scripts;
        PBT_CHECK(arg.id() == argId(n) && local.id() == localId(n), "state of a running coroutine is corrupted");
        if (st.kind == StAwaitSlot || st.kind == StDropSlot || st.kind == StObserve) {
            w.occupied(type, s, 1);
        }
        switch (st.kind) {
        case StGate:
            WAIT_GATE(s);
            break;
        case StSleep: {
            const auto due = vloop::now() + s * 10;
            w.nodes[n].wait = Node::OnSleep;
            co_await QCoro::sleepFor(std::chrono::milliseconds(s * 10));
            PBT_CHECK(vloop::now() >= due && w.nodes[n].wait == Node::OnSleep, "coroutine #", n, " was resumed while it sleeps");
            w.nodes[n].wait = Node::None;
            break;
        }
        case StAwaitSlot:
            BY_TYPE(AWAIT_SLOT);
        case StAwaitTemp:
            BY_TYPE(AWAIT_TEMP);
        case StAwaitLocal:
            BY_TYPE(AWAIT_LOCAL);
        case StAwaitEmpty:
            if (x == 0) {
                BY_TYPE(AWAIT_EMPTY);
            }
            break;
        case StDropSlot:
            dropAny(w, type, s);
            break;
        case StCreate:
            createAny(w, type, s, x);
            break;
        case StOpenGate:
            w.gates[s].open();
            break;
        case StObserve:
            observeAny(w, type, s);
            break;
        case StDiscard:
            BY_TYPE(DISCARD);
        }
    }
    auto &nd = w.nodes[n];
    const auto end = [&](Kind k, int id) {
        PBT_LOG("#", n, " finishes with ", int(k), "/", id);
        nd.finished = true;
        nd.outcome = k;
        nd.outcomeId = id;
    };
    if (propagate) {
        end(propagateKind, propagateId);
        std::rethrow_exception(propagate);
    }
    if (w.finish[script] == 2) {
        end(Std, errorId(n));
        throw ErrorStd(errorId(n));
    }
    if (w.finish[script] == 3) {
        end(Odd, errorId(n));
        throw ErrorOdd(errorId(n));
    }
    end(Value, valueId(n));
    if constexpr (std::is_same_v<T, int>) {
        co_return valueId(n);
    } else if constexpr (std::is_same_v<T, Tracked>) {
        co_return Tracked(valueId(n));
    }
}

// ---- continuations: from any type to int -----------------------------------------------------------------------------
int idOf(int v) { return v; }
int idOf(const Tracked &t) { return t.id(); }

struct Cb {
    World *w;
    int n;
    Tracked state;
    // several words of state, so that reading it after the callback object is gone does not go unnoticed
    std::string text = "callback state on the heap, long enough";

    void called(bool hasArg, int got) const {
        auto &nd = w->nodes[n];
        ++nd.cbRuns;
        PBT_LOG("callback of #", n, " runs");
        PBT_CHECK(nd.awaited, "continuation #", n, " ran without being awaited");
        check();
        const auto p = w->result(nd.pred);
        PBT_CHECK(p.first == Value, "callback of #", n, " runs although its predecessor did not succeed");
        PBT_CHECK(!hasArg || p.second == got, "callback of #", n, " received ", got, " instead of ", p.second);
    }
    void check() const {
        PBT_CHECK(state.id() == stateId(n) && text == "callback state on the heap, long enough", "callback of #", n, " lost its state");
    }
    int produce() const {
        const auto &nd = w->nodes[n];
        if (nd.cbOutcome == 2) {
            throw ErrorStd(errorId(n));
        }
        if (nd.cbOutcome == 3) {
            throw ErrorOdd(errorId(n));
        }
        return valueId(n);
    }
};
template<typename A, bool Takes, int CbKind>
struct ThenCb;
#define THEN_CB(TAKES, PARAM, ARG)                                                                                    \
    template<typename A>                                                                                              \
    struct ThenCb<A, TAKES, 0> : Cb {                                                                                 \
        int operator()(PARAM) {                                                                                       \
            called(TAKES, ARG);                                                                                       \
            return produce();                                                                                         \
        }                                                                                                             \
    };                                                                                                                \
    template<typename A>                                                                                              \
    struct ThenCb<A, TAKES, 1> : Cb {                                                                                 \
        QCoro::LazyTask<int> operator()(PARAM) {                                                                      \
            called(TAKES, ARG);                                                                                       \
            co_await w->gates[w->nodes[n].cbGate];                                                                    \
            check();                                                                                                  \
            co_return produce();                                                                                      \
        }                                                                                                             \
    };                                                                                                                \
    template<typename A>                                                                                              \
    struct ThenCb<A, TAKES, 2> : Cb {                                                                                 \
        QCoro::Task<int> operator()(PARAM) {                                                                          \
            called(TAKES, ARG);                                                                                       \
            co_await w->gates[w->nodes[n].cbGate];                                                                    \
            check();                                                                                                  \
            co_return produce();                                                                                      \
        }                                                                                                             \
    };
THEN_CB(false, void, 0)
THEN_CB(true, A a, idOf(a))

struct ErrCb {
    World *w;
    int n;
    Tracked state;
    std::string text = "callback state on the heap, long enough";
    void operator()(const std::exception &e) const {
        ++w->nodes[n].errRuns;
        PBT_CHECK(state.id() == stateId(n) && text == "callback state on the heap, long enough", "error callback of #", n, " lost its state");
        const auto p = w->result(w->nodes[n].pred);
        const auto *ours = dynamic_cast<const ErrorStd *>(&e);
        PBT_CHECK(p.first == Std && ours && ours->t.id() == p.second, "error callback of #", n, " received the wrong exception");
    }
};

template<typename A, bool Takes, int CbKind>
void attachCb(World &w, int s, int dst, int n, bool rvalue) {
    const auto &nd = w.nodes[n];
    using Result = std::conditional_t<CbKind == 2, QCoro::Task<int>, QCoro::LazyTask<int>>;
    ThenCb<A, Takes, CbKind> cb{{&w, n, Tracked(stateId(n))}};
    ErrCb err{&w, n, Tracked(stateId(n))};
    const int pred = nd.pred;
    // a task that is chained as an rvalue leaves its slot first, since the continuation may start programs which use the slot
    Slot<A> taken;
    if (rvalue) {
        w.nodes[pred].consumed = true;
        w.ghost[typeOf<A>][s] = -1;
        taken = std::move(w.slot<A>(s));
    }
    auto *src = rvalue ? taken.get() : w.slot<A>(s).get();
    const auto make = [&]() -> Result {
        if (nd.err) {
            return rvalue ? std::move(*src).then(std::move(cb), std::move(err)) : src->then(cb, err);
        }
        return rvalue ? std::move(*src).then(std::move(cb)) : src->then(cb);
    };
    if constexpr (CbKind == 2) {
        w.markAwaited(n);
        Result r = make();
        w.unref(w.ghostEager[dst]);
        w.ghostEager[dst] = n;
        w.eagers[dst] = std::move(r);
    } else {
        Slot<int> r(new QCoro::LazyTask<int>(make()));
        PBT_CHECK(nd.cbRuns == 0 && nd.errRuns == 0, "a lazy continuation ran before it was awaited");
        w.unref(w.ghost[0][dst]);
        w.ghost[0][dst] = n;
        w.ints[dst] = std::move(r);
    }
    if (rvalue) {
        taken.reset(); // moved-from by now
        w.unref(pred);
    }
}
template<typename A, bool Takes>
void attachKind(World &w, int s, int dst, int n, bool rvalue) {
    switch (w.nodes[n].cbKind) {
    case 0: attachCb<A, Takes, 0>(w, s, dst, n, rvalue); break;
    case 1: attachCb<A, Takes, 1>(w, s, dst, n, rvalue); break;
    default: attachCb<A, Takes, 2>(w, s, dst, n, rvalue); break;
    }
}

enum { OpStep, OpCreate, OpObserve, OpDrop, OpOpen, OpAdvance, OpThen, OpObserveEager, OpWaitFor };

void run(const Case &c, Run &run) {
    Tracked::reset();
    auto *wp = new World; // kept when some coroutine waits for ever
    World &w = *wp;
    for (int i = 0; i < Scripts; ++i) {
        w.finish[i] = c.cfg[i];
        w.catches[i] = (c.cfg[Scripts] >> i) & 1;
        if (const int first = c.cfg[Scripts + 1 + i]; first < Gates) {
            w.scripts[i].push_back({StGate, first * Types});
        }
    }
    for (const auto &op : c.ops) {
        if (op.k == OpStep && w.scripts[op.a].size() < 6) {
            w.scripts[op.a].push_back({stepTable[op.b], op.c});
        }
    }
    const auto after = [&]() {
        vloop::drain();
        w.invariants();
    };
    for (const auto &op : c.ops) {
        int type = op.a % Types, s = (op.a / Types) % Slots;
        switch (op.k) {
        case OpStep:
            continue;
        case OpCreate:
            createAny(w, type, s, op.b);
            break;
        case OpObserve:
            w.occupied(type, s, 1);
            observeAny(w, type, s);
            break;
        case OpDrop:
            w.occupied(type, s, 1);
            dropAny(w, type, s);
            break;
        case OpOpen:
            PBT_LOG("open gate ", op.a);
            w.gates[op.a].open();
            break;
        case OpAdvance:
            vloop::advance(op.a * 10);
            break;
        case OpThen: {
            w.occupied(type, s, 1);
            const int pred = w.ghost[type][s];
            // only tasks that nobody else is going to consume
            if (pred < 0 || w.nodes[pred].consumed) {
                continue;
            }
            const int n = w.newNode(0);
            if (n < 0) {
                continue;
            }
            auto &nd = w.nodes[n];
            nd.pred = pred;
            nd.cbKind = op.b % 3;
            nd.cbOutcome = (op.b / 3) % 4;
            nd.err = (op.b / 12) % 2;
            nd.cbGate = op.c % (Gates + 1);
            const int dst = op.c / (Gates + 1);
            const bool takes = (op.b / 24) % 2;
            const bool rvalue = (op.b / 48) % 2;
            if (nd.cbKind != 2 && ((!rvalue && type == 0 && dst == s) || w.pinned(w.ghost[0][dst]))) {
                // would destroy the predecessor while it is referred to
                w.nodes.pop_back();
                continue;
            }
            if (rvalue && w.pinned(pred)) {
                w.nodes.pop_back();
                continue;
            }
            nd.byRef = !rvalue;
            w.nodes[pred].chained = true;
            ++w.links;
            PBT_LOG("#", n, ": then() on #", pred, " callback kind ", nd.cbKind, " outcome ", nd.cbOutcome, " error callback ", nd.err, " gate ",
                    nd.cbGate, rvalue ? " (rvalue)" : " (lvalue)");
            switch (type) {
            case 0: takes ? attachKind<int, true>(w, s, dst, n, rvalue) : attachKind<int, false>(w, s, dst, n, rvalue); break;
            case 1: attachKind<void, false>(w, s, dst, n, rvalue); break;
            default: takes ? attachKind<Tracked, true>(w, s, dst, n, rvalue) : attachKind<Tracked, false>(w, s, dst, n, rvalue); break;
            }
            break;
        }
        case OpObserveEager:
            observeEager<int>(w, op.a);
            break;
        default:
            break;
        }
        after();
        if (run.failed()) {
            return;
        }
    }
    for (auto &g : w.gates) {
        g.open();
    }
    vloop::settle();
    after();
    for (int i = 0; i < Types * Slots * 8; ++i) { // continuations go before what they refer to
        dropAny(w, i / Slots % Types, i % Slots);
    }
    for (int s = 0; s < Slots; ++s) {
        w.eagers[s] = QCoro::Task<int>{};
        w.unref(w.ghostEager[s]);
        w.ghostEager[s] = -1;
    }
    vloop::settle();
    after();
    bool stuck = w.emptyAwaits > 0;
    for (std::size_t i = 0; i < w.nodes.size(); ++i) {
        const auto &nd = w.nodes[i];
        if (nd.started && !nd.finished) {
            stuck = true;
            PBT_CHECK(nd.wait == Node::OnNode || nd.wait == Node::Forever, "coroutine #", i, " never finished although nothing holds it up");
        }
    }
    if (w.neverStarted) {
        run.tag("never-awaited");
    }
    if (w.suspended) {
        run.tag("suspended-await");
    }
    if (w.multi) {
        run.tag("several-awaiters");
    }
    if (w.concurrent) {
        run.tag("awaited-again-while-running");
    }
    if (w.errors) {
        run.tag("exception-delivered");
    }
    if (w.links) {
        run.tag("continuation");
    }
    if (w.emptyAwaits) {
        run.tag("awaited-empty");
    }
    if (w.suspended && (w.neverStarted || w.multi || w.errors || w.links)) {
        run.nontrivial();
    }
    if (!stuck) {
        PBT_CHECK(Tracked::total() == 0, Tracked::total(), " objects leaked");
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "programs";
    sc.rule = "generated programs of lazy coroutines which are created, awaited (once, repeatedly, while running), discarded and "
              "chained with then() to plain, lazy and eager continuations; non-trivial when an await really suspended and a task "
              "was also discarded, awaited repeatedly, failed or chained";
    for (int i = 0; i < Scripts; ++i) {
        static const char *n[] = {"finish0", "finish1", "finish2", "finish3"};
        sc.cfg.push_back({n[i], 3});
    }
    sc.cfg.push_back({"catch", (1 << Scripts) - 1});
    for (int i = 0; i < Scripts; ++i) {
        static const char *n[] = {"first0", "first1", "first2", "first3"};
        sc.cfg.push_back({n[i], Gates + 1});
    }
    sc.ops = {{"step", 9, Scripts - 1, StepChoices - 1, Types * Slots * Scripts - 1},
              {"create", 8, Types * Slots - 1, Scripts - 1},
              {"observe", 6, Types * Slots - 1},
              {"drop", 2, Types * Slots - 1},
              {"open", 3, Gates - 1},
              {"advance", 2, 3},
              {"then", 4, Types * Slots - 1, 95, (Gates + 1) * Slots - 1},
              {"observeEager", 1, Slots - 1}};
    sc.maxOps = 40;
    sc.minOps = 4;
    sc.quickCases = 160000;
    sc.thoroughCases = 1280000;
    sc.run = run;
    return pbt::main(argc, argv, "C07", {sc});
}
