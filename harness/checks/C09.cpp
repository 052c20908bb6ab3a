// C09: an AsyncGenerator yields exactly its sequence, suspending only its consumer.
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcoroasyncgenerator.h>
#include <qcorolazytask.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>

#include <array>
#include <deque>
#include <memory>
#include <optional>

using namespace pbt;

namespace {

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};
struct ErrorOdd {
    explicit ErrorOdd(int id) : t(id) {}
    Tracked t;
};

constexpr int Types = 6;
constexpr int Slots = 3;
constexpr int Scripts = 4;
constexpr int Gates = 4;
constexpr int MaxNodes = 40;
constexpr int MaxDepth = 3;

enum StepKind { StTemp, StLocal, StRepeat, StInner, StInnerPart, StThrow, StThrowOdd, StReturn, StForever, StDiscard, StGate, StSleep, StTask, StLazy };
const StepKind stepTable[] = {StTemp, StLocal, StGate, StTemp, StSleep, StRepeat, StInner, StTask, StLocal, StGate, StThrow, StReturn,
                              StForever, StInnerPart, StTemp, StThrowOdd, StDiscard, StLazy, StSleep, StTemp};
constexpr int StepChoices = sizeof(stepTable) / sizeof(stepTable[0]);
struct Step {
    StepKind kind;
    int arg;
};

enum State { NotStarted, Running, AtYield, Finished, Failed };

struct Node {
    int type = 0;
    int script = 0;
    int depth = 0;
    State state = NotStarted;
    int yields = 0;
    int yieldedId = 0;
    const void *address = nullptr;
    int errorId = 0;
    bool odd = false;
    bool alive = true;
    bool asked = false; // a consumer is waiting for the next value
    enum Wait { None, OnGate, OnSleep, OnTask, OnInner } wait = None;
    int target = -1;
    bool busy = false; // some consumer is in the middle of a loop
};

struct Consumer {
    int node = -1;     // waiting for that generator's next value
    int gate = -1;     // doing something else
    bool done = false;
};

int argId(int n) { return 1000 + n; }
int localId(int n) { return 2000 + n; }
int errId(int n) { return 3000 + n; }
int valueId(int n, int k) { return 10000 + n * 100 + k % 100; }

template<int T>
struct TypeOf;
template<> struct TypeOf<0> { using G = int; };
template<> struct TypeOf<1> { using G = Tracked; };
template<> struct TypeOf<2> { using G = const Tracked; };
template<> struct TypeOf<3> { using G = Tracked &; };
template<> struct TypeOf<4> { using G = std::unique_ptr<Tracked>; };
template<> struct TypeOf<5> { using G = const Tracked &; };
template<int T>
using Gen = QCoro::AsyncGenerator<typename TypeOf<T>::G>;
template<int T>
using It = typename Gen<T>::iterator;
template<int T>
using Val = std::remove_cvref_t<typename TypeOf<T>::G>;

template<int T>
Val<T> make(int id) {
    if constexpr (T == 0) {
        return id;
    } else if constexpr (T == 4) {
        return std::make_unique<Tracked>(id);
    } else {
        return Tracked(id);
    }
}
int idOf(const int &v) { return v; }
int idOf(const Tracked &v) { return v.id(); }
int idOf(const std::unique_ptr<Tracked> &v) { return v ? v->id() : -2; }

template<int T>
struct Entry {
    std::optional<Gen<T>> gen;
    std::optional<It<T>> it;
    int node = -1;
    bool begun = false;
};

struct World {
    std::array<std::vector<Step>, Scripts> scripts;
    int catches = 0;
    std::deque<Node> nodes;
    std::deque<Consumer> consumers;
    std::array<Gate, Gates> gates;
    std::tuple<std::array<Entry<0>, Slots>, std::array<Entry<1>, Slots>, std::array<Entry<2>, Slots>, std::array<Entry<3>, Slots>,
               std::array<Entry<4>, Slots>, std::array<Entry<5>, Slots>>
        entries;
    int values = 0, errors = 0, ends = 0, early = 0, nested = 0, modified = 0, overwritten = 0, neverBegun = 0, suspended = 0, foreachs = 0;

    int newNode(int type, int script, int depth) {
        if (nodes.size() >= MaxNodes) {
            return -1;
        }
        nodes.emplace_back();
        nodes.back().type = type;
        nodes.back().script = script;
        nodes.back().depth = depth;
        return static_cast<int>(nodes.size()) - 1;
    }
    void ran(int n, const char *what) {
        PBT_CHECK(nodes[n].asked, "generator #", n, " ", what, " although nobody asked it for a value");
    }
    void ended(int n) {
        nodes[n].alive = false;
        early += nodes[n].state == AtYield;
        neverBegun += nodes[n].state == NotStarted;
    }

    void ask(int n, Consumer *c) {
        PBT_LOG("#", n, " is asked for a value");
        nodes[n].asked = true;
        if (c) {
            c->node = n;
        }
    }
    //! Checks the answer a consumer of n got
    template<int T>
    bool answered(int n, int yields, bool threw, const std::optional<It<T>> &it, Gen<T> &gen) {
        auto &nd = nodes[n];
        PBT_CHECK(nd.asked, "a consumer of #", n, " was resumed twice");
        nd.asked = false;
        PBT_LOG("answer of #", n, ": state ", int(nd.state), " value ", nd.yieldedId);
        PBT_CHECK(nd.state == AtYield || nd.state == Finished || nd.state == Failed, "the consumer of #", n,
                  " was resumed although it neither yielded nor finished");
        PBT_CHECK(threw == (nd.state == Failed), "generator #", n, threw ? " threw although it did not fail" : " lost its exception");
        PBT_CHECK(nd.yields == yields + (nd.state == AtYield), "generator #", n, " produced ", nd.yields - yields, " values at once");
        if (nd.state == AtYield) {
            PBT_CHECK(it && *it != gen.end() && !(*it == gen.end()), "generator #", n, " yielded a value but its iterator is at the end");
            if (it && *it != gen.end()) {
                PBT_CHECK(idOf(**it) == nd.yieldedId, "generator #", n, " yielded ", nd.yieldedId, " but the iterator shows ", idOf(**it));
                PBT_CHECK(idOf(**it) == nd.yieldedId, "reading the current value changed it");
                PBT_CHECK(!nd.address || std::addressof(**it) == nd.address, "the iterator does not refer to the yielded object");
            }
            ++values;
            return !pbt::current->failed();
        }
        errors += nd.state == Failed;
        ends += nd.state == Finished;
        if (it) { // not when begin() threw
            PBT_CHECK(*it == gen.end() && !(*it != gen.end()), "generator #", n, " finished but its iterator is not at the end");
        }
        return false;
    }
    void failedWith(int n, bool odd, int id) {
        const auto &nd = nodes[n];
        PBT_CHECK(nd.state == Failed && nd.odd == odd && nd.errorId == id, "generator #", n, " threw the wrong exception");
    }

    void invariants() {
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            const int n = static_cast<int>(i);
            const auto &nd = nodes[i];
            PBT_CHECK(Tracked::liveOf(argId(n)) == nd.alive, "argument of generator #", n, " has ", Tracked::liveOf(argId(n)),
                      " live instances although its AsyncGenerator ", nd.alive ? "exists" : "is gone");
            const bool inside = nd.alive && (nd.state == AtYield || nd.state == Running);
            PBT_CHECK(Tracked::liveOf(localId(n)) == inside, "local of generator #", n, " has ", Tracked::liveOf(localId(n)), " live instances");
            if (nd.asked) {
                PBT_CHECK(nd.state == Running, "generator #", n,
                          nd.state == NotStarted ? " was asked for a value but did not start" : " has an answer but its consumer was not resumed");
                PBT_CHECK(nd.wait != Node::None, "generator #", n, " stopped in the middle");
                PBT_CHECK(nd.wait != Node::OnGate || !gates[nd.target].isOpen(), "generator #", n, " was not resumed");
                PBT_CHECK(nd.wait != Node::OnInner || nodes[nd.target].asked, "generator #", n, " was not resumed by #", nd.target);
            } else {
                PBT_CHECK(nd.state != Running, "generator #", n, " runs although nobody asked it for a value");
            }
        }
        for (const auto &c : consumers) {
            PBT_CHECK(c.done || (c.node >= 0 && nodes[c.node].asked) || (c.gate >= 0 && !gates[c.gate].isOpen()), "a consumer was not resumed");
        }
    }
};

template<int T>
Gen<T> body(World &w, int n, Tracked arg);
template<int T>
Gen<T> call(World &w, int n) {
    return body<T>(w, n, Tracked(argId(n)));
}

//! Asks generator c_ for its next value (or the first one), and checks what it answered.
#define ASK(c_, gen_, it_, first_, error_, more_)                                                                     \
    do {                                                                                                              \
        const int k_yields = w.nodes[c_].yields;                                                                      \
        bool k_threw = false;                                                                                         \
        w.nodes[c_].asked = true;                                                                                     \
        try {                                                                                                         \
            if (first_) {                                                                                             \
                it_.emplace(co_await gen_.begin());                                                                   \
            } else {                                                                                                  \
                auto &k_same = co_await ++*it_;                                                                       \
                PBT_CHECK(k_same == *it_, "++ returned something else than the advanced iterator");                   \
            }                                                                                                         \
        } catch (const ErrorStd &e) {                                                                                 \
            k_threw = true;                                                                                           \
            w.failedWith(c_, false, e.t.id());                                                                        \
            error_ = std::current_exception();                                                                        \
        } catch (const ErrorOdd &e) {                                                                                 \
            k_threw = true;                                                                                           \
            w.failedWith(c_, true, e.t.id());                                                                         \
            error_ = std::current_exception();                                                                        \
        }                                                                                                             \
        more_ = w.answered<T>(c_, k_yields, k_threw, it_, gen_);                                                      \
    } while (false)

#define YIELD(EXPR, ADDR)                                                                                             \
    do {                                                                                                              \
        auto &y_nd = w.nodes[n];                                                                                      \
        y_nd.yieldedId = valueId(n, ++y_nd.yields);                                                                   \
        y_nd.address = ADDR;                                                                                          \
        y_nd.state = AtYield;                                                                                         \
        co_yield EXPR;                                                                                                \
        w.ran(n, "continued");                                                                                        \
        PBT_CHECK(y_nd.state == AtYield, "generator #", n, " continued twice");                                       \
        y_nd.state = Running;                                                                                         \
    } while (false)

#define WAIT(KIND, TARGET, EXPR)                                                                                      \
    do {                                                                                                              \
        nd.wait = Node::KIND;                                                                                         \
        nd.target = TARGET;                                                                                           \
        EXPR;                                                                                                         \
        w.ran(n, "continued");                                                                                        \
        PBT_CHECK(nd.wait == Node::KIND && nd.target == (TARGET), "generator #", n, " was resumed while it waits for something else"); \
        nd.wait = Node::None;                                                                                         \
    } while (false)

QCoro::Task<Tracked> helper(World &w, int g, int id, bool fails) {
    co_await w.gates[g];
    if (fails) {
        throw ErrorStd(id);
    }
    co_return Tracked(id);
}
QCoro::LazyTask<Tracked> lazyHelper(World &w, int g, int id) {
    co_await w.gates[g];
    co_return Tracked(id);
}

struct Ended {
    World &w;
    int n;
    ~Ended() { w.ended(n); }
};

template<int T>
Gen<T> body(World &w, int n, Tracked arg) {
    w.ran(n, "started");
    auto &nd = w.nodes[n];
    PBT_CHECK(nd.state == NotStarted, "generator #", n, " started twice");
    nd.state = Running;
    Tracked local(localId(n));
    const auto fail = [&](int id, bool odd) {
        nd.state = Failed;
        nd.errorId = id;
        nd.odd = odd;
    };
    for (const Step st : w.scripts[nd.script]) {
        PBT_CHECK(arg.id() == argId(n) && local.id() == localId(n), "state of generator #", n, " is corrupted");
        const int g = st.arg % Gates;
        switch (st.kind) {
        case StTemp:
            YIELD(make<T>(nd.yieldedId), nullptr);
            break;
        case StLocal: {
            auto v = make<T>(valueId(n, nd.yields + 1));
            YIELD(v, std::addressof(v));
            // consumers may change what they are given a non-const reference to
            PBT_CHECK(idOf(v) == nd.yieldedId, "the consumer's change of a yielded lvalue did not reach generator #", n);
            break;
        }
        case StRepeat:
            for (int i = 0; i < st.arg % 5; ++i) {
                YIELD(make<T>(nd.yieldedId), nullptr);
            }
            break;
        case StForever:
            if (st.arg % 3 == 0) {
                while (true) {
                    YIELD(make<T>(nd.yieldedId), nullptr);
                }
            }
            break;
        case StGate:
            w.suspended += !w.gates[g].isOpen();
            WAIT(OnGate, g, co_await w.gates[g]);
            break;
        case StSleep: {
            const auto due = vloop::now() + g * 10;
            ++w.suspended;
            WAIT(OnSleep, g, co_await QCoro::sleepFor(std::chrono::milliseconds(g * 10)));
            PBT_CHECK(vloop::now() >= due, "generator #", n, " slept too short");
            break;
        }
        case StTask: {
            const bool fails = (st.arg / Gates) % 3 == 0;
            w.suspended += !w.gates[g].isOpen();
            std::exception_ptr error;
            try {
                std::optional<Tracked> r;
                WAIT(OnGate, g, r.emplace(co_await helper(w, g, errId(n), fails)));
                PBT_CHECK(!fails && r->id() == errId(n) && !r->movedFrom(), "wrong result of a task awaited by generator #", n);
            } catch (const ErrorStd &e) {
                nd.wait = Node::None;
                PBT_CHECK(fails && e.t.id() == errId(n), "wrong exception of a task awaited by generator #", n);
                error = std::current_exception();
            }
            if (error && ((w.catches >> nd.script) & 1) == 0) {
                fail(errId(n), false);
                std::rethrow_exception(error);
            }
            break;
        }
        case StLazy: {
            std::optional<Tracked> r;
            WAIT(OnGate, g, r.emplace(co_await lazyHelper(w, g, errId(n))));
            PBT_CHECK(r->id() == errId(n), "wrong result of a lazy task awaited by generator #", n);
            break;
        }
        case StDiscard: {
            const int c = nd.depth < MaxDepth ? w.newNode(T, st.arg % Scripts, nd.depth + 1) : -1;
            if (c >= 0) {
                { auto unused = call<T>(w, c); }
                w.ended(c);
            }
            break;
        }
        case StInner:
        case StInnerPart: {
            const int c = nd.depth < MaxDepth ? w.newNode(T, st.arg % Scripts, nd.depth + 1) : -1;
            if (c < 0) {
                break;
            }
            ++w.nested;
            int left = st.kind == StInnerPart ? st.arg / Scripts : 50;
            Ended ended{w, c};
            auto inner = call<T>(w, c);
            std::optional<It<T>> it;
            std::exception_ptr error;
            for (bool first = true, more = true; left > 0; --left, first = false) {
                WAIT(OnInner, c, ASK(c, inner, it, first, error, more));
                if (!more) {
                    break;
                }
                YIELD(make<T>(nd.yieldedId), nullptr);
            }
            if (error && ((w.catches >> nd.script) & 1) == 0) {
                fail(w.nodes[c].errorId, w.nodes[c].odd);
                std::rethrow_exception(error);
            }
            break;
        }
        case StThrow:
            if (st.arg % 2) {
                fail(errId(n), false);
                throw ErrorStd(errId(n));
            }
            break;
        case StThrowOdd:
            if (st.arg % 2) {
                fail(errId(n), true);
                throw ErrorOdd(errId(n));
            }
            break;
        case StReturn:
            if (st.arg % 3 == 0) {
                nd.state = Finished;
                co_return;
            }
            break;
        }
    }
    nd.state = Finished;
}

// ---- consumers --------------------------------------------------------------------------------------------------------
#define CONSUMER_GATE                                                                                                 \
    do {                                                                                                              \
        if (gate < Gates) {                                                                                           \
            c.node = -1;                                                                                              \
            c.gate = gate;                                                                                            \
            co_await w.gates[gate];                                                                                   \
            PBT_CHECK(c.gate == gate, "a consumer was resumed by something it does not wait for");                    \
            c.gate = -1;                                                                                              \
        }                                                                                                             \
    } while (false)

//! Takes up to count values with begin() and ++; the rest can be taken later
template<int T>
QCoro::Task<> stepper(World &w, int s, int count, int gate) {
    auto &e = std::get<T>(w.entries)[s];
    w.consumers.emplace_back();
    auto &c = w.consumers.back();
    const int n = e.node;
    w.nodes[n].busy = true;
    std::exception_ptr error;
    bool more = true;
    for (int i = 0; i < count && more; ++i) {
        if (i > 0) {
            CONSUMER_GATE;
        }
        const bool first = !e.begun;
        e.begun = true;
        c.node = n;
        ASK(n, (*e.gen), e.it, first, error, more);
        c.node = -1;
    }
    w.nodes[n].busy = false;
    c.done = true;
}

#define LOOP(GENERATOR)                                                                                               \
    do {                                                                                                              \
        int l_yields = w.nodes[n].yields;                                                                             \
        int l_count = 0;                                                                                              \
        bool l_broke = false, l_threw = false;                                                                        \
        w.nodes[n].asked = true;                                                                                      \
        c.node = n;                                                                                                   \
        try {                                                                                                         \
            QCORO_FOREACH(auto &&v, GENERATOR) {                                                                      \
                auto &l_nd = w.nodes[n];                                                                              \
                PBT_CHECK(l_nd.asked, "a consumer of #", n, " was resumed twice");                                    \
                l_nd.asked = false;                                                                                   \
                ++w.values;                                                                                           \
                PBT_CHECK(l_nd.state == AtYield && l_nd.yields == l_yields + 1, "QCORO_FOREACH skipped or repeated a value of #", n); \
                PBT_CHECK(idOf(v) == l_nd.yieldedId, "QCORO_FOREACH shows ", idOf(v), " instead of ", l_nd.yieldedId); \
                l_yields = l_nd.yields;                                                                               \
                CONSUMER_GATE;                                                                                        \
                if (++l_count > count || pbt::current->failed()) {                                                    \
                    l_broke = true;                                                                                   \
                    break;                                                                                            \
                }                                                                                                     \
                l_nd.asked = true;                                                                                    \
                c.node = n;                                                                                           \
            }                                                                                                         \
        } catch (const ErrorStd &ex) {                                                                                \
            l_threw = true;                                                                                           \
            w.failedWith(n, false, ex.t.id());                                                                        \
        } catch (const ErrorOdd &ex) {                                                                                \
            l_threw = true;                                                                                           \
            w.failedWith(n, true, ex.t.id());                                                                         \
        }                                                                                                             \
        c.node = -1;                                                                                                  \
        if (!l_broke) {                                                                                               \
            w.nodes[n].asked = false;                                                                                 \
            const auto l_state = w.nodes[n].state;                                                                    \
            PBT_CHECK(l_state == (l_threw ? Failed : Finished), "QCORO_FOREACH over #", n, " ended in state ", int(l_state)); \
            w.errors += l_threw;                                                                                      \
            w.ends += !l_threw;                                                                                       \
        }                                                                                                             \
    } while (false)

#define TYPE 0
#include "C09_loops.inc"
#undef TYPE
#define TYPE 1
#include "C09_loops.inc"
#undef TYPE
#define TYPE 2
#include "C09_loops.inc"
#undef TYPE
#define TYPE 3
#include "C09_loops.inc"
#undef TYPE
#define TYPE 4
#include "C09_loops.inc"
#undef TYPE
#define TYPE 5
#include "C09_loops.inc"
#undef TYPE

template<int T>
bool usable(World &w, Entry<T> &e) {
    return e.node < 0 || !w.nodes[e.node].busy;
}
template<int T>
void clear(World &w, Entry<T> &e) {
    if (e.node >= 0) {
        w.ended(e.node);
    }
    e.node = -1;
    e.begun = false;
    e.it.reset();
}

template<int T>
void create(World &w, int s, int script) {
    auto &e = std::get<T>(w.entries)[s];
    const int n = usable(w, e) ? w.newNode(T, script, 0) : -1;
    if (n < 0) {
        return;
    }
    PBT_LOG("create #", n, " (script ", script, ") in slot ", T, "/", s, e.gen ? ", overwriting" : "");
    w.overwritten += e.gen && e.node >= 0;
    if (e.gen) {
        *e.gen = call<T>(w, n);
    } else {
        e.gen.emplace(call<T>(w, n));
    }
    clear(w, e);
    e.node = n;
}

template<int T>
void consume(World &w, int s, int count, int how) {
    auto &e = std::get<T>(w.entries)[s];
    const int gate = how / 2;
    if (e.node < 0 || !usable(w, e)) {
        return;
    }
    const auto state = w.nodes[e.node].state;
    if (state == Finished || state == Failed) {
        return;
    }
    if (how % 2 && !e.begun) {
        PBT_LOG("foreach over #", e.node);
        looper(w, s, count, gate, std::integral_constant<int, T>{});
    } else if (!e.begun || e.it) {
        PBT_LOG("take ", count, " values of #", e.node);
        stepper<T>(w, s, count, gate);
    }
}

template<int T>
void drop(World &w, int s) {
    auto &e = std::get<T>(w.entries)[s];
    if (usable(w, e)) {
        PBT_LOG("drop slot ", T, "/", s, " (#", e.node, ")");
        e.gen.reset();
        clear(w, e);
    }
}

template<int T>
void move(World &w, int s, int d, int how) {
    auto &es = std::get<T>(w.entries)[s];
    auto &ed = std::get<T>(w.entries)[d];
    if (!es.gen || !usable(w, es) || !usable(w, ed)) {
        return;
    }
    PBT_LOG("move slot ", T, "/", s, " (#", es.node, ") to ", d, " (#", ed.node, ")");
    if (how == 3) {
        if (ed.gen) {
            using std::swap;
            swap(*es.gen, *ed.gen);
            if (s != d) {
                std::swap(es.node, ed.node);
                std::swap(es.begun, ed.begun);
                std::swap(es.it, ed.it);
            }
        }
        return;
    }
    if (s == d) {
        auto &alias = *ed.gen;
        *es.gen = std::move(alias);
        // either nothing happened, or the coroutine is gone
        if (es.node >= 0 && Tracked::liveOf(argId(es.node)) == 0) {
            clear(w, es);
        }
        return;
    }
    w.overwritten += ed.node >= 0;
    if (ed.gen && how) {
        *ed.gen = std::move(*es.gen);
    } else {
        ed.gen.reset();
        ed.gen.emplace(std::move(*es.gen));
    }
    clear(w, ed);
    ed.node = es.node;
    ed.begun = es.begun;
    ed.it = es.it;
    es.node = -1;
    es.begun = false;
    es.it.reset();
    if (how == 2) {
        es.gen.reset();
    }
}

template<int T>
void modify(World &w, int s, int how) {
    auto &e = std::get<T>(w.entries)[s];
    if (e.node < 0 || !e.it || !usable(w, e) || w.nodes[e.node].state != AtYield) {
        return;
    }
    auto &nd = w.nodes[e.node];
    PBT_LOG("modify the value of #", e.node);
    if constexpr (!std::is_const_v<std::remove_reference_t<typename TypeOf<T>::G>>) {
        ++w.modified;
        if (how) {
            auto taken = std::move(**e.it);
            PBT_CHECK(idOf(taken) == nd.yieldedId, "taking the current value yielded something else");
            if constexpr (T == 4) {
                nd.yieldedId = -2;
            }
        } else {
            nd.yieldedId = 900000 + e.node * 100 + nd.yields % 100;
            **e.it = make<T>(nd.yieldedId);
        }
    }
    PBT_CHECK(idOf(**e.it) == nd.yieldedId, "the current value changed on its own");
}

enum { OpStep, OpCreate, OpConsume, OpMove, OpDrop, OpModify, OpTemp, OpEmpty, OpOpen, OpAdvance };

template<int T>
void apply(World &w, const Op &op) {
    const int s = op.a / Types;
    switch (op.k) {
    case OpCreate: create<T>(w, s, op.b); break;
    case OpConsume: consume<T>(w, s, op.b, op.c); break;
    case OpMove: move<T>(w, s, op.b, op.c); break;
    case OpDrop: drop<T>(w, s); break;
    case OpModify: modify<T>(w, s, op.b); break;
    case OpTemp: tempLooper(w, op.b % Scripts, op.b / Scripts, op.c, std::integral_constant<int, T>{}); break;
    case OpEmpty: emptyConsumer(w, s, std::integral_constant<int, T>{}); break;
    default: break;
    }
}
void applyAny(World &w, const Op &op) {
    switch (op.a % Types) {
    case 0: apply<0>(w, op); break;
    case 1: apply<1>(w, op); break;
    case 2: apply<2>(w, op); break;
    case 3: apply<3>(w, op); break;
    case 4: apply<4>(w, op); break;
    default: apply<5>(w, op); break;
    }
}
bool occupied(World &w, int k) {
    const int s = k / Types;
    switch (k % Types) {
    case 0: return std::get<0>(w.entries)[s].node >= 0;
    case 1: return std::get<1>(w.entries)[s].node >= 0;
    case 2: return std::get<2>(w.entries)[s].node >= 0;
    case 3: return std::get<3>(w.entries)[s].node >= 0;
    case 4: return std::get<4>(w.entries)[s].node >= 0;
    default: return std::get<5>(w.entries)[s].node >= 0;
    }
}

void run(const Case &c, Run &run) {
    Tracked::reset();
    auto *wp = new World; // leaked when the run fails, coroutines may refer to it
    World &w = *wp;
    w.catches = c.cfg[0];
    for (const auto &op : c.ops) {
        if (op.k == OpStep && w.scripts[op.a].size() < 7) {
            w.scripts[op.a].push_back({stepTable[op.b], op.c});
        }
    }
    for (auto op : c.ops) {
        if (op.k == OpStep) {
            continue;
        }
        if (op.k == OpOpen) {
            PBT_LOG("open gate ", op.a);
            w.gates[op.a].pulse();
        } else if (op.k == OpAdvance) {
            vloop::advance(op.a * 10);
        } else {
            if (op.k != OpCreate && op.k != OpTemp && op.k != OpEmpty) { // aim at a slot that is in use
                for (int i = 0; i < Types * Slots; ++i) {
                    if (occupied(w, (op.a + i) % (Types * Slots))) {
                        op.a = (op.a + i) % (Types * Slots);
                        break;
                    }
                }
            }
            applyAny(w, op);
        }
        vloop::drain();
        w.invariants();
        if (run.failed()) {
            return;
        }
    }
    for (auto &g : w.gates) {
        g.open();
    }
    vloop::settle();
    w.invariants();
    for (const auto &cs : w.consumers) {
        PBT_CHECK(cs.done, "a consumer never finished although nothing holds up its generator");
    }
    if (run.failed()) {
        return;
    }
    for (int k = 0; k < Types * Slots; ++k) {
        applyAny(w, Op{OpDrop, k});
    }
    vloop::settle();
    w.invariants();
    PBT_CHECK(Tracked::total() == 0, Tracked::total(), " objects leaked");
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.values > 3, "several-values");
    tag(w.errors, "exception");
    tag(w.ends, "ran-to-the-end");
    tag(w.early, "stopped-early");
    tag(w.neverBegun, "never-begun");
    tag(w.nested, "nested");
    tag(w.modified, "modified");
    tag(w.overwritten, "overwritten");
    tag(w.suspended, "producer-suspended");
    tag(w.foreachs, "foreach");
    if (w.values > 1 && w.suspended && (w.early || w.errors || w.nested || w.ends)) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "generators";
    sc.rule = "generated programs of asynchronous generators of six element types, some nested in each other, and histories of "
              "consuming (by ++ or QCORO_FOREACH), reading, changing, moving, swapping, overwriting and dropping them; non-trivial when "
              "several values were read, a producer was suspended, and a generator was stopped early, failed, nested or ended";
    sc.cfg = {{"catch", (1 << Scripts) - 1}};
    sc.ops = {{"step", 12, Scripts - 1, StepChoices - 1, Scripts * 5 - 1},
              {"create", 6, Types * Slots - 1, Scripts - 1},
              {"consume", 12, Types * Slots - 1, 4, (Gates + 1) * 2 - 1},
              {"move", 4, Types * Slots - 1, Slots - 1, 3},
              {"drop", 2, Types * Slots - 1},
              {"modify", 3, Types * Slots - 1, 1},
              {"foreachTemp", 2, Types - 1, Scripts * 4 - 1, Gates},
              {"empty", 1, Types * 2 - 1},
              {"open", 4, Gates - 1},
              {"advance", 3, 3}};
    sc.maxOps = 45;
    sc.minOps = 4;
    sc.quickCases = 300000;
    sc.thoroughCases = 2400000;
    sc.run = run;
    return pbt::main(argc, argv, "C09", {sc});
}
