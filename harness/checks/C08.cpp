// C08: a Generator yields exactly its sequence and owns its coroutine.
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorogenerator.h>

#include <QCoreApplication>

#include <array>
#include <deque>
#include <memory>
#include <optional>

using namespace pbt;

namespace {

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};
struct ErrorOdd {
    explicit ErrorOdd(int id) : t(id) {}
    Tracked t;
};

constexpr int Types = 6;
constexpr int Slots = 3;
constexpr int Scripts = 4;
constexpr int MaxNodes = 60;
constexpr int MaxDepth = 3;

enum StepKind { StTemp, StLocal, StRepeat, StInner, StInnerPart, StThrow, StThrowOdd, StReturn, StForever, StDiscard };
const StepKind stepTable[] = {StTemp, StLocal, StTemp, StRepeat, StLocal, StInner, StInnerPart, StThrow, StReturn, StForever, StTemp, StThrowOdd, StDiscard};
constexpr int StepChoices = sizeof(stepTable) / sizeof(stepTable[0]);
struct Step {
    StepKind kind;
    int arg;
};

enum State { NotStarted, Running, AtYield, Finished, Failed };

struct Node {
    int type = 0;
    int script = 0;
    int depth = 0;
    State state = NotStarted;
    int yields = 0;
    int yieldedId = 0;          // value at the current yield
    const void *address = nullptr; // of the yielded lvalue
    int errorId = 0;
    bool odd = false;
    bool alive = true; // the object owning it still exists
};

int argId(int n) { return 1000 + n; }
int localId(int n) { return 2000 + n; }
int errId(int n) { return 3000 + n; }
int valueId(int n, int k) { return 10000 + n * 100 + k % 100; }

template<int T>
struct TypeOf;
template<> struct TypeOf<0> { using G = int; };
template<> struct TypeOf<1> { using G = Tracked; };
template<> struct TypeOf<2> { using G = const Tracked; };
template<> struct TypeOf<3> { using G = Tracked &; };
template<> struct TypeOf<4> { using G = std::unique_ptr<Tracked>; };
template<> struct TypeOf<5> { using G = const Tracked &; };
template<int T>
using Gen = QCoro::Generator<typename TypeOf<T>::G>;
template<int T>
using It = typename Gen<T>::iterator;
template<int T>
using Val = std::remove_cvref_t<typename TypeOf<T>::G>;

template<int T>
Val<T> make(int id) {
    if constexpr (T == 0) {
        return id;
    } else if constexpr (T == 4) {
        return std::make_unique<Tracked>(id);
    } else {
        return Tracked(id);
    }
}
int idOf(const int &v) { return v; }
int idOf(const Tracked &v) { return v.id(); }
int idOf(const std::unique_ptr<Tracked> &v) { return v ? v->id() : -2; }

template<int T>
struct Entry {
    std::optional<Gen<T>> gen;
    std::optional<It<T>> it;
    int node = -1;
    bool begun = false;
};

struct World {
    std::array<std::vector<Step>, Scripts> scripts;
    int catches = 0;
    std::deque<Node> nodes;
    std::vector<int> active; // stack of coroutines that are entitled to run
    std::tuple<std::array<Entry<0>, Slots>, std::array<Entry<1>, Slots>, std::array<Entry<2>, Slots>, std::array<Entry<3>, Slots>,
               std::array<Entry<4>, Slots>, std::array<Entry<5>, Slots>>
        entries;
    int values = 0, errors = 0, ends = 0, early = 0, nested = 0, modified = 0, overwritten = 0, neverBegun = 0;

    int newNode(int type, int script, int depth) {
        if (nodes.size() >= MaxNodes) {
            return -1;
        }
        nodes.emplace_back();
        nodes.back().type = type;
        nodes.back().script = script;
        nodes.back().depth = depth;
        return static_cast<int>(nodes.size()) - 1;
    }
    void ran(int n, const char *what) {
        PBT_CHECK(!active.empty() && active.back() == n, "generator #", n, " ", what, " although nobody asked it for a value");
    }
    void ended(int n) {
        nodes[n].alive = false;
        early += nodes[n].state == AtYield;
        neverBegun += nodes[n].state == NotStarted;
    }
};

template<int T>
Gen<T> body(World &w, int n, Tracked arg);

//! Asks generator n for its next value (or the first one), and checks what it answered.
template<int T>
bool step(World &w, int n, Gen<T> &gen, std::optional<It<T>> &it, bool first, std::exception_ptr *error = nullptr) {
    auto &nd = w.nodes[n];
    const State before = nd.state;
    const int yields = nd.yields;
    w.active.push_back(n);
    bool threw = false;
    try {
        if (first) {
            it.emplace(gen.begin());
        } else {
            auto same = ++*it;
            PBT_CHECK(same == *it, "++ returned something else than the advanced iterator");
        }
    } catch (const ErrorStd &e) {
        threw = true;
        PBT_CHECK(nd.state == Failed && !nd.odd && e.t.id() == nd.errorId, "generator #", n, " threw the wrong exception");
        if (error) {
            *error = std::current_exception();
        }
    } catch (const ErrorOdd &e) {
        threw = true;
        PBT_CHECK(nd.state == Failed && nd.odd && e.t.id() == nd.errorId, "generator #", n, " threw the wrong exception");
        if (error) {
            *error = std::current_exception();
        }
    }
    w.active.pop_back();
    PBT_LOG(first ? "begin" : "next", " of #", n, ": state ", int(nd.state), " value ", nd.yieldedId);
    if (before == Finished || before == Failed) {
        PBT_CHECK(!threw && nd.state == before && nd.yields == yields, "a finished generator ran again");
        PBT_CHECK(*it == gen.end(), "an iterator past the end stopped being equal to end()");
        return false;
    }
    PBT_CHECK(threw == (nd.state == Failed), "generator #", n, threw ? " threw although it did not fail" : " lost its exception");
    PBT_CHECK(nd.yields == yields + (nd.state == AtYield), "generator #", n, " produced ", nd.yields - yields, " values at once");
    PBT_CHECK(nd.state == AtYield || nd.state == Finished || nd.state == Failed, "generator #", n, " did not run");
    if (nd.state == AtYield) {
        PBT_CHECK(it && *it != gen.end() && !(*it == gen.end()), "generator #", n, " yielded a value but its iterator is at the end");
        if (it && *it != gen.end()) {
            PBT_CHECK(idOf(**it) == nd.yieldedId, "generator #", n, " yielded ", nd.yieldedId, " but the iterator shows ", idOf(**it));
            PBT_CHECK(idOf(**it) == nd.yieldedId, "reading the current value changed it");
            PBT_CHECK(!nd.address || std::addressof(**it) == nd.address, "the iterator does not refer to the yielded object");
        }
        ++w.values;
        return true;
    }
    w.errors += nd.state == Failed;
    w.ends += nd.state == Finished;
    if (it) { // not when begin() threw
        PBT_CHECK(*it == gen.end() && !(*it != gen.end()), "generator #", n, " finished but its iterator is not at the end");
    }
    return false;
}

#define YIELD(EXPR, ADDR)                                                                                             \
    do {                                                                                                              \
        auto &y_nd = w.nodes[n];                                                                                      \
        y_nd.yieldedId = valueId(n, ++y_nd.yields);                                                                   \
        y_nd.address = ADDR;                                                                                          \
        y_nd.state = AtYield;                                                                                         \
        co_yield EXPR;                                                                                                \
        w.ran(n, "continued");                                                                                        \
        PBT_CHECK(y_nd.state == AtYield, "generator #", n, " continued twice");                                       \
        y_nd.state = Running;                                                                                         \
    } while (false)

template<int T>
Gen<T> body(World &w, int n, Tracked arg) {
    w.ran(n, "started");
    auto &nd = w.nodes[n];
    PBT_CHECK(nd.state == NotStarted, "generator #", n, " started twice");
    nd.state = Running;
    Tracked local(localId(n));
    const auto fail = [&](int id, bool odd) {
        nd.state = Failed;
        nd.errorId = id;
        nd.odd = odd;
    };
    for (const Step st : w.scripts[nd.script]) {
        PBT_CHECK(arg.id() == argId(n) && local.id() == localId(n), "state of generator #", n, " is corrupted");
        switch (st.kind) {
        case StTemp:
            YIELD(make<T>(nd.yieldedId), nullptr);
            break;
        case StLocal: {
            auto v = make<T>(valueId(n, nd.yields + 1));
            YIELD(v, std::addressof(v));
            // consumers may change what they are given a non-const reference to
            PBT_CHECK(idOf(v) == nd.yieldedId, "the consumer's change of a yielded lvalue did not reach generator #", n);
            break;
        }
        case StRepeat:
            for (int i = 0; i < st.arg % 5; ++i) {
                YIELD(make<T>(nd.yieldedId), nullptr);
            }
            break;
        case StForever:
            if (st.arg % 3 == 0) {
                while (true) {
                    YIELD(make<T>(nd.yieldedId), nullptr);
                }
            }
            break;
        case StDiscard: {
            const int c = nd.depth < MaxDepth ? w.newNode(T, st.arg % Scripts, nd.depth + 1) : -1;
            if (c >= 0) {
                body<T>(w, c, Tracked(argId(c)));
                w.ended(c);
            }
            break;
        }
        case StInner:
        case StInnerPart: {
            const int c = nd.depth < MaxDepth ? w.newNode(T, st.arg % Scripts, nd.depth + 1) : -1;
            if (c < 0) {
                break;
            }
            ++w.nested;
            int left = st.kind == StInnerPart ? st.arg / Scripts : 50;
            auto inner = body<T>(w, c, Tracked(argId(c)));
            struct Ended {
                World &w;
                int n;
                ~Ended() { w.ended(n); }
            } ended{w, c};
            std::optional<It<T>> it;
            std::exception_ptr error;
            for (bool first = true; left > 0; --left, first = false) {
                if (!step<T>(w, c, inner, it, first, &error)) {
                    break;
                }
                YIELD(make<T>(nd.yieldedId), nullptr);
            }
            if (error && ((w.catches >> nd.script) & 1) == 0) {
                fail(w.nodes[c].errorId, w.nodes[c].odd);
                std::rethrow_exception(error);
            }
            break;
        }
        case StThrow:
            if (st.arg % 2) {
                fail(errId(n), false);
                throw ErrorStd(errId(n));
            }
            break;
        case StThrowOdd:
            if (st.arg % 2) {
                fail(errId(n), true);
                throw ErrorOdd(errId(n));
            }
            break;
        case StReturn:
            if (st.arg % 3 == 0) {
                nd.state = Finished;
                co_return;
            }
            break;
        }
    }
    nd.state = Finished;
}

template<int T>
void clear(World &w, Entry<T> &e) {
    if (e.node >= 0) {
        w.ended(e.node);
    }
    e.node = -1;
    e.begun = false;
    e.it.reset();
}

template<int T>
void create(World &w, int s, int script) {
    auto &e = std::get<T>(w.entries)[s];
    const int n = w.newNode(T, script, 0);
    if (n < 0) {
        return;
    }
    PBT_LOG("create #", n, " (script ", script, ") in slot ", T, "/", s, e.gen ? ", overwriting" : "");
    w.overwritten += e.gen && e.node >= 0;
    if (e.gen) {
        *e.gen = body<T>(w, n, Tracked(argId(n)));
    } else {
        e.gen.emplace(body<T>(w, n, Tracked(argId(n))));
    }
    clear(w, e);
    e.node = n;
}

template<int T>
void next(World &w, int s, int count) {
    auto &e = std::get<T>(w.entries)[s];
    for (int i = 0; i <= count && e.node >= 0; ++i) {
        const auto state = w.nodes[e.node].state;
        if (e.begun && !e.it) {
            return; // begin() threw, there is no iterator
        }
        const bool first = !e.begun;
        e.begun = true;
        step<T>(w, e.node, *e.gen, e.it, first);
        if (state == Finished || state == Failed) {
            return;
        }
    }
}

template<int T>
void drop(World &w, int s) {
    auto &e = std::get<T>(w.entries)[s];
    PBT_LOG("drop slot ", T, "/", s, " (#", e.node, ")");
    e.gen.reset();
    clear(w, e);
}

template<int T>
void move(World &w, int s, int d, int how) {
    auto &es = std::get<T>(w.entries)[s];
    auto &ed = std::get<T>(w.entries)[d];
    if (!es.gen) {
        return;
    }
    PBT_LOG("move slot ", T, "/", s, " (#", es.node, ") to ", d, " (#", ed.node, ")");
    if (s == d) {
        auto &alias = *ed.gen;
        *es.gen = std::move(alias);
        // either nothing happened, or the coroutine is gone
        if (es.node >= 0 && Tracked::liveOf(argId(es.node)) == 0) {
            clear(w, es);
        }
        return;
    }
    w.overwritten += ed.node >= 0;
    if (ed.gen && how) {
        *ed.gen = std::move(*es.gen);
    } else {
        ed.gen.reset();
        ed.gen.emplace(std::move(*es.gen));
    }
    clear(w, ed);
    ed.node = es.node;
    ed.begun = es.begun;
    ed.it = es.it;
    es.node = -1;
    es.begun = false;
    es.it.reset();
    if (how == 2) {
        es.gen.reset();
    }
}

template<int T>
void modify(World &w, int s, int how) {
    auto &e = std::get<T>(w.entries)[s];
    if (e.node < 0 || w.nodes[e.node].state != AtYield) {
        return;
    }
    auto &nd = w.nodes[e.node];
    PBT_LOG("modify the value of #", e.node);
    if constexpr (!std::is_const_v<std::remove_reference_t<typename TypeOf<T>::G>>) {
        ++w.modified;
        if (how) {
            auto taken = std::move(**e.it);
            PBT_CHECK(idOf(taken) == nd.yieldedId, "taking the current value yielded something else");
            if constexpr (T == 4) {
                nd.yieldedId = -2;
            }
        } else {
            nd.yieldedId = 900000 + e.node * 100 + nd.yields % 100;
            **e.it = make<T>(nd.yieldedId);
        }
    }
    PBT_CHECK(idOf(**e.it) == nd.yieldedId, "the current value changed on its own");
}

enum { OpStep, OpCreate, OpNext, OpMove, OpDrop, OpModify };

template<int T>
void apply(World &w, const Op &op) {
    const int s = op.a / Types;
    switch (op.k) {
    case OpCreate: create<T>(w, s, op.b); break;
    case OpNext: next<T>(w, s, op.b); break;
    case OpMove: move<T>(w, s, op.b, op.c); break;
    case OpDrop: drop<T>(w, s); break;
    case OpModify: modify<T>(w, s, op.b); break;
    default: break;
    }
}
void applyAny(World &w, const Op &op) {
    switch (op.a % Types) {
    case 0: apply<0>(w, op); break;
    case 1: apply<1>(w, op); break;
    case 2: apply<2>(w, op); break;
    case 3: apply<3>(w, op); break;
    case 4: apply<4>(w, op); break;
    default: apply<5>(w, op); break;
    }
}
bool occupied(World &w, int k) {
    const int s = k / Types;
    switch (k % Types) {
    case 0: return std::get<0>(w.entries)[s].node >= 0;
    case 1: return std::get<1>(w.entries)[s].node >= 0;
    case 2: return std::get<2>(w.entries)[s].node >= 0;
    case 3: return std::get<3>(w.entries)[s].node >= 0;
    case 4: return std::get<4>(w.entries)[s].node >= 0;
    default: return std::get<5>(w.entries)[s].node >= 0;
    }
}

void invariants(const World &w) {
    for (std::size_t i = 0; i < w.nodes.size(); ++i) {
        const int n = static_cast<int>(i);
        const auto &nd = w.nodes[i];
        PBT_CHECK(Tracked::liveOf(argId(n)) == nd.alive, "argument of generator #", n, " has ", Tracked::liveOf(argId(n)),
                  " live instances although its Generator ", nd.alive ? "exists" : "is gone");
        const bool inside = nd.alive && (nd.state == AtYield || nd.state == Running);
        PBT_CHECK(Tracked::liveOf(localId(n)) == inside, "local of generator #", n, " has ", Tracked::liveOf(localId(n)), " live instances");
    }
}

void run(const Case &c, Run &run) {
    Tracked::reset();
    World w;
    w.catches = c.cfg[0];
    for (const auto &op : c.ops) {
        if (op.k == OpStep && w.scripts[op.a].size() < 6) {
            w.scripts[op.a].push_back({stepTable[op.b], op.c});
        }
    }
    for (auto op : c.ops) {
        if (op.k == OpStep) {
            continue;
        }
        if (op.k != OpCreate) { // aim at a slot that is in use
            for (int i = 0; i < Types * Slots; ++i) {
                if (occupied(w, (op.a + i) % (Types * Slots))) {
                    op.a = (op.a + i) % (Types * Slots);
                    break;
                }
            }
        }
        applyAny(w, op);
        invariants(w);
        if (run.failed()) {
            return;
        }
    }
    for (int k = 0; k < Types * Slots; ++k) {
        applyAny(w, Op{OpDrop, k});
    }
    invariants(w);
    // exceptions may live as long as the coroutine that threw them, not longer
    PBT_CHECK(Tracked::total() == 0, Tracked::total(), " objects leaked");
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.values > 3, "several-values");
    tag(w.errors, "exception");
    tag(w.ends, "ran-to-the-end");
    tag(w.early, "stopped-early");
    tag(w.neverBegun, "never-begun");
    tag(w.nested, "nested");
    tag(w.modified, "modified");
    tag(w.overwritten, "overwritten");
    if (w.values > 1 && (w.early || w.errors || w.nested) && (w.ends || w.errors || w.overwritten)) {
        run.nontrivial();
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "generators";
    sc.rule = "generated programs of generators of six element types, some nested in each other, and histories of stepping, reading, "
              "changing, moving, overwriting and dropping them; non-trivial when values were read, a generator was stopped early, "
              "failed or nested and another one ran to its end, failed or was overwritten";
    sc.cfg = {{"catch", (1 << Scripts) - 1}};
    sc.ops = {{"step", 12, Scripts - 1, StepChoices - 1, Scripts * 5 - 1},
              {"create", 6, Types * Slots - 1, Scripts - 1},
              {"next", 12, Types * Slots - 1, 4},
              {"move", 4, Types * Slots - 1, Slots - 1, 2},
              {"drop", 2, Types * Slots - 1},
              {"modify", 3, Types * Slots - 1, 1}};
    sc.maxOps = 45;
    sc.minOps = 4;
    sc.quickCases = 450000;
    sc.thoroughCases = 3600000;
    sc.run = run;
    return pbt::main(argc, argv, "C08", {sc});
}
