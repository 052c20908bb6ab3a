// C03: then() continuations follow the documented chaining rules.
#include "C03.h"

#include <QCoreApplication>

using namespace pbt;
using namespace c03;

namespace {

template<typename T>
QCoro::Task<> observe(World &w, int s, int n) {
    Result r{Value, 0};
    try {
        if constexpr (std::is_void_v<T>) {
            co_await w.slot<T>(s);
        } else {
            const auto v = co_await w.slot<T>(s);
            r.id = idOf(v);
        }
    } catch (const ErrorStd &e) {
        r = {Std, e.t.id()};
    } catch (const ErrorOdd &e) {
        r = {Odd, e.t.id()};
    }
    ++w.nodes[n].observed;
    const auto e = w.eval(n);
    PBT_LOG("awaiter of #", n, " observes ", int(r.kind), "/", r.id);
    PBT_CHECK(e.kind == r.kind && e.id == r.id, "awaiter of #", n, " observed outcome ", int(r.kind), "/", r.id,
              " instead of ", int(e.kind), "/", e.id, " (0 pending, 1 value, 2 std::exception, 3 other exception)");
}

template<typename T>
void spawn(World &w, int s, int n) {
    w.slot<T>(s) = base<T>(w, n);
    w.ghost[typeOf<T>][s] = n;
}

void observeSlot(World &w, int type, int s) {
    const int n = w.ghost[type][s];
    if (n < 0) {
        return;
    }
    ++w.nodes[n].observers;
    type == 0 ? observe<int>(w, s, n) : type == 1 ? observe<void>(w, s, n) : observe<Tracked>(w, s, n);
}

void attach(World &w, int a, int b, const LinkArgs &l) {
    using F = void (*)(World &, const LinkArgs &);
    static const F table[3][3] = {{attach_ii, attach_iv, attach_it}, {attach_vi, attach_vv, attach_vt}, {attach_ti, attach_tv, attach_tt}};
    table[a][b](w, l);
}

enum { OpBase, OpThen, OpOpen, OpObserve, OpDrop };

void run(const Case &c, Run &run) {
    Tracked::reset();
    World w;
    const auto after = [&]() {
        vloop::drain();
        w.invariants();
    };
    for (const auto &op : c.ops) {
        switch (op.k) {
        case OpBase: {
            if (w.nodes.size() >= MaxNodes) {
                break;
            }
            Node n;
            n.type = op.a % 3;
            n.outcome = op.b < 3 ? Value : op.b < 5 ? Std : Odd;
            n.gate = op.c;
            const int i = static_cast<int>(w.nodes.size());
            w.nodes.push_back(n);
            const int s = (op.a / 3) % Slots;
            PBT_LOG("#", i, ": coroutine into slot ", n.type, "/", s, " gate ", n.gate, " outcome ", int(n.outcome));
            n.type == 0 ? spawn<int>(w, s, i) : n.type == 1 ? spawn<void>(w, s, i) : spawn<Tracked>(w, s, i);
            break;
        }
        case OpThen: {
            if (w.nodes.size() >= MaxNodes) {
                break;
            }
            int type = -1, s = 0;
            for (int i = 0; i < 3 * Slots; ++i) {
                const int k = (op.a + i) % (3 * Slots);
                if (w.ghost[k / Slots][k % Slots] >= 0) {
                    type = k / Slots;
                    s = k % Slots;
                    break;
                }
            }
            if (type < 0) {
                break;
            }
            Node n;
            n.type = op.b % 3;
            const int dst = (op.b / 3) % Slots;
            n.coro = (op.b / (3 * Slots)) % 2;
            n.takes = (op.b / (6 * Slots)) % 3;
            n.outcome = op.c % 5 < 3 ? Value : op.c % 5 == 3 ? Std : Odd;
            n.gate = (op.c / 5) % (Gates + 1);
            n.err = (op.c / (5 * (Gates + 1))) % 4;
            const bool rvalue = (op.c / (20 * (Gates + 1))) % 2;
            n.pred = w.ghost[type][s];
            w.chained += w.nodes[n.pred].pred >= 0;
            ++w.links;
            w.coroCallbacks += n.coro;
            const int i = static_cast<int>(w.nodes.size());
            w.nodes.push_back(n);
            PBT_LOG("#", i, ": then() on #", n.pred, rvalue ? " (rvalue)" : " (lvalue)", ", ", n.coro ? "coroutine" : "plain",
                    " callback with outcome ", int(n.outcome), ", takes ", n.takes, ", gate ", n.gate, ", error callback ", n.err,
                    ", result into slot ", n.type, "/", dst);
            attach(w, type, n.type, {s, dst, i, rvalue});
            break;
        }
        case OpOpen:
            PBT_LOG("open gate ", op.a);
            w.gates[op.a].open();
            break;
        case OpObserve:
            observeSlot(w, op.a % 3, op.a / 3);
            break;
        case OpDrop: {
            const int s = op.a / 3;
            w.ghost[op.a % 3][s] = -1;
            op.a % 3 == 0 ? void(w.ints[s] = QCoro::Task<int>{}) : op.a % 3 == 1 ? void(w.voids[s] = QCoro::Task<void>{}) : void(w.objs[s] = QCoro::Task<Tracked>{});
            break;
        }
        default:
            break;
        }
        after();
        if (run.failed()) {
            break;
        }
    }
    for (int t = 0; t < 3; ++t) {
        for (int s = 0; s < Slots; ++s) {
            observeSlot(w, t, s);
        }
    }
    for (auto &g : w.gates) {
        g.open();
    }
    vloop::settle();
    after();
    for (int s = 0; s < Slots; ++s) {
        w.ints[s] = QCoro::Task<int>{};
        w.voids[s] = QCoro::Task<void>{};
        w.objs[s] = QCoro::Task<Tracked>{};
    }
    PBT_CHECK(Tracked::total() == 0, Tracked::total(), " objects leaked after all continuations finished");
    if (w.links) {
        run.tag("has-continuation");
    }
    if (w.chained) {
        run.tag("chained-continuations");
    }
    if (w.errorsHandled) {
        run.tag("error-callback-called");
    }
    if (w.coroCallbacks) {
        run.tag("coroutine-callback");
    }
    int failures = 0;
    for (std::size_t i = 0; i < w.nodes.size(); ++i) {
        failures += w.nodes[i].pred >= 0 && w.eval(w.nodes[i].pred).kind > Value;
    }
    if (failures) {
        run.tag("predecessor-failed");
    }
    if (w.links >= 2 && (w.chained || failures)) {
        run.nontrivial();
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);

    Scenario sc;
    sc.name = "chains";
    sc.rule = "generated trees of then() continuations (plain and coroutine callbacks, by value, by reference and without "
              "argument, with and without error callbacks, on lvalue and rvalue tasks) on coroutines that succeed or fail at "
              "generated times; non-trivial with at least two continuations, one of them chained to another or attached to a "
              "failing task";
    sc.ops = {{"base", 4, 3 * Slots - 1, 5, Gates},
              {"then", 8, 3 * Slots - 1, 18 * Slots - 1, 40 * (Gates + 1) - 1},
              {"open", 2, Gates - 1},
              {"observe", 2, 3 * Slots - 1},
              {"drop", 1, 3 * Slots - 1}};
    sc.maxOps = 30;
    sc.minOps = 3;
    sc.quickCases = 150000;
    sc.thoroughCases = 1200000;
    sc.run = run;
    return pbt::main(argc, argv, "C03", {sc});
}
