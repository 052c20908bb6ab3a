// C05: QCoro::connect() invokes its callback exactly once iff the context is alive.
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorofuture.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QFuture>
#include <QPromise>
#include <QTimer>

#include <deque>
#include <memory>

using namespace pbt;

namespace {

constexpr int Contexts = 3;
constexpr int MaxConns = 24;

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};

class QtError : public QException {
public:
    void raise() const override { throw *this; }
    QtError *clone() const override { return new QtError(*this); }
};

struct World;

class Context : public QObject {
public:
    World *w;
    int index;
    Tracked alive;
    Context(World *w_, int i) : w(w_), index(i), alive(9000 + i) {}
    void withInt(int v);
    void withObj(Tracked v);
    void withObjRef(const Tracked &v);
    void withPtr(std::unique_ptr<int> v);
};

struct Conn {
    int kind;
    int ctx;      // index of the context
    int ctxGen;   // which incarnation of it
    int outcome;  // 0,1 value, 2 std, 3 other
    int action;   // what the callback does
    Gate gate;
    bool started = false, finished = false, expectCall = false, ambiguous = false;
    int calls = 0;
    std::unique_ptr<QPromise<int>> intPromise;
    std::unique_ptr<QPromise<void>> voidPromise;
    std::unique_ptr<QTimer> timer;
};

enum Kind {
    VoidLambda, VoidMember, IntLambda0, IntLambda1, IntMember0, IntMember1, ObjLambdaVal, ObjLambdaRef, ObjMemberVal, ObjMemberRef,
    PtrLambda, PtrMember, ObjLambda0, LvalueTask, FutureInt1, FutureInt0, FutureVoid, FutureMember, Kinds
};

struct World {
    std::deque<Conn> conns;
    Context *ctx[Contexts] = {};
    int gen[Contexts] = {};
    bool inCallback = false;
    int calls = 0, deadContext = 0, failed = 0, destroyedInCallback = 0;

    void create(int i) {
        if (!ctx[i]) {
            ctx[i] = new Context(this, i);
            ++gen[i];
            ctx[i]->blockSignals(gen[i] % 2 == 0); // makes no difference
        }
    }
    void destroy(int i) {
        delete ctx[i];
        ctx[i] = nullptr;
    }
    bool ctxAlive(const Conn &c) const { return ctx[c.ctx] && gen[c.ctx] == c.ctxGen; }

    void finish(int n) {
        auto &c = conns[n];
        if (c.finished) {
            PBT_FAIL("the coroutine of connection ", n, " finished twice");
        }
        c.finished = true;
        c.expectCall = c.outcome < 2 && ctxAlive(c);
        deadContext += c.outcome < 2 && !ctxAlive(c);
        failed += c.outcome >= 2;
        PBT_LOG("#", n, " finishes, context alive: ", ctxAlive(c));
    }

    void called(int n, int got) {
        auto &c = conns[n];
        PBT_LOG("callback of #", n, " runs with ", got);
        ++c.calls;
        ++calls;
        PBT_CHECK(c.calls == 1, "callback of connection ", n, " ran ", c.calls, " times");
        PBT_CHECK(c.finished, "callback of connection ", n, " ran before the task finished");
        PBT_CHECK(c.outcome < 2, "callback of connection ", n, " ran although the task failed");
        PBT_CHECK(ctxAlive(c), "callback of connection ", n, " ran although its context was destroyed");
        PBT_CHECK(got == -1 || got == 1000 + n, "callback of connection ", n, " received ", got, " instead of ", 1000 + n);
        switch (c.action) {
        case 1: // destroys its own context
            ++destroyedInCallback;
            destroy(c.ctx);
            break;
        case 2: // destroys another one
            destroy((c.ctx + 1) % Contexts);
            break;
        case 3: // finishes another task
            for (auto &o : conns) {
                if (!o.gate.isOpen() && &o != &c) {
                    o.gate.open();
                    break;
                }
            }
            break;
        default:
            break;
        }
    }

    void invariants() {
        for (std::size_t i = 0; i < conns.size(); ++i) {
            const auto &c = conns[i];
            if (!c.ambiguous) {
                PBT_CHECK(c.calls == (c.expectCall ? 1 : 0), "callback of connection ", i, " ran ", c.calls, " times, expected ",
                          c.expectCall ? 1 : 0, " (finished ", c.finished, ", outcome ", c.outcome, ")");
            }
        }
    }
};

//! A member function callback without a value does not know its connection, so each gets a context object of its own,
//! which goes away with the context it is a child of.
class OwnContext : public QObject {
public:
    World *w;
    int n;
    OwnContext(World *w_, int n_, QObject *parent) : QObject(parent), w(w_), n(n_) {}
    void plain() { w->called(n, -1); }
};
void Context::withInt(int v) { w->called(v - 1000, v); }
void Context::withObj(Tracked v) { w->called(v.id() - 1000, v.id()); }
void Context::withObjRef(const Tracked &v) { w->called(v.id() - 1000, v.id()); }
void Context::withPtr(std::unique_ptr<int> v) { w->called(*v - 1000, *v); }

template<typename T>
QCoro::Task<T> operation(World &w, int n) {
    Tracked local(3000 + n);
    auto &c = w.conns[n];
    co_await c.gate;
    w.finish(n);
    if (c.outcome == 2) {
        throw ErrorStd(n);
    }
    if (c.outcome == 3) {
        throw OddError{n};
    }
    if constexpr (std::is_same_v<T, int>) {
        co_return 1000 + n;
    } else if constexpr (std::is_same_v<T, Tracked>) {
        co_return Tracked(1000 + n);
    } else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) {
        co_return std::make_unique<int>(1000 + n);
    }
}

void makeConnection(World &w, int kind, int ctx, int outcome, int action, bool already) {
    if (w.conns.size() >= MaxConns || !w.ctx[ctx]) {
        return;
    }
    const int n = static_cast<int>(w.conns.size());
    w.conns.emplace_back();
    auto &c = w.conns.back();
    c.kind = kind;
    c.ctx = ctx;
    c.ctxGen = w.gen[ctx];
    c.outcome = outcome;
    c.action = action;
    PBT_LOG("#", n, ": connect kind ", kind, " context ", ctx, " outcome ", outcome, " action ", action, already ? " (already finished)" : "");
    if (already) {
        c.gate.open();
    }
    auto *x = w.ctx[ctx];
    World *wp = &w;
    Tracked state(2000 + n); // captured by the callback
    switch (kind) {
    case VoidLambda:
        QCoro::connect(operation<void>(w, n), x, [wp, n, state]() { wp->called(n, -1); });
        break;
    case VoidMember:
        QCoro::connect(operation<void>(w, n), new OwnContext(wp, n, x), &OwnContext::plain);
        break;
    case IntLambda0:
        QCoro::connect(operation<int>(w, n), x, [wp, n, state]() { wp->called(n, -1); });
        break;
    case IntLambda1:
        QCoro::connect(operation<int>(w, n), x, [wp, n, state](int v) { wp->called(n, v); });
        break;
    case IntMember0:
        QCoro::connect(operation<int>(w, n), new OwnContext(wp, n, x), &OwnContext::plain);
        break;
    case IntMember1:
        QCoro::connect(operation<int>(w, n), x, &Context::withInt);
        break;
    case ObjLambdaVal:
        QCoro::connect(operation<Tracked>(w, n), x, [wp, n, state](Tracked v) {
            PBT_CHECK(!v.movedFrom(), "callback received a moved-from value");
            wp->called(n, v.id());
        });
        break;
    case ObjLambdaRef:
        QCoro::connect(operation<Tracked>(w, n), x, [wp, n, state](const Tracked &v) { wp->called(n, v.id()); });
        break;
    case ObjMemberVal:
        QCoro::connect(operation<Tracked>(w, n), x, &Context::withObj);
        break;
    case ObjMemberRef:
        QCoro::connect(operation<Tracked>(w, n), x, &Context::withObjRef);
        break;
    case PtrLambda:
        QCoro::connect(operation<std::unique_ptr<int>>(w, n), x,
                       [wp, n, p = std::make_unique<Tracked>(2500 + n)](std::unique_ptr<int> v) { wp->called(n, v ? *v : -2); });
        break;
    case PtrMember:
        QCoro::connect(operation<std::unique_ptr<int>>(w, n), x, &Context::withPtr);
        break;
    case ObjLambda0:
        QCoro::connect(operation<Tracked>(w, n), x, [wp, n, state]() { wp->called(n, -1); });
        break;
    case LvalueTask: {
        auto t = operation<int>(w, n);
        const auto cb = [wp, n, state](int v) { wp->called(n, v); };
        QCoro::connect(std::move(t), x, cb);
        break;
    }
    case FutureInt1:
    case FutureInt0:
    case FutureMember: {
        c.intPromise = std::make_unique<QPromise<int>>();
        c.intPromise->start();
        auto f = c.intPromise->future();
        if (kind == FutureInt1) {
            QCoro::connect(std::move(f), x, [wp, n, state](int v) { wp->called(n, v); });
        } else if (kind == FutureInt0) {
            QCoro::connect(std::move(f), x, [wp, n, state]() { wp->called(n, -1); });
        } else {
            QCoro::connect(std::move(f), new OwnContext(wp, n, x), &OwnContext::plain);
        }
        break;
    }
    case FutureVoid: {
        c.voidPromise = std::make_unique<QPromise<void>>();
        c.voidPromise->start();
        QCoro::connect(c.voidPromise->future(), x, [wp, n, state]() { wp->called(n, -1); });
        break;
    }
    default:
        break;
    }
}

void finishFuture(World &w, int n) {
    auto &c = w.conns[n];
    if (c.finished) {
        return;
    }
    w.finish(n);
    const auto doIt = [&](auto &p) {
        if (c.outcome == 2) {
            p->setException(QtError());
        } else if (c.outcome == 3) {
            p->setException(std::make_exception_ptr(OddError{n}));
        } else if constexpr (std::is_same_v<std::decay_t<decltype(*p)>, QPromise<int>>) {
            p->addResult(1000 + n);
        }
        p->finish();
    };
    if (c.intPromise) {
        doIt(c.intPromise);
    } else if (c.voidPromise) {
        doIt(c.voidPromise);
    }
}

void openConn(World &w, int n) {
    auto &c = w.conns[n];
    PBT_LOG("finish #", n);
    if (c.intPromise || c.voidPromise) {
        finishFuture(w, n);
    } else if (!c.gate.isOpen()) {
        c.gate.open();
    }
}

void run(const Case &c, Run &run) {
    Tracked::reset();
    {
        World w;
        for (int i = 0; i < Contexts; ++i) {
            w.create(i);
        }
        for (const auto &op : c.ops) {
            bool drain = true;
            switch (op.k) {
            case 0:
                makeConnection(w, op.a, op.b % Contexts, (op.b / Contexts) % 4, (op.b / Contexts / 4) % 6, op.c == 0);
                break;
            case 1:
                if (!w.conns.empty()) {
                    openConn(w, op.a % static_cast<int>(w.conns.size()));
                    drain = op.b != 0;
                }
                break;
            case 2:
                PBT_LOG("destroy context ", op.a);
                // an undelivered future may or may not reach the callback before its context goes away
                for (auto &k : w.conns) {
                    if (k.finished && k.calls == 0 && k.expectCall && k.ctx == op.a && k.ctxGen == w.gen[op.a]) {
                        k.ambiguous = true;
                    }
                }
                w.destroy(op.a);
                break;
            case 3:
                w.create(op.a);
                break;
            case 4:
                // finish several at once
                for (int n = 0; n < static_cast<int>(w.conns.size()); ++n) {
                    if ((n + op.a) % 3 == 0) {
                        openConn(w, n);
                    }
                }
                break;
            default:
                break;
            }
            if (drain) {
                vloop::drain();
            }
            if (drain) {
                // a context destroyed by another callback while a future's notification was on its way
                for (auto &k : w.conns) {
                    if ((k.intPromise || k.voidPromise) && k.expectCall && k.calls == 0 && !w.ctxAlive(k)) {
                        k.ambiguous = true;
                    }
                }
                w.invariants();
            }
            if (run.failed()) {
                break;
            }
        }
        for (int n = 0; n < static_cast<int>(w.conns.size()); ++n) {
            openConn(w, n);
        }
        vloop::settle();
        for (auto &k : w.conns) {
            if ((k.intPromise || k.voidPromise) && k.expectCall && k.calls == 0 && !w.ctxAlive(k)) {
                k.ambiguous = true;
            }
        }
        w.invariants();
        for (int i = 0; i < Contexts; ++i) {
            w.destroy(i);
        }
        vloop::settle();
        w.invariants();
        if (w.calls) {
            run.tag("callback-called");
        }
        if (w.deadContext) {
            run.tag("context-dead-at-finish");
        }
        if (w.failed) {
            run.tag("task-failed");
        }
        if (w.destroyedInCallback) {
            run.tag("context-destroyed-by-its-callback");
        }
        if (w.calls && (w.deadContext || w.failed)) {
            run.nontrivial();
        }
        PBT_CHECK(Tracked::total() == 0, Tracked::total(), " objects (callbacks, locals, results) leaked");
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "connections";
    sc.rule = "generated histories of connect() calls (18 combinations of task/future, result type and callback form), task "
              "completions with value or exception, context destructions and re-creations, with callbacks that destroy "
              "contexts or finish other tasks; non-trivial when a callback was called and another task failed or finished "
              "with a dead context";
    sc.ops = {{"connect", 6, Kinds - 1, Contexts * 4 * 6 - 1, 5}, {"finish", 5, MaxConns - 1, 3}, {"destroy", 2, Contexts - 1}, {"create", 2, Contexts - 1}, {"finishMany", 1, 2}};
    sc.maxOps = 30;
    sc.minOps = 3;
    sc.quickCases = 250000;
    sc.thoroughCases = 2000000;
    sc.run = run;
    return pbt::main(argc, argv, "C05", {sc});
}
