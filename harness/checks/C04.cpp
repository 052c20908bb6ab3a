// C04: waitFor() blocks until completion and returns the exact outcome.
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorolazytask.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QSocketNotifier>
#include <QTimer>

#include <memory>
#include <sys/eventfd.h>
#include <unistd.h>

using namespace pbt;
using namespace std::chrono_literals;

namespace {

struct NoDefault {
    explicit NoDefault(int id) : t(id) {}
    Tracked t;
};

struct ErrorStd : std::runtime_error {
    explicit ErrorStd(int id) : std::runtime_error("generated"), t(id) {}
    Tracked t;
};

// What a single waitFor() waits for
struct Spec {
    enum Kind {
        TaskIntL, TaskIntR, TaskVoidL, TaskVoidR, TaskObjR, TaskObjL, TaskPtrR, LazyIntL, LazyIntR, LazyVoidR, GateL, AwaiterL, AwaiterR,
        NonMember, Timer, Chain, Kinds
    } kind;
    enum Mode { Already, Sync, Delayed, Sleep, Modes } mode;
    int outcome; // 0,1 value, 2 std exception, 3 other exception
    int delay;   // ms
};

struct WaitState {
    Spec spec;
    int id;
    Gate gate;
    qint64 completedAt = -1;
    qint64 lastNestedEnd = -1;
};

struct World {
    int nextId = 0;
    std::vector<WaitState *> stack;
    int nested = 0, maxDepth = 0, immediate = 0, blocked = 0, exceptions = 0;
    qint64 origin = 0;
    qint64 ticks = 0;
};
World *w = nullptr;

int valueId(const WaitState &s) { return 1000 + s.id; }
int errorId(const WaitState &s) { return 2000 + s.id; }

template<typename T>
T outcome(WaitState &s) {
    s.completedAt = vloop::now();
    if (s.spec.outcome == 2) {
        throw ErrorStd(errorId(s));
    }
    if (s.spec.outcome == 3) {
        throw OddError{errorId(s)};
    }
    if constexpr (std::is_same_v<T, int>) {
        return valueId(s);
    } else if constexpr (std::is_same_v<T, NoDefault>) {
        return NoDefault(valueId(s));
    } else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) {
        return std::make_unique<int>(valueId(s));
    }
}

template<template<typename> class TaskT, typename T>
TaskT<T> operation(WaitState &s) {
    Tracked local(5000 + s.id);
    if (s.spec.mode == Spec::Delayed) {
        co_await s.gate;
    } else if (s.spec.mode == Spec::Sleep) {
        co_await QCoro::sleepFor(std::chrono::milliseconds(s.spec.delay));
    }
    co_return outcome<T>(s);
}

QCoro::Task<int> chained(WaitState &s) {
    auto t = operation<QCoro::Task, int>(s);
    co_return co_await t;
}

// an awaiter with the await_ methods itself
struct Awaiter {
    WaitState *s;
    bool await_ready() const { return s->gate.isOpen(); }
    void await_suspend(std::coroutine_handle<> h) { Gate::Awaiter{&s->gate}.await_suspend(h); }
    QString await_resume() const { return QString::number(outcome<int>(*s)); }
};

struct Foreign {
    WaitState *s;
};
Awaiter operator co_await(Foreign f) {
    return Awaiter{f.s};
}

void wait(Spec spec);

void checkWait(WaitState &s, int got, int kind, qint64 start) {
    // kind: 0 value, 2 std exception, 3 other
    const int expected = s.spec.outcome < 2 ? 0 : s.spec.outcome;
    PBT_LOG("t=", vloop::now(), " waitFor #", s.id, " returned ", kind, "/", got);
    if (s.completedAt < 0) {
        PBT_FAIL("waitFor() #", s.id, " returned before the operation finished");
        return;
    }
    PBT_CHECK(kind == expected, "waitFor() #", s.id, " ended with ", kind, " instead of ", expected,
              " (0 value, 2 std::exception, 3 other exception)");
    if (kind == 0 && got != -1) {
        PBT_CHECK(got == valueId(s), "waitFor() #", s.id, " returned ", got, " instead of ", valueId(s));
    }
    if (kind >= 2) {
        ++w->exceptions;
        PBT_CHECK(got == errorId(s), "waitFor() #", s.id, " rethrew a different exception");
    }
    const auto due = std::max({start, s.completedAt, s.lastNestedEnd});
    PBT_CHECK(vloop::now() == due, "waitFor() #", s.id, " returned at ", vloop::now(), " although it could return at ", due);
    (vloop::now() > start ? w->blocked : w->immediate)++;
    // other events were processed meanwhile
    const auto expectedTicks = (vloop::now() - w->origin) / 7;
    PBT_CHECK(w->ticks >= expectedTicks - 1, "events were not processed while waitFor() was blocked: ", w->ticks,
              " timer ticks instead of ", expectedTicks);
}

template<typename F>
void guarded(WaitState &s, F f) {
    const auto start = vloop::now();
    int got = -1, kind = 0;
    try {
        got = f();
    } catch (const ErrorStd &e) {
        kind = 2;
        got = e.t.id();
    } catch (const OddError &e) {
        kind = 3;
        got = e.code;
    }
    checkWait(s, got, kind, start);
}

void wait(Spec spec) {
    if (w->nextId > 40 || w->stack.size() > 6) {
        return;
    }
    WaitState s{spec, w->nextId++, {}, -1, -1};
    PBT_LOG("t=", vloop::now(), " waitFor #", s.id, " kind ", int(spec.kind), " mode ", int(spec.mode), " outcome ", spec.outcome,
            " delay ", spec.delay, " depth ", w->stack.size());
    w->stack.push_back(&s);
    w->maxDepth = std::max(w->maxDepth, static_cast<int>(w->stack.size()));
    const bool usesGate = spec.kind == Spec::GateL || spec.kind == Spec::AwaiterL || spec.kind == Spec::AwaiterR || spec.kind == Spec::NonMember;
    const auto begin = vloop::now();
    QTimer opener;
    opener.setSingleShot(true);
    // the event that ends it may come from a descriptor, too
    const int descriptor = s.id % 2 ? ::eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK) : -1;
    std::unique_ptr<QSocketNotifier> notifier;
    if (descriptor >= 0) {
        notifier = std::make_unique<QSocketNotifier>(descriptor, QSocketNotifier::Read);
        QObject::connect(notifier.get(), &QSocketNotifier::activated, notifier.get(), [&s, n = notifier.get()]() {
            n->setEnabled(false);
            s.gate.open();
        });
    }
    QObject::connect(&opener, &QTimer::timeout, &opener, [&s, descriptor]() {
        if (descriptor >= 0) {
            ::eventfd_write(descriptor, 1);
        } else {
            s.gate.open();
        }
    });
    if (spec.mode == Spec::Delayed || (usesGate && spec.mode == Spec::Sleep)) {
        opener.start(spec.delay);
    } else {
        s.gate.open();
    }
    switch (spec.kind) {
    case Spec::TaskIntL: {
        auto t = operation<QCoro::Task, int>(s);
        guarded(s, [&]() { return QCoro::waitFor(t); });
        PBT_CHECK(t.isReady(), "the task is not ready after waitFor()");
        break;
    }
    case Spec::TaskIntR:
        guarded(s, [&]() { return QCoro::waitFor(operation<QCoro::Task, int>(s)); });
        break;
    case Spec::TaskVoidL: {
        auto t = operation<QCoro::Task, void>(s);
        guarded(s, [&]() { QCoro::waitFor(t); return -1; });
        PBT_CHECK(t.isReady(), "the task is not ready after waitFor()");
        break;
    }
    case Spec::TaskVoidR:
        guarded(s, [&]() { QCoro::waitFor(operation<QCoro::Task, void>(s)); return -1; });
        break;
    case Spec::TaskObjR:
        guarded(s, [&]() {
            const auto v = QCoro::waitFor(operation<QCoro::Task, NoDefault>(s));
            PBT_CHECK(!v.t.movedFrom(), "waitFor() returned a moved-from object");
            return v.t.id();
        });
        break;
    case Spec::TaskObjL: {
        auto t = operation<QCoro::Task, NoDefault>(s);
        guarded(s, [&]() {
            const auto v = QCoro::waitFor(t);
            PBT_CHECK(!v.t.movedFrom(), "waitFor() returned a moved-from object");
            return v.t.id();
        });
        break;
    }
    case Spec::TaskPtrR:
        guarded(s, [&]() {
            const auto p = QCoro::waitFor(operation<QCoro::Task, std::unique_ptr<int>>(s));
            return p ? *p : -2;
        });
        break;
    case Spec::LazyIntL: {
        auto t = operation<QCoro::LazyTask, int>(s);
        PBT_CHECK(s.completedAt < 0, "a lazy task started before it was awaited");
        guarded(s, [&]() { return QCoro::waitFor(t); });
        break;
    }
    case Spec::LazyIntR:
        guarded(s, [&]() { return QCoro::waitFor(operation<QCoro::LazyTask, int>(s)); });
        break;
    case Spec::LazyVoidR:
        guarded(s, [&]() { QCoro::waitFor(operation<QCoro::LazyTask, void>(s)); return -1; });
        break;
    case Spec::GateL:
        // completes with the gate
        s.spec.outcome = 0;
        guarded(s, [&]() {
            QCoro::waitFor(s.gate);
            s.completedAt = s.gate.isOpen() ? (usesGate && (spec.mode == Spec::Delayed || spec.mode == Spec::Sleep) ? begin + spec.delay : begin) : -1;
            return -1;
        });
        break;
    case Spec::AwaiterL: {
        Awaiter a{&s};
        guarded(s, [&]() { return QCoro::waitFor(a).toInt(); });
        break;
    }
    case Spec::AwaiterR:
        guarded(s, [&]() { return QCoro::waitFor(Awaiter{&s}).toInt(); });
        break;
    case Spec::NonMember:
        guarded(s, [&]() { return QCoro::waitFor(Foreign{&s}).toInt(); });
        break;
    case Spec::Timer: {
        s.spec.outcome = 0;
        QTimer t;
        t.setSingleShot(true);
        t.setInterval(spec.delay);
        if (spec.mode != Spec::Already) {
            t.start();
        }
        guarded(s, [&]() {
            QCoro::waitFor(qCoro(t).waitForTimeout());
            s.completedAt = spec.mode != Spec::Already ? begin + spec.delay : begin;
            return -1;
        });
        break;
    }
    case Spec::Chain:
        guarded(s, [&]() { return QCoro::waitFor(chained(s)); });
        break;
    default:
        break;
    }
    notifier.reset();
    if (descriptor >= 0) {
        ::close(descriptor);
    }
    w->stack.pop_back();
    const auto end = vloop::now();
    for (auto *o : w->stack) {
        o->lastNestedEnd = std::max(o->lastNestedEnd, end);
        ++w->nested;
    }
}

Spec specOf(int kind, int arg) {
    return Spec{static_cast<Spec::Kind>(kind), static_cast<Spec::Mode>(arg % Spec::Modes), (arg / Spec::Modes) % 4,
                (arg / (Spec::Modes * 4)) * 5};
}

void run(const Case &c, Run &run) {
    Tracked::reset();
    World world;
    w = &world;
    w->origin = vloop::now();
    {
        QObject ctx;
        QTimer ticker;
        QObject::connect(&ticker, &QTimer::timeout, &ticker, [&]() { ++world.ticks; });
        ticker.start(7);
        for (const auto &op : c.ops) {
            if (run.failed()) {
                break;
            }
            switch (op.k) {
            case 0:
                wait(specOf(op.a, op.b));
                break;
            case 1: {
                const auto spec = specOf(op.a, op.b);
                QTimer::singleShot(op.c * 5, &ctx, [spec]() { wait(spec); });
                break;
            }
            case 2: {
                const auto spec = specOf(op.a, op.b);
                QMetaObject::invokeMethod(&ctx, [spec]() { wait(spec); }, Qt::QueuedConnection);
                break;
            }
            case 3:
                vloop::advance(op.a * 5);
                break;
            default:
                break;
            }
        }
        vloop::advance(1000);
        ticker.stop();
    }
    vloop::settle();
    PBT_CHECK(world.stack.empty(), "a waitFor() never returned");
    PBT_CHECK(Tracked::total() == 0, Tracked::total(), " objects leaked");
    if (world.nested) {
        run.tag("nested");
    }
    if (world.maxDepth > 2) {
        run.tag("depth>2");
    }
    if (world.immediate) {
        run.tag("immediate");
    }
    if (world.blocked) {
        run.tag("blocked");
    }
    if (world.exceptions) {
        run.tag("exception");
    }
    if (world.blocked && (world.nested || world.exceptions)) {
        run.nontrivial();
    }
    w = nullptr;
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario sc;
    sc.name = "waits";
    sc.rule = "generated sequences of waitFor() calls on 16 kinds of awaitables finishing before, at or after the call with a "
              "value or exception, from the main program and from timers and events delivered inside other waitFor() calls; "
              "non-trivial when a call really blocked and calls were nested or an exception was rethrown";
    const int args = Spec::Modes * 4 * 5 - 1;
    sc.ops = {{"wait", 5, Spec::Kinds - 1, args}, {"timerWait", 5, Spec::Kinds - 1, args, 6}, {"eventWait", 2, Spec::Kinds - 1, args}, {"advance", 1, 4}};
    sc.maxOps = 16;
    sc.quickCases = 120000;
    sc.thoroughCases = 960000;
    sc.run = run;
    return pbt::main(argc, argv, "C04", {sc});
}
