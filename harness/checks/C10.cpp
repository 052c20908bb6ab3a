// C10: awaiting a signal yields the arguments of its first emission after the await.
#include "emitter.h"
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QThread>
#include <QTimer>

#include <array>
#include <deque>
#include <memory>
#include <optional>

using namespace pbt;
using namespace emitter;

namespace {

constexpr int Objects = 3; // the last one lives in another thread
constexpr int MaxAwaits = 60;

QThread &worker() {
    static auto *t = [] {
        auto *t = new QThread;
        t->start();
        return t;
    }();
    return *t;
}

struct Await {
    int object = 0; // incarnation
    int kind = 0;
    qint64 start = 0;
    qint64 timeout = -1;
    bool done = false;     // delivered to the awaiting coroutine
    bool deferred = false; // the coroutine will look at it later
    std::vector<int> acceptable; // emissions, at most one unless it coincided with the timeout
    bool recorded = false;
    bool maybeTimeout = false;
    bool objectGone = false;
};

struct World {
    std::array<std::unique_ptr<Emitter>, Objects> objects;
    std::array<int, Objects> incarnation{};
    std::array<bool, Objects> blocked{};
    int incarnations = 0;
    int emissions = 0;
    std::deque<Await> awaits;
    int longTimeout = 0, delivered = 0, timedOut = 0, ignored = 0, again = 0, gone = 0, otherThread = 0, coincided = 0, whileBlocked = 0, sharedEmission = 0;

    template<typename F>
    void onThreadOf(int o, F &&f) {
        if (o == Objects - 1) {
            QMetaObject::invokeMethod(objects[o].get(), std::forward<F>(f), Qt::BlockingQueuedConnection);
        } else {
            f();
        }
    }
    void createObject(int o) {
        objects[o] = std::make_unique<Emitter>();
        incarnation[o] = ++incarnations;
        blocked[o] = false;
        if (o == Objects - 1) {
            objects[o]->moveToThread(&worker());
        }
    }
    void destroyObject(int o) {
        if (!objects[o]) {
            return;
        }
        PBT_LOG("destroy object ", incarnation[o]);
        for (auto &a : awaits) {
            if (!a.done && a.object == incarnation[o]) {
                a.objectGone = true;
                gone += !a.recorded;
            }
        }
        if (o == Objects - 1) {
            auto *raw = objects[o].release();
            // the functor must not be destroyed together with its context
            QObject ctx;
            ctx.moveToThread(&worker());
            QMetaObject::invokeMethod(&ctx, [raw, &ctx] { delete raw; ctx.moveToThread(QCoreApplication::instance()->thread()); }, Qt::BlockingQueuedConnection);
        } else {
            objects[o].reset();
        }
        incarnation[o] = 0;
    }
    void toggleBlocked(int o) {
        if (objects[o]) {
            blocked[o] = !blocked[o];
            PBT_LOG("signals of object ", incarnation[o], " are ", blocked[o] ? "blocked" : "unblocked");
            onThreadOf(o, [&] { objects[o]->blockSignals(blocked[o]); });
        }
    }
    void emitSignal(int o, int kind) {
        if (!objects[o]) {
            return;
        }
        const int v = carries(kind) ? 1000 + ++emissions : 0;
        PBT_LOG("emit signal ", kind, " of object ", incarnation[o], " with ", v, " at ", vloop::now());
        int hit = 0;
        for (auto &a : awaits) {
            if (blocked[o]) {
                ++whileBlocked; // not really emitted
                break;
            }
            if (a.done || a.object != incarnation[o] || a.kind != kind) {
                continue;
            }
            if (a.recorded) {
                ++ignored;
                continue;
            }
            ++hit;
            a.recorded = true;
            a.acceptable = {v};
            // both happen at once: either may be first
            a.maybeTimeout = a.timeout >= 0 && vloop::now() - a.start >= a.timeout;
            coincided += a.maybeTimeout;
        }
        sharedEmission += hit > 1;
        otherThread += hit && o == Objects - 1;
        onThreadOf(o, [&] { dispatch(kind, [&]<int K>() { Sig<K>::emitOn(*objects[o], v); }); });
    }
    int begin(int o, int kind, qint64 timeout, bool deferred) {
        Await a;
        a.object = incarnation[o];
        a.kind = kind;
        a.start = vloop::now();
        a.timeout = timeout;
        a.deferred = deferred;
        awaits.push_back(a);
        PBT_LOG("await ", awaits.size() - 1, ": signal ", kind, " of object ", incarnation[o], " timeout ", timeout, " at ", vloop::now());
        return static_cast<int>(awaits.size()) - 1;
    }
    void end(int i, std::optional<int> v) {
        auto &a = awaits[i];
        PBT_LOG("await ", i, " resumed with ", v ? *v : -1, v ? "" : " (timeout)", " at ", vloop::now());
        PBT_CHECK(QThread::currentThread() == QCoreApplication::instance()->thread(), "an awaiter was resumed on another thread");
        PBT_CHECK(!a.done, "an awaiter was resumed twice");
        a.done = true;
        if (v) {
            PBT_CHECK(a.recorded, "await ", i, " was resumed without any emission");
            PBT_CHECK(!a.recorded || *v == a.acceptable.front(), "await ", i, " got the arguments of emission ", *v, " instead of ",
                      a.recorded ? a.acceptable.front() : 0);
            ++delivered;
        } else {
            PBT_CHECK(a.timeout >= 0, "await ", i, " without timeout got no value");
            PBT_CHECK(vloop::now() - a.start >= a.timeout, "await ", i, " timed out after ", vloop::now() - a.start, " instead of ", a.timeout, " ms");
            PBT_CHECK(!a.recorded || a.maybeTimeout, "await ", i, " timed out although the signal was emitted before");
            ++timedOut;
            longTimeout += a.timeout > 0x7fffffff;
        }
    }
    void invariants() {
        for (std::size_t i = 0; i < awaits.size(); ++i) {
            const auto &a = awaits[i];
            if (a.done || a.deferred) {
                continue;
            }
            PBT_CHECK(!a.recorded, "await ", i, " was not resumed although its signal was emitted");
            PBT_CHECK(a.objectGone || a.timeout < 0 || vloop::now() - a.start < a.timeout, "await ", i, " was not resumed although its timeout of ",
                      a.timeout, " ms elapsed");
        }
    }
};

enum Style { Direct, ByLvalue, Deferred, Then, Styles };

QCoro::Task<> pause(int ms) {
    co_await QCoro::sleepFor(std::chrono::milliseconds(ms));
}

template<int K>
std::optional<int> decode(const typename Sig<K>::Result &r) {
    return Sig<K>::decode(r);
}
template<int K>
std::optional<int> decode(const std::optional<typename Sig<K>::Result> &r) {
    return r ? std::optional<int>(Sig<K>::decode(*r)) : std::nullopt;
}

template<int K>
QCoro::Task<> observe(World &w, int o, qint64 timeout, Style style, int count, bool emits) {
    using R = typename Sig<K>::Result;
    const int incarnation = w.incarnation[o];
    for (int i = 0; i < count; ++i) {
        if (!w.objects[o] || w.incarnation[o] != incarnation || w.awaits.size() >= MaxAwaits) {
            co_return; // gone: awaiting null objects is another matter
        }
        auto *obj = w.objects[o].get();
        const auto ms = std::chrono::milliseconds(timeout);
        const int n = w.begin(o, K, timeout, style == Deferred);
        w.again += i > 0;
        if (style == Deferred) {
            if (timeout < 0) {
                QCoro::Task<R> task = qCoro(obj, Sig<K>::ptr());
                co_await pause(15);
                w.awaits[n].deferred = false;
                const R r = co_await task;
                w.end(n, decode<K>(r));
            } else {
                QCoro::Task<std::optional<R>> task = qCoro(obj, Sig<K>::ptr(), ms);
                co_await pause(15);
                w.awaits[n].deferred = false;
                const std::optional<R> r = co_await task;
                w.end(n, decode<K>(r));
            }
        } else if (style == ByLvalue) {
            auto ptr = Sig<K>::ptr();
            if (timeout < 0) {
                const R r = co_await qCoro(obj, ptr);
                w.end(n, decode<K>(r));
            } else {
                const std::optional<R> r = co_await qCoro(obj, ptr, ms);
                w.end(n, decode<K>(r));
            }
        } else if (style == Then) {
            if (timeout < 0) {
                co_await qCoro(obj, Sig<K>::ptr()).then([&w, n](R r) { w.end(n, decode<K>(r)); });
            } else {
                co_await qCoro(obj, Sig<K>::ptr(), ms).then([&w, n](std::optional<R> r) { w.end(n, decode<K>(r)); });
            }
        } else {
            if (timeout < 0) {
                const R r = co_await qCoro(obj, Sig<K>::ptr());
                w.end(n, decode<K>(r));
            } else {
                const std::optional<R> r = co_await qCoro(obj, Sig<K>::ptr(), ms);
                w.end(n, decode<K>(r));
            }
        }
        PBT_CHECK(w.awaits[n].done, "an awaiter was resumed without a result");
        if (emits) {
            w.emitSignal(o, K);
        }
    }
}

enum { OpAwait, OpEmit, OpDestroy, OpAdvance, OpSchedule, OpBurst, OpBlock };
constexpr qint64 timeouts[] = {0, 10, 20, 30, -1, -1, 3'600'010, 30 * 86'400'000LL, 50 * 86'400'000LL};
constexpr int Timeouts = sizeof(timeouts) / sizeof(timeouts[0]);

void run(const Case &c, Run &run) {
    Tracked::reset();
    auto *wp = new World; // coroutines may wait for ever
    World &w = *wp;
    // few kinds per case, so that they meet
    const int kinds[] = {c.cfg[0], c.cfg[1]};
    auto *timers = new QObject;
    for (const auto &op : c.ops) {
        const int o = op.a % Objects;
        const int kind = kinds[op.a / Objects % 2];
        switch (op.k) {
        case OpAwait: {
            if (!w.objects[o]) {
                w.createObject(o);
            }
            const auto timeout = timeouts[op.b % Timeouts];
            const auto style = static_cast<Style>(op.b / Timeouts);
            dispatch(kind, [&]<int K>() { observe<K>(w, o, timeout, style, 1 + op.c % 3, op.c / 3 == 1); });
            break;
        }
        case OpEmit:
            w.emitSignal(o, kind);
            break;
        case OpBurst:
            for (int i = 0; i <= op.b; ++i) {
                w.emitSignal(o, kind);
            }
            break;
        case OpBlock:
            w.toggleBlocked(o);
            break;
        case OpDestroy:
            w.destroyObject(o);
            break;
        case OpAdvance:
            vloop::advance(op.a == 8 ? 31 * 86'400'000LL : op.a == 7 ? 3'600'000 : op.a == 6 ? 100'000 : op.a * 5);
            break;
        case OpSchedule:
            QTimer::singleShot(op.b * 5, timers, [&w, o, kind] { w.emitSignal(o, kind); });
            break;
        }
        // sometimes several things happen before the event loop runs
        if (op.k == OpAdvance || op.k == OpSchedule || op.c % 3 != 2) {
            vloop::drain();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    vloop::settle(20'000'000'000);
    w.invariants();
    delete timers;
    for (int o = 0; o < Objects; ++o) {
        w.destroyObject(o);
    }
    vloop::settle(20'000'000'000);
    w.invariants();
    bool stuck = false;
    for (const auto &a : w.awaits) {
        stuck = stuck || !a.done;
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.delivered, "delivered");
    tag(w.timedOut, "timed-out");
    tag(w.longTimeout, "timed-out-after-INT_MAX-ms");
    tag(w.ignored, "later-emission-ignored");
    tag(w.again, "awaited-again");
    tag(w.gone, "object-destroyed-first");
    tag(w.otherThread, "emitted-on-other-thread");
    tag(w.coincided, "emission-coincides-with-timeout");
    tag(w.whileBlocked, "emission-blocked");
    tag(w.sharedEmission, "several-awaiters");
    if (w.delivered && (w.timedOut || w.ignored || w.again || w.gone || w.sharedEmission)) {
        run.nontrivial();
    }
    if (!stuck) {
        PBT_CHECK(Tracked::total() == 0, Tracked::total(), " signal arguments leaked");
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "signals";
    sc.rule = "histories of awaiting signals of eleven shapes (with and without timeout, repeatedly, by several coroutines), emitting "
              "them (also in bursts, from coroutines, timers and another thread), destroying the senders and letting time pass; "
              "non-trivial when an emission was delivered and an await timed out, was repeated, shared, orphaned or saw a later emission";
    sc.cfg = {{"kind0", Kinds - 1}, {"kind1", Kinds - 1}};
    sc.ops = {{"await", 8, Objects * 2 - 1, Timeouts * Styles - 1, 5},
              {"emit", 8, Objects * 2 - 1, 0, 2},
              {"destroy", 1, Objects - 1, 0, 2},
              {"advance", 4, 8},
              {"schedule", 3, Objects * 2 - 1, 6},
              {"burst", 2, Objects * 2 - 1, 3, 2},
              {"block", 1, Objects - 1, 0, 2}};
    sc.maxOps = 30;
    sc.minOps = 2;
    sc.quickCases = 140000;
    sc.thoroughCases = 1120000;
    sc.run = run;
    const int rc = pbt::main(argc, argv, "C10", {sc});
    worker().quit();
    worker().wait();
    return rc;
}
