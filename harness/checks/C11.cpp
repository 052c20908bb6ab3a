// C11: a signal listener delivers every emission once, in order, until it ends.
#include "emitter.h"
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcoroasyncgenerator.h>
#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QThread>
#include <QTimer>

#include <array>
#include <deque>
#include <memory>
#include <optional>

using namespace pbt;
using namespace emitter;

namespace {

constexpr int Objects = 3; // the last one lives in another thread
constexpr int Slots = 4;
constexpr int Gates = 2;
constexpr int MaxListeners = 20;
constexpr int MaxEmissions = 200;

QThread &worker() {
    static auto *t = [] {
        auto *t = new QThread;
        t->start();
        return t;
    }();
    return *t;
}

struct Emission {
    int value;
    qint64 time;
    bool drained = false;
};

struct Listener {
    int object = 0;
    int kind = 0;
    qint64 timeout = -1;
    std::deque<Emission> pending;
    bool objectGone = false;
    bool dropped = false;
    bool ended = false;
    bool begun = false;
    bool consumer = false; // some coroutine is consuming it
    bool asked = false;    // and waiting for the next emission
    qint64 askedAt = 0;
    int gate = -1;         // or doing something else
    qint64 sleepUntil = -1;
    int taken = 0;
};

struct LiveBase {
    virtual ~LiveBase() = default;
};
template<int K>
struct Live : LiveBase {
    using Gen = QCoro::AsyncGenerator<typename Sig<K>::Result>;
    explicit Live(Gen &&g) : gen(std::move(g)) {}
    Gen gen;
    std::optional<typename Gen::iterator> it;
};

struct World {
    std::array<std::unique_ptr<Emitter>, Objects> objects;
    std::array<int, Objects> incarnation{};
    int incarnations = 0;
    int emissions = 0;
    std::deque<Listener> listeners;
    std::array<std::unique_ptr<LiveBase>, Slots> live;
    std::array<int, Slots> ghost;
    std::array<Gate, Gates + 1> gates;
    int delivered = 0, timedOut = 0, whileBusy = 0, beforeBegin = 0, droppedWaiting = 0, gone = 0, otherThread = 0, shared = 0, resumedLater = 0;

    World() { ghost.fill(-1); }

    template<typename F>
    void onThreadOf(int o, F &&f) {
        if (o == Objects - 1) {
            QMetaObject::invokeMethod(objects[o].get(), std::forward<F>(f), Qt::BlockingQueuedConnection);
        } else {
            f();
        }
    }
    void createObject(int o) {
        objects[o] = std::make_unique<Emitter>();
        incarnation[o] = ++incarnations;
        if (o == Objects - 1) {
            objects[o]->moveToThread(&worker());
        }
    }
    void destroyObject(int o) {
        if (!objects[o]) {
            return;
        }
        drain(); // what becomes of emissions on their way when their sender is destroyed is not specified
        PBT_LOG("destroy object ", incarnation[o]);
        for (auto &l : listeners) {
            if (!l.dropped && l.object == incarnation[o]) {
                l.objectGone = true;
                ++gone;
            }
        }
        if (o == Objects - 1) {
            auto *raw = objects[o].release();
            QObject ctx;
            ctx.moveToThread(&worker());
            QMetaObject::invokeMethod(&ctx, [raw, &ctx] { delete raw; ctx.moveToThread(QCoreApplication::instance()->thread()); }, Qt::BlockingQueuedConnection);
        } else {
            objects[o].reset();
        }
        incarnation[o] = 0;
    }
    void emitSignal(int o, int kind) {
        if (!objects[o] || emissions >= MaxEmissions) {
            return;
        }
        const int v = carries(kind) ? 1000 + ++emissions : 0;
        PBT_LOG("emit signal ", kind, " of object ", incarnation[o], " with ", v, " at ", vloop::now());
        int hit = 0;
        for (auto &l : listeners) {
            if (!l.dropped && !l.ended && l.object == incarnation[o] && l.kind == kind) {
                l.pending.push_back({v, vloop::now()});
                ++hit;
                whileBusy += l.consumer && !l.asked;
                beforeBegin += !l.begun;
            }
        }
        shared += hit > 1;
        otherThread += hit && o == Objects - 1;
        onThreadOf(o, [&] { dispatch(kind, [&]<int K>() { Sig<K>::emitOn(*objects[o], v); }); });
    }
    void drain() {
        // what is on its way now has been delivered afterwards
        const int mark = emissions;
        vloop::drain();
        for (auto &l : listeners) {
            for (auto &e : l.pending) {
                e.drained = e.drained || (mark == emissions);
            }
        }
    }
    template<int K>
    void create(int s, int o, qint64 timeout) {
        if (!objects[o]) {
            createObject(o);
        }
        if (listeners.size() >= MaxListeners) {
            return;
        }
        drop(s);
        if (ghost[s] >= 0) {
            return; // in use
        }
        const int n = static_cast<int>(listeners.size());
        listeners.emplace_back();
        listeners.back().object = incarnation[o];
        listeners.back().kind = K;
        listeners.back().timeout = timeout;
        PBT_LOG("listener ", n, ": signal ", K, " of object ", incarnation[o], " timeout ", timeout);
        live[s] = std::make_unique<Live<K>>(timeout < 0 ? qCoroSignalListener(objects[o].get(), Sig<K>::ptr())
                                                        : qCoroSignalListener(objects[o].get(), Sig<K>::ptr(), std::chrono::milliseconds(timeout)));
        ghost[s] = n;
    }
    void drop(int s) {
        const int n = ghost[s];
        if (n < 0) {
            return;
        }
        auto &l = listeners[n];
        if (l.consumer && !l.asked) {
            return; // the consumer is about to use it again
        }
        PBT_LOG("drop listener ", n, l.asked ? ", which is being waited for" : "");
        droppedWaiting += l.asked;
        l.dropped = true;
        l.pending.clear();
        ghost[s] = -1;
        live[s].reset();
    }

    void ask(int n) {
        auto &l = listeners[n];
        l.asked = true;
        l.askedAt = vloop::now();
        PBT_LOG("listener ", n, " is asked at ", vloop::now());
    }
    bool answered(int n, std::optional<int> v) {
        auto &l = listeners[n];
        PBT_LOG("listener ", n, v ? " delivers " : " ends ", v ? *v : 0, " at ", vloop::now());
        PBT_CHECK(QThread::currentThread() == QCoreApplication::instance()->thread(), "a consumer was resumed on another thread");
        PBT_CHECK(l.asked, "the consumer of listener ", n, " was resumed although it does not wait for the listener");
        PBT_CHECK(!l.dropped, "the consumer of listener ", n, " was resumed after the listener was destroyed");
        l.asked = false;
        if (v) {
            PBT_CHECK(!l.pending.empty(), "listener ", n, " delivered an emission that never happened (or again)");
            if (!l.pending.empty()) {
                PBT_CHECK(*v == l.pending.front().value, "listener ", n, " delivered ", *v, " instead of ", l.pending.front().value);
                l.pending.pop_front();
            }
            ++l.taken;
            ++delivered;
            return !pbt::current->failed();
        }
        l.ended = true;
        if (!l.objectGone) {
            PBT_CHECK(l.timeout >= 0, "listener ", n, " without timeout ended");
            const auto waited = vloop::now() - l.askedAt;
            PBT_CHECK(waited >= l.timeout, "listener ", n, " ended after waiting ", waited, " instead of ", l.timeout, " ms");
        }
        if (!l.pending.empty()) {
            const auto &e = l.pending.front();
            const bool coincided = !e.drained && l.timeout >= 0 && std::max(e.time, l.askedAt) - l.askedAt >= l.timeout;
            PBT_CHECK(coincided, "listener ", n, " ended although the signal was emitted meanwhile");
        }
        timedOut += !l.objectGone;
        l.pending.clear();
        return false;
    }
    void invariants() {
        for (std::size_t n = 0; n < listeners.size(); ++n) {
            const auto &l = listeners[n];
            if (!l.consumer || l.dropped) {
                continue;
            }
            if (l.asked) {
                PBT_CHECK(l.pending.empty(), "the consumer of listener ", n, " was not resumed although the signal was emitted");
                PBT_CHECK(l.objectGone || l.timeout < 0 || vloop::now() - l.askedAt < l.timeout, "listener ", n, " did not end although nothing arrived for ",
                          l.timeout, " ms");
            } else {
                PBT_CHECK((l.gate >= 0 && !gates[l.gate].isOpen()) || l.sleepUntil >= vloop::now(), "the consumer of listener ", n, " stopped in the middle");
            }
        }
    }
};

//! Takes up to count emissions from listener in slot s, doing something else between them
template<int K>
QCoro::Task<> consume(World &w, int s, int count, int busy, bool drops, bool emits) {
    const int n = w.ghost[s];
    auto &l = w.listeners[n];
    auto &live = static_cast<Live<K> &>(*w.live[s]);
    w.resumedLater += l.begun;
    l.consumer = true;
    bool more = true;
    for (int i = 0; i < count && more; ++i) {
        if (i > 0 && busy > 0) {
            if (busy <= Gates) {
                l.gate = busy - 1;
                co_await w.gates[l.gate];
                PBT_CHECK(l.gate == busy - 1, "a consumer was resumed although it waits for something else");
                l.gate = -1;
            } else {
                const auto due = l.sleepUntil = vloop::now() + (busy - Gates) * 5;
                co_await QCoro::sleepFor(std::chrono::milliseconds((busy - Gates) * 5));
                PBT_CHECK(vloop::now() >= due && l.sleepUntil == due, "a consumer was resumed although it waits for something else");
                l.sleepUntil = -1;
            }
        }
        w.ask(n);
        if (!l.begun) {
            l.begun = true;
            live.it.emplace(co_await live.gen.begin());
        } else {
            co_await ++*live.it;
        }
        std::optional<int> v;
        if (*live.it != live.gen.end()) {
            v = Sig<K>::decode(**live.it);
        }
        more = w.answered(n, v);
        if (emits && more && i % 2 == 0) {
            for (int o = 0; o < Objects; ++o) {
                if (w.incarnation[o] == l.object) {
                    w.emitSignal(o, K);
                }
            }
        }
    }
    l.consumer = false;
    if (drops) {
        // from within whatever resumed the consumer
        for (int i = 0; i < Slots; ++i) {
            if (w.ghost[i] == n) {
                w.drop(i);
            }
        }
    }
}

enum { OpListen, OpConsume, OpEmit, OpDrop, OpDestroy, OpAdvance, OpSchedule, OpOpen, OpMove };
constexpr int Busy = Gates + 3;

void run(const Case &c, Run &run) {
    Tracked::reset();
    auto *wp = new World; // coroutines may wait for ever
    World &w = *wp;
    const int kinds[] = {c.cfg[0], c.cfg[1]};
    auto *timers = new QObject;
    for (const auto &op : c.ops) {
        int o = op.a % Objects;
        int kind = kinds[op.a / Objects % 2];
        if (op.k == OpEmit || op.k == OpSchedule) {
            // aim at a listener
            for (int i = 0; i < Slots; ++i) {
                const int n = w.ghost[(op.a + i) % Slots];
                if (n >= 0 && !w.listeners[n].objectGone && !w.listeners[n].ended) {
                    kind = w.listeners[n].kind;
                    for (int k = 0; k < Objects; ++k) {
                        o = w.incarnation[k] == w.listeners[n].object ? k : o;
                    }
                    break;
                }
            }
        }
        switch (op.k) {
        case OpListen: {
            const int t = op.b % 8;
            const qint64 timeout = t == 6 ? 50 * 86'400'000LL : t == 7 ? 3'600'010 : t == 0 ? 20 : t == 5 ? 0 : t == 4 ? 10 : t == 3 ? 40 : -1;
            dispatch(kind, [&]<int K>() { w.create<K>(op.b / 8, o, timeout); });
            break;
        }
        case OpConsume: {
            int s = op.a % Slots;
            for (int i = 0; i < Slots; ++i) {
                const int k = (op.a + i) % Slots;
                if (w.ghost[k] >= 0 && !w.listeners[w.ghost[k]].consumer && !w.listeners[w.ghost[k]].ended) {
                    s = k;
                    break;
                }
            }
            const int n = w.ghost[s];
            if (n < 0 || w.listeners[n].consumer || w.listeners[n].ended) {
                break;
            }
            const int count = 1 + op.a / Slots;
            PBT_LOG("consume ", count, " emissions of listener ", n);
            dispatch(w.listeners[n].kind, [&]<int K>() { consume<K>(w, s, count, op.b % Busy, op.b / Busy % 3 == 1, op.b / Busy / 3 == 1); });
            break;
        }
        case OpEmit:
            for (int i = 0; i <= op.b; ++i) {
                w.emitSignal(o, kind);
            }
            break;
        case OpDrop:
            w.drop(op.a);
            break;
        case OpDestroy:
            w.destroyObject(o);
            break;
        case OpAdvance:
            vloop::advance(op.a == 8 ? 31 * 86'400'000LL : op.a == 7 ? 3'600'000 : op.a == 6 ? 100'000 : op.a * 5);
            break;
        case OpSchedule:
            QTimer::singleShot(op.b * 5, timers, [&w, o, kind] { w.emitSignal(o, kind); });
            break;
        case OpOpen:
            PBT_LOG("pulse gate ", op.a);
            w.gates[op.a].pulse();
            break;
        case OpMove:
            std::swap(w.live[op.a], w.live[op.b]);
            std::swap(w.ghost[op.a], w.ghost[op.b]);
            break;
        }
        if (op.k == OpAdvance || op.k == OpSchedule || op.c % 3 != 2) {
            w.drain();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    vloop::settle(20'000'000'000);
    w.invariants();
    for (auto &g : w.gates) {
        g.open();
    }
    vloop::settle(20'000'000'000);
    w.invariants();
    delete timers;
    for (int s = 0; s < Slots; ++s) {
        w.drop(s);
    }
    vloop::settle(20'000'000'000);
    for (int o = 0; o < Objects; ++o) {
        w.destroyObject(o);
    }
    vloop::settle(20'000'000'000);
    w.invariants();
    bool stuck = false;
    for (const auto &l : w.listeners) {
        stuck = stuck || l.consumer;
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.delivered, "delivered");
    tag(w.timedOut, "timed-out");
    tag(w.whileBusy, "emitted-while-consumer-busy");
    tag(w.beforeBegin, "emitted-before-begin");
    tag(w.droppedWaiting, "dropped-while-waiting");
    tag(w.gone, "object-destroyed");
    tag(w.otherThread, "emitted-on-other-thread");
    tag(w.shared, "several-listeners");
    tag(w.resumedLater, "consumed-in-portions");
    if (w.delivered > 1 && (w.timedOut || w.whileBusy || w.beforeBegin || w.droppedWaiting || w.gone)) {
        run.nontrivial();
    }
    if (!stuck) {
        PBT_CHECK(Tracked::total() == 0, Tracked::total(), " signal arguments leaked");
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "listeners";
    sc.rule = "histories of creating, consuming, moving and dropping listeners of signals of eleven shapes (with and without timeout), "
              "emitting the signals at any time (also in bursts, from coroutines, timers and another thread) and letting time pass; "
              "non-trivial when several emissions were delivered and some happened before begin() or while the consumer was busy, or a "
              "listener timed out or was dropped while waiting, or its object destroyed";
    sc.cfg = {{"kind0", Kinds - 1}, {"kind1", Kinds - 1}};
    sc.ops = {{"listen", 5, Objects * 2 - 1, 8 * Slots - 1, 2},
              {"consume", 8, Slots * 6 - 1, Busy * 9 - 1, 2},
              {"emit", 9, Objects * 2 - 1, 2, 2},
              {"drop", 1, Slots - 1, 0, 2},
              {"destroy", 1, Objects - 1, 0, 2},
              {"advance", 4, 8},
              {"schedule", 3, Objects * 2 - 1, 6},
              {"open", 3, Gates - 1, 0, 2},
              {"move", 1, Slots - 1, Slots - 1, 2}};
    sc.maxOps = 35;
    sc.minOps = 3;
    sc.quickCases = 200000;
    sc.thoroughCases = 1600000;
    sc.run = run;
    const int rc = pbt::main(argc, argv, "C11", {sc});
    worker().quit();
    worker().wait();
    return rc;
}
