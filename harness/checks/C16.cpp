// C16: thread waits report thread state truthfully; moveToThread switches threads.
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorothread.h>

#include <QCoreApplication>
#include <QElapsedTimer>
#include <QEventLoop>
#include <QThread>

#include <dlfcn.h>

#include <array>
#include <atomic>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <thread>
#include <vector>

using namespace pbt;

namespace {

constexpr int Loops = 3; // threads with event loop
constexpr int Short = 3; // a thread that ends by itself
constexpr int Threads = 4;
constexpr int Main = 4;
constexpr int MaxWaits = 40;
constexpr int timeouts[] = {-1, 10, 0, 25};

void spin(int n) {
    for (volatile int i = 0; i < n * 25; i = i + 1) {
    }
}

// Schedule fuzzing: steps at which threads can overtake each other take a while, as given by the case.
std::atomic<unsigned> jitterSeed{0};
std::atomic<unsigned> jitterCount{0};

void jitter() {
    const unsigned seed = jitterSeed;
    if (seed == 0) {
        return;
    }
    unsigned x = seed * 2654435761u + (++jitterCount) * 40503u;
    x ^= x >> 13;
    x *= 0x5bd1e995u;
    x ^= x >> 15;
    if (x % 4 == 0) {
        spin(static_cast<int>(x / 4 % 4 == 0 ? x / 16 % 3000 : x / 16 % 300));
    }
}

template<typename R, typename C>
auto next(const char *symbol) {
    return reinterpret_cast<R (*)(C)>(::dlsym(RTLD_NEXT, symbol));
}

//! A result whose delivery takes some time
struct Result {
    int value = 0;
    explicit Result(int v) : value(v) {}
    Result(const Result &o) : value(o.value) { jitter(); }
    Result(Result &&o) noexcept : value(o.value) { jitter(); }
    Result &operator=(const Result &) = delete;
    ~Result() { jitter(); }
    bool operator==(int v) const { return value == v; }
};

class ShortThread : public QThread {
public:
    int work = 0;

protected:
    void run() override { spin(work); }
};

enum State { NotStarted, Running, Finished };

struct Slot {
    std::unique_ptr<QThread> thread;
    std::unique_ptr<QObject> context;
    State state = NotStarted;
    bool racing = false; // the thread is just about to reach that state
    int incarnation = 0;
};

struct Wait {
    int slot = 0;
    bool forStarted = true;
    int timeout = -1;
    qint64 start = 0;
    std::optional<bool> immediate;
    bool either = false; // it is being decided just now
    bool event = false;
    qint64 eventTime = 0;
    bool done = false;
};

//! A coroutine hopping between threads. Written by whatever thread it runs on.
struct Hop {
    int id = 0;
    bool throws = false;
    std::vector<QThread *> targets;
    std::vector<int> targetSlots;
    std::atomic<int> pending{-1}; // slot it is on its way to
    std::atomic<int> arrivals{0};
    std::atomic<int> wrongThread{0};
    std::atomic<bool> finished{false};
    int awaiters = 0;
    std::atomic<int> results{0};
    std::atomic<int> wrongResults{0};
};

struct World {
    std::array<Slot, Threads> slots;
    std::deque<Wait> waits;
    std::deque<Hop> hops;
    int incarnations = 0;
    int immediate = 0, byEvent = 0, timedOut = 0, raced = 0, lateStart = 0, crossed = 0, several = 0, restarted = 0, coincided = 0, exceptions = 0, blocking = 0;

    Slot &slot(int i) {
        auto &s = slots[i];
        if (!s.thread) {
            if (i == Short) {
                s.thread = std::make_unique<ShortThread>();
            } else {
                s.thread = std::make_unique<QThread>();
                s.context = std::make_unique<QObject>();
                s.context->moveToThread(s.thread.get());
            }
            s.incarnation = ++incarnations;
        }
        return s;
    }
    QThread *thread(int i) { return i == Main ? QCoreApplication::instance()->thread() : slot(i).thread.get(); }

    void event(int i, bool started) {
        for (auto &wt : waits) {
            if (!wt.done && !wt.immediate && !wt.either && wt.slot == i && wt.forStarted == started && !wt.event) {
                wt.event = true;
                wt.eventTime = vloop::now();
            }
        }
    }
    void start(int i, bool sync, int work) {
        auto &s = slot(i);
        settleThread(i);
        if (s.state == Running) {
            return;
        }
        restarted += s.state == Finished;
        PBT_LOG("start thread ", i, " at ", vloop::now());
        if (i == Short) {
            static_cast<ShortThread *>(s.thread.get())->work = work;
        }
        event(i, true);
        s.state = Running;
        for (const auto &h : hops) {
            lateStart += h.pending == i;
        }
        s.thread->start();
        if (i == Short) {
            event(i, false);
            s.state = Finished;
        }
        s.racing = true;
        if (sync) {
            settleThread(i);
        } else {
            ++raced;
        }
    }
    void quit(int i, bool sync) {
        auto &s = slot(i);
        if (i == Short || s.state != Running) {
            return;
        }
        settleThread(i);
        PBT_LOG("quit thread ", i, " at ", vloop::now());
        event(i, false);
        s.state = Finished;
        s.thread->quit();
        s.racing = true;
        if (sync) {
            settleThread(i);
        } else {
            ++raced;
        }
    }
    //! Waits until the thread reached its state, so that it has emitted its signals.
    void settleThread(int i) {
        auto &s = slots[i];
        if (!s.thread || !s.racing) {
            return;
        }
        s.racing = false;
        if (s.state == Finished) {
            s.thread->wait();
        } else {
            QMetaObject::invokeMethod(s.context.get(), [] {}, Qt::BlockingQueuedConnection);
        }
    }
    void settleAll() {
        for (int i = 0; i < Threads; ++i) {
            settleThread(i);
        }
    }

    //! Lets everything happen that can happen now. Coroutines only stay on the way to threads that are not running.
    void quiesce() {
        settleAll();
        QElapsedTimer timer;
        timer.start();
        while (true) {
            vloop::drain();
            bool moving = false;
            for (auto &h : hops) {
                const int p = h.pending;
                moving = moving || (!h.finished && p >= 0 && (p == Main || slots[p].state == Running));
                moving = moving || (h.finished && h.results < h.awaiters);
            }
            for (auto &s : slots) {
                if (s.thread && s.context && s.state == Running) {
                    QMetaObject::invokeMethod(s.context.get(), [] {}, Qt::BlockingQueuedConnection);
                }
            }
            if (!moving) {
                vloop::drain();
                return;
            }
            if (timer.elapsed() > 10000) {
                for (auto &h : hops) {
                    PBT_CHECK(!(h.finished && h.results < h.awaiters), "the awaiter of finished coroutine ", h.id, " did not get its result");
                    const int p = h.pending;
                    PBT_CHECK(h.finished || !(p == Main || slots[p].state == Running), "coroutine ", h.id, " did not get to running thread ", p);
                }
                return;
            }
        }
    }
    bool hopping() const {
        for (const auto &h : hops) {
            if (!h.finished || h.results < h.awaiters) {
                return true;
            }
        }
        return false;
    }

    int begin(int i, bool forStarted, int timeout) {
        auto &s = slot(i);
        Wait wt;
        wt.slot = i;
        wt.forStarted = forStarted;
        wt.timeout = timeout;
        wt.start = vloop::now();
        switch (s.state) {
        case NotStarted:
            if (!forStarted) {
                wt.immediate = false;
            }
            break;
        case Running:
            if (forStarted) {
                wt.immediate = true;
            }
            break;
        case Finished:
            if (!s.racing) {
                wt.immediate = !forStarted;
            } else if (forStarted) {
                wt.either = true;
            } else {
                wt.event = true;
                wt.eventTime = vloop::now();
            }
            break;
        }
        immediate += wt.immediate.has_value();
        waits.push_back(wt);
        PBT_LOG("wait ", waits.size() - 1, " for thread ", i, forStarted ? " to start" : " to finish", " timeout ", timeout, " at ", vloop::now(), s.racing ? " (racing)" : "");
        return static_cast<int>(waits.size()) - 1;
    }
    void end(int n, bool result) {
        auto &wt = waits[n];
        PBT_LOG("wait ", n, " ended with ", result, " at ", vloop::now());
        PBT_CHECK(!wt.done, "wait ", n, " was resumed twice");
        wt.done = true;
        if (wt.immediate) {
            PBT_CHECK(result == *wt.immediate, "wait ", n, " returned ", result, ", but the thread was ", *wt.immediate ? "" : "not ", "in that state");
            return;
        }
        if (wt.either) {
            return;
        }
        const qint64 elapsed = vloop::now() - wt.start;
        PBT_CHECK(wt.timeout < 0 || elapsed <= wt.timeout, "wait ", n, " ended too late");
        if (result) {
            ++byEvent;
            PBT_CHECK(wt.event, "wait ", n, " returned true before the thread changed its state");
        } else {
            ++timedOut;
            coincided += wt.event;
            PBT_CHECK(wt.timeout >= 0 && elapsed >= wt.timeout && (!wt.event || wt.eventTime - wt.start >= wt.timeout), "wait ", n,
                      wt.event ? " returned false although the thread changed its state in time" : " returned false before it timed out");
        }
    }
    void invariants() {
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done) {
                continue;
            }
            PBT_CHECK(!wt.immediate, "wait ", n, " did not return at once");
            PBT_CHECK(!wt.event, "wait ", n, " hangs although the thread changed its state");
            PBT_CHECK(!wt.either, "wait ", n, " hangs although the thread has finished");
            PBT_CHECK(wt.timeout < 0 || vloop::now() - wt.start < wt.timeout, "wait ", n, " did not time out");
        }
        for (const auto &h : hops) {
            PBT_CHECK(h.wrongThread == 0, "coroutine ", h.id, " continued on the wrong thread");
            PBT_CHECK(h.arrivals <= static_cast<int>(h.targets.size()), "coroutine ", h.id, " was resumed too often");
            PBT_CHECK(h.results <= h.awaiters, "an awaiter of coroutine ", h.id, " was resumed more than once");
            PBT_CHECK(h.wrongResults == 0, "an awaiter of coroutine ", h.id, " got a wrong result");
            PBT_CHECK(!h.finished || h.results == h.awaiters, "an awaiter of coroutine ", h.id, " did not get its result");
        }
    }
};

QCoro::Task<> waitThread(World &w, int i, bool forStarted, int timeoutIndex, int style) {
    using namespace std::chrono;
    const int timeout = timeouts[timeoutIndex];
    const int n = w.begin(i, forStarted, timeout);
    auto *t = w.thread(i);
    bool r = false;
    if (style == 0) {
        r = forStarted ? co_await qCoro(t).waitForStarted(milliseconds(timeout)) : co_await qCoro(t).waitForFinished(milliseconds(timeout));
    } else {
        auto task = forStarted ? (timeout < 0 ? qCoro(*t).waitForStarted() : qCoro(*t).waitForStarted(milliseconds(timeout)))
                               : (timeout < 0 ? qCoro(*t).waitForFinished() : qCoro(*t).waitForFinished(milliseconds(timeout)));
        r = co_await task;
    }
    w.end(n, r);
}

QCoro::Task<Result> hop(Hop &h) {
    for (std::size_t i = 0; i < h.targets.size(); ++i) {
        h.pending = h.targetSlots[i];
        co_await QCoro::moveToThread(h.targets[i]);
        ++h.arrivals;
        h.wrongThread += QThread::currentThread() != h.targets[i];
    }
    h.finished = true;
    if (h.throws) {
        throw TestError(h.id);
    }
    co_return Result(h.id);
}

QCoro::Task<Result> nest(Hop &h, int delay) {
    auto task = hop(h);
    spin(delay);
    co_return co_await task;
}

QCoro::Task<> awaitTask(QCoro::Task<Result> &task, Hop &h) {
    bool ok = false;
    try {
        ok = co_await task == h.id && !h.throws;
    } catch (const TestError &e) {
        ok = h.throws && e.code == h.id;
    }
    h.wrongResults += !ok;
    ++h.results;
}

QCoro::Task<> awaitHop(World &w, Hop &h, int style, int delay) {
    bool ok = false;
    try {
        switch (style) {
        case 0: {
            auto task = hop(h);
            spin(delay);
            ok = co_await task == h.id && !h.throws;
            break;
        }
        case 1: ok = co_await hop(h) == h.id && !h.throws; break;
        case 2: ok = co_await nest(h, delay) == h.id && !h.throws; break;
        default: {
            // a second awaiter
            auto task = hop(h);
            awaitTask(task, h);
            spin(delay);
            ok = co_await task == h.id && !h.throws;
            break;
        }
        }
    } catch (const TestError &e) {
        ok = h.throws && e.code == h.id;
    }
    h.wrongResults += !ok;
    ++h.results;
}

enum { OpStart, OpQuit, OpWait, OpHop, OpAdvance, OpRaceStart };

void run(const Case &c, Run &run) {
    jitterSeed = static_cast<unsigned>(c.cfg[0]);
    jitterCount = 0;
    auto *wp = new World;
    World &w = *wp;
    for (const auto &op : c.ops) {
        switch (op.k) {
        case OpStart: w.start(op.a, op.b == 0, op.c); break;
        case OpQuit:
            w.quiesce();
            if (!w.hopping()) {
                w.quit(op.a, op.b == 0);
                spin(op.c);
            }
            break;
        case OpWait:
            if (w.waits.size() < MaxWaits) {
                w.slot(op.a);
                const auto n = w.waits.size();
                waitThread(w, op.a, op.b % 2, op.b / 2 % 4, op.b / 8);
                PBT_CHECK(!w.waits[n].immediate || w.waits[n].done, "wait ", n, " did not return at once");
            }
            break;
        case OpRaceStart: {
            // another thread starts the thread while this one is about to wait for that
            auto &s = w.slot(op.a);
            if (op.a == Short || s.state != NotStarted || w.waits.size() >= MaxWaits) {
                break;
            }
            ++w.raced;
            std::atomic<bool> go{false};
            auto *raw = s.thread.get();
            std::thread t([&go, raw, n = op.c] {
                while (!go) {
                }
                spin(n);
                raw->start();
            });
            Wait wt;
            PBT_LOG("start thread ", op.a, " concurrently");
            waitThread(w, op.a, true, 0, op.b % 2); // registers as waiting for the start
            w.event(op.a, true);
            go = true;
            bool got = false;
            auto waiter = [](QThread *thread, bool &got) -> QCoro::Task<> { got = co_await qCoro(thread).waitForStarted(); };
            spin(op.b * 3);
            waiter(raw, got);
            t.join();
            s.state = Running;
            s.racing = true;
            w.settleThread(op.a);
            vloop::drain();
            PBT_CHECK(got, "waiting for a thread that is being started hangs or returned false");
            if (!got) {
                return;
            }
            break;
        }
        case OpHop: {
            if (w.hops.size() >= 12) {
                break;
            }
            // a coroutine may still get to run on a thread that is about to end, and be stranded there
            for (int i = 0; i < Threads; ++i) {
                if (w.slots[i].state == Finished) {
                    w.settleThread(i);
                }
            }
            auto &h = w.hops.emplace_back();
            h.id = static_cast<int>(w.hops.size());
            h.throws = op.b % 4 == 3;
            int code = op.a;
            const int style = op.c % 6;
            const int length = 1 + op.b / 4 % 4;
            std::string path;
            for (int k = 0; k < length; ++k) {
                int t = code % 4 == 3 ? Main : code % 4;
                if (style == 5 && t != Main && w.slots[t].state != Running) {
                    t = Main; // a blocking wait could not end
                }
                code /= 4;
                h.targetSlots.push_back(t);
                h.targets.push_back(w.thread(t));
                path += ' ' + std::to_string(t);
                w.crossed += k > 0 && h.targetSlots[k - 1] != t && t != Main;
            }
            PBT_LOG("coroutine ", h.id, " hops to", path, ", awaited in style ", style);
            w.exceptions += h.throws;
            if (style == 5) {
                ++w.blocking;
                bool ok = false;
                try {
                    if (op.c % 2) {
                        auto task = hop(h);
                        spin(op.c * 60);
                        ok = QCoro::waitFor(task) == h.id && !h.throws;
                    } else {
                        ok = QCoro::waitFor(hop(h)) == h.id && !h.throws;
                    }
                } catch (const TestError &e) {
                    ok = h.throws && e.code == h.id;
                }
                PBT_CHECK(ok && h.finished, "waitFor() returned a wrong result of coroutine ", h.id);
            } else if (style >= 4) {
                hop(h); // nobody awaits it
            } else {
                h.awaiters = style == 3 ? 2 : 1;
                w.several += style == 3;
                awaitHop(w, h, style, op.c / 6 * op.c);
            }
            break;
        }
        case OpAdvance:
            w.quiesce();
            w.invariants();
            vloop::advance(op.a == 7 ? 100'000 : op.a * 5);
            break;
        }
        // racing threads get some time before anybody looks at what happened
        if (op.k == OpHop ? op.c % 2 == 0 : !(op.k == OpStart || op.k == OpQuit) || op.b == 0) {
            w.quiesce();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    w.quiesce();
    w.invariants();
    // everything comes to an end
    for (int i = 0; i < Threads; ++i) {
        if (w.slots[i].thread && w.slots[i].state != Running && i != Short && w.hopping()) {
            w.start(i, true, 0);
        }
    }
    w.quiesce();
    w.invariants();
    for (std::size_t i = 0; i < w.hops.size(); ++i) {
        PBT_CHECK(w.hops[i].finished, "coroutine ", w.hops[i].id, " never arrived");
    }
    if (run.failed()) {
        return;
    }
    for (int i = 0; i < Threads; ++i) {
        if (w.slots[i].thread && w.slots[i].state == NotStarted) {
            w.start(i, true, 0);
        }
    }
    for (int i = 0; i < Threads; ++i) {
        w.quit(i, true);
    }
    w.quiesce();
    w.invariants();
    vloop::settle();
    w.invariants();
    for (std::size_t n = 0; n < w.waits.size(); ++n) {
        PBT_CHECK(w.waits[n].done, "wait ", n, " never returned");
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.immediate, "wait-immediate");
    tag(w.byEvent, "wait-ended-by-thread");
    tag(w.timedOut, "wait-timed-out");
    tag(w.coincided, "event-at-timeout");
    tag(w.raced, "racing");
    tag(w.restarted, "restarted");
    tag(w.lateStart, "hop-before-start");
    tag(w.crossed, "several-hops");
    tag(w.several, "several-awaiters");
    tag(w.exceptions, "exception");
    tag(w.blocking, "blocking-wait");
    tag(!w.hops.empty(), "hop");
    if ((w.byEvent && (w.timedOut || w.raced)) || w.crossed || w.lateStart) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
    }
}

} // namespace

// These take precedence over the ones in the Qt library.
bool QThread::isFinished() const {
    static const auto f = next<bool, const QThread *>("_ZNK7QThread10isFinishedEv");
    jitter();
    const bool r = f(this);
    jitter();
    return r;
}

bool QThread::isRunning() const {
    static const auto f = next<bool, const QThread *>("_ZNK7QThread9isRunningEv");
    jitter();
    const bool r = f(this);
    jitter();
    return r;
}

std::exception_ptr std::current_exception() noexcept {
    static const auto f = reinterpret_cast<std::exception_ptr (*)()>(::dlsym(RTLD_NEXT, "_ZSt17current_exceptionv"));
    jitter();
    return f();
}

int QEventLoop::exec(ProcessEventsFlags flags) {
    static const auto f = reinterpret_cast<int (*)(QEventLoop *, ProcessEventsFlags)>(::dlsym(RTLD_NEXT, "_ZN10QEventLoop4execE6QFlagsINS_17ProcessEventsFlagEE"));
    jitter();
    return f(this, flags);
}

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setPatienceMs(5000);
    Scenario sc;
    sc.name = "threads";
    sc.rule = "histories of starting, ending and restarting threads (also while somebody is about to wait for that), waits with and without "
              "timeouts, and coroutines hopping over up to four threads which are running or started later, awaited from the main thread; "
              "non-trivial when a wait was ended by the thread next to timeouts or races, or a coroutine made several hops or waited for a "
              "thread to be started";
    sc.cfg = {{"jitter", 50}};
    sc.ops = {{"start", 6, Threads - 1, 2, 60},
              {"quit", 5, Loops - 1, 2, 60},
              {"wait", 9, Threads - 1, 15},
              {"hop", 6, 255, 15, 47},
              {"advance", 3, 7},
              {"raceStart", 2, Loops - 1, 10, 60}};
    sc.maxOps = 16;
    sc.minOps = 2;
    sc.quickCases = 8000;
    sc.thoroughCases = 64000;
    sc.run = run;
    return pbt::main(argc, argv, "C16", {sc});
}
