// C12: timers and sleeps resume exactly once, at the right time.
#include "pbt.h"
#include "vloop.h"

#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QTimer>

#include <array>
#include <chrono>
#include <cmath>
#include <deque>
#include <memory>

using namespace pbt;

namespace {

using std::chrono::duration;
using std::chrono::milliseconds;
using std::chrono::nanoseconds;
using i128 = __int128;

qint64 caseStart = 0; // the virtual time grows over all cases

//! Clocks that follow the virtual time, from different epochs
template<int Id>
struct VirtualClock {
    using duration = nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<VirtualClock>;
    static constexpr bool is_steady = true;
    static constexpr std::int64_t offsetMs = Id == 0 ? 0 : Id == 1 ? 1'700'000'000'000 : -2'000'000'000'000;
    static time_point now() { return time_point(milliseconds(vloop::now() - caseStart + offsetMs)); }
};

constexpr int Timers = 4;
constexpr int MaxWaits = 60;

struct TimerSlot {
    std::unique_ptr<QTimer> timer;
    int emissions = 0;
    qint64 lastEmission = -1;
};

struct Wait {
    int timer = -1; // -1: a sleep
    const QTimer *object = nullptr;
    int emissions = 0;
    bool mustNotSuspend = false;
    bool deferred = false;
    // sleeps
    qint64 earliest = 0;
    qint64 latest = 0;
    bool done = false;
    bool orphan = false;
};

struct World {
    std::array<TimerSlot, Timers> slots;
    std::deque<Wait> waits;
    int overdue = 0, resumed = 0, inactive = 0, stopped = 0, sleeps = 0, past = 0, longSleeps = 0, again = 0, sharedTimeout = 0, subMs = 0, systemClock = 0;

    QTimer &timer(int i) {
        auto &s = slots[i];
        if (!s.timer) {
            s.timer = std::make_unique<QTimer>();
            QObject::connect(s.timer.get(), &QTimer::timeout, [&s] {
                ++s.emissions;
                s.lastEmission = vloop::now();
            });
        }
        return *s.timer;
    }
    int begin(int i) {
        Wait wt;
        wt.timer = i;
        wt.object = &timer(i);
        wt.emissions = slots[i].emissions;
        wt.mustNotSuspend = !timer(i).isActive();
        inactive += wt.mustNotSuspend;
        overdue += timer(i).isActive() && timer(i).remainingTime() == 0;
        waits.push_back(wt);
        PBT_LOG("wait ", waits.size() - 1, " for timer ", i, wt.mustNotSuspend ? " (inactive)" : "", " at ", vloop::now());
        return static_cast<int>(waits.size()) - 1;
    }
    void end(int n) {
        auto &wt = waits[n];
        PBT_LOG("wait ", n, " resumed at ", vloop::now());
        PBT_CHECK(!wt.done, "wait ", n, " was resumed twice");
        wt.done = true;
        if (wt.timer < 0) {
            PBT_CHECK(vloop::now() >= wt.earliest, "a sleep ended at ", vloop::now(), ", before ", wt.earliest);
            PBT_CHECK(wt.deferred || vloop::now() <= wt.latest, "a sleep ended at ", vloop::now(), ", after ", wt.latest);
            return;
        }
        if (wt.mustNotSuspend) {
            return;
        }
        ++resumed;
        PBT_CHECK(!wt.orphan, "wait ", n, " was resumed although its timer was destroyed");
        const auto &s = slots[wt.timer];
        PBT_CHECK(s.emissions > wt.emissions, "wait ", n, " was resumed before the timer's timeout");
        PBT_CHECK(s.emissions <= wt.emissions + 1 && s.lastEmission == vloop::now(), "wait ", n, " was not resumed at the next timeout but a later one");
    }
    void invariants() {
        int waiting[Timers] = {};
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done || wt.orphan) {
                continue;
            }
            if (wt.timer < 0) {
                PBT_CHECK(wt.deferred || vloop::now() < wt.latest, "sleep ", n, " did not end at ", wt.latest);
                continue;
            }
            PBT_CHECK(!wt.mustNotSuspend, "awaiting an inactive timer suspended");
            PBT_CHECK(slots[wt.timer].emissions == wt.emissions, "wait ", n, " was not resumed by the timer's timeout");
            sharedTimeout += ++waiting[wt.timer] > 1;
            stopped += !slots[wt.timer].timer->isActive();
        }
    }
};

QCoro::Task<> waitTimer(World &w, int i, int style, int count, int then) {
    for (int k = 0; k < count && w.waits.size() < MaxWaits; ++k) {
        auto &timer = w.timer(i);
        const int n = w.begin(i);
        w.again += k > 0;
        switch (style) {
        case 0: co_await timer; break;
        case 1: co_await &timer; break;
        case 2: co_await qCoro(timer).waitForTimeout(); break;
        case 3: co_await qCoro(&timer).waitForTimeout(); break;
        default: {
            auto task = qCoro(timer).waitForTimeout();
            co_await task;
        }
        }
        w.end(n);
        switch (then) { // things done from within the timeout
        case 1: timer.stop(); break;
        case 2: timer.start(10); break;
        case 3: timer.setSingleShot(true); break;
        default: break;
        }
    }
}

//! Registers a sleep that is to end at virtual time start + ceil(ns), or at once
int beginSleep(World &w, i128 ns, bool deferred) {
    Wait wt;
    const i128 ms = ns <= 0 ? 0 : (ns + 999'999) / 1'000'000;
    wt.earliest = wt.latest = vloop::now() + static_cast<qint64>(ms);
    wt.deferred = deferred;
    ++w.sleeps;
    w.past += ns <= 0;
    w.subMs += ns % 1'000'000 != 0;
    w.longSleeps += ms > 0x7fffffff;
    w.waits.push_back(wt);
    PBT_LOG("sleep ", w.waits.size() - 1, " for ", static_cast<double>(ns) / 1e6, " ms at ", vloop::now());
    return static_cast<int>(w.waits.size()) - 1;
}

constexpr std::int64_t usTable[] = {10'000, 0, 1'000, 25'000, 500, 1'500, -1, -20'000, 33'333, 60'000'000, 5'000, 999, 1'001,
                                    86'400'000'000 /* a day */, 86'400'000'000 * 24, 86'400'000'000 * 25, 86'400'000'000 * 50, 86'400'000'000 * 400};
constexpr int Durations = sizeof(usTable) / sizeof(usTable[0]);

template<typename Make>
QCoro::Task<> sleepWith(World &w, i128 ns, bool deferred, Make make) {
    const int n = beginSleep(w, ns, deferred);
    if (deferred) {
        QCoro::Task<> task = make();
        co_await QCoro::sleepFor(milliseconds(7));
        PBT_CHECK(task.isReady() == (vloop::now() > w.waits[n].latest) || vloop::now() == w.waits[n].latest,
                  "a sleep that nobody awaits yet did not pass in time");
        if (!task.isReady()) {
            w.waits[n].deferred = false;
        }
        co_await task;
    } else {
        co_await make();
    }
    w.end(n);
}

//! The same time span expressed in different types. Returns the exact length of what was requested.
void sleepFor(World &w, std::int64_t us, int unit, bool deferred) {
    using namespace std::chrono;
    switch (unit) {
    case 0: {
        const auto d = microseconds(us);
        sleepWith(w, i128(us) * 1000, deferred, [d] { return QCoro::sleepFor(d); });
        break;
    }
    case 1: {
        const auto d = milliseconds(us / 1000);
        sleepWith(w, i128(d.count()) * 1'000'000, deferred, [d] { return QCoro::sleepFor(d); });
        break;
    }
    case 2: {
        const auto d = seconds(us / 1'000'000);
        sleepWith(w, i128(d.count()) * 1'000'000'000, deferred, [d] { return QCoro::sleepFor(d); });
        break;
    }
    case 3: {
        const auto d = nanoseconds(us * 1000 + 1);
        sleepWith(w, i128(d.count()), deferred, [d] { return QCoro::sleepFor(d); });
        break;
    }
    case 4: {
        // representable exactly
        const auto d = duration<double>(static_cast<double>(us / 1000 / 250) / 4);
        sleepWith(w, i128(us / 1000 / 250) * 250'000'000, deferred, [d] { return QCoro::sleepFor(d); });
        break;
    }
    default: {
        const auto d = duration<std::int64_t, std::ratio<1, 50>>(us / 20'000);
        sleepWith(w, i128(us / 20'000) * 20'000'000, deferred, [d] { return QCoro::sleepFor(d); });
        break;
    }
    }
}

template<typename Clock>
void sleepUntilVirtual(World &w, std::int64_t us, int unit, bool deferred) {
    using namespace std::chrono;
    const auto now = Clock::now();
    switch (unit) {
    case 0: {
        const auto t = now + microseconds(us);
        sleepWith(w, i128(us) * 1000, deferred, [t] { return QCoro::sleepUntil(t); });
        break;
    }
    case 1: {
        const auto t = time_point_cast<milliseconds>(now) + milliseconds(us / 1000);
        sleepWith(w, i128(us / 1000) * 1'000'000, deferred, [t] { return QCoro::sleepUntil(t); });
        break;
    }
    default: {
        const auto t = time_point_cast<seconds>(now) + seconds(us / 1'000'000);
        sleepWith(w, i128((t - now).count()), deferred, [t] { return QCoro::sleepUntil(t); });
        break;
    }
    }
}

//! Real clocks do not follow the virtual time, but the time from now until then is known.
template<typename Clock>
QCoro::Task<> sleepUntilReal(World &w, std::int64_t ms) {
    const int n = beginSleep(w, i128(ms) * 1'000'000, false);
    ++w.systemClock;
    const auto before = Clock::now();
    const auto t = before + milliseconds(ms);
    auto task = QCoro::sleepUntil(t);
    const auto spent = std::chrono::ceil<milliseconds>(Clock::now() - before).count();
    w.waits[n].earliest = std::max(vloop::now(), w.waits[n].earliest - spent);
    co_await task;
    w.end(n);
}

enum { OpStart, OpStop, OpWait, OpSleep, OpUntil, OpReal, OpAdvance, OpDestroy, OpInterval };

void run(const Case &c, Run &run) {
    caseStart = vloop::now();
    auto *wp = new World;
    World &w = *wp;
    for (const auto &op : c.ops) {
        vloop::setCoarseEarly(op.k == OpSleep || op.k == OpUntil || op.k == OpReal); // sleeps do not end early
        switch (op.k) {
        case OpStart: {
            auto &t = w.timer(op.a);
            t.setSingleShot(op.c % 2);
            // repeating timers with interval 0 would never let the event loop become idle
            t.setInterval(op.c % 2 ? op.b * 5 : op.b * 5 + 5);
            PBT_LOG("start timer ", op.a, " interval ", t.interval(), op.c % 2 ? " single shot" : "");
            t.start();
            break;
        }
        case OpInterval:
            if (auto &t = w.timer(op.a); t.isActive()) {
                PBT_LOG("change interval of timer ", op.a);
                t.setInterval(op.b * 5 + 5);
            }
            break;
        case OpStop:
            PBT_LOG("stop timer ", op.a);
            w.timer(op.a).stop();
            break;
        case OpWait:
            if (w.waits.size() < MaxWaits) {
                const auto n = w.waits.size();
                waitTimer(w, op.a, op.b % 5, 1 + op.b / 5, op.c);
                PBT_CHECK(!w.waits[n].mustNotSuspend || w.waits[n].done, "awaiting an inactive timer suspended");
            }
            break;
        case OpSleep:
            if (w.waits.size() < MaxWaits) {
                sleepFor(w, usTable[op.a], op.b, op.c == 1);
            }
            break;
        case OpUntil:
            if (w.waits.size() < MaxWaits) {
                switch (op.b / 3) {
                case 0: sleepUntilVirtual<VirtualClock<0>>(w, usTable[op.a], op.b % 3, op.c == 1); break;
                case 1: sleepUntilVirtual<VirtualClock<1>>(w, usTable[op.a], op.b % 3, op.c == 1); break;
                default: sleepUntilVirtual<VirtualClock<2>>(w, usTable[op.a], op.b % 3, op.c == 1); break;
                }
            }
            break;
        case OpReal:
            if (w.waits.size() < MaxWaits) {
                const std::int64_t ms = usTable[op.a] / 1000 + 5000;
                switch (op.b) {
                case 0: sleepUntilReal<std::chrono::system_clock>(w, ms); break;
                case 1: sleepUntilReal<std::chrono::steady_clock>(w, ms); break;
                default: sleepUntilReal<std::chrono::high_resolution_clock>(w, ms); break;
                }
            }
            break;
        case OpAdvance:
            if (op.b == 0) {
                vloop::advance(op.a * 5);
            } else {
                PBT_LOG("busy for ", op.a * 5, " ms");
                vloop::skip(op.a * 5);
                for (auto &wt : w.waits) {
                    wt.latest = std::max(wt.latest, vloop::now());
                }
            }
            break;
        case OpDestroy:
            if (w.slots[op.a].timer) {
                PBT_LOG("destroy timer ", op.a);
                for (auto &wt : w.waits) {
                    wt.orphan = wt.orphan || (!wt.done && wt.timer == op.a);
                }
                w.slots[op.a].timer.reset();
                w.slots[op.a].emissions = 0;
            }
            break;
        }
        // several things may happen before the event loop gets to run
        if (op.k == OpStart ? op.c < 2 : op.k != OpAdvance || op.b == 0) {
            vloop::drain();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    vloop::drain();
    vloop::setCoarseEarly(false);
    for (auto &s : w.slots) {
        if (s.timer) {
            s.timer->stop();
        }
    }
    w.invariants();
    vloop::settle(100'000'000'000);
    w.invariants();
    bool stuck = false;
    for (std::size_t n = 0; n < w.waits.size(); ++n) {
        PBT_CHECK(w.waits[n].done || w.waits[n].timer >= 0, "sleep ", n, " never ended");
        stuck = stuck || !w.waits[n].done;
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.resumed, "resumed-by-timeout");
    tag(w.inactive, "inactive-timer");
    tag(w.stopped, "stopped-while-awaited");
    tag(w.overdue, "overdue-timer");
    tag(w.again, "awaited-again");
    tag(w.sharedTimeout, "several-awaiters");
    tag(w.sleeps, "sleep");
    tag(w.past, "past-or-zero");
    tag(w.longSleeps, "sleep-longer-than-INT_MAX-ms");
    tag(w.subMs, "fraction-of-ms");
    tag(w.systemClock, "real-clock");
    if ((w.resumed && (w.stopped || w.again || w.sharedTimeout)) || (w.sleeps > 1)) {
        run.nontrivial();
    }
    for (auto &s : w.slots) {
        s.timer.reset();
    }
    if (!stuck) {
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "timers";
    sc.rule = "histories of starting, restarting, stopping, destroying and awaiting timers (also from within their timeout) and of "
              "overlapping sleeps of many lengths and clocks on virtual time; non-trivial when a timer that resumed somebody was "
              "awaited repeatedly, by several or stopped meanwhile, or when several sleeps overlapped";
    sc.ops = {{"start", 6, Timers - 1, 5, 3},
              {"stop", 2, Timers - 1},
              {"wait", 9, Timers - 1, 14, 5},
              {"sleepFor", 5, Durations - 1, 5, 3},
              {"sleepUntil", 4, Durations - 1, 8, 3},
              {"sleepUntilReal", 1, Durations - 1, 2},
              {"advance", 7, 6, 1},
              {"destroy", 1, Timers - 1},
              {"interval", 1, Timers - 1, 5}};
    sc.maxOps = 25;
    sc.minOps = 2;
    sc.quickCases = 250000;
    sc.thoroughCases = 2000000;
    sc.run = run;
    return pbt::main(argc, argv, "C12", {sc});
}
