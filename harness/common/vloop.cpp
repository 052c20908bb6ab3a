#include "vloop.h"
#include "pbt.h"

#include <QAbstractEventDispatcher>
#include <QCoreApplication>
#include <QEventLoop>
#include <QSocketNotifier>
#include <QThread>

#include <algorithm>
#include <atomic>
#include <list>
#include <chrono>
#include <poll.h>
#include <thread>
#include <vector>

namespace vloop {
namespace {

class Dispatcher;
Dispatcher *g = nullptr;

class Dispatcher : public QAbstractEventDispatcher {
public:
    struct Timer {
        int id;
        qint64 interval;
        Qt::TimerType type;
        QObject *obj;
        qint64 deadline;
        quint64 seq;
    };

    bool processEvents(QEventLoop::ProcessEventsFlags flags) override {
        mInterrupted = false;
        Q_EMIT awake();
        bool did = mWake.exchange(false);
        QCoreApplication::sendPostedEvents();
        did = mWake.load() || did;
        if (mInterrupted) {
            return true;
        }
        if (!(flags & QEventLoop::ExcludeSocketNotifiers)) {
            did = pollNotifiers(0) || did;
        }
        did = fireDue() || did;
        if (did) {
            ++mBusy;
            if (mBusy > 2'000'000) {
                pbt::abandon("livelock: the event loop never becomes idle at one point in time");
            }
            return true;
        }
        if (!(flags & QEventLoop::WaitForMoreEvents) || mInterrupted) {
            return false;
        }
        Q_EMIT aboutToBlock();
        if (!mNotifiers.empty() && mGrace > 0 && pollNotifiers(mGrace)) {
            return true;
        }
        const bool nested = QThread::currentThread()->loopLevel() > mRunLevel;
        const auto *next = earliest();
        if (next && ((nested && !mPatience) || next->deadline <= mLimit)) {
            mNow = std::max(mNow, next->deadline);
            mBusy = 0;
            return fireDue();
        }
        if (nested) {
            for (int i = 0; i < mPatience * 20; ++i) {
                if (mWake) {
                    return true;
                }
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
            pbt::abandon("a blocking wait never returns: no timer or event is left that could end it");
        }
        if (mLoop) {
            mLoop->quit();
        }
        return false;
    }

    void registerSocketNotifier(QSocketNotifier *n) override { mNotifiers.push_back(n); }
    void unregisterSocketNotifier(QSocketNotifier *n) override { mNotifiers.remove(n); }

    void registerTimer(int id, qint64 interval, Qt::TimerType type, QObject *obj) override {
        if (type == Qt::VeryCoarseTimer) {
            interval = (interval + 500) / 1000 * 1000; // these have full second accuracy only
        }
        mTimers.push_back({id, interval, type, obj, mNow + interval - (mCoarseEarly && type != Qt::PreciseTimer ? interval / 20 : 0), mSeq++});
        mLastInterval = interval;
    }
    bool unregisterTimer(int id) override {
        const auto n = mTimers.size();
        mTimers.remove_if([id](const Timer &t) { return t.id == id; });
        return n != mTimers.size();
    }
    bool unregisterTimers(QObject *obj) override {
        const auto n = mTimers.size();
        mTimers.remove_if([obj](const Timer &t) { return t.obj == obj; });
        return n != mTimers.size();
    }
    QList<TimerInfo> registeredTimers(QObject *obj) const override {
        QList<TimerInfo> r;
        for (const auto &t : mTimers) {
            if (t.obj == obj) {
                r.push_back(TimerInfo(t.id, static_cast<int>(t.interval), t.type));
            }
        }
        return r;
    }
    int remainingTime(int id) override {
        for (const auto &t : mTimers) {
            if (t.id == id) {
                return static_cast<int>(std::max<qint64>(0, t.deadline - mNow));
            }
        }
        return -1;
    }
    void wakeUp() override { mWake = true; }
    void interrupt() override {
        mInterrupted = true;
        wakeUp();
    }

    const Timer *earliest() const {
        const Timer *best = nullptr;
        for (const auto &t : mTimers) {
            if (!best || t.deadline < best->deadline || (t.deadline == best->deadline && t.seq < best->seq)) {
                best = &t;
            }
        }
        return best;
    }

    bool fireDue() {
        bool did = false;
        const auto limitSeq = mSeq;
        std::list<int> fired;
        while (!mInterrupted) {
            Timer *best = nullptr;
            for (auto &t : mTimers) {
                if (t.deadline <= mNow && t.seq < limitSeq
                    && (!best || t.deadline < best->deadline || (t.deadline == best->deadline && t.seq < best->seq))) {
                    best = &t;
                }
            }
            if (!best) {
                break;
            }
            best->deadline = std::max(best->deadline + best->interval, mNow);
            best->seq = mSeq++;
            QTimerEvent ev(best->id);
            QCoreApplication::sendEvent(best->obj, &ev);
            did = true;
            // give posted events a chance between timers, like separate loop iterations would
            break;
        }
        return did;
    }

    bool pollNotifiers(int timeout) {
        if (mNotifiers.empty() || !mPolling) {
            return false;
        }
        std::vector<pollfd> fds;
        std::vector<QSocketNotifier *> ns;
        for (auto *n : mNotifiers) {
            if (!n->isEnabled()) {
                continue;
            }
            short ev = n->type() == QSocketNotifier::Read ? POLLIN : n->type() == QSocketNotifier::Write ? POLLOUT : POLLPRI;
            fds.push_back({static_cast<int>(n->socket()), ev, 0});
            ns.push_back(n);
        }
        if (fds.empty() || ::poll(fds.data(), fds.size(), timeout) <= 0) {
            return false;
        }
        bool did = false;
        for (std::size_t i = 0; i < fds.size(); ++i) {
            const short interesting = fds[i].events | (fds[i].events == POLLPRI ? 0 : (POLLHUP | POLLERR));
            if ((fds[i].revents & interesting)
                && std::find(mNotifiers.begin(), mNotifiers.end(), ns[i]) != mNotifiers.end()) {
                QEvent ev(QEvent::SockAct);
                QCoreApplication::sendEvent(ns[i], &ev);
                did = true;
            }
        }
        return did;
    }

    void run(qint64 limit) {
        mLimit = limit;
        mBusy = 0;
        QEventLoop loop;
        auto *prev = mLoop;
        const int prevLevel = mRunLevel;
        mLoop = &loop;
        mRunLevel = QThread::currentThread()->loopLevel() + 1;
        loop.exec();
        mLoop = prev;
        mRunLevel = prevLevel;
    }

    std::list<Timer> mTimers;
    std::list<QSocketNotifier *> mNotifiers;
    std::atomic_bool mWake{false};
    bool mInterrupted = false;
    qint64 mNow = 1000;
    qint64 mLimit = 0;
    quint64 mSeq = 0;
    qint64 mLastInterval = -1;
    int mBusy = 0;
    int mGrace = 20;
    bool mCoarseEarly = false;
    bool mPolling = true;
    int mPatience = 0;
    int mRunLevel = 0;
    QEventLoop *mLoop = nullptr;
};

} // namespace

void install() {
    g = new Dispatcher;
    QCoreApplication::setEventDispatcher(g);
}
qint64 now() { return g->mNow; }
void drain() { g->run(g->mNow); }
void advance(qint64 ms) {
    const auto target = g->mNow + ms;
    g->run(target);
    g->mNow = std::max(g->mNow, target);
}
void skip(qint64 ms) { g->mNow += ms; }
void settle(qint64 maxMs) { g->run(g->mNow + maxMs); }
void step() {
    QEventLoop loop;
    loop.processEvents(QEventLoop::AllEvents);
}
int timerCount() { return static_cast<int>(g->mTimers.size()); }
qint64 lastTimerInterval() { return g->mLastInterval; }
void resetTimers() { g->mTimers.clear(); }
void setCoarseEarly(bool on) {
    g->mCoarseEarly = on;
}
void setGraceMs(int ms) { g->mGrace = ms; }
void setPolling(bool on) { g->mPolling = on; }
void setPatienceMs(int ms) { g->mPatience = ms; }

} // namespace vloop
