// C13: awaiting a QFuture yields its result or exception when it finishes.
#include "pbt.h"
#include "vloop.h"

#include <qcorofuture.h>
#include <qcorotask.h>

#include <QCoreApplication>
#include <QException>
#include <QFuture>
#include <QPromise>
#include <QString>
#include <QThread>

#include <array>
#include <atomic>
#include <deque>
#include <memory>
#include <stdexcept>
#include <thread>

using namespace pbt;

namespace {

constexpr int Slots = 4;
constexpr int MaxWaits = 40;

std::atomic<int> live{0};
std::atomic<int> badUse{0};

//! Copyable value which counts the copies made from the original
class Val {
public:
    explicit Val(int id) : mId(id) { ++live; }
    Val(const Val &o) : mId(o.get()), mCopies(o.mCopies + 1), mMoved(o.mMoved) { ++live; }
    Val(Val &&o) noexcept : mId(o.get()), mCopies(o.mCopies), mMoved(o.mMoved) { o.mMoved = true; ++live; }
    Val &operator=(const Val &o) { mId = o.get(); mCopies = o.mCopies + 1; mMoved = o.mMoved; return *this; }
    Val &operator=(Val &&o) noexcept { mId = o.get(); mCopies = o.mCopies; mMoved = o.mMoved; o.mMoved = true; return *this; }
    ~Val() { get(); mMagic = 0; --live; }
    int get() const { badUse += mMagic != 0x5afe; return mId; }
    int copies() const { return mCopies; }
    bool moved() const { return mMoved; }

private:
    volatile int mMagic = 0x5afe;
    int mId;
    int mCopies = 0;
    bool mMoved = false;
};

class MoveVal {
public:
    explicit MoveVal(int id) : mId(id) { ++live; }
    MoveVal(MoveVal &&o) noexcept : mId(o.mId), mMoved(o.mMoved) { o.mMoved = true; ++live; }
    MoveVal &operator=(MoveVal &&o) noexcept { mId = o.mId; mMoved = o.mMoved; o.mMoved = true; return *this; }
    ~MoveVal() { badUse += mMagic != 0x5afe; mMagic = 0; --live; }
    int get() const { badUse += mMagic != 0x5afe; return mId; }
    int copies() const { return 0; }
    bool moved() const { return mMoved; }

private:
    volatile int mMagic = 0x5afe;
    int mId;
    bool mMoved = false;
};

struct QtError : QException {
    explicit QtError(int c) : code(c) {}
    QtError *clone() const override { return new QtError(*this); }
    void raise() const override { throw *this; }
    int code;
};
struct StdError : std::runtime_error {
    explicit StdError(int c) : std::runtime_error("std"), code(c) {}
    int code;
};
struct OddError {
    int code;
};

enum Type { Void, Copyable, MoveOnly, Int, Str, Types };

template<typename T> T makeValue(int id) { return T(id); }
template<> QString makeValue<QString>(int id) { return QString::number(id); }
template<typename T> int idOf(const T &t) { return t.get(); }
template<> int idOf(const int &t) { return t; }
template<> int idOf(const QString &t) { return t.toInt(); }
template<typename T> int copiesOf(const T &) { return 0; }
template<> int copiesOf(const Val &v) { return v.copies(); }
template<typename T> bool isMoved(const T &) { return false; }
template<> bool isMoved(const Val &v) { return v.moved(); }
template<> bool isMoved(const MoveVal &v) { return v.moved(); }

struct Outcome {
    int kind = 0; // 0 value, 1 QException, 2 std::exception, 3 other, 4 future was cancelled
    int id = 0;
    bool operator==(const Outcome &) const = default;
};

struct Wait {
    int future = 0;
    int style = 0;
    bool inWorker = false;
    bool mustNotSuspend = false;
    bool done = false;
};

struct FutureBase {
    int serial = 0;
    Type type = Void;
    bool started = false, cancelled = false, finished = false, hasResult = false, taken = false;
    std::atomic<bool> finishing{false};
    Outcome outcome;
    virtual ~FutureBase() = default;
    virtual void start() = 0;
    virtual void add(int id) = 0;
    virtual void fail(int kind, int code) = 0;
    virtual void cancel() = 0;
    virtual void finish() = 0;
    virtual void destroyPromise() = 0;
    virtual bool hasPromise() const = 0;
    virtual bool isValid() const = 0;
    virtual void suspend(bool on) = 0;
    //! What everybody can see of its state
    virtual std::string describe() const = 0;
};

template<typename T>
struct Future : FutureBase {
    std::unique_ptr<QPromise<T>> promise = std::make_unique<QPromise<T>>();
    QFuture<T> future = promise->future();
    void start() override { promise->start(); }
    void add(int id) override {
        if constexpr (!std::is_void_v<T>) {
            promise->addResult(makeValue<T>(id));
        }
    }
    void fail(int kind, int code) override {
        switch (kind) {
        case 1: promise->setException(QtError(code)); break;
        case 2: promise->setException(std::make_exception_ptr(StdError(code))); break;
        default: promise->setException(std::make_exception_ptr(OddError{code})); break;
        }
    }
    void cancel() override { future.cancel(); }
    void finish() override { promise->finish(); }
    void destroyPromise() override { promise.reset(); }
    bool hasPromise() const override { return promise != nullptr; }
    bool isValid() const override { return future.isValid(); }
    void suspend(bool on) override { future.setSuspended(on); }
    std::string describe() const override {
        return str(future.isStarted() ? "started " : "", future.isRunning() ? "running " : "", future.isSuspending() ? "suspending " : "", future.isSuspended() ? "suspended " : "",
                   future.isCanceled() ? "canceled " : "", future.isFinished() ? "finished " : "", future.resultCount(), " results, progress ", future.progressValue());
    }
};

QThread *workerThread = nullptr;
QObject *workerContext = nullptr;

template<typename F>
void inWorker(F &&f) {
    if (!workerThread) {
        workerThread = new QThread;
        workerThread->start();
        workerContext = new QObject;
        workerContext->moveToThread(workerThread);
    }
    QMetaObject::invokeMethod(workerContext, std::forward<F>(f), Qt::BlockingQueuedConnection);
}
void syncWorker() {
    if (workerThread) {
        inWorker([] {});
    }
}

struct World {
    std::array<std::shared_ptr<FutureBase>, Slots> slots;
    std::deque<Wait> waits;
    std::deque<std::shared_ptr<FutureBase>> all; // by serial
    int values = 0;
    int resumed = 0, immediate = 0, exceptions = 0, cancelled = 0, shared = 0, otherThread = 0, takes = 0, raced = 0, destroyed = 0, early = 0, chained = 0, suspended = 0;

    FutureBase &slot(int i, int type) {
        if (!slots[i] || slots[i]->taken) {
            switch (static_cast<Type>(type % Types)) {
            case Void: slots[i] = std::make_shared<Future<void>>(); break;
            case Copyable: slots[i] = std::make_shared<Future<Val>>(); break;
            case MoveOnly: slots[i] = std::make_shared<Future<MoveVal>>(); break;
            case Int: slots[i] = std::make_shared<Future<int>>(); break;
            default: slots[i] = std::make_shared<Future<QString>>(); break;
            }
            slots[i]->type = static_cast<Type>(type % Types);
            slots[i]->serial = static_cast<int>(all.size());
            all.push_back(slots[i]);
            PBT_LOG("future ", slots[i]->serial, " of type ", slots[i]->type);
        }
        return *slots[i];
    }

    int begin(FutureBase &f, int style, bool worker) {
        Wait wt;
        wt.future = f.serial;
        wt.style = style;
        wt.inWorker = worker;
        wt.mustNotSuspend = f.finished;
        immediate += f.finished;
        waits.push_back(wt);
        return static_cast<int>(waits.size()) - 1;
    }
    void end(int n, FutureBase &f, Outcome o, int copies, bool moved) {
        auto &wt = waits[n];
        PBT_CHECK(!wt.done, "wait ", n, " was resumed twice");
        wt.done = true;
        ++resumed;
        exceptions += o.kind > 0;
        PBT_CHECK(f.finishing, "wait ", n, " was resumed before future ", f.serial, " finished");
        PBT_CHECK((QThread::currentThread() == workerThread) == wt.inWorker, "wait ", n, " was resumed in another thread");
        PBT_CHECK(o == f.outcome, "wait ", n, " got outcome ", o.kind, ":", o.id, " instead of ", f.outcome.kind, ":", f.outcome.id);
        PBT_CHECK(!moved, "wait ", n, " got a moved-from value");
        if (wt.style == 4 || wt.style == 5) {
            PBT_CHECK(copies == 0, "takeResult() copied the result ", copies, " times");
        }
    }
    bool pendingInWorker(const FutureBase &f) const {
        for (const auto &wt : waits) {
            if (!wt.done && wt.inWorker && wt.future == f.serial) {
                return true;
            }
        }
        return false;
    }
    bool pendingOn(const FutureBase &f) const {
        for (const auto &wt : waits) {
            if (!wt.done && wt.future == f.serial) {
                return true;
            }
        }
        return false;
    }
    void invariants() {
        std::map<int, int> perFuture;
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done) {
                continue;
            }
            PBT_CHECK(!wt.mustNotSuspend, "awaiting a finished future suspended");
            PBT_CHECK(!all[wt.future]->finished, "wait ", n, " was not resumed after future ", wt.future, " finished");
            shared += ++perFuture[wt.future] > 1;
        }
    }
};

template<typename T>
QCoro::Task<T> passOn(QFuture<T> future) {
    co_return co_await future;
}

//! Obtains the result in one of the possible ways. Styles: 0 co_await, 1 result(), 2 waitForFinished(), 3 stored task,
//! 4 takeResult(), 5 stored takeResult(), 6 through another coroutine, 7 temporary wrapper of a temporary future
template<typename T>
QCoro::Task<> await(World &w, std::shared_ptr<Future<T>> f, int style, bool worker) {
    const int n = w.begin(*f, style, worker);
    Outcome o;
    int copies = 0;
    bool moved = false;
    try {
        if constexpr (std::is_void_v<T>) {
            switch (style) {
            case 0: co_await f->future; break;
            case 1: co_await qCoro(f->future).result(); break;
            case 2: co_await qCoro(f->future).waitForFinished(); break;
            case 3: {
                auto task = qCoro(f->future).result();
                co_await task;
                break;
            }
            case 6: co_await passOn(f->future); break;
            default: co_await qCoro(QFuture<T>(f->future)).waitForFinished(); break;
            }
        } else if (style == 4) {
            const T value = co_await qCoro(f->future).takeResult();
            o.id = idOf(value);
            copies = copiesOf(value);
            moved = isMoved(value);
        } else if (style == 5) {
            auto wrapper = qCoro(f->future);
            auto task = wrapper.takeResult();
            T value = co_await std::move(task);
            o.id = idOf(value);
            copies = copiesOf(value);
            moved = isMoved(value);
        } else if constexpr (std::is_copy_constructible_v<T>) {
            std::optional<T> value;
            switch (style) {
            case 0: value.emplace(co_await f->future); break;
            case 1: value.emplace(co_await qCoro(f->future).result()); break;
            case 2: value.emplace(co_await qCoro(f->future).waitForFinished()); break;
            case 3: {
                auto task = qCoro(f->future).result();
                value.emplace(co_await task);
                break;
            }
            case 6: value.emplace(co_await passOn(f->future)); break;
            default: value.emplace(co_await qCoro(QFuture<T>(f->future)).waitForFinished()); break;
            }
            o.id = idOf(*value);
            moved = isMoved(*value);
        }
    } catch (const QtError &e) {
        o = {1, e.code};
    } catch (const StdError &e) {
        o = {2, e.code};
    } catch (const OddError &e) {
        o = {3, e.code};
    } catch (...) {
        o = {9, 0};
    }
    w.end(n, *f, o, copies, moved);
}

void startAwait(World &w, std::shared_ptr<FutureBase> f, int style, bool worker) {
    const auto go = [&] {
        switch (f->type) {
        case Void: await(w, std::static_pointer_cast<Future<void>>(f), style, worker); break;
        case Copyable: await(w, std::static_pointer_cast<Future<Val>>(f), style, worker); break;
        case MoveOnly: await(w, std::static_pointer_cast<Future<MoveVal>>(f), style, worker); break;
        case Int: await(w, std::static_pointer_cast<Future<int>>(f), style, worker); break;
        default: await(w, std::static_pointer_cast<Future<QString>>(f), style, worker); break;
        }
    };
    PBT_LOG("await future ", f->serial, " style ", style, worker ? " in another thread" : "");
    const auto n = w.waits.size();
    if (worker) {
        inWorker(go);
    } else {
        go();
    }
    PBT_CHECK(!w.waits[n].mustNotSuspend || w.waits[n].done, "awaiting a finished future suspended");
}

enum { OpStart, OpAdd, OpFail, OpCancel, OpFinish, OpDrop, OpAwait, OpRace, OpDrain, OpSuspend };

void run(const Case &c, Run &run) {
    live = 0;
    badUse = 0;
    auto *wp = new World;
    World &w = *wp;
    const auto elsewhere = [&](bool b, auto f) {
        if (b) {
            ++w.otherThread;
            std::thread(f).join();
        } else {
            f();
        }
        syncWorker();
    };
    const auto complete = [&](FutureBase &f) { // makes sure that there is an outcome
        if (f.type != Void && !f.hasResult && f.outcome.kind == 0) {
            f.hasResult = true;
            f.outcome.id = ++w.values;
            f.add(f.outcome.id);
        }
    };
    for (const auto &op : c.ops) {
        switch (op.k) {
        case OpStart:
            if (auto &f = w.slot(op.a, op.b); !f.started && !f.finished && !f.cancelled) {
                PBT_LOG("start future ", f.serial);
                f.started = true;
                elsewhere(op.c, [&] { f.start(); });
            }
            break;
        case OpAdd:
            if (auto &f = w.slot(op.a, op.b); f.type != Void && !f.finished && !f.cancelled) {
                const int v = ++w.values;
                PBT_LOG("result ", v, " of future ", f.serial);
                if (!f.hasResult) {
                    f.hasResult = true;
                    f.outcome.id = v;
                }
                elsewhere(op.c, [&] { f.add(v); });
                w.early += w.pendingOn(f);
            }
            break;
        case OpFail:
            if (auto &f = w.slot(op.a, op.b); !f.finished && !f.cancelled) {
                f.outcome = {1 + op.b % 3, 500 + ++w.values};
                f.cancelled = true;
                PBT_LOG("exception ", f.outcome.kind, ":", f.outcome.id, " of future ", f.serial);
                elsewhere(op.c, [&] { f.fail(f.outcome.kind, f.outcome.id); });
                w.early += w.pendingOn(f);
            }
            break;
        case OpCancel:
            if (auto &f = w.slot(op.a, op.b); !f.finished && !f.cancelled && (f.type == Void || f.hasResult)) {
                PBT_LOG("cancel future ", f.serial);
                f.cancelled = true;
                ++w.cancelled;
                elsewhere(op.c, [&] { f.cancel(); });
                w.early += w.pendingOn(f);
            }
            break;
        case OpFinish:
        case OpDrop:
            if (auto &f = w.slot(op.a, op.b); !f.finished) {
                complete(f);
                PBT_LOG(op.k == OpFinish ? "finish" : "drop promise of", " future ", f.serial);
                f.finishing = true;
                if (op.k == OpFinish) {
                    elsewhere(op.c, [&] { f.finish(); });
                } else {
                    ++w.destroyed;
                    elsewhere(op.c, [&] { f.destroyPromise(); });
                }
                f.finished = true;
            }
            break;
        case OpAwait:
        case OpRace: {
            if (w.waits.size() >= MaxWaits) {
                break;
            }
            auto &f = w.slot(op.a, op.b % Types);
            int style = op.b % 8;
            // taking the result ends the life of the future for everybody else
            if (f.type == MoveOnly) {
                style = 4 + op.b % 2;
            }
            const bool take = (style == 4 || style == 5) && f.type != Void;
            if (take && w.pendingOn(f)) {
                if (f.type == MoveOnly) {
                    break;
                }
                style = 1;
            }
            auto shared = w.all[f.serial];
            if (take && style != 1) {
                if (!f.started && !f.finished && !f.cancelled) { // Qt requires that to take the result
                    f.started = true;
                    f.start();
                }
                if (!f.isValid()) {
                    break;
                }
                f.taken = true;
                ++w.takes;
            }
            if (op.k == OpAwait) {
                const bool pending = !f.finished;
                const auto before = pending ? f.describe() : std::string();
                startAwait(w, shared, style, op.c == 3);
                if (pending) {
                    const auto after = f.describe();
                    PBT_CHECK(before == after, "awaiting future ", f.serial, " changed it from ", before, " to ", after);
                    w.suspended += before.find("suspend") != std::string::npos;
                }
                if (take && style != 1 && !f.finished) {
                    // somebody has to finish it, after a while
                    complete(f);
                    vloop::drain();
                    w.invariants();
                    f.finishing = true;
                    elsewhere(op.c == 2, [&] { f.finish(); });
                    f.finished = true;
                }
            } else if (!f.finished && !w.pendingInWorker(f)) {
                // finished by another thread while the coroutine is about to wait
                complete(f);
                ++w.raced;
                PBT_LOG("future ", f.serial, " finishes concurrently");
                std::atomic<bool> go{false};
                f.finishing = true;
                std::thread t([&] {
                    while (!go) {
                    }
                    for (volatile int i = 0; i < op.c * 40; i = i + 1) {
                    }
                    f.finish();
                });
                go = true;
                startAwait(w, shared, style, false);
                t.join();
                f.finished = true;
            }
            break;
        }
        case OpSuspend:
            if (auto &f = w.slot(op.a, op.b); !f.finished && !f.cancelled && f.isValid()) {
                PBT_LOG(op.c % 2 ? "suspend" : "resume", " future ", f.serial);
                f.suspend(op.c % 2);
            }
            break;
        case OpDrain:
            vloop::drain();
            break;
        }
        // sometimes the next operation comes before the event loop runs
        if (op.k == OpDrain || op.c != 1) {
            vloop::drain();
            syncWorker();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    vloop::drain();
    syncWorker();
    w.invariants();
    for (auto &f : w.all) {
        if (!f->finished) {
            complete(*f);
            f->finishing = true;
            PBT_LOG("finish future ", f->serial);
            f->finish();
            f->finished = true;
            syncWorker();
        }
    }
    vloop::settle();
    syncWorker();
    w.invariants();
    for (std::size_t n = 0; n < w.waits.size(); ++n) {
        PBT_CHECK(w.waits[n].done, "wait ", n, " was never resumed");
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.resumed, "resumed");
    tag(w.immediate, "finished-before-await");
    tag(w.exceptions, "exception");
    tag(w.cancelled, "cancelled");
    tag(w.shared, "several-awaiters");
    tag(w.otherThread, "driven-by-other-thread");
    tag(w.takes, "takeResult");
    tag(w.raced, "concurrent-finish");
    tag(w.destroyed, "promise-destroyed");
    tag(w.early, "result-or-cancel-before-finish");
    tag(w.suspended, "suspended");
    if (w.resumed > 1 && (w.shared || w.early || w.otherThread || w.raced)) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
        syncWorker();
        vloop::settle();
        PBT_CHECK(live == 0, live.load(), " values were leaked");
        PBT_CHECK(badUse == 0, "a value was used after its destruction");
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "futures";
    sc.rule = "histories of starting, adding results, failing, cancelling, finishing and dropping the promises of futures of void, copyable, "
              "move-only and plain types, from the main or another thread (also concurrently with the await), against coroutines in two "
              "threads awaiting them in all ways; non-trivial when more than one await was resumed and a future had several awaiters, "
              "results before finishing, or was driven by another thread";
    sc.ops = {{"start", 3, Slots - 1, Types - 1, 2},
              {"result", 4, Slots - 1, Types - 1, 2},
              {"exception", 2, Slots - 1, Types - 1, 2},
              {"cancel", 2, Slots - 1, Types - 1, 2},
              {"finish", 5, Slots - 1, Types - 1, 2},
              {"dropPromise", 2, Slots - 1, Types - 1, 2},
              {"await", 10, Slots - 1, 39, 3},
              {"race", 2, Slots - 1, 39, 20},
              {"drain", 1},
              {"suspend", 1, Slots - 1, Types - 1, 2}};
    sc.maxOps = 20;
    sc.minOps = 2;
    sc.quickCases = 30000;
    sc.thoroughCases = 300000;
    sc.run = run;
    return pbt::main(argc, argv, "C13", {sc});
}
