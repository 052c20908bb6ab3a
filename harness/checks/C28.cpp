// C28: programs composed of coroutines that await every kind of awaitable behave like sequential programs in which each
// co_await is a blocking call.
//
// A generated program (a tree of statements) is evaluated twice: by coroutines on virtual time, and by a plain recursive
// function that computes when every statement ends and with what value. External events happen at times with unique
// residues modulo a second while all durations are whole seconds, so that the result does not depend on any order of
// simultaneous events.
#include "fakedevice.h"
#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcoroasyncgenerator.h>
#include <qcorofuture.h>
#include <qcorogenerator.h>
#include <qcoroiodevice.h>
#include <qcorolazytask.h>
#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QFuture>
#include <QPromise>
#include <QTimer>

#include <memory>

using namespace pbt;
using std::chrono::milliseconds;

namespace {

class Source : public QObject {
    Q_OBJECT
Q_SIGNALS:
    void value(int v);
    void pair(int v, const QString &s);
    void none();
};

enum Kind {
    Sleep, Ticks, Signal, SignalTimeout, Future, Read, Listen, // leaves
    Call, Lazy, Then, ThenError, Deferred, DeferredLazy, Generator, // nested, awaited
    Spawn, Connect, // nested, not awaited
    Join, JoinThen,
    Try, Loop, Throw, ThrowOdd, Return, Nested,
};

constexpr qint64 Second = 1000;
constexpr int Sources = 3;
constexpr int Futures = 4;
constexpr int Emissions = 250;
constexpr qint64 Never = INT64_MAX;

//! What the outside world does
struct Plan {
    std::vector<qint64> emissions[Sources]; // the i-th emission carries i + 1
    qint64 futureAt[Futures];
    int futureKind[Futures]; // 0 value, 1 exception, 2 no exception derived from std::exception

    explicit Plan(const Case &c) {
        for (int s = 0; s < Sources; ++s) {
            qint64 t = 0;
            const int pattern = c.cfg[static_cast<std::size_t>(s)];
            for (int i = 0; i < Emissions; ++i) {
                t += (i * (pattern % 5 + 1) + pattern) % 4;
                emissions[s].push_back(t * Second + 1 + s * Emissions + i);
            }
        }
        for (int f = 0; f < Futures; ++f) {
            const int v = c.cfg[static_cast<std::size_t>(Sources + f)];
            futureAt[f] = v % 10 == 0 ? -1 : v % 10 * Second + 900 + f; // some are finished from the beginning
            futureKind[f] = v / 10 % 3;
        }
    }
    //! The first emission after t
    std::size_t next(int s, qint64 t) const {
        return static_cast<std::size_t>(std::upper_bound(emissions[s].begin(), emissions[s].end(), t) - emissions[s].begin());
    }
};

struct Node {
    Kind k;
    int a, b, c;
    std::vector<Node> body;
};

//! Parses the operations from index i on into at most count statements
std::vector<Node> parse(const std::vector<Op> &ops, std::size_t &i, std::size_t count, int depth, int loops) {
    std::vector<Node> nodes;
    while (i < ops.size() && nodes.size() < count) {
        const Op &o = ops[i++];
        Node n{static_cast<Kind>(o.k), o.a, o.b, o.c, {}};
        switch (n.k) {
        case Call: case Lazy: case Then: case ThenError: case Deferred: case DeferredLazy: case Generator: case Spawn: case Connect:
        case Try: case Loop: case Nested:
            if (depth >= 5 || (n.k == Loop && loops >= 2)) {
                n.k = Sleep;
            } else {
                n.body = parse(ops, i, static_cast<std::size_t>(o.a % 5), depth + 1, loops + (n.k == Loop));
            }
            break;
        default:
            break;
        }
        nodes.push_back(std::move(n));
    }
    return nodes;
}

struct Outcome {
    enum How { Value, Error, Odd } how = Value;
    int v = 0;
};
using Trace = std::map<std::string, std::vector<std::string>>;

std::string describe(qint64 t, const Outcome &o) {
    static const char *const names[] = {"value ", "error ", "odd error "};
    return str("@", t, " ", names[o.how], o.v);
}

// ---------------------------------------------------------------------------------------------------- the reference
struct Timed {
    qint64 t = 0; // when it ends
    Outcome o;
};
struct Returned {};

struct Model {
    const Plan &plan;
    Trace trace;
    int statements = 0;
    int kinds = 0;
    std::set<int> used;
    bool never = false;

    using Slots = std::vector<Timed>;

    void note(const std::string &path, qint64 t, const Outcome &o) { trace[path].push_back(describe(t, o)); }

    static int deviceDelay(const Node &n) { return n.b % 3; }

    //! Runs a sequence of statements; ends with the sum of their values, or what was thrown
    Timed sequence(const std::vector<Node> &nodes, qint64 t, const std::string &path, Slots &slots, bool &returned) {
        Timed r{t, {}};
        for (std::size_t i = 0; i < nodes.size() && !never; ++i) {
            const Timed s = statement(nodes[i], r.t, path + "." + std::to_string(i), slots, returned);
            if (never) {
                break;
            }
            r.t = s.t;
            if (s.o.how != Outcome::Value) {
                r.o = s.o;
                return r;
            }
            r.o.v += s.o.v;
            if (returned) {
                return r;
            }
        }
        return r;
    }
    //! A coroutine
    Timed coroutine(const std::vector<Node> &nodes, qint64 t, const std::string &path, Slots slots) {
        bool returned = false;
        const Timed r = sequence(nodes, t, path, slots, returned);
        if (!never) {
            note(path, r.t, r.o);
        }
        return r;
    }
    //! A generator yields the value of each statement; its consumer takes up to limit
    Timed generator(const Node &n, qint64 t, const std::string &path, Slots slots) {
        const int limit = n.b % 4 == 3 ? 1 : 100;
        Timed r{t, {}};
        bool returned = false;
        int taken = 0;
        for (std::size_t i = 0; i < n.body.size(); ++i) {
            const Timed s = statement(n.body[i], r.t, path + "." + std::to_string(i), slots, returned);
            if (never) {
                return r;
            }
            r.t = s.t;
            if (s.o.how != Outcome::Value) {
                r.o = s.o;
                return r;
            }
            if (returned) {
                break;
            }
            r.o.v += s.o.v;
            if (++taken == limit) {
                return r;
            }
            r.t += n.c % 2 * Second; // the consumer sleeps between values
        }
        return r;
    }

    Timed statement(const Node &n, qint64 t, const std::string &path, Slots &slots, bool &returned) {
        if (++statements > 400) {
            never = true;
        }
        if (never) {
            return {t, {}};
        }
        used.insert(n.k);
        const Timed r = evaluate(n, t, path, slots, returned);
        if (!never) {
            note(path, r.t, r.o);
        }
        return r;
    }

    Timed evaluate(const Node &n, qint64 t, const std::string &path, Slots &slots, bool &returned) {
        switch (n.k) {
        case Sleep:
            return {t + n.a % 5 * Second, {Outcome::Value, n.a}};
        case Ticks:
            return {t + (n.a % 3 + 1) * (n.b % 3 + 1) * Second, {Outcome::Value, n.a}};
        case Signal:
        case SignalTimeout: {
            const int s = n.a % Sources;
            const std::size_t e = plan.next(s, t);
            const qint64 timeout = n.k == Signal ? Never : (n.b % 4) * Second;
            if (n.k == SignalTimeout && (e >= Emissions || plan.emissions[s][e] > t + timeout)) {
                return {t + timeout, {Outcome::Value, -1}};
            }
            if (e >= Emissions) {
                never = true;
                return {t, {}};
            }
            return {plan.emissions[s][e], {Outcome::Value, n.k == Signal && n.c % 3 == 2 ? 0 : static_cast<int>(e) + 1}};
        }
        case Future: {
            const int f = n.a % Futures;
            const int kind = plan.futureKind[f];
            return {std::max(t, plan.futureAt[f]), {kind == 0 ? Outcome::Value : kind == 1 ? Outcome::Error : Outcome::Odd, f + 100}};
        }
        case Read:
            return {t + deviceDelay(n) * Second, {Outcome::Value, n.a + 1}};
        case Listen: {
            const int s = n.a % Sources;
            std::size_t e = plan.next(s, t);
            Timed r{t, {}};
            const qint64 timeout = n.c / 3 % 5 * Second;
            for (int i = 0; i <= n.b % 4; ++i, ++e) {
                if (timeout > 0 && (e >= Emissions || plan.emissions[s][e] > r.t + timeout)) {
                    r.t += timeout;
                    r.o.v += 100;
                    return r;
                }
                if (e >= Emissions) {
                    never = true;
                    return r;
                }
                r.t = std::max(r.t, plan.emissions[s][e]) + n.c % 3 * Second;
                r.o.v += static_cast<int>(e) + 1;
            }
            return r;
        }
        case Call:
        case Lazy:
            return coroutine(n.body, t, path, slots);
        case Then: {
            auto r = coroutine(n.body, t, path, slots);
            if (r.o.how == Outcome::Value) {
                r.o.v += 1;
                r.t += n.b % 2 * Second; // the callback is a coroutine that sleeps
            }
            return r;
        }
        case ThenError: {
            auto r = coroutine(n.body, t, path, slots);
            if (r.o.how == Outcome::Error) {
                r.o = {Outcome::Value, 0};
            } else if (r.o.how == Outcome::Value) {
                r.o.v += 1;
            }
            return r;
        }
        case Deferred: {
            auto r = coroutine(n.body, t, path, slots);
            r.t = std::max(r.t, t + n.b % 4 * Second);
            return r;
        }
        case DeferredLazy:
            return coroutine(n.body, t + n.b % 4 * Second, path, slots);
        case Generator:
            return generator(n, t, path, slots);
        case Spawn:
            slots.push_back(coroutine(n.body, t, path + "s", slots));
            return {t, {}};
        case Connect: {
            const auto r = coroutine(n.body, t, path + "s", slots);
            if (!never && r.o.how == Outcome::Value) {
                note(path + "c", r.t, r.o);
            }
            return {t, {}};
        }
        case Join:
        case JoinThen: {
            if (slots.empty()) {
                return {t, {}};
            }
            auto r = slots[static_cast<std::size_t>(n.a) % slots.size()];
            r.t = std::max(r.t, t);
            if (n.k == JoinThen && r.o.how == Outcome::Value) {
                r.o.v *= 2;
            }
            return r;
        }
        case Try: {
            Slots inner = slots;
            auto r = sequence(n.body, t, path, inner, returned);
            if (r.o.how == Outcome::Error || (r.o.how == Outcome::Odd && n.b % 2)) {
                r.o = {Outcome::Value, r.o.v + 1000};
            }
            return r;
        }
        case Loop: {
            Timed r{t, {}};
            for (int i = 0; i < n.b % 4 && !never; ++i) {
                const auto s = sequence(n.body, r.t, path + "#" + std::to_string(i), slots, returned);
                r.t = s.t;
                if (s.o.how != Outcome::Value) {
                    r.o = s.o;
                    return r;
                }
                r.o.v += s.o.v + i;
                if (returned) {
                    return r;
                }
            }
            return r;
        }
        case Throw:
            return {t, {Outcome::Error, n.a}};
        case ThrowOdd:
            return {t, {Outcome::Odd, n.a}};
        case Return:
            returned = true;
            return {t, {Outcome::Value, n.a}};
        case Nested: {
            bool inner = false;
            return sequence(n.body, t, path, slots, inner);
        }
        }
        return {t, {}};
    }
};

// ---------------------------------------------------------------------------------------------------- the coroutines
struct World {
    const Plan &plan;
    qint64 start;
    Trace trace;
    Source sources[Sources];
    QPromise<int> promises[Futures];
    QObject context;

    qint64 now() const { return vloop::now() - start; }
    void note(const std::string &path, const Outcome &o) {
        trace[path].push_back(describe(now(), o));
        PBT_LOG(path, " ", trace[path].back());
    }

    void fire(int s, std::size_t i) {
        if (i >= Emissions) {
            return;
        }
        QTimer::singleShot(milliseconds(plan.emissions[s][i] - now()), Qt::PreciseTimer, &sources[s], [this, s, i] {
            const int v = static_cast<int>(i) + 1;
            fire(s, i + 1);
            Q_EMIT sources[s].value(v);
            Q_EMIT sources[s].pair(v, QString::number(v));
            Q_EMIT sources[s].none();
        });
    }
    void finish(int f) {
        if (plan.futureKind[f] == 0) {
            promises[f].addResult(f + 100);
        } else if (plan.futureKind[f] == 1) {
            promises[f].setException(std::make_exception_ptr(TestError(f + 100)));
        } else {
            promises[f].setException(std::make_exception_ptr(OddError{f + 100}));
        }
        promises[f].finish();
    }
    void begin() {
        for (int s = 0; s < Sources; ++s) {
            fire(s, 0);
        }
        for (int f = 0; f < Futures; ++f) {
            promises[f].start();
            if (plan.futureAt[f] < 0) {
                finish(f);
            } else {
                QTimer::singleShot(milliseconds(plan.futureAt[f]), Qt::PreciseTimer, &context, [this, f] { finish(f); });
            }
        }
    }
};

using Slots = std::vector<std::shared_ptr<QCoro::Task<int>>>;
using Body = std::vector<Node>;

Outcome currentOutcome() {
    try {
        throw;
    } catch (const TestError &e) {
        return {Outcome::Error, e.code};
    } catch (const OddError &e) {
        return {Outcome::Odd, e.code};
    }
}

QCoro::Task<int> sequence(World &w, const Body &nodes, std::string path, Slots &slots, bool &returned);

//! Runs the statements as one coroutine of the given kind. The Tracked parameter reveals leaks.
template<template<typename> class TaskT>
TaskT<int> coroutine(World &w, const Body &nodes, std::string path, Slots slots, Tracked guard) {
    bool returned = false;
    const Tracked local(guard.id());
    try {
        const int v = co_await sequence(w, nodes, path, slots, returned);
        w.note(path, {Outcome::Value, v});
        co_return v;
    } catch (...) {
        w.note(path, currentOutcome());
        throw;
    }
}

QCoro::Task<int> sleepSome(int seconds, int form) {
    const milliseconds time(seconds * Second);
    switch (form % 4) {
    case 0:
        co_await QCoro::sleepFor(time);
        break;
    case 1: {
        QTimer timer;
        timer.setTimerType(Qt::PreciseTimer);
        timer.setSingleShot(true);
        timer.start(time);
        co_await timer;
        break;
    }
    case 2: {
        QTimer timer;
        timer.setTimerType(Qt::PreciseTimer);
        timer.setSingleShot(true);
        timer.start(time);
        co_await qCoro(timer).waitForTimeout();
        break;
    }
    default: {
        QTimer timer;
        timer.setTimerType(Qt::PreciseTimer);
        timer.setSingleShot(true);
        timer.start(time);
        co_await qCoro(&timer, &QTimer::timeout);
        break;
    }
    }
    co_return 0;
}

QCoro::Task<int> statement(World &w, const Node &n, std::string path, Slots &slots, bool &returned);

QCoro::AsyncGenerator<int> generate(World &w, const Body &nodes, std::string path, Slots slots, Tracked guard) {
    const Tracked local(guard.id());
    bool returned = false;
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        int v = co_await statement(w, nodes[i], path + "." + std::to_string(i), slots, returned);
        if (returned) {
            break;
        }
        co_yield v;
    }
}

QCoro::Generator<int> count(int n, Tracked guard) {
    const Tracked local(guard.id());
    for (int i = 0; i < n; ++i) {
        co_yield i;
    }
}

QCoro::Task<int> evaluate(World &w, const Node &n, std::string path, Slots &slots, bool &returned) {
    switch (n.k) {
    case Sleep:
        co_await sleepSome(n.a % 5, n.b);
        co_return n.a;
    case Ticks: {
        QTimer timer;
        timer.setTimerType(Qt::PreciseTimer);
        timer.start(milliseconds((n.a % 3 + 1) * Second));
        for (int i = 0; i < n.b % 3 + 1; ++i) {
            co_await timer;
        }
        co_return n.a;
    }
    case Signal: {
        Source *s = &w.sources[n.a % Sources];
        switch (n.c % 3) {
        case 0: {
            const int v = co_await qCoro(s, &Source::value);
            co_return v;
        }
        case 1: {
            const std::tuple<int, QString> v = co_await qCoro(s, &Source::pair);
            co_return std::get<1>(v).toInt();
        }
        default:
            co_await qCoro(s, &Source::none);
            co_return 0;
        }
    }
    case SignalTimeout: {
        Source *s = &w.sources[n.a % Sources];
        const milliseconds timeout(n.b % 4 * Second);
        if (n.c % 2) {
            const std::optional<int> v = co_await qCoro(s, &Source::value, timeout);
            co_return v.value_or(-1);
        }
        const std::optional<std::tuple<int, QString>> v = co_await qCoro(s, &Source::pair, timeout);
        co_return v ? std::get<0>(*v) : -1;
    }
    case Future: {
        QFuture<int> f = w.promises[n.a % Futures].future();
        switch (n.b % 3) {
        case 0: {
            const int v = co_await f;
            co_return v;
        }
        case 1: {
            const int v = co_await qCoro(f).result();
            co_return v;
        }
        default: {
            co_await qCoro(f).waitForFinished();
            const int v = f.result();
            co_return v;
        }
        }
    }
    case Read: {
        FakeDevice device(n.c % 2);
        device.open(QIODevice::ReadWrite | QIODevice::Unbuffered);
        const QByteArray data(n.a + 1, 'x');
        const int delay = Model::deviceDelay(n);
        if (delay == 0) {
            device.produce(data);
        } else {
            QTimer::singleShot(milliseconds(delay * Second), Qt::PreciseTimer, &device, [&device, data] { device.produce(data); });
        }
        if (n.c / 2 % 2) {
            const QByteArray got = co_await qCoro(device).readAll();
            co_return static_cast<int>(got.size());
        }
        const QByteArray got = co_await qCoro(device).read(1000);
        co_return static_cast<int>(got.size());
    }
    case Listen: {
        auto listener = n.c / 3 % 5 ? qCoroSignalListener(&w.sources[n.a % Sources], &Source::value, milliseconds(n.c / 3 % 5 * Second))
                                    : qCoroSignalListener(&w.sources[n.a % Sources], &Source::value);
        int sum = 0;
        auto it = co_await listener.begin();
        for (int i = 0; i <= n.b % 4; ++i) {
            if (it == listener.end()) {
                sum += 100;
                break;
            }
            sum += *it;
            co_await sleepSome(n.c % 3, i);
            if (i < n.b % 4) {
                co_await ++it;
            }
        }
        co_return sum;
    }
    case Call: {
        const int v = co_await coroutine<QCoro::Task>(w, n.body, path, slots, Tracked(n.k));
        co_return v;
    }
    case Lazy: {
        const int v = co_await coroutine<QCoro::LazyTask>(w, n.body, path, slots, Tracked(n.k));
        co_return v;
    }
    case Then: {
        if (n.b % 2) {
            const int v = co_await coroutine<QCoro::Task>(w, n.body, path, slots, Tracked(n.k)).then([](int v) -> QCoro::Task<int> {
                co_await sleepSome(1, 1);
                co_return v + 1;
            });
            co_return v;
        }
        if (n.c % 2) {
            const int v = co_await coroutine<QCoro::LazyTask>(w, n.body, path, slots, Tracked(n.k)).then([](int v) { return v + 1; });
            co_return v;
        }
        const int v = co_await coroutine<QCoro::Task>(w, n.body, path, slots, Tracked(n.k)).then([](int v) { return v + 1; });
        co_return v;
    }
    case ThenError: {
        const int v = co_await coroutine<QCoro::Task>(w, n.body, path, slots, Tracked(n.k))
                          .then([](int v) { return v + 1; }, [](const std::exception &) {});
        co_return v;
    }
    case Deferred: {
        auto task = coroutine<QCoro::Task>(w, n.body, path, slots, Tracked(n.k));
        co_await sleepSome(n.b % 4, n.c);
        const int v = co_await task;
        co_return v;
    }
    case DeferredLazy: {
        const auto task = coroutine<QCoro::LazyTask>(w, n.body, path, slots, Tracked(n.k));
        co_await sleepSome(n.b % 4, n.c);
        const int v = co_await task;
        co_return v;
    }
    case Generator: {
        const int limit = n.b % 4 == 3 ? 1 : 100;
        int sum = 0;
        int taken = 0;
        auto gen = generate(w, n.body, path, slots, Tracked(n.k));
        if (n.b % 2) {
            auto it = co_await gen.begin();
            while (it != gen.end()) {
                sum += *it;
                if (++taken == limit) {
                    break;
                }
                co_await sleepSome(n.c % 2, n.b);
                co_await ++it;
            }
        } else {
            QCORO_FOREACH(const int v, gen) {
                sum += v;
                co_await sleepSome(n.c % 2, n.b);
            }
        }
        co_return sum;
    }
    case Spawn: {
        // As for all statements, the coroutine must not be able to refer to slots filled later
        Slots before = slots;
        slots.push_back(std::make_shared<QCoro::Task<int>>(coroutine<QCoro::Task>(w, n.body, path + "s", std::move(before), Tracked(n.k))));
        co_return 0;
    }
    case Connect: {
        World *world = &w;
        QCoro::connect(coroutine<QCoro::Task>(w, n.body, path + "s", slots, Tracked(n.k)), &w.context,
                       [world, path](int v) { world->note(path + "c", {Outcome::Value, v}); });
        co_return 0;
    }
    case Join: {
        if (slots.empty()) {
            co_return 0;
        }
        const auto task = slots[static_cast<std::size_t>(n.a) % slots.size()];
        const int v = co_await *task;
        co_return v;
    }
    case JoinThen: {
        if (slots.empty()) {
            co_return 0;
        }
        const auto task = slots[static_cast<std::size_t>(n.a) % slots.size()];
        const int v = co_await task->then([](int v) { return v * 2; });
        co_return v;
    }
    case Try: {
        Slots inner = slots;
        int caught = -1;
        const Tracked local(n.k);
        try {
            const int v = co_await sequence(w, n.body, path, inner, returned);
            co_return v;
        } catch (const std::exception &e) {
            const auto *t = dynamic_cast<const TestError *>(&e);
            caught = t ? t->code : -1;
        } catch (const OddError &e) {
            if (n.b % 2 == 0) {
                throw;
            }
            caught = e.code;
        }
        co_return caught + 1000;
    }
    case Loop: {
        int sum = 0;
        for (const int i : count(n.b % 4, Tracked(n.k))) {
            const int v = co_await sequence(w, n.body, path + "#" + std::to_string(i), slots, returned);
            sum += v + i;
            if (returned) {
                break;
            }
        }
        co_return sum;
    }
    case Throw:
        throw TestError(n.a);
    case ThrowOdd:
        throw OddError{n.a};
    case Return:
        returned = true;
        co_return n.a;
    case Nested: {
        bool inner = false;
        const int v = co_await sequence(w, n.body, path, slots, inner);
        co_return v;
    }
    }
    co_return 0;
}

QCoro::Task<int> statement(World &w, const Node &n, std::string path, Slots &slots, bool &returned) {
    try {
        const int v = co_await evaluate(w, n, path, slots, returned);
        w.note(path, {Outcome::Value, v});
        co_return v;
    } catch (...) {
        w.note(path, currentOutcome());
        throw;
    }
}

QCoro::Task<int> sequence(World &w, const Body &nodes, std::string path, Slots &slots, bool &returned) {
    int sum = 0;
    for (std::size_t i = 0; i < nodes.size() && !returned; ++i) {
        sum += co_await statement(w, nodes[i], path + "." + std::to_string(i), slots, returned);
    }
    co_return sum;
}

void run(const Case &c, Run &run) {
    const Plan plan(c);
    std::size_t i = 0;
    const Body program = parse(c.ops, i, c.ops.size(), 0, 0);
    Model model{plan};
    const Timed expected = model.coroutine(program, 0, "main", {});
    if (model.never) {
        run.tag("waits-for-ever");
        return;
    }
    qint64 end = 0;
    for (const auto &[path, lines] : model.trace) {
        for (const auto &l : lines) {
            end = std::max<qint64>(end, std::atoll(l.c_str() + 1));
        }
    }

    const int before = Tracked::total();
    {
        World w{plan, vloop::now()};
        w.begin();
        Outcome got;
        {
            if (c.cfg[Sources + Futures] % 2) {
                try {
                    got = {Outcome::Value, QCoro::waitFor(coroutine<QCoro::Task>(w, program, "main", Slots(), Tracked(99)))};
                } catch (...) {
                    got = currentOutcome();
                }
                PBT_CHECK(w.now() == expected.t, "waitFor() returned at ", w.now(), " instead of ", expected.t);
                PBT_CHECK(got.how == expected.o.how && got.v == expected.o.v, "waitFor() delivered ", describe(0, got), " instead of ",
                          describe(0, expected.o));
            } else {
                coroutine<QCoro::Task>(w, program, "main", Slots(), Tracked(99));
            }
            vloop::advance(std::max<qint64>(0, end - w.now()) + 1);
        }
        for (const auto &[path, lines] : model.trace) {
            const auto &have = w.trace[path];
            for (std::size_t k = 0; k < lines.size(); ++k) {
                PBT_CHECK(k < have.size(), path, " did not end, expected ", lines[k]);
                PBT_CHECK(k >= have.size() || have[k] == lines[k], path, " ended with ", have[k], " instead of ", lines[k]);
            }
        }
        for (const auto &[path, have] : w.trace) {
            const auto it = model.trace.find(path);
            PBT_CHECK(have.empty() || (it != model.trace.end() && have.size() <= it->second.size()), path, " ended more often than expected");
        }
        PBT_CHECK(Tracked::total() == before, "objects of finished coroutines are still alive: ", Tracked::total() - before);
    }
    vloop::resetTimers();
    vloop::drain();

    for (const int k : model.used) {
        static const char *const names[] = {"sleep", "ticks", "signal", "signal-timeout", "future", "read", "listener", "call", "lazy", "then",
                                            "then-error", "deferred", "deferred-lazy", "generator", "spawn", "connect", "join", "join-then",
                                            "try", "loop", "throw", "throw-odd", "return", "nested"};
        run.tag(names[k]);
    }
    if (end > 0 && model.used.size() >= 5) {
        run.nontrivial();
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "programs";
    sc.rule = "programs of up to 30 statements (sleeps, timers, signals, listeners, futures, reads, tasks, lazy tasks, generators, then(), "
              "connect(), spawned and joined tasks, loops, try/catch, throw, return), nested up to five levels; non-trivial when at least "
              "five kinds of statements are executed and the program suspends";
    sc.cfg = {{"source0", 19}, {"source1", 19}, {"source2", 19}, {"future0", 29}, {"future1", 29}, {"future2", 29}, {"future3", 29}, {"waitFor", 1}};
    sc.ops = {{"sleep", 3, 4, 3}, {"ticks", 2, 5, 5}, {"signal", 4, 2, 0, 2}, {"signalTimeout", 3, 2, 3, 1}, {"future", 3, 3, 2},
              {"read", 2, 5, 2, 3}, {"listen", 4, 2, 3, 14}, {"call", 2, 4}, {"lazy", 2, 4}, {"then", 2, 4, 1, 1}, {"thenError", 2, 4},
              {"deferred", 2, 4, 3, 3}, {"deferredLazy", 2, 4, 3, 3}, {"generator", 3, 4, 3, 1}, {"spawn", 4, 4}, {"connect", 2, 4},
              {"join", 4, 5}, {"joinThen", 2, 5}, {"try", 3, 4, 1}, {"loop", 2, 4, 3}, {"throw", 1, 9}, {"throwOdd", 1, 9}, {"return", 1, 9},
              {"nested", 1, 4}};
    sc.maxOps = 30;
    sc.minOps = 1;
    sc.quickCases = 22000;
    sc.thoroughCases = 200000;
    sc.run = run;
    return pbt::main(argc, argv, "C28", {sc});
}

#include "C28.moc"
