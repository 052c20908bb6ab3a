// C25: QmlTask passes a coroutine's result to QML exactly once.
//
// Tasks made from coroutines, futures and timers of many types are copied, passed through JavaScript and used by then() and
// await() on any copy while the coroutines end in any order; a model tells which callbacks and listeners have to show what.
#include "pbt.h"
#include "vloop.h"

#include <qcorofuture.h>
#include <qcoroqml.h>
#include <qcoroqmltask.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QJSEngine>
#include <QJSValueList>
#include <QPointer>
#include <QPromise>
#include <QQmlEngine>
#include <QTimer>

#include <deque>
#include <memory>
#include <stdexcept>

struct Point {
    int x = 0;
    bool operator==(const Point &) const = default;
};
Q_DECLARE_METATYPE(Point)

using namespace pbt;

namespace {

constexpr int Engines = 2;
constexpr int MaxSources = 8;
constexpr int MaxCopies = 16;
constexpr int MaxUses = 60;
constexpr int Types = 11;

QString text(int n) { return QStringLiteral("value %1").arg(n); }

QVariant resultOf(int type, int n) {
    switch (type) {
    case 0: return n % 2 ? QVariant(n) : QVariant(text(n));
    case 1: return n;
    case 2: return text(n);
    case 3: return QVariantMap{{QStringLiteral("number"), n}, {QStringLiteral("text"), text(n)}};
    case 4: return QStringList{text(n), text(n + 1)};
    case 5: return {};
    case 6: return n;
    case 7: return QVariant::fromValue(Point{n});
    case 8: return n + 0.5;
    case 9: return text(n);
    default: return {};
    }
}

struct Source {
    int type = 0;
    int n = 0;
    std::coroutine_handle<> waiting;
    bool finished = false; // normally
    bool failed = false;
    bool isFuture() const { return type == 6 || type == 9; }
    bool isTimer() const { return type == 10; }
    QPromise<int> promise;
    QPromise<QString> textPromise;
    std::unique_ptr<QTimer> timer;
    bool over() const { return finished || failed; }
};

struct World;

//! A function that was given to then(), or a listener made by await()
struct Use {
    int source = 0;
    bool listener = false;
    int called = 0;
    int engine = 0;
    int reaction = 0;
    bool lost = false; // its engine was destroyed
    QPointer<QCoro::QmlTaskListener> object;
    QJSValue holder; // keeps a listener made in JavaScript
    bool byScript = false;
    bool destroyed = false;
    QVariant before;
    QVariant shown; // at first
};

World *world = nullptr;

class Recorder : public QObject {
    Q_OBJECT
public:
    using QObject::QObject;
    Q_INVOKABLE void called(int id, int count, const QJSValue &value);
};

struct World {
    std::unique_ptr<QJSEngine> engines[Engines];
    QJSValue makers[Engines];
    std::deque<Source> sources;
    struct Copy {
        std::unique_ptr<QCoro::QmlTask> task;
        int source;
    };
    std::vector<Copy> copies;
    std::deque<Use> uses;
    bool ending = false;
    int shared = 0, late = 0, early = 0, byCoroutine = 0;

    World() {
        for (int e = 0; e < Engines; ++e) {
            createEngine(e);
        }
    }
    void createEngine(int e) {
        engines[e] = std::make_unique<QJSEngine>();
        auto recorder = engines[e]->newQObject(new Recorder);
        const auto factory = engines[e]->evaluate(QStringLiteral(
            "(function(recorder) { return function(id, fails) { return function() {"
            "  recorder.called(id, arguments.length, arguments[0]); if (fails) { throw new Error('failed') } } } })"));
        makers[e] = factory.call({recorder});
        if (!makers[e].isCallable()) {
            pbt::abandon("harness: no JavaScript function");
        }
    }

    struct Gate {
        World &w;
        int source;
        bool await_ready() const { return w.sources[static_cast<std::size_t>(source)].over(); }
        void await_suspend(std::coroutine_handle<> h) { w.sources[static_cast<std::size_t>(source)].waiting = h; }
        void await_resume() const {
            if (w.sources[static_cast<std::size_t>(source)].failed) {
                throw std::runtime_error("failed");
            }
        }
    };
    template<typename T>
    QCoro::Task<T> coroutine(int source) {
        co_await Gate{*this, source};
        const auto &s = sources[static_cast<std::size_t>(source)];
        if constexpr (std::is_same_v<T, QVariant>) {
            co_return resultOf(s.type, s.n);
        } else if constexpr (!std::is_void_v<T>) {
            co_return resultOf(s.type, s.n).value<T>();
        }
    }
    void add(QCoro::QmlTask &&task, int source) {
        copies.push_back({std::make_unique<QCoro::QmlTask>(std::move(task)), source});
    }
    void make(int type, int state) {
        if (sources.size() >= MaxSources || copies.size() >= MaxCopies) {
            return;
        }
        const int i = static_cast<int>(sources.size());
        auto &s = sources.emplace_back();
        s.type = type;
        s.n = i * 7 + 1;
        PBT_LOG("task ", i, " of type ", type);
        if (s.isFuture() || s.isTimer()) {
            switch (type) {
            case 6: {
                s.promise.start();
                if (state > 0) {
                    finish(i, false);
                }
                add(s.promise.future(), i);
                break;
            }
            case 9: {
                s.textPromise.start();
                if (state > 0) {
                    finish(i, false);
                }
                add(s.textPromise.future(), i);
                break;
            }
            default:
                s.timer = std::make_unique<QTimer>();
                s.timer->setSingleShot(true);
                s.timer->start(5);
                QObject::connect(s.timer.get(), &QTimer::timeout, s.timer.get(), [this, i] { sources[static_cast<std::size_t>(i)].finished = true; });
                add(s.timer.get(), i);
                break;
            }
        } else {
            s.finished = state == 1;
            s.failed = state == 2;
            switch (type) {
            case 0: add(coroutine<QVariant>(i), i); break;
            case 1: add(coroutine<int>(i), i); break;
            case 2: add(coroutine<QString>(i), i); break;
            case 3: add(coroutine<QVariantMap>(i), i); break;
            case 4: add(coroutine<QStringList>(i), i); break;
            case 5: add(coroutine<void>(i), i); break;
            case 7: add(coroutine<Point>(i), i); break;
            default: add(coroutine<double>(i), i); break;
            }
        }
        early += s.over();
    }
    void finish(int i, bool fails) {
        auto &s = sources[static_cast<std::size_t>(i)];
        if (s.over() || s.isTimer()) {
            return;
        }
        PBT_LOG("task ", i, fails && !s.isFuture() ? " fails" : " finishes");
        if (s.isFuture()) {
            s.finished = true;
            if (s.type == 6) {
                s.promise.addResult(resultOf(6, s.n).toInt());
                s.promise.finish();
            } else {
                s.textPromise.addResult(text(s.n));
                s.textPromise.finish();
            }
            return;
        }
        (fails ? s.failed : s.finished) = true;
        ++byCoroutine;
        std::exchange(s.waiting, nullptr).resume();
    }
    int copiesOf(int source) const {
        return static_cast<int>(std::count_if(copies.begin(), copies.end(), [&](const Copy &c) { return c.source == source; }));
    }

    void copy(std::size_t k, int how, std::size_t other) {
        const int source = copies[k].source;
        PBT_LOG("copy ", k, " of task ", source, " is copied (", how, ")");
        switch (how) {
        case 0:
            if (copies.size() < MaxCopies) {
                copies.push_back({std::make_unique<QCoro::QmlTask>(*copies[k].task), source});
            }
            break;
        case 1: // assign
            *copies[other].task = *copies[k].task;
            copies[other].source = source;
            break;
        case 2: // through a QVariant
            if (copies.size() < MaxCopies) {
                const auto v = QVariant::fromValue(*copies[k].task);
                copies.push_back({std::make_unique<QCoro::QmlTask>(v.value<QCoro::QmlTask>()), source});
            }
            break;
        case 3: { // replace by a moved one
            auto moved = std::make_unique<QCoro::QmlTask>(std::move(*copies[k].task));
            copies[k].task = std::move(moved);
            break;
        }
        default: copies.erase(copies.begin() + static_cast<long>(k)); break;
        }
    }

    QJSValue script(int e, QCoro::QmlTask &task) { return engines[e]->toScriptValue(task); }

    void then(std::size_t k, int engine, int reaction, bool byScript) {
        if (uses.size() >= MaxUses || !engines[engine]) {
            return;
        }
        const int source = copies[k].source;
        const auto id = uses.size();
        auto &u = uses.emplace_back();
        u.source = source;
        u.engine = engine;
        u.reaction = reaction;
        shared += copiesOf(source) > 1;
        late += sources[static_cast<std::size_t>(source)].over();
        PBT_LOG("then() ", id, " on copy ", k, " of task ", source, byScript ? " by JavaScript" : "");
        auto function = makers[engine].call({static_cast<int>(id), reaction == 3});
        if (byScript) {
            auto object = script(engine, *copies[k].task);
            const auto then = object.property(QStringLiteral("then"));
            if (!then.isCallable()) {
                pbt::abandon("harness: JavaScript cannot call then()");
            }
            const auto r = then.callWithInstance(object, {function});
            if (r.isError()) {
                pbt::abandon("harness: " + r.toString().toStdString());
            }
        } else {
            copies[k].task->then(function);
        }
    }
    void thenNothing(std::size_t k, int what) {
        PBT_LOG("then() on copy ", k, " with something that is not a function");
        auto &e = *engines[0];
        const QJSValue values[] = {{}, QJSValue(5), QJSValue(QStringLiteral("f")), e.newObject(), QJSValue(QJSValue::NullValue)};
        copies[k].task->then(values[what % 5]);
    }
    static QVariant intermediateOf(int how) {
        switch (how) {
        case 0: return {};
        case 1: return QStringLiteral("Loading...");
        case 2: return -1;
        default: return QVariant::fromValue(Point{-1});
        }
    }
    void await(std::size_t k, int how, int engine) {
        if (uses.size() >= MaxUses || (engine >= 0 && !engines[engine])) {
            return;
        }
        const int source = copies[k].source;
        const auto id = uses.size();
        const bool over = sources[static_cast<std::size_t>(source)].over();
        auto &u = uses.emplace_back();
        u.source = source;
        u.listener = true;
        u.before = intermediateOf(how);
        shared += copiesOf(source) > 1;
        late += over;
        PBT_LOG("await() ", id, " on copy ", k, " of task ", source, engine >= 0 ? " by JavaScript" : "");
        if (engine >= 0) {
            u.engine = engine;
            u.byScript = true;
            auto object = script(engine, *copies[k].task);
            const auto await = object.property(QStringLiteral("await"));
            if (!await.isCallable()) {
                pbt::abandon("harness: JavaScript cannot call await()");
            }
            u.holder = await.callWithInstance(object, how == 0 ? QJSValueList{} : QJSValueList{engines[engine]->toScriptValue(u.before)});
            if (u.holder.isError()) {
                pbt::abandon("harness: " + u.holder.toString().toStdString());
            }
            u.object = qobject_cast<QCoro::QmlTaskListener *>(u.holder.toQObject());
        } else {
            u.object = how == 0 ? copies[k].task->await() : copies[k].task->await(u.before);
        }
        PBT_CHECK(u.object, "await() ", id, " returned nothing");
        if (!u.object) {
            return;
        }
        if (!over) {
            PBT_CHECK(u.object->value() == u.before, "the listener of await() ", id, " does not show the intermediate value");
        }
        u.shown = u.object->value();
        QObject::connect(u.object.data(), &QCoro::QmlTaskListener::valueChanged, u.object.data(), [this, id] {
            auto &u = uses[id];
            const auto &s = sources[static_cast<std::size_t>(u.source)];
            PBT_CHECK(++u.called == 1, "the listener of await() ", id, " notified the change several times");
            PBT_CHECK(s.finished, "the listener of await() ", id, " changed before the task finished");
            PBT_CHECK(u.object->value() == resultOf(s.type, s.n), "the listener of await() ", id, " notified the change before it had the value");
        });
    }
    void destroyListener(std::size_t id) {
        auto &u = uses[id];
        if (!u.listener || !u.object) {
            return;
        }
        PBT_LOG("the listener of await() ", id, " is destroyed");
        u.destroyed = true;
        if (u.byScript) {
            u.holder = QJSValue();
            engines[u.engine]->collectGarbage();
            vloop::drain();
            if (u.object && !u.object->parent() && QJSEngine::objectOwnership(u.object) == QJSEngine::JavaScriptOwnership) {
                u.object.clear(); // may stay for some time: the collector scans the stack
            }
        } else {
            delete u.object.data();
        }
        current->tag("listener destroyed");
    }
    void destroyEngine(int e) {
        if (!engines[e]) {
            return;
        }
        PBT_LOG("engine ", e, " is destroyed");
        for (auto &u : uses) {
            if (u.engine == e && (!u.listener || u.byScript)) {
                u.lost = true;
                u.holder = QJSValue();
            }
        }
        makers[e] = QJSValue();
        engines[e].reset();
        for (auto &u : uses) {
            u.destroyed |= u.listener && !u.object;
        }
        current->tag("engine destroyed");
    }

    void called(int id, int count, const QJSValue &value) {
        if (current->failed()) {
            return;
        }
        auto &u = uses[static_cast<std::size_t>(id)];
        const auto &s = sources[static_cast<std::size_t>(u.source)];
        PBT_LOG("the function of then() ", id, " is called");
        PBT_CHECK(++u.called == 1, "the function of then() ", id, " was called several times");
        PBT_CHECK(s.finished, "the function of then() ", id, " was called although the task did not finish");
        const auto expected = resultOf(s.type, s.n);
        PBT_CHECK(count == 1 || (count == 0 && !expected.isValid()), "the function of then() ", id, " was called with ", count, " arguments");
        const auto seen = value.toVariant();
        if (!expected.isValid()) {
            PBT_CHECK(value.isUndefined() || value.isNull(), "the function of then() ", id, " got a value of a task without result");
        } else if (s.type == 4) {
            PBT_CHECK(seen.toStringList() == expected.toStringList(), "the function of then() ", id, " got another value than the task's result");
        } else {
            PBT_CHECK(seen == expected, "the function of then() ", id, " got another value than the task's result: ", seen.toString().toStdString());
        }
        const auto react = [&](auto &&f) {
            for (std::size_t k = 0; k < copies.size(); ++k) {
                if (copies[k].source == u.source) {
                    current->tag("callback used the task");
                    f(k);
                    return;
                }
            }
        };
        switch (u.reaction) {
        case 1: react([&](std::size_t k) { then(k, u.engine, 0, false); }); break;
        case 2: react([&](std::size_t k) { await(k, 1, -1); }); break;
        default: break;
        }
    }

    void invariants() {
        vloop::drain();
        for (std::size_t id = 0; id < uses.size() && !current->failed(); ++id) {
            const auto &u = uses[id];
            const auto &s = sources[static_cast<std::size_t>(u.source)];
            if (!u.listener) {
                PBT_CHECK(u.called == 1 || !s.finished || u.lost, "the function of then() ", id, " was not called although task ", u.source, " finished");
            } else if (u.destroyed) {
                continue;
            } else if (!u.object) {
                PBT_FAIL("the listener of await() ", id, " vanished");
            } else {
                PBT_CHECK(u.object->value() == (s.finished ? resultOf(s.type, s.n) : u.before), "the listener of await() ", id, " shows ",
                          u.object->value().toString().toStdString(), s.finished ? " although the task finished" : "");
                PBT_CHECK(u.called == 1 || u.object->value() == u.shown, "the listener of await() ", id, " did not notify the change");
            }
        }
    }
};

void Recorder::called(int id, int count, const QJSValue &value) {
    world->called(id, count, value);
}

enum { Make, Copy, Then, ThenNothing, Await, Finish, DestroyListener, DestroyEngine, Collect, Advance, Empty };

void run(const Case &c, Run &r) {
    vloop::resetTimers();
    world = new World;
    auto &w = *world;
    for (const auto &op : c.ops) {
        const auto k = w.copies.empty() ? 0 : static_cast<std::size_t>(op.a) % w.copies.size();
        const bool any = !w.copies.empty();
        switch (op.k) {
        case Make: w.make(op.a % Types, op.b); break;
        case Copy:
            if (any) {
                w.copy(k, op.b % 5, static_cast<std::size_t>(op.b / 5) % w.copies.size());
            }
            break;
        case Then:
            if (any) {
                w.then(k, op.b % Engines, op.b / 4, op.b / Engines % 2 > 0);
            }
            break;
        case ThenNothing:
            if (any && w.engines[0]) {
                w.thenNothing(k, op.b);
                r.tag("not a function");
            }
            break;
        case Await:
            if (any) {
                w.await(k, op.b % 4, op.b / 4 - 1);
            }
            break;
        case Finish:
            if (!w.sources.empty()) {
                w.finish(op.a % static_cast<int>(w.sources.size()), op.b == 3);
            }
            break;
        case DestroyListener:
            if (!w.uses.empty()) {
                w.destroyListener(static_cast<std::size_t>(op.a) % w.uses.size());
            }
            break;
        case DestroyEngine: w.destroyEngine(1); break;
        case Collect: w.engines[0]->collectGarbage(); break;
        case Advance: vloop::advance(3); break;
        case Empty: { // a QmlTask without coroutine is ignored
            QCoro::QmlTask task;
            if (op.b == 0) {
                task.then(w.makers[0].call({MaxUses, false}));
            } else {
                std::unique_ptr<QCoro::QmlTaskListener> l(task.await(World::intermediateOf(op.b)));
                PBT_CHECK(l && l->value() == World::intermediateOf(op.b), "the listener of an empty QmlTask does not show the intermediate value");
            }
            r.tag("empty QmlTask");
            break;
        }
        default: break;
        }
        if (op.c) {
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    w.invariants();
    if (w.shared > 0) {
        r.tag("used a copied task");
    }
    if (w.late > 0) {
        r.tag("used a finished task");
    }
    if (w.early > 0) {
        r.tag("finished from the beginning");
    }
    if (w.uses.size() >= 2 && w.byCoroutine > 0) {
        r.nontrivial();
    }
    w.copies.clear();
    for (int i = 0; i < static_cast<int>(w.sources.size()); ++i) {
        w.finish(i, false);
    }
    vloop::advance(10);
    w.invariants();
    if (r.failed()) {
        return;
    }
    w.ending = true;
    for (auto &u : w.uses) {
        if (!u.byScript) {
            delete u.object.data();
        }
        u.holder = QJSValue();
    }
    delete world;
    world = nullptr;
    vloop::drain();
}

} // namespace

#include "C25.moc"

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    QCoro::Qml::registerTypes();
    Scenario s;
    s.name = "tasks";
    s.rule = "then() or await() was used at least twice, and a coroutine finished later";
    s.ops = {
        {"make", 6, Types - 1, 4, 1},
        {"copy", 4, MaxCopies - 1, 24, 1},
        {"then", 8, MaxCopies - 1, 15, 1},
        {"then nothing", 1, MaxCopies - 1, 4, 1},
        {"await", 8, MaxCopies - 1, 11, 1},
        {"finish", 6, MaxSources - 1, 3, 1},
        {"destroy listener", 2, MaxUses - 1, 0, 1},
        {"destroy engine", 1, 0, 0, 1},
        {"collect", 1, 0, 0, 1},
        {"advance", 2, 0, 0, 1},
        {"empty", 1, 0, 2, 1},
    };
    s.maxOps = 28;
    s.minOps = 8;
    s.quickCases = 6000;
    s.thoroughCases = 48000;
    s.run = run;
    return pbt::main(argc, argv, "C25", {s});
}
