// C30: tasks finish, are awaited and are dropped in any threads.
//
// Programs of tasks whose coroutines hop between threads, await each other, and are polled and dropped from other
// threads at the same time. The check is built with ThreadSanitizer (without Qt's event loop, whose locks it cannot see), so
// that a data race is found whether or not it does harm in the interleaving at hand.
#include "pbt.h"

#include <qcoroasyncgenerator.h>
#include <qcorolazytask.h>
#include <qcorotask.h>

#include <array>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>

using namespace pbt;

namespace {

constexpr int Threads = 4;
constexpr int MaxTasks = 8;

//! Executes functions in its own thread
class Worker {
public:
    Worker()
        : mThread([this] { loop(); }) {}
    ~Worker() {
        post({});
        mThread.join();
    }
    void post(std::function<void()> f) {
        {
            const std::lock_guard lock(mMutex);
            mQueue.push_back(std::move(f));
        }
        mWake.notify_one();
    }
    bool isCurrent() const { return mThread.get_id() == std::this_thread::get_id(); }

private:
    void loop() {
        for (;;) {
            std::function<void()> f;
            {
                std::unique_lock lock(mMutex);
                mWake.wait(lock, [this] { return !mQueue.empty(); });
                f = std::move(mQueue.front());
                mQueue.pop_front();
            }
            if (!f) {
                return;
            }
            f();
        }
    }
    std::mutex mMutex;
    std::condition_variable mWake;
    std::deque<std::function<void()>> mQueue;
    std::thread mThread;
};

std::array<std::unique_ptr<Worker>, Threads> &workers() {
    static std::array<std::unique_ptr<Worker>, Threads> w = [] {
        std::array<std::unique_ptr<Worker>, Threads> all;
        for (auto &x : all) {
            x = std::make_unique<Worker>();
        }
        return all;
    }();
    return w;
}

struct Hop {
    int to;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) const {
        workers()[static_cast<std::size_t>(to)]->post([h] { h.resume(); });
    }
    void await_resume() const noexcept {}
};

void spin(int n) {
    for (volatile int i = 0; i < n * 40; i = i + 1) {
    }
}

std::atomic<int> alive{0};
struct Counted {
    explicit Counted(int v) : value(v) { ++alive; }
    Counted(const Counted &o) : value(o.value) { ++alive; }
    Counted(Counted &&o) noexcept : value(o.value) { ++alive; }
    Counted &operator=(const Counted &) = default;
    ~Counted() {
        value = -77;
        --alive;
    }
    int value;
};

// The reference counts of libstdc++'s exceptions are invisible to ThreadSanitizer: their content is never looked at.
struct FirstError : std::exception {};
struct SecondError : std::exception {};

enum OpKind { OpTask, OpHop, OpAwait, OpThen, OpPoll, OpChild, OpLazy, OpGenerate, OpSpin };

struct Step {
    int kind, a, b, c;
};
struct Plan {
    int start = 0, outcome = 0, policy = 0;
    std::vector<Step> steps;
};
enum Outcome { Value, Error1, Error2 };
enum Policy { Keep, Drop, DropElsewhere, Overwrite };

struct World {
    std::vector<Plan> plans;
    std::array<std::optional<QCoro::Task<int>>, MaxTasks> tasks;
    std::array<std::atomic<int>, MaxTasks> executed{};
    std::atomic<int> foreign{0}, ready{0}, waited{0};

    std::mutex mutex;
    std::condition_variable wake;
    int pending = 0;
    std::string failure;

    void fail(const std::string &m) {
        const std::lock_guard lock(mutex);
        if (failure.empty()) {
            failure = m;
        }
    }
    void add() {
        const std::lock_guard lock(mutex);
        ++pending;
    }
    void done() {
        const std::lock_guard lock(mutex);
        if (--pending == 0) {
            wake.notify_all();
        }
    }
};

int outcomeOf(const World &w, int task) {
    return w.plans[static_cast<std::size_t>(task)].outcome;
}

//! What the await of a task that is kept has led to
void judge(World &w, int task, int how, int value, const char *via) {
    const int expected = outcomeOf(w, task);
    if (how != expected || (how == Value && value != 1000 + task)) {
        w.fail(str("task ", task, " awaited ", via, " gave outcome ", how, " value ", value, " instead of ", expected));
    }
}

QCoro::Task<std::string> child(int hops, int seed, Counted argument) {
    const Counted local(seed);
    for (int i = 0; i < hops; ++i) {
        co_await Hop{(seed + i) % Threads};
        spin(seed % 7);
    }
    co_return std::string(40, 'a' + static_cast<char>((argument.value + local.value) % 26));
}

QCoro::LazyTask<std::string> lazyChild(int hops, int seed, Counted argument) {
    const Counted local(seed);
    for (int i = 0; i < hops; ++i) {
        co_await Hop{(seed + i) % Threads};
        spin(seed % 5);
    }
    if (seed % 4 == 3) {
        throw FirstError();
    }
    co_return std::string(40, 'a' + static_cast<char>((argument.value + local.value) % 26));
}

QCoro::AsyncGenerator<std::string> generate(int n, int seed) {
    const Counted local(seed);
    for (int i = 0; i < n; ++i) {
        if ((seed + i) % 3) {
            co_await Hop{(seed * 3 + i) % Threads};
        }
        co_yield std::string(30, 'a' + static_cast<char>((local.value + i) % 26));
    }
    if (seed % 2) {
        throw SecondError();
    }
}

QCoro::Task<int> body(World &w, int index, Counted argument) {
    struct Done {
        World &w;
        ~Done() { w.done(); }
    } const done{w}; // destroyed last
    const Counted local(index);
    const auto &plan = w.plans[static_cast<std::size_t>(index)];
    co_await Hop{plan.start};
    for (const auto &s : plan.steps) {
        switch (s.kind) {
        case OpHop:
            co_await Hop{s.a};
            if (!workers()[static_cast<std::size_t>(s.a)]->isCurrent()) {
                w.fail("not in the thread asked for");
            }
            break;
        case OpSpin:
            spin(s.a);
            break;
        case OpAwait:
        case OpPoll:
        case OpThen: {
            // only tasks which are kept can be awaited by others
            if (index == 0 || w.plans[static_cast<std::size_t>(s.a % index)].policy != Keep) {
                break;
            }
            const int other = s.a % index;
            const auto &task = *w.tasks[static_cast<std::size_t>(other)];
            const auto thread = std::this_thread::get_id();
            const bool ready = task.isReady();
            ++(ready ? w.ready : w.waited);
            int how = Value, value = 0;
            if (s.kind == OpPoll) {
                for (int i = 0; i < s.b * 10 && !task.isReady(); ++i) {
                    spin(1);
                }
                if (!task.isReady()) {
                    break;
                }
            }
            try {
                if (s.kind == OpThen) {
                    // then() needs the task to be mutable although it does not change it
                    auto &t = *w.tasks[static_cast<std::size_t>(other)];
                    if (s.b % 2) {
                        value = co_await t.then([](int v) { return v + 5; }) - 5;
                    } else {
                        value = co_await t.then([](int v) -> QCoro::Task<int> {
                            co_await Hop{v % Threads};
                            co_return v;
                        });
                    }
                } else {
                    value = co_await task;
                }
            } catch (const FirstError &) {
                how = Error1;
            } catch (const SecondError &) {
                how = Error2;
            }
            judge(w, other, how, value, s.kind == OpThen ? "by then()" : s.kind == OpPoll ? "when ready" : "directly");
            if (s.kind != OpThen && (ready || s.kind == OpPoll) && thread != std::this_thread::get_id()) {
                w.fail("the await of a finished task changed the thread");
            }
            w.foreign += thread != std::this_thread::get_id();
            break;
        }
        case OpChild: {
            const std::string v = co_await child(s.a, s.b, Counted(index));
            if (v != std::string(40, 'a' + static_cast<char>((index + s.b) % 26))) {
                w.fail("wrong value of a child");
            }
            break;
        }
        case OpLazy: {
            bool failed = false;
            std::string v;
            try {
                if (s.c) {
                    v = co_await lazyChild(s.a, s.b, Counted(index)).then([](std::string x) { return x; });
                } else {
                    v = co_await lazyChild(s.a, s.b, Counted(index));
                }
            } catch (const FirstError &) {
                failed = true;
            }
            if (failed != (s.b % 4 == 3) || (!failed && v != std::string(40, 'a' + static_cast<char>((index + s.b) % 26)))) {
                w.fail("wrong outcome of a lazy child");
            }
            break;
        }
        case OpGenerate: {
            int n = 0;
            bool failed = false;
            try {
                auto g = generate(s.a, s.b);
                QCORO_FOREACH(const std::string &v, g) {
                    if (v != std::string(30, 'a' + static_cast<char>((s.b + n) % 26))) {
                        w.fail("wrong value of a generator");
                    }
                    ++n;
                    if (s.c % 2) {
                        co_await Hop{s.c};
                    }
                }
            } catch (const SecondError &) {
                failed = true;
            }
            if (n != s.a || failed != (s.b % 2 == 1)) {
                w.fail("wrong sequence of a generator");
            }
            break;
        }
        default: break;
        }
        ++w.executed[static_cast<std::size_t>(index)];
    }
    if (argument.value != index || local.value != index) {
        w.fail("the state of a coroutine was destroyed before it ended");
    }
    switch (plan.outcome) {
    case Error1: throw FirstError();
    case Error2: throw SecondError();
    default: co_return 1000 + index;
    }
}

//! Awaits a task it owns
QCoro::Task<> finalAwait(World &w, int index) {
    struct Done {
        World &w;
        ~Done() { w.done(); }
    } const done{w};
    int how = Value, value = 0;
    try {
        value = co_await *w.tasks[static_cast<std::size_t>(index)];
    } catch (const FirstError &) {
        how = Error1;
    } catch (const SecondError &) {
        how = Error2;
    }
    judge(w, index, how, value, "by main");
}

void runOnce(const Case &c, Run &r) {
    World w;
    for (const auto &op : c.ops) {
        if (op.k == OpTask) {
            if (w.plans.size() == MaxTasks) {
                break;
            }
            w.plans.push_back({op.a, std::max(0, op.b - 3), op.c % 6 < 3 ? static_cast<int>(Keep) : op.c % 6 - 2, {}});
        } else if (!w.plans.empty()) {
            w.plans.back().steps.push_back({op.k, op.a, op.b, op.c});
        }
    }
    if (w.plans.empty()) {
        return;
    }
    const int count = static_cast<int>(w.plans.size());
    for (int i = 0; i < count; ++i) {
        const auto &p = w.plans[static_cast<std::size_t>(i)];
        PBT_LOG("task ", i, ": ", p.steps.size(), " steps from thread ", p.start, ", outcome ", p.outcome, ", policy ", p.policy);
        w.add();
        auto task = body(w, i, Counted(i));
        const auto owned = [&w, &p](QCoro::Task<int> t) {
            w.add();
            // std::function must be copyable
            auto shared = std::make_shared<QCoro::Task<int>>(std::move(t));
            const int at = (p.start + p.policy) % Threads;
            workers()[static_cast<std::size_t>(at)]->post([&w, shared = std::move(shared), n = p.policy]() mutable {
                spin(n);
                shared.reset();
                w.done();
            });
        };
        switch (p.policy) {
        case Keep:
            w.tasks[static_cast<std::size_t>(i)].emplace(std::move(task));
            if (p.steps.size() % 2) {
                w.add();
                finalAwait(w, i);
            }
            break;
        case Drop: break;
        case DropElsewhere: owned(std::move(task)); break;
        case Overwrite: {
            w.add();
            auto other = body(w, i, Counted(i));
            task = std::move(other); // the coroutine of the first one continues on its own
            owned(std::move(task));
            break;
        }
        }
    }
    {
        std::unique_lock lock(w.mutex);
        if (!w.wake.wait_for(lock, std::chrono::seconds(15), [&w] { return w.pending == 0; })) {
            const auto failure = w.failure;
            lock.unlock();
            std::fflush(nullptr);
            pbt::abandon(failure.empty() ? "a coroutine never ended" : failure);
        }
    }
    for (auto &t : w.tasks) {
        t.reset();
    }
    // the last frames may still be in the course of being destroyed
    for (auto &worker : workers()) {
        w.add();
        worker->post([&w] { w.done(); });
    }
    {
        std::unique_lock lock(w.mutex);
        w.wake.wait(lock, [&w] { return w.pending == 0; });
    }
    if (!w.failure.empty()) {
        PBT_FAIL(w.failure);
    }
    for (int i = 0; i < count; ++i) {
        const auto &p = w.plans[static_cast<std::size_t>(i)];
        const int steps = static_cast<int>(p.steps.size()) * (p.policy == Overwrite ? 2 : 1);
        PBT_CHECK(w.executed[static_cast<std::size_t>(i)] == steps, "task ", i, " has executed ", w.executed[static_cast<std::size_t>(i)].load(),
                  " steps instead of ", steps);
    }
    PBT_CHECK(alive == 0, alive.load(), " objects of coroutines are left");
    alive = 0;
    if (w.foreign > 0) {
        r.tag("resumed in another thread");
    }
    if (w.ready > 0) {
        r.tag("awaited when finished");
    }
    if (w.waited > 0) {
        r.tag("awaited before it finished");
    }
    for (const auto &p : w.plans) {
        if (p.policy != Keep) {
            r.tag("dropped");
        }
        if (p.outcome != Value) {
            r.tag("failed");
        }
    }
    if (count >= 2 && w.waited + w.ready > 0) {
        r.nontrivial();
    }
}

void run(const Case &c, Run &r) {
    for (int n = 0; n < (r.replaying ? 500 : 1) && !r.failed(); ++n) {
        runOnce(c, r);
        r.verbose = false;
    }
}

} // namespace

int main(int argc, char **argv) {
    Scenario s;
    s.name = "threads";
    s.rule = "up to 8 tasks (values and exceptions) hopping between 4 threads at the same time, awaiting each other directly, when ready or "
             "through then(), running child tasks, lazy tasks and generators in several threads, being kept, dropped or overwritten meanwhile; "
             "non-trivial when a task is awaited by another one";
    s.ops = {{"task", 6, Threads - 1, 5, 5},
             {"hop", 4, Threads - 1},
             {"await", 6, MaxTasks - 1},
             {"then", 2, MaxTasks - 1, 1},
             {"poll", 3, MaxTasks - 1, 9},
             {"child", 2, 3, 25},
             {"lazy", 2, 3, 25, 1},
             {"generate", 1, 4, 12, Threads - 1},
             {"spin", 2, 60}};
    s.maxOps = 30;
    s.minOps = 1;
    s.quickCases = 50000;
    s.thoroughCases = 500000;
    s.run = run;
    s.caseTimeoutSec = 60;
    return pbt::main(argc, argv, "C30", {s});
}
