// C24: awaiting a D-Bus call yields exactly its reply.
//
// A peer-to-peer connection to a server in this process, which keeps the calls it gets and answers them as the case says:
// in any order, with values, errors or values of other types, or never because the connection is lost.
#include "pbt.h"
#include "vloop.h"

#include <qcorodbus.h>
#include <qcorotask.h>

#include <QCoreApplication>
#include <QDBusConnection>
#include <QDBusError>
#include <QDBusMessage>
#include <QDBusPendingCall>
#include <QDBusPendingReply>
#include <QDBusServer>
#include <QDBusVirtualObject>
#include <QElapsedTimer>

#include <dlfcn.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#include <deque>
#include <functional>
#include <memory>
#include <optional>

using namespace pbt;

namespace {

constexpr int MaxCalls = 24;
constexpr int MaxWaits = 60;
constexpr int Types = 6;

QVariantList valuesOf(int type, int n) {
    switch (type) {
    case 1: return {n};
    case 2: return {QStringLiteral("reply %1").arg(n)};
    case 3: return {n, QStringLiteral("reply %1").arg(n)};
    case 4: return {QVariantMap{{QStringLiteral("number"), n}}};
    case 5: return {n, QStringLiteral("reply %1").arg(n), n + 1, QString(), -n, QStringLiteral("\u20ac %1").arg(n)};
    default: return {};
    }
}

//! The state of a call, never disturbed by the injected schedule
bool finished(const QDBusPendingCall &call) {
    static const auto f = reinterpret_cast<bool (*)(const QDBusPendingCall *)>(::dlsym(RTLD_NEXT, "_ZNK16QDBusPendingCall10isFinishedEv"));
    return f(&call);
}

enum Answer { Value, Error, Mismatch };

struct World;

struct Remote : QDBusVirtualObject {
    QString introspect(const QString &) const override { return {}; }
    bool handleMessage(const QDBusMessage &message, const QDBusConnection &connection) override;
};

struct Call {
    QDBusPendingCall call; // what the program got
    int type = 0;
    Answer answer = Value;
    std::optional<QDBusMessage> received; // by the server
    bool answered = false;
    bool local = false; // was finished from the beginning
    bool lost = false;  // the connection ended before it was answered
    bool typed = false; // somebody told which types are expected

    explicit Call(const QDBusPendingCall &c) : call(c) {}
};

struct Wait {
    int call = 0;
    bool done = false;
    bool immediate = false;
};

struct World {
    // Connections are used by many cases and never destroyed, which would race with QtDBus' own thread
    static inline World *active = nullptr;
    static inline QDBusConnection *serverSide = nullptr, *clientSide = nullptr;
    static inline int counter = 0; // of calls
    int base = counter;
    std::deque<Call> calls;
    std::deque<Wait> waits;
    bool broken = false;
    bool ending = false;
    int suspended = 0, finishedBefore = 0, concurrent = 0, outOfOrder = 0;

    //! Waits (in real time) until the condition holds
    bool eventually(const std::function<bool()> &cond) {
        QElapsedTimer t;
        t.start();
        do {
            vloop::drain();
            if (cond()) {
                return true;
            }
            ::usleep(20);
        } while (t.elapsed() < 4000);
        return false;
    }

    void connect() {
        static const auto address = QStringLiteral("unix:abstract=qcoro-c24-%1").arg(::getpid());
        static auto *const server = [] {
            auto *s = new QDBusServer(address);
            auto *remote = new Remote;
            QObject::connect(s, &QDBusServer::newConnection, s, [remote](const QDBusConnection &c) {
                serverSide = new QDBusConnection(c);
                if (!serverSide->registerVirtualObject(QStringLiteral("/"), remote, QDBusConnection::SubPath)) {
                    pbt::abandon("harness: cannot register the object");
                }
            });
            return s;
        }();
        static int connections = 0;
        if (!server->isConnected()) {
            pbt::abandon("harness: no D-Bus server");
        }
        active = this;
        if (!clientSide || !clientSide->isConnected() || !serverSide->isConnected()) {
            serverSide = nullptr;
            clientSide = new QDBusConnection(QDBusConnection::connectToPeer(server->address(), QStringLiteral("client %1").arg(++connections)));
            if (!eventually([] { return serverSide != nullptr; })) {
                pbt::abandon("harness: cannot connect");
            }
        }
    }
    //! Cuts the transport
    void disconnect() {
        bool found = false;
        for (int fd = 3; fd < 256; ++fd) {
            sockaddr_un address{};
            socklen_t size = sizeof address;
            if (::getpeername(fd, reinterpret_cast<sockaddr *>(&address), &size) == 0 && address.sun_family == AF_UNIX
                && std::string_view(address.sun_path + 1).starts_with("qcoro-c24-")) {
                ::shutdown(fd, SHUT_RDWR);
                found = true;
            }
        }
        if (!found || !eventually([] { return !clientSide->isConnected() && !serverSide->isConnected(); })) {
            pbt::abandon("harness: cannot disconnect");
        }
    }

    void make(int type, Answer answer, int local) {
        if (calls.size() >= MaxCalls) {
            return;
        }
        const int n = static_cast<int>(calls.size());
        const auto method = QDBusMessage::createMethodCall(QString(), QStringLiteral("/object"), QStringLiteral("test.Interface"), QStringLiteral("method%1").arg(base + n));
        ++counter;
        switch (local) {
        case 1: // an error
            calls.emplace_back(QDBusPendingCall::fromError(QDBusError(error(n))));
            answer = Error;
            break;
        case 2: calls.emplace_back(QDBusPendingCall::fromCompletedCall(reply(n, method, type, answer))); break;
        default: calls.emplace_back(clientSide->asyncCall(method)); break;
        }
        auto &c = calls.back();
        c.type = type;
        c.answer = answer;
        c.local = c.answered = local == 1 || local == 2;
        c.lost = !c.local && broken;
        PBT_LOG("call ", n, " of type ", type, c.local ? ", finished from the beginning" : "");
    }
    static QDBusMessage error(int n) {
        return QDBusMessage::createError(QStringLiteral("test.Error%1").arg(n), QStringLiteral("error %1").arg(n));
    }
    static QDBusMessage reply(int n, const QDBusMessage &m, int type, Answer answer) {
        switch (answer) {
        case Error: {
            auto e = m.createErrorReply(QStringLiteral("test.Error%1").arg(n), QStringLiteral("error %1").arg(n));
            if (n % 2) {
                e << n << QStringLiteral("details"); // errors may carry more than a message
            }
            return e;
        }
        case Mismatch: return m.createReply(QVariantList{n + 0.5});
        default: return m.createReply(valuesOf(type, n));
        }
    }

    std::vector<int> open() const {
        std::vector<int> r;
        for (std::size_t i = 0; i < calls.size(); ++i) {
            if (!calls[i].answered && calls[i].received && !broken) {
                r.push_back(static_cast<int>(i));
            }
        }
        return r;
    }
    void answer(int n) {
        auto &c = calls[static_cast<std::size_t>(n)];
        PBT_LOG("call ", n, " is answered");
        for (int i = 0; i < n; ++i) {
            outOfOrder += !calls[static_cast<std::size_t>(i)].answered && !calls[static_cast<std::size_t>(i)].lost;
        }
        c.answered = true;
        serverSide->send(reply(n, *c.received, c.type, c.answer));
    }
    void lose() {
        if (broken) {
            return;
        }
        settle();
        PBT_LOG("the connection is lost");
        broken = true;
        for (auto &c : calls) {
            c.lost |= !c.answered;
        }
        current->tag("connection lost");
        disconnect();
    }

    //! All that was sent arrives
    void settle() {
        if (!eventually([this] {
                for (auto &c : calls) {
                    if (c.answered ? !finished(c.call) : !broken && !c.received) {
                        return false;
                    }
                }
                return true;
            })) {
            pbt::abandon("harness: D-Bus messages do not arrive");
        }
    }

    //---- awaiting
    std::size_t begin(int n) {
        auto &w = waits.emplace_back();
        w.call = n;
        w.immediate = finished(calls[static_cast<std::size_t>(n)].call);
        w.immediate ? ++finishedBefore : ++suspended;
        PBT_LOG("wait ", waits.size() - 1, " for call ", n, w.immediate ? ", which is finished" : "");
        return waits.size() - 1;
    }
    bool ended(std::size_t index) {
        auto &w = waits[index];
        PBT_CHECK(!w.done, "wait ", index, " ended twice");
        w.done = true;
        const auto &c = calls[static_cast<std::size_t>(w.call)];
        if (ending || current->failed()) {
            return false;
        }
        PBT_LOG("wait ", index, " ended");
        PBT_CHECK(c.answered || c.lost, "wait ", index, " for call ", w.call, " ended before the call was answered");
        PBT_CHECK(finished(c.call), "wait ", index, " for call ", w.call, " ended before the call finished");
        return true;
    }
    //! Checks an untyped result
    void judge(std::size_t index, const QDBusMessage &m) {
        if (!ended(index)) {
            return;
        }
        const int n = waits[index].call;
        const auto &c = calls[static_cast<std::size_t>(n)];
        if (!c.typed) {
            const auto r = c.call.reply();
            PBT_CHECK(m.type() == r.type() && m.signature() == r.signature() && m.errorName() == r.errorName() && m.errorMessage() == r.errorMessage() && m.service() == r.service()
                          && (m.type() == QDBusMessage::ReplyMessage || m.arguments() == r.arguments()),
                      "wait ", index, " got another message than the reply to call ", n);
        }
        if (m.type() == QDBusMessage::ErrorMessage) {
            if (c.answered && c.answer == Error) {
                PBT_CHECK(m.errorMessage() == QStringLiteral("error %1").arg(n) && (c.local || n % 2 == 0 || m.arguments() == QVariantList({m.errorMessage(), n, QStringLiteral("details")})),
                          "wait ", index, " got another error message than that of call ", n);
                PBT_CHECK(m.errorName() == QStringLiteral("test.Error%1").arg(n), "wait ", index, " got the error ", m.errorName().toStdString(), " instead of that of call ", n);
            } else if ((c.answer == Mismatch || c.local) && c.typed) { // a reply made by hand has no signature
                PBT_CHECK(c.lost || m.errorName() == QDBusError::errorString(QDBusError::InvalidSignature), "wait ", index, " got the error ", m.errorName().toStdString());
            } else {
                PBT_CHECK(c.lost, "wait ", index, " got the error ", m.errorName().toStdString(), " although call ", n, " succeeded");
            }
            return;
        }
        PBT_CHECK(m.type() == QDBusMessage::ReplyMessage, "wait ", index, " got no reply");
        PBT_CHECK(c.answered && c.answer != Error, "wait ", index, " got a reply although call ", n, " failed");
        if (c.answered && c.answer != Error) {
            const auto args = m.arguments();
            const auto expected = c.answer == Mismatch ? QVariantList{n + 0.5} : valuesOf(c.type, n);
            PBT_CHECK(same(args, expected), "wait ", index, " got other values than those of call ", n);
        }
    }
    static bool same(const QVariantList &a, const QVariantList &b) {
        if (a.size() != b.size()) {
            return false;
        }
        for (int i = 0; i < a.size(); ++i) {
            const auto &v = a[i];
            const bool map = v.userType() == qMetaTypeId<QDBusArgument>();
            if (map ? qdbus_cast<QVariantMap>(v.value<QDBusArgument>()) != b[i].toMap() : v != b[i]) {
                return false;
            }
        }
        return true;
    }
    template<typename... T>
    void judgeTyped(std::size_t index, const QDBusPendingReply<T...> &r) {
        if (!ended(index)) {
            return;
        }
        const int n = waits[index].call;
        const auto &c = calls[static_cast<std::size_t>(n)];
        PBT_CHECK(finished(r), "wait ", index, " got an unfinished reply");
        if (!finished(r)) {
            return;
        }
        if (r.isError()) {
            if (c.answered && c.answer == Error) {
                const QDBusMessage m = r.reply();
                PBT_CHECK(r.error().message() == QStringLiteral("error %1").arg(n) && (c.local || n % 2 == 0 || m.arguments() == QVariantList({m.errorMessage(), n, QStringLiteral("details")})),
                          "wait ", index, " got another error message than that of call ", n);
                PBT_CHECK(r.error().name() == QStringLiteral("test.Error%1").arg(n), "wait ", index, " got the error ", r.error().name().toStdString(), " instead of that of call ", n);
            } else {
                PBT_CHECK(c.lost || ((c.answer == Mismatch || c.local) && sizeof...(T) > 0 && r.error().type() == QDBusError::InvalidSignature), "wait ", index, " got the error ",
                          r.error().name().toStdString(), " although call ", n, " succeeded");
            }
            return;
        }
        PBT_CHECK(c.answered && c.answer != Error, "wait ", index, " got a reply although call ", n, " failed");
        PBT_CHECK(c.answer != Mismatch || sizeof...(T) == 0, "wait ", index, " took a reply with other types as valid");
        if constexpr (sizeof...(T) > 0) {
            if (c.answered && c.answer == Value) {
                check(index, n, r, std::index_sequence_for<T...>());
            }
        }
    }
    template<typename... T, std::size_t... I>
    void check(std::size_t index, int n, const QDBusPendingReply<T...> &r, std::index_sequence<I...>) {
        const auto expected = valuesOf(calls[static_cast<std::size_t>(n)].type, n);
        const bool ok = ((r.template argumentAt<I>() == expected[static_cast<int>(I)].template value<T>()) && ...);
        PBT_CHECK(ok, "wait ", index, " got other values than those of call ", n);
    }

    void atOnce(std::size_t index, bool ready) {
        const auto &w = waits[index];
        if (w.immediate) {
            PBT_CHECK(ready, "wait ", index, " for the finished call ", w.call, " suspended");
        }
    }

    QCoro::Task<> untyped(int n, int style) {
        const auto index = begin(n);
        const QDBusPendingCall &call = calls[static_cast<std::size_t>(n)].call;
        switch (style) {
        case 0: judge(index, co_await call); break;
        case 1: judge(index, co_await QDBusPendingCall(call)); break;
        case 2: {
            auto task = qCoro(call).waitForFinished();
            atOnce(index, task.isReady());
            judge(index, co_await task);
            break;
        }
        case 3: {
            auto task = qCoro(QDBusPendingCall(call)).waitForFinished();
            atOnce(index, task.isReady());
            judge(index, co_await std::move(task));
            break;
        }
        case 4: {
            auto wrapper = qCoro(call);
            judge(index, co_await wrapper.waitForFinished());
            const auto again = begin(n);
            auto task = wrapper.waitForFinished();
            atOnce(again, task.isReady());
            judge(again, co_await task);
            break;
        }
        default:
            co_await qCoro(call).waitForFinished().then([this, index](const QDBusMessage &m) { judge(index, m); });
            break;
        }
    }
    template<typename... T>
    QCoro::Task<> typed(int n, int style) {
        calls[static_cast<std::size_t>(n)].typed = true;
        const auto index = begin(n);
        using Reply = QDBusPendingReply<T...>;
        switch (style) {
        case 0: {
            Reply reply(calls[static_cast<std::size_t>(n)].call);
            judgeTyped<T...>(index, co_await reply);
            PBT_CHECK(finished(reply), "the reply is not finished after waiting for it");
            break;
        }
        case 1: judgeTyped<T...>(index, co_await Reply(calls[static_cast<std::size_t>(n)].call)); break;
        case 2: {
            Reply reply(calls[static_cast<std::size_t>(n)].call);
            auto task = qCoro(reply).waitForFinished();
            atOnce(index, task.isReady());
            judgeTyped<T...>(index, co_await task);
            PBT_CHECK(finished(reply), "the reply is not finished after waiting for it");
            break;
        }
        case 3: {
            auto temporary = std::make_unique<Reply>(calls[static_cast<std::size_t>(n)].call);
            auto wrapper = qCoro(*temporary); // waitForFinished() works on it while it waits
            temporary.reset();
            auto task = wrapper.waitForFinished();
            atOnce(index, task.isReady());
            judgeTyped<T...>(index, co_await std::move(task));
            break;
        }
        case 4: {
            const Reply reply(calls[static_cast<std::size_t>(n)].call);
            auto wrapper = qCoro(reply);
            judgeTyped<T...>(index, co_await wrapper.waitForFinished());
            const auto again = begin(n);
            auto task = wrapper.waitForFinished();
            atOnce(again, task.isReady());
            judgeTyped<T...>(again, co_await task);
            break;
        }
        default: {
            const Reply reply(calls[static_cast<std::size_t>(n)].call);
            co_await qCoro(reply).waitForFinished().then([this, index](const Reply &r) { judgeTyped<T...>(index, r); });
            break;
        }
        }
    }
    QCoro::Task<> await(int n, int count, int style) {
        for (; count > 0 && n < static_cast<int>(calls.size()) && waits.size() < MaxWaits && !ending && !current->failed(); --count, ++n) {
            auto &c = calls[static_cast<std::size_t>(n)];
            const auto before = waits.size();
            const bool over = finished(c.call);
            std::optional<QCoro::Task<>> task;
            if (style < 6) {
                task.emplace(untyped(n, style));
            } else {
                switch (c.type) {
                case 0: task.emplace(typed<>(n, style - 6)); break;
                case 1: task.emplace(typed<int>(n, style - 6)); break;
                case 2: task.emplace(typed<QString>(n, style - 6)); break;
                case 3: task.emplace(typed<int, QString>(n, style - 6)); break;
                case 4: task.emplace(typed<QVariantMap>(n, style - 6)); break;
                default: task.emplace(typed<int, QString, int, QString, int, QString>(n, style - 6)); break;
                }
            }
            PBT_CHECK(task->isReady() || !over, "wait ", before, " for the finished call ", n, " suspended");
            co_await *task;
        }
    }

    void invariants() {
        settle();
        std::size_t hanging = 0;
        eventually([&] {
            for (hanging = 0; hanging < waits.size(); ++hanging) {
                const auto &w = waits[hanging];
                if (!w.done && finished(calls[static_cast<std::size_t>(w.call)].call)) {
                    return false;
                }
            }
            return true;
        });
        if (!current->failed()) {
            PBT_CHECK(hanging == waits.size(), "wait ", hanging, " does not end although call ", waits[hanging].call, " is finished");
        }
    }
};

bool Remote::handleMessage(const QDBusMessage &message, const QDBusConnection &) {
    if (!message.member().startsWith(QLatin1String("method"))) {
        return false;
    }
    message.setDelayedReply(true);
    auto *world = World::active;
    const int n = message.member().mid(6).toInt() - world->base;
    if (n >= 0 && n < static_cast<int>(world->calls.size())) {
        world->calls[static_cast<std::size_t>(n)].received = message;
    }
    return true;
}

enum { Make, Await, AnswerOp, AnswerAll, Race, Lose, Settle };

World *armed = nullptr;
int armedChoice = 0;

void run(const Case &c, Run &r) {
    vloop::resetTimers();
    armed = nullptr;
    auto *world = new World;
    auto &w = *world;
    w.connect();
    for (const auto &op : c.ops) {
        const auto open = w.open();
        switch (op.k) {
        case Make: {
            const int n = static_cast<int>(w.calls.size());
            w.make(op.a % Types, op.a / Types < 3 ? Value : op.a / Types == 3 ? Error : Mismatch, op.b);
            if (op.c > 1) {
                w.await(n, 1, (op.a + op.c) % 12);
            }
            break;
        }
        case Await:
            if (!w.calls.empty()) {
                const int n = op.a % static_cast<int>(w.calls.size());
                for (const auto &other : w.waits) {
                    if (!other.done && other.call == n) {
                        r.tag("awaited several times at once");
                    }
                }
                w.await(n, 1 + op.b / 12, op.b % 12);
            }
            break;
        case AnswerOp:
            if (!open.empty()) {
                w.answer(open[static_cast<std::size_t>(op.a) % open.size()]);
            }
            break;
        case AnswerAll:
            for (std::size_t k = 0; k < open.size(); ++k) {
                w.answer(op.a == 0 ? open[k] : op.a == 1 ? open[open.size() - 1 - k] : open[(k + static_cast<std::size_t>(op.a)) % open.size()]);
            }
            w.concurrent += open.size() > 1;
            break;
        case Race: // the answer arrives while somebody starts to wait
            if (!open.empty()) {
                armed = world;
                armedChoice = op.a;
                const int n = open[static_cast<std::size_t>(op.a) % open.size()];
                w.await(n, 1, op.b);
                armed = nullptr;
                r.tag("answered while starting to wait");
            }
            break;
        case Lose: w.lose(); break;
        default: w.settle(); break;
        }
        if (op.c % 2) {
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    w.invariants();
    for (const int n : w.open()) {
        w.answer(n);
    }
    w.invariants();
    if (w.suspended > 0) {
        r.tag("waited");
    }
    if (w.finishedBefore > 0) {
        r.tag("finished before it was awaited");
    }
    if (w.concurrent > 0) {
        r.tag("several replies at once");
    }
    if (w.outOfOrder > 0) {
        r.tag("replies out of order");
    }
    if (w.suspended > 0 && w.calls.size() > 1) {
        r.nontrivial();
    }
    if (r.failed()) {
        return;
    }
    bool leak = false;
    for (std::size_t k = 0; k < w.waits.size(); ++k) {
        const auto &wait = w.waits[k];
        leak |= !wait.done;
        PBT_CHECK(wait.done || w.calls[static_cast<std::size_t>(wait.call)].lost, "wait ", k, " never ended");
    }
    if (r.failed()) {
        return;
    }
    w.ending = true;
    vloop::drain();
    if (!leak) {
        delete world;
    }
    vloop::drain();
}

} // namespace

// An answer can arrive in D-Bus' thread after the state of the call was examined
bool QDBusPendingCall::isFinished() const {
    const bool result = finished(*this);
    if (armed && !result) {
        auto &w = *armed;
        armed = nullptr;
        const auto open = w.open();
        const int n = open[static_cast<std::size_t>(armedChoice) % open.size()];
        w.answer(n);
        QElapsedTimer t;
        t.start();
        while (!finished(w.calls[static_cast<std::size_t>(n)].call) && t.elapsed() < 4000) {
            ::usleep(20);
        }
    }
    return result;
}

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario s;
    s.name = "calls";
    s.rule = "several calls were made, and at least one was awaited before it was answered";
    s.ops = {
        {"make", 8, Types * 5 - 1, 6, 13},
        {"await", 10, MaxCalls - 1, 23, 1},
        {"answer", 8, MaxCalls - 1, 0, 1},
        {"answer all", 2, 3, 0, 1},
        {"race", 3, MaxCalls - 1, 11, 1},
        {"lose", 1, 0, 0, 1},
        {"settle", 3, 0, 0, 1},
    };
    s.maxOps = 24;
    s.quickCases = 40000;
    s.thoroughCases = 320000;
    s.run = run;
    return pbt::main(argc, argv, "C24", {s});
}
