// C29: an awaited operation that has ended leaves nothing behind.
//
// A generated program of operations of every kind and of events ending them in different ways (success, timeout, error,
// closing, destruction) is executed several times in a row. Once all operations have ended, no QObject, timer, memory or
// connection to the awaited objects may have been added by a further repetition.
#include "emitter.h"
#include "fakedevice.h"
#include "pbt.h"
#include "rawwebsocket.h"
#include "tracked.h"
#include "vloop.h"

#include <qcoroabstractsocket.h>
#include <qcoroasyncgenerator.h>
#include <qcorodbus.h>
#include <qcorofuture.h>
#include <qcorogenerator.h>
#include <qcoroiodevice.h>
#include <qcorolazytask.h>
#include <qcorolocalsocket.h>
#include <qcoronetworkreply.h>
#include <qcoroprocess.h>
#include <qcorosignal.h>
#include <qcorotask.h>
#include <qcorotcpserver.h>
#include <qcorothread.h>
#include <qcorotimer.h>
#include <qcorowebsocket.h>
#include <qcorowebsocketserver.h>

#include <QCoreApplication>
#include <QDBusConnection>
#include <QDBusMessage>
#include <QDBusPendingCall>
#include <QDBusPendingReply>
#include <QDBusServer>
#include <QDBusVirtualObject>
#include <QElapsedTimer>
#include <QLocalSocket>
#include <QMetaMethod>
#include <QNetworkReply>
#include <QProcess>
#include <QPromise>
#include <QTcpServer>
#include <QTcpSocket>
#include <QTemporaryDir>
#include <QThread>
#include <QTimer>
#include <QWebSocket>
#include <QWebSocketServer>

#include <sys/un.h>

#include <atomic>
#include <deque>
#include <functional>
#include <memory>

// Counts the QObjects of the process (see QtCore/private/qhooks_p.h)
extern quintptr Q_CORE_EXPORT qtHookData[];
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace pbt;
using emitter::Emitter;
using std::chrono::milliseconds;

namespace {

std::atomic<int> liveObjects{0};

void countObjects() {
    qtHookData[3] = reinterpret_cast<quintptr>(+[](QObject *) { ++liveObjects; });
    qtHookData[4] = reinterpret_cast<quintptr>(+[](QObject *) { --liveObjects; });
}

constexpr int timeouts[] = {-1, 10, 0, 1000};
constexpr int limited[] = {50, 10, 0, 1000}; // for operations which the harness cannot always end
constexpr int MaxActive = 40;

QString scratch;

bool eventually(const std::function<bool()> &cond) {
    QElapsedTimer t;
    t.start();
    do {
        vloop::drain();
        if (cond()) {
            return true;
        }
        ::usleep(20);
    } while (t.elapsed() < 4000);
    return false;
}

class FakeReply : public QNetworkReply {
public:
    FakeReply() {
        setOpenMode(ReadOnly);
        setOperation(QNetworkAccessManager::GetOperation);
    }
    qint64 bytesAvailable() const override { return mIn.size() + QNetworkReply::bytesAvailable(); }
    bool isSequential() const override { return true; }
    void produce() {
        mIn += "body\n";
        Q_EMIT readyRead();
    }
    void finish(bool ok) {
        if (!isFinished()) {
            if (!ok) {
                setError(UnknownNetworkError, QStringLiteral("failed"));
                Q_EMIT errorOccurred(UnknownNetworkError);
            }
            setFinished(true);
            Q_EMIT finished();
        }
    }
    void abort() override { finish(false); }

protected:
    qint64 readData(char *data, qint64 maxSize) override {
        const qint64 n = std::min<qint64>(maxSize, mIn.size());
        std::copy_n(mIn.constData(), n, data);
        mIn.remove(0, n);
        return n == 0 && isFinished() ? -1 : n;
    }

private:
    QByteArray mIn;
};

struct Remote : QDBusVirtualObject {
    QString introspect(const QString &) const override { return {}; }
    bool handleMessage(const QDBusMessage &m, const QDBusConnection &c) override {
        c.send(m.member() == QLatin1String("fail") ? m.createErrorReply(QStringLiteral("test.Error"), QStringLiteral("failed")) : m.createReply(7));
        return true;
    }
};

QDBusConnection &bus() {
    static QDBusConnection *client = [] {
        static QDBusConnection *serverSide = nullptr;
        auto *s = new QDBusServer(QStringLiteral("unix:abstract=qcoro-c29-%1").arg(::getpid()));
        auto *remote = new Remote;
        QObject::connect(s, &QDBusServer::newConnection, s, [remote](const QDBusConnection &c) {
            serverSide = new QDBusConnection(c);
            if (!serverSide->registerVirtualObject(QStringLiteral("/"), remote, QDBusConnection::SubPath)) {
                pbt::abandon("harness: cannot register the object");
            }
        });
        auto *c = new QDBusConnection(QDBusConnection::connectToPeer(s->address(), QStringLiteral("client")));
        if (!s->isConnected() || !eventually([] { return serverSide != nullptr; })) {
            pbt::abandon("harness: cannot connect");
        }
        return c;
    }();
    return *client;
}

int listenLocal(const QString &path) {
    const int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    const auto p = path.toLocal8Bit();
    std::copy(p.begin(), p.end(), a.sun_path);
    if (fd < 0 || ::bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0 || ::listen(fd, 20) != 0) {
        pbt::abandon("harness: cannot listen");
    }
    return fd;
}

//! The objects awaited
struct Targets {
    QTimer timer;
    Emitter source;
    std::unique_ptr<FakeDevice> device;
    QThread thread;
    QTcpSocket tcp;
    QLocalSocket local;
    QTcpServer server;
    QProcess process;
    QWebSocket ws;
    QWebSocketServer wsServer{QStringLiteral("test"), QWebSocketServer::NonSecureMode};

    Targets() {
        timer.setSingleShot(true);
        wsServer.setHandshakeTimeout(1'000'000'000);
        if (!server.listen(QHostAddress::LocalHost) || !wsServer.listen(QHostAddress::LocalHost)) {
            pbt::abandon("harness: cannot listen");
        }
        makeDevice();
    }
    void makeDevice() {
        device = std::make_unique<FakeDevice>(true);
        device->open(QIODevice::ReadWrite);
    }
    std::vector<std::pair<const char *, QObject *>> all() {
        return {{"timer", &timer}, {"signal source", &source}, {"device", device.get()}, {"thread", &thread}, {"TCP socket", &tcp},
                {"local socket", &local}, {"TCP server", &server}, {"process", &process}, {"websocket", &ws}, {"websocket server", &wsServer}};
    }
};

struct Access : QObject {
    static int receiversOf(const QObject *o, const QByteArray &signal) { return (o->*&Access::receivers)(signal.constData()); }
};

//! The number of receivers connected to the signals of the object
int connections(QObject *o) {
    int n = 0;
    const auto *mo = o->metaObject();
    for (int i = 0; i < mo->methodCount(); ++i) {
        if (mo->method(i).methodType() == QMetaMethod::Signal) {
            n += Access::receiversOf(o, '2' + mo->method(i).methodSignature());
        }
    }
    return n;
}

enum Kind {
    Timer, Sleep, Signal, Listener, Read, Write, Future, VoidFuture, Thread, Hop, Reply, Tcp, Local, Accept, WebSocket, WebSocketServer, DBus, Process, Tasks,
    Kinds
};
constexpr const char *names[] = {"timer", "sleep", "signal", "listener", "read", "write", "future", "void future", "thread", "hop", "reply", "tcp", "local",
                                 "accept", "websocket", "websocket server", "dbus", "process", "tasks"};

struct World {
    std::unique_ptr<Targets> t;
    std::vector<std::pair<QPromise<int>, bool>> promises; // and whether they are finished
    std::vector<std::pair<QPromise<void>, bool>> voidPromises;
    std::vector<std::unique_ptr<FakeReply>> replies;
    std::vector<std::unique_ptr<QWebSocket>> peers; // server side
    std::vector<int> fds;
    std::vector<QCoro::Task<>> kept;
    std::unique_ptr<QObject> context;
    int active = 0;
    int activeOf[Kinds]{};
    int tcpListening = -1, localListening = -1;
    quint16 tcpPort = 0;
    bool ending = false;
    int suspended = 0;

    World() {
        tcpListening = rawws::server(tcpPort, true);
        static int serial = 0;
        localPath = scratch + QStringLiteral("/%1").arg(++serial);
        localListening = listenLocal(localPath);
    }
    ~World() {
        ::close(tcpListening);
        ::close(localListening);
        QFile::remove(localPath);
    }
    QString localPath;

    FakeReply *reply() {
        if (replies.empty() || !replies.back() || replies.back()->isFinished()) {
            replies.push_back(std::make_unique<FakeReply>());
        }
        return replies.back().get();
    }
    void acceptAll() {
        for (const int l : {tcpListening, localListening}) {
            for (int fd; (fd = ::accept4(l, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK)) >= 0;) {
                fds.push_back(fd);
            }
        }
    }
    void closeAll() {
        for (const int fd : fds) {
            ::close(fd);
        }
        fds.clear();
    }
};

struct Active {
    World &w;
    int kind;
    Active(World &world, int k) : w(world), kind(k) { ++w.active, ++w.activeOf[k]; }
    ~Active() { --w.active, --w.activeOf[kind]; }
    Active(const Active &) = delete;
};

QCoro::Generator<Tracked> numbers(int n) {
    const Tracked local(1);
    for (int i = 0; i < n; ++i) {
        co_yield Tracked(i);
    }
}
QCoro::AsyncGenerator<Tracked> slowNumbers(int n, bool fail) {
    const Tracked local(1);
    for (int i = 0; i < n; ++i) {
        co_await QCoro::sleepFor(milliseconds(3));
        co_yield Tracked(i);
    }
    if (fail) {
        throw TestError(4);
    }
}
QCoro::LazyTask<Tracked> lazy(int ms, bool fail) {
    const Tracked local(2);
    co_await QCoro::sleepFor(milliseconds(ms));
    if (fail) {
        throw TestError(5);
    }
    co_return Tracked(3);
}
QCoro::Task<Tracked> eager(int ms, bool fail) {
    const Tracked local(2);
    co_await QCoro::sleepFor(milliseconds(ms));
    if (fail) {
        throw TestError(5);
    }
    co_return Tracked(3);
}

//---- one coroutine per kind of operation

QCoro::Task<> timers(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    auto &timer = w.t->timer;
    if (!timer.isActive()) {
        timer.start(b * 5);
    }
    switch (a % 3) {
    case 0: co_await timer; break;
    case 1: co_await &timer; break;
    default: co_await qCoro(timer).waitForTimeout(); break;
    }
}

QCoro::Task<> sleeps(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    if (a % 2 == 0) {
        co_await QCoro::sleepFor(milliseconds(b * 7));
    } else {
        co_await QCoro::sleepUntil(std::chrono::steady_clock::now() + milliseconds(b * 7));
    }
}

template<typename F>
QCoro::Task<> awaitSignal(World &w, F f, int b) {
    if (timeouts[b] < 0) {
        co_await qCoro(&w.t->source, f);
    } else {
        co_await qCoro(&w.t->source, f, milliseconds(timeouts[b]));
    }
}

QCoro::Task<> signalWait(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    switch (a % 4) {
    case 0: co_await awaitSignal(w, &Emitter::none, b % 4); break;
    case 1: co_await awaitSignal(w, &Emitter::single, b % 4); break;
    case 2: co_await awaitSignal(w, &Emitter::pair, b % 4); break;
    default: co_await awaitSignal(w, &Emitter::object, b % 4); break;
    }
}

QCoro::Task<> listen(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    auto generator = qCoroSignalListener(&w.t->source, &Emitter::single, milliseconds(timeouts[b % 4]));
    int n = 0;
    QCORO_FOREACH(const int v, generator) {
        Q_UNUSED(v);
        if (n++ == a % 3) {
            break;
        }
        if (a / 3 % 2) {
            co_await QCoro::sleepFor(milliseconds(5));
        }
    }
}

QCoro::Task<> reads(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    auto *dev = w.t->device.get();
    const milliseconds ms(timeouts[b % 4]);
    switch (a % 6) {
    case 0: co_await qCoro(dev).readAll(ms); break;
    case 1: co_await qCoro(dev).read(5, ms); break;
    case 2: co_await qCoro(*dev).readLine(0, ms); break;
    case 3: co_await qCoro(dev).waitForReadyRead(ms); break;
    case 4: co_await *dev; break;
    default: co_await dev; break;
    }
}

QCoro::Task<> writes(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    auto *dev = w.t->device.get();
    if (a % 2) {
        co_await qCoro(dev).write("data");
    } else {
        dev->write("data");
        co_await qCoro(dev).waitForBytesWritten(milliseconds(timeouts[b % 4]));
    }
}

template<typename T>
QCoro::Task<> futures(World &w, std::vector<std::pair<QPromise<T>, bool>> &promises, int kind, int a, int b) {
    const Active active(w, kind);
    if (promises.empty() || b % 2 || a % 3 == 2) {
        promises.emplace_back(QPromise<T>(), false).first.start();
    }
    auto future = promises.back().first.future();
    if (a % 3 == 2) {
        // the result is taken, so nobody else may have it
        promises.emplace_back(QPromise<T>(), false).first.start();
    }
    switch (a % 3) {
    case 0: co_await future; break;
    case 1: co_await qCoro(future).waitForFinished(); break;
    default:
        if constexpr (std::is_void_v<T>) {
            co_await qCoro(std::move(future)).waitForFinished();
        } else {
            co_await qCoro(future).takeResult();
        }
    }
}

QCoro::Task<> threads(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    if (a % 2) {
        co_await qCoro(w.t->thread).waitForStarted(milliseconds(timeouts[b % 4]));
    } else {
        co_await qCoro(&w.t->thread).waitForFinished(milliseconds(timeouts[b % 4]));
    }
}

QCoro::Task<> hops(World &w, int kind, int a, int) {
    const Active active(w, kind);
    auto *home = QThread::currentThread();
    if (!w.t->thread.isRunning()) {
        w.t->thread.start();
    }
    for (int k = 0; k <= a % 2; ++k) {
        co_await QCoro::moveToThread(&w.t->thread);
        co_await QCoro::moveToThread(home);
    }
}

QCoro::Task<> replies(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    QNetworkReply *r = w.reply();
    const milliseconds ms(timeouts[b % 4]);
    switch (a % 6) {
    case 0: co_await r; break;
    case 1: co_await qCoro(*r).waitForFinished(); break;
    case 2: co_await qCoro(r).waitForFinished(ms); break;
    case 3: co_await qCoro(r).readAll(ms); break;
    case 4: co_await qCoro(*r).waitForReadyRead(ms); break;
    default: co_await qCoro(r).waitForBytesWritten(ms); break;
    }
}

template<typename Socket>
QCoro::Task<> socketWait(World &w, Socket &s, int a, int b) {
    const milliseconds ms(limited[b % 4]);
    switch (a % 7) {
    case 0:
    case 1: {
        if constexpr (std::is_same_v<Socket, QTcpSocket>) {
            if (s.state() == QAbstractSocket::UnconnectedState) {
                // port 1 refuses
                co_await qCoro(s).connectToHost(QHostAddress(QHostAddress::LocalHost), a % 7 == 0 ? w.tcpPort : 1, QIODevice::ReadWrite, ms);
            }
        } else if (s.state() == QLocalSocket::UnconnectedState) {
            co_await qCoro(s).connectToServer(a % 7 == 0 ? w.localPath : scratch + QStringLiteral("/missing"), QIODevice::ReadWrite, ms);
        }
        break;
    }
    case 2: co_await qCoro(s).waitForConnected(ms); break;
    case 3: co_await qCoro(s).waitForDisconnected(ms); break;
    case 4:
        if (s.isReadable()) {
            co_await qCoro(s).readAll(ms);
        }
        break;
    case 5:
        if (s.isReadable()) {
            co_await qCoro(s).waitForReadyRead(ms);
        }
        break;
    default:
        if (s.isOpen() && s.isWritable()) {
            co_await qCoro(s).write("data");
        }
    }
}

QCoro::Task<> sockets(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    if (kind == Tcp) {
        co_await socketWait(w, w.t->tcp, a, b);
    } else {
        co_await socketWait(w, w.t->local, a, b);
    }
}

QCoro::Task<> accepts(World &w, int kind, int, int b) {
    const Active active(w, kind);
    delete co_await qCoro(w.t->server).waitForNewConnection(milliseconds(limited[b % 4]));
}

QCoro::Task<> webSockets(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    auto &ws = w.t->ws;
    const milliseconds ms(limited[b % 4]);
    switch (a % 6) {
    case 0:
    case 1: {
        if (ws.state() == QAbstractSocket::UnconnectedState) {
            co_await qCoro(ws).open(QUrl(QStringLiteral("ws://127.0.0.1:%1").arg(a % 6 == 0 ? w.t->wsServer.serverPort() : 1)), ms);
        }
        break;
    }
    case 2: co_await qCoro(&ws).ping("x", ms); break;
    case 3: {
        int n = 0;
        auto generator = qCoro(ws).textMessages(ms);
        QCORO_FOREACH(const QString &m, generator) {
            Q_UNUSED(m);
            if (n++ == b % 2) {
                break;
            }
        }
        break;
    }
    case 4: {
        auto generator = qCoro(ws).binaryFrames(ms);
        QCORO_FOREACH(const auto &m, generator) {
            Q_UNUSED(m);
        }
        break;
    }
    default:
        auto generator = qCoro(ws).binaryMessages(ms); // never started
    }
}

QCoro::Task<> webSocketServers(World &w, int kind, int, int b) {
    const Active active(w, kind);
    if (auto *s = co_await qCoro(w.t->wsServer).nextPendingConnection(milliseconds(limited[b % 4]))) {
        w.peers.emplace_back(s)->setParent(nullptr);
    }
}

QCoro::Task<> dbus(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    const auto m = QDBusMessage::createMethodCall(QString(), QStringLiteral("/o"), QStringLiteral("test.Interface"), b % 2 ? QStringLiteral("fail") : QStringLiteral("work"));
    if (a % 5 == 4) {
        co_await QDBusPendingCall::fromError(QDBusError(QDBusMessage::createError(QStringLiteral("a.B"), QString())));
        co_return;
    }
    const auto call = bus().asyncCall(m);
    switch (a % 5) {
    case 0: co_await call; break;
    case 1: co_await qCoro(call).waitForFinished(); break;
    case 2: {
        const QDBusPendingReply<int> reply(call);
        co_await reply;
        break;
    }
    default: {
        const QDBusPendingReply<int> reply(call);
        co_await qCoro(reply).waitForFinished();
        break;
    }
    }
}

QCoro::Task<> processes(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    auto &p = w.t->process;
    const milliseconds ms(limited[b % 4]);
    switch (a % 4) {
    case 0:
        if (p.state() == QProcess::NotRunning) {
            co_await qCoro(p).start(b / 4 ? QStringLiteral("/bin/cat") : scratch + QStringLiteral("/missing"), {}, QIODevice::ReadWrite, ms);
        }
        break;
    case 1: co_await qCoro(p).waitForStarted(ms); break;
    case 2: co_await qCoro(&p).waitForFinished(ms); break;
    default:
        if (p.isReadable()) {
            co_await qCoro(p).readAll(ms);
        }
    }
}

QCoro::Task<> tasks(World &w, int kind, int a, int b) {
    const Active active(w, kind);
    const bool fail = b % 2;
    switch (a) {
    case 0: co_await eager(b, fail); break;
    case 1: co_await lazy(b, fail); break;
    case 2: { auto l = lazy(b, fail); } break; // never started
    case 3: {
        auto t = eager(b, fail);
        auto second = [](const QCoro::Task<Tracked> &task) -> QCoro::Task<> { co_await task; }(t);
        co_await t;
        break;
    }
    case 4: {
        int n = 0;
        for (const auto &x : numbers(4)) {
            Q_UNUSED(x);
            if (n++ == b) {
                break;
            }
        }
        break;
    }
    case 5: {
        int n = 0;
        auto g = slowNumbers(3, fail);
        QCORO_FOREACH(const Tracked &x, g) {
            Q_UNUSED(x);
            if (n++ == b) {
                break;
            }
        }
        break;
    }
    case 6: { auto g = slowNumbers(3, fail); auto it = co_await g.begin(); } break;
    case 7: co_await eager(b, fail).then([](Tracked x) { return x; }, [](const std::exception &) {}); break;
    case 8: co_await eager(b, fail).then([](Tracked &&x) -> QCoro::Task<Tracked> { co_await QCoro::sleepFor(milliseconds(2)); co_return std::move(x); }); break;
    case 9: eager(b, fail).then([] {}); break; // dropped
    case 10: QCoro::connect(eager(b, false), w.context.get(), [](const Tracked &) {}); break;
    case 11: QCoro::waitFor(eager(b, fail)); break;
    case 12: QCoro::waitFor(lazy(b, fail)); break;
    case 13: {
        auto t = eager(b, fail);
        auto u = std::move(t);
        t = eager(b + 1, false);
        t = eager(b + 2, fail);
        u = std::move(t);
        co_await u;
        break;
    }
    case 15: {
        auto g = numbers(3);
        if (b % 2) {
            auto it = g.begin();
            Q_UNUSED(it);
        }
        g = numbers(b);
        for (const auto &x : g) {
            Q_UNUSED(x);
        }
        break;
    }
    case 16: {
        auto g = slowNumbers(3, fail);
        if (b / 2) {
            auto it = co_await g.begin();
            Q_UNUSED(it);
        }
        g = slowNumbers(b, false);
        QCORO_FOREACH(const Tracked &x, g) {
            Q_UNUSED(x);
        }
        break;
    }
    default: { // 14
        auto l = lazy(b, fail);
        co_await std::move(l).then([](const Tracked &) {});
    }
    }
}

QCoro::Task<> start(World &w, int kind, int a, int b) {
    switch (kind) {
    case Timer: return timers(w, kind, a, b);
    case Sleep: return sleeps(w, kind, a, b);
    case Signal: return signalWait(w, kind, a, b);
    case Listener: return listen(w, kind, a, b);
    case Read: return reads(w, kind, a, b);
    case Write: return writes(w, kind, a, b);
    case Future: return futures(w, w.promises, kind, a, b);
    case VoidFuture: return futures(w, w.voidPromises, kind, a, b);
    case Thread: return threads(w, kind, a, b);
    case Hop: return hops(w, kind, a, b);
    case Reply: return replies(w, kind, a, b);
    case Tcp:
    case Local: return sockets(w, kind, a, b);
    case Accept: return accepts(w, kind, a, b);
    case WebSocket: return webSockets(w, kind, a, b);
    case WebSocketServer: return webSocketServers(w, kind, a, b);
    case DBus: return dbus(w, kind, a, b);
    case Process: return processes(w, kind, a, b);
    default: return tasks(w, kind, a, b);
    }
}

QCoro::Task<> failing(QCoro::Task<> t) {
    co_await t;
    throw TestError(1);
}
QCoro::LazyTask<> lazily(World &w, int kind, int a, int b) {
    co_await start(w, kind, a, b);
}

//! The operation, awaited in one of several ways
void launch(World &w, int kind, int a, int b, int c) {
    if (w.active >= MaxActive) {
        return;
    }
    const int before = w.active;
    switch (c % 6) {
    case 0: start(w, kind, a, b); break; // nobody keeps the task
    case 1: w.kept.push_back(start(w, kind, a, b)); break;
    case 2: w.kept.push_back(failing(start(w, kind, a, b))); break;
    case 3: w.kept.push_back(start(w, kind, a, b).then([] {}, [](const std::exception &) {})); break;
    case 4: QCoro::connect(start(w, kind, a, b), w.context.get(), [] {}); break;
    case 5: w.kept.push_back([](World &world, int k, int x, int y) -> QCoro::Task<> { co_await lazily(world, k, x, y); }(w, kind, a, b)); break;
    }
    w.suspended += w.active > before;
}

void finishFuture(World &w, int how, bool isVoid) {
    const auto finish = [how](auto &promises) {
        for (auto &[p, finished] : promises) {
            if (!finished) {
                finished = true;
                if (how == 1) {
                    p.setException(std::make_exception_ptr(TestError(2)));
                } else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(promises)>, std::vector<std::pair<QPromise<int>, bool>>>) {
                    p.addResult(5); // nothing may be taken from a cancelled future
                } else if (how == 2) {
                    p.future().cancel();
                }
                p.finish();
                return;
            }
        }
    };
    if (isVoid) {
        finish(w.voidPromises);
    } else {
        finish(w.promises);
    }
}

void emitSignal(World &w, int k) {
    auto &s = w.t->source;
    switch (k) {
    case 0: Q_EMIT s.none(); break;
    case 1: Q_EMIT s.single(3); break;
    case 2: Q_EMIT s.pair(3, QStringLiteral("x")); break;
    default: Q_EMIT s.object(Tracked(9)); break;
    }
}

void toggleThread(World &w, bool run) {
    auto &t = w.t->thread;
    if (run && !t.isRunning()) {
        t.start();
    } else if (!run && t.isRunning()) {
        if (!eventually([&w] { return w.activeOf[Hop] == 0; })) {
            pbt::abandon("moveToThread() never resumed");
        }
        t.quit();
        t.wait();
    }
}

void settleTimers(World &w) {
    vloop::drain();
    w.acceptAll();
    vloop::drain();
}

//! Ends everything that is still going on
void finish(World &w) {
    for (int n = 0; n < 30; ++n) {
        settleTimers(w);
        for (int k = 0; k < 4; ++k) {
            emitSignal(w, k);
        }
        w.t->device->confirm(1 << 20);
        w.t->device->produce("x\n");
        finishFuture(w, 0, false);
        finishFuture(w, 0, true);
        for (auto &r : w.replies) {
            if (r) {
                r->finish(true);
            }
        }
        if (w.activeOf[Thread] > 0) {
            toggleThread(w, n % 2);
        }
        if (w.activeOf[DBus] > 0) {
            eventually([&w] { return w.activeOf[DBus] == 0; });
        }
        w.t->tcp.abort();
        w.t->local.abort();
        w.t->ws.abort();
        if (w.t->process.state() != QProcess::NotRunning) {
            w.t->process.kill();
            eventually([&w] { return w.t->process.state() == QProcess::NotRunning; });
        }
        vloop::drain();
        vloop::advance(40'000);
        if (w.active == 0 && n > 0) {
            break;
        }
    }
    toggleThread(w, false);
    vloop::drain();
    if (w.active > 0) {
        for (int k = 0; k < Kinds; ++k) {
            PBT_CHECK(w.activeOf[k] == 0, "an operation on a ", names[k], " never ended");
        }
        return;
    }
    w.acceptAll();
    w.closeAll();
    w.kept.clear();
    w.promises.clear();
    w.voidPromises.clear();
    for (auto &r : w.replies) {
        if (r) {
            PBT_CHECK(connections(r.get()) == 0, "a connection to the signals of a reply is left");
        }
    }
    w.replies.clear();
    w.context.reset();
    // connections nobody asked for
    for (int n = 0; n < 4; ++n) {
        while (w.t->server.hasPendingConnections()) {
            delete w.t->server.nextPendingConnection();
        }
        while (w.t->wsServer.hasPendingConnections()) {
            delete w.t->wsServer.nextPendingConnection();
        }
        w.peers.clear();
        vloop::drain();
    }
    w.t->device->close();
    w.t->device->open(QIODevice::ReadWrite);
    w.t->timer.stop();
    vloop::advance(40'000);
    vloop::drain();
}

enum OpKind { OpStart, OpAdvance, OpEmit, OpProduce, OpConfirm, OpDevice, OpFuture, OpReply, OpThread, OpPeer, OpClient, OpWebSocket, OpProcess, OpContext, OpDeliver };

void perform(World &w, const Op &op) {
    auto &t = *w.t;
    bool deliver = true;
    switch (op.k) {
    case OpDeliver: break;
    case OpAdvance: vloop::drain(); vloop::advance(op.a == 5 ? 1000 : op.a * 4); break;
    case OpEmit: emitSignal(w, op.a % 4); deliver = op.b; break;
    case OpProduce: t.device->produce(op.a ? "some data\n" : "x"); deliver = op.b; break;
    case OpConfirm: t.device->confirm(op.a ? 100 : 1); deliver = op.b; break;
    case OpDevice:
        if (op.a) {
            t.makeDevice();
        } else {
            t.device->close();
            deliver = op.b;
            vloop::drain();
            t.device->open(QIODevice::ReadWrite);
        }
        break;
    case OpFuture: finishFuture(w, op.a % 3, op.a / 3); deliver = op.b; break;
    case OpReply:
        if (!w.replies.empty() && w.replies.back()) {
            auto &r = w.replies.back();
            switch (op.a) {
            case 0: r->finish(true); break;
            case 1: r->finish(false); break;
            case 2: r->produce(); break;
            default:
                r->abort(); // those who wait for its end would wait for ever
                r.reset();
                break;
            }
            deliver = op.b;
        }
        break;
    case OpThread: toggleThread(w, op.a); deliver = op.b; break;
    case OpPeer:
        w.acceptAll();
        for (const int fd : w.fds) {
            [[maybe_unused]] auto n = op.a == 0 ? ::send(fd, "hello\n", 6, MSG_NOSIGNAL) : op.a == 1 ? 0 : ::shutdown(fd, SHUT_WR);
        }
        if (op.a == 1) {
            w.closeAll();
        }
        break;
    case OpClient: {
        const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        auto a = rawws::loopback(t.server.serverPort());
        ::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
        w.fds.push_back(fd);
        break;
    }
    case OpWebSocket:
        while (t.wsServer.hasPendingConnections()) {
            w.peers.emplace_back(t.wsServer.nextPendingConnection())->setParent(nullptr);
        }
        switch (op.a) {
        case 0: eventually([&t] { return t.ws.state() != QAbstractSocket::ConnectingState; }); break;
        case 1:
            for (auto &p : w.peers) {
                p->sendTextMessage(QStringLiteral("hello"));
            }
            break;
        case 2:
            for (auto &p : w.peers) {
                p->sendBinaryMessage("hello");
            }
            break;
        case 3:
            for (auto &p : w.peers) {
                p->close();
            }
            break;
        default: t.ws.close(); break;
        }
        for (int n = 0; n < 3; ++n) {
            vloop::drain();
        }
        break;
    case OpProcess:
        if (t.process.state() == QProcess::Running) {
            if (op.a) {
                t.process.kill();
            } else {
                t.process.closeWriteChannel();
            }
            eventually([&t] { return t.process.state() == QProcess::NotRunning; });
        }
        break;
    case OpContext: w.context = std::make_unique<QObject>(); break;
    }
    if (deliver) {
        vloop::drain();
    }
}

struct Usage {
    long long objects = 0, timers = 0, bytes = 0, connections = 0, tracked = 0;
};
constexpr const char *metrics[] = {"QObjects", "timers", "bytes of memory", "connections", "objects in coroutines"};
constexpr long long Usage::*fields[] = {&Usage::objects, &Usage::timers, &Usage::bytes, &Usage::connections, &Usage::tracked};

constexpr std::size_t Short = 4, Long = 24; // rounds

void run(const Case &c, Run &r) {
    vloop::setPolling(true);
    Tracked::reset();
    const bool fresh = c.cfg[0];
    std::vector<Usage> usage;
    usage.reserve(64);
    World w;
    const auto round = [&] {
        if (!w.t) {
            w.t = std::make_unique<Targets>();
        }
        std::vector<int> before;
        vloop::drain();
        for (const auto &[name, o] : w.t->all()) {
            before.push_back(connections(o));
        }
        w.context = std::make_unique<QObject>();
        for (const auto &op : c.ops) {
            if (op.k < Kinds) {
                PBT_LOG("start an operation on a ", names[op.k], ", ", op.a, " ", op.b, " ", op.c);
                launch(w, op.k, op.a, op.b, op.c);
                if (op.c / 6) {
                    vloop::drain();
                }
            } else {
                Op o = op;
                o.k = op.k - Kinds + 1;
                perform(w, o);
            }
            if (r.failed()) {
                return;
            }
        }
        finish(w);
        if (r.failed()) {
            return;
        }
        std::size_t k = 0;
        for (const auto &[name, o] : w.t->all()) {
            PBT_CHECK(connections(o) <= before[k], connections(o) - before[k], " connections to the signals of the ", name, " are left");
            ++k;
        }
        if (fresh) {
            w.t.reset();
        }
        vloop::drain();
        if (usage.size() >= Short) {
            // other threads (D-Bus, process, moveToThread()) may have to tidy up
            ::usleep(usage.size() > Long / 2 ? 20'000 : 1000);
            vloop::drain();
        }
        Usage u;
        u.objects = liveObjects;
        u.timers = vloop::timerCount();
        u.tracked = Tracked::total();
        Tracked::live().clear();
        u.bytes = static_cast<long long>(__sanitizer_get_current_allocated_bytes());
        usage.push_back(u);
        PBT_LOG("round ", usage.size(), ": ", u.objects, " QObjects, ", u.timers, " timers, ", u.bytes, " bytes");
        PBT_CHECK(u.tracked == 0, u.tracked, " objects owned by coroutines are left");
    };
    const auto growing = [&](std::size_t from) -> int {
        for (std::size_t f = 0; f < std::size(fields); ++f) {
            bool grows = true;
            for (std::size_t i = from + 1; i < usage.size(); ++i) {
                grows &= usage[i].*fields[f] > usage[i - 1].*fields[f];
            }
            if (grows) {
                return static_cast<int>(f);
            }
        }
        return -1;
    };
    while (usage.size() < Short && !r.failed()) {
        round();
    }
    // caches fill up some day; leaks never stop
    while (!r.failed() && usage.size() < Long && growing(1) >= 0) {
        round();
    }
    if (!r.failed() && usage.size() == Long) {
        const int f = growing(1);
        if (f >= 0) {
            PBT_FAIL("every repetition leaves ", (usage.back().*fields[f] - usage[1].*fields[f]) / static_cast<long long>(Long - 2), " more ", metrics[f], " behind");
        }
    }
    if (r.failed()) {
        std::fflush(nullptr);
        // coroutines may be suspended for ever
        pbt::abandon(r.message());
    }
    for (const auto &op : c.ops) {
        if (op.k < Kinds) {
            r.tag(names[op.k]);
        }
    }
    if (w.suspended >= 2) {
        r.nontrivial();
    }
    w.t.reset();
    vloop::drain();
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    countObjects();
    QTemporaryDir dir;
    scratch = dir.path();
    Scenario s;
    s.name = "repetitions";
    s.rule = "programs of operations on every kind of object, ended by events, timeouts, errors, closing and destruction, repeated until the "
             "resources in use no longer grow; non-trivial when at least two operations were suspended";
    s.cfg = {{"fresh", 1}};
    const auto args = [](int amax, int bmax) { return std::pair(amax, bmax); };
    const std::pair<int, int> kindArgs[] = {args(2, 3), args(1, 3), args(3, 3), args(5, 3), args(5, 3), args(1, 3), args(2, 1), args(2, 1), args(1, 3), args(1, 0),
                                            args(5, 3), args(6, 3), args(6, 3), args(0, 3), args(5, 3), args(0, 3), args(4, 1), args(3, 7), args(16, 4)};
    const int weights[] = {2, 2, 4, 3, 5, 3, 3, 2, 2, 1, 4, 4, 4, 2, 4, 2, 2, 1, 6};
    for (int k = 0; k < Kinds; ++k) {
        static std::string id[Kinds];
        id[k] = names[k];
        std::replace(id[k].begin(), id[k].end(), ' ', '_');
        s.ops.push_back({id[k].c_str(), weights[k], kindArgs[k].first, kindArgs[k].second, 11});
    }
    const OpSpec events[] = {{"advance", 6, 5}, {"emit", 4, 3, 1}, {"produce", 3, 1, 1}, {"confirm", 2, 1, 1}, {"device", 1, 1, 1}, {"finishFuture", 3, 5, 1},
                             {"finishReply", 3, 3, 1}, {"runThread", 1, 1, 1}, {"peer", 3, 2}, {"client", 2}, {"webSocketPeer", 3, 4}, {"endProcess", 1, 1},
                             {"context", 1}, {"deliver", 2}};
    for (const auto &e : events) {
        s.ops.push_back(e);
    }
    s.maxOps = 14;
    s.minOps = 1;
    s.quickCases = 4000;
    s.thoroughCases = 60000;
    s.run = run;
    return pbt::main(argc, argv, "C29", {s});
}
