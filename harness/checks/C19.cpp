// C19: QLocalSocket operations track the connection and preserve the byte stream.
#include "streamsocket.h"

#include <qcorolocalsocket.h>

#include <QCoreApplication>
#include <QDir>
#include <QFile>
#include <QLocalSocket>
#include <QTemporaryDir>
#include <qcorotask.h>

#include <memory>
#include <optional>
#include <vector>

#include <sys/un.h>

using namespace pbt;
using namespace streamsocket;

namespace {

struct Local {
    static constexpr bool closingRefuses = false; // to be connected again
    static constexpr bool losesDataAfterReopening = true; // when disconnected with unsent data
    static constexpr bool writesWhileConnecting = false; // (a reopened local socket may crash then)
    using Socket = QLocalSocket;
    static inline QString dir;
    static inline int listening[Slots] = {-1, -1};
    static inline int refusing = -1;
    static inline int dummy[Slots] = {-1, -1}; // occupies the queue of the server
    static inline bool expected[Slots] = {};

    static QString path(int i, Target t) {
        switch (t) {
        case Accepting: return dir + QLatin1Char('/') + QString::number(i);
        case Refusing: return dir + QStringLiteral("/refusing");
        default: return dir + QStringLiteral("/missing");
        }
    }
    static sockaddr_un address(const QString &path) {
        sockaddr_un a{};
        a.sun_family = AF_UNIX;
        const auto p = path.toLocal8Bit();
        std::copy_n(p.constData(), std::min<std::size_t>(static_cast<std::size_t>(p.size()), sizeof a.sun_path - 1), a.sun_path);
        return a;
    }
    static int bound(const QString &path) {
        const int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        const auto a = address(path);
        if (fd < 0 || ::bind(fd, reinterpret_cast<const sockaddr *>(&a), sizeof a) != 0) {
            pbt::abandon("harness: cannot bind a socket");
        }
        return fd;
    }
    static void begin() {
        if (refusing < 0) {
            refusing = bound(path(0, Refusing));
            for (int i = 0; i < Slots; ++i) {
                listening[i] = bound(path(i, Accepting));
                ::listen(listening[i], 0); // holds a single connection
            }
        }
        for (int i = 0; i < Slots; ++i) {
            prepare(i, Refusing);
        }
    }

    static State state(const QLocalSocket *s) {
        switch (s->state()) {
        case QLocalSocket::UnconnectedState: return Unconnected;
        case QLocalSocket::ConnectedState: return Connected;
        case QLocalSocket::ClosingState: return Closing;
        default: return Connecting;
        }
    }
    static bool accepts(const QLocalSocket *s, State st) { return s->isWritable() && st != Unconnected; }
    static void prepare(int i, Target target) {
        if (dummy[i] >= 0) {
            ::close(dummy[i]);
            dummy[i] = -1;
        }
        for (int fd; (fd = ::accept4(listening[i], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK)) >= 0;) {
            ::close(fd);
        }
        expected[i] = target == Accepting;
    }
    static bool pendingPeer(int i) {
        pollfd p{listening[i], POLLIN, 0};
        return expected[i] && dummy[i] < 0 && ::poll(&p, 1, 0) > 0;
    }
    static int accept(int i) {
        expected[i] = false;
        return ::accept4(listening[i], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
    }
    //! Makes the server too busy to take another connection.
    static void hold(int i) {
        dummy[i] = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        const auto a = address(path(i, Accepting));
        if (::connect(dummy[i], reinterpret_cast<const sockaddr *>(&a), sizeof a) != 0) {
            pbt::abandon("harness: cannot connect");
        }
    }
    static void release() {
        for (int i = 0; i < Slots; ++i) {
            if (dummy[i] >= 0) {
                ::close(dummy[i]);
                dummy[i] = -1;
                const int fd = ::accept4(listening[i], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
                if (fd >= 0) {
                    ::close(fd);
                }
            }
        }
    }
    static void connect(QLocalSocket *s, int i, Target t, QIODevice::OpenMode mode) { s->connectToServer(path(i, t), mode); }
    static QCoro::Task<bool> connect(QLocalSocket *s, int i, Target t, QIODevice::OpenMode mode, int timeout, int style) {
        using std::chrono::milliseconds;
        if (style == 1) {
            if (timeout == streamsocket::ByDefault) {
                return mode == QIODevice::ReadWrite ? qCoro(s).connectToServer(path(i, t)) : qCoro(s).connectToServer(path(i, t), mode);
            }
            return qCoro(s).connectToServer(path(i, t), mode, milliseconds(timeout));
        }
        if (state(s) == Unconnected) {
            s->setServerName(path(i, t));
        }
        if (timeout == streamsocket::ByDefault) {
            return mode == QIODevice::ReadWrite ? qCoro(*s).connectToServer() : qCoro(*s).connectToServer(mode);
        }
        return qCoro(*s).connectToServer(mode, milliseconds(timeout));
    }
    static int closeKind(const QLocalSocket *, int kind) { return kind; }
    static void disconnect(QLocalSocket *s) { s->disconnectFromServer(); }
};

constexpr const char *names[] = {"p", " p ", "p p", "p\xc3\xbc", "", "none", "/", "P"};
constexpr QIODevice::OpenModeFlag flags[] = {QIODevice::NotOpen, QIODevice::Unbuffered, QIODevice::Text};
constexpr QIODevice::OpenModeFlag directions[] = {QIODevice::ReadWrite, QIODevice::ReadOnly, QIODevice::WriteOnly};

//! A wrapped socket connects like a plain one does.
void parameters(const Case &c, Run &r) {
    static std::vector<int> servers;
    static QString dir;
    if (servers.empty()) {
        dir = Local::dir + QStringLiteral("/parameters/");
        QDir().mkpath(dir);
        for (int i = 0; i < 4; ++i) {
            servers.push_back(Local::bound(dir + QString::fromUtf8(names[i])));
            ::listen(servers.back(), 64);
        }
    }
    vloop::setPolling(true);
    auto plain = std::make_unique<QLocalSocket>(), wrapped = std::make_unique<QLocalSocket>();
    for (const auto &op : c.ops) {
        const auto name = [&](int n) { return names[n][0] ? dir + QString::fromUtf8(names[n]) : QString(); };
        const QIODevice::OpenMode mode = directions[op.b % 3] | flags[op.b / 3 % 3];
        const std::chrono::milliseconds timeout(op.b / 9 * 10 - 10);
        if (op.c & 1) {
            const auto options = op.c & 2 ? QLocalSocket::AbstractNamespaceOption : QLocalSocket::NoOptions;
            plain->setSocketOptions(options);
            wrapped->setSocketOptions(options);
        }
        if (op.c & 4 || op.k >= 2) {
            plain->setServerName(name(op.a / 8));
            wrapped->setServerName(name(op.a / 8));
        }
        std::optional<QCoro::Task<bool>> task;
        switch (op.k) {
        case 0:
            plain->connectToServer(name(op.a % 8), mode);
            task = qCoro(*wrapped).connectToServer(name(op.a % 8), mode, timeout);
            break;
        case 1:
            plain->connectToServer(name(op.a % 8));
            task = qCoro(wrapped.get()).connectToServer(name(op.a % 8));
            break;
        case 2:
            plain->connectToServer(mode);
            task = qCoro(*wrapped).connectToServer(mode, timeout);
            break;
        default:
            plain->connectToServer();
            task = qCoro(wrapped.get()).connectToServer();
        }
        const auto describe = [](const QLocalSocket &s) {
            return QStringLiteral("state %1, mode %2, name %3, full name %4, error %5").arg(s.state()).arg(static_cast<int>(s.openMode())).arg(s.serverName(), s.fullServerName()).arg(s.error()).toStdString();
        };
        PBT_LOG("connected: ", describe(*plain));
        PBT_CHECK(describe(*plain) == describe(*wrapped), "the socket has ", describe(*wrapped), " instead of ", describe(*plain));
        PBT_CHECK(task->isReady(), "connecting has not ended at once");
        if (r.failed()) {
            return;
        }
        const bool connected = plain->state() == QLocalSocket::ConnectedState;
        PBT_CHECK(QCoro::waitFor(*task) == connected, "connecting is reported to have ", connected ? "failed" : "succeeded");
        r.tag(connected ? "connected" : "failed");
        r.nontrivial();
        plain->abort();
        wrapped->abort();
        for (const int server : servers) {
            for (int fd; (fd = ::accept4(server, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK)) >= 0;) {
                ::close(fd);
            }
        }
        vloop::drain();
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    QTemporaryDir dir;
    Local::dir = dir.path();
    Scenario p;
    p.name = "parameters";
    p.rule = "connectToServer() in all its forms with any name, open mode and options, next to a plain socket that does the same";
    p.ops = {{"name", 4, 63, 26, 7}, {"nameOnly", 1, 63, 0, 7}, {"mode", 2, 63, 26, 7}, {"nothing", 1, 63, 0, 7}};
    p.maxOps = 6;
    p.minOps = 1;
    p.quickCases = 1500;
    p.thoroughCases = 15000;
    p.run = parameters;
    return pbt::main(argc, argv, "C19", {streamsocket::scenario(streamsocket::run<Local>), p});
}
