// C18: QAbstractSocket operations track the connection through every outcome.
#include "streamsocket.h"

#include <qcoroabstractsocket.h>

#include <QCoreApplication>
#include <QHostAddress>
#include <QTcpSocket>
#include <qcorotask.h>

#include <optional>

#include <netinet/in.h>
#include <arpa/inet.h>

using namespace pbt;
using namespace streamsocket;

namespace {

struct Tcp {
    static constexpr bool closingRefuses = true; // to be connected again
    static constexpr bool losesDataAfterReopening = false; // when disconnected with unsent data
    static constexpr bool writesWhileConnecting = true; // (a reopened local socket may crash then)
    using Socket = QTcpSocket;
    static inline int listening[Slots] = {-1, -1};
    static inline int closedPort = -1; // is bound, but does not listen
    static inline quint16 port[Slots] = {}, refusingPort = 0;
    static inline bool expected[Slots] = {}; // connections that have not been accepted yet

    static int bound(quint16 &port) {
        const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t len = sizeof a;
        if (fd < 0 || ::bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0 || ::getsockname(fd, reinterpret_cast<sockaddr *>(&a), &len) != 0) {
            pbt::abandon("harness: cannot bind a socket");
        }
        port = ntohs(a.sin_port);
        return fd;
    }
    static void begin() {
        if (closedPort < 0) {
            closedPort = bound(refusingPort);
            for (int i = 0; i < Slots; ++i) {
                listening[i] = bound(port[i]);
                ::listen(listening[i], 64);
            }
        }
        for (int i = 0; i < Slots; ++i) {
            prepare(i, Refusing);
        }
    }

    static State state(const QAbstractSocket *s) {
        switch (s->state()) {
        case QAbstractSocket::UnconnectedState: return Unconnected;
        case QAbstractSocket::ConnectedState: return Connected;
        case QAbstractSocket::ClosingState: return Closing;
        default: return Connecting;
        }
    }
    static bool accepts(const QAbstractSocket *s, State st) { return s->isWritable() && st != Unconnected; }
    static void prepare(int i, Target target) {
        for (int fd; (fd = ::accept4(listening[i], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK)) >= 0;) {
            ::close(fd);
        }
        expected[i] = target == Accepting;
    }
    static bool pendingPeer(int i) { return expected[i]; }
    static int accept(int i) {
        if (!awaitReady(listening[i], POLLIN)) {
            pbt::abandon("harness: no connection arrived");
        }
        expected[i] = false;
        return ::accept4(listening[i], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
    }
    static void hold(int) {}
    static void release() {}
    static quint16 portOf(int i, Target t) { return t == Accepting ? port[i] : refusingPort; }
    static QHostAddress address(Target t) {
        // The broadcast address is refused immediately
        return t == Missing ? QHostAddress(QHostAddress::Broadcast) : QHostAddress(QHostAddress::LocalHost);
    }
    static void connect(QTcpSocket *s, int i, Target t, QIODevice::OpenMode mode) { s->connectToHost(address(t), portOf(i, t), mode); }
    static QCoro::Task<bool> connect(QTcpSocket *s, int i, Target t, QIODevice::OpenMode mode, int timeout, int style) {
        using std::chrono::milliseconds;
        if (style == 1) {
            if (timeout == streamsocket::ByDefault) {
                return mode == QIODevice::ReadWrite ? qCoro(s).connectToHost(address(t), portOf(i, t)) : qCoro(s).connectToHost(address(t), portOf(i, t), mode);
            }
            return qCoro(s).connectToHost(address(t), portOf(i, t), mode, milliseconds(timeout));
        }
        if (timeout == streamsocket::ByDefault) {
            return mode == QIODevice::ReadWrite ? qCoro(*s).connectToHost(address(t).toString(), portOf(i, t))
                                                : qCoro(*s).connectToHost(address(t).toString(), portOf(i, t), mode);
        }
        return qCoro(*s).connectToHost(address(t).toString(), portOf(i, t), mode, QAbstractSocket::IPv4Protocol, milliseconds(timeout));
    }
    static int closeKind(const QTcpSocket *, int kind) { return kind; }
    static void disconnect(QTcpSocket *s) { s->disconnectFromHost(); }
};

//! Takes note of what it is asked for instead of doing it
class RecordingSocket : public QTcpSocket {
public:
    using QTcpSocket::connectToHost;
    void connectToHost(const QString &hostName, quint16 port, OpenMode mode, NetworkLayerProtocol protocol) override {
        calls += QStringLiteral("%1|%2|%3|%4;").arg(hostName).arg(port).arg(static_cast<int>(mode)).arg(static_cast<int>(protocol));
    }
    QString calls;
};

constexpr const char *hosts[] = {"127.0.0.1", "::1", "localhost", "", " spaces ", "h\xc3\xb6st.example", "fe80::1%lo", "EXAMPLE.com."};
constexpr quint16 ports[] = {80, 0, 65535, 1, 32768};
constexpr QIODevice::OpenModeFlag flags[] = {QIODevice::NotOpen, QIODevice::Unbuffered, QIODevice::Text, QIODevice::Append, QIODevice::Truncate};
constexpr QIODevice::OpenModeFlag directions[] = {QIODevice::ReadWrite, QIODevice::ReadOnly, QIODevice::WriteOnly, QIODevice::NotOpen};
constexpr QAbstractSocket::NetworkLayerProtocol protocols[] = {QAbstractSocket::AnyIPProtocol, QAbstractSocket::IPv4Protocol, QAbstractSocket::IPv6Protocol,
                                                               QAbstractSocket::UnknownNetworkLayerProtocol};

//! The socket is asked for exactly what the caller asked for.
void parameters(const Case &c, Run &r) {
    RecordingSocket recorder, wrapped;
    QAbstractSocket &plain = recorder;
    for (const auto &op : c.ops) {
        const auto host = QString::fromUtf8(hosts[op.a % std::size(hosts)]);
        const auto port = ports[op.b % std::size(ports)];
        const auto mode = directions[op.c % 4] | flags[op.c / 4 % 5];
        const auto protocol = protocols[op.a / 8];
        const std::chrono::milliseconds timeout(op.b / 5 * 10 - 10);
        std::optional<QCoro::Task<bool>> task;
        switch (op.k) {
        case 0:
            plain.connectToHost(host, port, mode, protocol);
            task = qCoro(wrapped).connectToHost(host, port, mode, protocol, timeout);
            break;
        case 1:
            plain.connectToHost(host, port, mode);
            task = qCoro(static_cast<QAbstractSocket *>(&wrapped)).connectToHost(host, port, mode);
            break;
        case 2:
            plain.connectToHost(host, port);
            task = qCoro(&wrapped).connectToHost(host, port);
            break;
        case 3:
            plain.connectToHost(QHostAddress(host), port, mode);
            task = qCoro(wrapped).connectToHost(QHostAddress(host), port, mode, timeout);
            break;
        default:
            plain.connectToHost(QHostAddress(host), port);
            task = qCoro(&wrapped).connectToHost(QHostAddress(host), port);
        }
        PBT_CHECK(recorder.calls == wrapped.calls, "the socket was asked to connect to ", wrapped.calls.toStdString(), " instead of ", recorder.calls.toStdString());
        PBT_CHECK(task->isReady(), "the wait for a socket that does not connect has not ended at once");
        if (r.failed()) {
            return;
        }
        PBT_CHECK(!QCoro::waitFor(*task), "the socket that did not connect is reported to be connected");
        r.tag(op.k < 3 ? "name" : "address");
    }
    r.nontrivial();
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario p;
    p.name = "parameters";
    p.rule = "connectToHost() in all its forms with any host, port, open mode and protocol on a socket that takes note of the request";
    p.ops = {{"nameProtocol", 4, 31, 14, 19}, {"nameMode", 1, 7, 4, 19}, {"name", 1, 7, 4}, {"addressMode", 2, 7, 14, 19}, {"address", 1, 7, 4}};
    p.maxOps = 6;
    p.minOps = 1;
    p.quickCases = 2000;
    p.thoroughCases = 20000;
    p.run = parameters;
    return pbt::main(argc, argv, "C18", {streamsocket::scenario(streamsocket::run<Tcp>), p});
}
