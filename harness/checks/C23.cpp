// C23: every WebSocket connection is handed out exactly once by QCoroWebSocketServer::nextPendingConnection().
//
// Clients are bare descriptors which do the handshake by hand. A QWebSocketServer subclass records when connections are
// taken out of the server; every call is judged against that history.
#include "pbt.h"
#include "rawwebsocket.h"
#include "vloop.h"

#include <qcorotask.h>
#include <qcorowebsocketserver.h>

#include <QCoreApplication>
#include <QHostAddress>
#include <QUrl>
#include <QWebSocket>
#include <QWebSocketServer>

#include <deque>
#include <memory>

using namespace pbt;

namespace {

constexpr int Slots = 2;
constexpr int MaxClients = 24;
constexpr int MaxCalls = 60;
constexpr int timeouts[] = {-1, 10, 0, 25, 1};

struct Call {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    bool done = false;
    bool refused = false; // the server was not listening when it started
    bool closed = false;  // the server was closed or destroyed
    bool told = false;    // closed() was signalled, possibly of an earlier time
    bool robbed = false;  // a connection arrived, but somebody else took it
    bool gone = false;    // the server was destroyed
    bool immediate = false;
};

struct World;

class Server : public QWebSocketServer {
public:
    Server(World &w, int slot) : QWebSocketServer(QStringLiteral("test"), NonSecureMode), mWorld(w), mSlot(slot) {}
    QWebSocket *nextPendingConnection() override;

private:
    World &mWorld;
    int mSlot;
};

struct Client {
    rawws::Peer peer;
    int slot = 0;
    bool good = true;     // it is a WebSocket client
    bool complete = true; // has sent its request
    int handedOut = 0;
    bool lost = false; // the server was closed
    QByteArray rest;   // of the request
};

struct World {
    struct Slot {
        std::unique_ptr<Server> server;
        int pending = 0; // connections to be taken
        bool paused = false;
        int doom = 0; // to be destroyed (1) or closed (2) as soon as a connection arrived, before anybody was told
    };
    Slot slots[Slots];
    std::deque<Client> clients;
    std::deque<Call> calls;
    std::vector<std::unique_ptr<QWebSocket>> sockets;
    std::vector<QWebSocket *> taken; // by the call in progress
    bool user = false; // takes connections itself
    bool closing = false;
    bool ending = false;
    int accepted = 0, waited = 0, timedOut = 0, leftover = 0;

    bool listening(int i) const { return slots[i].server && slots[i].server->isListening(); }

    void create(int i) {
        auto &s = slots[i];
        s.server = std::make_unique<Server>(*this, i);
        s.server->setHandshakeTimeout(1'000'000'000); // virtual time passes faster than handshakes
        QObject::connect(s.server.get(), &QWebSocketServer::newConnection, s.server.get(), [this, i] {
            ++slots[i].pending;
            PBT_LOG("server ", i, " has a new connection at ", vloop::now());
            if (const int doom = std::exchange(slots[i].doom, 0)) {
                QMetaObject::invokeMethod(QCoreApplication::instance(), [this, i, doom] {
                    current->tag("server ends while a connection is handed out");
                    doom == 1 ? destroy(i) : close(i);
                }, Qt::QueuedConnection);
            }
        });
        QObject::connect(s.server.get(), &QWebSocketServer::closed, s.server.get(), [this, i] {
            PBT_LOG("server ", i, " signals that it was closed");
            for (auto &c : calls) {
                c.told |= !c.done && c.slot == i;
            }
        });
        s.paused = false;
    }
    void listen(int i) {
        auto &s = slots[i];
        if (!s.server) {
            create(i);
        }
        if (s.server->isListening()) {
            return;
        }
        s.paused = false;
        if (!s.server->listen(QHostAddress::LocalHost)) {
            pbt::abandon("harness: cannot listen");
        }
        PBT_LOG("server ", i, " listens");
    }
    void lose(int i) {
        auto &s = slots[i];
        for (auto &c : clients) {
            if (c.slot == i && c.handedOut == 0) {
                c.lost = true;
            }
        }
        s.pending = 0;
        for (auto &c : calls) {
            if (!c.done && c.slot == i) {
                c.closed = true;
                current->tag("server closed during a call");
            }
        }
    }
    void close(int i) {
        if (listening(i)) {
            PBT_LOG("server ", i, " is closed with ", slots[i].pending, " pending connections");
            lose(i);
            closing = true;
            slots[i].server->close();
            closing = false;
        }
    }
    void destroy(int i) {
        if (!slots[i].server) {
            return;
        }
        PBT_LOG("server ", i, " is destroyed");
        lose(i);
        for (auto &c : calls) {
            c.gone |= !c.done && c.slot == i;
        }
        closing = true;
        slots[i].server.reset();
        closing = false;
    }
    void connect(int i, bool good, bool complete) {
        if (!listening(i) || clients.size() >= MaxClients) {
            return;
        }
        auto &s = slots[i];
        const int number = static_cast<int>(clients.size());
        auto &c = clients.emplace_back();
        c.slot = i;
        c.good = good;
        const int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        const auto a = rawws::loopback(s.server->serverPort());
        if (fd < 0 || ::connect(fd, reinterpret_cast<const sockaddr *>(&a), sizeof a) != 0) {
            pbt::abandon("harness: cannot connect");
        }
        c.peer.adopt(fd);
        const auto request = good ? rawws::Peer::request(s.server->serverPort(), number) : QByteArray("GET / HTTP/1.1\r\nHost: x\r\n\r\n");
        c.complete = complete;
        c.peer.send(complete ? request : request.left(20));
        c.rest = complete ? QByteArray() : request.mid(20);
        PBT_LOG("client ", number, " connects to server ", i, good ? "" : ", but is no WebSocket client", complete ? "" : ", incompletely");
    }
    void complete(int number) {
        auto &c = clients[static_cast<std::size_t>(number)];
        PBT_LOG("client ", number, " completes its request");
        c.complete = true;
        c.peer.send(c.rest);
    }
    //! Delivers everything that is under way
    void drain() {
        for (int n = 0; n < 3000; ++n) {
            vloop::drain();
            bool more = false;
            for (auto &c : clients) {
                if (c.peer.fd < 0) {
                    continue;
                }
                int out = 0, in = 0;
                ::ioctl(c.peer.fd, TIOCOUTQ, &out);
                const int fd = rawws::otherEnd(c.peer.fd);
                if (fd >= 0) {
                    ::ioctl(fd, FIONREAD, &in);
                } else if (listening(c.slot) && !slots[c.slot].paused && !c.lost) {
                    pollfd p{static_cast<int>(slots[c.slot].server->socketDescriptor()), POLLIN, 0};
                    more |= ::poll(&p, 1, 0) > 0;
                }
                more |= fd >= 0 && (out > 0 || in > 0);
            }
            if (!more) {
                return;
            }
            ::usleep(20);
        }
    }

    QCoro::Task<> caller(int i, int count, int timeout, int style) {
        for (int n = 0; n < count && slots[i].server && calls.size() < MaxCalls && !ending; ++n) {
            const auto index = calls.size();
            auto &c = calls.emplace_back();
            c.slot = i;
            c.timeout = timeout;
            c.start = vloop::now();
            c.refused = !listening(i);
            c.immediate = c.refused || slots[i].pending > 0;
            PBT_LOG("call ", index, " on server ", i, ", timeout ", timeout, " at ", c.start);
            taken.clear();
            using std::chrono::milliseconds;
            auto *server = slots[i].server.get();
            auto task = style == 0 ? qCoro(server).nextPendingConnection(milliseconds(timeout))
                : style == 1      ? qCoro(*server).nextPendingConnection(milliseconds(timeout))
                : timeout < 0     ? qCoro(server).nextPendingConnection()
                                  : qCoro(static_cast<QWebSocketServer *>(server)).nextPendingConnection(milliseconds(timeout));
            PBT_CHECK(task.isReady() == c.immediate, "call ", index, c.immediate ? " did not return at once" : " returned at once");
            if (!task.isReady()) {
                ++waited;
            }
            QWebSocket *socket = co_await task;
            finished(index, socket);
        }
    }
    void finished(std::size_t index, QWebSocket *socket) {
        auto &c = calls[index];
        PBT_CHECK(!c.done, "call ", index, " returned twice");
        c.done = true;
        if (ending) {
            return;
        }
        const auto t = vloop::now();
        if (!socket) {
            PBT_LOG("call ", index, " returned nothing at ", t);
            PBT_CHECK(taken.empty(), "call ", index, " lost a connection");
            const bool expired = c.timeout >= 0 && t >= c.start + c.timeout;
            PBT_CHECK(c.refused || c.closed || c.told || c.robbed || expired || c.gone, "call ", index,
                      " returned nothing although it did not time out and the server is listening");
            timedOut += expired && !c.refused && !c.robbed && !c.closed;
            return;
        }
        PBT_CHECK(!c.gone, "call ", index, " returned a connection of a destroyed server");
        if (current->failed()) {
            return;
        }
        PBT_CHECK(taken.size() == 1 && taken[0] == socket, "call ", index, " returned another connection than it took");
        taken.clear();
        PBT_LOG("call ", index, " returned ", socket->requestUrl().path().toStdString(), " at ", t);
        PBT_CHECK(c.timeout < 0 || t <= c.start + c.timeout || c.immediate, "call ", index, " returned a connection after its timeout");
        ++accepted;
        socket->setParent(nullptr);
        sockets.emplace_back(socket);
    }

    void invariants() {
        if (current->failed()) {
            return;
        }
        PBT_CHECK(taken.empty(), "a connection was taken, but not handed out");
        const auto t = vloop::now();
        for (std::size_t k = 0; k < calls.size(); ++k) {
            const auto &c = calls[k];
            if (c.done || c.gone) {
                continue;
            }
            PBT_CHECK(slots[c.slot].pending == 0, "call ", k, " does not return the connection that arrived");
            PBT_CHECK(!c.closed, "call ", k, " does not return although the server was closed");
            PBT_CHECK(c.timeout < 0 || t <= c.start + c.timeout, "call ", k, " did not time out");
        }
    }
};

QWebSocket *Server::nextPendingConnection() {
    auto *socket = QWebSocketServer::nextPendingConnection();
    if (socket && !mWorld.closing) {
        auto &s = mWorld.slots[mSlot];
        --s.pending;
        const int number = socket->requestUrl().path().mid(1).toInt();
        if (s.pending < 0 || number < 0 || number >= static_cast<int>(mWorld.clients.size())) {
            pbt::abandon("harness: unknown connection");
        }
        PBT_CHECK(++mWorld.clients[static_cast<std::size_t>(number)].handedOut == 1, "client ", number, " was handed out twice");
        if (!mWorld.user) {
            mWorld.taken.push_back(socket);
        }
        for (auto &call : mWorld.calls) {
            if (!call.done && call.slot == mSlot && !call.immediate) {
                call.robbed = true; // unless it is this one, which returns it then
            }
        }
    }
    return socket;
}

enum { Listen, Close, Destroy, Connect, CallOp, Take, Pause, Advance, Step, Hangup, Complete, Drain, Doom };

void run(const Case &c, Run &r) {
    vloop::resetTimers();
    auto *world = new World;
    auto &w = *world;
    for (int i = 0; i < Slots; ++i) {
        w.create(i);
        w.listen(i);
    }
    for (const auto &op : c.ops) {
        const int i = op.a % Slots;
        auto &s = w.slots[i];
        switch (op.k) {
        case Listen: w.listen(i); break;
        case Close: w.close(i); break;
        case Destroy: w.destroy(i); break;
        case Connect:
            for (int n = 0; n <= op.b % 3; ++n) {
                w.connect(i, op.b / 3 != 1, op.b / 3 != 2);
            }
            if (op.b % 3 > 0 && w.listening(i)) {
                r.tag("burst");
            }
            break;
        case CallOp:
            if (s.server) {
                w.leftover += s.pending > 0;
                w.caller(i, 1 + op.a / Slots % 4, timeouts[op.b], op.a / (Slots * 4));
            }
            break;
        case Take:
            if (s.server && s.server->hasPendingConnections()) {
                w.user = true;
                w.sockets.emplace_back(s.server->nextPendingConnection())->setParent(nullptr);
                w.user = false;
                r.tag("taken by somebody else");
            }
            break;
        case Pause:
            if (w.listening(i)) {
                s.paused = !s.paused;
                PBT_LOG("server ", i, s.paused ? " pauses" : " resumes");
                s.paused ? s.server->pauseAccepting() : s.server->resumeAccepting();
            }
            break;
        case Advance: w.drain(); vloop::advance(op.b == 5 ? 100'000 : 1 + op.b * 5); break;
        case Step: // until something arrives, without delivering what that causes
            for (int n = 0, before = s.pending; n < 30 && s.pending == before; ++n) {
                vloop::step();
            }
            break;
        case Hangup:
        case Complete:
            for (std::size_t k = 0; k < w.clients.size(); ++k) {
                auto &cl = w.clients[k];
                if (cl.slot != i || cl.peer.fd < 0 || cl.lost) {
                    continue;
                }
                if (op.k == Complete && !cl.complete) {
                    w.complete(static_cast<int>(k));
                    r.tag("request in parts");
                    break;
                }
                if (op.k == Hangup && cl.good && cl.complete) {
                    w.drain();
                    ::shutdown(cl.peer.fd, SHUT_WR);
                    r.tag("client hung up");
                    break;
                }
            }
            break;
        case Doom: s.doom = 1 + op.b; break;
        default: break;
        }
        if (op.c) {
            w.drain();
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    w.drain();
    w.invariants();
    if (r.failed()) {
        return;
    }
    if (w.accepted >= 2) {
        r.tag("several connections");
    }
    if (w.waited > 0) {
        r.tag("waited");
    }
    if (w.timedOut > 0) {
        r.tag("timed out");
    }
    if (w.leftover > 0) {
        r.tag("call with pending connections");
    }
    if (w.accepted > 0 && w.waited > 0) {
        r.nontrivial();
    }
    for (auto &s : w.slots) {
        s.doom = 0;
    }
    // Nothing is left behind: later calls get everything that arrived
    for (int i = 0; i < Slots; ++i) {
        auto &s = w.slots[i];
        if (w.listening(i)) {
            if (s.paused) {
                s.paused = false;
                s.server->resumeAccepting();
                w.drain();
            }
            while (s.pending > 0 && w.calls.size() < MaxCalls && !r.failed()) {
                const auto before = s.pending;
                w.caller(i, 1, 0, before % 3);
                PBT_CHECK(s.pending < before, "a connection that arrived between calls was lost");
            }
            w.drain();
            w.invariants();
        }
    }
    if (r.failed()) {
        return;
    }
    for (std::size_t k = 0; k < w.clients.size(); ++k) {
        const auto &cl = w.clients[k];
        PBT_CHECK(cl.handedOut == 1 || cl.lost || !cl.good || !cl.complete || w.calls.size() >= MaxCalls, "client ", k, " was never handed out");
    }
    vloop::advance(1'000'000);
    w.invariants();
    if (r.failed()) {
        return;
    }
    for (int i = 0; i < Slots; ++i) {
        w.close(i);
    }
    w.drain();
    w.invariants();
    if (r.failed()) {
        return;
    }
    w.ending = true;
    for (int i = 0; i < Slots; ++i) {
        w.destroy(i);
    }
    w.sockets.clear();
    vloop::drain();
    bool leak = false;
    for (const auto &cl : w.calls) {
        leak |= !cl.done;
    }
    if (!leak) {
        delete world;
    } else {
        for (auto &cl : w.clients) {
            cl.peer.reset();
        }
    }
    vloop::drain();
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario s;
    s.name = "connections";
    s.rule = "at least one call had to wait, and at least one call returned a connection";
    s.ops = {
        {"listen", 2, Slots - 1, 0, 1},
        {"close", 1, Slots - 1, 0, 1},
        {"destroy", 1, Slots - 1, 0, 1},
        {"connect", 10, Slots - 1, 11, 1},
        {"call", 10, Slots * 12 - 1, 4, 1},
        {"take", 1, Slots - 1, 0, 1},
        {"pause", 1, Slots - 1, 0, 1},
        {"advance", 4, 0, 5, 1},
        {"arrive", 3, Slots - 1, 0, 1},
        {"hangup", 1, Slots - 1, 0, 1},
        {"complete", 2, Slots - 1, 0, 1},
        {"drain", 2, 0, 0, 1},
        {"doom", 1, Slots - 1, 1, 1},
    };
    s.maxOps = 24;
    s.quickCases = 10000;
    s.thoroughCases = 80000;
    s.run = run;
    return pbt::main(argc, argv, "C23", {s});
}
