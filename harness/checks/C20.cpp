// C20: every TCP connection is handed out exactly once by waitForNewConnection().
//
// Clients are bare descriptors on the loopback. A QTcpServer subclass records in execution order when the server accepted
// a connection and when it was taken out again; every call is judged against that history.
#include "pbt.h"
#include "vloop.h"

#include <qcorotask.h>
#include <qcorotcpserver.h>

#include <QCoreApplication>
#include <QHostAddress>
#include <QPointer>
#include <QTcpServer>
#include <QTcpSocket>

#include <arpa/inet.h>
#include <deque>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace pbt;

namespace {

constexpr int Slots = 2;
constexpr int MaxClients = 40;
constexpr int MaxCalls = 60;
//! What the function documents as its default; it is called without a timeout then.
constexpr int ByDefault = 30'000;
constexpr int timeouts[] = {-1, 10, 0, 25, 1, ByDefault};
constexpr int limits[] = {30, 1, 2};

struct Call {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    bool done = false;
    bool refused = false; // the server was not listening at some time of the call
    bool robbed = false;  // a connection arrived, but somebody else took it
    bool gone = false;    // the server was destroyed
    bool immediate = false;
    int expected = -1;
};

struct World;

class Server : public QTcpServer {
public:
    Server(World &w, int slot) : mWorld(w), mSlot(slot) {}
    QTcpSocket *nextPendingConnection() override;

protected:
    void incomingConnection(qintptr fd) override;

private:
    World &mWorld;
    int mSlot;
};

struct Client {
    int fd = -1;
    quint16 port = 0;
    int slot = 0;
    int handedOut = 0;
    bool lost = false; // the server was closed
    QTcpSocket *accepted = nullptr; // for identification only
};

struct World {
    struct Slot {
        std::unique_ptr<Server> server;
        std::deque<int> queued;  // connected, not accepted by the server yet
        std::deque<int> pending; // accepted, to be taken
        int limit = 30;
        bool paused = false;
    };
    Slot slots[Slots];
    std::vector<Client> clients;
    std::deque<Call> calls;
    std::vector<std::unique_ptr<QTcpSocket>> sockets;
    std::vector<std::pair<QTcpSocket *, int>> taken; // by the call in progress
    bool user = false; // takes connections itself
    int unfinished = 0;
    bool ending = false;
    int accepted = 0, waited = 0, timedOut = 0, burst = 0, leftover = 0;

    ~World() {
        for (auto &c : clients) {
            drop(c);
        }
    }
    static void drop(Client &c) {
        if (c.fd >= 0) {
            const linger l{1, 0};
            ::setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            ::close(c.fd);
            c.fd = -1;
        }
    }

    int clientOf(quint16 port, int slot) {
        for (int i = static_cast<int>(clients.size()) - 1; i >= 0; --i) {
            if (clients[static_cast<std::size_t>(i)].port == port && clients[static_cast<std::size_t>(i)].slot == slot) {
                return i;
            }
        }
        return -1;
    }

    bool listening(int i) const { return slots[i].server && slots[i].server->isListening(); }

    void create(int i) {
        auto &s = slots[i];
        s.server = std::make_unique<Server>(*this, i);
        s.server->setMaxPendingConnections(s.limit);
    }
    void listen(int i) {
        auto &s = slots[i];
        if (!s.server) {
            create(i);
        }
        if (s.server->isListening()) {
            return;
        }
        s.paused = false;
        if (!s.server->listen(QHostAddress::LocalHost)) {
            pbt::abandon("harness: cannot listen");
        }
        PBT_LOG("server ", i, " listens");
    }
    void lose(int i) {
        auto &s = slots[i];
        for (auto *q : {&s.queued, &s.pending}) {
            for (int c : *q) {
                clients[static_cast<std::size_t>(c)].lost = true;
            }
            q->clear();
        }
        for (auto &c : calls) {
            if (!c.done && c.slot == i) {
                c.refused = true;
            }
        }
    }
    void close(int i) {
        if (listening(i)) {
            PBT_LOG("server ", i, " is closed with ", slots[i].pending.size(), " pending connections");
            lose(i);
            slots[i].server->close();
        }
    }
    void destroy(int i) {
        if (!slots[i].server) {
            return;
        }
        PBT_LOG("server ", i, " is destroyed");
        lose(i);
        for (auto &c : calls) {
            if (!c.done && c.slot == i) {
                c.gone = true;
                current->tag("server destroyed during a call");
            }
        }
        slots[i].server.reset();
    }
    void connect(int i) {
        if (!listening(i) || clients.size() >= MaxClients) {
            return;
        }
        auto &s = slots[i];
        Client c;
        c.slot = i;
        c.fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(s.server->serverPort());
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (c.fd < 0 || ::connect(c.fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0) {
            pbt::abandon("harness: cannot connect");
        }
        socklen_t len = sizeof a;
        ::getsockname(c.fd, reinterpret_cast<sockaddr *>(&a), &len);
        c.port = ntohs(a.sin_port);
        s.queued.push_back(static_cast<int>(clients.size()));
        PBT_LOG("client ", clients.size(), " connects to server ", i);
        clients.push_back(c);
    }
    //! Delivers everything, once the kernel shows what has happened
    void drain() {
        for (auto &s : slots) {
            if (s.server && s.server->isListening() && !s.queued.empty() && !s.paused && static_cast<int>(s.pending.size()) < s.limit) {
                pollfd p{static_cast<int>(s.server->socketDescriptor()), POLLIN, 0};
                ::poll(&p, 1, 3000);
            }
        }
        vloop::drain();
    }

    QCoro::Task<> caller(int i, int count, int timeout, int style) {
        ++unfinished;
        for (int n = 0; n < count && slots[i].server && calls.size() < MaxCalls && !ending; ++n) {
            const auto index = calls.size();
            auto &c = calls.emplace_back();
            c.slot = i;
            c.timeout = timeout;
            c.start = vloop::now();
            c.refused = !listening(i);
            c.expected = slots[i].pending.empty() ? -1 : slots[i].pending.front();
            c.immediate = c.refused || c.expected >= 0;
            PBT_LOG("call ", index, " on server ", i, ", timeout ", timeout, " at ", c.start);
            taken.clear();
            auto task = call(i, timeout, style);
            PBT_CHECK(task.isReady() == c.immediate, "call ", index, c.immediate ? " did not return at once" : " returned at once");
            if (!task.isReady()) {
                ++waited;
            }
            QTcpSocket *socket = co_await task;
            finished(index, socket);
        }
        --unfinished;
    }
    QCoro::Task<QTcpSocket *> call(int i, int timeout, int style) {
        using std::chrono::milliseconds;
        auto *server = slots[i].server.get();
        switch (style) {
        case 0: return qCoro(server).waitForNewConnection(milliseconds(timeout));
        case 1: return qCoro(*server).waitForNewConnection(timeout);
        default:
            return timeout == ByDefault ? qCoro(static_cast<QTcpServer *>(server)).waitForNewConnection()
                                        : qCoro(static_cast<QTcpServer *>(server)).waitForNewConnection(timeout);
        }
    }
    void finished(std::size_t index, QTcpSocket *socket) {
        auto &c = calls[index];
        PBT_CHECK(!c.done, "call ", index, " returned twice");
        c.done = true;
        if (ending) {
            return;
        }
        const auto t = vloop::now();
        if (!socket) {
            PBT_LOG("call ", index, " returned nothing at ", t);
            PBT_CHECK(taken.empty(), "call ", index, " lost a connection");
            const bool expired = c.timeout >= 0 && t >= c.start + c.timeout;
            PBT_CHECK(c.refused || c.robbed || expired || c.gone, "call ", index,
                      " returned nothing although it did not time out and the server is listening");
            timedOut += expired && !c.refused && !c.robbed;
            return;
        }
        PBT_CHECK(!c.gone, "call ", index, " returned a connection of a destroyed server");
        PBT_CHECK(taken.size() == 1 && taken[0].first == socket, "call ", index, " returned another connection than it took");
        int client = -1;
        if (taken.size() == 1) {
            client = taken[0].second;
        }
        taken.clear();
        PBT_LOG("call ", index, " returned client ", client, " at ", t);
        if (current->failed()) {
            return;
        }
        PBT_CHECK(c.expected < 0 || client == c.expected, "call ", index, " returned client ", client, " instead of the first pending one, ", c.expected);
        PBT_CHECK(c.timeout < 0 || t <= c.start + c.timeout || c.immediate, "call ", index, " returned a connection after its timeout");
        ++accepted;
        socket->setParent(nullptr);
        sockets.emplace_back(socket);
    }

    void invariants() {
        if (current->failed()) {
            return;
        }
        PBT_CHECK(taken.empty(), "a connection was taken, but not handed out");
        const auto t = vloop::now();
        for (std::size_t k = 0; k < calls.size(); ++k) {
            const auto &c = calls[k];
            if (c.done || c.gone) {
                continue;
            }
            PBT_CHECK(slots[c.slot].pending.empty(), "call ", k, " does not return the connection that arrived");
            PBT_CHECK(c.timeout < 0 || t <= c.start + c.timeout, "call ", k, " did not time out");
        }
        for (const auto &s : slots) {
            PBT_CHECK(!s.server || static_cast<int>(s.pending.size()) == 0 || s.server->hasPendingConnections(), "a connection was lost");
        }
    }
};

void Server::incomingConnection(qintptr fd) {
    sockaddr_in a{};
    socklen_t len = sizeof a;
    ::getpeername(static_cast<int>(fd), reinterpret_cast<sockaddr *>(&a), &len);
    auto &s = mWorld.slots[mSlot];
    const int c = mWorld.clientOf(ntohs(a.sin_port), mSlot);
    if (c < 0 || s.queued.empty() || s.queued.front() != c) {
        pbt::abandon("harness: unexpected connection");
    }
    s.queued.pop_front();
    s.pending.push_back(c);
    PBT_LOG("server ", mSlot, " accepts client ", c);
    auto *socket = new QTcpSocket(this);
    socket->setSocketDescriptor(fd);
    mWorld.clients[static_cast<std::size_t>(c)].accepted = socket;
    addPendingConnection(socket);
}

QTcpSocket *Server::nextPendingConnection() {
    auto *socket = QTcpServer::nextPendingConnection();
    auto &s = mWorld.slots[mSlot];
    if (socket) {
        if (s.pending.empty() || mWorld.clients[static_cast<std::size_t>(s.pending.front())].accepted != socket) {
            pbt::abandon("harness: the server has other connections");
        }
        const int c = s.pending.front();
        s.pending.pop_front();
        PBT_CHECK(++mWorld.clients[static_cast<std::size_t>(c)].handedOut == 1, "client ", c, " was handed out twice");
        if (!mWorld.user) {
            mWorld.taken.emplace_back(socket, c);
        }
        for (auto &call : mWorld.calls) {
            if (!call.done && call.slot == mSlot && !call.immediate) {
                call.robbed = true; // unless it is this one, which returns it then
            }
        }
    }
    return socket;
}

enum { Listen, Close, Destroy, Connect, CallOp, Take, Pause, Advance, Drain, Hangup, Accept };

void run(const Case &c, Run &r) {
    vloop::resetTimers();
    auto *world = new World;
    auto &w = *world;
    for (int i = 0; i < Slots; ++i) {
        w.slots[i].limit = limits[c.cfg[0]];
        w.create(i);
        w.listen(i);
    }
    bool full = false;
    for (const auto &op : c.ops) {
        const int i = op.a % Slots;
        auto &s = w.slots[i];
        switch (op.k) {
        case Listen: w.listen(i); break;
        case Close: w.close(i); break;
        case Destroy: w.destroy(i); break;
        case Connect:
            for (int n = 0; n <= op.b; ++n) {
                w.connect(i);
            }
            w.burst += op.b > 0 && w.listening(i);
            break;
        case CallOp:
            if (s.server) {
                if (!s.pending.empty()) {
                    ++w.leftover;
                }
                w.caller(i, 1 + op.a / Slots % 4, timeouts[op.b], op.a / (Slots * 4));
            }
            break;
        case Take:
            if (s.server && s.server->hasPendingConnections()) {
                w.user = true;
                w.sockets.emplace_back(s.server->nextPendingConnection())->setParent(nullptr);
                w.user = false;
                r.tag("taken by somebody else");
            }
            break;
        case Pause:
            if (w.listening(i)) {
                s.paused = !s.paused;
                PBT_LOG("server ", i, s.paused ? " pauses" : " resumes");
                s.paused ? s.server->pauseAccepting() : s.server->resumeAccepting();
            }
            break;
        case Advance: w.drain(); vloop::advance(op.b == 5 ? ByDefault - 5 : 1 + op.b * 5); break;
        case Accept:
            // Accepts without delivering what that causes
            if (w.listening(i) && !s.queued.empty() && !s.paused) {
                s.server->waitForNewConnection(0);
            }
            break;
        case Hangup:
            // The client is gone, but its connection still is handed out
            for (int k : s.queued) {
                auto &cl = w.clients[static_cast<std::size_t>(k)];
                if (cl.fd >= 0) {
                    ::shutdown(cl.fd, SHUT_WR);
                    r.tag("client hung up while queued");
                    break;
                }
            }
            break;
        default: break;
        }
        full |= static_cast<int>(s.pending.size()) >= s.limit;
        if (op.c) {
            w.drain();
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    w.drain();
    w.invariants();
    if (r.failed()) {
        return;
    }
    if (w.accepted >= 2) {
        r.tag("several connections");
    }
    if (w.waited > 0) {
        r.tag("waited");
    }
    if (w.timedOut > 0) {
        r.tag("timed out");
    }
    if (w.burst > 0) {
        r.tag("burst");
    }
    if (w.leftover > 0) {
        r.tag("call with pending connections");
    }
    if (full) {
        r.tag("queue of the server is full");
    }
    if (w.accepted > 0 && w.waited > 0) {
        r.nontrivial();
    }
    // Nothing is left behind: later calls get everything that arrived
    for (int i = 0; i < Slots; ++i) {
        auto &s = w.slots[i];
        if (w.listening(i)) {
            if (s.paused) {
                s.paused = false;
                s.server->resumeAccepting();
            }
            for (int n = 0; n < MaxClients && (!s.queued.empty() || !s.pending.empty()) && !r.failed(); ++n) {
                w.drain();
                const auto before = s.pending.size() + s.queued.size();
                if (s.pending.empty() || w.calls.size() >= MaxCalls) {
                    break;
                }
                w.caller(i, 1, 0, n % 3);
                PBT_CHECK(s.pending.size() + s.queued.size() < before, "a connection that arrived between calls was lost");
            }
            w.drain();
            w.invariants();
        }
    }
    if (r.failed()) {
        return;
    }
    for (std::size_t k = 0; k < w.clients.size(); ++k) {
        const auto &cl = w.clients[k];
        PBT_CHECK(cl.handedOut <= 1, "client ", k, " was handed out more than once");
        PBT_CHECK(cl.handedOut == 1 || cl.lost || w.calls.size() >= MaxCalls, "client ", k, " was never handed out");
    }
    vloop::advance(ByDefault + 100);
    w.invariants();
    if (r.failed()) {
        return;
    }
    // Wake up who waits for ever
    w.ending = true;
    for (int i = 0; i < Slots; ++i) {
        for (int n = 0; n < 8 && w.slots[i].server; ++n) {
            QMetaObject::invokeMethod(w.slots[i].server.get(), "newConnection");
            w.drain();
        }
    }
    for (auto &s : w.slots) {
        s.server.reset();
    }
    vloop::settle(1000);
    bool leak = false;
    for (const auto &cl : w.calls) {
        leak |= !cl.done;
    }
    if (!leak) {
        delete world;
    } else {
        for (auto &cl : w.clients) {
            World::drop(cl);
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario s;
    s.name = "connections";
    s.rule = "at least one call had to wait, and at least one call returned a connection";
    s.cfg = {{"limit", 2}};
    s.ops = {
        {"listen", 2, Slots - 1, 0, 1},
        {"close", 1, Slots - 1, 0, 1},
        {"destroy", 1, Slots - 1, 0, 1},
        {"connect", 10, Slots - 1, 3, 1},
        {"call", 10, Slots * 12 - 1, 5, 1},
        {"take", 1, Slots - 1, 0, 1},
        {"pause", 1, Slots - 1, 0, 1},
        {"advance", 4, 0, 5, 1},
        {"drain", 2, 0, 0, 1},
        {"hangup", 1, Slots - 1, 0, 1},
        {"accept", 3, Slots - 1, 0, 1},
    };
    s.maxOps = 24;
    s.quickCases = 25000;
    s.thoroughCases = 200000;
    s.run = run;
    return pbt::main(argc, argv, "C20", {s});
}
