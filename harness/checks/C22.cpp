// C22: WebSocket generators yield all messages/frames in order; open() and ping() are truthful.
//
// A real QWebSocket talks to a peer on the loopback that is operated by the test, down to single frames. What the socket
// signals is recorded in execution order, before the wrappers hear of it.
#include "pbt.h"
#include "rawwebsocket.h"
#include "vloop.h"

#include <qcorotask.h>
#include <qcorowebsocket.h>

#include <QCoreApplication>
#include <QNetworkRequest>
#include <QPointer>
#include <QUrl>
#include <QWebSocket>

#include <deque>
#include <memory>
#include <optional>
#include <variant>

using namespace pbt;
using std::chrono::milliseconds;

namespace {

constexpr int Slots = 2;
constexpr int MaxTasks = 30;
constexpr int timeouts[] = {-1, 10, 0, 25};
constexpr const char *resources[] = {"/x", "", "/", "/dir/?a=b&c=d%20e", "/path%20to/file?q=%2F%26&x"};
constexpr quint64 elapsedTimes[] = {123'456, 1'000, 5'000'000'000, 86'400'001};
constexpr int sizes[] = {3, 0, 1, 200, 5000, 70000};

enum Kind { TextMessages, BinaryMessages, TextFrames, BinaryFrames, Kinds };
constexpr const char *kindNames[] = {"textMessages", "binaryMessages", "textFrames", "binaryFrames"};
enum Target { Accepting, Refusing, Invalid, Targets };

using Item = std::variant<QString, QByteArray, std::tuple<QString, bool>, std::tuple<QByteArray, bool>>;

struct Expected {
    Item item;
    qint64 time;
};

struct Gate {
    std::coroutine_handle<> handle;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) noexcept { handle = h; }
    void await_resume() const noexcept {}
    void open() { std::exchange(handle, nullptr).resume(); }
};
struct GateRef {
    Gate &gate;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) noexcept { gate.handle = h; }
    void await_resume() const noexcept {}
};

struct Consumer {
    int slot = 0;
    Kind kind = TextMessages;
    int timeout = -1;
    bool busy = false;       // pauses after each element
    bool stop = false;       // destroys the generator when it gets the chance
    bool active = false;     // the generator exists
    bool waiting = false;
    qint64 waitStart = 0;
    bool terminated = false; // the socket has left the connected state
    qint64 terminatedAt = 0;
    std::deque<Expected> expected;
    int got = 0, gotBusy = 0;
    bool done = false;
    Gate gate;
};

struct Open {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    bool immediate = false;
    std::optional<bool> event;
    qint64 eventTime = 0;
    bool done = false;
};

struct PingOp {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    QByteArray payload;
    bool immediate = false;
    bool answered = false; // by a pong with its payload
    bool foreign = false;  // by another one
    bool over = false;     // disconnected
    std::vector<quint64> times;
    qint64 eventTime = 0;
    bool done = false;
};

struct World {
    struct Slot {
        std::unique_ptr<QWebSocket> ws;
        rawws::Peer peer;
        int clientFd = -1;
        QByteArray request;  // to be answered
        // what was asked for: the resource and the header (the peer may still accept the connection of an aborted attempt)
        std::vector<std::pair<QByteArray, QByteArray>> asked;
        QByteArray response; // rest of the answer
        bool established = false; // from the peer's point of view
        bool finished = false;    // by the peer
        int inMessage = 0;   // opcode of the unfinished message
        QByteArray text;     // what has been sent of it
        std::deque<QByteArray> pings, expectedPings;
        std::deque<Item> sentMessages; // which the socket has not signalled yet
        bool everUsed = false;
    };
    static inline int listening[Slots] = {-1, -1}, refusing = -1;
    static inline quint16 port[Slots], refusingPort = 0;

    Slot slots[Slots];
    std::deque<Consumer> consumers;
    std::deque<Open> opens;
    std::deque<PingOp> pings;
    bool ending = false;
    int yielded = 0, yieldedLate = 0, timedOut = 0;
    unsigned counter = 0;

    static void setUp() {
        if (refusing < 0) {
            refusing = rawws::server(refusingPort, false);
            for (int i = 0; i < Slots; ++i) {
                listening[i] = rawws::server(port[i], true);
            }
        }
    }

    bool connected(int i) const { return slots[i].ws->state() == QAbstractSocket::ConnectedState; }

    void create(int i) {
        auto &s = slots[i];
        for (int fd; (fd = ::accept(listening[i], nullptr, nullptr)) >= 0;) {
            ::close(fd);
        }
        s.ws = std::make_unique<QWebSocket>();
        auto *ws = s.ws.get();
        const auto received = [this, i](Kind kind, Item item) {
            if (slots[i].ws->state() != QAbstractSocket::ConnectedState) {
                return;
            }
            if (kind == TextMessages || kind == BinaryMessages) {
                auto &sent = slots[i].sentMessages;
                if (sent.empty() || sent.front() != item) {
                    pbt::abandon("harness: the socket signals another message than was sent");
                }
                sent.pop_front();
            }
            for (auto &c : consumers) {
                if (c.active && c.slot == i && c.kind == kind && !c.terminated) {
                    c.expected.push_back({item, vloop::now()});
                    yieldedLate += !c.waiting;
                }
            }
        };
        QObject::connect(ws, &QWebSocket::textMessageReceived, ws, [received](const QString &m) { received(TextMessages, m); });
        QObject::connect(ws, &QWebSocket::binaryMessageReceived, ws, [received](const QByteArray &m) { received(BinaryMessages, m); });
        QObject::connect(ws, &QWebSocket::textFrameReceived, ws, [received](const QString &m, bool last) { received(TextFrames, std::tuple(m, last)); });
        QObject::connect(ws, &QWebSocket::binaryFrameReceived, ws, [received](const QByteArray &m, bool last) { received(BinaryFrames, std::tuple(m, last)); });
        QObject::connect(ws, &QWebSocket::stateChanged, ws, [this, i](QAbstractSocket::SocketState state) {
            PBT_LOG("socket ", i, " is in state ", state, " at ", vloop::now());
            if (state != QAbstractSocket::ConnectedState) {
                for (auto &c : consumers) {
                    if (c.active && c.slot == i && !c.terminated) {
                        c.terminated = true;
                        c.terminatedAt = vloop::now();
                    }
                }
                for (auto &p : pings) {
                    if (!p.done && p.slot == i && !p.over) {
                        p.over = true;
                        p.eventTime = vloop::now();
                    }
                }
            }
            if (state == QAbstractSocket::ConnectedState || state == QAbstractSocket::UnconnectedState) {
                openEvent(i, state == QAbstractSocket::ConnectedState);
            }
        });
        const auto failed = [this, i](QAbstractSocket::SocketError e) {
            PBT_LOG("socket ", i, " fails: ", e, " at ", vloop::now());
            openEvent(i, false);
        };
        QObject::connect(ws, qOverload<QAbstractSocket::SocketError>(&QWebSocket::error), ws, failed);
        QObject::connect(ws, &QWebSocket::pong, ws, [this, i](quint64 elapsed, const QByteArray &payload) {
            for (auto &p : pings) {
                if (!p.done && p.slot == i) {
                    (payload == p.payload ? p.answered : p.foreign) = true;
                    p.times.push_back(elapsed);
                    p.eventTime = vloop::now();
                }
            }
        });
    }
    void openEvent(int i, bool result) {
        for (auto &o : opens) {
            if (!o.done && o.slot == i && !o.event) {
                o.event = result;
                o.eventTime = vloop::now();
            }
        }
    }

    //! The client's descriptor of the connection
    int clientFd(int i) {
        auto &s = slots[i];
        if (s.peer.fd < 0) {
            return -1;
        }
        const auto own = rawws::localPort(s.peer.fd), other = rawws::peerPort(s.peer.fd);
        if (s.clientFd >= 0 && rawws::localPort(s.clientFd) == other && rawws::peerPort(s.clientFd) == own && own) {
            return s.clientFd;
        }
        s.clientFd = rawws::otherEnd(s.peer.fd);
        return s.clientFd;
    }
    //! Delivers everything that is under way
    void drain() {
        for (int n = 0; n < 3000; ++n) {
            vloop::drain();
            bool more = false;
            for (int i = 0; i < Slots; ++i) {
                auto &s = slots[i];
                if (s.peer.fd < 0) {
                    continue;
                }
                const int fd = clientFd(i);
                int out = 0, in = 0;
                ::ioctl(s.peer.fd, TIOCOUTQ, &out);
                if (fd >= 0) {
                    ::ioctl(fd, FIONREAD, &in);
                }
                more |= fd >= 0 && (out > 0 || in > 0);
            }
            if (!more) {
                break;
            }
            ::usleep(20);
        }
        for (int i = 0; i < Slots; ++i) {
            receive(i);
        }
    }
    //! The peer looks at what it has got.
    void receive(int i) {
        auto &s = slots[i];
        if (s.peer.fd < 0) {
            return;
        }
        s.peer.receive();
        if (!s.established && s.request.isEmpty()) {
            s.request = s.peer.header();
            if (!s.request.isEmpty()) {
                s.response = rawws::Peer::response(s.request);
                const auto line = s.request.left(s.request.indexOf("\r\n"));
                const auto header = rawws::Peer::field(s.request, "X-Check");
                const bool known = std::any_of(s.asked.begin(), s.asked.end(), [&](const auto &a) {
                    return line == "GET " + a.first + " HTTP/1.1" && header == a.second;
                });
                PBT_CHECK(known, "socket ", i, " requests ", line.constData(), " with header '", header.constData(), "', which was not asked for");
            }
        }
        rawws::Frame f;
        while (s.established && s.peer.decode(f)) {
            if (f.opcode == rawws::Ping) {
                PBT_CHECK(!s.expectedPings.empty() && f.payload == s.expectedPings.front(), "the peer of socket ", i, " got another ping than was sent: ", f.payload.constData());
                if (!s.expectedPings.empty()) {
                    s.expectedPings.pop_front();
                }
                s.pings.push_back(f.payload);
            }
        }
    }
    void visible(int i) {
        const int fd = clientFd(i);
        if (fd >= 0) {
            rawws::awaitReady(fd, POLLIN);
        }
    }

    QCoro::Task<> open(int i, int timeout, Target target, bool request) {
        auto &s = slots[i];
        const auto index = opens.size();
        auto &o = opens.emplace_back();
        o.slot = i;
        o.timeout = timeout;
        o.start = vloop::now();
        o.immediate = connected(i);
        const QByteArray resource = resources[index % std::size(resources)];
        QUrl url(QStringLiteral("ws://127.0.0.1:%1").arg(target == Refusing ? refusingPort : port[i]) + QString::fromLatin1(resource));
        if (target == Invalid) {
            url = QUrl(request ? QStringLiteral("") : QStringLiteral("http://127.0.0.1:%1/x").arg(port[i]));
        }
        PBT_LOG("open ", index, " of socket ", i, ", target ", target, ", timeout ", timeout, " at ", o.start);
        if (!o.immediate) {
            s.peer.reset();
            s.request.clear();
            s.response.clear();
            s.established = s.finished = false;
            s.inMessage = 0;
            s.pings.clear();
            s.expectedPings.clear();
            s.sentMessages.clear();
            s.clientFd = -1;
        }
        // an unlimited wait is the default
        const bool byDefault = timeout < 0 && index % 2;
        QNetworkRequest networkRequest(url);
        const QByteArray header = index % 3 ? "value " + QByteArray::number(static_cast<int>(index)) : QByteArray();
        if (!header.isEmpty()) {
            networkRequest.setRawHeader("X-Check", header);
        }
        if (!o.immediate) {
            s.asked.emplace_back(resource.startsWith('/') ? resource : '/' + resource, request ? header : QByteArray());
        }
        auto task = request ? (byDefault ? qCoro(*s.ws).open(networkRequest) : qCoro(*s.ws).open(networkRequest, milliseconds(timeout)))
                            : (byDefault ? qCoro(s.ws.get()).open(url) : qCoro(s.ws.get()).open(url, milliseconds(timeout)));
        if (o.immediate) {
            PBT_CHECK(task.isReady(), "open ", index, " of a connected socket did not return at once");
        } else if (target == Accepting) {
            s.everUsed = true;
            if (!rawws::awaitReady(listening[i], POLLIN)) {
                pbt::abandon("harness: no connection arrived");
            }
            s.peer.adopt(::accept4(listening[i], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK));
        }
        const bool result = co_await task;
        PBT_CHECK(!opens[index].done, "open ", index, " returned twice");
        opened(index, result);
    }
    void opened(std::size_t index, bool result) {
        auto &o = opens[index];
        o.done = true;
        const auto t = vloop::now();
        PBT_LOG("open ", index, " returned ", result, " at ", t);
        if (ending) {
            return;
        }
        if (o.immediate) {
            PBT_CHECK(result, "open ", index, " of a connected socket returned false");
            return;
        }
        const bool expired = o.timeout >= 0 && t >= o.start + o.timeout;
        if (!o.event) {
            PBT_CHECK(!result, "open ", index, " returned true before the connection was established");
            PBT_CHECK(expired, "open ", index, " returned false although it has neither failed nor timed out");
            ++timedOut;
            return;
        }
        PBT_CHECK(result == *o.event || (!result && expired && o.eventTime >= o.start + o.timeout), "open ", index,
                  result ? " returned true although it failed" : " returned false although the connection was established");
        current->tag(result ? "opened" : "failed to open");
    }

    QCoro::Task<> ping(int i, int timeout, int extra) {
        auto &s = slots[i];
        const auto index = pings.size();
        auto &p = pings.emplace_back();
        p.slot = i;
        p.timeout = timeout;
        p.start = vloop::now();
        p.immediate = !connected(i);
        p.payload = ("ping" + QByteArray::number(static_cast<int>(index))).leftJustified(extra, '.'); // at most 125 are allowed
        if (!p.immediate) {
            s.expectedPings.push_back(p.payload);
        }
        PBT_LOG("ping ", index, " on socket ", i, ", timeout ", timeout, " at ", p.start);
        auto task = timeout < 0 && index % 2 ? qCoro(s.ws.get()).ping(p.payload) : qCoro(s.ws.get()).ping(p.payload, milliseconds(timeout));
        PBT_CHECK(task.isReady() == p.immediate, "ping ", index, p.immediate ? " did not return at once" : " returned at once");
        const auto result = co_await task;
        PBT_CHECK(!pings[index].done, "ping ", index, " returned twice");
        pinged(index, result);
    }
    void pinged(std::size_t index, std::optional<milliseconds> result) {
        auto &p = pings[index];
        p.done = true;
        const auto t = vloop::now();
        PBT_LOG("ping ", index, result ? " was answered" : " was not answered", " at ", t);
        if (ending) {
            return;
        }
        if (p.immediate) {
            PBT_CHECK(!result, "ping ", index, " of a socket that is not connected was answered");
            return;
        }
        const bool expired = p.timeout >= 0 && t >= p.start + p.timeout;
        if (result) {
            PBT_CHECK(p.answered || p.foreign, "ping ", index, " returned a time although nothing answered");
            PBT_CHECK(std::find(p.times.begin(), p.times.end(), static_cast<quint64>(result->count())) != p.times.end(), "ping ", index, " returned another time than the socket");
            current->tag("ping answered");
        } else {
            PBT_CHECK(expired || p.over || (p.foreign && !p.answered), "ping ", index, " returned nothing although it was not timed out or disconnected");
            PBT_CHECK(!p.answered || p.over || p.eventTime >= p.start + p.timeout, "ping ", index, " returned nothing although it was answered");
            current->tag(p.over ? "ping disconnected" : "ping timed out");
        }
    }

    template<typename G>
    QCoro::Task<> consume(std::size_t index, G generator) {
        auto &c = consumers[index];
        if (c.stop) { // created, but to be started later
            co_await GateRef{c.gate};
        }
        if (c.stop) {
            PBT_LOG("generator ", index, " is destroyed without having been started");
        } else {
            c.waiting = true;
            c.waitStart = vloop::now();
            auto it = co_await generator.begin();
            c.waiting = false;
            while (it != generator.end() && !current->failed()) {
                yield(index, Item(*it));
                if (c.busy) {
                    co_await GateRef{c.gate};
                }
                if (c.stop) {
                    PBT_LOG("generator ", index, " is destroyed");
                    break;
                }
                c.waiting = true;
                c.waitStart = vloop::now();
                co_await ++it;
                c.waiting = false;
            }
            if (!c.stop) {
                ended(index);
            }
        }
        c.active = false;
        c.done = true;
    }
    void yield(std::size_t index, const Item &item) {
        auto &c = consumers[index];
        PBT_LOG("generator ", index, " yields an element at ", vloop::now());
        if (ending) {
            return;
        }
        PBT_CHECK(!c.expected.empty(), "generator ", index, " yields something that was not received");
        if (c.expected.empty()) {
            return;
        }
        PBT_CHECK(c.expected.front().item == item, "generator ", index, " yields something else than was received");
        c.expected.pop_front();
        ++c.got;
        ++yielded;
    }
    void ended(std::size_t index) {
        auto &c = consumers[index];
        const auto t = vloop::now();
        PBT_LOG("generator ", index, " ends at ", t);
        if (ending) {
            return;
        }
        const bool expired = c.timeout >= 0 && t >= c.waitStart + c.timeout;
        const auto late = [&](qint64 time) { return expired && time >= c.waitStart + c.timeout; };
        PBT_CHECK(c.terminated || expired, "generator ", index, " ended although the socket is connected and it did not time out");
        PBT_CHECK(c.expected.empty() || late(c.expected.front().time), "generator ", index, " ended without yielding everything that was received");
        current->tag(c.terminated ? "generator ended by a disconnect" : "generator timed out");
    }
    void generate(int i, Kind kind, int timeout, bool busy, bool lazy) {
        const auto index = consumers.size();
        auto &c = consumers.emplace_back();
        c.slot = i;
        c.kind = kind;
        c.timeout = timeout;
        c.busy = busy;
        c.stop = lazy;
        c.active = true;
        PBT_LOG(kindNames[kind], " ", index, " of socket ", i, ", timeout ", timeout, busy ? ", busy" : "", lazy ? ", started later" : "", " at ", vloop::now());
        const auto ms = milliseconds(timeout);
        auto wrapper = qCoro(slots[i].ws.get());
        switch (kind) {
        case TextMessages: consume(index, timeout < 0 && index % 2 ? wrapper.textMessages() : wrapper.textMessages(ms)); break;
        case BinaryMessages: consume(index, timeout < 0 && index % 2 ? wrapper.binaryMessages() : wrapper.binaryMessages(ms)); break;
        case TextFrames: consume(index, timeout < 0 && index % 2 ? wrapper.textFrames() : wrapper.textFrames(ms)); break;
        default: consume(index, timeout < 0 && index % 2 ? wrapper.binaryFrames() : wrapper.binaryFrames(ms)); break;
        }
    }

    QByteArray content(int n, bool text) {
        QByteArray data;
        data.reserve(n + 4);
        const unsigned seed = ++counter;
        for (int k = 0; data.size() < n; ++k) {
            if (text && (static_cast<unsigned>(k) + seed) % 5 == 0) {
                data.append("\xc3\xa9\xe2\x82\xac");
            } else {
                data.append(text ? static_cast<char>('a' + (static_cast<unsigned>(k) * 7 + seed) % 26) : static_cast<char>((static_cast<unsigned>(k) * 31 + seed) % 256));
            }
        }
        if (!text) {
            data.resize(n);
        }
        return data;
    }
    void send(int i, const QByteArray &data) {
        auto &s = slots[i];
        qsizetype pos = 0;
        while (pos < data.size() && s.peer.fd >= 0 && clientFd(i) >= 0) {
            const auto n = ::send(s.peer.fd, data.constData() + pos, static_cast<std::size_t>(data.size() - pos), MSG_NOSIGNAL | MSG_DONTWAIT);
            if (n > 0) {
                pos += n;
            } else {
                vloop::drain();
            }
        }
        visible(i);
    }
    bool sendable(int i) { return slots[i].established && !slots[i].finished && slots[i].peer.fd >= 0 && connected(i); }
    void frame(int i, bool text, int n, bool fin) {
        auto &s = slots[i];
        if (!sendable(i)) {
            return;
        }
        rawws::Frame f;
        if (s.inMessage) {
            text = s.inMessage == rawws::Text;
            f.opcode = rawws::Continuation;
        } else {
            f.opcode = text ? rawws::Text : rawws::Binary;
            s.text.clear();
        }
        f.fin = fin;
        f.payload = content(n, text);
        s.text += f.payload;
        s.inMessage = fin ? 0 : text ? rawws::Text : rawws::Binary;
        PBT_LOG("the peer of socket ", i, " sends a frame, opcode ", f.opcode, ", ", n, " bytes, fin ", fin);
        if (fin) {
            s.sentMessages.push_back(text ? Item(QString::fromUtf8(s.text)) : Item(s.text));
            current->tag(f.opcode == rawws::Continuation ? "fragmented message" : "message");
        }
        send(i, rawws::Peer::encode(f, false));
    }

    void invariants() {
        if (current->failed()) {
            return;
        }
        const auto t = vloop::now();
        for (std::size_t k = 0; k < opens.size(); ++k) {
            const auto &o = opens[k];
            PBT_CHECK(o.done || !o.event, "open ", k, " hangs although the socket ", *o.event ? "is connected" : "failed to connect");
            PBT_CHECK(o.done || o.timeout < 0 || t <= o.start + o.timeout, "open ", k, " did not time out");
        }
        for (std::size_t k = 0; k < pings.size(); ++k) {
            const auto &p = pings[k];
            PBT_CHECK(p.done || (!p.answered && !p.over), "ping ", k, " hangs although it ", p.answered ? "was answered" : "cannot be answered any more");
            PBT_CHECK(p.done || p.timeout < 0 || t <= p.start + p.timeout, "ping ", k, " did not time out");
        }
        for (std::size_t k = 0; k < consumers.size(); ++k) {
            const auto &c = consumers[k];
            if (!c.active || !c.waiting) {
                continue;
            }
            PBT_CHECK(c.expected.empty(), "generator ", k, " does not yield what was received");
            PBT_CHECK(!c.terminated, "generator ", k, " does not end although the socket was disconnected");
            PBT_CHECK(c.timeout < 0 || t <= c.waitStart + c.timeout, "generator ", k, " did not time out");
        }
    }
};

enum { OpenOp, Respond, FrameOp, Generate, Continue, Drop, PingOpK, PongOp, PeerClose, LocalClose, Advance, Drain, PeerPing };

void run(const Case &c, Run &r, int alwaysConnected) {
    vloop::resetTimers();
    World::setUp();
    auto *world = new World;
    auto &w = *world;
    for (int i = 0; i < Slots; ++i) {
        w.create(i);
        if (c.cfg[0] + alwaysConnected > i) {
            w.open(i, -1, Accepting, false);
            w.drain();
            auto &s = w.slots[i];
            if (s.request.isEmpty()) {
                pbt::abandon("harness: no request arrived");
            }
            s.established = s.peer.send(std::exchange(s.response, {}));
            w.visible(i);
            w.drain();
            if (!w.connected(i)) {
                pbt::abandon("harness: the socket does not connect");
            }
        }
    }
    for (int n = 0; alwaysConnected && n < c.cfg[1]; ++n) {
        w.generate(0, static_cast<Kind>((n + c.cfg[2]) % Kinds), -1, (c.cfg[2] >> n) & 1, false);
    }
    for (const auto &op : c.ops) {
        const int i = op.a % Slots;
        auto &s = w.slots[i];
        switch (op.k) {
        case OpenOp: {
            const auto state = s.ws->state();
            bool pending = false;
            for (const auto &o : w.opens) {
                pending |= !o.done && o.slot == i;
            }
            if (!pending && w.opens.size() < MaxTasks && (state == QAbstractSocket::UnconnectedState || state == QAbstractSocket::ConnectedState)) {
                constexpr Target targets[] = {Accepting, Accepting, Accepting, Refusing, Invalid};
                w.open(i, timeouts[op.b % 4], targets[op.b / 4], op.a / Slots);
            }
            break;
        }
        case Respond:
            w.drain();
            if (!s.established && !s.request.isEmpty() && !s.finished && s.peer.fd >= 0) {
                PBT_LOG("the peer of socket ", i, " responds, kind ", op.b);
                switch (op.b) {
                case 0:
                case 1:
                case 2: s.established = true; w.send(i, std::exchange(s.response, {})); break;
                case 3: { // only a part
                    const auto n = std::max<qsizetype>(s.response.size() / 2, 1);
                    const auto part = s.response.left(n);
                    s.response.remove(0, n);
                    s.established = s.response.isEmpty();
                    w.send(i, part);
                    r.tag("response in parts");
                    break;
                }
                case 4: s.finished = true; w.send(i, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"); break;
                default: {
                    auto bad = s.response;
                    s.finished = true;
                    w.send(i, bad.replace("Accept: ", "Accept: x"));
                }
                }
            }
            break;
        case FrameOp: w.frame(i, op.a / Slots % 2, sizes[op.b % 6], op.b < 12); break;
        case Generate:
            if (w.connected(i) && w.consumers.size() < MaxTasks) {
                w.generate(i, static_cast<Kind>(op.a / Slots % Kinds), timeouts[op.b % 4], op.b / 4 % 2, op.b / 8 % 2);
            }
            break;
        case Continue:
        case Drop: {
            std::vector<Consumer *> paused;
            for (auto &x : w.consumers) {
                if (x.gate.handle) {
                    paused.push_back(&x);
                }
            }
            if (!paused.empty()) {
                auto &x = *paused[static_cast<std::size_t>(op.a) % paused.size()];
                x.stop = op.k == Drop;
                x.gate.open();
                r.tag(op.k == Drop ? "generator destroyed" : "busy consumer");
            }
            break;
        }
        case PingOpK:
            if (w.pings.size() < MaxTasks) {
                constexpr int lengths[] = {0, 125, 126 - 2, 64};
                w.ping(i, timeouts[op.b % 4], lengths[op.a / Slots]);
            }
            break;
        case PongOp:
            w.drain();
            if (w.sendable(i)) {
                QByteArray payload = "unsolicited";
                if (op.b == 4) { // an answer that took its time
                    payload = s.pings.empty() ? payload : s.pings.front();
                    PBT_LOG("a pong comes after ", elapsedTimes[op.a / Slots], " ms");
                    Q_EMIT s.ws->pong(elapsedTimes[op.a / Slots], payload);
                    r.tag("slow pong");
                    break;
                }
                if (op.b < 3 && !s.pings.empty()) {
                    payload = op.b == 2 ? s.pings.back() : s.pings.front();
                    op.b == 2 ? s.pings.pop_back() : s.pings.pop_front();
                } else if (op.b < 3) {
                    break;
                }
                PBT_LOG("the peer of socket ", i, " sends a pong for ", payload.constData());
                w.send(i, rawws::Peer::encode({true, rawws::Pong, payload}, false));
            }
            break;
        case PeerPing:
            if (w.sendable(i)) {
                w.send(i, rawws::Peer::encode({true, rawws::Ping, "x"}, false));
            }
            break;
        case PeerClose:
            if (s.peer.fd >= 0 && !s.finished) {
                s.finished = true;
                PBT_LOG("the peer of socket ", i, " closes, kind ", op.b);
                r.tag("peer closes");
                const int fd = w.clientFd(i);
                if (op.b == 0 && s.established) {
                    w.send(i, rawws::Peer::encode({true, rawws::CloseFrame, QByteArray("\x03\xe8", 2)}, false));
                } else if (op.b <= 1) {
                    ::shutdown(s.peer.fd, SHUT_WR);
                } else {
                    s.peer.reset();
                }
                if (fd >= 0) {
                    rawws::awaitReady(fd, POLLIN | POLLRDHUP);
                }
            }
            break;
        case LocalClose:
            if (s.ws->state() != QAbstractSocket::UnconnectedState) {
                PBT_LOG("socket ", i, op.b ? " is aborted" : " is closed");
                r.tag(w.connected(i) ? "closed" : "closed while connecting");
                op.b ? s.ws->abort() : s.ws->close();
            }
            break;
        case Advance: w.drain(); vloop::advance(op.b == 5 ? 100'000 : 1 + op.b * 5); break;
        default: break;
        }
        if (op.c) {
            w.drain();
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    w.drain();
    w.invariants();
    if (w.yielded > 0) {
        r.tag("yielded");
    }
    if (w.yieldedLate > 0) {
        r.tag("received while nobody waits");
    }
    if (w.timedOut > 0) {
        r.tag("open timed out");
    }
    if (w.yielded >= 2 || w.opens.size() >= 2 || w.pings.size() >= 2) {
        r.nontrivial();
    }
    // Disconnect; then every consumer gets the rest and the end
    for (auto &s : w.slots) {
        s.ws->abort();
    }
    w.drain();
    w.invariants();
    for (int n = 0; n < 10000 && !r.failed(); ++n) {
        bool any = false;
        for (auto &x : w.consumers) {
            if (x.gate.handle) {
                any = true;
                x.stop = false;
                x.gate.open();
                w.drain();
            }
        }
        if (!any) {
            break;
        }
        w.invariants();
    }
    vloop::advance(1'000'000);
    w.drain();
    w.invariants();
    if (r.failed()) {
        return;
    }
    for (std::size_t k = 0; k < w.consumers.size(); ++k) {
        PBT_CHECK(w.consumers[k].done, "generator ", k, " did not end");
    }
    for (std::size_t k = 0; k < w.opens.size(); ++k) {
        PBT_CHECK(w.opens[k].done, "open ", k, " hangs although the socket was aborted");
    }
    for (std::size_t k = 0; k < w.pings.size(); ++k) {
        PBT_CHECK(w.pings[k].done, "ping ", k, " hangs although the socket was aborted");
    }
    if (r.failed()) {
        return;
    }
    delete world;
    vloop::drain();
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario s;
    s.name = "sockets";
    s.rule = "at least two elements were yielded, two open() calls or two ping() calls were made";
    s.cfg = {{"connected", Slots}};
    s.ops = {
        {"open", 4, Slots * 2 - 1, 19, 1},
        {"respond", 4, Slots - 1, 5, 1},
        {"frame", 12, Slots * 2 - 1, 17, 1},
        {"generate", 6, Slots * Kinds - 1, 15, 1},
        {"continue", 6, 7, 0, 1},
        {"drop", 1, 7, 0, 1},
        {"ping", 4, Slots * 4 - 1, 3, 1},
        {"pong", 4, Slots * 4 - 1, 4, 1},
        {"peerClose", 1, Slots - 1, 2, 1},
        {"close", 1, Slots - 1, 1, 1},
        {"advance", 4, 0, 5, 1},
        {"drain", 2, 0, 0, 1},
        {"peerPing", 1, Slots - 1, 0, 1},
    };
    s.maxOps = 30;
    s.quickCases = 1800;
    s.thoroughCases = 14400;
    s.run = [](const Case &c, Run &r) { run(c, r, 0); };
    // mostly messages
    Scenario m = s;
    m.name = "messages";
    m.cfg = {{"connected", 1}, {"generators", 4}, {"busy", 15}};
    m.ops[0].weight = m.ops[1].weight = 0;
    m.ops[3].weight = 10;
    m.ops[2].weight = 24;
    m.ops[4].weight = 10;
    m.maxOps = 40;
    m.run = [](const Case &c, Run &r) { run(c, r, 1); };
    return pbt::main(argc, argv, "C22", {s, m});
}
