// Ghost model of connection-oriented stream sockets, shared by the checks of QAbstractSocket and QLocalSocket: real client
// sockets talk to peers on the other side of the loopback which the test operates through bare descriptors.
//
// Nothing is left to timing: after everything the peer does, the test waits until the kernel shows it to the client's
// descriptor, and the client's event loop either watches its descriptors or (while "frozen") does not hear of anything.
#pragma once

#include "pbt.h"
#include "vloop.h"

#include <qcorotask.h>

#include <QByteArray>
#include <QIODevice>
#include <QObject>

#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <deque>
#include <memory>
#include <optional>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

namespace streamsocket {

using namespace pbt;

constexpr int Slots = 2;
constexpr int MaxTasks = 40;
//! What the functions document as their default; they are called without a timeout then.
constexpr int ByDefault = 30'000;
constexpr int timeouts[] = {-1, 10, 0, 25, ByDefault};
constexpr int sizes[] = {7, 1, 100, 0, 4000, 20000, 70000};

enum State { Unconnected, Connecting, Connected, Closing };
inline const char *name(State s) {
    constexpr const char *names[] = {"unconnected", "connecting", "connected", "closing"};
    return names[s];
}

enum Target { Accepting, Refusing, Missing, Targets };

inline bool awaitReady(int fd, short events, int ms = 3000) {
    pollfd p{fd, events, 0};
    return ::poll(&p, 1, ms) > 0;
}

//! One connection as it should be
struct Conn {
    int fd = -1; // of the peer
    bool established = false;
    QByteArray output, input; // from and to the peer
    qint64 readPos = 0;
    qint64 confirmed = 0;
    QByteArray received; // by the peer
    bool peerFinished = false; // will send nothing more
    bool outputLost = false; // the end of the output need not arrive
    bool inputLost = false;
    bool closing = false; // by the local side
    ~Conn() { reset(); }
    //! Drops the connection the hard way, which leaves nothing behind in the kernel
    void reset() {
        if (fd >= 0) {
            const linger l{1, 0};
            ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            ::close(fd);
            fd = -1;
        }
    }
    //! Sends what fits, returns how much that was
    int send(int n) {
        QByteArray data(n, Qt::Uninitialized);
        for (int k = 0; k < n; ++k) {
            data[k] = static_cast<char>((output.size() + k) % 251);
            if (data[k] == '\n' && (output.size() + k) % 3) {
                data[k] = 'n';
            }
        }
        const auto sent = ::send(fd, data.constData(), static_cast<std::size_t>(n), MSG_NOSIGNAL | MSG_DONTWAIT);
        if (sent > 0) {
            output += data.left(sent);
        }
        return static_cast<int>(std::max<ssize_t>(sent, 0));
    }
    //! Receives what has arrived; returns whether the end was reached
    bool receive(int max) {
        char buf[8192];
        while (fd >= 0 && max > 0) {
            const auto n = ::recv(fd, buf, std::min<std::size_t>(sizeof buf, static_cast<std::size_t>(max)), MSG_DONTWAIT);
            if (n == 0 || (n < 0 && errno != EAGAIN)) {
                return true;
            }
            if (n < 0) {
                return false;
            }
            received.append(buf, n);
            max -= static_cast<int>(n);
        }
        return fd < 0;
    }
};

struct Wait {
    int slot = 0;
    bool forConnected = true;
    int timeout = -1;
    qint64 start = 0;
    std::optional<bool> immediate;
    std::optional<bool> event; // the outcome
    qint64 eventTime = 0;
    bool done = false;
};

struct Read {
    int slot = 0;
    std::shared_ptr<Conn> conn;
    int timeout = -1;
    qint64 start = 0;
    bool direct = false; // co_await socket
    bool immediate = false;
    bool mayEnd = false, mustEnd = false; // the connection is being closed, or is closed
    bool robbed = false; // another reader may have taken the data
    bool done = false;
};

struct Write {
    int slot = 0;
    std::shared_ptr<Conn> conn;
    qint64 accepted = 0;
    qint64 target = 0;
    bool immediate = false;
    bool over = false; // the connection is being closed
    qint64 atLeast = 0;
    std::optional<qint64> result; // once everything is confirmed
    bool done = false;

    qint64 confirmed() const { return std::clamp<qint64>(conn->confirmed - (target - accepted), 0, accepted); }
};

struct Flush {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    std::optional<std::optional<qint64>> immediate;
    std::optional<qint64> first;
    qint64 firstTime = 0;
    bool over = false;
    bool done = false;
};

template<typename X>
struct World {
    using Socket = typename X::Socket;
    struct Slot {
        std::unique_ptr<Socket> socket;
        State state = Unconnected;
        bool wasConnected = false;
        bool reopened = false; // it has been closed, or disconnected, before
        bool closed = false; // by close(), which discards what has not been sent
        std::shared_ptr<Conn> conn = std::make_shared<Conn>();
        QIODevice::OpenMode mode = QIODevice::ReadWrite; // of the current connection
        unsigned next = 0;
        bool refusal = false; // is about to be seen
        bool unseen = false; // the client may not see yet what the peer did
        qint64 connectTime = 0;
    };

    std::array<Slot, Slots> slots;
    std::deque<Wait> waits;
    std::deque<Read> reads;
    std::deque<Write> writes;
    std::deque<Flush> flushes;
    bool ending = false;
    bool frozen = false;
    int established = 0, refused = 0, timedOut = 0, byEvent = 0, failedWait = 0, reconnected = 0, slow = 0, readData = 0, readOver = 0, writeDone = 0,
        writeOver = 0, localClose = 0, peerClose = 0, flushed = 0, closingSeen = 0, openFailed = 0;

    ~World() {
        for (auto &s : slots) {
            if (s.socket) {
                s.socket->disconnect();
                s.socket->abort();
            }
            s.conn->reset();
        }
    }

    Slot &slot(int i) {
        auto &s = slots[i];
        if (!s.socket) {
            s.socket = std::make_unique<Socket>();
            auto *p = s.socket.get();
            QObject::connect(p, &Socket::stateChanged, p, [this, i](auto) { stateChanged(i, X::state(slots[i].socket.get())); });
            QObject::connect(p, &Socket::connected, p, [this, i] { resolve(i, true, true); });
            QObject::connect(p, &QIODevice::aboutToClose, p, [this, i] { over(i, true); });
            QObject::connect(p, &QIODevice::bytesWritten, p, [this, i](qint64 n) { confirm(i, n); });
        }
        return s;
    }
    void resolve(int i, bool forConnected, bool result) {
        for (auto &wt : waits) {
            if (wt.slot == i && wt.forConnected == forConnected && !wt.done && !wt.immediate && !wt.event) {
                wt.event = result;
                wt.eventTime = vloop::now();
            }
        }
    }
    void stateChanged(int i, State st) {
        auto &s = slots[i];
        PBT_LOG("socket ", i, " is ", name(st), " at ", vloop::now());
        s.state = st;
        switch (st) {
        case Connected:
            s.wasConnected = true;
            s.conn->established = true;
            QMetaObject::invokeMethod(s.socket.get(), [this, i] { checkMode(i); }, Qt::QueuedConnection);
            ++established;
            break;
        case Closing:
            ++closingSeen;
            over(i, false);
            break;
        case Unconnected:
            over(i, true);
            resolve(i, true, false);
            resolve(i, false, s.wasConnected);
            s.wasConnected = false;
            break;
        case Connecting: break;
        }
    }
    void checkMode(int i) {
        auto &s = slots[i];
        if (X::state(s.socket.get()) == Connected) {
            PBT_CHECK((s.socket->openMode() & QIODevice::ReadWrite) == s.mode, "socket ", i, " was opened in mode ", static_cast<int>(s.socket->openMode()));
        }
    }
    //! Nothing more can be read or written.
    void over(int i, bool finally) {
        auto &s = slots[i];
        for (auto &r : reads) {
            if (r.slot == i && !r.done) {
                r.mayEnd = true;
                r.mustEnd = r.mustEnd || finally || !r.direct;
            }
        }
        for (auto &wr : writes) {
            if (wr.slot == i && !wr.done && !wr.result && !wr.over) {
                wr.over = true;
                wr.atLeast = wr.confirmed();
                ++writeOver;
            }
        }
        for (auto &f : flushes) {
            if (f.slot == i && !f.done) {
                f.over = true;
            }
        }
    }
    void confirm(int i, qint64 n) {
        auto &s = slots[i];
        s.conn->confirmed += n;
        for (auto &wr : writes) {
            if (wr.slot == i && !wr.done && !wr.result && s.conn->confirmed >= wr.target) {
                wr.result = wr.accepted;
                ++writeDone;
            }
        }
        for (auto &f : flushes) {
            if (f.slot == i && !f.done && !f.immediate && !f.first) {
                f.first = n;
                f.firstTime = vloop::now();
            }
        }
    }

    void freeze() {
        if (!frozen) {
            PBT_LOG("the network hangs");
            frozen = true;
            vloop::setPolling(false);
        }
    }
    void release() {
        if (frozen) {
            PBT_LOG("the network goes on");
            X::release();
            frozen = false;
            vloop::setPolling(true);
        }
        // Whatever has been connected meanwhile
        for (int i = 0; i < Slots; ++i) {
            acceptPeer(i);
        }
    }
    bool pendingIo(int i) const {
        const auto of = [i](const auto &o) { return o.slot == i && !o.done; };
        return std::any_of(reads.begin(), reads.end(), of) || std::any_of(writes.begin(), writes.end(), of) ||
            std::any_of(flushes.begin(), flushes.end(), of);
    }

    //! The socket is about to be connected again.
    void aboutToConnect(int i) {
        auto &s = slots[i];
        if (pendingIo(i)) {
            drain();
        }
        checkRest(i);
        checkInput(i, false);
        s.conn->reset();
        reconnected += s.conn->established;
        s.reopened |= s.conn->established;
        s.conn = std::make_shared<Conn>();
        s.closed = false;
    }
    //! The connect call has been made: waits until its outcome can be seen.
    void connecting(int i, Target target) {
        auto &s = slots[i];
        s.state = X::state(s.socket.get());
        PBT_LOG("socket ", i, " is then ", name(s.state));
        s.connectTime = vloop::now();
        refused += target != Accepting;
        if (target == Accepting) {
            acceptPeer(i); // then it can be seen by the client, too
        } else {
            s.refusal = s.state == Connecting;
        }
    }
    void acceptPeer(int i) {
        auto &s = slots[i];
        if (s.socket && s.conn->fd < 0 && !s.conn->peerFinished && X::pendingPeer(i)) {
            s.conn->fd = X::accept(i);
        }
    }
    //! Waits until the client could see what the peer did.
    void visible(int i) {
        auto &s = slots[i];
        const int fd = static_cast<int>(s.socket->socketDescriptor());
        s.unseen = fd < 0; // Qt does not tell the descriptor before it is connected
        if (fd < 0) {
            return;
        }
        for (int k = 0; k < 3000; ++k) {
            int n = 0;
            pollfd p{fd, POLLRDHUP, 0};
            if (::ioctl(fd, FIONREAD, &n) != 0 || (::poll(&p, 1, 0) > 0 && (p.revents & (POLLERR | POLLHUP)))) {
                return;
            }
            const bool all = !s.socket->isReadable() || s.conn->readPos + s.socket->bytesAvailable() + n >= s.conn->output.size();
            if (all && (!s.conn->peerFinished || (p.revents & POLLRDHUP))) {
                return;
            }
            ::usleep(1000);
        }
        PBT_LOG("harness: socket ", i, " never sees what its peer did");
    }

    int beginWait(int i, bool forConnected, int timeout, bool attempt = false) {
        auto &s = slot(i);
        Wait wt;
        wt.slot = i;
        wt.forConnected = forConnected;
        wt.timeout = timeout;
        wt.start = vloop::now();
        const auto st = X::state(s.socket.get());
        if (forConnected) {
            if (st == Connected) {
                wt.immediate = true;
            } else if (attempt && st == Unconnected) {
                wt.immediate = false;
                ++openFailed;
            }
        } else if (st == Unconnected) {
            wt.immediate = false;
        }
        waits.push_back(wt);
        PBT_LOG("wait ", waits.size() - 1, " for ", name(st), " socket ", i, " to be ", forConnected ? "connected" : "disconnected", ", timeout ", timeout,
                " at ", vloop::now());
        return static_cast<int>(waits.size()) - 1;
    }
    void endWait(int n, bool result) {
        auto &wt = waits[n];
        PBT_LOG("wait ", n, " ended with ", result, " at ", vloop::now());
        PBT_CHECK(!wt.done, "wait ", n, " was resumed twice");
        wt.done = true;
        if (wt.immediate) {
            PBT_CHECK(result == *wt.immediate, "wait ", n, " returned ", result);
            return;
        }
        const qint64 elapsed = vloop::now() - wt.start;
        PBT_CHECK(wt.timeout < 0 || elapsed <= wt.timeout, "wait ", n, " ended too late");
        const bool maybeTimeout = wt.timeout >= 0 && elapsed >= wt.timeout && (!wt.event || wt.eventTime - wt.start >= wt.timeout);
        if (result) {
            ++byEvent;
            PBT_CHECK(wt.event.value_or(false), "wait ", n, " returned true although the socket was not ", wt.forConnected ? "connected" : "disconnected");
        } else {
            timedOut += maybeTimeout;
            failedWait += wt.event.has_value();
            PBT_CHECK(maybeTimeout || (wt.event && !*wt.event), "wait ", n, " returned false although it did not time out",
                      wt.event ? " and the socket got to that state" : "");
        }
    }

    int beginRead(int i, int timeout, bool direct) {
        auto &s = slot(i);
        Read r;
        r.slot = i;
        r.conn = s.conn;
        r.timeout = timeout;
        r.start = vloop::now();
        r.direct = direct;
        r.immediate = !s.socket->isReadable() || s.socket->bytesAvailable() > 0 || X::state(s.socket.get()) != Connected;
        reads.push_back(r);
        PBT_LOG("read ", reads.size() - 1, " from socket ", i, ", timeout ", timeout, direct ? " (direct)" : "", " at ", vloop::now());
        return static_cast<int>(reads.size()) - 1;
    }
    void endRead(int n, const QByteArray &data, qint64 max, bool line) {
        auto &r = reads[n];
        auto &c = *r.conn;
        PBT_LOG("read ", n, " got ", data.size(), " bytes at ", vloop::now());
        PBT_CHECK(!r.done, "read ", n, " was resumed twice");
        r.done = true;
        PBT_CHECK(max < 0 || data.size() <= max, "read ", n, " got more than it asked for");
        PBT_CHECK(!line || data.indexOf('\n') < 0 || data.indexOf('\n') == data.size() - 1, "read ", n, " got more than a line");
        PBT_CHECK(data == c.output.mid(c.readPos, data.size()), "read ", n, " got other data than the peer sent at position ", c.readPos);
        c.readPos += data.size();
        const qint64 elapsed = vloop::now() - r.start;
        PBT_CHECK(r.immediate || r.timeout < 0 || elapsed <= r.timeout, "read ", n, " ended too late");
        if (data.isEmpty()) {
            readOver += r.mayEnd;
            PBT_CHECK(r.immediate || r.mayEnd || r.robbed || max == 0 || (r.timeout >= 0 && elapsed >= r.timeout), "read ", n,
                      " ended with nothing although the socket is connected");
            PBT_CHECK(max == 0 || (r.timeout >= 0 && elapsed >= r.timeout) || !slots[r.slot].socket->isReadable() || slots[r.slot].socket->bytesAvailable() == 0, "read ", n,
                      " ended with nothing although there are data");
        } else {
            ++readData;
            for (auto &o : reads) {
                if (o.slot == r.slot && !o.done) {
                    o.robbed = true;
                }
            }
        }
    }
    int beginWrite(int i, const QByteArray &data) {
        auto &s = slot(i);
        const auto st = X::state(s.socket.get());
        Write wr;
        wr.slot = i;
        wr.conn = s.conn;
        wr.accepted = X::accepts(s.socket.get(), st) ? data.size() : 0;
        wr.target = s.conn->confirmed + s.socket->bytesToWrite() + wr.accepted;
        wr.immediate = wr.accepted == 0 || st != Connected;
        if (wr.accepted == 0) {
            wr.result = 0;
        }
        s.conn->input += data.left(wr.accepted);
        writes.push_back(wr);
        PBT_LOG("write ", writes.size() - 1, " of ", data.size(), " bytes to ", name(st), " socket ", i, " (", wr.accepted, " accepted)");
        return static_cast<int>(writes.size()) - 1;
    }
    void endWrite(int n, qint64 result) {
        auto &wr = writes[n];
        PBT_LOG("write ", n, " ended with ", result);
        PBT_CHECK(!wr.done, "write ", n, " was resumed twice");
        wr.done = true;
        if (wr.result) {
            PBT_CHECK(result == *wr.result || (*wr.result == 0 && result <= 0), "write ", n, " returned ", result, " instead of ", *wr.result);
        } else {
            PBT_CHECK(wr.immediate || wr.over, "write ", n, " returned before its data were written");
            PBT_CHECK(result >= wr.atLeast && result <= (wr.immediate ? wr.accepted : wr.confirmed()), "write ", n, " returned ", result, " although ", wr.atLeast,
                      " to ", wr.confirmed(), " bytes were confirmed");
        }
    }
    QByteArray nextData(int i, int size) {
        QByteArray data(size, Qt::Uninitialized);
        for (auto &c : data) {
            c = static_cast<char>(slots[i].next++ % 253);
        }
        return data;
    }
    //! Without the wrapper
    void plainWrite(int i, int size) {
        auto &s = slots[i];
        if (X::accepts(s.socket.get(), X::state(s.socket.get()))) {
            const auto data = nextData(i, size);
            s.conn->input += data;
            s.socket->write(data);
        }
    }
    int beginFlush(int i, int timeout) {
        auto &s = slot(i);
        Flush f;
        f.slot = i;
        f.timeout = timeout;
        f.start = vloop::now();
        if (!s.socket->isWritable()) {
            f.immediate = std::optional<qint64>{};
        } else if (s.socket->bytesToWrite() == 0) {
            f.immediate = std::optional<qint64>{0};
        } else if (X::state(s.socket.get()) != Connected) {
            f.immediate = std::optional<qint64>{};
        }
        flushes.push_back(f);
        PBT_LOG("wait ", flushes.size() - 1, " for bytes written to socket ", i, ", timeout ", timeout);
        return static_cast<int>(flushes.size()) - 1;
    }
    void endFlush(int n, std::optional<qint64> r) {
        auto &f = flushes[n];
        PBT_LOG("wait ", n, " for bytes written ended with ", r.value_or(-1));
        PBT_CHECK(!f.done, "wait ", n, " for bytes written was resumed twice");
        f.done = true;
        if (f.immediate) {
            PBT_CHECK(r == *f.immediate, "wait ", n, " for bytes written returned ", r.value_or(-1));
            return;
        }
        const qint64 elapsed = vloop::now() - f.start;
        const bool maybeTimeout = f.timeout >= 0 && elapsed >= f.timeout && (!f.first || f.firstTime - f.start >= f.timeout);
        PBT_CHECK(f.timeout < 0 || elapsed <= f.timeout, "wait ", n, " for bytes written ended too late");
        if (r.value_or(0) > 0) {
            ++flushed;
            PBT_CHECK(r == f.first, "wait ", n, " for bytes written returned ", *r, " instead of ", f.first.value_or(-1));
        } else {
            PBT_CHECK(maybeTimeout || f.over, "wait ", n, " for bytes written ended without result");
        }
    }

    void invariants() {
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done) {
                continue;
            }
            PBT_CHECK(!wt.immediate, "wait ", n, " did not return at once");
            PBT_CHECK(!wt.event, "wait ", n, " hangs although the socket ",
                      wt.event.value_or(false) ? "got to that state" : "failed to connect");
            PBT_CHECK(wt.timeout < 0 || vloop::now() - wt.start < wt.timeout, "wait ", n, " did not time out");
        }
        for (std::size_t n = 0; n < reads.size(); ++n) {
            const auto &r = reads[n];
            if (r.done) {
                continue;
            }
            PBT_CHECK(!r.immediate, "read ", n, " did not return at once");
            PBT_CHECK(slots[r.slot].socket->bytesAvailable() == 0, "read ", n, " hangs although there are data");
            PBT_CHECK(!r.mustEnd, "read ", n, " hangs although the connection has ended");
            PBT_CHECK(r.timeout < 0 || vloop::now() - r.start < r.timeout, "read ", n, " did not time out");
        }
        for (std::size_t n = 0; n < writes.size(); ++n) {
            const auto &wr = writes[n];
            PBT_CHECK(wr.done || (!wr.result && !wr.over && !wr.immediate), "write ", n, " hangs although its data were written or the connection has ended");
        }
        for (std::size_t n = 0; n < flushes.size(); ++n) {
            const auto &f = flushes[n];
            if (f.done) {
                continue;
            }
            PBT_CHECK(!f.immediate && !f.first && !f.over, "wait ", n, " for bytes written hangs");
            PBT_CHECK(f.timeout < 0 || vloop::now() - f.start < f.timeout, "wait ", n, " for bytes written did not time out");
        }
    }
    void drain() {
        vloop::drain();
        for (auto &s : slots) {
            for (int k = 0; k < 2000 && s.refusal && !frozen; ++k) {
                s.refusal = X::state(s.socket.get()) == Connecting;
                if (s.refusal) {
                    ::usleep(200);
                }
                vloop::drain();
            }
        }
        for (int i = 0; i < Slots; ++i) {
            auto &s = slots[i];
            acceptPeer(i);
            if (s.unseen && s.socket->socketDescriptor() >= 0) {
                visible(i);
                vloop::drain();
            }
        }
        invariants();
    }
    //! Reads what nobody has read yet.
    void checkRest(int i) {
        auto &s = slots[i];
        auto &c = *s.conn;
        if (!s.socket || !s.socket->isOpen() || !s.socket->isReadable()) {
            return;
        }
        const auto rest = s.socket->readAll();
        PBT_CHECK(rest == c.output.mid(c.readPos, rest.size()), "socket ", i, " has other data than the peer sent");
        c.readPos += rest.size();
        PBT_CHECK(c.readPos == c.output.size() || c.outputLost || !c.established, "what the peer sent was lost: ", c.readPos, " of ", c.output.size(), " bytes read");
    }
    //! Compares what the peer has got.
    void checkInput(int i, bool up) {
        auto &s = slots[i];
        auto &c = *s.conn;
        if (!s.socket) {
            return;
        }
        const bool all = c.established && !c.inputLost && !s.closed && (up || X::state(s.socket.get()) == Unconnected) && !frozen;
        for (int k = 0; k < 3000 && c.fd >= 0 && !current->failed(); ++k) {
            const bool end = c.receive(1 << 30);
            if (!all || end || c.received.size() >= c.input.size()) {
                break;
            }
            if (up) {
                drain();
            }
            awaitReady(c.fd, POLLIN, 1);
        }
        PBT_CHECK(c.input.startsWith(c.received), "the peer of socket ", i, " received other data than were written");
        PBT_CHECK(!all || c.received.size() == c.input.size(), "the peer of socket ", i, " received only ", c.received.size(), " of the ", c.input.size(), " bytes written");
    }
};

template<typename X>
QCoro::Task<> waiter(World<X> &w, int i, bool forConnected, int timeout, int style) {
    using std::chrono::milliseconds;
    const int n = w.beginWait(i, forConnected, timeout);
    auto *p = w.slots[i].socket.get();
    bool r = false;
    if (style == 0) {
        if (timeout == ByDefault) {
            r = forConnected ? co_await qCoro(p).waitForConnected() : co_await qCoro(p).waitForDisconnected();
        } else {
            r = forConnected ? co_await qCoro(p).waitForConnected(timeout) : co_await qCoro(p).waitForDisconnected(timeout);
        }
    } else {
        auto task = forConnected ? qCoro(*p).waitForConnected(milliseconds(timeout)) : qCoro(*p).waitForDisconnected(milliseconds(timeout));
        r = co_await task;
    }
    w.endWait(n, r);
}

//! style 0 connects without the wrapper
template<typename X>
QCoro::Task<> connector(World<X> &w, int i, Target target, bool slowly, QIODevice::OpenMode mode, int timeout, int style) {
    auto &s = w.slot(i);
    auto *p = s.socket.get();
    const auto before = X::state(p);
    const bool attempt = before == Unconnected;
    PBT_LOG("connect ", name(before), " socket ", i, target == Accepting ? "" : " to nobody", slowly ? ", slowly" : "");
    if (attempt) {
        w.aboutToConnect(i);
        s.mode = mode;
        X::prepare(i, target);
        if (slowly) {
            ++w.slow;
            w.freeze();
            X::hold(i);
        }
    } else {
        mode = p->openMode();
    }
    const auto begun = [&] {
        if (attempt) {
            w.connecting(i, target);
        }
    };
    if (style == 0) {
        X::connect(p, i, target, mode);
        begun();
        co_return;
    }
    auto task = X::connect(p, i, target, mode, timeout, style);
    const int n = w.beginWait(i, true, timeout, true);
    begun();
    const bool r = co_await task;
    w.endWait(n, r);
}

template<typename X>
QCoro::Task<> reader(World<X> &w, int i, int kind, int timeout, int repeat) {
    using std::chrono::milliseconds;
    for (int k = 0; k <= repeat && !w.ending && w.reads.size() < MaxTasks; ++k) {
        if (kind >= 4) {
            timeout = -1;
        }
        auto *p = w.slots[i].socket.get();
        if (kind == 5 && X::state(p) != Connected) {
            co_return;
        }
        const int n = w.beginRead(i, timeout, kind == 5);
        QByteArray data;
        qint64 max = -1;
        switch (kind) {
        case 0: data = co_await qCoro(p).readAll(milliseconds(timeout)); break;
        case 1: data = co_await qCoro(*p).read(max = 5, milliseconds(timeout)); break;
        case 2: data = co_await qCoro(p).read(max = 5000, milliseconds(timeout)); break;
        case 3: data = co_await qCoro(p).readLine(0, milliseconds(timeout)); break;
        case 4: data = co_await qCoro(*p).readAll(); break;
        case 5: data = co_await p; break;
        }
        w.endRead(n, data, max, kind == 3);
        if (data.isEmpty() || current->failed()) {
            co_return;
        }
    }
}

template<typename X>
QCoro::Task<> writer(World<X> &w, int i, int size, int style) {
    auto &s = w.slot(i);
    auto data = w.nextData(i, size);
    auto *p = s.socket.get();
    const int n = w.beginWrite(i, data);
    if (style == 0) {
        w.endWrite(n, co_await qCoro(p).write(data));
    } else {
        auto task = qCoro(*p).write(QByteArray(data.constData(), data.size()));
        data.fill('x');
        w.endWrite(n, co_await task);
    }
}

template<typename X>
QCoro::Task<> flusher(World<X> &w, int i, int timeout) {
    const int n = w.beginFlush(i, timeout);
    w.endFlush(n, co_await qCoro(w.slots[i].socket.get()).waitForBytesWritten(timeout));
}

enum { OpRelease, OpConnect, OpWait, OpOutput, OpPeerClose, OpRead, OpWrite, OpInput, OpFlush, OpClose, OpFreeze, OpAdvance };

template<typename X>
void run(const Case &c, Run &run) {
    vloop::setPolling(true);
    X::begin();
    auto *wp = new World<X>;
    auto &w = *wp;
    for (const auto &op : c.ops) {
        const int i = op.a % 3 == 2;
        auto &s = w.slot(i);
        bool deliver = true;
        const bool exchange = op.k == OpOutput || op.k == OpWrite || op.k == OpInput || op.k == OpFlush || op.k == OpRead || op.k == OpClose || op.k == OpPeerClose;
        if (exchange && op.a / 3 && !w.frozen && X::state(s.socket.get()) == Unconnected) {
            connector(w, i, Accepting, false, QIODevice::ReadWrite, -1, 0);
            w.drain();
        }
        auto &conn = *s.conn;
        switch (op.k) {
        case OpRelease: w.release(); break;
        case OpFreeze:
            w.drain();
            w.freeze();
            break;
        case OpConnect: {
            const auto n = w.waits.size();
            if (X::state(s.socket.get()) == Closing && !X::closingRefuses) {
                break; // what Qt does then is undefined
            }
            const int kind = op.a / 3; // 0..7
            const auto target = kind < 6 ? Accepting : kind == 6 ? Refusing : Missing;
            const auto mode = op.c / 6 == 0 ? QIODevice::ReadWrite : op.c / 6 == 1 ? QIODevice::ReadOnly : QIODevice::WriteOnly;
            connector(w, i, target, kind == 4 || kind == 5, mode, timeouts[op.b], op.c % 3);
            PBT_CHECK(n == w.waits.size() || !w.waits[n].immediate || w.waits[n].done, "wait ", n, " did not return at once");
            deliver = op.c / 3 % 2;
            break;
        }
        case OpWait:
            if (w.waits.size() < MaxTasks) {
                const auto n = w.waits.size();
                waiter(w, i, op.b % 2, timeouts[op.b / 2], op.c % 2);
                PBT_CHECK(!w.waits[n].immediate || w.waits[n].done, "wait ", n, " did not return at once");
                deliver = op.c / 2;
            }
            break;
        case OpOutput:
            if (conn.fd >= 0 && !conn.peerFinished) {
                const int n = conn.send(std::min(sizes[op.b], 20000));
                PBT_LOG("the peer of socket ", i, " sends ", n, " bytes");
                if (conn.closing || X::state(s.socket.get()) == Unconnected || X::state(s.socket.get()) == Closing) {
                    conn.outputLost = conn.inputLost = true;
                }
                w.visible(i);
                deliver = op.c;
            }
            break;
        case OpPeerClose:
            if (conn.fd >= 0) {
                constexpr const char *how[] = {"closes", "finishes", "resets"};
                // (a socket that is reset while connecting connects again)
                const int kind = X::state(s.socket.get()) == Connecting ? 1 : op.b == 0 ? 0 : op.b < 3 ? 1 : 2;
                PBT_LOG("the peer of socket ", i, " ", how[kind]);
                ++w.peerClose;
                conn.peerFinished = true;
                conn.inputLost = true; // the socket disconnects without sending what it has buffered
                if (kind != 1) {
                    conn.receive(1 << 30);
                    // the kernel may turn this into a reset if there is anything left
                    conn.outputLost = true;
                }
                if (X::state(s.socket.get()) != Connected && X::state(s.socket.get()) != Connecting) {
                    conn.outputLost = true;
                }
                if (kind == 0) {
                    ::close(conn.fd);
                    conn.fd = -1;
                } else if (kind == 1) {
                    ::shutdown(conn.fd, SHUT_WR);
                } else {
                    conn.reset();
                }
                w.visible(i);
                deliver = op.c;
            }
            break;
        case OpRead:
            if (w.reads.size() < MaxTasks) {
                const auto n = w.reads.size();
                reader(w, i, op.b % 6, timeouts[op.b / 6], op.c % 3);
                PBT_CHECK(n == w.reads.size() || !w.reads[n].immediate || w.reads[n].done, "read ", n, " did not return at once");
                deliver = op.c / 3;
            }
            break;
        case OpWrite:
            if (w.writes.size() < MaxTasks && (X::writesWhileConnecting || X::state(s.socket.get()) != Connecting) && s.socket->bytesToWrite() < 300000) {
                const auto n = w.writes.size();
                writer(w, i, sizes[op.b], op.c % 2);
                PBT_CHECK(!w.writes[n].immediate || w.writes[n].done, "write ", n, " did not return at once");
                deliver = op.c / 2;
            }
            break;
        case OpInput:
            conn.receive(op.b ? 1 << 30 : 3000);
            PBT_CHECK(conn.input.startsWith(conn.received), "the peer of socket ", i, " received other data than were written");
            break;
        case OpFlush:
            if (w.flushes.size() < MaxTasks) {
                const auto n = w.flushes.size();
                if (op.c / 2 && (X::writesWhileConnecting || X::state(s.socket.get()) != Connecting)) {
                    w.plainWrite(i, sizes[op.c - 2]);
                }
                flusher(w, i, timeouts[op.b]);
                PBT_CHECK(!w.flushes[n].immediate || w.flushes[n].done, "wait ", n, " for bytes written did not return at once");
                deliver = op.c % 2;
            }
            break;
        case OpClose:
            if (X::state(s.socket.get()) != Unconnected) {
                constexpr const char *how[] = {"disconnect", "close", "abort"};
                const int kind = X::closeKind(s.socket.get(), op.b < 3 ? 0 : op.b - 2);
                PBT_LOG(how[kind], " ", name(X::state(s.socket.get())), " socket ", i, ", ", s.socket->bytesToWrite(), " bytes to write");
                ++w.localClose;
                conn.outputLost = true;
                conn.closing = true;
                if (conn.readPos + s.socket->bytesAvailable() < conn.output.size()) {
                    conn.inputLost = true; // the kernel resets a connection with unread data
                }
                if (kind != 0) {
                    s.closed = s.reopened = true;
                } else if (X::losesDataAfterReopening && s.reopened && s.socket->bytesToWrite() > 0) {
                    conn.inputLost = true;
                }
                switch (kind) {
                case 0: X::disconnect(s.socket.get()); break;
                case 1: s.socket->close(); break;
                case 2: s.socket->abort(); break;
                }
                deliver = op.c;
            }
            break;
        case OpAdvance:
            w.drain();
        {
            qint64 ms = op.b == 7 ? ByDefault - 10 : op.b * 5;
            for (const auto &x : w.slots) {
                if (x.socket && X::state(x.socket.get()) == Connecting) {
                    // Qt itself gives up connecting after 30 seconds
                    ms = std::clamp<qint64>(x.connectTime + ByDefault - 500 - vloop::now(), 0, ms);
                }
            }
            PBT_LOG(ms, " ms pass");
            vloop::advance(ms);
        }
            break;
        }
        if (deliver) {
            w.drain();
        }
        if (run.failed()) {
            return;
        }
    }
    w.drain();
    w.release();
    w.drain();
    for (int i = 0; i < Slots && !run.failed(); ++i) {
        if (w.slots[i].socket) {
            w.acceptPeer(i);
            w.checkInput(i, X::state(w.slots[i].socket.get()) == Connected);
            w.drain();
            if (X::state(w.slots[i].socket.get()) == Closing) {
                w.slots[i].conn->receive(1 << 30);
            }
        }
    }
    w.ending = true;
    for (int i = 0; i < Slots && !run.failed(); ++i) {
        auto &s = w.slots[i];
        if (s.socket) {
            w.checkRest(i);
            s.conn->inputLost = s.conn->outputLost = true;
            s.closed = true;
            PBT_LOG("abort socket ", i);
            s.socket->abort();
            w.drain();
        }
    }
    for (std::size_t n = 0; n < w.waits.size() && !run.failed(); ++n) {
        // a connection that nobody ever tries to make
        PBT_CHECK(w.waits[n].done || (w.waits[n].forConnected && !w.waits[n].event), "wait ", n, " never returned");
    }
    for (std::size_t n = 0; n < w.reads.size(); ++n) {
        PBT_CHECK(w.reads[n].done, "read ", n, " never returned");
    }
    for (std::size_t n = 0; n < w.writes.size(); ++n) {
        PBT_CHECK(w.writes[n].done, "write ", n, " never returned");
    }
    vloop::settle();
    w.invariants();
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.established, "connected");
    tag(w.refused, "refused");
    tag(w.openFailed, "failed-at-once");
    tag(w.failedWait, "wait-ended-by-failure");
    tag(w.timedOut, "wait-timed-out");
    tag(w.byEvent, "wait-ended-by-event");
    tag(w.slow, "slow-connection");
    tag(w.closingSeen, "closing");
    tag(w.reconnected, "reconnected");
    tag(w.readData, "read-data");
    tag(w.readOver, "pending-read-at-disconnect");
    tag(w.writeDone, "written");
    tag(w.writeOver, "write-at-disconnect");
    tag(w.flushed, "bytes-written");
    tag(w.localClose, "local-close");
    tag(w.peerClose, "peer-close");
    if ((w.byEvent && (w.failedWait || w.timedOut)) || w.readData + w.writeDone > 1 || w.readOver || w.writeOver) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
    }
}

inline Scenario scenario(void (*f)(const Case &, Run &)) {
    Scenario sc;
    sc.name = "connections";
    sc.rule = "histories of two sockets connecting (at once, slowly, to nobody, again), exchanging data in chunks both ways, hanging for a while and being "
              "closed, disconnected, aborted or reset by either side, with concurrent waits, reads and writes with and without timeouts; "
              "non-trivial when waits were ended by events next to failures or timeouts, or data were exchanged several times, or reads or writes were "
              "pending when the connection ended";
    sc.ops = {{"release", 3, 1},
              {"connect", 10, 3 * 8 - 1, 4, 17},
              {"wait", 8, 2, 9, 3},
              {"output", 10, 3 * 4 - 1, 6, 1},
              {"peerClose", 3, 3 * 2 - 1, 3, 1},
              {"read", 9, 3 * 4 - 1, 23, 5},
              {"write", 6, 3 * 4 - 1, 6, 3},
              {"input", 3, 2, 1},
              {"flush", 4, 3 * 2 - 1, 3, 8},
              {"close", 4, 3 * 2 - 1, 4, 1},
              {"freeze", 3, 1},
              {"advance", 3, 0, 7}};
    sc.maxOps = 20;
    sc.minOps = 4;
    sc.quickCases = 25000;
    sc.thoroughCases = 200000;
    sc.run = f;
    return sc;
}

} // namespace streamsocket
