// C17: process waits report start and exit truthfully and keep the process output.
#include "pbt.h"
#include "vloop.h"

#include <qcoroprocess.h>
#include <qcorotask.h>

#include <QCoreApplication>
#include <QFile>
#include <QProcess>
#include <QTemporaryDir>

#include <array>
#include <csignal>
#include <deque>
#include <memory>
#include <optional>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;

namespace {

constexpr int Slots = 2;
constexpr int MaxOps = 40;
//! What the functions document as their default; they are called without a timeout then.
constexpr int ByDefault = 30'000;
constexpr int timeouts[] = {-1, 10, 0, 25, ByDefault};
constexpr const char *argumentLists[][13] = {
    {"a"},
    {},
    {"two words", ""},
    {"", "\"quoted\" 'text'", " ", "\\", "$HOME", "*"},
    {"\xc3\xbc\xe2\x82\xac", "-a", "--option=x y", "--"},
    {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"},
    {"line\nbreak", "tab\t", "same", "same", "%1", "{}"},
};
constexpr int sizes[] = {7, 1, 100, 0, 4000, 20000, 90000};

QString childProgram;
QString scratch;

//! The process seen from its other side
class Child {
public:
    ~Child() { reset(); }
    void reset() {
        if (mCtl >= 0) {
            ::close(mCtl);
        }
        mCtl = -1;
    }
    //! Returns the descriptor to be inherited
    int prepare() {
        reset();
        int fds[2];
        if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fds) != 0) {
            pbt::abandon("harness: no socket pair");
        }
        mCtl = fds[0];
        ::fcntl(fds[1], F_SETFD, 0);
        return fds[1];
    }
    //! Waits until it runs or is gone; returns whether it runs.
    bool hello() {
        std::int32_t room;
        if (!receive(&room, sizeof room)) {
            return false;
        }
        mRoom = room;
        std::int32_t size;
        if (!receive(&size, sizeof size)) {
            return false;
        }
        mArguments.resize(size);
        receive(mArguments.data(), static_cast<std::size_t>(size));
        return true;
    }
    //! Those after the first one, each with a null byte at its end
    QByteArray arguments() const { return mArguments; }
    //! What it can write while nobody reads
    int room() const { return mRoom; }
    void send(char op, int n = 0, unsigned seed = 0) {
        const struct {
            std::int32_t op, n;
            std::uint32_t seed;
        } cmd{op, n, seed};
        if (::send(mCtl, &cmd, sizeof cmd, MSG_NOSIGNAL) != sizeof cmd) {
            pbt::abandon("harness: lost the child");
        }
    }
    void command(char op, int n = 0, unsigned seed = 0) {
        send(op, n, seed);
        ack();
    }
    //! What has been written to its standard input
    QByteArray input(int max, bool &eof) {
        send('r', max);
        std::int32_t head[2];
        if (!receive(head, sizeof head)) {
            pbt::abandon("harness: lost the child");
        }
        QByteArray data(head[0], Qt::Uninitialized);
        receive(data.data(), static_cast<std::size_t>(data.size()));
        eof = head[1];
        ack();
        return data;
    }

private:
    bool receive(void *p, std::size_t n) { return n == 0 || ::recv(mCtl, p, n, MSG_WAITALL) == static_cast<ssize_t>(n); }
    void ack() {
        char c;
        if (!receive(&c, 1)) {
            pbt::abandon("harness: lost the child");
        }
    }
    int mCtl = -1;
    int mRoom = 0;
    QByteArray mArguments;
};

struct Wait {
    int slot = 0;
    bool forStarted = true;
    int timeout = -1;
    qint64 start = 0;
    std::optional<bool> immediate;
    std::optional<bool> event; // the outcome
    qint64 eventTime = 0;
    bool done = false;
};

struct Read {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    bool immediate = false;
    bool done = false;
    bool over = false; // nothing more came in this run of the process
    bool robbed = false; // another reader may have taken the data
};

struct Write {
    int slot = 0;
    qint64 accepted = 0;
    qint64 target = 0;
    std::optional<qint64> result; // once it is decided
    bool done = false;
};

struct Flush {
    int slot = 0;
    int timeout = -1;
    qint64 start = 0;
    std::optional<std::optional<qint64>> immediate;
    std::optional<qint64> first;
    qint64 firstTime = 0;
    bool over = false;
    bool done = false;
};

struct Slot {
    std::unique_ptr<QProcess> process;
    Child child;
    bool alive = false; // the child
    bool outputOpen = false; // the child has not closed its standard output
    bool inputOpen = false;
    QByteArray output, input; // of this run
    qint64 readPos = 0;
    qint64 confirmed = 0;
    QByteArray received; // by the child
    QByteArray arguments; // expected
    int starts = 0;
    unsigned next = 0;
};

struct World {
    std::array<Slot, Slots> slots;
    std::deque<Wait> waits;
    std::deque<Read> reads;
    std::deque<Write> writes;
    std::deque<Flush> flushes;
    bool ending = false;
    bool frozen = false;
    int failed = 0, crashed = 0, started = 0, timedOut = 0, byEvent = 0, fast = 0, restarted = 0, slow = 0, readData = 0, readOver = 0, writeDone = 0, writeOver = 0, pendingAtEnd = 0, closedOutput = 0;

    Slot &slot(int i) {
        auto &s = slots[i];
        if (!s.process) {
            s.process = std::make_unique<QProcess>();
            auto *p = s.process.get();
            QObject::connect(p, &QProcess::started, p, [this, i] { event(i, true, false); });
            QObject::connect(p, &QProcess::errorOccurred, p, [this, i](QProcess::ProcessError e) {
                if (e == QProcess::FailedToStart) {
                    ++failed;
                    event(i, true, true);
                    over(i);
                }
            });
            QObject::connect(p, &QProcess::finished, p, [this, i] {
                event(i, false, false);
                over(i);
            });
            QObject::connect(p, &QProcess::bytesWritten, p, [this, i](qint64 n) { confirm(i, n); });
        }
        return s;
    }
    void event(int i, bool start, bool error) {
        PBT_LOG("process ", i, start ? error ? " failed to start" : " started" : " finished", " at ", vloop::now());
        for (auto &wt : waits) {
            if (wt.slot == i && !wt.done && !wt.immediate && !wt.event && (error || wt.forStarted == start)) {
                wt.event = !error;
                wt.eventTime = vloop::now();
            }
        }
    }
    //! The process is not running anymore.
    void over(int i) {
        auto &s = slots[i];
        s.alive = false;
        for (auto &r : reads) {
            if (r.slot == i && !r.done) {
                r.over = true;
                ++pendingAtEnd;
            }
        }
        for (auto &wr : writes) {
            if (wr.slot == i && !wr.result) {
                wr.result = std::clamp<qint64>(s.confirmed - (wr.target - wr.accepted), 0, wr.accepted);
                ++writeOver;
            }
        }
        for (auto &f : flushes) {
            if (f.slot == i && !f.done) {
                f.over = true;
            }
        }
    }
    void confirm(int i, qint64 n) {
        auto &s = slots[i];
        s.confirmed += n;
        for (auto &wr : writes) {
            if (wr.slot == i && !wr.result && s.confirmed >= wr.target) {
                wr.result = wr.accepted;
                ++writeDone;
            }
        }
        for (auto &f : flushes) {
            if (f.slot == i && !f.done && !f.immediate && !f.first) {
                f.first = n;
                f.firstTime = vloop::now();
            }
        }
    }

    void aboutToStart(int i) {
        auto &s = slots[i];
        restarted += !s.output.isEmpty() || !s.input.isEmpty() || s.next > 0;
        s.output.clear();
        s.input.clear();
        s.received.clear();
        s.readPos = s.confirmed = 0;
    }
    //! Nothing is heard of the processes for a while, like when they are slow.
    void freeze() {
        PBT_LOG("processes hang");
        frozen = true;
        vloop::setPolling(false);
    }
    void release() {
        if (frozen) {
            PBT_LOG("processes go on");
            frozen = false;
            vloop::setPolling(true);
        }
    }
    //! A slot with a running process
    int running(int i) {
        if (!slot(i).alive && slot(1 - i).alive) {
            return 1 - i;
        }
        return i;
    }
    //! Called once the process has been forked: waits until it can be seen whether it could be executed.
    void forked(int i) {
        auto &s = slots[i];
        if (s.process->state() == QProcess::NotRunning) {
            return;
        }
        s.alive = s.child.hello();
        s.outputOpen = s.inputOpen = s.alive;
        if (!s.alive) {
            awaitDeath(i);
        } else {
            PBT_CHECK(s.child.arguments() == s.arguments, "process ", i, " got other arguments than were given: ", s.child.arguments().replace('\0', '|').constData(),
                      " instead of ", QByteArray(s.arguments).replace('\0', '|').constData());
        }
    }
    //! Blocks until the child is a zombie.
    void awaitDeath(int i) {
        auto &s = slots[i];
        siginfo_t si{};
        ::waitid(P_PID, static_cast<id_t>(s.process->processId()), &si, WEXITED | WNOWAIT);
        s.alive = false;
    }

    int beginWait(int i, bool forStarted, int timeout) {
        auto &s = slot(i);
        Wait wt;
        wt.slot = i;
        wt.forStarted = forStarted;
        wt.timeout = timeout;
        wt.start = vloop::now();
        switch (s.process->state()) {
        case QProcess::NotRunning: wt.immediate = false; break;
        case QProcess::Running:
            if (forStarted) {
                wt.immediate = true;
            }
            break;
        case QProcess::Starting: break;
        }
        waits.push_back(wt);
        PBT_LOG("wait ", waits.size() - 1, " for process ", i, forStarted ? " to start" : " to finish", ", timeout ", timeout, " at ", vloop::now());
        return static_cast<int>(waits.size()) - 1;
    }
    void endWait(int n, bool result) {
        auto &wt = waits[n];
        PBT_LOG("wait ", n, " ended with ", result, " at ", vloop::now());
        PBT_CHECK(!wt.done, "wait ", n, " was resumed twice");
        wt.done = true;
        if (wt.immediate) {
            PBT_CHECK(result == *wt.immediate, "wait ", n, " returned ", result);
            return;
        }
        const qint64 elapsed = vloop::now() - wt.start;
        PBT_CHECK(wt.timeout < 0 || elapsed <= wt.timeout, "wait ", n, " ended too late");
        const bool maybeTimeout = wt.timeout >= 0 && elapsed >= wt.timeout && (!wt.event || wt.eventTime - wt.start >= wt.timeout);
        if (result) {
            ++byEvent;
            PBT_CHECK(wt.event.value_or(false), "wait ", n, " returned true although the process did not ", wt.forStarted ? "start" : "finish");
        } else {
            timedOut += maybeTimeout;
            PBT_CHECK(maybeTimeout || (wt.event && !*wt.event), "wait ", n, " returned false although it did not time out",
                      wt.event ? " and the process got to that state" : "");
        }
    }

    int beginRead(int i, int timeout) {
        auto &s = slot(i);
        Read r;
        r.slot = i;
        r.timeout = timeout;
        r.start = vloop::now();
        r.immediate = !s.process->isReadable() || s.process->bytesAvailable() > 0;
        r.over = s.process->state() == QProcess::NotRunning;
        reads.push_back(r);
        PBT_LOG("read ", reads.size() - 1, " from process ", i, ", timeout ", timeout, " at ", vloop::now());
        return static_cast<int>(reads.size()) - 1;
    }
    void endRead(int n, const QByteArray &data, qint64 max) {
        auto &r = reads[n];
        auto &s = slots[r.slot];
        PBT_LOG("read ", n, " got ", data.size(), " bytes at ", vloop::now());
        PBT_CHECK(!r.done, "read ", n, " was resumed twice");
        r.done = true;
        PBT_CHECK(max < 0 || data.size() <= max, "read ", n, " got more than it asked for");
        PBT_CHECK(data == s.output.mid(s.readPos, data.size()), "read ", n, " got other data than the process wrote at position ", s.readPos);
        s.readPos += data.size();
        const qint64 elapsed = vloop::now() - r.start;
        PBT_CHECK(r.immediate || r.timeout < 0 || elapsed <= r.timeout, "read ", n, " ended too late");
        if (data.isEmpty()) {
            readOver += r.over;
            PBT_CHECK(r.immediate || r.over || r.robbed || max == 0 || !s.outputOpen || (r.timeout >= 0 && elapsed >= r.timeout), "read ", n,
                      " ended with nothing although the process is running");
        } else {
            ++readData;
            for (auto &o : reads) {
                if (o.slot == r.slot && !o.done) {
                    o.robbed = true;
                }
            }
        }
    }
    int beginWrite(int i, const QByteArray &data) {
        auto &s = slot(i);
        Write wr;
        wr.slot = i;
        wr.accepted = s.process->isWritable() && s.process->state() != QProcess::NotRunning ? data.size() : 0;
        wr.target = s.confirmed + s.process->bytesToWrite() + wr.accepted;
        if (wr.accepted == 0) {
            wr.result = 0;
        }
        s.input += data.left(wr.accepted);
        writes.push_back(wr);
        PBT_LOG("write ", writes.size() - 1, " of ", data.size(), " bytes to process ", i, " (", wr.accepted, " accepted)");
        return static_cast<int>(writes.size()) - 1;
    }
    void endWrite(int n, qint64 result) {
        auto &wr = writes[n];
        PBT_LOG("write ", n, " ended with ", result);
        PBT_CHECK(!wr.done, "write ", n, " was resumed twice");
        wr.done = true;
        PBT_CHECK(wr.result.has_value(), "write ", n, " returned before its data were written");
        PBT_CHECK(!wr.result || result == *wr.result || (*wr.result == 0 && result <= 0), "write ", n, " returned ", result, " instead of ", wr.result.value_or(-1));
    }
    int beginFlush(int i, int timeout) {
        auto &s = slot(i);
        Flush f;
        f.slot = i;
        f.timeout = timeout;
        f.start = vloop::now();
        if (!s.process->isWritable()) {
            f.immediate = std::optional<qint64>{};
        } else if (s.process->bytesToWrite() == 0) {
            f.immediate = std::optional<qint64>{0};
        }
        f.over = s.process->state() == QProcess::NotRunning;
        flushes.push_back(f);
        PBT_LOG("wait ", flushes.size() - 1, " for bytes written to process ", i, ", timeout ", timeout);
        return static_cast<int>(flushes.size()) - 1;
    }
    void endFlush(int n, std::optional<qint64> r) {
        auto &f = flushes[n];
        PBT_LOG("wait ", n, " for bytes written ended with ", r.value_or(-1));
        PBT_CHECK(!f.done, "wait ", n, " for bytes written was resumed twice");
        f.done = true;
        if (f.immediate) {
            PBT_CHECK(r == *f.immediate, "wait ", n, " for bytes written returned ", r.value_or(-1));
            return;
        }
        const qint64 elapsed = vloop::now() - f.start;
        const bool maybeTimeout = f.timeout >= 0 && elapsed >= f.timeout && (!f.first || f.firstTime - f.start >= f.timeout);
        PBT_CHECK(f.timeout < 0 || elapsed <= f.timeout, "wait ", n, " for bytes written ended too late");
        if (r.value_or(0) > 0) {
            PBT_CHECK(r == f.first, "wait ", n, " for bytes written returned ", *r, " instead of ", f.first.value_or(-1));
        } else {
            PBT_CHECK(maybeTimeout || f.over, "wait ", n, " for bytes written ended without result");
        }
    }

    void invariants() {
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done) {
                continue;
            }
            PBT_CHECK(!wt.immediate, "wait ", n, " did not return at once");
            PBT_CHECK(!wt.event, "wait ", n, " hangs although the process ", wt.event.value_or(false) ? "changed its state" : "failed to start");
            PBT_CHECK(wt.timeout < 0 || vloop::now() - wt.start < wt.timeout, "wait ", n, " did not time out");
        }
        for (std::size_t n = 0; n < reads.size(); ++n) {
            const auto &r = reads[n];
            if (r.done) {
                continue;
            }
            PBT_CHECK(!r.immediate, "read ", n, " did not return at once");
            PBT_CHECK(slots[r.slot].process->bytesAvailable() == 0, "read ", n, " hangs although there are data");
            PBT_CHECK(!r.over, "read ", n, " hangs although the process has ended");
            PBT_CHECK(r.timeout < 0 || vloop::now() - r.start < r.timeout, "read ", n, " did not time out");
        }
        for (std::size_t n = 0; n < writes.size(); ++n) {
            const auto &wr = writes[n];
            PBT_CHECK(wr.done || !wr.result, "write ", n, " hangs although its data were written or the process ended");
        }
        for (std::size_t n = 0; n < flushes.size(); ++n) {
            const auto &f = flushes[n];
            if (f.done) {
                continue;
            }
            PBT_CHECK(!f.immediate && !f.first && !f.over, "wait ", n, " for bytes written hangs");
            PBT_CHECK(f.timeout < 0 || vloop::now() - f.start < f.timeout, "wait ", n, " for bytes written did not time out");
        }
    }
    void drain() {
        vloop::drain();
        invariants();
    }
};

QCoro::Task<> waiter(World &w, int i, bool forStarted, int timeoutIndex, int style) {
    using std::chrono::milliseconds;
    const int timeout = timeouts[timeoutIndex];
    const int n = w.beginWait(i, forStarted, timeout);
    auto *p = w.slots[i].process.get();
    bool r = false;
    if (style == 0) {
        if (timeout == ByDefault) {
            r = forStarted ? co_await qCoro(p).waitForStarted() : co_await qCoro(p).waitForFinished();
        } else {
            r = forStarted ? co_await qCoro(p).waitForStarted(timeout) : co_await qCoro(p).waitForFinished(timeout);
        }
    } else {
        auto task = forStarted ? qCoro(*p).waitForStarted(milliseconds(timeout)) : qCoro(*p).waitForFinished(milliseconds(timeout));
        r = co_await task;
    }
    w.endWait(n, r);
}

enum Program { Existing, Missing, NotExecutable, Fast, Slow, SlowMissing, Programs };

QCoro::Task<> starter(World &w, int i, Program program, int timeoutIndex, int style) {
    using std::chrono::milliseconds;
    const int timeout = timeouts[timeoutIndex];
    auto &s = w.slot(i);
    auto *p = s.process.get();
    const bool running = p->state() != QProcess::NotRunning;
    int fd = -1;
    const QIODevice::OpenMode mode = program == Fast ? QIODevice::OpenMode(QIODevice::ReadOnly)
        : program == Missing                         ? QIODevice::ReadOnly | QIODevice::Text
        : program == NotExecutable                   ? QIODevice::ReadWrite | QIODevice::Text
        : program == Slow                            ? QIODevice::ReadWrite | QIODevice::Unbuffered
                                                     : QIODevice::OpenMode(QIODevice::ReadWrite);
    const auto begun = [&] {
        ::close(fd);
        if (running) {
            return;
        }
        PBT_CHECK(p->state() == QProcess::NotRunning || p->openMode() == mode, "process ", i, " was opened in mode ", static_cast<int>(p->openMode()));
    };
    const auto forked = [&] {
        if (!running) {
            w.forked(i);
            if (program == Fast && s.alive) {
                ++w.fast;
                s.child.send('x', 0);
                w.awaitDeath(i);
            }
        }
    };
    if (!running) {
        w.aboutToStart(i);
        fd = s.child.prepare();
    }
    QString file = childProgram;
    switch (program) {
    case Missing: file = scratch + QStringLiteral("/missing"); break;
    case NotExecutable: file = scratch + QStringLiteral("/file"); break;
    case SlowMissing: file = scratch; break; // a directory
    default: break;
    }
    QStringList args{QString::number(fd)};
    if (!running) {
        s.arguments.clear();
        for (const auto *a : argumentLists[static_cast<std::size_t>(s.starts++ * 3 + timeoutIndex + style * 2) % std::size(argumentLists)]) {
            if (!a) {
                break;
            }
            args << QString::fromUtf8(a);
            s.arguments += a;
            s.arguments += '\0';
        }
    }
    PBT_LOG("start process ", i, " running ", program == Missing ? "a missing program" : program == NotExecutable || program == SlowMissing ? "something not executable" : "the program", program >= Slow ? " (hangs)" : "");
    if (program >= Slow && !running) {
        ++w.slow;
        w.freeze();
    }
    if (style == 0 || running) {
        if (!running) {
            p->start(file, args, mode);
        } else {
            p->start(childProgram, args); // refused
        }
        begun();
    } else {
        if (style == 2) {
            p->setProgram(file);
            p->setArguments(args);
        }
        const bool plain = timeout == ByDefault && mode == QIODevice::ReadWrite;
        auto task = style == 1 ? (plain                  ? qCoro(p).start(file, args)
                                  : timeout == ByDefault ? qCoro(p).start(file, args, mode)
                                                         : qCoro(p).start(file, args, mode, milliseconds(timeout)))
                               : (plain                  ? qCoro(*p).start()
                                  : timeout == ByDefault ? qCoro(*p).start(mode)
                                                         : qCoro(*p).start(mode, milliseconds(timeout)));
        begun();
        const int n = w.beginWait(i, true, timeout);
        forked();
        const bool r = co_await task;
        w.endWait(n, r);
        co_return;
    }
    forked();
}

QCoro::Task<> reader(World &w, int i, int kind, int timeoutIndex, int repeat) {
    using std::chrono::milliseconds;
    for (int k = 0; k <= repeat && !w.ending && w.reads.size() < MaxOps; ++k) {
        const int timeout = kind >= 4 ? -1 : timeouts[timeoutIndex];
        const int n = w.beginRead(i, timeout);
        auto *p = w.slots[i].process.get();
        QByteArray data;
        qint64 max = -1;
        switch (kind) {
        case 0: data = co_await qCoro(p).readAll(milliseconds(timeout)); break;
        case 1: data = co_await qCoro(*p).read(max = 5, milliseconds(timeout)); break;
        case 2: data = co_await qCoro(p).read(max = 5000, milliseconds(timeout)); break;
        case 3: data = co_await qCoro(p).readLine(0, milliseconds(timeout)); break;
        default: data = co_await qCoro(*p).readAll(); break;
        }
        w.endRead(n, data, max);
        if (w.reads[n].over || data.isEmpty() || current->failed()) {
            co_return;
        }
    }
}

QCoro::Task<> writer(World &w, int i, int size, int style) {
    auto &s = w.slot(i);
    QByteArray data(size, Qt::Uninitialized);
    for (auto &c : data) {
        c = static_cast<char>(s.next++ % 253);
    }
    auto *p = s.process.get();
    const int n = w.beginWrite(i, data);
    if (style == 0) {
        w.endWrite(n, co_await qCoro(p).write(data));
    } else {
        auto task = qCoro(*p).write(QByteArray(data.constData(), data.size()));
        data.fill('x');
        w.endWrite(n, co_await task);
    }
}

QCoro::Task<> flusher(World &w, int i, int timeoutIndex) {
    const int n = w.beginFlush(i, timeouts[timeoutIndex]);
    auto *p = w.slots[i].process.get();
    w.endFlush(n, co_await qCoro(p).waitForBytesWritten(timeouts[timeoutIndex]));
}

enum { OpRelease, OpStart, OpWait, OpOutput, OpExit, OpRead, OpWrite, OpInput, OpFlush, OpCloseOutput, OpAdvance };

void run(const Case &c, Run &run) {
    vloop::setPolling(true);
    auto *wp = new World;
    World &w = *wp;
    for (const auto &op : c.ops) {
        const bool exchange = op.k == OpOutput || op.k == OpWrite || op.k == OpInput || op.k == OpFlush || op.k == OpRead || op.k == OpExit;
        const int i = exchange ? w.running(op.a % Slots) : op.a % Slots;
        auto &s = w.slot(i);
        bool deliver = true;
        if (exchange && op.k != OpRead && op.k != OpFlush) {
            w.release();
        }
        if (exchange && !s.alive && s.process->state() == QProcess::NotRunning && op.c % 2 == 0) {
            starter(w, i, Existing, 0, 0);
            w.drain();
        }
        switch (op.k) {
        case OpRelease: w.release(); break;
        case OpStart: {
            const auto n = w.waits.size();
            starter(w, i, op.a / Slots < 3 ? Existing : static_cast<Program>(op.a / Slots - 2), op.b, op.c % 3);
            PBT_CHECK(n == w.waits.size() || !w.waits[n].immediate || w.waits[n].done, "wait ", n, " did not return at once");
            deliver = op.c / 3;
            break;
        }
        case OpWait:
            if (w.waits.size() < MaxOps) {
                const auto n = w.waits.size();
                waiter(w, i, op.b % 2, op.b / 2, op.c % 2);
                PBT_CHECK(!w.waits[n].immediate || w.waits[n].done, "wait ", n, " did not return at once");
                deliver = op.c / 2;
            }
            break;
        case OpOutput:
            if (s.alive && s.outputOpen) {
                const int n = std::min({sizes[op.b], 20000, s.child.room()});
                w.drain();
                if (!s.alive) {
                    break;
                }
                const unsigned seed = static_cast<unsigned>(s.output.size());
                s.child.command('w', n, seed);
                PBT_LOG("process ", i, " wrote ", n, " bytes");
                for (int k = 0; k < n; ++k) {
                    s.output += static_cast<char>((seed + static_cast<unsigned>(k)) % 251);
                }
                deliver = op.c / 2;
            }
            break;
        case OpCloseOutput:
            if (s.alive && s.outputOpen) {
                PBT_LOG("process ", i, " closes its output");
                s.child.command('c');
                s.outputOpen = false;
                ++w.closedOutput;
            }
            break;
        case OpExit:
            if (s.alive) {
                PBT_LOG("process ", i, op.b < 3 ? " exits" : " is killed");
                switch (op.b) {
                case 0:
                case 1:
                case 2: s.child.send('x', op.b * 5); break;
                case 3: s.child.send('k', SIGSEGV); break;
                case 4: s.process->kill(); break;
                case 5: s.process->terminate(); break;
                }
                w.crashed += op.b >= 3;
                w.awaitDeath(i);
                deliver = op.c / 2;
            }
            break;
        case OpRead:
            if (w.reads.size() < MaxOps) {
                const auto n = w.reads.size();
                reader(w, i, op.b % 5, op.b / 5, op.c % 3);
                PBT_CHECK(!w.reads[n].immediate || w.reads[n].done, "read ", n, " did not return at once");
            }
            break;
        case OpWrite:
            if (w.writes.size() < MaxOps && s.process->bytesToWrite() < 300000) {
                writer(w, i, sizes[op.b], op.c % 2);
                deliver = op.c / 2;
            }
            break;
        case OpInput:
            if (s.alive) {
                bool eof = false;
                s.received += s.child.input(op.b ? 1 << 30 : 5000, eof);
                PBT_CHECK(s.input.startsWith(s.received), "process ", i, " received other data than were written to it");
            }
            break;
        case OpFlush:
            if (w.flushes.size() < MaxOps) {
                const auto n = w.flushes.size();
                flusher(w, i, op.b);
                PBT_CHECK(!w.flushes[n].immediate || w.flushes[n].done, "wait ", n, " for bytes written did not return at once");
                deliver = op.c / 2;
            }
            break;
        case OpAdvance:
            w.drain();
            PBT_LOG("time passes");
            vloop::advance(op.b == 7 ? ByDefault - 10 : op.b * 5);
            break;
        }
        if (deliver) {
            w.drain();
        }
        if (run.failed()) {
            return;
        }
    }
    w.drain();
    w.release();
    w.drain();
    // everything written arrives
    for (int i = 0; i < Slots && !run.failed(); ++i) {
        auto &s = w.slots[i];
        if (s.process && s.alive) {
            s.process->closeWriteChannel();
            bool eof = false;
            for (int k = 0; k < 1000 && !eof && !run.failed(); ++k) {
                w.drain();
                s.received += s.child.input(1 << 30, eof);
            }
            PBT_CHECK(eof, "harness: the input of process ", i, " was not closed");
            PBT_CHECK(s.received == s.input, "process ", i, " received ", s.received.size(), " bytes instead of the ", s.input.size(), " written ones");
            s.child.send('x');
            w.awaitDeath(i);
        }
    }
    w.drain();
    w.ending = true;
    vloop::settle();
    w.invariants();
    for (int i = 0; i < Slots && !run.failed(); ++i) {
        auto &s = w.slots[i];
        if (s.process) {
            PBT_CHECK(s.process->state() == QProcess::NotRunning, "harness: process ", i, " still runs");
            const auto rest = s.process->isReadable() ? s.process->readAll() : QByteArray();
            PBT_CHECK(s.output.mid(s.readPos) == rest, "the output of process ", i, " was lost: read ", s.readPos, ", left ", rest.size(), ", written ", s.output.size());
        }
    }
    for (std::size_t n = 0; n < w.waits.size(); ++n) {
        PBT_CHECK(w.waits[n].done, "wait ", n, " never returned");
    }
    for (std::size_t n = 0; n < w.reads.size(); ++n) {
        PBT_CHECK(w.reads[n].done, "read ", n, " never returned");
    }
    for (std::size_t n = 0; n < w.writes.size(); ++n) {
        PBT_CHECK(w.writes[n].done, "write ", n, " never returned");
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.failed, "failed-to-start");
    tag(w.crashed, "crash");
    tag(w.timedOut, "wait-timed-out");
    tag(w.byEvent, "wait-ended-by-event");
    tag(w.fast, "exited-at-once");
    tag(w.slow, "hanging-start");
    tag(w.restarted, "restarted");
    tag(w.readData, "read-data");
    tag(w.readOver, "read-at-exit");
    tag(w.pendingAtEnd, "pending-read-at-exit");
    tag(w.writeDone, "written");
    tag(w.writeOver, "write-at-exit");
    tag(w.closedOutput, "closed-output");
    if ((w.byEvent && (w.failed || w.crashed || w.timedOut || w.fast)) || w.readData + w.writeDone > 1) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    childProgram = QCoreApplication::applicationDirPath() + QStringLiteral("/C17_child");
    QTemporaryDir dir;
    scratch = dir.path();
    QFile file(scratch + QStringLiteral("/file"));
    file.open(QIODevice::WriteOnly);
    file.close();
    Scenario sc;
    sc.name = "processes";
    sc.rule = "histories of two processes being started (existing, missing and not executable programs, also again), exchanging data, closing "
              "their output, exiting, crashing and being killed, with concurrent waits, reads and writes with and without timeouts; "
              "non-trivial when waits were ended by events next to failures, crashes or timeouts, or data were exchanged several times";
    sc.ops = {{"release", 2, 1},
              {"start", 10, 2 * 8 - 1, 4, 5},
              {"wait", 8, 1, 9, 3},
              {"output", 6, 1, 5, 3},
              {"exit", 4, 1, 5, 3},
              {"read", 8, 1, 19, 2},
              {"write", 5, 1, 6, 3},
              {"input", 4, 1, 1},
              {"flush", 2, 1, 3, 3},
              {"closeOutput", 1, 1},
              {"advance", 3, 0, 7}};
    sc.maxOps = 16;
    sc.minOps = 2;
    sc.quickCases = 6000;
    sc.thoroughCases = 48000;
    sc.run = run;
    return pbt::main(argc, argv, "C17", {sc});
}
