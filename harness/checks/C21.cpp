// C21: awaiting a network reply resumes once it finished; its body reads back intact.
//
// "fake": a QNetworkReply subclass makes every order of body chunks, errors, completion, closing and destruction
// reachable; what awaits are allowed and obliged to do is derived from the recorded events.
// "real": replies of a QNetworkAccessManager for data: and file: URLs.
#include "pbt.h"
#include "vloop.h"

#include <qcoronetworkreply.h>
#include <qcorotask.h>

#include <QBuffer>
#include <QCoreApplication>
#include <QFile>
#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QTemporaryDir>

#include <deque>
#include <memory>

using namespace pbt;
using std::chrono::milliseconds;

namespace {

constexpr int timeouts[] = {-1, 10, 0, 25};
constexpr int sizes[] = {5, 1, 40, 3000, 20000};
constexpr int MaxTasks = 40;
constexpr int Slots = 2;

QByteArray body(int from, int n, int slot) {
    QByteArray data(n, Qt::Uninitialized);
    for (int k = 0; k < n; ++k) {
        const int p = from + k;
        data[k] = p % 11 == 7 ? '\n' : static_cast<char>((p * 7 + slot) % 251);
    }
    return data;
}

class FakeReply : public QNetworkReply {
public:
    explicit FakeReply(bool unbuffered) {
        setOpenMode(unbuffered ? ReadOnly | Unbuffered : ReadOnly);
        setOperation(QNetworkAccessManager::GetOperation);
    }
    qint64 bytesAvailable() const override { return mIn.size() + QNetworkReply::bytesAvailable(); }
    bool isSequential() const override { return true; }
    void produce(const QByteArray &data, bool announce) {
        mIn += data;
        if (announce) {
            Q_EMIT readyRead();
        }
    }
    void header() { Q_EMIT metaDataChanged(); }
    void progress() { Q_EMIT downloadProgress(mIn.size(), -1); }
    void fail(NetworkError e) {
        setError(e, QStringLiteral("failed"));
        Q_EMIT errorOccurred(e);
    }
    void finish() {
        setFinished(true);
        Q_EMIT readChannelFinished();
        Q_EMIT finished();
    }
    void abort() override {
        if (!isFinished()) {
            fail(OperationCanceledError);
            finish();
        }
    }

protected:
    qint64 readData(char *data, qint64 maxSize) override {
        const qint64 n = std::min<qint64>(maxSize, mIn.size());
        std::copy_n(mIn.constData(), n, data);
        mIn.remove(0, n);
        return n == 0 && isFinished() ? -1 : n;
    }

private:
    QByteArray mIn;
};

enum Kind { Await, Finished, ReadAll, ReadSome, ReadLine, ReadyRead, BytesWritten, Kinds };
constexpr const char *kindNames[] = {"co_await", "waitForFinished", "readAll", "read", "readLine", "waitForReadyRead", "waitForBytesWritten"};

struct Task {
    Kind kind = Await;
    int slot = 0;
    int generation = 0;
    int timeout = -1;
    qint64 start = 0;
    bool immediate = false;
    bool mustEnd = false; // finished or failed since it was started
    bool data = false;    // data was announced
    bool gone = false;    // the reply was destroyed
    bool closed = false;
    bool done = false;

    bool reads() const { return kind >= ReadAll && kind <= ReadyRead; }
};

struct World {
    struct Slot {
        std::unique_ptr<FakeReply> reply;
        int produced = 0;
        int readPos = 0;
        bool finished = false;
        bool closed = false;
        bool silent = false; // the last data has not been announced
    };
    Slot slots[Slots];
    std::deque<Task> tasks;
    int generation = 0;
    bool ending = false;
    int waited = 0, chunksRead = 0, timedOut = 0;
    bool destroyed = false;

    int available(int i) const { return slots[i].produced - slots[i].readPos; }

    void create(int i, bool unbuffered) {
        auto &s = slots[i];
        destroy(i);
        s = Slot{};
        s.reply = std::make_unique<FakeReply>(unbuffered);
        auto *r = s.reply.get();
        // Recorded before anything else hears of it
        QObject::connect(r, &QNetworkReply::finished, r, [this, i] {
            slots[i].finished = true;
            PBT_LOG("reply ", i, " is finished at ", vloop::now());
            each(i, [](Task &t) { t.mustEnd = true; });
        });
        QObject::connect(r, &QNetworkReply::errorOccurred, r, [this, i] {
            PBT_LOG("reply ", i, " fails at ", vloop::now());
            each(i, [](Task &t) { t.mustEnd |= t.kind != Await && t.kind != Finished; });
        });
        QObject::connect(r, &QNetworkReply::readyRead, r, [this, i] { each(i, [](Task &t) { t.data = true; }); });
    }
    void destroy(int i) {
        auto &s = slots[i];
        if (s.reply) {
            PBT_LOG("reply ", i, " is destroyed");
            each(i, [this](Task &t) { t.gone = destroyed = true; });
            s.reply.reset();
        }
    }
    template<typename F>
    void each(int i, F &&f) {
        for (auto &t : tasks) {
            if (!t.done && t.slot == i && !t.gone) {
                f(t);
            }
        }
    }

    //! Whether a task is to return at once
    bool immediate(const Task &t) const {
        const auto &s = slots[t.slot];
        switch (t.kind) {
        case Await:
        case Finished:
            return s.reply->isFinished();
        case BytesWritten: return true; // there is nothing to write
        default: return s.reply->isFinished() || available(t.slot) > 0 || s.closed;
        }
    }

    QCoro::Task<> start(Kind kind, int i, int timeout, int size, int style) {
        const auto index = tasks.size();
        auto &t = tasks.emplace_back();
        t.kind = kind;
        t.slot = i;
        t.timeout = kind == Await ? -1 : timeout;
        t.start = vloop::now();
        t.closed = slots[i].closed;
        t.immediate = immediate(t);
        PBT_LOG(kindNames[kind], " ", index, " on reply ", i, ", timeout ", t.timeout, " at ", t.start);
        auto *reply = slots[i].reply.get();
        const auto ms = milliseconds(t.timeout);
        const auto check = [&](bool ready) {
            waited += !ready;
            PBT_CHECK(ready == tasks[index].immediate || tasks[index].closed, kindNames[kind], " ", index,
                      ready ? " returned at once" : " did not return at once");
        };
        switch (kind) {
        case Await: {
            auto task = awaited(reply);
            check(task.isReady());
            QNetworkReply *result = co_await task;
            if (finish(index)) {
                PBT_CHECK(tasks[index].gone ? result == nullptr : result == reply, "awaiting the reply returned another one");
                PBT_CHECK(tasks[index].gone || reply->isFinished(), "awaiting reply ", i, " returned before it finished");
                if (!tasks[index].gone && !tasks[index].immediate && style == 2) {
                    current->tag("reply destroyed by its awaiter");
                    destroy(i);
                }
            }
            break;
        }
        case Finished: {
            auto task = style == 0 ? (ms.count() < 0 ? qCoro(reply).waitForFinished() : qCoro(reply).waitForFinished(ms)) : style == 1 ? qCoro(*reply).waitForFinished(ms) : qCoro(static_cast<QNetworkReply *>(reply)).waitForFinished(ms);
            check(task.isReady());
            const bool result = co_await task;
            if (finish(index) && !tasks[index].gone) {
                if (result) {
                    PBT_CHECK(reply->isFinished(), "waitForFinished() on reply ", i, " returned before it finished");
                } else {
                    const auto &t = tasks[index];
                    PBT_CHECK(!t.immediate, "waitForFinished() ", index, " returned false although the reply had finished");
                    PBT_CHECK(t.timeout >= 0 && vloop::now() >= t.start + t.timeout, "waitForFinished() ", index, " returned false without a timeout");
                    ++timedOut;
                }
            }
            break;
        }
        case ReadyRead: {
            auto task = style == 0 ? qCoro(*reply).waitForReadyRead(ms) : qCoro(reply).waitForReadyRead(static_cast<int>(ms.count()));
            check(task.isReady());
            const bool result = co_await task;
            if (finish(index) && !tasks[index].gone) {
                const auto &t = tasks[index];
                PBT_LOG("waitForReadyRead ", index, " returned ", result);
                PBT_CHECK(result || mayEnd(t), "waitForReadyRead() ", index, " returned false without a reason");
                PBT_CHECK(!result || t.data || t.mustEnd || t.immediate || available(i) > 0, "waitForReadyRead() ", index, " returned true without a reason");
                PBT_CHECK(result || available(i) == 0 || expired(t) || t.closed, "waitForReadyRead() ", index, " returned false although there is something to read");
            }
            break;
        }
        case BytesWritten: {
            auto task = qCoro(reply).waitForBytesWritten(ms);
            check(task.isReady());
            const auto result = co_await task;
            if (finish(index) && !tasks[index].gone) {
                PBT_CHECK(result.value_or(0) == 0, "waitForBytesWritten() ", index, " reports bytes written");
                PBT_CHECK(mayEnd(tasks[index]), "waitForBytesWritten() ", index, " returned without a reason");
            }
            break;
        }
        default: {
            auto task = kind == ReadAll ? qCoro(reply).readAll(ms) : kind == ReadSome ? qCoro(*reply).read(size, ms) : qCoro(reply).readLine(size, ms);
            check(task.isReady());
            const QByteArray result = co_await task;
            if (finish(index) && !tasks[index].gone) {
                const auto &t = tasks[index];
                auto &s = slots[i];
                const auto left = body(s.readPos, available(i), i);
                PBT_LOG(kindNames[kind], " ", index, " got ", result.size(), " of ", left.size(), " bytes");
                PBT_CHECK(left.startsWith(result), kindNames[kind], " ", index, " returned other data than the body at ", s.readPos);
                PBT_CHECK(kind == ReadAll || result.size() <= size, kindNames[kind], " ", index, " returned too much");
                auto expected = kind == ReadAll ? left : left.left(size);
                if (kind == ReadLine) {
                    QBuffer shadow;
                    shadow.setData(left);
                    shadow.open(QIODevice::ReadOnly);
                    expected = shadow.readLine(size);
                }
                PBT_CHECK(!left.isEmpty() || mayEnd(t) || t.data, kindNames[kind], " ", index, " returned nothing without a reason");
                PBT_CHECK(result.size() == expected.size() || (result.isEmpty() && (expired(t) || t.closed)), kindNames[kind], " ", index,
                          " returned ", result.size(), " bytes instead of ", expected.size());
                timedOut += result.isEmpty() && expired(t);
                chunksRead += !result.isEmpty();
                s.readPos += static_cast<int>(result.size());
            }
        }
        }
    }
    QCoro::Task<QNetworkReply *> awaited(QNetworkReply *reply) {
        auto *result = co_await reply;
        co_return result;
    }
    bool expired(const Task &t) const { return t.timeout >= 0 && vloop::now() >= t.start + t.timeout; }
    bool mayEnd(const Task &t) const { return t.mustEnd || t.immediate || expired(t) || t.closed; }
    bool finish(std::size_t index) {
        auto &t = tasks[index];
        PBT_CHECK(!t.done, kindNames[t.kind], " ", index, " returned twice");
        t.done = true;
        PBT_LOG(kindNames[t.kind], " ", index, " returned at ", vloop::now());
        return !ending;
    }
    void invariants() {
        if (current->failed()) {
            return;
        }
        for (std::size_t k = 0; k < tasks.size(); ++k) {
            const auto &t = tasks[k];
            if (t.done || t.gone) {
                continue;
            }
            PBT_CHECK(!t.mustEnd, kindNames[t.kind], " ", k, " hangs although the reply has finished or failed");
            PBT_CHECK(!t.reads() || !t.data, kindNames[t.kind], " ", k, " hangs although data have arrived");
            PBT_CHECK(t.timeout < 0 || vloop::now() <= t.start + t.timeout, kindNames[t.kind], " ", k, " did not time out");
        }
    }
};

enum { Create, Start, Produce, Fail, Finish, Abort, Close, Destroy, Advance, Drain, Header };

void runFake(const Case &c, Run &r) {
    vloop::resetTimers();
    auto *world = new World;
    auto &w = *world;
    for (int i = 0; i < Slots; ++i) {
        w.create(i, c.cfg[0]);
    }
    for (const auto &op : c.ops) {
        const int i = op.a % Slots;
        auto &s = w.slots[i];
        if (!s.reply && op.k != Create && op.k != Advance) {
            continue;
        }
        switch (op.k) {
        case Create: w.create(i, op.b % 2); break;
        case Start: {
            const auto kind = static_cast<Kind>(op.a / Slots % Kinds);
            if (w.tasks.size() < MaxTasks) {
                w.start(kind, i, timeouts[op.b % 4], sizes[op.b / 4 % 5], op.b % 3);
            }
            break;
        }
        case Produce:
            if (!s.finished && !s.closed) {
                const int n = sizes[op.b % 5];
                const auto data = body(s.produced, n, i);
                s.produced += n;
                s.silent = op.b >= 5 * 3;
                PBT_LOG("reply ", i, " receives ", n, " bytes", s.silent ? " silently" : "");
                s.reply->produce(data, !s.silent);
                r.tag(s.silent ? "data without readyRead()" : "data");
            }
            break;
        case Fail:
            if (!s.finished) {
                s.reply->fail(op.b % 2 ? QNetworkReply::RemoteHostClosedError : QNetworkReply::ContentNotFoundError);
                r.tag("error");
            }
            break;
        case Finish:
            if (!s.finished) {
                if (op.b % 3 == 2) {
                    s.reply->fail(QNetworkReply::UnknownServerError);
                }
                s.reply->finish();
                r.tag("finished");
            }
            break;
        case Abort:
            s.reply->abort();
            r.tag("aborted");
            break;
        case Close:
            // as QNetworkAccessManager's replies do
            if (!s.closed) {
                PBT_LOG("reply ", i, " is closed");
                s.closed = true;
                w.each(i, [](Task &t) { t.closed = true; });
                s.reply->abort();
                s.reply->close();
                s.produced = s.readPos;
            }
            break;
        case Destroy: w.destroy(i); break;
        case Advance: vloop::drain(); vloop::advance(op.b == 5 ? 100'000 : 1 + op.b * 5); break;
        case Header: op.b % 2 ? s.reply->header() : s.reply->progress(); break;
        default: break;
        }
        if (op.c) {
            vloop::drain();
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    vloop::drain();
    w.invariants();
    if (r.failed()) {
        return;
    }
    if (w.waited > 0) {
        r.tag("waited");
    }
    if (w.timedOut > 0) {
        r.tag("timed out");
    }
    if (w.chunksRead >= 2) {
        r.tag("several chunks read");
    }
    if (w.destroyed) {
        r.tag("reply destroyed while awaited");
    }
    if (w.waited >= 2) {
        r.nontrivial();
    }
    for (int i = 0; i < Slots; ++i) {
        auto &s = w.slots[i];
        if (s.reply && !s.finished) {
            s.reply->finish();
        }
        vloop::drain();
        w.invariants();
        // The rest of the body is still there
        if (s.reply && !s.closed && !r.failed()) {
            w.start(ReadAll, i, -1, 0, 0);
            PBT_CHECK(w.available(i) == 0, "the rest of the body of reply ", i, " is lost");
        }
    }
    vloop::advance(1'000'000);
    w.invariants();
    if (r.failed()) {
        return;
    }
    w.ending = true;
    for (auto &s : w.slots) {
        s.reply.reset();
    }
    vloop::drain();
    bool leak = false;
    for (const auto &t : w.tasks) {
        leak |= !t.done;
    }
    if (!leak) {
        delete world;
    }
}

// --- replies of a QNetworkAccessManager ---

QString scratch;
QNetworkAccessManager *manager = nullptr;

struct RealTask {
    bool done = false;
    bool finishedAtStart = false;
};

struct RealWorld {
    struct Slot {
        QNetworkReply *reply = nullptr;
        QByteArray content;
        bool aborted = false;
        bool fails = false;
        int readers = 0;
        QByteArray got;
    };
    std::deque<Slot> slots;
    std::deque<RealTask> tasks;
    int pending = 0;

    QCoro::Task<> await(std::size_t index, int style) {
        auto &s = slots[index];
        auto &t = tasks.emplace_back();
        t.finishedAtStart = s.reply->isFinished();
        ++pending;
        switch (style) {
        case 0: {
            auto *reply = co_await s.reply;
            PBT_CHECK(reply == s.reply, "awaiting the reply returned another one");
            break;
        }
        case 1: {
            const bool result = co_await qCoro(s.reply).waitForFinished();
            PBT_CHECK(result, "waitForFinished() without a timeout returned false");
            break;
        }
        default: {
            // reads until the end
            for (;;) {
                const auto data = style == 2 ? co_await qCoro(s.reply).readAll() : co_await qCoro(s.reply).read(100);
                s.got += data;
                if (data.isEmpty() && s.reply->isFinished()) {
                    break;
                }
            }
        }
        }
        --pending;
        PBT_CHECK(!t.done, "an awaiter was resumed twice");
        t.done = true;
        PBT_CHECK(s.reply->isFinished(), "an awaiter was resumed before the reply finished");
    }
};

void runReal(const Case &c, Run &r) {
    vloop::resetTimers();
    auto *world = new RealWorld;
    auto &w = *world;
    for (const auto &op : c.ops) {
        switch (op.k) {
        case 0: { // request
            if (w.slots.size() >= 6) {
                break;
            }
            auto &s = w.slots.emplace_back();
            const int n = sizes[op.b % 5];
            s.content = body(0, n, op.a);
            QUrl url;
            switch (op.a) {
            case 0: url = QUrl(QStringLiteral("data:application/octet-stream;base64,") + QString::fromLatin1(s.content.toBase64())); break;
            case 1: {
                const auto path = scratch + QLatin1Char('/') + QString::number(w.slots.size());
                QFile f(path);
                if (!f.open(QIODevice::WriteOnly) || f.write(s.content) != n) {
                    pbt::abandon("harness: cannot write a file");
                }
                url = QUrl::fromLocalFile(path);
                break;
            }
            case 2: url = QUrl::fromLocalFile(scratch + QStringLiteral("/missing")); s.fails = true; break;
            default: url = QUrl(QStringLiteral("nosuchscheme:content")); s.fails = true; break;
            }
            s.reply = manager->get(QNetworkRequest(url));
            r.tag(str("kind of reply ", op.a));
            break;
        }
        case 1: // await
            if (!w.slots.empty() && w.tasks.size() < MaxTasks) {
                const auto index = static_cast<std::size_t>(op.a) % w.slots.size();
                if (op.b >= 2) {
                    if (w.slots[index].readers++) {
                        break; // a single reader
                    }
                    r.tag("read");
                }
                r.tag(w.slots[index].reply->isFinished() ? "finished before it is awaited" : "finished later");
                w.await(index, op.b);
            }
            break;
        case 2:
            if (!w.slots.empty()) {
                auto &s = w.slots[static_cast<std::size_t>(op.a) % w.slots.size()];
                s.aborted = true;
                s.reply->abort();
                r.tag("aborted");
            }
            break;
        default: op.b ? vloop::drain() : vloop::step(); break;
        }
        if (r.failed()) {
            return;
        }
    }
    vloop::settle(1000);
    if (r.failed()) {
        return;
    }
    PBT_CHECK(w.pending == 0, w.pending, " awaiters hang although the replies have finished");
    for (auto &s : w.slots) {
        PBT_CHECK(s.aborted || s.reply->isFinished(), "harness: the reply did not finish");
        if (!s.aborted && !s.fails && s.readers > 0) {
            PBT_CHECK(s.got == s.content, "the body was not read back intact");
        }
    }
    if (r.failed()) {
        return;
    }
    if (w.tasks.size() >= 2) {
        r.nontrivial();
    }
    for (auto &s : w.slots) {
        delete s.reply;
    }
    vloop::drain();
    delete world;
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    vloop::setGraceMs(0);
    QTemporaryDir dir;
    scratch = dir.path();
    QNetworkAccessManager nam;
    manager = &nam;
    Scenario fake;
    fake.name = "fake";
    fake.rule = "at least two operations had to wait";
    fake.cfg = {{"unbuffered", 1}};
    fake.ops = {
        {"create", 1, Slots - 1, 1, 1},
        {"start", 12, Slots * Kinds - 1, 19, 1},
        {"produce", 8, Slots - 1, 19, 1},
        {"fail", 1, Slots - 1, 1, 1},
        {"finish", 3, Slots - 1, 2, 1},
        {"abort", 1, Slots - 1, 0, 1},
        {"close", 1, Slots - 1, 0, 1},
        {"destroy", 1, Slots - 1, 0, 1},
        {"advance", 4, 0, 5, 1},
        {"drain", 2, 0, 0, 1},
        {"header", 1, Slots - 1, 1, 1},
    };
    fake.maxOps = 24;
    fake.quickCases = 30000;
    fake.thoroughCases = 250000;
    fake.run = runFake;
    Scenario real;
    real.name = "real";
    real.rule = "at least two coroutines awaited a reply";
    real.ops = {
        {"request", 4, 3, 4, 0},
        {"await", 8, 5, 3, 0},
        {"abort", 1, 5, 0, 0},
        {"deliver", 4, 0, 1, 0},
    };
    real.maxOps = 16;
    real.quickCases = 4000;
    real.thoroughCases = 40000;
    real.run = runReal;
    return pbt::main(argc, argv, "C21", {fake, real});
}
