// C14: asynchronous reads return exactly the device's data, and end as documented.
#include "fakedevice.h"
#include "pbt.h"
#include "vloop.h"

#include <qcoroiodevice.h>
#include <qcorotask.h>

#include <QCoreApplication>

#include <array>
#include <deque>
#include <memory>
#include <optional>

using namespace pbt;

namespace {

constexpr int Devices = 2;
constexpr int MaxWaits = 60;
constexpr int Kinds = 6; // readAll, read, readLine, waitForReadyRead, co_await device, co_await pointer
enum Kind { ReadAll, Read, ReadLine, WaitReady, AwaitRef, AwaitPtr };
constexpr int readSizes[] = {3, 1, 7, 0, 100, 20000, 1 << 20};
constexpr int lineSizes[] = {0, 3, 1, 8, 5000, 40000, 1 << 20};
constexpr int timeouts[] = {-1, 10, 0, 25};
constexpr int chunkSizes[] = {3, 1, 10, 2, 200, 6000, 17000, 40000};

struct Device {
    QPointer<FakeDevice> dev;
    bool sequential = true;
    bool open = false, readable = false;
    QByteArray avail; // what the device has to offer
    int incarnation = 0;
};

struct Event {
    bool ready = false; // or closed
    qint64 time = 0;
};

struct Wait {
    int incarnation = 0;
    int slot = 0;
    int kind = 0;
    int arg = 0;
    int timeout = -1;
    qint64 start = 0;
    std::optional<Event> first;
    bool closedLater = false;
    bool immediate = false;
    bool done = false;
};

struct World {
    std::array<Device, Devices> slots;
    std::deque<Wait> waits;
    int incarnations = 0;
    unsigned char next = 0;
    bool ending = false;
    int resumedByData = 0, resumedByClose = 0, timedOut = 0, immediate = 0, destroyed = 0, shared = 0, lines = 0, partial = 0, stolen = 0, notReadable = 0, nested = 0, coincided = 0, binary = 0, textual = 0;

    Device &device(int i) {
        auto &d = slots[i];
        if (!d.dev) {
            create(i, QIODevice::ReadOnly, i == 0);
        }
        return d;
    }
    void create(int i, QIODevice::OpenMode mode, bool sequential) {
        auto &d = slots[i];
        delete d.dev.data();
        d.sequential = sequential;
        d.dev = new FakeDevice(d.sequential);
        d.incarnation = ++incarnations;
        d.avail.clear();
        d.open = d.readable = false;
        if (mode != QIODevice::NotOpen) {
            d.dev->open(mode);
            d.open = true;
            d.readable = mode & QIODevice::ReadOnly;
        }
        PBT_LOG("device ", d.incarnation, " opened with mode ", static_cast<int>(mode), d.sequential ? " sequential" : " random access");
    }
    enum Content { Letters, Binary, CrLf, Blanks };
    void produce(int i, int size, int newlines, int content = Letters) {
        auto &d = device(i);
        if (!d.readable) {
            return;
        }
        QByteArray data;
        for (int k = 0; k < size; ++k) {
            const bool nl = newlines == 0 ? false : newlines == 1 ? next % 5 == 4 : newlines == 2 ? k == size - 1 : next % 2;
            if (nl && content == CrLf) {
                data += '\r';
            }
            data += nl ? '\n' : content == Binary ? static_cast<char>(next * 7 & 0xff) : content == Blanks ? "\0 \t\r"[next % 4] : static_cast<char>('A' + next % 53);
            ++next;
        }
        PBT_LOG("device ", d.incarnation, " gets ", data.size(), " bytes of kind ", content, " at ", vloop::now());
        event(d, true);
        binary += content != Letters;
        d.avail += data;
        d.dev->produce(data);
    }
    void event(const Device &d, bool ready) {
        int n = 0;
        for (auto &wt : waits) {
            if (wt.done || wt.immediate || wt.incarnation != d.incarnation) {
                continue;
            }
            if (!wt.first) {
                wt.first = Event{ready, vloop::now()};
                ++n;
            } else {
                wt.closedLater = wt.closedLater || !ready;
            }
        }
        shared += n > 1;
    }
    void close(int i) {
        auto &d = slots[i];
        if (!d.dev || !d.open) {
            return;
        }
        PBT_LOG("close device ", d.incarnation, " at ", vloop::now());
        event(d, false);
        d.open = d.readable = false;
        d.avail.clear();
        d.dev->close();
    }
    void destroy(int i) {
        auto &d = slots[i];
        if (!d.dev) {
            return;
        }
        PBT_LOG("destroy device ", d.incarnation);
        event(d, false);
        ++destroyed;
        d.open = d.readable = false;
        d.avail.clear();
        auto *raw = d.dev.data();
        d.dev = nullptr;
        delete raw;
    }

    //! What the blocking call returns on a device with the same data
    static QByteArray expected(const Device &d, int kind, int arg) {
        if (d.dev->isTextModeEnabled() && kind != ReadLine) {
            FakeDevice shadow(d.sequential);
            shadow.open(d.dev->openMode());
            shadow.produce(d.avail);
            return kind == Read ? shadow.read(arg) : shadow.readAll();
        }
        switch (kind) {
        case Read: return d.avail.left(arg);
        case ReadLine: {
            FakeDevice shadow(d.sequential);
            shadow.open(d.dev->openMode());
            shadow.produce(d.avail);
            return shadow.readLine(arg);
        }
        default: return d.avail;
        }
    }

    int begin(int i, int kind, int arg, int timeout) {
        auto &d = slots[i];
        Wait wt;
        wt.slot = i;
        wt.incarnation = d.incarnation;
        wt.kind = kind;
        wt.arg = arg;
        wt.timeout = kind == AwaitRef || kind == AwaitPtr ? -1 : timeout;
        wt.start = vloop::now();
        wt.immediate = !d.readable || !d.avail.isEmpty();
        immediate += wt.immediate && d.readable;
        notReadable += !d.readable;
        waits.push_back(wt);
        PBT_LOG("read ", waits.size() - 1, " kind ", kind, " arg ", arg, " timeout ", wt.timeout, " on device ", d.incarnation, " at ", vloop::now());
        return static_cast<int>(waits.size()) - 1;
    }
    void end(int n, const QByteArray &data, bool ready) {
        auto &wt = waits[n];
        PBT_LOG("read ", n, " ended with ", wt.kind == WaitReady ? (ready ? "true" : "false") : data.left(20).toStdString().c_str(), " (", data.size(), ") at ", vloop::now());
        PBT_CHECK(!wt.done, "read ", n, " was resumed twice");
        wt.done = true;
        auto &d = slots[wt.slot];
        const bool gone = d.incarnation != wt.incarnation || !d.dev || !d.readable;
        const QByteArray offered = gone ? QByteArray{} : expected(d, wt.kind, wt.arg);
        const qint64 now = vloop::now();
        bool maybeReady = false, maybeClosed = false, maybeTimeout = false;
        if (wt.immediate) {
            maybeReady = !gone;
            maybeClosed = gone;
        } else {
            maybeReady = wt.first && wt.first->ready;
            maybeClosed = wt.first && (!wt.first->ready || wt.closedLater);
            maybeTimeout = wt.timeout >= 0 && now - wt.start >= wt.timeout && (!wt.first || wt.first->time - wt.start >= wt.timeout);
            PBT_CHECK(maybeReady || maybeClosed || maybeTimeout, "read ", n, " ended although there were neither data, nor was the device closed, nor the timeout over");
            PBT_CHECK(wt.timeout < 0 || now - wt.start <= wt.timeout, "read ", n, " ended only ", now - wt.start, " ms after it began");
            coincided += maybeTimeout && wt.first;
            resumedByData += maybeReady;
            resumedByClose += maybeClosed && !maybeReady;
            timedOut += maybeTimeout && !wt.first;
            stolen += maybeReady && !gone && d.avail.isEmpty();
        }
        const bool text = !gone && d.dev->isTextModeEnabled();
        if (wt.kind == WaitReady) {
            if (ready) {
                PBT_CHECK(maybeReady || (maybeClosed && !gone && !d.avail.isEmpty()), "waitForReadyRead() ", n, " returned true although no data arrived");
            } else {
                PBT_CHECK(maybeClosed || maybeTimeout, "waitForReadyRead() ", n, " returned false although data arrived");
            }
            return;
        }
        if (text) {
            // carriage returns are consumed, but not returned
            const auto left = d.avail.right(d.dev->bytesAvailable());
            textual += data.size() + left.size() < d.avail.size();
            // how much of it is read as a line, and with which carriage returns, depends on what the device has buffered before
            const auto matches = wt.kind == ReadLine ? QByteArray(d.avail).replace('\r', "").startsWith(QByteArray(data).replace('\r', "")) : data == offered;
            PBT_CHECK(matches || (data.isEmpty() && (maybeClosed || maybeTimeout)), "read ", n, " in text mode returned ", data.size(), " bytes instead of ", offered.size());
            d.avail = left;
            return;
        }
        if (data.isEmpty()) {
            PBT_CHECK(offered.isEmpty() || maybeClosed || maybeTimeout, "read ", n, " returned no data, but there are some");
        } else {
            PBT_CHECK(data == offered, "read ", n, " returned ", data.size(), " bytes \"", data.left(40).toStdString(), "\" instead of ", offered.size(), " bytes \"",
                      offered.left(40).toStdString(), "\"");
            if (data == offered) {
                partial += wt.kind == Read && data.size() < d.avail.size();
                lines += wt.kind == ReadLine && data.size() < d.avail.size();
                d.avail.remove(0, data.size());
            }
        }
    }
    void invariants() {
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done) {
                continue;
            }
            PBT_CHECK(!wt.immediate, "read ", n, " did not return at once");
            PBT_CHECK(!wt.first, "read ", n, wt.first->ready ? " did not return although data arrived" : " hangs although its device was closed");
            PBT_CHECK(wt.timeout < 0 || vloop::now() - wt.start < wt.timeout, "read ", n, " did not time out");
        }
        for (const auto &d : slots) {
            if (d.dev && d.readable) {
                PBT_CHECK(d.dev->bytesAvailable() == d.avail.size(), "the device has ", d.dev->bytesAvailable(), " bytes left instead of ", d.avail.size());
            }
        }
    }
};

QCoro::Task<> reader(World &w, int i, int kind, int size, int timeout, int style, int repeat, int react);

void start(World &w, int i, int kind, int size, int timeout, int style, int repeat, int react) {
    if (w.waits.size() >= MaxWaits) {
        return;
    }
    w.device(i);
    const auto n = w.waits.size();
    reader(w, i, kind, size, timeout, style, repeat, react);
    PBT_CHECK(!w.waits[n].immediate || w.waits[n].done, "read ", n, " did not return at once");
}

QCoro::Task<> reader(World &w, int i, int kind, int size, int timeoutIndex, int style, int repeat, int react) {
    using namespace std::chrono;
    for (int k = 0; k <= repeat && w.waits.size() < MaxWaits && !w.ending; ++k) {
        auto *dev = w.device(i).dev.data();
        const int timeout = timeouts[timeoutIndex];
        const int arg = kind == Read ? readSizes[size] : kind == ReadLine ? lineSizes[size] : 0;
        const int n = w.begin(i, kind, arg, timeout);
        QByteArray data;
        bool ready = false;
        switch (kind) {
        case ReadAll:
            if (style == 0) {
                data = co_await qCoro(dev).readAll(milliseconds(timeout));
            } else {
                // the wrapper is gone when the coroutine is resumed
                auto task = timeout < 0 ? qCoro(*dev).readAll() : qCoro(*dev).readAll(milliseconds(timeout));
                data = co_await task;
            }
            break;
        case Read:
            if (style == 0) {
                data = co_await qCoro(dev).read(arg, milliseconds(timeout));
            } else {
                auto task = timeout < 0 ? qCoro(*dev).read(arg) : qCoro(*dev).read(arg, milliseconds(timeout));
                data = co_await task;
            }
            break;
        case ReadLine:
            if (style == 0) {
                data = co_await qCoro(dev).readLine(arg, milliseconds(timeout));
            } else {
                auto task = timeout >= 0 ? qCoro(*dev).readLine(arg, milliseconds(timeout)) : arg != 0 ? qCoro(*dev).readLine(arg) : qCoro(*dev).readLine();
                data = co_await task;
            }
            break;
        case WaitReady:
            if (style == 0) {
                ready = co_await qCoro(dev).waitForReadyRead(timeout);
            } else {
                auto task = qCoro(*dev).waitForReadyRead(milliseconds(timeout));
                ready = co_await task;
            }
            break;
        case AwaitRef: data = co_await *dev; break;
        default: data = co_await dev; break;
        }
        w.end(n, data, ready);
        if (current->failed()) {
            co_return;
        }
        if (react != 0 && k == 0 && !w.ending) {
            ++w.nested;
            switch (react) {
            case 1: w.produce(i, 4, 1); break;
            case 2: w.close(i); break;
            case 3: start(w, i, ReadAll, 0, 0, 0, 0, 0); break;
            default: start(w, i, ReadLine, 0, 1, 0, 0, 0); break;
            }
        }
    }
}

enum { OpRead, OpProduce, OpClose, OpOpen, OpDestroy, OpAdvance };

void run(const Case &c, Run &run) {
    auto *wp = new World;
    World &w = *wp;
    for (const auto &op : c.ops) {
        switch (op.k) {
        case OpRead: start(w, op.a % Devices, op.a / Devices, op.b % 7, op.b / 7 % 4, op.b / 28, op.c % 4, op.c / 4); break;
        case OpProduce: w.produce(op.a % Devices, chunkSizes[op.b], op.c % 4, op.a / Devices); break;
        case OpClose: w.close(op.a); break;
        case OpOpen: {
            static const QIODevice::OpenMode modes[] = {QIODevice::ReadOnly, QIODevice::ReadWrite, QIODevice::ReadOnly | QIODevice::Unbuffered, QIODevice::WriteOnly, QIODevice::NotOpen, QIODevice::ReadOnly | QIODevice::Text, QIODevice::ReadWrite | QIODevice::Text | QIODevice::Unbuffered};
            auto &d = w.slots[op.a];
            if (d.dev && d.open) {
                w.close(op.a);
            }
            if (op.c % 2 == 0 || !d.dev || op.b == 4) {
                w.destroy(op.a);
                w.create(op.a, modes[op.b], op.c / 2 % 2 == 0);
            } else {
                PBT_LOG("reopen device ", d.incarnation);
                d.dev->open(modes[op.b]);
                d.open = true;
                d.readable = modes[op.b] & QIODevice::ReadOnly;
            }
            break;
        }
        case OpDestroy: w.destroy(op.a); break;
        case OpAdvance: vloop::advance(op.a == 7 ? 100'000 : op.a * 5); break;
        }
        // several things may happen before the event loop gets to run
        const bool deliver = op.k == OpRead || op.k == OpAdvance || (op.k == OpProduce ? op.c < 5 : op.k == OpOpen ? op.c < 4 : op.c == 0);
        if (deliver) {
            vloop::drain();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    vloop::drain();
    w.invariants();
    vloop::advance(1'000'000);
    w.invariants();
    w.ending = true;
    for (int i = 0; i < Devices && !run.failed(); ++i) {
        w.destroy(i);
    }
    vloop::settle();
    w.invariants();
    for (std::size_t n = 0; n < w.waits.size() && !run.failed(); ++n) {
        PBT_CHECK(w.waits[n].done, "read ", n, " was never resumed");
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.resumedByData, "waited-for-data");
    tag(w.resumedByClose, "ended-by-close");
    tag(w.timedOut, "timed-out");
    tag(w.immediate, "data-available-at-once");
    tag(w.destroyed > 2, "device-destroyed");
    tag(w.shared, "several-readers");
    tag(w.stolen, "data-taken-by-other-reader");
    tag(w.lines, "line-of-more");
    tag(w.partial, "partial-read");
    tag(w.notReadable, "not-readable");
    tag(w.nested, "acted-from-reader");
    tag(w.binary, "binary-data");
    tag(w.textual, "text-mode");
    tag(w.coincided, "event-at-timeout");
    if (w.resumedByData && (w.shared || w.lines || w.partial || w.nested || w.resumedByClose || w.timedOut)) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
    }
}

} // namespace

int main(int argc, char **argv) {
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "reads";
    sc.rule = "histories of data arriving in chunks on sequential and random-access devices, being closed, reopened or destroyed, against "
              "coroutines reading in all ways, with and without timeouts and reacting to what they read; non-trivial when somebody waited "
              "for data and there were several readers, partial reads, reactions, closes or timeouts";
    sc.ops = {{"read", 10, Devices * Kinds - 1, 55, 19},
              {"data", 9, Devices * 4 - 1, 7, 7},
              {"close", 2, Devices - 1, 0, 1},
              {"open", 2, Devices - 1, 6, 7},
              {"destroy", 1, Devices - 1, 0, 1},
              {"advance", 3, 7}};
    sc.maxOps = 20;
    sc.minOps = 2;
    sc.quickCases = 70000;
    sc.thoroughCases = 600000;
    sc.run = run;
    return pbt::main(argc, argv, "C14", {sc});
}
