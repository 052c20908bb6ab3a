// C15: asynchronous writes finish once the data is written and report how much was.
#include "fakedevice.h"
#include "pbt.h"
#include "vloop.h"

#include <qcoroiodevice.h>
#include <qcorotask.h>

#include <QBuffer>
#include <QCoreApplication>

#include <array>
#include <deque>
#include <memory>
#include <optional>

using namespace pbt;

namespace {

constexpr int Devices = 2;
constexpr int MaxOps = 60;
constexpr int sizes[] = {10, 1, 3, 0, 64, 1000, 20000, 70000};
constexpr int timeouts[] = {-1, 10, 0, 25};

struct Device {
    QPointer<FakeDevice> dev;
    FakeDevice::WriteMode mode = FakeDevice::Buffered;
    bool writable = false;
    int incarnation = 0;
    QByteArray out; // what must have been handed to the device
    qint64 confirmed = 0; // in total
    qint64 pending = 0;
};

struct Write {
    int slot = 0, incarnation = 0;
    qint64 accepted = 0;
    qint64 target = 0; // finished when that much is confirmed
    bool immediate = false;
    bool closed = false;
    qint64 result = 0; // once it is known
    bool finished = false;
    bool done = false;
};

struct Wait {
    int slot = 0, incarnation = 0;
    int timeout = -1;
    qint64 start = 0;
    std::optional<std::optional<qint64>> immediate;
    std::optional<qint64> first; // first chunk, 0 when closed
    qint64 firstTime = 0;
    bool closed = false;
    bool done = false;
};

struct World {
    std::array<Device, Devices> slots;
    std::deque<Write> writes;
    std::deque<Wait> waits;
    int incarnations = 0;
    unsigned next = 0;
    bool ending = false;
    int multi = 0, sync = 0, closedWrites = 0, concurrent = 0, chunksAtOnce = 0, timedOut = 0, waited = 0, partial = 0, failing = 0, notWritable = 0, nested = 0, coincided = 0, overlapChunk = 0;

    Device &device(int i) {
        if (!slots[i].dev) {
            create(i, QIODevice::ReadWrite, FakeDevice::Buffered, true);
        }
        return slots[i];
    }
    void create(int i, QIODevice::OpenMode mode, FakeDevice::WriteMode wm, bool sequential) {
        destroy(i);
        auto &d = slots[i];
        d = Device{};
        d.dev = new FakeDevice(sequential, wm);
        d.mode = wm;
        d.incarnation = ++incarnations;
        if (mode != QIODevice::NotOpen) {
            d.dev->open(mode);
        }
        d.writable = mode & QIODevice::WriteOnly;
        PBT_LOG("device ", d.incarnation, " mode ", static_cast<int>(mode), " write mode ", wm);
    }
    void ended(Device &d) {
        for (auto &wr : writes) {
            if (!wr.finished && wr.incarnation == d.incarnation) {
                wr.finished = wr.closed = true;
                wr.result = std::clamp<qint64>(d.confirmed - (wr.target - wr.accepted), 0, wr.accepted);
                ++closedWrites;
            }
        }
        for (auto &wt : waits) {
            if (!wt.done && !wt.immediate && wt.incarnation == d.incarnation) {
                wt.closed = true;
                if (!wt.first) {
                    wt.first = 0;
                    wt.firstTime = vloop::now();
                }
            }
        }
        d.writable = false;
        d.pending = 0;
    }
    void close(int i) {
        auto &d = slots[i];
        if (d.dev && d.dev->isOpen()) {
            PBT_LOG("close device ", d.incarnation);
            ended(d);
            d.dev->close();
        }
    }
    void destroy(int i) {
        auto &d = slots[i];
        if (d.dev) {
            PBT_LOG("destroy device ", d.incarnation);
            ended(d);
            auto *raw = d.dev.data();
            d.dev = nullptr;
            delete raw;
        }
    }
    void confirm(int i, qint64 n) {
        auto &d = slots[i];
        n = std::min(n, d.pending);
        if (!d.dev || n == 0) {
            return;
        }
        PBT_LOG("device ", d.incarnation, " confirms ", n, " of ", d.pending, " bytes at ", vloop::now());
        d.pending -= n;
        d.confirmed += n;
        int hit = 0;
        for (auto &wr : writes) {
            if (!wr.finished && wr.incarnation == d.incarnation) {
                if (d.confirmed >= wr.target) {
                    wr.finished = true;
                    wr.result = wr.accepted;
                    overlapChunk += ++hit > 1;
                } else {
                    ++multi;
                }
            }
        }
        for (auto &wt : waits) {
            if (!wt.done && !wt.immediate && wt.incarnation == d.incarnation && !wt.first) {
                wt.first = n;
                wt.firstTime = vloop::now();
            }
        }
        PBT_CHECK(d.dev->confirm(n) == n, "harness: device model mismatch");
    }
    int beginWrite(int i, qint64 size) {
        auto &d = slots[i];
        Write wr;
        wr.slot = i;
        wr.incarnation = d.incarnation;
        wr.accepted = !d.writable || d.mode == FakeDevice::Failing ? 0 : d.mode == FakeDevice::Partial ? (size + 1) / 2 : size;
        partial += d.mode == FakeDevice::Partial && size > 1;
        failing += d.mode == FakeDevice::Failing;
        notWritable += !d.writable;
        const bool synchronous = d.mode == FakeDevice::Synchronous || d.mode == FakeDevice::SynchronousQueued;
        for (const auto &o : writes) {
            concurrent += !o.finished && o.incarnation == d.incarnation;
        }
        if (!synchronous) {
            d.pending += wr.accepted;
        }
        wr.target = d.confirmed + d.pending;
        // nothing is pending: there is nothing to wait for
        if (d.pending == 0 || wr.accepted == 0) {
            wr.immediate = wr.finished = true;
            wr.result = wr.accepted;
            sync += wr.accepted > 0;
        }
        writes.push_back(wr);
        PBT_LOG("write ", writes.size() - 1, " of ", size, " bytes to device ", d.incarnation, " (", wr.accepted, " accepted)");
        return static_cast<int>(writes.size()) - 1;
    }
    void endWrite(int n, qint64 result) {
        auto &wr = writes[n];
        PBT_LOG("write ", n, " ended with ", result);
        PBT_CHECK(!wr.done, "write ", n, " was resumed twice");
        wr.done = true;
        PBT_CHECK(wr.finished, "write ", n, " returned before its data were written");
        if (wr.accepted == 0) {
            PBT_CHECK(result <= 0, "write ", n, " returned ", result, " although nothing was accepted");
        } else {
            PBT_CHECK(result == wr.result, "write ", n, " returned ", result, " instead of ", wr.result);
        }
    }
    int beginWait(int i, int timeout) {
        auto &d = slots[i];
        Wait wt;
        wt.slot = i;
        wt.incarnation = d.incarnation;
        wt.timeout = timeout;
        wt.start = vloop::now();
        if (!d.writable) {
            wt.immediate = std::optional<qint64>{};
        } else if (d.pending == 0) {
            wt.immediate = std::optional<qint64>{0};
        }
        waits.push_back(wt);
        PBT_LOG("wait ", waits.size() - 1, " for device ", d.incarnation, " timeout ", timeout, " at ", vloop::now());
        return static_cast<int>(waits.size()) - 1;
    }
    void endWait(int n, std::optional<qint64> r) {
        auto &wt = waits[n];
        PBT_LOG("wait ", n, " ended with ", r ? str(*r) : std::string("nothing"), " at ", vloop::now());
        PBT_CHECK(!wt.done, "wait ", n, " was resumed twice");
        wt.done = true;
        if (wt.immediate) {
            PBT_CHECK(r == *wt.immediate, "wait ", n, " returned ", r.value_or(-1), " instead of ", wt.immediate->value_or(-1));
            return;
        }
        const qint64 elapsed = vloop::now() - wt.start;
        const bool maybeTimeout = wt.timeout >= 0 && elapsed >= wt.timeout && (!wt.first || wt.firstTime - wt.start >= wt.timeout);
        coincided += maybeTimeout && wt.first;
        PBT_CHECK(wt.timeout < 0 || elapsed <= wt.timeout, "wait ", n, " ended too late");
        timedOut += !r && maybeTimeout;
        if (!r) {
            PBT_CHECK(maybeTimeout || wt.closed, "wait ", n, " ended with nothing although it neither timed out nor was the device closed");
            return;
        }
        ++waited;
        PBT_CHECK(wt.first.has_value(), "wait ", n, " ended although nothing was written");
        PBT_CHECK(!wt.first || *r == *wt.first || (wt.closed && *r == 0), "wait ", n, " returned ", *r, " instead of ", wt.first.value_or(-1));
    }
    void invariants() {
        for (std::size_t n = 0; n < writes.size(); ++n) {
            const auto &wr = writes[n];
            PBT_CHECK(wr.done || !wr.immediate, "write ", n, " did not return at once although nothing was pending");
            PBT_CHECK(wr.done || !wr.finished, "write ", n, wr.closed ? " hangs although its device was closed" : " hangs although its data were written");
        }
        for (std::size_t n = 0; n < waits.size(); ++n) {
            const auto &wt = waits[n];
            if (wt.done) {
                continue;
            }
            PBT_CHECK(!wt.immediate, "wait ", n, " did not return at once");
            PBT_CHECK(!wt.first, "wait ", n, " was not resumed");
            PBT_CHECK(wt.timeout < 0 || vloop::now() - wt.start < wt.timeout, "wait ", n, " did not time out");
        }
        for (const auto &d : slots) {
            if (d.dev) {
                PBT_CHECK(d.dev->written() == d.out, "the device was given ", d.dev->written().size(), " bytes, which are not the ", d.out.size(), " written ones");
            }
        }
    }
};

QCoro::Task<> writer(World &w, int i, int size, int style, int repeat, int react);

void startWrite(World &w, int i, int size, int style, int repeat, int react) {
    if (w.writes.size() >= MaxOps) {
        return;
    }
    w.device(i);
    const auto n = w.writes.size();
    writer(w, i, size, style, repeat, react);
    PBT_CHECK(!w.writes[n].immediate || w.writes[n].done, "write ", n, " did not return at once although nothing was pending");
}

QCoro::Task<> writer(World &w, int i, int size, int style, int repeat, int react) {
    for (int k = 0; k <= repeat && !w.ending && w.writes.size() < MaxOps; ++k) {
        auto &d = w.device(i);
        auto *dev = d.dev.data();
        QByteArray data;
        for (int j = 0; j < size; ++j) {
            data += static_cast<char>(w.next++ % 251);
        }
        const int n = w.beginWrite(i, size);
        d.out += data.left(w.writes[n].accepted);
        qint64 r = 0;
        switch (style) {
        case 0: r = co_await qCoro(dev).write(data); break;
        case 1: {
            // neither the wrapper nor the data live as long as the operation
            auto task = qCoro(*dev).write(QByteArray(data.constData(), data.size()));
            data.fill('x');
            r = co_await task;
            break;
        }
        default: {
            auto wrapper = qCoro(*dev);
            r = co_await wrapper.write(data);
            break;
        }
        }
        w.endWrite(n, r);
        if (current->failed()) {
            co_return;
        }
        if (react && k == 0 && !w.ending) {
            ++w.nested;
            switch (react) {
            case 1: w.confirm(i, 2); break;
            case 2: w.close(i); break;
            default: startWrite(w, i, 5, 0, 0, 0); break;
            }
        }
    }
}

QCoro::Task<> waiter(World &w, int i, int timeoutIndex, int style, int repeat) {
    for (int k = 0; k <= repeat && !w.ending && w.waits.size() < MaxOps; ++k) {
        auto *dev = w.device(i).dev.data();
        const int timeout = timeouts[timeoutIndex];
        const int n = w.beginWait(i, timeout);
        std::optional<qint64> r;
        if (style == 0) {
            r = co_await qCoro(dev).waitForBytesWritten(timeout);
        } else {
            auto task = qCoro(*dev).waitForBytesWritten(std::chrono::milliseconds(timeout));
            r = co_await task;
        }
        w.endWait(n, r);
        if (w.waits[n].immediate) {
            co_return; // nothing to wait for again
        }
    }
}

enum { OpWrite, OpWait, OpConfirm, OpClose, OpOpen, OpDestroy, OpAdvance, OpBurst };

void run(const Case &c, Run &run) {
    auto *wp = new World;
    World &w = *wp;
    for (const auto &op : c.ops) {
        switch (op.k) {
        case OpWrite: startWrite(w, op.a % Devices, sizes[op.a / Devices], op.b % 3, op.b / 3, op.c % 4); break;
        case OpWait:
            if (w.waits.size() < MaxOps) {
                w.device(op.a);
                const auto n = w.waits.size();
                waiter(w, op.a, op.b % 4, op.b / 4, op.c);
                PBT_CHECK(!w.waits[n].immediate || w.waits[n].done, "wait ", n, " did not return at once");
            }
            break;
        case OpConfirm: w.confirm(op.a, op.b == 7 ? 1 << 30 : op.b == 6 ? 500 : op.b + 1); break;
        case OpBurst: {
            // several confirmations without the event loop running in between
            int n = 0;
            for (int k = 0; k <= op.c && w.slots[op.a].pending; ++k, ++n) {
                w.confirm(op.a, op.b == 5 ? 1 << 30 : op.b * 3 + 1);
            }
            w.chunksAtOnce += n > 1;
            break;
        }
        case OpClose: w.close(op.a); break;
        case OpOpen: {
            static const QIODevice::OpenMode modes[] = {QIODevice::ReadWrite, QIODevice::WriteOnly, QIODevice::ReadWrite | QIODevice::Unbuffered, QIODevice::ReadOnly, QIODevice::NotOpen};
            w.create(op.a, op.c / 2 && op.b % 5 != 4 ? modes[op.b % 5] | QIODevice::Text : modes[op.b % 5], static_cast<FakeDevice::WriteMode>(op.b / 5), op.c % 2 == 0);
            break;
        }
        case OpDestroy: w.destroy(op.a); break;
        case OpAdvance: vloop::advance(op.a == 7 ? 100'000 : op.a * 5); break;
        }
        const bool deliver = op.k == OpWrite ? op.c < 4 : op.k == OpConfirm || op.k == OpClose || op.k == OpDestroy ? op.c > 0 : true;
        if (deliver) {
            vloop::drain();
            w.invariants();
        }
        if (run.failed()) {
            return;
        }
    }
    vloop::drain();
    w.invariants();
    vloop::advance(1'000'000);
    w.invariants();
    w.ending = true;
    for (int i = 0; i < Devices && !run.failed(); ++i) {
        w.destroy(i);
    }
    vloop::settle();
    w.invariants();
    for (std::size_t n = 0; n < w.writes.size() && !run.failed(); ++n) {
        PBT_CHECK(w.writes[n].done, "write ", n, " was never resumed");
    }
    for (std::size_t n = 0; n < w.waits.size() && !run.failed(); ++n) {
        PBT_CHECK(w.waits[n].done, "wait ", n, " was never resumed");
    }
    const auto tag = [&](int n, const char *t) {
        if (n) {
            run.tag(t);
        }
    };
    tag(w.multi, "confirmed-in-chunks");
    tag(w.chunksAtOnce, "chunks-at-once");
    tag(w.sync, "synchronous");
    tag(w.closedWrites, "closed-while-writing");
    tag(w.concurrent, "overlapping-writes");
    tag(w.overlapChunk, "chunk-finishing-several-writes");
    tag(w.timedOut, "wait-timed-out");
    tag(w.waited, "wait-for-chunk");
    tag(w.partial, "partially-accepted");
    tag(w.failing, "write-error");
    tag(w.notWritable, "not-writable");
    tag(w.nested, "acted-from-writer");
    tag(w.coincided, "event-at-timeout");
    if (w.multi || w.concurrent || (w.closedWrites && w.waited)) {
        run.nontrivial();
    }
    if (!run.failed()) {
        delete wp;
    }
}

//! The synchronous device everybody has
void runBuffer(const Case &c, Run &run) {
    QByteArray expected;
    QBuffer buffer;
    if (!c.cfg[0]) {
        buffer.open(QIODevice::ReadWrite);
    }
    int n = 0;
    for (const auto &op : c.ops) {
        QByteArray data(sizes[op.a] + op.b, static_cast<char>('a' + n++ % 26));
        auto task = [](QBuffer &b, QByteArray d) -> QCoro::Task<qint64> { co_return co_await qCoro(b).write(d); }(buffer, data);
        PBT_CHECK(task.isReady(), "writing to a QBuffer did not return at once");
        if (!task.isReady()) {
            return;
        }
        qint64 r = -2;
        task.then([&r](qint64 v) { r = v; });
        const qint64 want = c.cfg[0] ? 0 : data.size();
        PBT_CHECK(c.cfg[0] ? r <= 0 : r == want, "writing ", data.size(), " bytes to a QBuffer returned ", r);
        expected += data.left(want);
        if (op.c) {
            vloop::drain();
        }
    }
    PBT_CHECK(buffer.data() == expected, "the QBuffer does not contain the written data");
    vloop::settle();
    if (c.ops.size() > 1) {
        run.nontrivial();
    }
    run.tag(c.cfg[0] ? "closed" : "open");
}

} // namespace

int main(int argc, char **argv) {
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "writes";
    sc.rule = "histories of overlapping writes and waits against devices confirming in any chunks (also several at once), accepting all, part "
              "or nothing, writing synchronously, being closed or destroyed; non-trivial when a write was confirmed in several chunks or "
              "overlapped another one, or a device was closed while somebody waited";
    sc.ops = {{"write", 9, Devices * 8 - 1, 8, 6},
              {"wait", 5, Devices - 1, 7, 2},
              {"confirm", 8, Devices - 1, 7, 3},
              {"close", 1, Devices - 1, 0, 2},
              {"open", 2, Devices - 1, 24, 3},
              {"destroy", 1, Devices - 1, 0, 2},
              {"advance", 3, 7},
              {"burst", 4, Devices - 1, 5, 5}};
    sc.maxOps = 20;
    sc.minOps = 2;
    sc.quickCases = 100000;
    sc.thoroughCases = 800000;
    sc.run = run;

    Scenario qb;
    qb.name = "qbuffer";
    qb.rule = "sequences of writes to an open or closed QBuffer; non-trivial with more than one write";
    qb.cfg = {{"closed", 1}};
    qb.ops = {{"write", 1, 7, 5, 1}};
    qb.maxOps = 12;
    qb.minOps = 1;
    qb.quickCases = 1000;
    qb.thoroughCases = 10000;
    qb.run = runBuffer;
    return pbt::main(argc, argv, "C15", {sc, qb});
}
