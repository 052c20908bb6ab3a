// A QIODevice driven by the test: the test decides when data arrive and when written data are confirmed.
#pragma once

#include <QByteArray>
#include <QIODevice>

#include <algorithm>

class FakeDevice : public QIODevice {
public:
    enum WriteMode { Buffered, Synchronous, SynchronousQueued, Partial, Failing };

    explicit FakeDevice(bool sequential, WriteMode writeMode = Buffered)
        : mSequential(sequential), mWriteMode(writeMode) {}
    ~FakeDevice() override { close(); }

    bool isSequential() const override { return mSequential; }
    qint64 bytesAvailable() const override { return mSequential ? mIn.size() + QIODevice::bytesAvailable() : QIODevice::bytesAvailable(); }
    qint64 bytesToWrite() const override { return mPending + QIODevice::bytesToWrite(); }
    qint64 size() const override { return mSequential ? bytesAvailable() : mIn.size(); }
    void close() override {
        if (isOpen()) {
            QIODevice::close(); // emits aboutToClose
            mIn.clear();
            mPending = 0;
        }
    }

    //! Data arrive
    void produce(const QByteArray &data) {
        mIn += data;
        Q_EMIT readyRead();
    }
    //! The device reports that it has written up to size bytes
    qint64 confirm(qint64 size) {
        size = std::min(size, mPending);
        if (size > 0) {
            mPending -= size;
            Q_EMIT bytesWritten(size);
        }
        return size;
    }
    const QByteArray &written() const { return mOut; }
    qint64 pending() const { return mPending; }

protected:
    qint64 readData(char *data, qint64 maxSize) override {
        if (mSequential) {
            const qint64 n = std::min<qint64>(maxSize, mIn.size());
            std::copy_n(mIn.constData(), n, data);
            mIn.remove(0, n);
            return n;
        }
        const qint64 n = std::clamp<qint64>(mIn.size() - pos(), 0, maxSize);
        std::copy_n(mIn.constData() + pos(), n, data);
        return n;
    }
    qint64 writeData(const char *data, qint64 size) override {
        switch (mWriteMode) {
        case Failing: return -1;
        case Partial: size = (size + 1) / 2; break;
        default: break;
        }
        mOut.append(data, size);
        switch (mWriteMode) {
        case Synchronous: Q_EMIT bytesWritten(size); break;
        case SynchronousQueued:
            QMetaObject::invokeMethod(this, [this, size] { Q_EMIT bytesWritten(size); }, Qt::QueuedConnection);
            break;
        default: mPending += size; break;
        }
        return size;
    }

private:
    bool mSequential;
    WriteMode mWriteMode;
    QByteArray mIn;
    QByteArray mOut;
    qint64 mPending = 0;
};
