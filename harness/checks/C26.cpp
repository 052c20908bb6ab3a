// C26: an image provider answers each request once, with the coroutine's image.
#include "pbt.h"
#include "vloop.h"

#include <qcoroimageprovider.h>
#include <qcorotask.h>

#include <QGuiApplication>
#include <QImage>
#include <QPointer>
#include <QQuickImageProvider>

#define emit Q_EMIT
#include <private/qobject_p.h>
#include <private/qquickimageprovider_p.h>
#undef emit

#include <coroutine>
#include <deque>
#include <memory>
#include <stdexcept>

using namespace pbt;

namespace {

constexpr int Providers = 2;
constexpr int MaxRequests = 24;

QImage imageOf(int kind, int n) {
    switch (kind) {
    case 0: return {};
    case 1: {
        QImage i(3, 2, n % 2 ? QImage::Format_ARGB32 : QImage::Format_ARGB32_Premultiplied);
        i.fill(0xff000000u | static_cast<unsigned>(n * 7919));
        i.setPixel(n % 3, n % 2, 0x00000000u); // transparent
        i.setPixel((n + 1) % 3, 0, 0x80402010u);
        return i;
    }
    case 2: {
        QImage i(1 + n % 5, 1, QImage::Format_Grayscale8);
        i.fill(n % 200);
        return i;
    }
    case 3: {
        QImage i(8, 8, QImage::Format_RGB32);
        i.fill(static_cast<unsigned>(n));
        i.setPixel(n % 8, n / 8 % 8, 0xffffffu);
        i.setDevicePixelRatio(2);
        return i;
    }
    case 4: {
        QImage i(16, 1, QImage::Format_Mono);
        i.fill(0);
        i.setPixel(n % 16, 0, 1);
        return i;
    }
    case 5: { // large
        QImage i(700 + n, 3, QImage::Format_RGB32);
        i.fill(0xff102030u);
        i.setPixel(699 + n, 2, 0xffffffffu);
        return i;
    }
    }
}

std::string errorOf(int n) {
    const char *errors[] = {"no image", "", " two\nlines\t", "\xc3\xa4\xe6\x97\xa5 %1 &amp;", "a rather long message, which does not fit into any short string: 0123456789"};
    return errors[n % 5];
}

QString idOf(int kind, int n) {
    const QString ids[] = {QStringLiteral("image%1.png").arg(n), QString(), QStringLiteral("a/b %20?x=%1#y").arg(n), QStringLiteral("same"),
                           QStringLiteral("\u00e4\u65e5 %1").arg(n)};
    const QString more[] = {QStringLiteral(" /%1/ ").arg(n), QStringLiteral("A/../b//c%1").arg(n) + QChar(u'\0') + u'x',
                            QStringLiteral("%1#").arg(n), QString(200 + n, u'i'), QStringLiteral("%41&amp;\n%1\t").arg(n)};
    return kind < 5 ? ids[kind] : more[kind - 5];
}
QSize sizeOf(int kind, int n) {
    const QSize sizes[] = {QSize(), QSize(n, n + 1), QSize(0, 0), QSize(-1, 10), QSize(100000, 1)};
    return sizes[kind];
}

struct World;

struct Request {
    int provider = 0;
    QString id;
    QSize size;
    QImage image;
    int mode = 0; // 0: suspends, 1: at once, 2: fails, 3: fails at once, 4, 5: with an exception that is no std::exception
    int asked = 0;
    bool returned = false, failed = false;
    bool flagged = false; // finished before the response was handed out
    int signalled = 0;
    std::coroutine_handle<> waiting;
    QPointer<QQuickImageResponse> response;
    bool destroyed = false;
};

World *world = nullptr;

class Provider : public QCoro::ImageProvider {
public:
    explicit Provider(int number) : mNumber(number) {}
    QCoro::Task<QImage> asyncRequestImage(const QString &id, const QSize &size) override;

private:
    QCoro::Task<QImage> work(std::size_t index);
    int mNumber;
};

struct World {
    std::unique_ptr<Provider> providers[Providers];
    std::deque<Request> requests;
    std::vector<std::size_t> asking; // requests being made
    int pendingAtOnce = 0;
    bool ending = false;

    void request(int provider, int idKind, int sizeKind, int imageKind, int mode, int nest) {
        if (requests.size() >= MaxRequests || !providers[provider]) {
            return;
        }
        const auto index = requests.size();
        const int n = static_cast<int>(index);
        auto &q = requests.emplace_back();
        q.provider = provider;
        q.id = idOf(idKind, n);
        q.size = sizeOf(sizeKind, n);
        q.image = imageOf(imageKind, n);
        q.mode = mode;
        mNest = nest;
        PBT_LOG("request ", index, " to provider ", provider, mode == 1 ? ", answered at once" : mode == 3 || mode == 5 ? ", failing at once" : "");
        asking.push_back(index);
        {
            const QString id = q.id;
            const QSize size = q.size;
            q.response = static_cast<QQuickAsyncImageProvider &>(*providers[provider]).requestImageResponse(id, size);
        }
        asking.pop_back();
        PBT_CHECK(q.asked == 1, "the provider's coroutine was called ", q.asked, " times for request ", index);
        PBT_CHECK(q.response, "request ", index, " got no response");
        if (!q.response) {
            return;
        }
        q.flagged = static_cast<QQuickImageResponsePrivate *>(QObjectPrivate::get(q.response.data()))->finished.loadAcquire();
        if (q.flagged) {
            judge(index);
        }
        QObject::connect(q.response.data(), &QQuickImageResponse::finished, q.response.data(), [this, index] {
            auto &q = requests[index];
            PBT_LOG("response ", index, " signals that it is finished");
            PBT_CHECK(++q.signalled == 1 && !q.flagged, "response ", index, " finished several times");
            judge(index);
        });
        int pending = 0;
        for (const auto &other : requests) {
            pending += !other.returned && !other.failed;
        }
        pendingAtOnce = std::max(pendingAtOnce, pending);
    }
    void judge(std::size_t index) {
        if (current->failed()) {
            return;
        }
        auto &q = requests[index];
        PBT_CHECK(q.returned || q.failed, "response ", index, " finished before the coroutine did");
        if (q.failed) {
            PBT_CHECK(q.mode >= 4 || q.response->errorString() == QString::fromUtf8(errorOf(static_cast<int>(index)).c_str()), "response ", index, " reports the error \"", q.response->errorString().toStdString(),
                      "\" instead of the one the coroutine failed with");
            return;
        }
        for (int k = 0; k < 2; ++k) {
            std::unique_ptr<QQuickTextureFactory> f(q.response->textureFactory());
            PBT_CHECK((f != nullptr) == !q.image.isNull(), "response ", index, f ? " has an image although the coroutine returned none" : " has no image");
            if (f && !q.image.isNull()) {
                const auto image = f->image();
                PBT_CHECK(image == q.image.convertToFormat(image.format()) && (image.hasAlphaChannel() || !q.image.hasAlphaChannel()) && image.devicePixelRatio() == q.image.devicePixelRatio(), "response ",
                          index, " has another image than the one its coroutine returned");
                PBT_CHECK(f->textureSize() == q.image.size(), "response ", index, " has an image of another size");
            }
        }
        PBT_CHECK(q.response->errorString().isEmpty(), "response ", index, " reports an error");
    }
    void finish(std::size_t index) {
        auto &q = requests[index];
        if (q.waiting) {
            PBT_LOG("the coroutine of request ", index, q.mode >= 2 ? " fails" : " finishes");
            std::exchange(q.waiting, nullptr).resume();
        }
    }
    void invariants() {
        vloop::drain();
        for (std::size_t k = 0; k < requests.size() && !current->failed(); ++k) {
            const auto &q = requests[k];
            if (q.destroyed) {
                continue;
            }
            PBT_CHECK(q.response, "response ", k, " vanished");
            PBT_CHECK(q.asked == 1, "the provider's coroutine was called ", q.asked, " times for request ", k);
            PBT_CHECK(q.flagged || q.signalled == 1 || !(q.returned || q.failed), "response ", k, " did not finish although the coroutine did");
        }
    }
    int takeNest() { return std::exchange(mNest, 0); }

private:
    int mNest = 0;
};

QCoro::Task<QImage> Provider::asyncRequestImage(const QString &id, const QSize &size) {
    auto &w = *world;
    const auto index = w.asking.back();
    auto &q = w.requests[index];
    ++q.asked;
    PBT_CHECK(q.provider == mNumber, "another provider was asked");
    PBT_CHECK(id == q.id && size == q.size, "the provider's coroutine got another id or size than requested");
    if (w.takeNest() > 0) { // a provider may use another one
        w.request(1 - mNumber, 0, 0, 1, q.mode % 2, 0);
    }
    return work(index);
}

QCoro::Task<QImage> Provider::work(std::size_t index) {
    auto &w = *world;
    auto &q = w.requests[index];
    if (q.mode % 2 == 0) {
        struct Gate {
            Request &q;
            bool await_ready() { return false; }
            void await_suspend(std::coroutine_handle<> h) { q.waiting = h; }
            void await_resume() {}
        };
        co_await Gate{q};
    }
    if (q.mode >= 2) {
        q.failed = true;
        if (q.mode >= 4) {
            throw static_cast<int>(index);
        }
        throw std::runtime_error(errorOf(static_cast<int>(index)));
    }
    q.returned = true;
    co_return q.image;
}

enum { RequestOp, Finish, FinishAll, Destroy, Cancel, DestroyProvider, Look };

void run(const Case &c, Run &r) {
    vloop::resetTimers();
    world = new World;
    auto &w = *world;
    for (int i = 0; i < Providers; ++i) {
        w.providers[i] = std::make_unique<Provider>(i);
    }
    for (const auto &op : c.ops) {
        const bool any = !w.requests.empty();
        const auto k = any ? static_cast<std::size_t>(op.a) % w.requests.size() : 0;
        switch (op.k) {
        case RequestOp: {
            const int mode = op.b / 25 % 8;
            w.request(op.a % Providers, op.b % 5 + 5 * op.c, op.b / 5 % 5, op.a / Providers % 6, mode < 6 ? mode : 0, op.b / 200);
            break;
        }
        case Finish:
            if (any) {
                w.finish(k);
            }
            break;
        case FinishAll:
            for (std::size_t n = 0; n < w.requests.size(); ++n) {
                w.finish(op.a % 2 ? n : w.requests.size() - 1 - n);
            }
            break;
        case Destroy: // the request is not needed anymore
            if (any && w.requests[k].response) {
                PBT_LOG("response ", k, " is destroyed");
                w.requests[k].destroyed = true;
                delete w.requests[k].response.data();
                r.tag(w.requests[k].waiting ? "response destroyed early" : "response destroyed");
            }
            break;
        case Cancel:
            if (any && w.requests[k].response) {
                PBT_LOG("request ", k, " is cancelled");
                w.requests[k].response->cancel();
                r.tag("cancelled");
            }
            break;
        case DestroyProvider:
            PBT_LOG("provider ", op.a, " is destroyed");
            w.providers[op.a].reset();
            break;
        default: // images stay what they are
            if (any && w.requests[k].response && (w.requests[k].flagged || w.requests[k].signalled)) {
                w.judge(k);
            }
            break;
        }
        if (op.c) {
            w.invariants();
        }
        if (r.failed()) {
            return; // leaks the world: coroutines may refer to it
        }
    }
    w.invariants();
    int failed = 0, immediate = 0;
    for (const auto &q : w.requests) {
        failed += q.mode >= 2;
        immediate += q.mode % 2;
    }
    if (failed > 0) {
        r.tag("failing coroutine");
    }
    if (immediate > 0) {
        r.tag("answered at once");
    }
    if (w.pendingAtOnce >= 2) {
        r.tag("concurrent requests");
        r.nontrivial();
    }
    for (std::size_t k = w.requests.size(); k-- > 0;) {
        w.finish(k);
    }
    w.invariants();
    for (std::size_t k = 0; k < w.requests.size() && !r.failed(); ++k) {
        if (!w.requests[k].destroyed) {
            w.judge(k);
        }
    }
    if (r.failed()) {
        return;
    }
    for (auto &q : w.requests) {
        delete q.response.data();
    }
    delete world;
    world = nullptr;
    vloop::drain();
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QGuiApplication app(argc, argv);
    vloop::setGraceMs(0);
    Scenario s;
    s.name = "requests";
    s.rule = "at least two requests were pending at the same time";
    s.ops = {
        {"request", 10, Providers * 6 - 1, 399, 1},
        {"finish", 8, MaxRequests - 1, 0, 1},
        {"finish all", 1, 1, 0, 1},
        {"destroy", 2, MaxRequests - 1, 0, 1},
        {"cancel", 1, MaxRequests - 1, 0, 1},
        {"destroy provider", 1, Providers - 1, 0, 1},
        {"look", 2, MaxRequests - 1, 0, 1},
    };
    s.maxOps = 24;
    s.quickCases = 50000;
    s.thoroughCases = 400000;
    s.run = run;
    return pbt::main(argc, argv, "C26", {s});
}
