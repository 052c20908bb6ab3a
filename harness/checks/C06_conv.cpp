#include "C06.h"
namespace c06 {
namespace {
//! A result that cannot always be constructed: the coroutine then fails with that exception, like a throwing return statement
struct Picky {
    static inline int copies = 0; // copies that still succeed
    int v;
    Picky(int v) : v(v) {
        if (v % 2) {
            throw std::runtime_error("odd");
        }
    }
    Picky(const Picky &o) : v(o.v) {
        if (copies-- <= 0) {
            throw std::runtime_error("no copy");
        }
    }
    Picky(Picky &&o) noexcept : v(o.v) { o.v = -1; }
};

template<template<typename> class TaskT>
TaskT<Picky> picky(int form, Params pr, Picky *src, Tracked) {
    MAYBE_SUSPEND();
    const int number = pr.value;
    int variable = pr.value;
    switch (form) {
    case 0:
        co_return number;
    case 1:
        co_return variable;
    case 2:
        co_return *src;
    default:
        co_return std::as_const(*src);
    }
}

template<typename F>
QCoro::Task<> awaitPicky(F make, std::string &out) {
    auto task = make();
    try {
        const Picky v = co_await task;
        out = std::to_string(v.v);
    } catch (const std::runtime_error &e) {
        out = e.what();
    }
}

template<typename F>
void deliverPicky(F make, int how, std::string &out) {
    switch (how % 3) {
    case 0:
        awaitPicky(make, out);
        break;
    case 1:
        try {
            out = std::to_string(QCoro::waitFor(make()).v);
        } catch (const std::runtime_error &e) {
            out = e.what();
        }
        break;
    default: {
        auto t = make().then([&out](Picky v) { out = std::to_string(v.v); }, [&out](const std::exception &e) { out = e.what(); });
        QCoro::waitFor(t);
        break;
    }
    }
    vloop::settle(1000);
}

void runPicky(int form, Params pr, bool lazy, int how, Run &run) {
    const LeakCheck leaks;
    Picky source(pr.value * 2);
    Picky::copies = pr.value2 % 2;
    std::string expected = std::to_string(pr.value);
    if (form < 2) {
        expected = pr.value % 2 ? "odd" : expected;
    } else {
        expected = Picky::copies ? std::to_string(source.v) : "no copy";
    }
    std::string got = "(nothing)";
    if (lazy) {
        deliverPicky([&] { return picky<QCoro::LazyTask>(form, pr, &source, Tracked(1)); }, how, got);
    } else {
        deliverPicky([&] { return picky<QCoro::Task>(form, pr, &source, Tracked(1)); }, how, got);
    }
    PBT_LOG("throwing conversion: expected ", expected, " got ", got);
    PBT_CHECK(got == expected, "co_return of something that ", expected == "odd" || expected == "no copy" ? "cannot" : "can",
              " be converted delivered '", got, "' instead of '", expected, "'");
    PBT_CHECK(source.v == pr.value * 2, "co_return changed its source");
    run.tag("throwing");
    run.nontrivial();
}
} // namespace
void runConversion(int k, int form, Params pr, bool lazy, int how, Run &run) {
    const int v = pr.value;
    const auto chars = [](const char *const &c) { return std::string(c ? c : "null"); };
    switch (k) {
    case 0:
        runConv<std::shared_ptr<Base>, std::shared_ptr<Derived>>(form, pr, lazy, how, std::make_shared<Derived>(v), std::to_string(v),
            [](const std::shared_ptr<Derived> &s) { return s ? std::to_string(s->v) + "/" + std::to_string(s.use_count()) : "null"; }, run);
        break;
    case 1:
        runConv<std::string, const char *>(form, pr, lazy, how, "plain text", "plain text", chars, run);
        break;
    case 2:
        runConv<QByteArray, const char *>(form, pr, lazy, how, "plain text", "plain text", chars, run);
        break;
    case 3:
        runConv<qint64, int>(form, pr, lazy, how, v, std::to_string(v), [](const int &i) { return std::to_string(i); }, run);
        break;
    case 4:
        runConv<double, float>(form, pr, lazy, how, v * 0.25f, std::to_string(v * 0.25), [](const float &i) { return std::to_string(i); }, run);
        break;
    case 5:
        runConv<QVariant, QString>(form, pr, lazy, how, QStringLiteral("text %1").arg(v), "text " + std::to_string(v), p, run);
        break;
    case 6:
        runConv<std::optional<Tracked>, Tracked>(form, pr, lazy, how, Tracked(v), std::to_string(v), Traits<Tracked>::print, run);
        break;
    case 7:
        runConv<Var, QString>(form, pr, lazy, how, QStringLiteral("text %1").arg(v), "text " + std::to_string(v), p, run);
        break;
    case 8:
        runConv<FromString, std::string>(form, pr, lazy, how, longStr(v), longStr(v), [](const std::string &s) { return s; }, run);
        break;
    case 9:
        runConv<FromTracked, Tracked>(form, pr, lazy, how, Tracked(v), std::to_string(v), Traits<Tracked>::print, run);
        break;
    case 10:
        runConv<std::shared_ptr<Base>, std::unique_ptr<Derived>>(form, pr, lazy, how, std::make_unique<Derived>(v), std::to_string(v),
            [](const std::unique_ptr<Derived> &) { return std::string(); }, run);
        break;
    case 11:
        runConv<QString, QLatin1String>(form, pr, lazy, how, QLatin1String("latin"), "latin", [](const QLatin1String &s) { return std::string(s.data(), s.size()); }, run);
        break;
    case 12:
        runConv<QUrl, QUrl>(form, pr, lazy, how, Traits<QUrl>::make(v), Traits<QUrl>::print(Traits<QUrl>::make(v)), Traits<QUrl>::print, run);
        break;
    // conversions an assignment would not do (narrowing, explicit constructors, operators), or could not (no assignment)
    case 13:
        runConv<double, int>(form, pr, lazy, how, v, std::to_string(double(v)), [](const int &i) { return std::to_string(i); }, run);
        break;
    case 14:
        runConv<bool, int>(form, pr, lazy, how, v % 3, v % 3 ? "true" : "false", [](const int &i) { return std::to_string(i); }, run);
        break;
    case 15:
        runConv<int, Unscoped>(form, pr, lazy, how, v % 2 ? UnscopedB : UnscopedA, std::to_string(v % 2 ? UnscopedB : UnscopedA),
                               [](const Unscoped &i) { return std::to_string(i); }, run);
        break;
    case 16:
        runConv<qint8, qint64>(form, pr, lazy, how, v % 100, std::to_string(v % 100), [](const qint64 &i) { return std::to_string(i); }, run);
        break;
    case 17:
        runConv<ExplicitInt, int>(form, pr, lazy, how, v, std::to_string(v), [](const int &i) { return std::to_string(i); }, run);
        break;
    case 18:
        runConv<std::string, ToString>(form, pr, lazy, how, ToString{v}, longStr(v), [](const ToString &i) { return std::to_string(i.v); }, run);
        break;
    case 19:
        runConv<Fixed, Fixed>(form, pr, lazy, how, Fixed{v, longStr(v)}, longStr(v), [](const Fixed &f) { return std::to_string(f.v) + f.s; }, run);
        break;
    case 20:
        runConv<std::any, int>(form, pr, lazy, how, v, std::to_string(v), [](const int &i) { return std::to_string(i); }, run);
        break;
    case 21:
        runPicky(form, pr, lazy, how, run);
        break;
    default:
        break;
    }
}
}
