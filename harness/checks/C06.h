// Result types, return forms and the comparison with plain values (C06).
#pragma once

#include "pbt.h"
#include "tracked.h"
#include "vloop.h"

#include <qcorolazytask.h>
#include <qcorotask.h>
#include <qcorotimer.h>

#include <QByteArray>
#include <QCoreApplication>
#include <QDateTime>
#include <QList>
#include <QMap>
#include <QString>
#include <QUrl>
#include <QVariant>

#include <any>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>

namespace c06 {
using namespace pbt;

inline int gGlobalInt = 0;

struct MoveOnly {
    explicit MoveOnly(int v) : t(v), p(std::make_unique<int>(v)) {}
    Tracked t;
    std::unique_ptr<int> p;
};
struct CopyOnly {
    explicit CopyOnly(int v) : t(v) {}
    CopyOnly(const CopyOnly &) = default;
    CopyOnly &operator=(const CopyOnly &) = default;
    Tracked t;
};
struct NoDefaultNoAssign {
    explicit NoDefaultNoAssign(int v) : v(v), s(QString::number(v)) {}
    NoDefaultNoAssign(const NoDefaultNoAssign &) = default;
    NoDefaultNoAssign(NoDefaultNoAssign &&) = default;
    NoDefaultNoAssign &operator=(const NoDefaultNoAssign &) = default;
    NoDefaultNoAssign &operator=(NoDefaultNoAssign &&) = default;
    int v;
    QString s;
};
struct Base {
    explicit Base(int v) : v(v) {}
    virtual ~Base() = default;
    int v;
};
struct Derived : Base {
    using Base::Base;
};
struct FromString { // constructible from the co_returned type by value: steals what it is given
    FromString(std::string s) : s(std::move(s)) {}
    std::string s;
};
inline std::string longStr(int v) { return "a string beyond the small buffer, number " + std::to_string(v); }
enum Unscoped { UnscopedA = 3, UnscopedB = 70000 };
struct ExplicitInt {
    explicit ExplicitInt(int v) : v(v) {}
    int v;
};
struct ToString {
    int v;
    operator std::string() const { return longStr(v); }
};
struct Fixed { // not assignable
    const int v;
    const std::string s;
};
struct FromTracked {
    FromTracked(const Tracked &t) : t(t), copied(true) {}
    FromTracked(Tracked &&t) : t(std::move(t)), copied(false) {}
    Tracked t;
    bool copied;
};
enum class Color { Red, Green, Blue };


// make a value, and a fingerprint which tells any two values apart (and a moved-from one)
template<typename T>
struct Traits;
#define TRAITS(T, MAKE, PRINT)                                                                                        \
    template<>                                                                                                        \
    struct Traits<T> {                                                                                                \
        static T make(int v) { return MAKE; }                                                                         \
        static std::string print(const T &x) { return PRINT; }                                                        \
    };
inline std::string p(const QString &s) { return s.isNull() ? "null" : s.toStdString(); }
TRAITS(int, v, std::to_string(x))
TRAITS(double, v * 0.5, std::to_string(x))
TRAITS(bool, v % 2, x ? "true" : "false")
TRAITS(qint64, qint64(v) << 33, std::to_string(x))
TRAITS(Color, Color(v % 3), std::to_string(int(x)))
TRAITS(QString, QStringLiteral("value %1").arg(v), p(x))
TRAITS(QByteArray, QByteArray::number(v) + "bytes", x.isNull() ? "null" : x.toStdString())
TRAITS(std::string, longStr(v), x)
TRAITS(std::vector<Tracked>, std::vector<Tracked>(std::size_t(v % 4) + 1, Tracked(v)), std::to_string(x.size()) + "/" + (x.empty() ? "" : std::to_string(x.back().id())))
TRAITS(QList<int>, QList<int>(v % 5 + 1, v), std::to_string(x.size()) + "/" + (x.isEmpty() ? "" : std::to_string(x.last())))
using Map = QMap<QString, int>;
TRAITS(Map, (Map{{QString::number(v), v}}), std::to_string(x.size()) + (x.isEmpty() ? "" : p(x.firstKey())))
TRAITS(Tracked, Tracked(v), std::to_string(x.id()) + (x.movedFrom() ? "moved" : ""))
TRAITS(MoveOnly, MoveOnly(v), std::to_string(x.t.id()) + (x.t.movedFrom() ? "moved" : "") + (x.p ? std::to_string(*x.p) : "null"))
TRAITS(CopyOnly, CopyOnly(v), std::to_string(x.t.id()) + (x.t.movedFrom() ? "moved" : ""))
TRAITS(NoDefaultNoAssign, NoDefaultNoAssign(v), std::to_string(x.v) + p(x.s))
TRAITS(std::unique_ptr<int>, std::make_unique<int>(v), x ? std::to_string(*x) : "null")
TRAITS(std::shared_ptr<Base>, std::make_shared<Base>(v), x ? std::to_string(x->v) : "null")
TRAITS(std::optional<Tracked>, v % 5 == 0 ? std::nullopt : std::optional<Tracked>(Tracked(v)), x ? std::to_string(x->id()) + (x->movedFrom() ? "moved" : "") : "nullopt")
using Var = std::variant<int, QString>;
TRAITS(Var, v % 2 ? Var(v) : Var(QString::number(v)), x.index() == 0 ? std::to_string(std::get<0>(x)) : p(std::get<1>(x)))
TRAITS(QVariant, QVariant(QStringLiteral("variant %1").arg(v)), x.isValid() ? p(x.toString()) : "invalid")
using Pair = std::pair<std::string, Tracked>;
TRAITS(Pair, Pair(longStr(v), Tracked(v)), x.first + std::to_string(x.second.id()) + (x.second.movedFrom() ? "moved" : ""))
using Fn = std::function<int()>;
TRAITS(Fn, Fn([s = longStr(v), v]() { return v; }), x ? std::to_string(x()) : "empty")
using Ptr = int *;
TRAITS(Ptr, v % 3 ? &gGlobalInt : nullptr, x ? "set" : "null")
TRAITS(QUrl, QUrl(QStringLiteral("http://example.org/%1").arg(v)), p(x.toString()))
TRAITS(FromString, FromString(longStr(v)), x.s)
TRAITS(FromTracked, FromTracked(Tracked(v)), std::to_string(x.t.id()) + (x.t.movedFrom() ? "moved" : ""))
TRAITS(qint8, static_cast<qint8>(v), std::to_string(x))
TRAITS(ExplicitInt, ExplicitInt(v), std::to_string(x.v))
TRAITS(Fixed, (Fixed{v, longStr(v)}), x.s)
using AnyT = std::any;
TRAITS(AnyT, AnyT(v), x.has_value() ? std::to_string(std::any_cast<int>(x)) : "empty")

struct LeakCheck {
    int before = Tracked::total();
    ~LeakCheck() {
        vloop::settle(1000);
        PBT_CHECK(Tracked::total() == before, "objects leaked (positive) or destroyed twice (negative): ", Tracked::total() - before);
    }
};

struct Params {
    bool suspend;
    int value;
    int value2;
};

template<typename T>
struct Holder {
    T member;
    T other;
    std::array<T, 2> arr;
    std::shared_ptr<T> shared;
    std::optional<T> opt;
};
template<typename T>
T &global() {
    static std::optional<T> g;
    static bool init = (g.emplace(Traits<T>::make(0)), true);
    (void)init;
    return *g;
}

#define MAYBE_SUSPEND()                                                                                               \
    if (pr.suspend) {                                                                                                 \
        co_await QCoro::sleepFor(std::chrono::milliseconds(1));                                                       \
    }

enum Form { Prvalue, Local, MovedLocal, Param, ConstLocal, MovedParamRef, MoveForms,
            MemberL = MoveForms, ConstRef, Ref, Element, Ternary, SharedDeref, OptDeref, Global, CapturedRef, Forms };

template<template<typename> class TaskT, typename T>
TaskT<T> ret(Form f, Params pr, Holder<T> *h, T byValue, T &&rref) {
    MAYBE_SUSPEND();
    switch (f) {
    case Prvalue:
        co_return Traits<T>::make(pr.value);
    case Local: {
        T x = Traits<T>::make(pr.value);
        co_return x;
    }
    case MovedLocal: {
        T x = Traits<T>::make(pr.value);
        co_return std::move(x);
    }
    case Param:
        co_return byValue;
    case MovedParamRef:
        co_return std::move(rref);
    default:
        break;
    }
    if constexpr (std::is_copy_constructible_v<T>) {
        switch (f) {
        case ConstLocal: {
            const T x = Traits<T>::make(pr.value);
            co_return x;
        }
        case MemberL:
            co_return h->member;
        case ConstRef: {
            const T &r = h->member;
            co_return r;
        }
        case Ref: {
            T &r = h->member;
            co_return r;
        }
        case Element:
            co_return h->arr[std::size_t(pr.value2 % 2)];
        case Ternary:
            co_return pr.value2 % 2 ? h->member : h->other;
        case SharedDeref:
            co_return *h->shared;
        case OptDeref:
            co_return *h->opt;
        case Global:
            co_return global<T>();
        case CapturedRef: {
            auto &m = h->member;
            const auto get = [&m]() -> T & { return m; };
            co_return get();
        }
        default:
            break;
        }
    }
    co_return Traits<T>::make(pr.value);
}

template<typename T, typename F>
QCoro::Task<> consume(F make, bool move, std::optional<std::string> &out) {
    auto task = make();
    if (move) {
        const T v = co_await std::move(task);
        out = Traits<T>::print(v);
    } else {
        const T v = co_await task;
        out = Traits<T>::print(v);
    }
}

//! The result lives as long as a reference bound to it, although the task is gone
template<typename T, typename F>
QCoro::Task<> consumeReference(F make, bool constant, std::optional<std::string> &out) {
    if (constant) {
        const T &v = co_await make();
        out = Traits<T>::print(v);
    } else {
        auto &&v = co_await make();
        out = Traits<T>::print(v);
    }
}

// make() starts the operation (LazyTask is not movable)
template<typename T, typename F>
void deliver(F make, int how, std::optional<std::string> &out) {
    switch (how) {
    case 0:
        consume<T>(make, false, out);
        break;
    case 1:
        consume<T>(make, true, out);
        break;
    case 2: {
        const T v = QCoro::waitFor(make());
        out = Traits<T>::print(v);
        break;
    }
    case 4:
        consumeReference<T>(make, false, out);
        break;
    case 5:
        consumeReference<T>(make, true, out);
        break;
    default: {
        const auto cb = [&out](T v) { out = Traits<T>::print(v); };
        auto t = make().then(cb);
        QCoro::waitFor(t);
        break;
    }
    }
    vloop::settle(1000);
}

struct Names {
    static const char *form(int f) {
        static const char *n[] = {"prvalue", "local", "moved local", "parameter", "const local", "moved reference", "member",
                                  "const reference", "reference", "array element", "conditional", "shared object", "optional content",
                                  "global", "captured reference"};
        return n[f];
    }
};

template<typename T>
void runType(Form f, Params pr, bool lazy, int how, Run &run) {
    using Tr = Traits<T>;
    if constexpr (!std::is_copy_constructible_v<T>) {
        f = static_cast<Form>(f % MoveForms);
        if (f == ConstLocal) {
            f = Local;
        }
    }
    if constexpr (std::is_copy_constructible_v<T>) {
        global<T>();
    }
    const LeakCheck leaks;
    std::optional<Holder<T>> h;
    if constexpr (std::is_copy_constructible_v<T>) {
        h.emplace(Holder<T>{Tr::make(pr.value), Tr::make(pr.value2), {Tr::make(pr.value), Tr::make(pr.value2)},
                            std::make_shared<T>(Tr::make(pr.value)), Tr::make(pr.value)});
        global<T>() = Tr::make(pr.value);
    }
    std::string expected = Tr::print(Tr::make(pr.value));
    if (f == Element || f == Ternary) {
        const bool first = f == Element ? pr.value2 % 2 == 0 : pr.value2 % 2;
        expected = Tr::print(Tr::make(first ? pr.value : pr.value2));
    }
    const int times = f >= MoveForms ? 2 : 1; // the same source is returned twice
    for (int i = 0; i < times; ++i) {
        std::optional<std::string> got;
        T rref = Tr::make(pr.value);
        Holder<T> *hp = h ? &*h : nullptr;
        if (lazy) {
            deliver<T>([&]() { return ret<QCoro::LazyTask, T>(f, pr, hp, Tr::make(pr.value), std::move(rref)); }, how, got);
        } else {
            deliver<T>([&]() { return ret<QCoro::Task, T>(f, pr, hp, Tr::make(pr.value), std::move(rref)); }, how, got);
        }
        PBT_LOG(Names::form(f), ": expected ", expected, " got ", got.value_or("(nothing)"));
        PBT_CHECK(got == expected, "co_return of a ", Names::form(f), " delivered '", got.value_or("(nothing)"), "' instead of '", expected, "'");
    }
    if (h) {
        const auto same = [&](const T &x, int v, const char *what) {
            PBT_CHECK(Tr::print(x) == Tr::print(Tr::make(v)), "co_return of a ", Names::form(f), " changed the source: ", what, " is now '",
                      Tr::print(x), "'");
        };
        same(h->member, pr.value, "member");
        same(h->other, pr.value2, "member");
        same(h->arr[0], pr.value, "array element");
        same(h->arr[1], pr.value2, "array element");
        same(*h->shared, pr.value, "shared object");
        same(*h->opt, pr.value, "optional");
        same(global<T>(), pr.value, "global object");
        run.tag(f >= MoveForms ? "lvalue-source" : "expiring-source");
        if (f >= MoveForms) {
            run.nontrivial();
        }
    } else {
        run.tag("move-only");
        run.nontrivial();
    }
    if (h) {
        global<T>() = Tr::make(0);
    }
}

// co_return of something the result type is constructible from
template<typename To, typename From>
struct ConvSource {
    From member;
};
template<template<typename> class TaskT, typename To, typename From>
TaskT<To> conv(int form, Params pr, From *src) {
    MAYBE_SUSPEND();
    if constexpr (std::is_copy_constructible_v<From>) {
        switch (form) {
        case 0:
            co_return *src;
        case 1:
            co_return std::as_const(*src);
        case 2: {
            From local = *src;
            co_return local;
        }
        default: {
            From local = *src;
            co_return std::move(local);
        }
        }
    } else {
        co_return std::move(*src);
    }
}

template<typename To, typename From>
void runConv(int form, Params pr, bool lazy, int how, From source, const std::string &expected,
             const std::function<std::string(const From &)> &print, Run &run) {
    const auto before = print(source);
    const LeakCheck leaks;
    std::optional<std::string> got;
    if (lazy) {
        deliver<To>([&]() { return conv<QCoro::LazyTask, To, From>(form, pr, &source); }, how, got);
    } else {
        deliver<To>([&]() { return conv<QCoro::Task, To, From>(form, pr, &source); }, how, got);
    }
    PBT_LOG("converting: expected ", expected, " got ", got.value_or("(nothing)"));
    PBT_CHECK(got == expected, "converting co_return delivered '", got.value_or("(nothing)"), "' instead of '", expected, "'");
    if (std::is_copy_constructible_v<From>) {
        PBT_CHECK(print(source) == before, "converting co_return changed its source from '", before, "' to '", print(source), "'");
    }
    run.tag("converting");
    run.nontrivial();
}


using TypeRunner = void (*)(Form, Params, bool, int, Run &);
extern const std::vector<TypeRunner> typesA, typesB, typesC, typesD;
void runConversion(int k, int form, Params pr, bool lazy, int how, Run &run);
constexpr int Conversions = 22;
constexpr int Types = 27;

} // namespace c06
