// Objects with signals of many shapes, used by the checks of signal awaiting.
#pragma once

#include "tracked.h"

#include <QByteArray>
#include <QMetaType>
#include <QObject>
#include <QString>

#include <tuple>

Q_DECLARE_METATYPE(pbt::Tracked)

namespace emitter {

class Base : public QObject {
    Q_OBJECT
public:
    using QObject::QObject;
Q_SIGNALS:
    void inherited(const QString &s);
};

class Emitter : public Base {
    Q_OBJECT
public:
    using Base::Base;
    void emitPriv(int) { Q_EMIT priv(QPrivateSignal{}); }
    void emitPrivInt(int v) { Q_EMIT privInt(v, QPrivateSignal{}); }
    void emitPrivPair(int v, const pbt::Tracked &t) { Q_EMIT privPair(v, t, QPrivateSignal{}); }
Q_SIGNALS:
    void none();
    void single(int v);
    void pair(int v, const QString &s);
    void priv(QPrivateSignal);
    void privInt(int v, QPrivateSignal);
    void object(const pbt::Tracked &t);
    void triple(const QByteArray &b, int v, pbt::Tracked t);
    void overloaded(int v);
    void overloaded(const QString &s);
    void privPair(int v, const pbt::Tracked &t, QPrivateSignal);
};

constexpr int Kinds = 11;
//! Emissions carry a number, from which the arguments are derived; signals without arguments do not tell.
constexpr bool carries(int kind) { return kind != 0 && kind != 3; }

inline QString text(int v) { return QStringLiteral("emission %1").arg(v); }
inline QByteArray bytes(int v) { return QByteArray("payload ") + QByteArray::number(v); }
inline int numberOf(const QString &s) {
    const int n = s.mid(9).toInt();
    return s == text(n) ? n : -1;
}

template<int K>
struct Sig;
#define EMITTER_SIG(K, PTR, EMIT, RESULT, DECODE)                                                                     \
    template<>                                                                                                        \
    struct Sig<K> {                                                                                                   \
        static constexpr auto ptr() { return PTR; }                                                                   \
        static void emitOn([[maybe_unused]] Emitter &o, [[maybe_unused]] int v) { EMIT; }                             \
        using Result = RESULT;                                                                                        \
        static int decode([[maybe_unused]] const Result &r) { return DECODE; }                                        \
    };
using Pair = std::tuple<int, QString>;
using Triple = std::tuple<QByteArray, int, pbt::Tracked>;
using PrivPair = std::tuple<int, pbt::Tracked>;
EMITTER_SIG(0, &Emitter::none, Q_EMIT o.none(), std::tuple<>, 0)
EMITTER_SIG(1, &Emitter::single, Q_EMIT o.single(v), int, r)
EMITTER_SIG(2, &Emitter::pair, QString s = text(v); Q_EMIT o.pair(v, s); s[0] = QLatin1Char('x'), Pair,
            std::get<1>(r) == text(std::get<0>(r)) ? std::get<0>(r) : -1)
EMITTER_SIG(3, &Emitter::priv, o.emitPriv(v), std::tuple<>, 0)
EMITTER_SIG(4, &Emitter::privInt, o.emitPrivInt(v), int, r)
EMITTER_SIG(5, &Emitter::object, pbt::Tracked t(v); Q_EMIT o.object(t); t = pbt::Tracked(-7), pbt::Tracked, r.movedFrom() ? -1 : r.id())
EMITTER_SIG(6, &Base::inherited, Q_EMIT o.inherited(text(v)), QString, numberOf(r))
EMITTER_SIG(7, &Emitter::triple, Q_EMIT o.triple(bytes(v), v, pbt::Tracked(v)), Triple,
            std::get<0>(r) == bytes(std::get<1>(r)) && std::get<2>(r).id() == std::get<1>(r) && !std::get<2>(r).movedFrom() ? std::get<1>(r) : -1)
EMITTER_SIG(8, QOverload<int>::of(&Emitter::overloaded), Q_EMIT o.overloaded(v), int, r)
EMITTER_SIG(9, QOverload<const QString &>::of(&Emitter::overloaded), Q_EMIT o.overloaded(text(v)), QString, numberOf(r))
EMITTER_SIG(10, &Emitter::privPair, pbt::Tracked t(v); o.emitPrivPair(v, t); t = pbt::Tracked(-7), PrivPair,
            std::get<1>(r).id() == std::get<0>(r) && !std::get<1>(r).movedFrom() ? std::get<0>(r) : -1)

//! Calls f.operator()<K>() for the signal kind
template<typename F>
auto dispatch(int kind, F &&f) {
    switch (kind) {
    case 0: return f.template operator()<0>();
    case 1: return f.template operator()<1>();
    case 2: return f.template operator()<2>();
    case 3: return f.template operator()<3>();
    case 4: return f.template operator()<4>();
    case 5: return f.template operator()<5>();
    case 6: return f.template operator()<6>();
    case 7: return f.template operator()<7>();
    case 8: return f.template operator()<8>();
    case 9: return f.template operator()<9>();
    default: return f.template operator()<10>();
    }
}

} // namespace emitter
