// C27: inside a coroutine the QCORO_ test macros give the verdict, the message and the control flow that the QtTest
// macros give in a plain function.
//
// A generated test function (C27_body.inc) is compiled twice from the same text. Both are run by QTest::qExec() over
// generated data rows and their logs, and what they executed, evaluated, waited for and destroyed, are compared.
#include "pbt.h"
#include "vloop.h"

#include <qcorotask.h>
#include <qcorotest.h>
#include <qcorotimer.h>

#include <QCoreApplication>
#include <QFile>
#include <QTemporaryDir>
#include <QTest>
#include <QTimer>
#include <QXmlStreamReader>

#include <cstring>
#include <stdexcept>

// What a waiting macro expands to. Known finding: at the pinned commit the expansion refers to QCORO_TRY_LOOP_IMPL, which nothing
// defines, so no use of the waiting macros compiles. It is defined here to be able to check everything else about them.
#define C27_STRING(...) #__VA_ARGS__
#define C27_EXPANDED(...) C27_STRING(__VA_ARGS__)
static const char *const expandedTry = C27_EXPANDED(QCORO_TRY_VERIFY_WITH_TIMEOUT(condition, 1));
#ifndef QCORO_TRY_LOOP_IMPL
#define QCORO_TRY_LOOP_IMPL(...) QTRY_LOOP_IMPL(__VA_ARGS__)
#endif

using namespace pbt;
using std::chrono::milliseconds;

// QTest::qWait() sleeps in real time; both sides wait in virtual time instead.
static int waits = 0;
namespace QTest {
void qWait(int ms) {
    ++waits;
    vloop::drain();
    if (ms > 0) {
        vloop::advance(ms);
    }
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
}
} // namespace QTest

namespace {

enum Kind {
    Verify, VerifyAsync, VerifyPointer, Verify2, Compare, CompareAsync, Fail, Skip, ExpectFail, Throws, Test, Arm,
    TryVerify, TryCompare, Sleep, Sub, IfElse
};

constexpr int timeouts[] = {20, 0, 100, 349, 700};
constexpr const char *indexes[] = {"", "row0", "row1", "nowhere"};
constexpr int Flags = 3;

struct Custom {};
struct Plain {
    int v;
    bool operator==(const Plain &) const = default;
};

QString strings(int n) {
    static const QString s[] = {QStringLiteral("a"), QString(), QStringLiteral("ž<&>\"\n"), QStringLiteral("")};
    return s[n % 4];
}
double doubles(int n) {
    constexpr double d[] = {0.0, 1e-13, 1.0, 1.0 + 1e-14};
    return d[n % 4];
}
QStringList lists(int n) {
    static const QStringList l[] = {{}, {QStringLiteral("a")}, {QStringLiteral("a"), QStringLiteral("b")}, {QStringLiteral("b")}};
    return l[n % 4];
}
const char *cstrings(int n) {
    static const char *const c[] = {"a", "b", nullptr, "a b"};
    return c[n % 4];
}

//! What a test function touches, and what it did
struct Env {
    std::vector<Op> ops;
    std::vector<std::string> trace;
    std::string text; // keeps the described message alive
    qint64 start = 0;
    int evaluations = 0;
    int flag[Flags] = {};
    int guards = 0;
    bool failing = false; // a callback failed the test while it ran
    QObject context;

    template<typename... A>
    void note(int i, const A &...a) { trace.push_back(str("@", vloop::now() - start, " step ", i, " ", a...)); }
    int eval(int x) {
        ++evaluations;
        note(0, "evaluates ", x);
        return x;
    }
    const char *describe(int n) {
        note(0, "describes ", n);
        text = str("description ", n);
        return text.c_str();
    }
    void raise(int n) {
        note(0, "raises ", n);
        switch (n % 6) {
        case 0: throw std::runtime_error("runtime");
        case 1: throw std::logic_error("logic");
        case 2: throw Custom{};
        case 3: throw 42;
        case 4: throw std::range_error("range");
        }
    }
    QCoro::Task<int> later(int x) {
        if (x % 2) {
            QTimer timer;
            timer.setSingleShot(true);
            timer.start(x * 3);
            co_await timer;
        }
        co_return x;
    }
    QCoro::Task<int> raiseLater(int n) {
        if (n % 2) {
            QTimer timer;
            timer.setSingleShot(true);
            timer.start(5);
            co_await timer;
        }
        raise(n);
        co_return 0;
    }
    //! flag x turns true (or counts up, or only pulses, or the test fails) at some time
    void arm(int x, int y, int mode) {
        const int f = x % Flags;
        const milliseconds at((x + 1) * (y + 1) * 9);
        switch (mode % 5) {
        case 0:
        case 1:
            QTimer::singleShot(at, Qt::PreciseTimer, &context, [this, f] { ++flag[f]; });
            break;
        case 2:
            QTimer::singleShot(at, Qt::PreciseTimer, &context, [this, f] { flag[f] = 1; });
            QTimer::singleShot(at + milliseconds(y * 11), Qt::PreciseTimer, &context, [this, f] { flag[f] = 0; });
            break;
        case 3:
            QTimer::singleShot(at, Qt::PreciseTimer, &context, [this, f] { flag[f] = 2; });
            break;
        case 4:
            QTimer::singleShot(at, Qt::PreciseTimer, &context, [this] {
                failing = true;
                QTest::qFail("failed by a callback", "callback", 1);
            });
            break;
        }
    }
    bool cond(int x) {
        ++evaluations;
        return flag[x % Flags] > 0;
    }
    int value(int x) {
        ++evaluations;
        return flag[x % Flags];
    }
    // (not counted: gcc evaluates awaits in conditions more often)
    int nowValuePlain(int x) { return flag[x % Flags]; }
    QCoro::Task<int> nowValue(int x) { co_return nowValuePlain(x); }
};

struct Guard {
    Guard(Env &env, int d) : e(env), depth(d) { ++e.guards; }
    ~Guard() {
        --e.guards;
        e.note(-1, "leaves depth ", depth);
    }
    Env &e;
    int depth;
};

#define PFX(name) Q##name
#define RET void
#define BODY plainBody
#define VAL(x) e.eval((QTest::qWait((x) % 2 ? (x) * 3 : 0), (x)))
#define VALRAISE(x) (QTest::qWait((x) % 2 ? 5 : 0), e.raise(x), 0)
#define NOW(x) e.nowValuePlain(x)
#define SLEEP(ms) QTest::qWait(ms)
// Qt's macros rethrow exceptions which are not a std::exception, QCoro's do not
#define SUB(...) try { plainBody(__VA_ARGS__); } catch (...) { }
#define END return
#include "C27_body.inc"
#undef PFX
#undef RET
#undef BODY
#undef VAL
#undef VALRAISE
#undef NOW
#undef SLEEP
#undef SUB
#undef END

#define PFX(name) QCORO_##name
#define RET QCoro::Task<>
#define BODY coroutineBody
#define VAL(x) e.eval(co_await e.later(x))
#define VALRAISE(x) co_await e.raiseLater(x)
#define NOW(x) co_await e.nowValue(x)
#define SLEEP(ms) co_await QCoro::sleepFor(milliseconds(ms))
#define SUB(...) co_await coroutineBody(__VA_ARGS__)
#define END co_return
#include "C27_body.inc"

class Subject : public QObject {
    Q_OBJECT
public:
    bool coroutine = false;
    int rows = 0;
    std::vector<Op> ops;
    std::vector<std::vector<std::string>> traces;
    std::vector<std::string> escaped;
    bool callbackFailed = false;
    int unfinished = 0;

private Q_SLOTS:
    void function_data() {
        QTest::addColumn<int>("number");
        for (int n = 0; n < std::max(rows, 1); ++n) {
            QTest::newRow(qPrintable(QStringLiteral("row%1").arg(n))) << n;
        }
    }
    void function() {
        Env env;
        env.ops = ops;
        env.start = vloop::now();
        const int size = static_cast<int>(ops.size());
        try {
            if (coroutine) {
                auto task = coroutineBody(env, 0, size, 0);
                QCoro::waitFor(task);
                if (!task.isReady()) {
                    ++unfinished;
                }
            } else {
                plainBody(env, 0, size, 0);
            }
        } catch (...) {
            escaped.push_back("escaped");
        }
        // how often the waiting macros look at the condition is up to them
        const bool polling = std::any_of(ops.begin(), ops.end(), [](const Op &o) { return o.k == TryVerify || o.k == TryCompare; });
        env.trace.push_back(str(polling ? 0 : env.evaluations, " evaluations, ", env.guards, " guards"));
        callbackFailed = callbackFailed || env.failing;
        traces.push_back(env.trace);
    }
};

struct Incident {
    std::string type, description;
    int line;
    bool operator==(const Incident &) const = default;
};

std::string normalized(QString s) {
    // arguments which a macro forwards are parenthesized (and aligned) differently
    s.replace(QStringLiteral("co_await e.nowValue"), QStringLiteral("e.nowValuePlain"));
    s.remove(QLatin1Char('('));
    s.remove(QLatin1Char(')'));
    return s.simplified().replace(QStringLiteral(" :"), QStringLiteral(":")).toStdString();
}

//! The verdicts and messages of one run
std::vector<Incident> incidents(const QString &file) {
    std::vector<Incident> list;
    QFile f(file);
    if (!f.open(QIODevice::ReadOnly)) {
        list.push_back({"no log", "", 0});
        return list;
    }
    QXmlStreamReader xml(&f);
    Incident at;
    QString tag;
    bool inside = false;
    while (!xml.atEnd()) {
        switch (xml.readNext()) {
        case QXmlStreamReader::StartElement:
            if (xml.name() == QLatin1String("Incident") || xml.name() == QLatin1String("Message")) {
                at = {xml.attributes().value(QLatin1String("type")).toString().toStdString(), "",
                      xml.attributes().value(QLatin1String("line")).toInt()};
                inside = true;
            }
            break;
        case QXmlStreamReader::Characters:
            if (inside && !xml.isWhitespace()) {
                at.description += "|" + normalized(xml.text().toString());
            }
            break;
        case QXmlStreamReader::EndElement:
            if (xml.name() == QLatin1String("Incident") || xml.name() == QLatin1String("Message")) {
                inside = false;
                list.push_back(at);
            }
            break;
        default:
            break;
        }
    }
    if (xml.hasError()) {
        list.push_back({"malformed log", xml.errorString().toStdString(), 0});
    }
    return list;
}

QTemporaryDir *scratch = nullptr;

void run(const Case &c, Run &run) {
    vloop::settle();
    vloop::resetTimers();
    std::vector<Incident> logs[2];
    int status[2];
    Subject subject[2];
    const QString file = scratch->filePath(QStringLiteral("log.xml"));
    int waited[2];
    for (int side = 0; side < 2; ++side) {
        Subject &s = subject[side];
        s.coroutine = side == 1;
        s.rows = 1 + c.cfg[0];
        s.ops = c.ops;
        QFile::remove(file);
        waits = 0;
        status[side] = QTest::qExec(&s, {QStringLiteral("test"), QStringLiteral("-nocrashhandler"), QStringLiteral("-o"),
                                         file + QStringLiteral(",xml")});
        waited[side] = waits;
        logs[side] = incidents(file);
        vloop::settle();
        vloop::resetTimers();
        for (const auto &i : logs[side]) {
            PBT_LOG(side ? "coroutine: " : "plain: ", i.type, " line ", i.line, " ", i.description);
        }
        for (const auto &t : s.traces) {
            for (const auto &l : t) {
                PBT_LOG(side ? "coroutine: " : "plain: ", l);
            }
        }
    }
    const bool relaxed = subject[0].callbackFailed || subject[1].callbackFailed;
    PBT_CHECK(subject[1].unfinished == 0, "the test coroutine did not finish");
    PBT_CHECK(status[0] == status[1], "the coroutine has ", status[1], " failures instead of ", status[0]);
    const auto verdicts = [](const std::vector<Incident> &all) {
        std::vector<std::string> v;
        for (const auto &i : all) {
            v.push_back(i.type);
        }
        return v;
    };
    PBT_CHECK(logs[0].size() == logs[1].size(), "the coroutine logs ", logs[1].size(), " incidents instead of ", logs[0].size());
    for (std::size_t n = 0; n < std::min(logs[0].size(), logs[1].size()) && !run.failed(); ++n) {
        const Incident &want = logs[0][n];
        const Incident &got = logs[1][n];
        PBT_CHECK(want.type == got.type, "incident ", n, " of the coroutine is ", got.type, " instead of ", want.type);
        PBT_CHECK(want.line == got.line, "incident ", n, " (", got.type, ") is reported at line ", got.line, " instead of ", want.line);
        // the wording for an unexpected exception varies among the versions of Qt
        const bool exception = want.description.find("xception of type") != std::string::npos;
        if (exception) {
            PBT_CHECK(got.description.find("xception of type") != std::string::npos, "incident ", n, " says ", got.description);
            for (const char *type : {"std::runtime_error", "std::exception", "Custom", "std::logic_error"}) {
                const std::string s = str("of type ", type, " ");
                PBT_CHECK((want.description.find(s) == std::string::npos) == (got.description.find(s) == std::string::npos), "incident ", n,
                          " says ", got.description, " instead of ", want.description);
            }
            for (const char *what : {"runtime", "logic", "range", "no exception"}) {
                const auto tail = [&](const std::string &d) { return d.substr(d.find("to be thrown")).find(what) == std::string::npos; };
                PBT_CHECK(got.description.find("to be thrown") != std::string::npos && tail(want.description) == tail(got.description),
                          "incident ", n, " says ", got.description, " instead of ", want.description);
            }
        } else {
            PBT_CHECK(want.description == got.description, "incident ", n, " says ", got.description, " instead of ", want.description);
        }
    }
    PBT_CHECK(subject[0].escaped.empty() || subject[1].traces.size() == subject[0].traces.size(), "row count");
    if (!relaxed) {
        PBT_CHECK(subject[0].traces.size() == subject[1].traces.size(), "the coroutine ran ", subject[1].traces.size(), " times instead of ",
                  subject[0].traces.size());
        for (std::size_t n = 0; n < subject[0].traces.size() && !run.failed(); ++n) {
            const auto &want = subject[0].traces[n];
            const auto &got = subject[1].traces[n];
            for (std::size_t k = 0; k < std::max(want.size(), got.size()) && !run.failed(); ++k) {
                PBT_CHECK(k < want.size(), "row ", n, ": the coroutine continues with ", got[k]);
                PBT_CHECK(k < got.size(), "row ", n, ": the coroutine misses ", want[k]);
                PBT_CHECK(k >= want.size() || k >= got.size() || want[k] == got[k], "row ", n, ": the coroutine does '", got[k], "' instead of '",
                          want[k], "'");
            }
        }
    }
    bool bad = false;
    for (const auto &v : verdicts(logs[0])) {
        run.tag(v);
        bad = bad || v != "pass";
    }
    for (const auto &o : c.ops) {
        static const char *const names[] = {"VERIFY", "VERIFY", "VERIFY", "VERIFY2", "COMPARE", "COMPARE", "FAIL", "SKIP", "EXPECT_FAIL",
                                            "THROWS", "TEST", nullptr, "TRY_VERIFY", "TRY_COMPARE", nullptr, "nested", "if-else"};
        if (names[o.k]) {
            run.tag(names[o.k]);
        }
    }
    if (relaxed) {
        run.tag("failed-by-callback");
    }
    bool early = false;
    for (const auto &t : subject[0].traces) {
        early = early || std::none_of(t.begin(), t.end(), [](const std::string &l) { return l.find("completed") != std::string::npos; });
    }
    if (early) {
        run.tag("left-early");
    }
    if (bad && c.ops.size() > 1) {
        run.nontrivial();
    }
}

//! Only replayed, for the known finding
void defined(const Case &, Run &) {
    PBT_CHECK(!std::strstr(expandedTry, "QCORO_TRY_LOOP_IMPL"), "QCORO_TRY_VERIFY_WITH_TIMEOUT() refers to the undefined QCORO_TRY_LOOP_IMPL");
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    QTemporaryDir dir;
    scratch = &dir;
    Scenario sc;
    sc.name = "macros";
    sc.rule = "test functions of up to 14 generated steps using all macros (nested functions, awaited operands, expected failures, skips, "
              "exceptions, waiting macros against conditions changing in virtual time), over up to three data rows, run by QTest::qExec as a "
              "plain function and as a coroutine; non-trivial when the plain function does not only pass and has several steps";
    sc.cfg = {{"rows", 2}};
    sc.ops = {{"verify", 4, 5, 3}, {"verifyAsync", 3, 5, 3}, {"verifyPointer", 1, 3}, {"verify2", 3, 3, 2}, {"compare", 6, 3, 3, 7},
              {"compareAsync", 3, 5, 3}, {"fail", 1, 5, 2}, {"skip", 1, 5, 2}, {"expectFail", 6, 3, 3}, {"throws", 4, 3, 5},
              {"test", 1, 2}, {"arm", 8, 5, 7, 4}, {"tryVerify", 4, 2, 4, 3}, {"tryCompare", 4, 2, 4, 3}, {"sleep", 2, 9, 9},
              {"sub", 3, 5}, {"ifElse", 1, 3, 2}};
    sc.maxOps = 14;
    sc.quickCases = 9000;
    sc.thoroughCases = 100000;
    sc.run = run;
    Scenario undefined;
    undefined.name = "defined";
    undefined.rule = "replayed only: the waiting macros expand to something that exists";
    undefined.ops = {{"expand", 1}};
    undefined.maxOps = 1;
    undefined.quickCases = undefined.thoroughCases = 0;
    undefined.run = defined;
    const int result = pbt::main(argc, argv, "C27", {sc, undefined});
    return result;
}

#include "C27.moc"
