#include "pbt.h"

#include <rapidcheck.h>

#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

#include <QtGlobal>
#include <QString>

namespace pbt {

Run *current = nullptr;

void Run::fail(const std::string &msg) {
    if (!mFailed) {
        mFailed = true;
        mMessage = msg;
    }
    if (verbose) {
        std::cerr << "  FAIL: " << msg << std::endl;
    }
}

void Run::log(const std::string &line) {
    if (verbose) {
        std::cerr << "  " << line << std::endl;
    }
}

namespace {

constexpr std::size_t StateSize = 1 << 18;
char *gState = nullptr; // shared, file-backed: survives a crash of this process

void writeState(const std::string &text) {
    if (!gState) {
        return;
    }
    const auto n = std::min(text.size(), StateSize - 1);
    std::memcpy(gState, text.data(), n);
    gState[n] = '\0';
}

void openState(const std::string &path) {
    const int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ::ftruncate(fd, StateSize) != 0) {
        std::perror("state file");
        std::exit(2);
    }
    gState = static_cast<char *>(::mmap(nullptr, StateSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    ::close(fd);
}

std::string gProperty;

std::string caseText(const Scenario &sc, const Case &c, const std::string &message = {}) {
    std::ostringstream os;
    os << "property " << gProperty << "\nscenario " << sc.name << "\n";
    if (!message.empty()) {
        std::string m = message;
        for (auto &ch : m) {
            if (ch == '\n') {
                ch = ' ';
            }
        }
        os << "# " << m << "\n";
    }
    for (std::size_t i = 0; i < c.cfg.size(); ++i) {
        os << "cfg " << sc.cfg[i].name << " " << c.cfg[i] << "\n";
    }
    for (const auto &op : c.ops) {
        os << "op " << sc.ops[static_cast<std::size_t>(op.k)].name << " " << op.a << " " << op.b << " " << op.c << "\n";
    }
    return os.str();
}

const Scenario *findScenario(const std::vector<Scenario> &scs, const std::string &name) {
    for (const auto &s : scs) {
        if (s.name == name) {
            return &s;
        }
    }
    return nullptr;
}

bool parseCase(std::istream &in, const std::vector<Scenario> &scs, const Scenario *&sc, Case &c) {
    std::string line;
    sc = nullptr;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string w;
        ls >> w;
        if (w == "scenario") {
            std::string n;
            ls >> n;
            sc = findScenario(scs, n);
            if (!sc) {
                return false;
            }
            c.cfg.assign(sc->cfg.size(), 0);
        } else if (w == "cfg" && sc) {
            std::string n;
            int v = 0;
            ls >> n >> v;
            for (std::size_t i = 0; i < sc->cfg.size(); ++i) {
                if (n == sc->cfg[i].name) {
                    c.cfg[i] = std::min(std::max(v, 0), sc->cfg[i].max);
                }
            }
        } else if (w == "op" && sc) {
            std::string n;
            Op op;
            ls >> n >> op.a >> op.b >> op.c;
            bool found = false;
            for (std::size_t i = 0; i < sc->ops.size(); ++i) {
                if (n == sc->ops[i].name) {
                    op.k = static_cast<int>(i);
                    op.a = std::min(std::max(op.a, 0), sc->ops[i].amax);
                    op.b = std::min(std::max(op.b, 0), sc->ops[i].bmax);
                    op.c = std::min(std::max(op.c, 0), sc->ops[i].cmax);
                    found = true;
                }
            }
            if (!found) {
                return false;
            }
            c.ops.push_back(op);
        }
    }
    return sc != nullptr;
}

int pick(rc::Random &r, int max) {
    if (max <= 0) {
        return 0;
    }
    return static_cast<int>(r.next() % (static_cast<uint64_t>(max) + 1));
}

rc::Gen<Case> genCase(const Scenario &sc) {
    return rc::Gen<Case>([&sc](const rc::Random &random, int size) -> rc::Shrinkable<Case> {
        rc::Random r(random);
        Case c;
        for (const auto &spec : sc.cfg) {
            c.cfg.push_back(pick(r, spec.max));
        }
        int total = 0;
        for (const auto &o : sc.ops) {
            total += o.weight;
        }
        if (total > 0) {
            // rapidcheck grows `size` from 0 to 100 over a campaign; let a part of the cases use the full length
            // right away so that short campaigns see long histories as well.
            int bound = std::max(3, sc.maxOps * size / 100);
            if (pick(r, 3) == 0) {
                bound = sc.maxOps;
            }
            bound = std::max(bound, sc.minOps);
            const int n = sc.minOps + pick(r, bound - sc.minOps);
            // swarm testing: disable some kinds of operations in half of the cases
            std::vector<int> weight;
            const bool swarm = pick(r, 1) == 1;
            int sum = 0;
            for (const auto &o : sc.ops) {
                weight.push_back(swarm && pick(r, 2) == 0 ? 0 : o.weight);
                sum += weight.back();
            }
            if (sum == 0) {
                for (std::size_t i = 0; i < weight.size(); ++i) {
                    weight[i] = sc.ops[i].weight;
                }
                sum = total;
            }
            for (int i = 0; i < n; ++i) {
                int x = pick(r, sum - 1);
                std::size_t k = 0;
                while (x >= weight[k]) {
                    x -= weight[k];
                    ++k;
                }
                Op op;
                op.k = static_cast<int>(k);
                op.a = pick(r, sc.ops[k].amax);
                op.b = pick(r, sc.ops[k].bmax);
                op.c = pick(r, sc.ops[k].cmax);
                c.ops.push_back(op);
            }
        }
        // Shrinking happens out of process (tools/driver.py), where every candidate gets a fresh process: candidates
        // may crash or hang.
        return rc::shrinkable::just(std::move(c));
    });
}

uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
        h = (h ^ ch) * 1099511628211ull;
    }
    return h;
}

std::string jsonEscape(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                char buf[8];
                std::snprintf(buf, sizeof buf, "\\u%04x", ch);
                o += buf;
            } else {
                o += static_cast<char>(ch);
            }
        }
    }
    return o;
}

void onAlarm(int) {
    static const char msg[] = "\nPBT-HANG\n";
    if (gState) {
        gState[StateSize - 1] = 'H';
    }
    [[maybe_unused]] auto n = ::write(2, msg, sizeof msg - 1);
    ::_exit(97);
}

void armWatchdog(int sec) {
    itimerval tv{};
    tv.it_value.tv_sec = sec;
    ::setitimer(ITIMER_REAL, &tv, nullptr);
}

bool gVerboseMessages = false;
void messageHandler(QtMsgType type, const QMessageLogContext &, const QString &msg) {
    if (gVerboseMessages || type == QtFatalMsg) {
        std::cerr << "  [qt] " << msg.toStdString() << std::endl;
    }
}

void execute(const Scenario &sc, const Case &c, Run &run) {
    current = &run;
    armWatchdog(sc.caseTimeoutSec);
    sc.run(c, run);
    armWatchdog(0);
    current = nullptr;
}

struct ScenarioStats {
    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> tags;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
};

int search(const std::vector<Scenario> &scs, uint64_t seed, int worker, bool thorough, const std::string &outDir,
           double maxSeconds, const std::string &only, double factor) {
    const auto base = outDir + "/w" + std::to_string(worker);
    openState(base + ".state");
    const auto start = std::chrono::steady_clock::now();
    bool failed = false;
    bool truncated = false;
    std::string failure;
    std::string failedScenario;
    std::map<std::string, ScenarioStats> stats;

    for (const auto &sc : scs) {
        if (!only.empty() && sc.name != only) {
            continue;
        }
        auto &st = stats[sc.name];
        const auto gen = genCase(sc);
        rc::detail::TestParams params;
        params.seed = seed * 1000003ull + static_cast<uint64_t>(worker) * 7919ull + fnv(sc.name);
        if (sc.quickCases == 0) {
            continue; // only replayed
        }
        params.maxSuccess = std::max(1, static_cast<int>((thorough ? sc.thoroughCases : sc.quickCases) * factor));
        params.maxSize = 100;
        params.disableShrinking = true;
        rc::detail::TestMetadata meta;
        meta.id = sc.name;
        meta.description = sc.name;
        bool stop = false;
        rc::detail::checkTestable(
            [&]() {
                const Case c = *gen;
                if (stop) {
                    return;
                }
                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > maxSeconds) {
                    truncated = true;
                    stop = true;
                    return;
                }
                const auto text = caseText(sc, c);
                writeState(text);
                Run run;
                execute(sc, c, run);
                ++st.evaluations;
                for (const auto &t : run.tags()) {
                    ++st.tags[t];
                }
                if (run.isNontrivial() && st.hashes.insert(fnv(text)).second && st.samples.size() < 2
                    && st.hashes.size() % 37 == 1) {
                    st.samples.push_back(text);
                }
                if (run.failed()) {
                    failed = true;
                    failure = caseText(sc, c, run.message());
                    failedScenario = sc.name;
                    stop = true;
                    RC_FAIL(run.message());
                }
            },
            meta, params);
        if (failed) {
            break;
        }
    }

    std::ofstream hashes(base + ".hashes");
    std::ofstream out(base + ".json");
    out << "{\"worker\": " << worker << ", \"failed\": " << (failed ? "true" : "false")
        << ", \"truncated\": " << (truncated ? "true" : "false") << ", \"failure\": \"" << jsonEscape(failure)
        << "\", \"scenarios\": {";
    bool first = true;
    for (const auto &[name, st] : stats) {
        out << (first ? "" : ", ") << "\"" << name << "\": {\"evaluations\": " << st.evaluations
            << ", \"nontrivial\": " << st.hashes.size() << ", \"tags\": {";
        first = false;
        bool f2 = true;
        for (const auto &[t, n] : st.tags) {
            out << (f2 ? "" : ", ") << "\"" << jsonEscape(t) << "\": " << n;
            f2 = false;
        }
        out << "}, \"samples\": [";
        f2 = true;
        for (const auto &s : st.samples) {
            out << (f2 ? "" : ", ") << "\"" << jsonEscape(s) << "\"";
            f2 = false;
        }
        out << "]}";
        for (const auto h : st.hashes) {
            hashes << name << " " << h << "\n";
        }
    }
    out << "}}\n";
    out.close();
    hashes.close();
    std::fflush(nullptr);
    ::_exit(failed ? 10 : 0);
}

int replay(const std::vector<Scenario> &scs, const std::string &file, bool verbose) {
    std::ifstream in(file);
    const Scenario *sc = nullptr;
    Case c;
    if (!in || !parseCase(in, scs, sc, c)) {
        std::cerr << "cannot read case " << file << std::endl;
        ::_exit(2);
    }
    Run run;
    run.verbose = verbose;
    run.replaying = true;
    gVerboseMessages = verbose;
    execute(*sc, c, run);
    if (run.failed()) {
        std::cerr << "PBT-FAIL: " << run.message() << std::endl;
    }
    std::fflush(nullptr);
    ::_exit(run.failed() ? 10 : 0);
}

} // namespace

void abandon(const std::string &msg) {
    std::cerr << "PBT-FAIL: " << msg << std::endl;
    std::fflush(nullptr);
    ::_exit(96);
}

int main(int argc, char **argv, const std::string &property, const std::vector<Scenario> &scenarios) {
    gProperty = property;
    std::signal(SIGALRM, onAlarm);
    std::signal(SIGPIPE, SIG_IGN);
    std::map<std::string, std::string> args;
    for (int i = 2; i + 1 < argc; i += 2) {
        args[argv[i]] = argv[i + 1];
    }
    const std::string mode = argc > 1 ? argv[1] : "";
    if (!qEnvironmentVariableIsSet("PBT_QT_MESSAGES")) {
        qInstallMessageHandler(messageHandler);
    }
    if (mode == "search") {
        return search(scenarios, std::stoull(args["--seed"]), std::stoi(args["--worker"]), args["--tier"] == "thorough",
                      args["--out"], std::stod(args["--max-seconds"]), args["--only"],
                      args.count("--factor") ? std::stod(args["--factor"]) : 1.0);
    }
    if (mode == "replay" && argc > 2) {
        return replay(scenarios, argv[2], args.size() == 0 || !qEnvironmentVariableIsSet("PBT_QUIET"));
    }
    if (mode == "list") {
        for (const auto &s : scenarios) {
            std::cout << s.name << "\t" << s.rule << "\n";
        }
        return 0;
    }
    std::cerr << "usage: " << argv[0] << " search|replay|list ..." << std::endl;
    return 2;
}

} // namespace pbt
