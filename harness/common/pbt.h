// Property-based testing frame shared by all checks.
//
// A check is a set of scenarios. A scenario declares a generator domain (configuration numbers plus a list of
// operations with bounded arguments, every combination of which is a valid case) and an interpreter which executes
// the case against QCoro and compares what it observes with a reference model. Cases are generated by rapidcheck.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Op {
    int k = 0; // kind, index into Scenario::ops
    int a = 0;
    int b = 0;
    int c = 0;
};

struct Case {
    std::vector<int> cfg;
    std::vector<Op> ops;
};

struct OpSpec {
    const char *name;
    int weight;
    int amax = 0; // arguments are generated in [0, max]
    int bmax = 0;
    int cmax = 0;
};

struct CfgSpec {
    const char *name;
    int max;
};

class Run {
public:
    //! Records a property violation (only the first one is kept).
    void fail(const std::string &msg);
    bool failed() const { return mFailed; }
    const std::string &message() const { return mMessage; }

    //! Counts the case under a label of the coverage distribution.
    void tag(const std::string &label) { mTags.insert(label); }
    //! Marks the case as non-trivial by the scenario's rule.
    void nontrivial() { mNontrivial = true; }
    bool isNontrivial() const { return mNontrivial; }
    const std::set<std::string> &tags() const { return mTags; }

    //! Human readable history of the run, printed on replay
    void log(const std::string &line);
    bool verbose = false;
    bool replaying = false; // a saved case: one whose outcome depends on chance may be tried repeatedly

private:
    bool mFailed = false;
    bool mNontrivial = false;
    std::string mMessage;
    std::set<std::string> mTags;
};

struct Scenario {
    std::string name;
    std::string rule; // what makes a case non-trivial
    std::vector<CfgSpec> cfg;
    std::vector<OpSpec> ops;
    int maxOps = 20;
    int quickCases = 1000;    // per worker
    int thoroughCases = 10000; // per worker
    std::function<void(const Case &, Run &)> run;
    int caseTimeoutSec = 30; // a case running longer than this (real time) is a hang
    int minOps = 0;
};

//! The current run; lets helpers deep inside a coroutine report failures.
extern Run *current;

inline std::string str() { return {}; }
template<typename... A>
std::string str(const A &...args) {
    std::ostringstream os;
    (os << ... << args);
    return os.str();
}

#define PBT_FAIL(...) ::pbt::current->fail(::pbt::str(__VA_ARGS__))
#define PBT_CHECK(cond, ...)                                                                                          \
    do {                                                                                                              \
        if (!(cond)) {                                                                                                \
            ::pbt::current->fail(::pbt::str(__VA_ARGS__));                                                            \
        }                                                                                                             \
    } while (false)
#define PBT_LOG(...)                                                                                                  \
    do {                                                                                                              \
        if (::pbt::current->verbose) {                                                                                \
            ::pbt::current->log(::pbt::str(__VA_ARGS__));                                                             \
        }                                                                                                             \
    } while (false)

//! Called when a case cannot be completed (e.g. a deadlocked nested event loop): reports the failure and terminates
//! the process; the driver takes over from the recorded case.
[[noreturn]] void abandon(const std::string &msg);

//! Entry point of every check binary
int main(int argc, char **argv, const std::string &property, const std::vector<Scenario> &scenarios);

} // namespace pbt
