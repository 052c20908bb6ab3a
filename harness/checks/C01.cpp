// C01: a Task delivers its outcome to every awaiter exactly once.
#include "taskworld.h"

#include <QCoreApplication>

using namespace pbt;

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);

    Scenario sc;
    sc.name = "programs";
    sc.rule = "generated programs of coroutines awaiting tasks in shared slots, temporaries and locals; non-trivial when at "
              "least one await really suspended and was delivered later and either a task had several awaiters or an "
              "exception was delivered";
    sc.cfg = tw::cfgSpecs();
    sc.ops = tw::opSpecs();
    sc.maxOps = 45;
    sc.minOps = 6;
    sc.quickCases = 100000;
    sc.thoroughCases = 800000;
    sc.run = [](const Case &c, Run &run) {
        tw::runProgram(c, run, true, false);
    };
    return pbt::main(argc, argv, "C01", {sc});
}
