// C02: the state of a Task coroutine is destroyed exactly once, at the right time.
#include "taskworld.h"

#include <QCoreApplication>

using namespace pbt;

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);

    Scenario sc;
    sc.name = "programs";
    sc.rule = "generated programs of coroutines whose tasks are dropped, moved, overwritten and self-assigned; non-trivial "
              "when a task object went away or moved while its coroutine was suspended, the coroutine finished later, and "
              "some await was delivered after suspension";
    sc.cfg = tw::cfgSpecs();
    sc.ops = tw::opSpecs();
    sc.maxOps = 45;
    sc.minOps = 6;
    sc.quickCases = 100000;
    sc.thoroughCases = 800000;
    sc.run = [](const Case &c, Run &run) {
        tw::runProgram(c, run, false, true);
    };
    return pbt::main(argc, argv, "C02", {sc});
}
