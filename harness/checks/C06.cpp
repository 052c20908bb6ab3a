// C06: co_return delivers exactly the returned value and does not alter its source.
#include "C06.h"

using namespace c06;

namespace {

void run(const Case &c, Run &run) {
    static const auto all = [] {
        std::vector<TypeRunner> v;
        for (const auto *part : {&typesA, &typesB, &typesC, &typesD}) {
            v.insert(v.end(), part->begin(), part->end());
        }
        return v;
    }();
    for (const auto &op : c.ops) {
        const Params pr{op.b % 2 == 1, op.c % 100 + 1, op.c / 100 + 1};
        const bool lazy = (op.b / 2) % 2;
        const int how = (op.b / 4) % 6;
        const int form = op.b / 24;
        if (op.k == 0) {
            PBT_LOG("type ", op.a, " form ", form, lazy ? " lazy" : "", pr.suspend ? " suspending" : "");
            all[static_cast<std::size_t>(op.a)](static_cast<Form>(form), pr, lazy, how, run);
        } else {
            runConversion(op.a, form % 4, pr, lazy, how, run);
        }
        if (run.failed()) {
            break;
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    vloop::install();
    QCoreApplication app(argc, argv);
    Scenario sc;
    sc.name = "returns";
    sc.rule = "co_return in Task and LazyTask coroutines of 27 result types and 22 converting pairs, from 15 forms of source "
              "expressions, with generated values, delivered by co_await, waitFor() or then() with and without suspension; "
              "non-trivial when the source outlives the coroutine, is move-only or is converted";
    sc.ops = {{"return", 3, Types - 1, 24 * Forms - 1, 9999}, {"convert", 1, Conversions - 1, 24 * 4 - 1, 9999}};
    sc.maxOps = 12;
    sc.minOps = 1;
    sc.quickCases = 100000;
    sc.thoroughCases = 800000;
    sc.run = run;
    return pbt::main(argc, argv, "C06", {sc});
}
