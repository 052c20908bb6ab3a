// Included by C09.cpp for every TYPE: gcc cannot compile QCORO_FOREACH over a generator of a dependent type.
QCoro::Task<> emptyConsumer(World &w, bool temporary, std::integral_constant<int, TYPE>) {
    w.consumers.emplace_back();
    auto &c = w.consumers.back();
    Gen<TYPE> gen;
    int k = 0;
    if (temporary) {
        QCORO_FOREACH(auto &&v, Gen<TYPE>()) {
            (void)v;
            ++k;
        }
    } else {
        auto it = co_await gen.begin();
        PBT_CHECK(it == gen.end(), "begin() of an empty generator is not its end()");
        QCORO_FOREACH(auto &&v, gen) {
            (void)v;
            ++k;
        }
    }
    PBT_CHECK(k == 0, "an empty generator yielded something");
    c.done = true;
}

//! QCORO_FOREACH over a whole generator which was not begun yet
QCoro::Task<> looper(World &w, int s, int count, int gate, std::integral_constant<int, TYPE>) {
    auto &e = std::get<TYPE>(w.entries)[s];
    w.consumers.emplace_back();
    auto &c = w.consumers.back();
    const int n = e.node;
    w.nodes[n].busy = true;
    e.begun = true;
    ++w.foreachs;
    LOOP(*e.gen);
    w.nodes[n].busy = false;
    c.done = true;
}
QCoro::Task<> tempLooper(World &w, int script, int count, int gate, std::integral_constant<int, TYPE>) {
    const int n = w.newNode(TYPE, script, 0);
    if (n < 0) {
        co_return;
    }
    w.consumers.emplace_back();
    auto &c = w.consumers.back();
    ++w.foreachs;
    LOOP(call<TYPE>(w, n));
    w.ended(n);
    c.done = true;
}

