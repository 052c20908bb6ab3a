// The body of a test function, compiled as a plain function with the QtTest macros and as a coroutine with the QCORO_
// macros (PFX, RET, VAL, NOW, SLEEP, SUB are defined by the includer).
RET BODY(Env &e, int from, int to, int depth) {
    Guard guard(e, depth);
    const auto &ops = e.ops;
    for (int i = from; i < to; ++i) {
        const Op &o = ops[static_cast<std::size_t>(i)];
        e.note(i, "begin");
        const int x = o.a, y = o.b;
        switch (o.k) {
        case Verify:
            PFX(VERIFY)(e.eval(x) > y);
            break;
        case VerifyAsync:
            PFX(VERIFY)(VAL(x) == y);
            break;
        case VerifyPointer: {
            const int *pointer = x % 2 ? &x : nullptr;
            PFX(VERIFY)(pointer);
            break;
        }
        case Verify2:
            PFX(VERIFY2)(e.eval(x) == y, e.describe(y));
            break;
        case Compare:
            switch (o.c % 8) {
            case 0: PFX(COMPARE)(e.eval(x), y); break;
            case 1: PFX(COMPARE)(strings(x), strings(y)); break;
            case 2: PFX(COMPARE)(doubles(x), doubles(y)); break;
            case 3: PFX(COMPARE)(lists(x), lists(y)); break;
            case 4: PFX(COMPARE)(x % 2 == 0, y % 2 == 0); break;
            case 5: PFX(COMPARE)(strings(x).toUtf8(), strings(y).toUtf8()); break;
            case 6: PFX(COMPARE)(cstrings(x), cstrings(y)); break;
            case 7: PFX(COMPARE)(Plain{x % 2}, Plain{y % 2}); break;
            }
            break;
        case CompareAsync:
            PFX(COMPARE)(VAL(x), y);
            break;
        case Fail:
            if (x == 0) {
                PFX(FAIL)("plain failure");
            } else if (x == 1) {
                PFX(FAIL)(e.describe(y));
            }
            break;
        case Skip:
            if (x == 0) {
                PFX(SKIP)("skipped");
            } else if (x == 1) {
                PFX(SKIP)(e.describe(y));
            }
            break;
        case ExpectFail:
            if (y % 2) {
                PFX(EXPECT_FAIL)(indexes[x % 4], e.describe(y), Continue);
            } else {
                PFX(EXPECT_FAIL)(indexes[x % 4], "known", Abort);
            }
            break;
        case Throws:
            switch (x % 4) {
            case 0: PFX(VERIFY_THROWS_EXCEPTION)(std::runtime_error, e.raise(y)); break;
            case 1: PFX(VERIFY_THROWS_EXCEPTION)(std::exception, e.raise(y); e.note(i, "unreached")); break;
            case 2: PFX(VERIFY_THROWS_EXCEPTION)(Custom, (void) VALRAISE(y)); break;
            case 3: PFX(VERIFY_EXCEPTION_THROWN)(e.raise(y), std::logic_error); break;
            }
            break;
        case Test: {
            PFX(TEST)(x, "number");
            break;
        }
        case Arm:
            e.arm(x, y, o.c);
            break;
        case TryVerify:
            switch (o.c % 4) {
            case 0: PFX(TRY_VERIFY)(e.cond(x)); break;
            case 1: PFX(TRY_VERIFY_WITH_TIMEOUT)(e.cond(x), timeouts[y % 5]); break;
            case 2: PFX(TRY_VERIFY2)(e.cond(x), e.describe(y)); break;
            case 3: PFX(TRY_VERIFY2_WITH_TIMEOUT)(e.cond(x), e.describe(y), timeouts[y % 5]); break;
            }
            break;
        case TryCompare:
            switch (o.c % 4) {
            case 0: PFX(TRY_COMPARE)(e.value(x), y % 3); break;
            case 1: PFX(TRY_COMPARE_WITH_TIMEOUT)(e.value(x), 1, timeouts[y % 5]); break;
            case 2: PFX(TRY_COMPARE_WITH_TIMEOUT)(NOW(x), y % 3, timeouts[y % 5] + x); break;
            case 3: PFX(TRY_VERIFY_WITH_TIMEOUT)(NOW(x) == 2, timeouts[y % 5]); break;
            }
            break;
        case Sleep:
            SLEEP(x * 7 + y);
            break;
        case Sub: {
            const int end = std::min(to, i + 1 + x);
            if (depth < 3) {
                SUB(e, i + 1, end, depth + 1);
                e.note(i, "returned");
                i = end - 1;
            }
            break;
        }
        case IfElse: // the macros are single statements
            if (x % 2)
                PFX(VERIFY)(x > y);
            else
                PFX(COMPARE)(x, y);
            break;
        }
        e.note(i, "end");
    }
    e.note(-1, "completed");
    END;
}
