// Instance-counted objects: detect leaked, prematurely destroyed and doubly destroyed state.
#pragma once

#include "pbt.h"

#include <coroutine>
#include <exception>
#include <map>
#include <optional>
#include <stdexcept>
#include <vector>

namespace pbt {

//! A value with a logical id; copies and moves keep the id. Live instances are counted by id.
class Tracked {
public:
    static constexpr uint32_t Alive = 0x600dc0de;
    static constexpr uint32_t Dead = 0xdeaddead;

    explicit Tracked(int id = -1) : mId(id) { ++live()[mId]; ++total(); }
    Tracked(const Tracked &o) : mId(o.checked()), mMovedFrom(o.mMovedFrom) { ++live()[mId]; ++total(); }
    Tracked(Tracked &&o) noexcept : mId(o.checked()), mMovedFrom(o.mMovedFrom) {
        o.mMovedFrom = true;
        ++live()[mId];
        ++total();
    }
    Tracked &operator=(const Tracked &o) {
        checked();
        if (this != &o) {
            --live()[mId];
            mId = o.checked();
            mMovedFrom = o.mMovedFrom;
            ++live()[mId];
        }
        return *this;
    }
    Tracked &operator=(Tracked &&o) noexcept {
        checked();
        if (this != &o) {
            --live()[mId];
            mId = o.checked();
            mMovedFrom = o.mMovedFrom;
            o.mMovedFrom = true;
            ++live()[mId];
        }
        return *this;
    }
    ~Tracked() {
        checked();
        --live()[mId];
        --total();
        mMagic = Dead;
    }

    int id() const { return checked(); }
    bool movedFrom() const { return mMovedFrom; }

    static std::map<int, int> &live() {
        static std::map<int, int> m;
        return m;
    }
    static int &total() {
        static int n = 0;
        return n;
    }
    static int liveOf(int id) {
        const auto it = live().find(id);
        return it == live().end() ? 0 : it->second;
    }
    static void reset() {
        live().clear();
        total() = 0;
    }

private:
    int checked() const {
        if (mMagic != Alive) {
            if (pbt::current) {
                pbt::current->fail("use of an object after its destruction");
            }
        }
        return mId;
    }

    volatile uint32_t mMagic = Alive;
    int mId;
    bool mMovedFrom = false;
};

//! Exceptions used by generated programs
struct TestError : std::runtime_error {
    explicit TestError(int c) : std::runtime_error("test error " + std::to_string(c)), code(c) {}
    int code;
};
//! Not derived from std::exception
struct OddError {
    int code;
};

//! A manually fired event that coroutines can await. Not tied to the event loop.
class Gate {
public:
    struct Awaiter {
        Gate *gate;
        bool await_ready() const noexcept { return gate->mOpen; }
        void await_suspend(std::coroutine_handle<> h) { gate->mWaiters.push_back(h); }
        void await_resume() const {}
    };
    Awaiter operator co_await() noexcept { return Awaiter{this}; }
    void open() {
        mOpen = true;
        auto w = std::move(mWaiters);
        mWaiters.clear();
        for (auto h : w) {
            h.resume();
        }
    }
    //! Resumes the current waiters, without letting later ones pass
    void pulse() {
        auto w = std::move(mWaiters);
        mWaiters.clear();
        for (auto h : w) {
            h.resume();
        }
    }
    bool isOpen() const { return mOpen; }
    std::size_t waiters() const { return mWaiters.size(); }

private:
    bool mOpen = false;
    std::vector<std::coroutine_handle<>> mWaiters;
};

} // namespace pbt
