From 9192f59e920063212146f791dc7d0bb9bd617c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 01/33] fix: do not move from an lvalue in co_return

TaskPromise::return_value(U &&) takes a forwarding reference, which is an
lvalue reference for 'co_return mMember;' and the like. Moving from it emptied
the caller's object.
---
 qcoro/impl/taskpromise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 2baf671..5913bff 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,7 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::move(value);
+    mValue = std::forward<U>(value);
 }
 
 template<typename T>
-- 
2.43.0


From 08ee9e0c2fb6c13ae28587521145291a1c3ad19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 02/33] fix: construct the result of a coroutine from the
 co_returned expression

Assigning to the variant picks an alternative by overload resolution, which is
ambiguous between the result and std::exception_ptr for 'co_return nullptr;'.
Construct the result instead.
---
 qcoro/impl/taskpromise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 5913bff..7b5a78f 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,7 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::forward<U>(value);
+    mValue.template emplace<T>(std::forward<U>(value));
 }
 
 template<typename T>
-- 
2.43.0


From 442d7911de2947001e0e7da83fa5225e7baec1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 03/33] fix: do not leak lazy tasks that are never awaited

The coroutine holds a reference to itself until it finishes, so the frame of a
lazy coroutine that never started was never destroyed. Take that reference only
once the coroutine has been started.
---
 qcoro/impl/lazytask.h | 26 ++++++++++++++++++++++++--
 qcoro/qcorolazytask.h |  7 ++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..19e77ca 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -21,8 +21,30 @@ inline LazyTask<T> LazyTaskPromise<T>::get_return_object() noexcept {
 }
 
 template<typename T>
-inline std::suspend_always LazyTaskPromise<T>::initial_suspend() const noexcept {
-    return {};
+inline auto LazyTaskPromise<T>::initial_suspend() noexcept {
+    class InitialSuspend {
+    public:
+        explicit InitialSuspend(LazyTaskPromise &promise) : mPromise(promise) {}
+
+        bool await_ready() const noexcept {
+            return false;
+        }
+
+        void await_suspend(std::coroutine_handle<>) const noexcept {
+            // Drop coroutine's reference to itself, only the LazyTask keeps it alive now.
+            mPromise.derefCoroutine();
+        }
+
+        void await_resume() const noexcept {
+            // Started: must stay alive until finished, even if the LazyTask is destroyed meanwhile.
+            mPromise.refCoroutine();
+        }
+
+    private:
+        LazyTaskPromise &mPromise;
+    };
+
+    return InitialSuspend{*this};
 }
 
 } // namespace detail
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index 93635c9..d1bb1c9 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -29,7 +29,12 @@ public:
 
     LazyTask<T> get_return_object() noexcept;
 
-    std::suspend_always initial_suspend() const noexcept;
+    //! Suspends the coroutine until it's awaited.
+    /*!
+     * A coroutine that has not been started yet can only be started through a LazyTask object, so it
+     * must not keep itself alive: it would leak if the LazyTask is never awaited.
+     */
+    auto initial_suspend() noexcept;
 };
 
 } // namespace detail
-- 
2.43.0


From 7789d0340eff667d9b5e569904b14a9ef93e8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 04/33] fix: keep the callbacks of a lazy continuation alive

thenImpl() took references to the callbacks and only copied them once started,
which for a LazyTask is after the arguments of then() have been destroyed.
---
 qcoro/impl/taskbase.h | 12 ++++++------
 qcoro/qcorotask.h     | 10 ++++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 9a62449..09d6a9a 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -132,9 +132,9 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::handleException(ErrorCallback &e
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+    auto thenCb = std::move(thenCallback);
+    auto errCb = std::move(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
@@ -165,9 +165,9 @@ inline auto TaskBase<T, TaskImpl, PromiseType>::thenImpl(TaskT task_, ThenCallba
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R>
-inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
-    auto thenCb = std::forward<ThenCallback>(thenCallback);
-    auto errCb = std::forward<ErrorCallback>(errorCallback);
+inline auto TaskBase<T, TaskImpl, PromiseType>::thenImplRef(TaskT &task_, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>> {
+    auto thenCb = std::move(thenCallback);
+    auto errCb = std::move(errorCallback);
     const auto &task = static_cast<const TaskImpl<T> &>(task_);
 
     if constexpr (std::is_void_v<typename TaskImpl<T>::value_type>) {
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..a71f122 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -426,10 +426,12 @@ private:
              typename U = typename detail::isTask<R>::return_type>
     static auto handleException(ErrorCallback &errCb, const std::exception &exception) -> U;
 
-    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImpl(TaskT task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
-    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback, T>>
-    static auto thenImplRef(TaskT &task, ThenCallback &&thenCallback, ErrorCallback &&errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    // The callbacks are taken by value: the continuation may be lazy, in which case the arguments of then() are long gone by
+    // the time it is started.
+    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback &, T>>
+    static auto thenImpl(TaskT task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
+    template<typename TaskT, typename ThenCallback, typename ErrorCallback, typename R = cb_invoke_result_t<ThenCallback &, T>>
+    static auto thenImplRef(TaskT &task, ThenCallback thenCallback, ErrorCallback errorCallback) -> std::conditional_t<detail::isTask_v<R>, R, TaskImpl<R>>;
 
 protected:
     std::coroutine_handle<PromiseType> mCoroutine = {};
-- 
2.43.0


From 76f2656b5e013b85625d125fcdea86d871a28d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 05/33] fix: start a lazy task only once, and never an empty
 one

Awaiting a lazy task that is already running resumed it from wherever it was
suspended. Awaiting an empty one returned a null handle to be resumed, instead
of suspending for ever.
---
 qcoro/impl/lazytask.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index 19e77ca..aa7071a 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -66,10 +66,15 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            // The lazy task is started by whoever awaits it first; it's already running when there are other awaiters.
+            const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
-            // Return handle to the lazy task, so that it gets automatically resumed.
-            return this->mAwaitedCoroutine;
+            if (start) {
+                // Return handle to the lazy task, so that it gets automatically resumed.
+                return this->mAwaitedCoroutine;
+            }
+            return std::noop_coroutine();
         }
 
         auto await_resume() {
-- 
2.43.0


From f7bb2b2f3b345f1acb3c7436963ca3269f1a63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 06/33] fix: destroy the previous coroutine when assigning to a
 Generator

Move assignment overwrote the handle, leaking the coroutine (also the own one
when self-assigning).
---
 qcoro/qcorogenerator.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..c3098e9 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -4,8 +4,9 @@
 
 #pragma once
 
-#include <variant>
 #include <exception>
+#include <memory>
+#include <variant>
 
 #include "coroutine.h"
 
@@ -242,9 +243,14 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
+        if (std::addressof(other) != this) {
+            if (mGeneratorCoroutine) {
+                mGeneratorCoroutine.destroy();
+            }
             mGeneratorCoroutine = other.mGeneratorCoroutine;
-            other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
-            return *this;
+            other.mGeneratorCoroutine = nullptr;
+        }
+        return *this;
     };
     Generator &operator=(const Generator &) = delete;
     /**
-- 
2.43.0


From 7374c9e09a41a3f18b4caf9e93ff1069048bc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 07/33] fix: destroy the previous coroutine when assigning to
 an AsyncGenerator

Move assignment overwrote the handle, leaking the coroutine (also the own one
when self-assigning).
---
 qcoro/qcoroasyncgenerator.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..bc12d1e 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -303,8 +303,13 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (std::addressof(other) != this) {
+            if (m_coroutine) {
+                m_coroutine.destroy();
+            }
+            m_coroutine = other.m_coroutine;
+            other.m_coroutine = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From 24d2cf2014a520926712e8e836d5b213af9393e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 08/33] fix: do not resume the consumer of a signal listener
 while it is busy

The queue kept the awaiting coroutine after it had been resumed, so that any
later emission resumed it again from wherever it was suspended, even if it had
finished.
---
 qcoro/core/qcorosignal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..b4543c8 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -271,6 +271,8 @@ public:
                 mQueue.setAwaiter(awaitingCoroutine);
             }
             result_type await_resume() {
+                // Nobody awaits the queue until the next await_suspend().
+                mQueue.setAwaiter(nullptr);
                 return mQueue.dequeue();
             }
 
-- 
2.43.0


From e3fbb9ef0a33760ecbf358608471c1afa746b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 09/33] fix: do not handle the timeout of a signal listener
 repeatedly

Each wait with a timeout connected another handler to the same timer, so after
the first element a timeout resumed the generator several times, even when it
had already finished.
---
 qcoro/core/qcorosignal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index b4543c8..d1e3aaa 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,6 +110,8 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
+            // May be called repeatedly (for each element of a QCoroSignalQueue).
+            QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
-- 
2.43.0


From 246da984a47000303a87c4af5b3f7bcc408d709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 10/33] fix: make sleepUntil() use the clock of the time point

---
 qcoro/core/qcorotimer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..af5ee27 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -66,8 +66,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From dcef4d5e4d49c0702e24b441a4a8672989164db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 11/33] fix: make sleepFor() handle negative, fractional and
 very long timeouts

---
 qcoro/core/qcorotimer.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index af5ee27..078745e 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,10 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
+#include <chrono>
+#include <limits>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -59,8 +63,15 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
-    co_await timer;
+    // Never wake up early, and treat a timeout in the past as an expired one
+    auto remaining = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero());
+    do {
+        // QTimer cannot measure an interval longer than INT_MAX milliseconds
+        const auto interval = std::min(remaining, std::chrono::milliseconds{std::numeric_limits<int>::max()});
+        timer.start(interval);
+        co_await timer;
+        remaining -= interval;
+    } while (remaining > std::chrono::milliseconds::zero());
 }
 
 //! A coroutine that suspends until the specified time.
-- 
2.43.0


From 139a1b288cf975ee25355e7ab8b94425f8a7dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 12/33] fix: do not block the thread awaiting a cancelled
 future that has not finished

---
 qcoro/core/qcorofuture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index 0e028d8..23f563b 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -28,7 +28,7 @@ private:
         QCORO_DEFAULT_MOVE(WaitForFinishedOperationBase)
 
         bool await_ready() const noexcept {
-            return mFuture.isFinished() || mFuture.isCanceled();
+            return mFuture.isFinished();
         }
 
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
-- 
2.43.0


From dd419c168b712c6da7912d4171a35dff4d1420ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 13/33] fix: waitForReadyRead() returns false when the device
 is closed meanwhile

---
 qcoro/core/qcoroiodevice.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..ee59da1 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -109,8 +109,10 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
         co_return true;
     }
 
+    const auto device = mDevice;
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    // The wait also ends when the device is closed (or disconnected), possibly leaving some data to be read
+    co_return result.has_value() && (*result || (device && device->bytesAvailable() > 0));
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
-- 
2.43.0


From f1efb9572ea4f512c7fa509987a5a2eca48172cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 14/33] fix: do not read from a device destroyed before the
 coroutine is resumed

---
 qcoro/core/qcoroiodevice.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index ee59da1..a4e1c31 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,8 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    // The device may have been destroyed after it was closed
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
@@ -56,7 +57,7 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -65,7 +66,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -74,7 +75,7 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
-- 
2.43.0


From 3b877d98fec27c1ac8075d1ef31f59a77f6be7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 15/33] fix: make write() count all confirmed bytes and not
 hang on synchronous devices

---
 qcoro/core/qcoroiodevice.cpp          | 28 +++++++++++++++++++++------
 qcoro/core/qcoroiodevice.h            |  5 +++++
 qcoro/network/qcoroabstractsocket.cpp |  4 ++++
 qcoro/network/qcoroabstractsocket.h   |  3 +++
 qcoro/network/qcorolocalsocket.cpp    |  4 ++++
 qcoro/network/qcorolocalsocket.h      |  3 +++
 6 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index a4e1c31..b191f7b 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -10,6 +10,8 @@
 #include <QIODevice>
 #include <QTimer>
 
+#include <algorithm>
+
 using namespace QCoro::detail;
 
 QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
@@ -83,19 +85,33 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 }
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
-    const auto bytesWritten = mDevice->write(buffer);
+    return write(std::make_shared<QCoroIODevice>(*this), buffer);
+}
+
+QCoro::Task<qint64> QCoroIODevice::write(std::shared_ptr<QCoroIODevice> self, const QByteArray &buffer) {
+    const auto device = self->mDevice;
+    const auto bytesWritten = std::max<qint64>(device->write(buffer), 0);
+    // Data that were written earlier are confirmed first
+    const auto bytesPending = device->bytesToWrite();
+    if (bytesWritten == 0 || bytesPending == 0) {
+        co_return bytesWritten;
+    }
+
+    // The device may confirm more than one chunk before this coroutine is resumed
     qint64 bytesConfirmed = 0;
-    while (bytesConfirmed < bytesWritten) {
-        const auto flushed = co_await waitForBytesWritten(-1);
-        if (!flushed.has_value()) {
+    QObject context;
+    QObject::connect(device, &QIODevice::bytesWritten, &context,
+                     [&bytesConfirmed](qint64 bytes) { bytesConfirmed += bytes; });
+    while (device && bytesConfirmed < bytesPending) {
+        const auto flushed = co_await self->waitForBytesWritten(-1);
+        if (flushed.value_or(0) == 0) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
             break;
         }
-        bytesConfirmed += *flushed;
     }
 
-    co_return bytesConfirmed;
+    co_return std::clamp<qint64>(bytesConfirmed - (bytesPending - bytesWritten), 0, bytesWritten);
 }
 
 QCoro::Task<bool> QCoroIODevice::waitForReadyRead(int timeout_msecs) {
diff --git a/qcoro/core/qcoroiodevice.h b/qcoro/core/qcoroiodevice.h
index c382b48..37f3870 100644
--- a/qcoro/core/qcoroiodevice.h
+++ b/qcoro/core/qcoroiodevice.h
@@ -12,6 +12,8 @@
 
 #include <QPointer>
 
+#include <memory>
+
 class QIODevice;
 
 /*! \cond internal */
@@ -197,6 +199,9 @@ protected:
     virtual Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout);
     virtual Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout);
 
+    //! Writes the buffer using a copy of the wrapper, which itself may be gone when the coroutine is resumed.
+    static Task<qint64> write(std::shared_ptr<QCoroIODevice> self, const QByteArray &buffer);
+
     QPointer<QIODevice> mDevice = {};
 };
 
diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 56fde6b..21b0199 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -45,6 +45,10 @@ private:
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
     : QCoroIODevice(socket) {}
 
+QCoro::Task<qint64> QCoroAbstractSocket::write(const QByteArray &buffer) {
+    return QCoroIODevice::write(std::make_shared<QCoroAbstractSocket>(*this), buffer);
+}
+
 QCoro::Task<std::optional<bool>> QCoroAbstractSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
     if (socket->state() != QAbstractSocket::ConnectedState) {
diff --git a/qcoro/network/qcoroabstractsocket.h b/qcoro/network/qcoroabstractsocket.h
index 5a367f6..e4cc3d2 100644
--- a/qcoro/network/qcoroabstractsocket.h
+++ b/qcoro/network/qcoroabstractsocket.h
@@ -24,6 +24,9 @@ class QCORONETWORK_EXPORT QCoroAbstractSocket final : public QCoroIODevice {
 public:
     explicit QCoroAbstractSocket(QAbstractSocket *socket);
 
+    //! \copydoc QCoroIODevice::write
+    Task<qint64> write(const QByteArray &buffer);
+
     //! Co_awaitable equivalent  to [`QAbstractSocket::waitForConnected()`][qtdoc-qabstractsocket-waitForConnected].
     /*!
      * Waits until the socket is connected, up to \c timeout_msecs milliseconds. If the connection has been
diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..f471b0e 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -75,6 +75,10 @@ QCoroLocalSocket::QCoroLocalSocket(QLocalSocket *socket)
     : QCoroIODevice(socket)
 {}
 
+QCoro::Task<qint64> QCoroLocalSocket::write(const QByteArray &buffer) {
+    return QCoroIODevice::write(std::make_shared<QCoroLocalSocket>(*this), buffer);
+}
+
 QCoro::Task<std::optional<bool>> QCoroLocalSocket::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
     const auto *socket = static_cast<QLocalSocket *>(mDevice.data());
     if (socket->state() != QLocalSocket::ConnectedState) {
diff --git a/qcoro/network/qcorolocalsocket.h b/qcoro/network/qcorolocalsocket.h
index 16e7166..da01c2c 100644
--- a/qcoro/network/qcorolocalsocket.h
+++ b/qcoro/network/qcorolocalsocket.h
@@ -21,6 +21,9 @@ class QCORONETWORK_EXPORT QCoroLocalSocket : public QCoroIODevice {
 public:
     explicit QCoroLocalSocket(QLocalSocket *socket);
 
+    //! \copydoc QCoroIODevice::write
+    Task<qint64> write(const QByteArray &buffer);
+
     /**
      * \brief Co_awaitable equivalent  to [`QLocalSocket::waitForConnected()`][qtdoc-qlocalsocket-waitForConnected].
      *
-- 
2.43.0


From 00a0c0393bd197ece9d9bf185ace53e748308991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 16/33] fix: do not miss a thread starting or finishing while
 starting to wait for it

---
 qcoro/core/qcorothread.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..ff9fe5a 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -39,6 +39,19 @@ private:
     std::coroutine_handle<> mAwaiter;
 };
 
+//! Re-emits a signal of a thread in the thread the waiting coroutine runs in.
+class ThreadSignalRelay : public QObject {
+    Q_OBJECT
+public:
+    template<typename Signal>
+    explicit ThreadSignalRelay(QThread *thread, Signal signal) {
+        QObject::connect(thread, signal, this, &ThreadSignalRelay::triggered);
+    }
+
+Q_SIGNALS:
+    void triggered();
+};
+
 QEvent::Type ContextHelper::eventType = static_cast<QEvent::Type>(QEvent::registerEventType());
 
 class ThreadContextPrivate {
@@ -88,6 +101,8 @@ QCoroThread::QCoroThread(QThread *thread)
 {}
 
 QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout) {
+    // The thread may change its state at any time, so start listening before checking the state.
+    ThreadSignalRelay relay(mThread.data(), &QThread::started);
     if (mThread->isRunning()) {
         co_return true;
     }
@@ -95,19 +110,22 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::started, timeout);
+    const auto result = co_await qCoro(&relay, &ThreadSignalRelay::triggered, timeout);
     co_return result.has_value();
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
+    // The thread may change its state at any time, so start listening before checking the state.
+    ThreadSignalRelay relay(mThread.data(), &QThread::finished);
+    const bool isRunning = mThread->isRunning();
     if (mThread->isFinished()) {
         co_return true;
     }
-    if (!mThread->isRunning()) {
+    if (!isRunning) {
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::finished, timeout);
+    const auto result = co_await qCoro(&relay, &ThreadSignalRelay::triggered, timeout);
     co_return result.has_value();
 }
 
-- 
2.43.0


From dfc255c0910b8b4c0ff25181a5692991031c5901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 17/33] fix: do not lose the awaiter of a task finishing in
 another thread

---
 qcoro/impl/lazytask.h         |  4 +++-
 qcoro/impl/taskawaiterbase.h  |  8 ++++----
 qcoro/impl/taskbase.h         |  2 +-
 qcoro/impl/taskfinalsuspend.h |  6 +-----
 qcoro/impl/taskpromisebase.h  | 22 ++++++++++++++++++++--
 qcoro/qcorotask.h             | 30 ++++++++++++++++++------------
 6 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index aa7071a..96ec91a 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -69,7 +69,9 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
             // The lazy task is started by whoever awaits it first; it's already running when there are other awaiters.
             const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
-            detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine)) {
+                return awaitingCoroutine; // finished meanwhile
+            }
             if (start) {
                 // Return handle to the lazy task, so that it gets automatically resumed.
                 return this->mAwaitedCoroutine;
diff --git a/qcoro/impl/taskawaiterbase.h b/qcoro/impl/taskawaiterbase.h
index 5942f67..db02e74 100644
--- a/qcoro/impl/taskawaiterbase.h
+++ b/qcoro/impl/taskawaiterbase.h
@@ -16,17 +16,17 @@ namespace QCoro::detail
 
 template<typename Promise>
 inline bool TaskAwaiterBase<Promise>::await_ready() const noexcept {
-    return mAwaitedCoroutine && mAwaitedCoroutine.done();
+    return mAwaitedCoroutine && mAwaitedCoroutine.promise().isFinished();
 }
 
 template<typename Promise>
-inline void TaskAwaiterBase<Promise>::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+inline bool TaskAwaiterBase<Promise>::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
     if (!mAwaitedCoroutine) {
         qWarning() << "QCoro::Task: Awaiting a default-constructed or a moved-from QCoro::Task<> - this will hang forever!";
-        return;
+        return true;
     }
 
-    mAwaitedCoroutine.promise().addAwaitingCoroutine(awaitingCoroutine);
+    return mAwaitedCoroutine.promise().addAwaitingCoroutine(awaitingCoroutine);
 }
 
 template<typename Promise>
diff --git a/qcoro/impl/taskbase.h b/qcoro/impl/taskbase.h
index 09d6a9a..44a6f31 100644
--- a/qcoro/impl/taskbase.h
+++ b/qcoro/impl/taskbase.h
@@ -48,7 +48,7 @@ inline TaskBase<T, TaskImpl, PromiseType>::~TaskBase() {
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
 inline bool TaskBase<T, TaskImpl, PromiseType>::isReady() const {
-    return !mCoroutine || mCoroutine.done();
+    return !mCoroutine || mCoroutine.promise().isFinished();
 }
 
 template<typename T, template<typename> class TaskImpl, typename PromiseType>
diff --git a/qcoro/impl/taskfinalsuspend.h b/qcoro/impl/taskfinalsuspend.h
index e008b4c..d0a9b7a 100644
--- a/qcoro/impl/taskfinalsuspend.h
+++ b/qcoro/impl/taskfinalsuspend.h
@@ -13,9 +13,6 @@
 namespace QCoro::detail
 {
 
-inline TaskFinalSuspend::TaskFinalSuspend(const std::vector<std::coroutine_handle<>> &awaitingCoroutines)
-    : mAwaitingCoroutines(awaitingCoroutines) {}
-
 inline bool TaskFinalSuspend::await_ready() const noexcept {
     return false;
 }
@@ -24,10 +21,9 @@ template<typename Promise>
 inline void TaskFinalSuspend::await_suspend(std::coroutine_handle<Promise> finishedCoroutine) noexcept {
     auto &promise = finishedCoroutine.promise();
 
-    for (auto &awaiter : mAwaitingCoroutines) {
+    for (auto &awaiter : promise.takeAwaitingCoroutines()) {
         awaiter.resume();
     }
-    mAwaitingCoroutines.clear();
 
     // The handle will be destroyed here only if the associated Task has already been destroyed
     promise.derefCoroutine();
diff --git a/qcoro/impl/taskpromisebase.h b/qcoro/impl/taskpromisebase.h
index 1fb7d4b..aad0750 100644
--- a/qcoro/impl/taskpromisebase.h
+++ b/qcoro/impl/taskpromisebase.h
@@ -10,6 +10,7 @@
 
 #include "../qcorotask.h"
 #include <coroutine>
+#include <utility>
 
 namespace QCoro::detail
 {
@@ -24,7 +25,7 @@ inline std::suspend_never TaskPromiseBase::initial_suspend() const noexcept {
 }
 
 inline auto TaskPromiseBase::final_suspend() const noexcept {
-    return TaskFinalSuspend{mAwaitingCoroutines};
+    return TaskFinalSuspend{};
 }
 
 template<typename T, typename Awaiter>
@@ -42,14 +43,31 @@ inline auto &TaskPromiseBase::await_transform(T &awaitable) {
     return awaitable;
 }
 
-inline void TaskPromiseBase::addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine) {
+inline bool TaskPromiseBase::addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine) {
+    const std::lock_guard lock(mAwaitingMutex);
+    if (mFinished) {
+        return false;
+    }
     mAwaitingCoroutines.push_back(awaitingCoroutine);
+    return true;
 }
 
 inline bool TaskPromiseBase::hasAwaitingCoroutine() const {
+    const std::lock_guard lock(mAwaitingMutex);
     return !mAwaitingCoroutines.empty();
 }
 
+inline bool TaskPromiseBase::isFinished() const {
+    const std::lock_guard lock(mAwaitingMutex);
+    return mFinished;
+}
+
+inline std::vector<std::coroutine_handle<>> TaskPromiseBase::takeAwaitingCoroutines() {
+    const std::lock_guard lock(mAwaitingMutex);
+    mFinished = true;
+    return std::exchange(mAwaitingCoroutines, {});
+}
+
 inline void TaskPromiseBase::derefCoroutine() {
     if (--mRefCount == 0) {
         destroyCoroutine();
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index a71f122..fe6de03 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -11,6 +11,7 @@
 #include <exception>
 #include <variant>
 #include <memory>
+#include <mutex>
 #include <type_traits>
 #include <vector>
 
@@ -32,13 +33,6 @@ using awaiter_type_t = typename awaiter_type<T>::type;
 //! Continuation that resumes a coroutine co_awaiting on currently finished coroutine.
 class TaskFinalSuspend {
 public:
-    //! Constructs the awaitable, passing it a handle to the co_awaiting coroutine
-    /*!
-     * \param[in] awaitingCoroutine handle of the coroutine that is co_awaiting the current
-     * coroutine (continuation).
-     */
-    explicit TaskFinalSuspend(const std::vector<std::coroutine_handle<>> &awaitingCoroutines);
-
     //! Returns whether the just finishing coroutine should do final suspend or not
     /*!
      * If the coroutine is not being co_awaited by another coroutine, then don't
@@ -67,9 +61,6 @@ public:
      * In any case, this method does nothing.
      * */
     constexpr void await_resume() const noexcept;
-
-private:
-    std::vector<std::coroutine_handle<>> mAwaitingCoroutines;
 };
 
 //! Base class for the \c Task<T> promise_type.
@@ -163,11 +154,20 @@ public:
      * \param awaitingCoroutine handle for the coroutine that is co_awaiting on a coroutine that
      *                          represented by this promise. When our coroutine finishes, it's
      *                          our job to resume the awaiting coroutine.
+     *
+     * \return Returns `false` when our coroutine has finished meanwhile (in another thread), in
+     *         which case the awaiting coroutine will not be resumed and must not be suspended.
      */
-    void addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine);
+    bool addAwaitingCoroutine(std::coroutine_handle<> awaitingCoroutine);
 
     bool hasAwaitingCoroutine() const;
 
+    //! Returns whether the coroutine has finished and its result is available.
+    bool isFinished() const;
+
+    //! Called when the coroutine has finished to obtain the coroutines that shall be resumed.
+    std::vector<std::coroutine_handle<>> takeAwaitingCoroutines();
+
     void derefCoroutine();
     void refCoroutine();
     void destroyCoroutine();
@@ -178,9 +178,15 @@ protected:
 private:
     friend class TaskFinalSuspend;
 
+    //! Protects the members below: the coroutine may finish in another thread than it is co_awaited in.
+    mutable std::mutex mAwaitingMutex;
+
     //! Handle of the coroutine that is currently co_awaiting this Awaitable
     std::vector<std::coroutine_handle<>> mAwaitingCoroutines;
 
+    //! Indicates that mAwaitingCoroutines have been taken, so nobody would resume any more of them.
+    bool mFinished = false;
+
     //! Indicates whether we can destroy the coroutine handle
     std::atomic<uint32_t> mRefCount{0};
 };
@@ -308,7 +314,7 @@ public:
      * co_awaited coroutine has finished synchronously and the co_awaiting coroutine doesn't
      * have to suspend.
      */
-    void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+    bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
 
 protected:
     //! Constucts a new Awaiter object.
-- 
2.43.0


From 69ff5485c84f19443bf0e81f7a2241b65a32f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 18/33] fix: do not hang in waitFor() when the task finishes in
 another thread

---
 qcoro/impl/waitfor.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index 40a5993..c054a73 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -30,6 +30,14 @@ struct WaitContext {
     QEventLoop loop;
     bool coroutineFinished = false;
     std::exception_ptr exception;
+
+    //! Wakes up the waiting thread. The coroutine may have finished in another thread, and must not touch the context anymore.
+    void finish() {
+        QMetaObject::invokeMethod(&loop, [this]() {
+            coroutineFinished = true;
+            loop.quit();
+        });
+    }
 };
 
 //! Helper class to run a coroutine in a nested event loop.
@@ -48,8 +56,7 @@ Task<> runCoroutine(WaitContext &context, Awaitable &&awaitable) {
     } catch (...) {
         context.exception = std::current_exception();
     }
-    context.coroutineFinished = true;
-    context.loop.quit();
+    context.finish();
 }
 
 template<typename T, Awaitable Awaitable>
@@ -59,8 +66,7 @@ Task<> runCoroutine(WaitContext &context, std::optional<T> &result, Awaitable &&
     } catch (...) {
         context.exception = std::current_exception();
     }
-    context.coroutineFinished = true;
-    context.loop.quit();
+    context.finish();
 }
 
 template<typename T, Awaitable Awaitable>
-- 
2.43.0


From 29e8d2381ad672aaf8118016a22e880597792cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 19/33] fix: do not hang when waiting for a process that fails
 to start

---
 qcoro/core/qcoroprocess.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 6b0a03e..237003f 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -7,12 +7,35 @@
 #if QT_CONFIG(process)
 
 #include "qcoroprocess.h"
+#include "qcoroiodevice_p.h"
 #include "qcorosignal.h"
 
 #include <QProcess>
 
 using namespace QCoro::detail;
 
+namespace {
+
+//! Waits for a process to get to a state, or to fail to start.
+class ProcessStateHelper : public QObject {
+    Q_OBJECT
+public:
+    template<typename Signal>
+    explicit ProcessStateHelper(const QProcess *process, Signal signal) {
+        connect(process, signal, this, [this]() { Q_EMIT ready(true); });
+        connect(process, &QProcess::errorOccurred, this, [this](QProcess::ProcessError error) {
+            if (error == QProcess::FailedToStart) {
+                Q_EMIT ready(false);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool result);
+};
+
+} // namespace
+
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
@@ -24,8 +47,9 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::Starting) {
-        const auto started = co_await qCoro(process, &QProcess::started, timeout);
-        co_return started.has_value();
+        ProcessStateHelper helper(process, &QProcess::started);
+        const auto started = co_await qCoro(&helper, &ProcessStateHelper::ready, timeout);
+        co_return started.value_or(false);
     }
 
     co_return process->state() == QProcess::Running;
@@ -41,8 +65,9 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
         co_return false;
     }
 
-    const auto finished = co_await qCoro(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), timeout);
-    co_return finished.has_value();
+    ProcessStateHelper helper(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished));
+    const auto finished = co_await qCoro(&helper, &ProcessStateHelper::ready, timeout);
+    co_return finished.value_or(false);
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
@@ -56,4 +81,6 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+#include "qcoroprocess.moc"
+
 #endif // QT_CONFIG(process)
-- 
2.43.0


From 5710d1b617f6adc9ea7d9ddb83d0c1a8869b437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 20/33] fix: do not hang reading from or writing to a process
 that ends

---
 qcoro/core/qcoroprocess.cpp | 49 +++++++++++++++++++++++++++++++++++++
 qcoro/core/qcoroprocess.h   |  9 +++++++
 2 files changed, 58 insertions(+)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 237003f..09458c4 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -34,12 +34,61 @@ Q_SIGNALS:
     void ready(bool result);
 };
 
+//! Ends waiting for the device when the process ends.
+class ProcessReadySignalHelper : public WaitSignalHelper {
+    Q_OBJECT
+public:
+    explicit ProcessReadySignalHelper(const QProcess *process, void(QIODevice::*signal)())
+        : WaitSignalHelper(process, signal)
+        , mStateChanged(connect(process, &QProcess::stateChanged, this,
+                                [this](QProcess::ProcessState state) { stateChanged(state, false); }))
+    {}
+    explicit ProcessReadySignalHelper(const QProcess *process, void(QIODevice::*signal)(qint64))
+        : WaitSignalHelper(process, signal)
+        , mStateChanged(connect(process, &QProcess::stateChanged, this,
+                                [this](QProcess::ProcessState state) { stateChanged(state, static_cast<qint64>(0)); }))
+    {}
+
+private:
+    template<typename T>
+    void stateChanged(QProcess::ProcessState state, T result) {
+        if (state == QProcess::NotRunning) {
+            disconnect(mStateChanged);
+            emitReady(result);
+        }
+    }
+
+    QMetaObject::Connection mStateChanged;
+};
+
 } // namespace
 
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
 
+QCoro::Task<qint64> QCoroProcess::write(const QByteArray &buffer) {
+    return QCoroIODevice::write(std::make_shared<QCoroProcess>(*this), buffer);
+}
+
+QCoro::Task<std::optional<bool>> QCoroProcess::waitForReadyReadImpl(std::chrono::milliseconds timeout) {
+    const auto *process = static_cast<QProcess *>(mDevice.data());
+    if (process->state() == QProcess::NotRunning) {
+        co_return false;
+    }
+    ProcessReadySignalHelper helper(process, &QIODevice::readyRead);
+    co_return co_await qCoro(&helper, qOverload<bool>(&WaitSignalHelper::ready), timeout);
+}
+
+QCoro::Task<std::optional<qint64>> QCoroProcess::waitForBytesWrittenImpl(std::chrono::milliseconds timeout) {
+    const auto *process = static_cast<QProcess *>(mDevice.data());
+    if (process->state() == QProcess::NotRunning) {
+        co_return std::nullopt;
+    }
+    ProcessReadySignalHelper helper(process, &QIODevice::bytesWritten);
+    co_return co_await qCoro(&helper, qOverload<qint64>(&WaitSignalHelper::ready), timeout);
+}
+
 QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
     return waitForStarted(std::chrono::milliseconds{timeout_msecs});
 }
diff --git a/qcoro/core/qcoroprocess.h b/qcoro/core/qcoroprocess.h
index 5f443f8..d6d275c 100644
--- a/qcoro/core/qcoroprocess.h
+++ b/qcoro/core/qcoroprocess.h
@@ -25,6 +25,11 @@ class QCOROCORE_EXPORT QCoroProcess : public QCoroIODevice {
 public:
     explicit QCoroProcess(QProcess *process);
 
+    /*!
+     * \copydoc QCoroIODevice::write
+     */
+    Task<qint64> write(const QByteArray &buffer);
+
     /*!
      * \brief Co_awaitable equivalent to [`QProcess::waitForStarted()`][qtdoc-qprocess-waitForStarted].
      *
@@ -109,6 +114,10 @@ public:
     Task<bool> start(const QString &program, const QStringList &arguments,
                      QIODevice::OpenMode mode = QIODevice::ReadWrite,
                      std::chrono::milliseconds timeout = std::chrono::seconds(30));
+
+private:
+    Task<std::optional<bool>> waitForReadyReadImpl(std::chrono::milliseconds timeout) override;
+    Task<std::optional<qint64>> waitForBytesWrittenImpl(std::chrono::milliseconds timeout) override;
 };
 
 } // namespace QCoro::detail
-- 
2.43.0


From eb89bf8b47ca0ce675faacc4ca84ca428453b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 21/33] fix: do not hang when a socket fails to connect or is
 closed by the other side

---
 qcoro/core/qcoroiodevice.cpp          |  5 +++
 qcoro/network/qcoroabstractsocket.cpp | 54 +++++++++++++++++++++++----
 2 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index b191f7b..0962630 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -21,6 +21,7 @@ QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
 void QCoroIODevice::OperationBase::finish(std::coroutine_handle<> awaitingCoroutine) {
     QObject::disconnect(mConn);
     QObject::disconnect(mCloseConn);
+    QObject::disconnect(mFinishedConn);
     // Delayed trigger
     QTimer::singleShot(0, [awaitingCoroutine]() mutable { awaitingCoroutine.resume(); });
 }
@@ -40,6 +41,10 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
     mCloseConn =
         QObject::connect(mDevice, &QIODevice::aboutToClose,
                          std::bind(&ReadOperation::finish, this, awaitingCoroutine));
+    // No more data will come, e.g. because the remote side has closed the connection
+    mFinishedConn =
+        QObject::connect(mDevice, &QIODevice::readChannelFinished,
+                         std::bind(&ReadOperation::finish, this, awaitingCoroutine));
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 21b0199..e9f1ae6 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -40,6 +40,38 @@ private:
     QMetaObject::Connection mStateChanged;
 };
 
+class AbstractSocketStateHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit AbstractSocketStateHelper(const QAbstractSocket *socket)
+        : mConnected(socket->state() == QAbstractSocket::ConnectedState || socket->state() == QAbstractSocket::ClosingState)
+    {
+        connect(socket, &QAbstractSocket::connected, this, [this]() {
+            mConnected = true;
+            Q_EMIT connectFinished(true);
+        });
+        connect(socket, &QAbstractSocket::stateChanged, this, [this](QAbstractSocket::SocketState state) {
+            if (state == QAbstractSocket::UnconnectedState) {
+                Q_EMIT connectFinished(false);
+                Q_EMIT disconnectFinished(mConnected);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    //! Whether the connection was established
+    void connectFinished(bool result);
+    //! The socket is not connected anymore; whether it has been at all
+    void disconnectFinished(bool result);
+
+private:
+    bool mConnected;
+};
+
+QCoro::Task<bool> connectingFailed() {
+    co_return false;
+}
+
 } // namespace
 
 QCoroAbstractSocket::QCoroAbstractSocket(QAbstractSocket *socket)
@@ -79,8 +111,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::millisecond
         co_return true;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::connected, timeout);
-    co_return result.has_value();
+    AbstractSocketStateHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &AbstractSocketStateHelper::connectFinished, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
@@ -93,21 +126,26 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
         co_return false;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::disconnected, timeout);
-    co_return result.has_value();
+    AbstractSocketStateHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &AbstractSocketStateHelper::disconnectFinished, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(hostName, port, openMode, protocol);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(hostName, port, openMode, protocol);
+    // The connection may be refused immediately
+    return socket->state() == QAbstractSocket::UnconnectedState ? connectingFailed() : waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(address, port, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(address, port, openMode);
+    // The connection may be refused immediately
+    return socket->state() == QAbstractSocket::UnconnectedState ? connectingFailed() : waitForConnected(timeout);
 }
 
 #include "qcoroabstractsocket.moc"
\ No newline at end of file
-- 
2.43.0


From fc718e9223a1567e469bf5d9680b8fe5d0007e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 22/33] fix: do not hang when a local socket fails to connect

connectToServer() may fail synchronously, and waitForDisconnected() waited for
disconnected(), which isn't emitted when connecting fails.
---
 qcoro/network/qcorolocalsocket.cpp | 43 +++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index f471b0e..337ae4f 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -42,6 +42,32 @@ private:
     QMetaObject::Connection mStateChange;
 };
 
+class SocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit SocketDisconnectedHelper(const QLocalSocket *socket)
+        : mConnected(socket->state() != QLocalSocket::ConnectingState)
+    {
+        connect(socket, &QLocalSocket::connected, this, [this]() { mConnected = true; });
+        connect(socket, &QLocalSocket::stateChanged, this, [this](auto state) {
+            if (state == QLocalSocket::UnconnectedState) {
+                Q_EMIT ready(mConnected);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    //! The socket is not connected anymore; the result is false if it has never been
+    void ready(bool result);
+
+private:
+    bool mConnected;
+};
+
+QCoro::Task<bool> connectingFailed() {
+    co_return false;
+}
+
 class LocalSocketReadySignalHelper : public WaitSignalHelper {
     Q_OBJECT
 public:
@@ -120,20 +146,25 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
     if (socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
-    const auto result = co_await qCoro(socket, &QLocalSocket::disconnected, timeout);
-    co_return result.has_value();
+    SocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &SocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    // The connection may be refused immediately
+    return socket->state() == QLocalSocket::UnconnectedState ? connectingFailed() : waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    // The connection may be refused immediately
+    return socket->state() == QLocalSocket::UnconnectedState ? connectingFailed() : waitForConnected(timeout);
 }
 
 #include "qcorolocalsocket.moc"
\ No newline at end of file
-- 
2.43.0


From ce358882d931509381691c07356b3820e12b5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 23/33] fix: do not crash when a QTcpServer is destroyed before
 its new connection is handed out

---
 qcoro/network/qcorotcpserver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..38292da 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -44,7 +44,8 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::mill
     }
 
     const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
+    // The server may have been destroyed after it has emitted the signal
+    if (result.has_value() && server) {
         co_return server->nextPendingConnection();
     }
     co_return nullptr;
-- 
2.43.0


From 8bedb4b8104979932d196c1dbc08913263ba5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 24/33] fix: yield WebSocket messages received before the
 generator is started

The generators are documented to buffer what is received for as long as they
exist, but only started to listen when the first element was awaited, and
never ended when the socket was disconnected before.
---
 qcoro/websockets/qcorowebsocket.cpp | 38 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..6004e79 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -120,22 +120,32 @@ template<typename Signal>
 auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
     QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
     using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
-    auto it = co_await signalListener.begin();
-    while (it != signalListener.end()) {
-        if (!(*it).has_value()) {
-            break;
-        }
-        // If the signal is a single-value tuple, we unwrap it from the tuple, otherwise we yield the whole tuple.
-        if constexpr (std::tuple_size_v<typename signalType::value_type> == 1) {
-            co_yield std::get<0>(**it);
-        } else {
-            co_yield **it;
+
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    auto signalListener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+
+    // The actual generator is in a wrapper function, so that signals are recorded from now on, even though
+    // the generator is initially suspended.
+    constexpr auto innerGenerator = []([[maybe_unused]] std::unique_ptr<WebSocketSignalWatcher> watcher, decltype(signalListener) signalListener) ->
+        QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+    {
+        auto it = co_await signalListener.begin();
+        while (it != signalListener.end()) {
+            if (!(*it).has_value()) {
+                break;
+            }
+            // If the signal is a single-value tuple, we unwrap it from the tuple, otherwise we yield the whole tuple.
+            if constexpr (std::tuple_size_v<typename signalType::value_type> == 1) {
+                co_yield std::get<0>(**it);
+            } else {
+                co_yield **it;
+            }
+            co_await ++it;
         }
-        co_await ++it;
-    }
+    };
+
+    return innerGenerator(std::move(watcher), std::move(signalListener));
 }
 
 
-- 
2.43.0


From c10f70dad2e599927c923da677262413dbbc1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 25/33] fix: do not hang in QCoroWebSocket::open() when opening
 fails immediately or is aborted

---
 qcoro/websockets/qcorowebsocket.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index 6004e79..4de6f5b 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -30,6 +30,8 @@ public:
         : mState(connect(socket, &QWebSocket::stateChanged, this, [this, desiredState](auto newState) {
             if (newState == desiredState) {
                 emitReady(true);
+            } else if (newState == QAbstractSocket::UnconnectedState) {
+                emitReady(false);
             }
         }))
         , mError(connect(socket, qOverload<QAbstractSocket::SocketError>(
@@ -44,6 +46,11 @@ public:
         }))
     {}
 
+    //! The result, if the signal has been emitted already
+    std::optional<bool> result() const {
+        return mResult;
+    }
+
 Q_SIGNALS:
     void ready(bool result);
 
@@ -51,11 +58,13 @@ private:
     void emitReady(bool result) {
         disconnect(mState);
         disconnect(mError);
+        mResult = result;
         Q_EMIT ready(result);
     }
 
     QMetaObject::Connection mState;
     QMetaObject::Connection mError;
+    std::optional<bool> mResult;
 };
 
 template<typename>
@@ -163,6 +172,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(url);
+    if (const auto immediate = watcher.result(); immediate.has_value()) {
+        co_return *immediate;
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
@@ -175,6 +187,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(request);
+    if (const auto immediate = watcher.result(); immediate.has_value()) {
+        co_return *immediate;
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
-- 
2.43.0


From 10c8396e9c045656f3fa8933712ea8c0667263b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 26/33] fix: do not lose WebSocket connections or use a
 destroyed server in nextPendingConnection()

---
 qcoro/websockets/qcorowebsocketserver.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..40daa5d 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,7 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QPointer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -16,16 +17,12 @@ class QCoroWebSocketServerSignalListener : public QObject {
     Q_OBJECT
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
-        connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
-        });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
-        });
+        connect(server, &QWebSocketServer::closed, this, &QCoroWebSocketServerSignalListener::ready);
+        connect(server, &QWebSocketServer::newConnection, this, &QCoroWebSocketServerSignalListener::ready);
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready();
 };
 
 } // namespace
@@ -36,7 +33,7 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
+    const QPointer<QWebSocketServer> server(mServer);
     if (!server->isListening()) {
         co_return nullptr;
     }
@@ -47,7 +44,8 @@ QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chron
 
     QCoroWebSocketServerSignalListener listener(server);
     const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    // Only take the connection when it can be returned; there is none if the server was closed
+    co_return result.has_value() && server ? server->nextPendingConnection() : nullptr;
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From 4956f9e1b9123847df03f3588c2cf02a64a77800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 27/33] fix: do not hang when awaiting a D-Bus call that has
 already finished

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 15 ++++++++++++---
 qcoro/dbus/qcorodbuspendingcall.h   |  2 +-
 qcoro/dbus/qcorodbuspendingreply.h  | 13 +++++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..40b1bb2 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -17,13 +17,19 @@ bool QCoroDBusPendingCall::WaitForFinishedOperation::await_ready() const noexcep
     return mCall.isFinished();
 }
 
-void QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
-auto *watcher = new QDBusPendingCallWatcher{mCall};
+bool QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+    auto *watcher = new QDBusPendingCallWatcher{mCall};
+    // A watcher may not emit finished() if the call has finished before it was created.
+    if (watcher->isFinished()) {
+        delete watcher;
+        return false;
+    }
     QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                      [awaitingCoroutine](auto *watcher) mutable {
                          awaitingCoroutine.resume();
                          watcher->deleteLater();
                      });
+    return true;
 }
 
 QDBusMessage QCoroDBusPendingCall::WaitForFinishedOperation::await_resume() const {
@@ -37,7 +43,10 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
     QDBusPendingCallWatcher watcher{mCall};
-    co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    // A watcher may not emit finished() if the call has finished before it was created.
+    if (!watcher.isFinished()) {
+        co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    }
     co_return watcher.reply();
 }
 
diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index b56ff19..c364661 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -23,7 +23,7 @@ private:
         explicit WaitForFinishedOperation(const QDBusPendingCall &call);
 
         bool await_ready() const noexcept;
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
         const QDBusPendingCall &mCall;
diff --git a/qcoro/dbus/qcorodbuspendingreply.h b/qcoro/dbus/qcorodbuspendingreply.h
index 40154f5..28b645c 100644
--- a/qcoro/dbus/qcorodbuspendingreply.h
+++ b/qcoro/dbus/qcorodbuspendingreply.h
@@ -36,13 +36,19 @@ private:
             return mReply.isFinished();
         }
 
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) {
             auto *watcher = new QDBusPendingCallWatcher{mReply};
+            // A watcher may not emit finished() if the call has finished before it was created.
+            if (watcher->isFinished()) {
+                delete watcher;
+                return false;
+            }
             QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                              [awaitingCoroutine](auto *watcher) mutable {
                                  awaitingCoroutine.resume();
                                  watcher->deleteLater();
                              });
+            return true;
         }
 
         QDBusPendingReply<Args ...> await_resume() const {
@@ -110,7 +116,10 @@ public:
     Task<QDBusPendingReply<Args ...>> waitForFinished() {
         if (!mReply.isFinished()) {
             QDBusPendingCallWatcher watcher{mReply};
-            co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            // A watcher may not emit finished() if the call has finished before it was created.
+            if (!watcher.isFinished()) {
+                co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            }
             co_return watcher.reply();
         }
         co_return mReply;
-- 
2.43.0


From 15d4c79725156a2f0187f33f19d75314d95182d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:04 +0000
Subject: [PATCH 28/33] fix: do not let sleepFor() and sleepUntil() end early

QTimer's default coarse timers may time out up to 5 % early.
---
 qcoro/core/qcorotimer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 078745e..01813e2 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -63,6 +63,7 @@ template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
     QTimer timer;
     timer.setSingleShot(true);
+    timer.setTimerType(Qt::PreciseTimer); // coarse timers may time out early
     // Never wake up early, and treat a timeout in the past as an expired one
     auto remaining = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), std::chrono::milliseconds::zero());
     do {
-- 
2.43.0


From f8f92f6a6356af3599e7955ef2406fcdf51f3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 29/33] fix: let copies of a QmlTask share its coroutine and
 result

Using a copied QmlTask crashed, only the first then() or await() got the result, and calling a
function of a destroyed engine or awaiting an empty QmlTask crashed.
---
 qcoro/qml/qcoroqmltask.cpp | 33 +++++++++++++++++++++++++++------
 qcoro/qml/qcoroqmltask.h   |  2 +-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..269414d 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -27,6 +27,17 @@ struct QmlTaskPrivate : public QSharedData {
     QmlTaskPrivate(const QmlTaskPrivate &) : QSharedData() {
         Q_UNREACHABLE();
     };
+
+    //! Returns the result of the task, which can be taken out of the task only once
+    const QVariant &shareResult(QVariant &&taken) {
+        if (!result) {
+            result = std::move(taken);
+        }
+        return *result;
+    }
+
+private:
+    std::optional<QVariant> result;
 };
 
 inline QJSEngine *getEngineForValue(const QJSValue &val) {
@@ -37,7 +48,8 @@ inline QJSEngine *getEngineForValue(const QJSValue &val) {
     return val.engine();
     QT_WARNING_POP
 #else
-    return QJSValuePrivate::engine(&val)->jsEngine();
+    auto *const engine = QJSValuePrivate::engine(&val);
+    return engine ? engine->jsEngine() : nullptr;
 #endif
 }
 
@@ -67,9 +79,12 @@ void QmlTask::then(QJSValue func) {
         return;
     }
 
-    d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(result);
-        func.call({jsval});
+    d->task->then([func = std::move(func), d = d](QVariant &&result) mutable -> void {
+        const auto &value = d->shareResult(std::move(result));
+        // The engine may have been destroyed in the meantime
+        if (auto *const engine = getEngineForValue(func)) {
+            func.call({engine->toScriptValue(value)});
+        }
     });
 }
 
@@ -79,9 +94,15 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
-    d->task->then([listener](auto &&value) {
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
+    d->task->then([listener, d = d](QVariant &&value) {
+        const auto &result = d->shareResult(std::move(value));
         if (listener) {
-            listener->setValue(std::move(value));
+            listener->setValue(QVariant(result));
         }
     });
     return listener;
diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..7b7a514 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -93,7 +93,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From e7615c3ff25e27f0bbc877c42679e6a3835094bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 30/33] fix: finish image requests whose coroutine fails,
 ignore destroyed responses

---
 qcoro/quick/qcoroimageprovider.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 72361c7..5dabb6d 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -4,6 +4,8 @@
 
 #include "qcoroimageprovider.h"
 
+#include <QPointer>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -11,10 +13,13 @@ class QCoroImageResponse : public QQuickImageResponse {
 
 public:
     QQuickTextureFactory *textureFactory() const override;
+    QString errorString() const override;
     void reportFinished(QImage &&image);
+    void reportError(const QString &error);
 
 private:
     QImage m_image;
+    QString m_error;
 };
 
 
@@ -25,8 +30,15 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    task.then([response](QImage &&image) {
-        response->reportFinished(std::move(image));
+    // The response may be destroyed before the coroutine finishes
+    task.then([response = QPointer(response)](QImage &&image) {
+        if (response) {
+            response->reportFinished(std::move(image));
+        }
+    }, [response = QPointer(response)](const std::exception &e) {
+        if (response) {
+            response->reportError(QString::fromUtf8(e.what()));
+        }
     });
 
     return response;
@@ -36,9 +48,18 @@ QQuickTextureFactory *QCoroImageResponse::textureFactory() const {
     return QQuickTextureFactory::textureFactoryForImage(m_image);
 }
 
+QString QCoroImageResponse::errorString() const {
+    return m_error;
+}
+
 void QCoroImageResponse::reportFinished(QImage &&image) {
     m_image = image;
     Q_EMIT finished();
 }
 
+void QCoroImageResponse::reportError(const QString &error) {
+    m_error = error;
+    Q_EMIT finished();
+}
+
 }
-- 
2.43.0


From 61f7a396f0ed807c11eb0664b349b71e699860f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:03 +0000
Subject: [PATCH 31/33] fix: construct results from const lvalues and let their
 exceptions reach the awaiter

Assigning a const lvalue to the variant does not compile when the conversion is
narrowing (co_return of a const int in a Task<double>) or the result is not
assignable. Since return_value() was noexcept, an exception thrown by the
constructor of the result terminated the process instead of failing the task.
---
 qcoro/impl/taskpromise.h | 12 ++++++------
 qcoro/qcorotask.h        | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 7b5a78f..6bdffda 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -26,25 +26,25 @@ inline void TaskPromise<T>::unhandled_exception() {
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(T &&value) noexcept {
+inline void TaskPromise<T>::return_value(T &&value) {
     mValue.template emplace<T>(std::forward<T>(value));
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(const T &value) noexcept {
-    mValue = value;
+inline void TaskPromise<T>::return_value(const T &value) {
+    mValue.template emplace<T>(value);
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(U &&value) noexcept {
+inline void TaskPromise<T>::return_value(U &&value) {
     mValue.template emplace<T>(std::forward<U>(value));
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(const U &value) noexcept {
-    mValue = value;
+inline void TaskPromise<T>::return_value(const U &value) {
+    mValue.template emplace<T>(value);
 }
 
 template<typename T>
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index fe6de03..55e86e5 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -218,16 +218,16 @@ public:
      * \param[in] value the value returned by the coroutine. It is stored in the
      *            promise, later can be retrieved by the calling coroutine.
      */
-    void return_value(T &&value) noexcept;
+    void return_value(T &&value);
 
-    //! \copydoc template<typename T> TaskPromise::return_value(T &&value) noexcept
-    void return_value(const T &value) noexcept;
+    //! \copydoc template<typename T> TaskPromise::return_value(T &&value)
+    void return_value(const T &value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(U &&value) noexcept;
+    void return_value(U &&value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(const U &value) noexcept;
+    void return_value(const U &value);
 
     //! Retrieves the result of the coroutine.
     /*!
-- 
2.43.0


From a408c2cdea8ff0d34b91b88cbbcf327bd0e20695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 32/33] fix: make signal timeouts longer than INT_MAX
 milliseconds work

---
 qcoro/core/qcorosignal.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d1e3aaa..11036c1 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -14,7 +14,10 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <algorithm>
 #include <cassert>
+#include <chrono>
+#include <limits>
 #include <optional>
 #include <deque>
 #include <tuple>
@@ -114,10 +117,15 @@ public:
             QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
                 [this, awaitingCoroutine]() {
+                    if (mRemainingTimeout > std::chrono::milliseconds::zero()) {
+                        startTimeoutTimer();
+                        return;
+                    }
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
                 }, Qt::DirectConnection); // force coro to be resumed on our thread, not mObj's thread
-            mTimeoutTimer->start();
+            mRemainingTimeout = mTimeout;
+            startTimeoutTimer();
         }
     }
 
@@ -126,11 +134,18 @@ protected:
         : mObj(obj), mFuncPtr(std::forward<FuncPtr>(funcPtr)) {
         if (timeout.count() > -1) {
             mTimeoutTimer = std::make_unique<QTimer>();
-            mTimeoutTimer->setInterval(timeout);
+            mTimeout = timeout;
             mTimeoutTimer->setSingleShot(true);
         }
     }
 
+    void startTimeoutTimer() {
+        // QTimer cannot measure an interval longer than INT_MAX milliseconds
+        const auto interval = std::min(mRemainingTimeout, std::chrono::milliseconds{std::numeric_limits<int>::max()});
+        mRemainingTimeout -= interval;
+        mTimeoutTimer->start(interval);
+    }
+
     template<typename... Args>
     struct select_last {
         using type = typename decltype((std::type_identity<Args>{}, ...))::type;
@@ -163,6 +178,8 @@ protected:
     FuncPtr mFuncPtr;
     QMetaObject::Connection mConn;
     std::unique_ptr<QTimer> mTimeoutTimer;
+    std::chrono::milliseconds mTimeout{-1};
+    std::chrono::milliseconds mRemainingTimeout{-1};
 };
 
 template<concepts::QObject T, typename FuncPtr>
-- 
2.43.0


From e0549ec766f3c13b24ea306ceeeaa8aa8417433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:38 +0000
Subject: [PATCH 33/33] fix: finish image requests whose coroutine fails with
 any exception

---
 qcoro/quick/qcoroimageprovider.cpp | 36 +++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 5dabb6d..2af37c6 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -23,23 +23,37 @@ private:
 };
 
 
+static QCoro::Task<> finishResponse(QCoro::Task<QImage> task, QPointer<QCoroImageResponse> response) {
+    QImage image;
+    QString error;
+    bool failed = false;
+    try {
+        image = co_await task;
+    } catch (const std::exception &e) {
+        failed = true;
+        error = QString::fromUtf8(e.what());
+    } catch (...) {
+        failed = true;
+        error = QStringLiteral("Unknown exception");
+    }
+
+    // The response may be destroyed before the coroutine finishes
+    if (response) {
+        if (failed) {
+            response->reportError(error);
+        } else {
+            response->reportFinished(std::move(image));
+        }
+    }
+}
+
 ImageProvider::ImageProvider() = default;
 
 QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, const QSize &requestedSize) {
     auto task = asyncRequestImage(id, requestedSize);
 
     auto *response = new QCoroImageResponse();
-
-    // The response may be destroyed before the coroutine finishes
-    task.then([response = QPointer(response)](QImage &&image) {
-        if (response) {
-            response->reportFinished(std::move(image));
-        }
-    }, [response = QPointer(response)](const std::exception &e) {
-        if (response) {
-            response->reportError(QString::fromUtf8(e.what()));
-        }
-    });
+    finishResponse(std::move(task), response);
 
     return response;
 }
-- 
2.43.0

