// Deterministic event loop: a QAbstractEventDispatcher running on virtual time.
//
// Posted events are delivered in order, timers fire in virtual time, which only advances when there is nothing else to
// do. "Idle" is therefore decidable: there are no posted events, no readable descriptors and no timers left, so a
// coroutine that has not finished by then never will.
#pragma once

#include <QtGlobal>
#include <memory>

class QCoreApplication;

namespace vloop {

//! Installs the dispatcher; must be called before the QCoreApplication is created.
void install();

//! Virtual time in milliseconds
qint64 now();

//! Delivers everything that is due now, without advancing the virtual time.
void drain();
//! Lets ms milliseconds of virtual time pass, delivering everything that becomes due.
void advance(qint64 ms);
//! Lets time pass without running the event loop, as if the thread were busy
void skip(qint64 ms);
//! Runs until nothing is left to do, advancing the time by at most maxMs.
void settle(qint64 maxMs = 100'000'000);
//! A single iteration of the event loop without waiting.
void step();

//! Number of active timers
int timerCount();
//! Interval with which the most recently started timer was registered, -1 if none
qint64 lastTimerInterval();
//! Forgets all timers (used between cases); virtual time continues.
void resetTimers();

//! Whether coarse timers time out as early as they may (5 %) when they are started from now on
void setCoarseEarly(bool on);
//! Real milliseconds to wait for descriptors before concluding nothing arrives on them
void setGraceMs(int ms);
//! Whether descriptors are watched at all
void setPolling(bool on);
//! Real milliseconds for which a blocked nested event loop waits for events from other threads before concluding it never ends
//! (virtual time does not advance in nested event loops then)
void setPatienceMs(int ms);

} // namespace vloop
