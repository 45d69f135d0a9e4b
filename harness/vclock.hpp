// Virtual wall clock of the drivers that run OPC UA components (included once per driver).
#pragma once
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace uw { int64_t wallBase = 0; bool wallOn = false; }
static long const* worldNow = nullptr;

// virtual wall clock
static bool virtualClock(struct timespec& t)
{
    if (!uw::wallOn || !worldNow) return false;
    int64_t us = uw::wallBase + *worldNow;
    t.tv_sec = us / 1000000; t.tv_nsec = us % 1000000 * 1000;
    return true;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && virtualClock(*t)) return 0;
    return (int)syscall(SYS_clock_gettime, id, t);
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept
{
    struct timespec ts;
    if (!virtualClock(ts)) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* o) noexcept
{
    struct timespec ts;
    if (!virtualClock(ts)) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
