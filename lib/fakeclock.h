// The clock the code under test sees, whichever call it asks: define FAKE_NOW as an expression for the seconds since 1970
// before including this (0 means the real clock). Clocks that are not wall clocks stay real.
#ifndef VERIF_FAKECLOCK_H
#define VERIF_FAKECLOCK_H
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace fakeclock
{
inline struct timespec wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); time_t f = (FAKE_NOW); if (f) t.tv_sec = f; return t; }
}
extern "C" time_t time(time_t *p) { struct timespec t = fakeclock::wall(); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" int gettimeofday(struct timeval *tv, void *) { struct timespec t = fakeclock::wall(); if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return (int)syscall(SYS_clock_gettime, c, ts);
	*ts = fakeclock::wall(); return 0;
}
#endif
