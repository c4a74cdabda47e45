// A clock for the application: every reading is later than the one before by MILO_STEP nanoseconds.

#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <sys/time.h>

// Where what is done between readings is recorded (probe.h).
extern "C" void milo_tick() __attribute__((weak));

static int64_t now()
{
    static int64_t t = 1000000000000;
    static const char* s = getenv("MILO_STEP");
    static int64_t step = s ? atoll(s) : 1;
    if (milo_tick) milo_tick();
    return t += step;
}

extern "C" int clock_gettime(clockid_t, timespec* a) noexcept
{
    auto t = now();
    a->tv_sec = t / 1000000000;
    a->tv_nsec = t % 1000000000;
    return 0;
}

extern "C" int gettimeofday(timeval* a, void*) noexcept
{
    auto t = now();
    a->tv_sec = t / 1000000000;
    a->tv_usec = t % 1000000000 / 1000;
    return 0;
}
