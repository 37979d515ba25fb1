// A clock under the control of the workload: while a FakeClock lives, std::chrono's clocks of this thread
// stand still and move only when told. The definitions take precedence over the ones of libstdc++.
// To be included in one source file of a binary.
#ifndef VERIF_FAKE_CLOCK_HPP
#define VERIF_FAKE_CLOCK_HPP
#include <chrono>
#include <time.h>

namespace vf {
struct FakeClock {
    static bool& on() { static thread_local bool v = false; return v; }
    static long long& offset() { static thread_local long long v = 0; return v; }   // nanoseconds
    static long& reads() { static thread_local long v = 0; return v; }
    FakeClock() { on() = true; offset() = 0; reads() = 0; }
    ~FakeClock() { on() = false; }
    static void advance(double seconds) { offset() += (long long)(seconds * 1e9); }
    static long long ns(clockid_t id) {
        if (on()) { ++reads(); return 1700000000LL * 1000000000LL + offset(); }
        struct timespec t;
        clock_gettime(id, &t);
        return t.tv_sec * 1000000000LL + t.tv_nsec;
    }
};
} // namespace vf

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf::FakeClock::ns(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vf::FakeClock::ns(CLOCK_MONOTONIC))); }
} } }
#endif
