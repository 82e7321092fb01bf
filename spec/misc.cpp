// stopwatch and rate limiter: laws over arbitrary clock readings
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/stopwatch.hpp>

void ensure(bool, const char*);
// the last reading of tc::sdk::clock
tc::sdk::time_point last_now();
// how many readings there were
int readings();

namespace k01
{
void measure()
{
    const int n = readings();
    tc::sdk::stopwatch w;
    ensure(readings() > n, "a stopwatch starts by reading the clock");
    const auto start = last_now();
    ensure(w.start_time() == start, "the start time is the time of construction");
    const int m = readings();
    const auto e = w.elapsed();
    ensure(readings() > m, "the elapsed time is measured when asked for");
    ensure(e == last_now() - start, "the elapsed time is the time since the start");
    const auto e2 = w.elapsed();
    ensure(e2 == last_now() - start, "asking does not restart the stopwatch");
    ensure(w.start_time() == start, "asking does not change the start time");
}
void restart()
{
    tc::sdk::stopwatch w;
    const auto e0 = w.elapsed();
    const int n = readings();
    w.reset();
    ensure(readings() > n, "a reset reads the clock");
    const auto start = last_now();
    ensure(w.start_time() == start, "a reset starts again");
    const auto e = w.elapsed();
    ensure(e == last_now() - start, "the elapsed time is the time since the reset");
}
template <typename D>
void unit()
{
    tc::sdk::stopwatch w;
    const auto start = last_now();
    const auto e = w.elapsed<D>();
    ensure(e == std::chrono::duration_cast<D>(last_now() - start), "the elapsed time is converted to the unit asked for");
}
template void unit<std::chrono::hours>();
template void unit<std::chrono::minutes>();
template void unit<std::chrono::seconds>();
template void unit<std::chrono::milliseconds>();
template void unit<std::chrono::microseconds>();
template void unit<std::chrono::nanoseconds>();
}

namespace k02
{
// the deadlines of the sleeps are examined by the check
void limit(size_t rate)
{
    if (rate == 0)
        return;
    tc::sdk::rate_limiter l(rate);
    l.sync();
    l.sync();
    l.sync();
}
}
