// datetime: laws over arbitrary values
#include <teiacare/sdk/datetime/date.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/datetime/time.hpp>
#include <teiacare/sdk/datetime/timedelta.hpp>

#include "datetime/date.h"
#include <sstream>

void ensure(bool, const char*);
using ns = std::chrono::nanoseconds;
using stp = tc::sdk::sys_time_point;

namespace d01
{
using tc::sdk::timedelta;
void construct(ns a, std::chrono::hours h, std::chrono::minutes m, std::chrono::milliseconds ms)
{
    const timedelta d(a);
    ensure(d.total_nanoseconds() == a, "a timedelta holds the duration it is given");
    const timedelta s(h, m, ms, a);
    ensure(s.total_nanoseconds() == h + m + ms + a, "several durations are added");
    const timedelta e(ms);
    ensure(e.total_nanoseconds() == ms, "a duration of another unit is converted");
    ensure(timedelta().total_nanoseconds() == ns::zero() && timedelta().is_null(), "a default timedelta is zero");
    ensure(d.is_null() == (a == ns::zero()), "a timedelta is null exactly if it is zero");
    timedelta c;
    c = d;
    ensure(c == d, "assignment makes equal");
}
void components(ns a)
{
    const timedelta d(a);
    ensure(d.hours() + d.minutes() + d.seconds() + d.milliseconds() + d.microseconds() + d.nanoseconds() == a, "the components add up to the duration");
    ensure(d.hours() <= a && a - d.hours() < std::chrono::hours(1), "the hours are the whole ones");
    ensure(d.minutes().count() >= 0 && d.minutes().count() < 60, "minutes lie in 0..59");
    ensure(d.seconds().count() >= 0 && d.seconds().count() < 60, "seconds lie in 0..59");
    ensure(d.milliseconds().count() >= 0 && d.milliseconds().count() < 1000, "milliseconds lie in 0..999");
    ensure(d.microseconds().count() >= 0 && d.microseconds().count() < 1000, "microseconds lie in 0..999");
    ensure(d.nanoseconds().count() >= 0 && d.nanoseconds().count() < 1000, "nanoseconds lie in 0..999");
}
void totals(ns a)
{
    const timedelta d(a);
    ensure(d.total_nanoseconds() == a, "total_nanoseconds() is the duration");
    ensure(d.total_microseconds() == std::chrono::duration_cast<std::chrono::microseconds>(a), "total_microseconds() is truncated");
    ensure(d.total_milliseconds() == std::chrono::duration_cast<std::chrono::milliseconds>(a), "total_milliseconds() is truncated");
    ensure(d.total_seconds() == std::chrono::duration_cast<std::chrono::seconds>(a), "total_seconds() is truncated");
    ensure(d.total_minutes() == std::chrono::duration_cast<std::chrono::minutes>(a), "total_minutes() is truncated");
    ensure(d.total_hours() == std::chrono::duration_cast<std::chrono::hours>(a), "total_hours() is truncated");
    ensure(d.total_days() == std::chrono::duration_cast<std::chrono::days>(a), "total_days() is truncated");
    ensure(d.total_months() == std::chrono::duration_cast<std::chrono::months>(a), "total_months() is truncated");
    ensure(d.total_years() == std::chrono::duration_cast<std::chrono::years>(a), "total_years() is truncated");
}
void arithmetic(ns a, ns b, int64_t k)
{
    const timedelta x(a), y(b);
    ensure((x == y) == (a == b), "timedeltas are equal exactly if their durations are");
    ensure((x != y) == !(x == y), "unequal is the opposite of equal");
    ensure((x + y).total_nanoseconds() == a + b, "timedeltas are added");
    ensure((x - y).total_nanoseconds() == a - b, "timedeltas are subtracted");
    ensure((x + y) - y == x, "subtraction undoes addition");
    ensure((x * k).total_nanoseconds() == a * k, "timedeltas are multiplied");
    if (k != 0)
        ensure((x / k).total_nanoseconds() == a / k, "timedeltas are divided");
}
void divide_by_zero(ns a)
{
    const timedelta x(a);
    bool thrown = false;
    try
    {
        static_cast<void>(x / 0);
    }
    catch (const std::domain_error&)
    {
        thrown = true;
    }
    ensure(thrown, "division by zero throws a domain_error");
}
void divide(ns a, int64_t k)
{
    const timedelta x(a);
    try
    {
        static_cast<void>(x / k);
    }
    catch (const std::domain_error&)
    {
        ensure(k == 0, "only division by zero throws");
    }
}
}

namespace d02
{
using tc::sdk::date;
using tc::sdk::timedelta;
void construct(std::chrono::year_month_day ymd, std::chrono::year y, std::chrono::month m, std::chrono::day d)
{
    const date a(ymd);
    ensure(a.year() == ymd.year() && a.month() == ymd.month() && a.day() == ymd.day(), "a date holds year, month and day");
    ensure(a.is_valid() == ymd.ok(), "a date is valid exactly if it exists in the calendar");
    ensure(a.to_timepoint() == std::chrono::sys_days(ymd), "the time point is the begin of the day");
    ensure(a.weekday() == std::chrono::weekday(ymd), "the weekday is that of the date");
    ensure(a.iso_weekday() == std::chrono::weekday(ymd).iso_encoding(), "iso_weekday() is the ISO number of the weekday");
    const date b(y, m, d);
    ensure(b.year() == y && b.month() == m && b.day() == d, "a date can be given by components");
    date c;
    c = a;
    ensure(c == a, "assignment makes equal");
    const date e(std::chrono::year_month_day(y, m, d));
    ensure(e == b, "both ways give the same date");
    ensure(!date().is_valid(), "a default date is not valid");
}
void from_timepoint(stp t)
{
    const date a(t);
    ensure(a.to_timepoint() <= t && t - a.to_timepoint() < std::chrono::days(1), "the date of a time point is the day it lies in");
    ensure(date(t.time_since_epoch()) == a, "a duration is counted from the epoch");
}
void compare(std::chrono::sys_days s, std::chrono::sys_days t, std::chrono::sys_days u)
{
    const date a{stp(s)}, b{stp(t)}, c{stp(u)};
    ensure((a == b) == (s == t), "dates are equal exactly if they are the same day");
    ensure((a != b) == !(a == b), "unequal is the opposite of equal");
    ensure((a < b) == (b > a), "less is the opposite of greater");
    ensure(a < b || b < a || a == b, "dates are ordered totally");
    ensure(!(a < b) || !(a > b || a == b), "the order is strict");
    ensure(!(a < b && b < c) || a < c, "the order is transitive");
}
void difference(std::chrono::sys_days s, std::chrono::sys_days t)
{
    const date a{stp(s)}, b{stp(t)};
    ensure((a - b).total_nanoseconds() == s - t, "the difference is that of the days");
    ensure(b + (a - b) == a, "adding the difference leads from one date to the other");
    ensure((a - b) == timedelta() - (b - a), "the difference changes its sign with the order");
}
void add(std::chrono::sys_days s, ns d)
{
    const date a{stp(s)};
    const auto t = (a + timedelta(d)).to_timepoint();
    ensure(t <= s + d && s + d - t < std::chrono::days(1), "a sum is the day it lies in");
    const auto u = (a - timedelta(d)).to_timepoint();
    ensure(u <= s - d && s - d - u < std::chrono::days(1), "a difference is the day it lies in");
    ensure(a + timedelta(d) == a - (timedelta() - timedelta(d)), "subtraction is the addition of the negative");
}
void add_days(std::chrono::sys_days s, std::chrono::days n)
{
    const date a{stp(s)};
    ensure((a + timedelta(n)) - timedelta(n) == a, "whole days can be added and subtracted again");
    ensure(((a + timedelta(n)) - a).total_days() == n, "adding n days leads n days further");
}
}

namespace d03
{
using tc::sdk::time;
using tc::sdk::timedelta;
void construct(ns a, std::chrono::hours h, std::chrono::minutes m)
{
    const time t(static_cast<const ns&>(a));
    ensure(t.to_duration() == a % std::chrono::hours(24), "a time is the duration within a day");
    ensure(t.to_duration() < std::chrono::hours(24) && t.to_duration() > -std::chrono::hours(24), "a time is less than a day");
    ensure(t.is_valid(), "a given time is valid");
    const time s(static_cast<const std::chrono::hours&>(h), static_cast<const std::chrono::minutes&>(m), static_cast<const ns&>(a));
    ensure(s.to_duration() == (h + m + a) % std::chrono::hours(24), "several durations are added");
    const time r(static_cast<std::chrono::hours&&>(h), static_cast<std::chrono::minutes&&>(m), static_cast<ns&&>(a));
    ensure(r.to_duration() == (h + m + a) % std::chrono::hours(24), "several temporary durations are added");
    ensure(!time().is_valid(), "a default time is not valid");
    time c;
    c = t;
    ensure(c == t, "assignment makes equal");
    ensure(time(ns(a)) == t, "a temporary duration makes the same time");
}
void components(ns a)
{
    if (a < ns::zero() || a >= std::chrono::hours(24))
        return;
    const time t(static_cast<const ns&>(a));
    ensure(t.hours() + t.minutes() + t.seconds() + t.nanoseconds() == a, "the components add up to the time");
    ensure(t.hours().count() >= 0 && t.hours().count() < 24, "hours lie in 0..23");
    ensure(t.minutes().count() >= 0 && t.minutes().count() < 60, "minutes lie in 0..59");
    ensure(t.seconds().count() >= 0 && t.seconds().count() < 60, "seconds lie in 0..59");
    ensure(t.nanoseconds() >= ns::zero() && t.nanoseconds() < std::chrono::seconds(1), "the rest is less than a second");
    ensure(t.milliseconds() <= t.nanoseconds() && t.nanoseconds() - t.milliseconds() < std::chrono::milliseconds(1), "milliseconds are the whole ones of the rest");
    ensure(t.microseconds() <= t.nanoseconds() && t.nanoseconds() - t.microseconds() < std::chrono::microseconds(1), "microseconds are the whole ones of the rest");
}
void arithmetic(ns a, ns b, ns d)
{
    const time s(static_cast<const ns&>(a)), t(static_cast<const ns&>(b));
    ensure((s - t).total_nanoseconds() == s.to_duration() - t.to_duration(), "the difference is that of the durations");
    ensure((s + t).total_nanoseconds() == s.to_duration() + t.to_duration(), "the sum is that of the durations");
    ensure((s + timedelta(d)).to_duration() == (s.to_duration() + d) % std::chrono::hours(24), "a sum is taken within a day");
    ensure((s - timedelta(d)).to_duration() == (s.to_duration() - d) % std::chrono::hours(24), "a difference is taken within a day");
}
void compare(ns a, ns b, ns c)
{
    const time s(static_cast<const ns&>(a)), t(static_cast<const ns&>(b)), u(static_cast<const ns&>(c));
    ensure((s == t) == (s.to_duration() == t.to_duration()), "times are equal exactly if their durations are");
    ensure((s != t) == !(s == t), "unequal is the opposite of equal");
    ensure((s < t) == (s.to_duration() < t.to_duration()), "the order is that of the durations");
    ensure((s > t) == (t < s), "greater is the opposite of less");
}
}

namespace d04
{
using tc::sdk::date;
using tc::sdk::datetime;
using tc::sdk::time;
using tc::sdk::timedelta;
void construct(stp t)
{
    const datetime d(t);
    ensure(d.to_time_point() == t, "a datetime holds the time point it is given");
    datetime c;
    ensure(!c.is_valid(), "a default datetime is not valid");
    c = d;
    ensure(c == d, "assignment makes equal");
    ensure(datetime(static_cast<stp&&>(t)) == d, "a temporary time point makes the same datetime");
}
void valid(stp t)
{
    if (t < stp::min() || t > stp::max() || !(stp::min() < stp::max()))
        return;
    ensure(datetime(t).is_valid() == (t > stp::min() && t < stp::max()), "a datetime is valid exactly if it is not an extreme one");
}
void compose(std::chrono::sys_days s, ns a)
{
    const date d{stp(s)};
    const time t(static_cast<const ns&>(a));
    ensure(datetime(d).to_time_point() == s, "the datetime of a date is its begin");
    ensure(datetime(t).to_time_point().time_since_epoch() == t.to_duration(), "the datetime of a time lies on the first day");
    ensure(datetime(d, t).to_time_point() == s + t.to_duration(), "date and time are put together");
}
void components(std::chrono::year y, std::chrono::month m, std::chrono::day d, std::chrono::hours hh, std::chrono::minutes mm, std::chrono::seconds ss, std::chrono::milliseconds ms, std::chrono::microseconds us, ns n)
{
    const datetime a(y, m, d, hh, mm, ss, ms, us, n);
    ensure(a.to_time_point() == std::chrono::sys_days(std::chrono::year_month_day(y, m, d)) + hh + mm + ss + ms + us + n, "components are put together");
    ensure(datetime(y, m, d, hh, mm, ss) == datetime(y, m, d, hh, mm, ss, std::chrono::milliseconds(0), std::chrono::microseconds(0), ns(0)), "components of the second may be left out");
}
void decompose(stp t)
{
    const datetime a(t);
    ensure(a.date().to_timepoint() <= t && t - a.date().to_timepoint() < std::chrono::days(1), "the date is the day of the time point");
    ensure(a.time().to_duration() >= ns::zero() && a.time().to_duration() < std::chrono::hours(24), "the time lies within a day");
    ensure(datetime(a.date(), a.time()) == a, "date and time make the datetime again");
}
void decompose_composed(std::chrono::sys_days s, ns a)
{
    if (a < ns::zero() || a >= std::chrono::hours(24))
        return;
    const date d{stp(s)};
    const time t(static_cast<const ns&>(a));
    const datetime x(d, t);
    ensure(x.date() == d, "the date can be taken out again");
    ensure(x.time() == t, "the time can be taken out again");
}
void arithmetic(stp s, stp t, ns d)
{
    const datetime a(s), b(t);
    ensure((a + timedelta(d)).to_time_point() == s + d, "a timedelta is added");
    ensure((a - timedelta(d)).to_time_point() == s - d, "a timedelta is subtracted");
    ensure((a + timedelta(d)) - timedelta(d) == a, "subtraction undoes addition");
    ensure((a - b).total_nanoseconds() == s - t, "the difference is that of the time points");
    ensure(b + (a - b) == a, "adding the difference leads from one to the other");
}
void compare(stp s, stp t)
{
    const datetime a(s), b(t);
    ensure((a == b) == (s == t), "datetimes are equal exactly if their time points are");
    ensure((a != b) == !(a == b), "unequal is the opposite of equal");
    ensure((a < b) == (s < t), "the order is that of the time points");
    ensure((a > b) == (b < a), "greater is the opposite of less");
}
}

// the first reading of the system clock a law has caused; any later one may differ
std::chrono::system_clock::time_point reading();
namespace d05
{
void today()
{
    const auto t = tc::sdk::date::today();
    ensure(t == tc::sdk::date(reading()), "today() is the date of the current time");
}
template <typename D>
void time_now()
{
    const auto d = tc::sdk::time::utc_now<D>().to_duration();
    const auto now = reading();
    const auto e = now - std::chrono::floor<std::chrono::days>(now);
    ensure(d <= e && e - d < D(1), "the current time is cut to the precision asked for");
}
template <typename D>
void datetime_now()
{
    const auto t = tc::sdk::datetime::utc_now<D>().to_time_point();
    const auto now = reading();
    ensure(t == std::chrono::time_point_cast<D>(now), "the current time is cut to the precision asked for");
}
template void time_now<std::chrono::hours>();
template void time_now<std::chrono::minutes>();
template void time_now<std::chrono::seconds>();
template void time_now<std::chrono::milliseconds>();
template void time_now<std::chrono::microseconds>();
template void time_now<std::chrono::nanoseconds>();
template void datetime_now<std::chrono::seconds>();
template void datetime_now<std::chrono::milliseconds>();
template void datetime_now<std::chrono::microseconds>();
template void datetime_now<std::chrono::nanoseconds>();
}

// text: against the date library that parses and formats
namespace d06
{
template <typename V>
bool reads(const std::string& s, const std::string& f, V& v)
{
    std::stringstream ss{s};
    ss >> ::date::parse(f, v);
    return !ss.fail();
}
void date_parsed(const std::string& s, const std::string& f)
{
    std::chrono::sys_days v;
    const bool good = reads(s, f, v);
    bool thrown = false;
    try
    {
        const auto d = tc::sdk::date::from_string(s, f);
        ensure(good, "a date is returned only if the text can be parsed");
        ensure(d.to_timepoint() == v, "the date is the parsed one");
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    ensure(thrown == !good, "from_string() throws exactly if the text cannot be parsed");
}
template <typename D>
void time_parsed(const std::string& s, const std::string& f)
{
    D v;
    const bool good = reads(s, f, v);
    bool thrown = false;
    try
    {
        const auto d = tc::sdk::time::from_string<D>(s, f);
        ensure(good, "a time is returned only if the text can be parsed");
        ensure(d.to_duration() == ns(v) % std::chrono::hours(24), "the time is the parsed one");
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    ensure(thrown == !good, "from_string() throws exactly if the text cannot be parsed");
}
template <typename D>
void datetime_parsed(const std::string& s, const std::string& f)
{
    std::chrono::sys_time<D> v;
    const bool good = reads(s, f, v);
    bool thrown = false;
    try
    {
        const auto d = tc::sdk::datetime::from_string<D>(s, f);
        ensure(good, "a datetime is returned only if the text can be parsed");
        ensure(d.to_time_point() == v, "the datetime is the parsed one");
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    ensure(thrown == !good, "from_string() throws exactly if the text cannot be parsed");
}
void date_text(const std::string& f, std::chrono::sys_days s)
{
    const tc::sdk::date d{stp(s)};
    ensure(d.to_string(f) == ::date::format(f, s), "the text is that of the day");
}
template <typename D>
void time_text(const std::string& f, ns a)
{
    if (a < ns::zero())
        return;
    const tc::sdk::time t(static_cast<const ns&>(a));
    ensure(t.to_string<D>(f) == ::date::format(f, std::chrono::floor<D>(t.to_duration())), "the text is that of the time cut to the precision");
}
template <typename D>
void datetime_text(const std::string& f, ns a)
{
    if (a < ns::zero())
        return;
    const tc::sdk::datetime t{stp(a)};
    const auto text = t.to_string<D>(f);
    ensure(text == ::date::format(f, std::chrono::floor<D>(stp(a))) || text == ::date::format(f, std::chrono::time_point_cast<D>(stp(a))), "the text is that of the time point cut to the precision");
}
template void time_parsed<std::chrono::hours>(const std::string&, const std::string&);
template void time_parsed<std::chrono::minutes>(const std::string&, const std::string&);
template void time_parsed<std::chrono::seconds>(const std::string&, const std::string&);
template void time_parsed<std::chrono::milliseconds>(const std::string&, const std::string&);
template void time_parsed<std::chrono::microseconds>(const std::string&, const std::string&);
template void time_parsed<std::chrono::nanoseconds>(const std::string&, const std::string&);
template void datetime_parsed<std::chrono::seconds>(const std::string&, const std::string&);
template void datetime_parsed<std::chrono::milliseconds>(const std::string&, const std::string&);
template void datetime_parsed<std::chrono::microseconds>(const std::string&, const std::string&);
template void datetime_parsed<std::chrono::nanoseconds>(const std::string&, const std::string&);
template void time_text<std::chrono::hours>(const std::string&, ns);
template void time_text<std::chrono::minutes>(const std::string&, ns);
template void time_text<std::chrono::seconds>(const std::string&, ns);
template void time_text<std::chrono::milliseconds>(const std::string&, ns);
template void time_text<std::chrono::microseconds>(const std::string&, ns);
template void time_text<std::chrono::nanoseconds>(const std::string&, ns);
template void datetime_text<std::chrono::seconds>(const std::string&, ns);
template void datetime_text<std::chrono::milliseconds>(const std::string&, ns);
template void datetime_text<std::chrono::microseconds>(const std::string&, ns);
template void datetime_text<std::chrono::nanoseconds>(const std::string&, ns);
}
