// texts of values: laws over arbitrary numbers
#include <teiacare/sdk/datetime/timedelta.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>

#include <chrono>
#include <sstream>
#include <string>

void ensure(bool, const char*);

// the decimal digits of n, after zeros that fill the given number of places
std::string padded(long long n, int places);

namespace r09
{
using namespace tc::sdk;
template <typename V>
std::string written(const V& v)
{
    std::ostringstream os;
    os << v << '|' << v;
    return os.str();
}
template <typename T>
struct texts
{
    static void points(T x, T y)
    {
        const point<T> p(x, y);
        ensure(p.to_string() == "(" + std::to_string(x) + ", " + std::to_string(y) + ")", "the text of a point is (x, y)");
        ensure(written(p) == p.to_string() + "|" + p.to_string(), "a point is written as its text");
    }
    static void sizes(T w, T h)
    {
        const size<T> s(w, h);
        ensure(s.to_string() == "(" + std::to_string(s.width()) + "x" + std::to_string(s.height()) + ")", "the text of a size is (width x height)");
        ensure(written(s) == s.to_string() + "|" + s.to_string(), "a size is written as its text");
    }
    static void ranges(T a, T b)
    {
        const range<T> r(a, b);
        ensure(r.to_string() == "(" + std::to_string(r.min()) + ":" + std::to_string(r.max()) + ")", "the text of a range is (min:max)");
        ensure(written(r) == r.to_string() + "|" + r.to_string(), "a range is written as its text");
    }
    static void lines(T a, T b, T c, T d)
    {
        const line<T> l(point<T>(a, b), point<T>(c, d));
        ensure(l.to_string() == "(" + l.start().to_string() + " : " + l.end().to_string() + ")", "the text of a line is (start : end)");
        ensure(written(l) == l.to_string() + "|" + l.to_string(), "a line is written as its text");
    }
    static void rectangles(T x, T y, T w, T h)
    {
        const rectangle<T> r(point<T>(x, y), w, h);
        ensure(r.to_string() == r.top_left().to_string() + " : (" + std::to_string(r.width()) + "x" + std::to_string(r.height()) + ")", "the text of a rectangle is position : (width x height)");
        ensure(written(r) == r.to_string() + "|" + r.to_string(), "a rectangle is written as its text");
    }
};
template struct texts<int>;
template struct texts<long>;
template struct texts<float>;
template struct texts<double>;
}

namespace d07
{
using tc::sdk::timedelta;
template <typename D>
void text(std::chrono::nanoseconds a)
{
    const auto c = std::chrono::duration_cast<D>(a);
    const auto m = c < D::zero() ? -c : c;
    const auto h = std::chrono::duration_cast<std::chrono::hours>(m);
    const auto n = std::chrono::duration_cast<std::chrono::minutes>(m - h);
    const auto s = std::chrono::duration_cast<std::chrono::seconds>(m - h - n);
    const auto f = m - h - n - s;
    std::string t;
    if (c < D::zero())
        t += "-";
    t += padded(h.count(), 2) + ":" + padded(n.count(), 2) + ":" + padded(s.count(), 2);
    if (D::period::den == 1000)
        t += "." + padded(f.count(), 3);
    if (D::period::den == 1000000)
        t += "." + padded(f.count(), 6);
    if (D::period::den == 1000000000)
        t += "." + padded(f.count(), 9);
    ensure(timedelta(a).to_string<D>() == t, "the text is [-]hours:minutes:seconds[.fraction], each filled with zeros");
}
template void text<std::chrono::seconds>(std::chrono::nanoseconds);
template void text<std::chrono::milliseconds>(std::chrono::nanoseconds);
template void text<std::chrono::microseconds>(std::chrono::nanoseconds);
template void text<std::chrono::nanoseconds>(std::chrono::nanoseconds);
void written(std::chrono::nanoseconds a)
{
    const timedelta d(a);
    std::ostringstream os;
    os << d << '|' << d;
    ensure(os.str() == d.to_string() + "|" + d.to_string(), "a timedelta is written as its text");
    ensure(d.to_string() == d.to_string<std::chrono::milliseconds>(), "a text has milliseconds unless asked otherwise");
}
}
