// math.hpp and geometry: laws over arbitrary values, for int and double
#include <teiacare/sdk/math.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>

template class tc::sdk::point<int>;
template class tc::sdk::size<int>;
template class tc::sdk::range<int>;
template class tc::sdk::line<int>;
template class tc::sdk::rectangle<int>;
template class tc::sdk::point<double>;
template class tc::sdk::size<double>;
template class tc::sdk::range<double>;
template class tc::sdk::line<double>;
template class tc::sdk::rectangle<double>;

void ensure(bool, const char*);
using namespace tc::sdk;


namespace m01
{
template <typename T>
void two(T a, T b)
{
    const T x = tc::sdk::max(a, b);
    const T n = tc::sdk::min(a, b);
    ensure(x >= a && x >= b, "the maximum is not below an argument");
    ensure(x == a || x == b, "the maximum is an argument");
    ensure(n <= a && n <= b, "the minimum is not above an argument");
    ensure(n == a || n == b, "the minimum is an argument");
}
template <typename T>
void three(T a, T b, T c)
{
    const T x = tc::sdk::max(a, b, c);
    const T n = tc::sdk::min(a, b, c);
    ensure(x >= a && x >= b && x >= c, "the maximum is not below an argument");
    ensure(x == a || x == b || x == c, "the maximum is an argument");
    ensure(n <= a && n <= b && n <= c, "the minimum is not above an argument");
    ensure(n == a || n == b || n == c, "the minimum is an argument");
}
template <typename T>
void four(T a, T b, T c, T d)
{
    const T x = tc::sdk::max(a, b, c, d);
    const T n = tc::sdk::min(a, b, c, d);
    ensure(x >= a && x >= b && x >= c && x >= d, "the maximum is not below an argument");
    ensure(x == a || x == b || x == c || x == d, "the maximum is an argument");
    ensure(n <= a && n <= b && n <= c && n <= d, "the minimum is not above an argument");
    ensure(n == a || n == b || n == c || n == d, "the minimum is an argument");
}
template void two(int, int);
template void two(double, double);
template void three(int, int, int);
template void three(double, double, double);
template void four(int, int, int, int);
template void four(double, double, double, double);
}

// ranges: all ranges with min <= max unless stated otherwise
namespace r01
{
template <typename T>
void getters(T a, T b)
{
    const range<T> r(a, b);
    ensure(r.min() == a && r.max() == b, "a range holds the bounds it was given");
    ensure(r.lenght() == b - a, "the length is the difference of the bounds");
    ensure(r.is_null() == (a == b), "a range is null exactly if its bounds are equal");
    const range<T> d;
    ensure(d.min() == 0 && d.max() == 0 && d.is_null(), "a default range is null");
}
template <typename T>
void equality(T a, T b, T c, T d)
{
    const range<T> r(a, b), s(c, d);
    ensure((r == s) == (a == c && b == d), "ranges are equal exactly if their bounds are");
    ensure((r != s) == !(r == s), "unequal is the opposite of equal");
    range<T> k(a, b);
    k = s;
    ensure(k == s, "assignment makes equal");
    const range<T> l(r);
    ensure(l == r, "a copy is equal");
}
template <typename T>
void set_min(T a, T b, T v)
{
    if (a > b)
        return;
    range<T> r(a, b);
    r.set_min(v);
    ensure(r.min() == v, "set_min() sets the minimum");
    ensure(r.min() <= r.max(), "set_min() keeps the bounds ordered");
    ensure(v > b || r.max() == b, "set_min() keeps the maximum if it can");
    ensure(v <= b || r.max() == v, "set_min() moves the maximum no further than needed");
}
template <typename T>
void set_max(T a, T b, T v)
{
    if (a > b)
        return;
    range<T> r(a, b);
    r.set_max(v);
    ensure(r.max() == v, "set_max() sets the maximum");
    ensure(r.min() <= r.max(), "set_max() keeps the bounds ordered");
    ensure(v < a || r.min() == a, "set_max() keeps the minimum if it can");
    ensure(v >= a || r.min() == v, "set_max() moves the minimum no further than needed");
}
template <typename T>
void contains(T a, T b, T v)
{
    const range<T> r(a, b);
    ensure(r.contains(v) == (a <= v && v < b), "a range contains what lies between its bounds, without the maximum");
}
template <typename T>
void clamp(T a, T b, T v)
{
    if (a > b)
        return;
    const range<T> r(a, b);
    const T c = r.clamp(v);
    ensure(a <= c && c <= b, "a clamped value lies within the bounds");
    ensure(v < a || v > b || c == v, "a value within the bounds is not changed");
    ensure(v >= a || c == a, "a value below is clamped to the minimum");
    ensure(v <= b || c == b, "a value above is clamped to the maximum");
    ensure(r.clamp(c) == c, "clamping twice is clamping once");
}
template <typename T>
void map(T a, T b)
{
    const range<T> r(a, b);
    ensure(r.map(0.0) == a, "0 is mapped to the minimum");
    ensure(r.map(1.0) == b, "1 is mapped to the maximum");
    ensure(r.map(0.5) + r.map(0.5) == static_cast<double>(a) + static_cast<double>(b), "1/2 is mapped to the centre");
}
template <typename T>
void map_linear(T a, T b, double s)
{
    const range<T> r(a, b);
    ensure(r.map(s) - a == s * (static_cast<double>(b) - a), "the mapping is linear");
}
template void getters(int, int);
template void getters(double, double);
template void equality(int, int, int, int);
template void equality(double, double, double, double);
template void set_min(int, int, int);
template void set_min(double, double, double);
template void set_max(int, int, int);
template void set_max(double, double, double);
template void contains(int, int, int);
template void contains(double, double, double);
template void clamp(int, int, int);
template void clamp(double, double, double);
template void map<int>(int, int);
template void map<double>(double, double);
template void map_linear<int>(int, int, double);
template void map_linear<double>(double, double, double);
}

namespace r02
{
template <typename T>
void contains(T a, T b, T c, T d, T v)
{
    if (a > b || c > d)
        return;
    const range<T> r(a, b), s(c, d);
    ensure(r.contains(s) == (a <= c && d <= b), "a range contains those whose bounds lie within its bounds");
    ensure(r.contains(r), "a range contains itself");
    ensure(!(r.contains(s) && s.contains(v)) || r.contains(v), "what a contained range contains is contained");
    ensure(!(r.contains(s) && s.contains(r)) || r == s, "ranges that contain each other are equal");
}
template <typename T>
void intersects(T a, T b, T c, T d, T v)
{
    if (a > b || c > d)
        return;
    const range<T> r(a, b), s(c, d);
    ensure(r.intersects(s) == s.intersects(r), "intersects() is symmetric");
    ensure(!(r.contains(v) && s.contains(v)) || r.intersects(s), "ranges with a common value intersect");
    ensure(a >= b || c >= d || r.intersects(s) == (tc::sdk::max(a, c) < tc::sdk::min(b, d)), "ranges intersect only if they have a common value");
    ensure(a >= b || r.intersects(r), "a range that is not null intersects itself");
}
template <typename T>
void intersection(T a, T b, T c, T d, T v)
{
    if (a > b || c > d)
        return;
    const range<T> r(a, b), s(c, d);
    const range<T> x = r.get_intersection(s);
    ensure(x.contains(v) == (r.contains(v) && s.contains(v)), "the intersection contains exactly the values both contain");
    ensure(x.min() <= x.max(), "the bounds of the intersection are ordered");
    ensure(x == s.get_intersection(r), "the intersection does not depend on the order");
    if (r.intersects(s))
        ensure(r.contains(x) && s.contains(x), "the intersection lies in both ranges");
    else
        ensure(x.is_null(), "ranges that do not intersect have a null intersection");
}
template <typename T>
void unite(T a, T b, T c, T d, T v)
{
    if (a > b || c > d)
        return;
    const range<T> r(a, b), s(c, d);
    const range<T> u = r.get_union(s);
    ensure(u.contains(r) && u.contains(s), "the union contains both ranges");
    ensure(!(r.contains(v) || s.contains(v)) || u.contains(v), "the union contains the values of both");
    ensure((u.min() == a || u.min() == c) && (u.max() == b || u.max() == d), "the union is no larger than needed");
    ensure(u == s.get_union(r), "the union does not depend on the order");
}
template void contains(int, int, int, int, int);
template void contains(double, double, double, double, double);
template void intersects(int, int, int, int, int);
template void intersects(double, double, double, double, double);
template void intersection(int, int, int, int, int);
template void intersection(double, double, double, double, double);
template void unite(int, int, int, int, int);
template void unite(double, double, double, double, double);
}

namespace r03
{
template <typename T>
void getters(T a, T b, T c, T d)
{
    point<T> p(a, b);
    ensure(p.x() == a && p.y() == b, "a point holds its coordinates");
    ensure(p.is_origin() == (a == 0 && b == 0), "the origin is (0, 0)");
    p.set_x(c);
    ensure(p.x() == c && p.y() == b, "set_x() changes x only");
    p.set_y(d);
    ensure(p.x() == c && p.y() == d, "set_y() changes y only");
    const point<T> o;
    ensure(o.x() == 0 && o.y() == 0 && o.is_origin(), "a default point is the origin");
}
template <typename T>
void equality(T a, T b, T c, T d)
{
    const point<T> p(a, b), q(c, d);
    ensure((p == q) == (a == c && b == d), "points are equal exactly if their coordinates are");
    ensure((p != q) == !(p == q), "unequal is the opposite of equal");
    point<T> r(a, b);
    r = q;
    ensure(r == q, "assignment makes equal");
    const point<T> s(p);
    ensure(s == p, "a copy is equal");
}
template <typename T>
void sum(T a, T b, T c, T d)
{
    const point<T> p(a, b), q(c, d);
    ensure((p + q).x() == a + c && (p + q).y() == b + d, "points are added by coordinates");
    ensure((p - q).x() == a - c && (p - q).y() == b - d, "points are subtracted by coordinates");
    ensure((p + q) - q == p, "subtraction undoes addition");
    ensure(p + q == q + p, "addition does not depend on the order");
    point<T> r(a, b);
    point<T>& s = (r += q);
    ensure(&s == &r && r == p + q, "+= adds in place");
    s = (r -= q);
    ensure(r == p, "-= undoes +=");
    point<T> t(a, b);
    point<T>& u = (t -= q);
    ensure(&u == &t && t == p - q, "-= subtracts in place");
    point<T> v(a, b);
    v += v;
    ensure(v == p + p, "a point can be added to itself");
    v -= v;
    ensure(v.is_origin(), "a point can be subtracted from itself");
}
template <typename T>
void delta(T a, T b, T c, T d)
{
    const point<T> p(a, b), q(c, d);
    point<T> r(a, b);
    r.add_delta(c, d);
    ensure(r == p + q, "add_delta() adds both coordinates");
    r.sub_delta(c, d);
    ensure(r == p, "sub_delta() undoes add_delta()");
    r.sub_delta(c, d);
    ensure(r == p - q, "sub_delta() subtracts both coordinates");
}
template <typename T, typename S>
void scale(T a, T b, S k)
{
    const point<T> p(a, b);
    const point<T> m = p * k;
    ensure(m.x() == static_cast<T>(a * k) && m.y() == static_cast<T>(b * k), "points are scaled by coordinates");
    point<T> r(a, b);
    point<T>& s = (r *= k);
    ensure(&s == &r && r == m, "*= scales in place");
    if (k == 0)
        return;
    const point<T> q = p / k;
    ensure(q.x() == static_cast<T>(a / k) && q.y() == static_cast<T>(b / k), "points are divided by coordinates");
    point<T> t(a, b);
    point<T>& u = (t /= k);
    ensure(&u == &t && t == q, "/= divides in place");
}
template <typename T>
void distance(T a, T b, T c, T d)
{
    const point<T> p(a, b), q(c, d);
    ensure(p.distance(q) == q.distance(p), "the distance is symmetric");
    ensure(p.distance(p) == 0, "the distance to itself is 0");
    ensure(p.distance(point<T>()) == p.distance_from_origin(), "the distance from the origin is that to the origin");
    ensure(p.distance(q) == static_cast<T>(std::sqrt((a - c) * (a - c) + (b - d) * (b - d))), "the distance is the Euclidean one");
}
template <typename T>
void sizes(T a, T b, T c, T d)
{
    size<T> p(a, b), q(c, d);
    ensure(p.width() == a && p.height() == b, "a size holds its dimensions");
    ensure(p.is_null() == (a == 0 && b == 0), "a size is null exactly if both dimensions are 0");
    ensure((p == q) == (a == c && b == d), "sizes are equal exactly if their dimensions are");
    ensure((p != q) == !(p == q), "unequal is the opposite of equal");
    const size<T> s(p);
    ensure(s == p, "a copy is equal");
    p.set_width(c);
    ensure(p.width() == c && p.height() == b, "set_width() changes the width only");
    p.set_height(d);
    ensure(p.width() == c && p.height() == d, "set_height() changes the height only");
    p = s;
    ensure(p == s, "assignment makes equal");
    const size<T> o;
    ensure(o.width() == 0 && o.height() == 0 && o.is_null(), "a default size is null");
}
template void getters(int, int, int, int);
template void getters(double, double, double, double);
template void equality(int, int, int, int);
template void equality(double, double, double, double);
template void sum(int, int, int, int);
template void sum(double, double, double, double);
template void delta(int, int, int, int);
template void delta(double, double, double, double);
template void scale(int, int, int);
template void scale(int, int, double);
template void scale(double, double, double);
template void scale(double, double, int);
template void distance(int, int, int, int);
template void distance(double, double, double, double);
template void sizes(int, int, int, int);
template void sizes(double, double, double, double);
}

// lines are segments
namespace r04
{
template <typename T>
void getters(T a, T b, T c, T d, T e, T f)
{
    const point<T> p(a, b), q(c, d), r(e, f);
    line<T> l(p, q);
    ensure(l.start() == p && l.end() == q, "a line holds its ends");
    ensure(l.is_null() == (p == q), "a line is null exactly if its ends are equal");
    ensure(l.is_vertical() == (a == c), "a line is vertical exactly if its ends have the same x");
    ensure(l.is_horizontal() == (b == d), "a line is horizontal exactly if its ends have the same y");
    l.set_start(r);
    ensure(l.start() == r && l.end() == q, "set_start() changes the start only");
    l.set_end(p);
    ensure(l.start() == r && l.end() == p, "set_end() changes the end only");
    const line<T> o;
    ensure(o.start().is_origin() && o.end().is_origin() && o.is_null(), "a default line is null");
}
template <typename T>
void equality(T a, T b, T c, T d, T e, T f, T g, T h)
{
    const point<T> p(a, b), q(c, d), r(e, f), s(g, h);
    const line<T> l(p, q), m(r, s);
    ensure((l == m) == ((p == r && q == s) || (p == s && q == r)), "lines are equal exactly if their ends are, in either order");
    ensure((l != m) == !(l == m), "unequal is the opposite of equal");
    ensure(l == line<T>(q, p), "a line is equal to its reverse");
    line<T> k(p, q);
    k = m;
    ensure(k.start() == r && k.end() == s, "assignment copies both ends");
    const line<T> n(l);
    ensure(n.start() == p && n.end() == q, "a copy has the same ends");
}
template void getters(int, int, int, int, int, int);
template void getters(double, double, double, double, double, double);
template void equality(int, int, int, int, int, int, int, int);
template void equality(double, double, double, double, double, double, double, double);
}

namespace r05
{
// Cramer's rule for a + t (b - a) = c + s (d - c)
template <typename T>
void intersection(T ax, T ay, T bx, T by, T cx, T cy, T dx, T dy)
{
    const line<T> l(point<T>(ax, ay), point<T>(bx, by));
    const line<T> m(point<T>(cx, cy), point<T>(dx, dy));
    const double rx = static_cast<double>(bx) - ax, ry = static_cast<double>(by) - ay;
    const double sx = static_cast<double>(dx) - cx, sy = static_cast<double>(dy) - cy;
    const double qx = static_cast<double>(cx) - ax, qy = static_cast<double>(cy) - ay;
    const double det = rx * sy - ry * sx;
    const std::optional<point<double>> p = l.get_intersection(m);
    ensure(l.intersects(m) == p.has_value(), "lines intersect exactly if there is an intersection");
    if (det == 0)
    {
        ensure(!p.has_value(), "parallel lines have no intersection point");
        return;
    }
    const double t = (qx * sy - qy * sx) / det;
    const double s = (qx * ry - qy * rx) / det;
    const bool on_both = 0 <= t && t <= 1 && 0 <= s && s <= 1;
    ensure(p.has_value() == on_both, "there is an intersection exactly if a point lies on both lines, their ends included");
    if (!p.has_value())
        return;
    ensure(p->x() == ax + t * rx && p->y() == ay + t * ry, "the intersection lies on the line");
    ensure(p->x() == cx + s * sx && p->y() == cy + s * sy, "the intersection lies on the other line");
}
template <typename T>
void symmetry(T ax, T ay, T bx, T by, T cx, T cy, T dx, T dy)
{
    const point<T> a(ax, ay), b(bx, by), c(cx, cy), d(dx, dy);
    const bool x = line<T>(a, b).intersects(line<T>(c, d));
    ensure(x == line<T>(c, d).intersects(line<T>(a, b)), "intersects() is symmetric");
    ensure(x == line<T>(b, a).intersects(line<T>(c, d)), "the direction of a line does not matter");
    ensure(x == line<T>(a, b).intersects(line<T>(d, c)), "the direction of the other line does not matter");
}
template void intersection(int, int, int, int, int, int, int, int);
template void intersection(double, double, double, double, double, double, double, double);
template void symmetry(int, int, int, int, int, int, int, int);
template void symmetry(double, double, double, double, double, double, double, double);
}

// rectangles with non-negative sides
namespace r06
{
template <typename T>
void getters(T x, T y, T w, T h, T a, T b)
{
    rectangle<T> r(x, y, w, h);
    ensure(r.width() == w && r.height() == h && r.top_left() == point<T>(x, y), "a rectangle holds its position and its sides");
    ensure(r == rectangle<T>(point<T>(x, y), w, h), "a rectangle can be given a point as position");
    ensure(r.size() == tc::sdk::size<T>(w, h), "size() is width and height");
    ensure(r.area() == w * h, "the area is the product of the sides");
    ensure(r.is_null() == (w <= 0 && h <= 0), "a rectangle is null exactly if neither side is positive");
    r.set_width(a);
    ensure(r.width() == a && r.height() == h && r.top_left() == point<T>(x, y), "set_width() changes the width only");
    r.set_height(b);
    ensure(r.width() == a && r.height() == b && r.top_left() == point<T>(x, y), "set_height() changes the height only");
    r.set_size(h, w);
    ensure(r.width() == h && r.height() == w && r.top_left() == point<T>(x, y), "set_size() changes the sides only");
    r.set_position(point<T>(a, b));
    ensure(r.width() == h && r.height() == w && r.top_left() == point<T>(a, b), "set_position() changes the position only");
    const rectangle<T> o;
    ensure(o.is_null() && o.width() == 0 && o.height() == 0 && o.top_left().is_origin(), "a default rectangle is null");
}
template <typename T>
void corners(T x, T y, T w, T h)
{
    const rectangle<T> r(x, y, w, h);
    ensure(r.top_left() == point<T>(x, y), "the top left corner is the position");
    ensure(r.top_right() == point<T>(x + w, y), "the top right corner is a width further right");
    ensure(r.bottom_left() == point<T>(x, y + h), "the bottom left corner is a height further down");
    ensure(r.bottom_right() == point<T>(x + w, y + h), "the bottom right corner is both");
    const point<double> c = r.center();
    ensure(c.x() + c.x() == static_cast<double>(r.top_left().x()) + r.bottom_right().x() && c.y() + c.y() == static_cast<double>(r.top_left().y()) + r.bottom_right().y(), "the centre is half-way between the corners");
}
template <typename T>
void equality(T x, T y, T w, T h, T a, T b, T c, T d)
{
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    ensure((r == s) == (x == a && y == b && w == c && h == d), "rectangles are equal exactly if position and sides are");
    ensure((r != s) == !(r == s), "unequal is the opposite of equal");
    rectangle<T> k(x, y, w, h);
    k = s;
    ensure(k == s, "assignment makes equal");
    const rectangle<T> n(r);
    ensure(n == r, "a copy is equal");
}
template <typename T>
void translate(T x, T y, T w, T h, T a, T b)
{
    const rectangle<T> r(x, y, w, h);
    const rectangle<T> t = r.translated(a, b);
    ensure(t == rectangle<T>(x + a, y + b, w, h), "a translation moves the position and keeps the sides");
    rectangle<T> k(x, y, w, h);
    k.translate(a, b);
    ensure(k == t, "translate() moves in place");
    ensure(t.translated(-a, -b) == r, "a translation can be undone");
}
template <typename T>
void contains_point(T x, T y, T w, T h, T a, T b)
{
    const rectangle<T> r(x, y, w, h);
    ensure(r.contains(point<T>(a, b)) == (x < a && a < x + w && y < b && b < y + h), "a rectangle contains the points strictly between its sides");
}
template void getters(int, int, int, int, int, int);
template void getters(double, double, double, double, double, double);
template void corners(int, int, int, int);
template void corners(double, double, double, double);
template void equality(int, int, int, int, int, int, int, int);
template void equality(double, double, double, double, double, double, double, double);
template void translate(int, int, int, int, int, int);
template void translate(double, double, double, double, double, double);
template void contains_point(int, int, int, int, int, int);
template void contains_point(double, double, double, double, double, double);
}

// rectangles whose sides are positive, or null ones
namespace r07
{
template <typename T>
bool wellformed(const rectangle<T>& r)
{
    return (r.width() > 0 && r.height() > 0) || (r.width() <= 0 && r.height() <= 0);
}
template <typename T>
void contains(T x, T y, T w, T h, T a, T b, T c, T d)
{
    if (w <= 0 || h <= 0 || c <= 0 || d <= 0)
        return;
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    ensure(r.contains(s) == (r.contains(s.top_left()) && r.contains(s.bottom_right())), "a rectangle contains those whose corners it contains");
    ensure(!(r.contains(s) && s.contains(r)), "two rectangles do not contain each other");
    ensure(!r.contains(s) || r.intersects(s), "a contained rectangle overlaps");
}
template <typename T>
void intersects(T x, T y, T w, T h, T a, T b, T c, T d, T u, T v)
{
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    if (!wellformed(r) || !wellformed(s))
        return;
    ensure(r.intersects(s) == s.intersects(r), "intersects() is symmetric");
    ensure(!r.is_null() || !r.intersects(s), "a null rectangle overlaps nothing");
    ensure(!(r.contains(point<T>(u, v)) && s.contains(point<T>(u, v))) || r.intersects(s), "rectangles with a common inner point overlap");
}
template <typename T>
void overlap(T x, T y, T w, T h, T a, T b, T c, T d)
{
    if (w <= 0 || h <= 0 || c <= 0 || d <= 0)
        return;
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    ensure(r.intersects(s) == (tc::sdk::max(x, a) < tc::sdk::min(x + w, a + c) && tc::sdk::max(y, b) < tc::sdk::min(y + h, b + d)), "rectangles overlap exactly if their sides do in both directions");
}
template <typename T>
void intersection(T x, T y, T w, T h, T a, T b, T c, T d)
{
    if (w <= 0 || h <= 0 || c <= 0 || d <= 0)
        return;
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    const rectangle<T> i = r.get_intersection(s);
    ensure(i.width() >= 0 && i.height() >= 0, "the sides of an intersection are not negative");
    ensure((i.width() > 0 && i.height() > 0) == r.intersects(s), "the intersection has an area exactly if the rectangles overlap");
    ensure(i == s.get_intersection(r), "the intersection does not depend on the order");
}
template <typename T>
void intersection_inner(T x, T y, T w, T h, T a, T b, T c, T d, T u, T v)
{
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    const point<T> p(u, v);
    if (w <= 0 || h <= 0 || c <= 0 || d <= 0 || !r.contains(p) || !s.contains(p))
        return;
    ensure(r.get_intersection(s).contains(p), "the intersection contains the points both contain");
}
template <typename T>
void intersection_outer(T x, T y, T w, T h, T a, T b, T c, T d, T u, T v)
{
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    const point<T> p(u, v);
    if (w <= 0 || h <= 0 || c <= 0 || d <= 0 || !r.get_intersection(s).contains(p))
        return;
    ensure(r.contains(p) && s.contains(p), "both contain the points the intersection contains");
}
template <typename T>
void intersection_null(T x, T y, T w, T h, T a, T b, T c, T d)
{
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    if (!wellformed(r) || !wellformed(s) || !(r.is_null() || s.is_null()))
        return;
    ensure(r.get_intersection(s).is_null(), "the intersection with a null rectangle is null");
}
template <typename T>
void unite(T x, T y, T w, T h, T a, T b, T c, T d)
{
    const rectangle<T> r(x, y, w, h), s(a, b, c, d);
    if (!wellformed(r) || !wellformed(s))
        return;
    const rectangle<T> n = r.get_union(s);
    if (s.is_null())
        ensure(n == r, "the union with a null rectangle is the other one");
    else if (r.is_null())
        ensure(n == s, "the union with a null rectangle is the other one");
    else
    {
        ensure(n.top_left() == point<T>(tc::sdk::min(x, a), tc::sdk::min(y, b)), "the union starts at the smaller coordinates");
        ensure(n.bottom_right() == point<T>(tc::sdk::max(x + w, a + c), tc::sdk::max(y + h, b + d)), "the union ends at the larger coordinates");
        ensure(n == s.get_union(r), "the union does not depend on the order");
    }
}
template void contains(int, int, int, int, int, int, int, int);
template void contains(double, double, double, double, double, double, double, double);
template void intersects(int, int, int, int, int, int, int, int, int, int);
template void intersects(double, double, double, double, double, double, double, double, double, double);
template void overlap(int, int, int, int, int, int, int, int);
template void overlap(double, double, double, double, double, double, double, double);
template void intersection(int, int, int, int, int, int, int, int);
template void intersection(double, double, double, double, double, double, double, double);
template void intersection_inner(int, int, int, int, int, int, int, int, int, int);
template void intersection_inner(double, double, double, double, double, double, double, double, double, double);
template void intersection_outer(int, int, int, int, int, int, int, int, int, int);
template void intersection_outer(double, double, double, double, double, double, double, double, double, double);
template void unite(int, int, int, int, int, int, int, int);
template void unite(double, double, double, double, double, double, double, double);
template void intersection_null(int, int, int, int, int, int, int, int);
template void intersection_null(double, double, double, double, double, double, double, double);
}

// line::intersects is taken as a relation between undirected segments here, which the laws of r05 establish
namespace r08
{
template <typename T>
void lines(T x, T y, T w, T h, T a, T b, T c, T d)
{
    const rectangle<T> r(x, y, w, h);
    const line<T> l(point<T>(a, b), point<T>(c, d));
    ensure(r.intersects(l) == (r.contains(l.start()) || r.contains(l.end()) ||
                               line<T>(r.top_left(), r.top_right()).intersects(l) || line<T>(r.bottom_left(), r.bottom_right()).intersects(l) ||
                               line<T>(r.top_left(), r.bottom_left()).intersects(l) || line<T>(r.top_right(), r.bottom_right()).intersects(l)),
           "a line intersects a rectangle exactly if an end lies inside or it crosses a side");
}
template void lines(int, int, int, int, int, int, int, int);
template void lines(double, double, double, double, double, double, double, double);
}
