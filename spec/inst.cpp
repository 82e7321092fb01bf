// Explicit instantiations of the library's templates, so that their bodies are analysed.
#include <teiacare/sdk/argparse/argument_parser.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <teiacare/sdk/rate_limiter.hpp>

struct Item
{
    Item();
    Item(const Item&);
    Item(Item&&) noexcept;
    Item& operator=(const Item&);
    Item& operator=(Item&&) noexcept;
    ~Item();
    bool operator==(const Item&) const;
    int v;
};
template class tc::sdk::blocking_queue<Item>;
template class tc::sdk::observable<Item>;
template class tc::sdk::range<int>;
template class tc::sdk::range<double>;
template class tc::sdk::point<double>;
template class tc::sdk::size<double>;
template class tc::sdk::line<double>;
void ignore(...);
void f_sched(tc::sdk::task_scheduler& s, int (*f)(int), int (*g)(), void (*h)(), void (*h1)(int), std::string id, tc::sdk::time_point tp, tc::sdk::time_duration d, tc::sdk::time_duration d2)
{
    s.at(std::move(tp), g);
    s.at(std::move(tp), f, 1);
    s.at(std::move(id), std::move(tp), f, 1);
    s.in(std::move(d), g);
    s.in(std::move(d), f, 1);
    s.in(std::move(id), std::move(d), f, 1);
    s.every(std::move(d), h);
    s.every(std::move(d), h1, 1);
    s.every(std::move(id), std::move(d), h1, 1);
    s.every(std::move(id), std::move(d), std::move(d2), h1, 1);
}
// the same with lvalue callables and arguments, which must be copied
void f_sched2(tc::sdk::task_scheduler& s, int (*const& f)(int, double, int), int (*g)(), std::string id, tc::sdk::time_point tp, tc::sdk::time_duration d, tc::sdk::time_duration d2, int& a, const double& b, int c)
{
    s.at(std::move(tp), g);
    s.at(std::move(tp), f, a, b, std::move(c));
    s.at(std::move(id), std::move(tp), f, a, b, std::move(c));
    s.in(std::move(d), g);
    s.in(std::move(d), f, a, b, std::move(c));
    s.in(std::move(id), std::move(d), f, a, b, std::move(c));
    s.every(std::move(d), g);
    s.every(std::move(d), f, a, b, std::move(c));
    s.every(std::move(id), std::move(d), f, a, b, std::move(c));
    s.every(std::move(id), std::move(d), std::move(d2), f, a, b, std::move(c));
}
void f_pool(tc::sdk::thread_pool& p, int (*f)(int), void (*g)(), double (*h)(int, double, char), int a, double b, char c, const double& cb)
{
    p.run(f, 1);
    p.run(g);
    p.run(h, a, b, c);
    p.run([f, a]() { f(a); });
}
void f_disp(tc::sdk::event_dispatcher& p, std::string n, void (*f)(), void (*g)(int, double), void (*g2)(double, int), void (*h)(std::string), void (*h2)(const std::string&), void (*l)(long), void (*i1)(int), void (*i2)(int, int), const std::string& cs, int& ri, double d)
{
    p.add_handler<>(n, [f]() { f(); });
    p.add_handler<int, double>(n, [g](int a, double b) { g(a, b); });
    p.add_handler<>(n, std::move(f));
    p.add_handler<int, double>(n, std::move(g));
    p.add_handler<double, int>(n, std::move(g2));
    p.add_handler<int, int>(n, std::move(i2));
    p.add_handler<std::string>(n, std::move(h));
    p.add_handler<const std::string&>(n, std::move(h2));
    p.add_handler<long>(n, std::move(l));
    p.add_handler<int>(n, std::move(i1));
    p.emit(n);
    p.emit<int, double>(n, 1, 2.0);
    p.emit(n, ri, d);
    p.emit(n, d, ri);
    p.emit(n, ri, ri);
    p.emit(n, cs);
    p.emit<const std::string&>(n, cs);
    p.emit(n, 1L);
    p.emit(n, 1);
}
void f_timer(tc::sdk::high_precision_timer& t, void (*g)(int), void (*const& h)(int, double, int), void (*z)(), int& a, const double& b, int c)
{
    t.set_callback(g, 1);
    t.set_callback(z);
    t.set_callback(h, a, b, std::move(c));
}
struct Svc
{
    virtual ~Svc();
    virtual void x() = 0;
};
struct SvcImpl : Svc
{
    SvcImpl(int);
    void x() override;
};
void f_loc(tc::sdk::service_locator& l, std::shared_ptr<Svc> s)
{
    l.register_service<Svc, SvcImpl>(1);
    l.register_instance<Svc>(s);
    l.unregister<Svc>();
    l.is_registered<Svc>();
    l.get<Svc>();
}
struct Custom{};
std::istream& operator>>(std::istream&, Custom&);
template class tc::sdk::positional_argument<int>;
template class tc::sdk::positional_argument<std::string>;
template class tc::sdk::optional_argument<int>;
template class tc::sdk::optional_argument<float>;
template class tc::sdk::optional_argument<double>;
template class tc::sdk::optional_argument<std::string>;
template class tc::sdk::optional_argument<const char*>;
template class tc::sdk::optional_argument<std::vector<int>>;
template class tc::sdk::optional_argument<std::filesystem::path>;
template class tc::sdk::optional_argument<Custom>;
void f_arg(tc::sdk::argument_parser& p, std::string n, int& a, bool& b)
{
    p.add_positional(n, a, n);
    p.add_option(n, 'c', a, 1, n, true, n);
    p.add_option(n, a, 1, n, true, n);
    p.add_flag(n, 'c', b, n, n);
    p.add_flag(n, b, n, n);
}
