// type-level witnesses: every line holds for the types of the library, or does not compile
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/clock.hpp>
#include <teiacare/sdk/datetime/datetime.hpp>
#include <teiacare/sdk/event_dispatcher.hpp>
#include <teiacare/sdk/function_traits.hpp>
#include <teiacare/sdk/geometry/line.hpp>
#include <teiacare/sdk/geometry/point.hpp>
#include <teiacare/sdk/geometry/range.hpp>
#include <teiacare/sdk/geometry/rectangle.hpp>
#include <teiacare/sdk/geometry/size.hpp>
#include <teiacare/sdk/high_precision_timer.hpp>
#include <teiacare/sdk/non_copyable.hpp>
#include <teiacare/sdk/non_moveable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <functional>
#include <memory>
#include <string>
#include <type_traits>

template <typename T>
constexpr bool copies = std::is_copy_constructible_v<T> || std::is_copy_assignable_v<T>;
template <typename T>
constexpr bool moves = std::is_move_constructible_v<T> || std::is_move_assignable_v<T>;
struct none;
template <template <typename...> class T, typename... A>
concept makes = requires { typename T<A...>; };

// C01: identity
struct only_move : private tc::sdk::non_copyable
{
};
struct pinned : private tc::sdk::non_moveable
{
};
struct both_base : private tc::sdk::non_copyable, private tc::sdk::non_moveable
{
};
static_assert(!copies<only_move>, "C01: a class derived from non_copyable cannot be copied");
static_assert(std::is_nothrow_move_constructible_v<only_move>, "C01: a class derived from non_copyable can be moved");
static_assert(std::is_nothrow_move_assignable_v<only_move>, "C01: a class derived from non_copyable can be move-assigned");
static_assert(std::is_default_constructible_v<only_move>, "C01: a class derived from non_copyable can be created");
static_assert(!moves<pinned> && !copies<pinned>, "C01: a class derived from non_moveable can be neither moved nor copied");
static_assert(std::is_default_constructible_v<pinned>, "C01: a class derived from non_moveable can be created");
static_assert(!moves<both_base> && !copies<both_base>, "C01: a class derived from both can be neither moved nor copied");
static_assert(!std::is_default_constructible_v<tc::sdk::non_copyable>, "C01: non_copyable is a base only");
static_assert(!std::is_default_constructible_v<tc::sdk::non_moveable>, "C01: non_moveable is a base only");
static_assert(!std::is_destructible_v<tc::sdk::non_copyable>, "C01: nothing is destroyed through non_copyable");
static_assert(!std::is_destructible_v<tc::sdk::non_moveable>, "C01: nothing is destroyed through non_moveable");
static_assert(sizeof(only_move) == 1 && sizeof(pinned) == 1 && sizeof(both_base) == 1, "C01: the bases cost nothing");
static_assert(!copies<tc::sdk::thread_pool> && !moves<tc::sdk::thread_pool>, "C01: thread_pool can be neither copied nor moved");
static_assert(!copies<tc::sdk::task_scheduler> && !moves<tc::sdk::task_scheduler>, "C01: task_scheduler can be neither copied nor moved");
static_assert(!copies<tc::sdk::event_dispatcher> && !moves<tc::sdk::event_dispatcher>, "C01: event_dispatcher can be neither copied nor moved");
static_assert(!copies<tc::sdk::high_precision_timer> && !moves<tc::sdk::high_precision_timer>, "C01: high_precision_timer can be neither copied nor moved");
static_assert(!copies<tc::sdk::blocking_queue<int>> && !moves<tc::sdk::blocking_queue<int>>, "C01: blocking_queue<int> can be neither copied nor moved");
static_assert(!copies<tc::sdk::blocking_queue<std::unique_ptr<int>>> && !moves<tc::sdk::blocking_queue<std::unique_ptr<int>>>, "C01: blocking_queue of a move-only type can be neither copied nor moved");
static_assert(!copies<tc::sdk::rate_limiter> && !moves<tc::sdk::rate_limiter>, "C01: rate_limiter can be neither copied nor moved");
static_assert(!copies<tc::sdk::stopwatch> && !moves<tc::sdk::stopwatch>, "C01: stopwatch can be neither copied nor moved");
static_assert(!copies<tc::sdk::service_locator> && !moves<tc::sdk::service_locator>, "C01: service_locator can be neither copied nor moved");
static_assert(!std::is_convertible_v<size_t, tc::sdk::rate_limiter>, "C01: a number is no rate_limiter");
static_assert(!copies<tc::sdk::task>, "C01: a task cannot be copied: it would run twice");
static_assert(std::is_nothrow_move_constructible_v<tc::sdk::task>, "C01: a task can be moved");

// C02: single instances
struct single : public tc::sdk::singleton<single>
{
    int value = 0;
};
struct secret : public tc::sdk::singleton<secret>
{
private:
    friend class tc::sdk::singleton<secret>;
    secret() = default;
};
static_assert(!copies<single> && !moves<single>, "C02: a singleton can be neither copied nor moved");
static_assert(std::has_virtual_destructor_v<single>, "C02: a singleton has a virtual destructor");
static_assert(std::is_same_v<decltype(single::instance()), single&>, "C02: instance() refers to the object itself");
static_assert(!std::is_default_constructible_v<tc::sdk::singleton<single>>, "C02: singleton is a base only");
static_assert(std::is_same_v<decltype(secret::instance()), secret&>, "C02: the constructor of a singleton may be private");
static_assert(std::is_same_v<decltype(tc::sdk::uuid_generator::instance()), tc::sdk::uuid_generator&>, "C02: the uuid_generator is one object");
static_assert(!std::is_default_constructible_v<tc::sdk::uuid_generator>, "C02: no second uuid_generator can be made");
static_assert(!std::is_default_constructible_v<tc::sdk::service_locator>, "C02: no second service_locator can be made");
single& f_single() { return single::instance(); }
secret& f_secret() { return secret::instance(); }

// C03: function traits
struct functor
{
    double operator()(int, const std::string&) const;
};
struct mutable_functor
{
    void operator()(std::unique_ptr<int>&&);
};
struct host
{
    int f(const std::string&, int&&);
    bool g(double) const;
};
int fun(const int&, std::string&&, char*);
inline auto lam = [](const std::string&, float) -> int { return 0; };
inline auto mut_lam = [n = 0](int& i) mutable { n += i; return n; };
template <typename T>
using tr = tc::sdk::function_traits<T>;
static_assert(std::is_same_v<tr<int(const int&, std::string&&, char*)>::return_t, int>, "C03: result type of a function");
static_assert(std::is_same_v<tr<int(const int&, std::string&&, char*)>::function_t, int(int, std::string, char*)>, "C03: parameters of a function, decayed");
static_assert(std::is_same_v<tr<decltype(&fun)>::function_t, int(int, std::string, char*)>, "C03: parameters of a function pointer");
static_assert(std::is_same_v<tr<decltype(&fun)>::return_t, int>, "C03: result type of a function pointer");
static_assert(std::is_same_v<tr<decltype((fun))>::function_t, int(int, std::string, char*)>, "C03: parameters of a function reference");
static_assert(std::is_same_v<tr<decltype((fun))>::return_t, int>, "C03: result type of a function reference");
static_assert(std::is_same_v<tr<decltype(&host::f)>::function_t, int(std::string, int)>, "C03: parameters of a member function");
static_assert(std::is_same_v<tr<decltype(&host::f)>::return_t, int>, "C03: result type of a member function");
static_assert(std::is_same_v<tr<decltype(&host::g)>::function_t, bool(double)>, "C03: parameters of a const member function");
static_assert(std::is_same_v<tr<decltype(&host::g)>::return_t, bool>, "C03: result type of a const member function");
static_assert(std::is_same_v<tr<functor>::function_t, double(int, std::string)>, "C03: parameters of a function object");
static_assert(std::is_same_v<tr<functor>::return_t, double>, "C03: result type of a function object");
static_assert(std::is_same_v<tr<mutable_functor>::function_t, void(std::unique_ptr<int>)>, "C03: parameters of a function object with state");
static_assert(std::is_same_v<tr<decltype(lam)>::function_t, int(std::string, float)>, "C03: parameters of a lambda");
static_assert(std::is_same_v<tr<decltype(lam)>::return_t, int>, "C03: result type of a lambda");
static_assert(std::is_same_v<tr<decltype(mut_lam)>::function_t, int(int)>, "C03: parameters of a mutable lambda");
static_assert(std::is_same_v<tr<std::function<char(long, const int&)>>::function_t, char(long, int)>, "C03: parameters of a std::function");
static_assert(std::is_same_v<tr<std::function<char(long, const int&)>>::return_t, char>, "C03: result type of a std::function");
static_assert(std::is_same_v<tr<void()>::function_t, void()>, "C03: a function without parameters");
static_assert(std::is_same_v<tr<functor>::wrapper_t, std::function<double(int, std::string)>>, "C03: the wrapper holds functions of the same type");
static_assert(std::is_constructible_v<tr<decltype(&fun)>::wrapper_t, decltype(&fun)> || !std::is_invocable_v<decltype(&fun), int, std::string, char*>, "C03: the wrapper takes the function");
static_assert(std::is_constructible_v<tr<decltype(lam)>::wrapper_t, decltype(lam)>, "C03: the wrapper takes the lambda");

// C04: time types
static_assert(std::is_same_v<tc::sdk::clock, std::chrono::steady_clock>, "C04: the clock is steady");
static_assert(tc::sdk::clock::is_steady, "C04: the clock does not jump");
static_assert(std::is_same_v<tc::sdk::time_point::clock, tc::sdk::clock> && std::is_same_v<tc::sdk::time_duration, tc::sdk::time_point::duration>, "C04: time points and durations belong to the clock");
static_assert(std::is_same_v<tc::sdk::sys_time_point::clock, std::chrono::system_clock> && std::is_same_v<tc::sdk::sys_time_point::duration, std::chrono::nanoseconds>, "C04: system time points count nanoseconds");
static_assert(tc::sdk::is_duration<std::chrono::nanoseconds>::value && tc::sdk::is_duration<std::chrono::milliseconds>::value && tc::sdk::is_duration<tc::sdk::time_duration>::value, "C04: durations are recognised");
static_assert(!tc::sdk::is_duration<int>::value && !tc::sdk::is_duration<tc::sdk::time_point>::value, "C04: nothing else is a duration");
static_assert(tc::sdk::is_time_point<tc::sdk::time_point>::value && tc::sdk::is_time_point<std::chrono::time_point<tc::sdk::clock, std::chrono::seconds>>::value, "C04: time points are recognised");
static_assert(!tc::sdk::is_time_point<tc::sdk::time_duration>::value && !tc::sdk::is_time_point<long>::value && !tc::sdk::is_time_point<tc::sdk::sys_time_point>::value, "C04: nothing else is a time point of the clock");
static_assert(tc::sdk::is_std_chrono<tc::sdk::time_duration>::value && tc::sdk::is_std_chrono<tc::sdk::time_point>::value && !tc::sdk::is_std_chrono<int>::value, "C04: durations and time points are chrono types, numbers are not");
static_assert(!std::is_convertible_v<std::chrono::nanoseconds, tc::sdk::timedelta>, "C04: a duration does not turn into a timedelta unasked");
static_assert(!std::is_convertible_v<std::chrono::year_month_day, tc::sdk::date>, "C04: a calendar day does not turn into a date unasked");
static_assert(!std::is_convertible_v<std::chrono::nanoseconds, tc::sdk::time>, "C04: a duration does not turn into a time unasked");
static_assert(!std::is_convertible_v<tc::sdk::sys_time_point, tc::sdk::datetime>, "C04: a time point does not turn into a datetime unasked");
static_assert(!std::is_convertible_v<tc::sdk::date, tc::sdk::datetime> && !std::is_convertible_v<tc::sdk::time, tc::sdk::datetime>, "C04: neither date nor time turns into a datetime unasked");

// C05: value types
template <typename T>
constexpr bool value_type = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T> && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;
static_assert(value_type<tc::sdk::point<int>> && value_type<tc::sdk::point<double>>, "C05: points are values");
static_assert(value_type<tc::sdk::size<int>> && value_type<tc::sdk::size<double>>, "C05: sizes are values");
static_assert(value_type<tc::sdk::line<int>> && value_type<tc::sdk::line<double>>, "C05: lines are values");
static_assert(value_type<tc::sdk::rectangle<int>> && value_type<tc::sdk::rectangle<double>>, "C05: rectangles are values");
static_assert(value_type<tc::sdk::range<int>> && value_type<tc::sdk::range<double>>, "C05: ranges are values");
static_assert(value_type<tc::sdk::uuid>, "C05: uuids are values");
static_assert(std::is_default_constructible_v<tc::sdk::uuid>, "C05: an empty uuid can be made");
static_assert(!std::is_constructible_v<tc::sdk::uuid, std::array<uint8_t, 16>>, "C05: other uuids come from the generator only");
static_assert(std::is_trivially_copyable_v<tc::sdk::uuid> && sizeof(tc::sdk::uuid) == 16, "C05: a uuid is its 16 bytes");
static_assert(std::is_move_assignable_v<tc::sdk::date> && std::is_move_assignable_v<tc::sdk::time> && std::is_move_assignable_v<tc::sdk::datetime>, "C05: dates and times can be assigned");
