// command line parsing: laws for arbitrary texts; text(name, without, notfirst) is an arbitrary non-empty text that
// contains none of the characters `without` and does not start with one of `notfirst`
#include <teiacare/sdk/argparse/argument_parser.hpp>

#include <cstdlib>
#include <filesystem>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

void ensure(bool, const char*);
std::string text(const char* name, const char* without = "", const char* notfirst = "");

using tc::sdk::argument_parser;
using tc::sdk::parse_result;

template <typename... T>
parse_result run(const argument_parser& p, const T&... tokens)
{
    std::string program = "program";
    char* argv[] = {program.data(), const_cast<char*>(tokens.c_str())..., nullptr};
    return p.parse(1 + static_cast<int>(sizeof...(tokens)), argv);
}

using str = std::string;

namespace h01
{
struct args
{
    const str d = text("d"), e = text("e");
    str a, b, c;
    argument_parser p{"program", "1.0"};
    args()
    {
        p.add_option<str>("alpha", 'a', a, d);
        p.add_option<str>("beta", b, e);
        p.add_option<str>("chi", 'c', c, d);
    }
};
void only(const args& x, const str& a, const str& b, const str& c)
{
    ensure(x.a == a, "the option named alpha");
    ensure(x.b == b, "the option named beta");
    ensure(x.c == c, "the option named chi");
}
}
namespace a01 // options
{
using namespace h01;
void none()
{
    args x;
    only(x, x.d, x.e, x.d);
    const auto r = run(x.p);
    ensure(r == parse_result::success, "an empty command line is accepted");
    only(x, x.d, x.e, x.d);
}
void long_equals()
{
    args x;
    const str v = text("v");
    const auto r = run(x.p, "--alpha=" + v);
    ensure(r == parse_result::success, "--name=value is accepted");
    only(x, v, x.e, x.d);
}
void short_equals()
{
    args x;
    const str v = text("v");
    const auto r = run(x.p, "-c=" + v);
    ensure(r == parse_result::success, "-n=value is accepted");
    only(x, x.d, x.e, v);
}
void long_next()
{
    args x;
    const str v = text("v");
    const auto r = run(x.p, str("--beta"), v);
    ensure(r == parse_result::success, "--name value is accepted");
    only(x, x.d, v, x.d);
}
void short_next()
{
    args x;
    const str v = text("v");
    const auto r = run(x.p, str("-a"), v);
    ensure(r == parse_result::success, "-n value is accepted");
    only(x, v, x.e, x.d);
}
void option_like_value()
{
    args x;
    const str v = text("v");
    const auto r = run(x.p, str("--alpha"), "-" + v);
    ensure(r == parse_result::success, "a value may start with a dash");
    only(x, "-" + v, x.e, x.d);
}
void value_with_equals()
{
    args x;
    const str v = text("v"), w = text("w");
    const auto r = run(x.p, "--alpha=" + v + "=" + w);
    ensure(r == parse_result::success, "a value may contain =");
    only(x, v + "=" + w, x.e, x.d);
}
void several()
{
    args x;
    const str u = text("u"), v = text("v"), w = text("w");
    const auto r = run(x.p, "-c=" + u, str("-a"), v, "--beta=" + w);
    ensure(r == parse_result::success, "options may come in any order");
    only(x, v, w, u);
}
void last_wins()
{
    args x;
    const str u = text("u"), v = text("v");
    const auto r = run(x.p, "--alpha=" + u, "-a=" + v);
    ensure(r == parse_result::success, "an option may be repeated");
    only(x, v, x.e, x.d);
}
void missing_value()
{
    args x;
    ensure(run(x.p, str("--alpha")) == parse_result::error, "an option without value is an error");
    only(x, x.d, x.e, x.d);
}
void missing_value_later()
{
    args x;
    const str v = text("v");
    ensure(run(x.p, "--alpha=" + v, str("--beta")) == parse_result::error, "an option without value at the end is an error");
    only(x, v, x.e, x.d);
}
}

namespace h02
{
struct args
{
    bool f = false, g = false, h = false;
    str a, p1, p2;
    const str d = text("d");
    argument_parser p{"program", "1.0"};
    args()
    {
        p.add_flag("fast", 'f', f);
        p.add_flag("green", g);
        p.add_flag("half", 'x', h);
        p.add_option<str>("alpha", 'a', a, d);
        p.add_positional("first", p1);
        p.add_positional("second", p2);
    }
};
void only(const args& x, bool f, bool g, bool h, const str& a, const str& p1, const str& p2)
{
    ensure(x.f == f, "the flag named fast");
    ensure(x.g == g, "the flag named green");
    ensure(x.h == h, "the flag named half");
    ensure(x.a == a, "the option named alpha");
    ensure(x.p1 == p1, "the first positional argument");
    ensure(x.p2 == p2, "the second positional argument");
}
}
namespace a02 // flags and positional arguments
{
using namespace h02;
void positionals()
{
    args x;
    const str u = text("u", "", "-"), v = text("v", "", "-");
    ensure(run(x.p, u, v) == parse_result::success, "positional arguments are accepted");
    only(x, false, false, false, x.d, u, v);
}
void long_flag()
{
    args x;
    const str u = text("u", "", "-"), v = text("v", "", "-");
    ensure(run(x.p, u, str("--green"), v) == parse_result::success, "a flag consumes no value");
    only(x, false, true, false, x.d, u, v);
}
void short_flag()
{
    args x;
    const str u = text("u", "", "-"), v = text("v", "", "-");
    ensure(run(x.p, str("-f"), u, v) == parse_result::success, "a flag may be given by its short name");
    only(x, true, false, false, x.d, u, v);
}
void mixed()
{
    args x;
    const str u = text("u", "", "-"), v = text("v", "", "-"), w = text("w");
    ensure(run(x.p, str("-x"), str("--alpha"), w, u, str("--fast"), v) == parse_result::success, "flags, options and positional arguments may be mixed");
    only(x, true, false, true, w, u, v);
}
void given_true()
{
    args x;
    x.f = true;
    const str u = text("u", "", "-"), v = text("v", "", "-");
    ensure(run(x.p, u, v) == parse_result::success, "flags need not be given");
    only(x, true, false, false, x.d, u, v);
}
void too_few()
{
    args x;
    const str u = text("u", "", "-");
    ensure(run(x.p, u) == parse_result::error, "a missing positional argument is an error");
}
void no_positional()
{
    args x;
    ensure(run(x.p, str("-f")) == parse_result::error, "missing positional arguments are an error");
}
void too_many()
{
    args x;
    const str u = text("u", "", "-"), v = text("v", "", "-"), w = text("w", "", "-");
    ensure(run(x.p, u, v, w) == parse_result::error, "a positional argument too many is an error");
    only(x, false, false, false, x.d, u, v);
}
void empty_text()
{
    args x;
    const str v = text("v", "", "-");
    ensure(run(x.p, str(""), v) == parse_result::success, "an empty token is a positional argument");
    only(x, false, false, false, x.d, "", v);
}
}

namespace h03
{
struct args
{
    bool f = false, g = false;
    const str d = text("d");
    str a, b;
    argument_parser p{"program", "1.0"};
    args()
    {
        p.add_option<str>("alpha", 'a', a, d);
        p.add_option<str>("beta", b, d);
        p.add_flag("fast", 'f', f);
        p.add_flag("green", g);
    }
};
void untouched(const args& x)
{
    ensure(x.a == x.d && x.b == x.d, "no option is set");
    ensure(!x.f && !x.g, "no flag is set");
}
bool known(const str& k)
{
    return k == "alpha" || k == "a" || k == "beta" || k == "fast" || k == "f" || k == "green" || k == "help" || k == "h" || k == "version" || k == "v";
}
}
namespace a03 // tokens that name nothing
{
using namespace h03;
void unknown_long()
{
    args x;
    const str k = text("k", "=", "-");
    if (known(k))
        return;
    ensure(run(x.p, "--" + k) == parse_result::error, "an unknown name is an error");
    untouched(x);
}
void unknown_long_value()
{
    args x;
    const str k = text("k", "=", "-"), v = text("v");
    if (known(k))
        return;
    ensure(run(x.p, "--" + k + "=" + v) == parse_result::error, "an unknown name with value is an error");
    untouched(x);
}
void unknown_long_next()
{
    args x;
    const str k = text("k", "=", "-"), v = text("v");
    if (known(k))
        return;
    ensure(run(x.p, "--" + k, v) == parse_result::error, "an unknown name before a value is an error");
    untouched(x);
}
void unknown_short()
{
    args x;
    const str k = text("k", "=", "-");
    if (known(k))
        return;
    ensure(run(x.p, "-" + k) == parse_result::error, "an unknown short name is an error");
    untouched(x);
}
void unknown_short_value()
{
    args x;
    const str k = text("k", "=", "-"), v = text("v");
    if (known(k))
        return;
    ensure(run(x.p, "-" + k + "=" + v) == parse_result::error, "an unknown short name with value is an error");
    untouched(x);
}
void stray()
{
    args x;
    const str v = text("v", "", "-");
    ensure(run(x.p, v) == parse_result::error, "a token that belongs to nothing is an error");
    untouched(x);
}
void dash()
{
    args x;
    ensure(run(x.p, str("-")) == parse_result::error, "a dash alone is an error");
    untouched(x);
}
void dash_next()
{
    args x;
    const str v = text("v");
    ensure(run(x.p, str("-"), v) == parse_result::error, "a dash alone sets nothing");
    untouched(x);
}
void dashes()
{
    args x;
    const str v = text("v");
    ensure(run(x.p, str("--"), v) == parse_result::error, "two dashes alone set nothing");
    untouched(x);
}
void many_dashes()
{
    args x;
    const str k = text("k"), v = text("v");
    ensure(run(x.p, "---" + k, v) == parse_result::error, "three dashes are an error");
    untouched(x);
}
void nameless_long()
{
    args x;
    const str v = text("v");
    ensure(run(x.p, "--=" + v) == parse_result::error, "a value without name is an error");
    untouched(x);
}
void nameless_short()
{
    args x;
    const str v = text("v");
    ensure(run(x.p, "-=" + v) == parse_result::error, "a value without short name is an error");
    untouched(x);
}
}

namespace h04
{
struct args
{
    bool f = false;
    const str d = text("d");
    str a, p1;
    argument_parser p{"program", "1.0"};
    args()
    {
        p.add_option<str>("alpha", 'a', a, d, "", true);
        p.add_flag("fast", 'f', f);
        p.add_positional("first", p1);
    }
};
}
namespace a04 // help and version
{
using namespace h04;
void help_long()
{
    args x;
    ensure(run(x.p, str("--help")) == parse_result::quit, "--help quits");
}
void help_short()
{
    args x;
    ensure(run(x.p, str("-h")) == parse_result::quit, "-h quits");
}
void version_long()
{
    args x;
    ensure(run(x.p, str("--version")) == parse_result::quit, "--version quits");
}
void version_short()
{
    args x;
    ensure(run(x.p, str("-v")) == parse_result::quit, "-v quits");
}
void help_later()
{
    args x;
    const str u = text("u", "", "-"), v = text("v");
    ensure(run(x.p, u, str("-a"), v, str("--help")) == parse_result::quit, "--help quits after other arguments");
}
void help_short_later()
{
    args x;
    const str u = text("u", "", "-"), v = text("v");
    ensure(run(x.p, str("-f"), u, "--alpha=" + v, str("-h")) == parse_result::quit, "-h quits after other arguments");
}
void version_later()
{
    args x;
    const str u = text("u", "", "-"), v = text("v");
    ensure(run(x.p, u, str("-a"), v, str("--version")) == parse_result::quit, "--version quits after other arguments");
}
void version_short_later()
{
    args x;
    const str u = text("u", "", "-"), v = text("v");
    ensure(run(x.p, str("--fast"), str("-a"), v, u, str("-v")) == parse_result::quit, "-v quits after other arguments");
}
void help_before()
{
    args x;
    const str u = text("u", "", "-"), v = text("v");
    ensure(run(x.p, str("--help"), u, "--nothing=" + v) == parse_result::quit, "--help quits before other arguments");
}
void version_before()
{
    args x;
    const str u = text("u", "", "-"), v = text("v");
    ensure(run(x.p, str("-v"), u, "--nothing=" + v) == parse_result::quit, "--version quits before other arguments");
}
void help_value()
{
    args x;
    const str u = text("u", "", "-");
    ensure(run(x.p, u, str("--alpha"), str("--help")) == parse_result::success, "a value is no request for help");
    ensure(x.a == "--help", "a value that looks like an option is a value");
}
}

namespace h05
{
struct args
{
    const str d = text("d");
    str a, b, c, e, p1;
    argument_parser p{"program", "1.0"};
    args()
    {
        p.add_option<str>("alpha", 'a', a, d, "", true);
        p.add_option<str>("beta", b, d);
        p.add_option<str>("chi", 'c', c, d, "", true);
        p.add_option<str>("eta", e, d, "", true);
        p.add_positional("first", p1);
    }
};
template <typename... T>
void given(bool enough, const T&... t)
{
    args x;
    const str v = text("v", "", "-");
    const auto r = run(x.p, t..., v);
    ensure(enough || r == parse_result::error, "a missing required option is an error");
    ensure(!enough || r == parse_result::success, "options that are not required may be missing");
}
}
namespace a05 // required options
{
using namespace h05;
void subsets()
{
    const str v = text("w"), a = "-a=" + v, b = "--beta=" + v, c = "--chi=" + v, e = "--eta=" + v;
    given(false);
    given(false, a);
    given(false, c);
    given(false, e);
    given(false, b);
    given(false, a, c);
    given(false, c, a);
    given(false, a, e);
    given(false, c, e);
    given(false, e, c, b);
    given(false, b, a, c);
    given(false, a, a, c);
    given(true, a, c, e);
    given(true, e, c, a);
    given(true, a, b, c, e);
    given(true, c, a, e, b);
}
void values()
{
    args x;
    const str u = text("u", "", "-"), v = text("v"), w = text("w");
    ensure(run(x.p, "--chi=" + v, str("-a"), w, u, "--eta=" + u) == parse_result::success, "options that are not required may be missing");
    ensure(x.a == w && x.b == x.d && x.c == v && x.e == u && x.p1 == u, "each argument has its value");
}
}

namespace h06
{
template <typename T>
struct fits
{
    bool ok;
    T v;
};
template <typename T>
fits<T> as(const str& s)
{
    if constexpr (std::is_same_v<T, str> || std::is_same_v<T, std::filesystem::path>)
        return {true, T(s)};
    else
    {
        try
        {
            if constexpr (std::is_same_v<T, int>)
                return {true, std::stoi(s)};
            else if constexpr (std::is_same_v<T, float>)
                return {true, std::stof(s)};
            else if constexpr (std::is_same_v<T, double>)
                return {true, std::stod(s)};
            else
            {
                T v;
                std::istringstream in(s);
                if (!(in >> v) || !in.eof())
                    return {false, T()};
                return {true, v};
            }
        }
        catch (...)
        {
            return {false, T()};
        }
    }
}
template <typename T>
void items(const std::vector<str>& vs, const std::vector<T>& a, bool accepted)
{
    bool ok = true;
    for (const auto& v : vs)
        ok = ok && as<T>(v).ok;
    ensure(accepted == ok, "a list is accepted exactly if each item is");
    if (!ok)
        return;
    ensure(a.size() == vs.size(), "a list has as many items as given");
    for (std::size_t i = 0; i < vs.size() && i < a.size(); ++i)
        ensure(a[i] == as<T>(vs[i]).v, "the items are in order");
}
}
namespace a06 // conversion
{
using namespace h06;
template <typename T>
void option(const T& d)
{
    const str v = text("v");
    T a;
    argument_parser p{"program", "1.0"};
    p.add_option<T>("alpha", 'a', a, d);
    ensure(a == d, "an option starts with its default");
    const auto r = run(p, "--alpha=" + v);
    const auto c = as<T>(v);
    ensure((r == parse_result::success) == c.ok, "accepted exactly if the text is a value of the type");
    ensure((r == parse_result::error) == !c.ok, "an error otherwise");
    ensure(c.ok ? a == c.v : a == d, "set to the value, or left alone");
}
template <typename T>
void positional(const T& before)
{
    const str v = text("v", "", "-");
    T a = before;
    argument_parser p{"program", "1.0"};
    p.add_positional("first", a);
    const auto r = run(p, v);
    const auto c = as<T>(v);
    ensure((r == parse_result::success) == c.ok, "accepted exactly if the text is a value of the type");
    ensure((r == parse_result::error) == !c.ok, "an error otherwise");
    if (c.ok)
        ensure(a == c.v, "set to the value");
}
template void option<int>(const int&);
template void option<float>(const float&);
template void option<double>(const double&);
template void option<str>(const str&);
template void option<unsigned>(const unsigned&);
template void option<long>(const long&);
template void option<char>(const char&);
template void positional<std::filesystem::path>(const std::filesystem::path&);
template void positional<int>(const int&);
template void positional<float>(const float&);
template void positional<double>(const double&);
template void positional<str>(const str&);
template void positional<unsigned>(const unsigned&);
template void positional<long>(const long&);

template <typename T>
void list()
{
    const str u = text("u", ",\n"), v = text("v", ",\n"), w = text("w", ",\n");
    {
        std::vector<T> a;
        argument_parser p{"program", "1.0"};
        p.add_option<std::vector<T>>("alpha", 'a', a);
        const auto r = run(p, "--alpha=" + u + "," + v + "," + w);
        items<T>({u, v, w}, a, r == parse_result::success);
    }
    {
        std::vector<T> a;
        argument_parser p{"program", "1.0"};
        p.add_option<std::vector<T>>("alpha", 'a', a);
        const auto r = run(p, str("-a"), u);
        items<T>({u}, a, r == parse_result::success);
    }
    {
        std::vector<T> a;
        argument_parser p{"program", "1.0"};
        p.add_option<std::vector<T>>("alpha", 'a', a);
        const auto r = run(p, "--alpha=" + u + ",," + w);
        items<T>({u, "", w}, a, r == parse_result::success);
    }
}
template void list<int>();
template void list<double>();
template void list<str>();
}

namespace a07 // validators
{
template <typename T>
void validated(const T& d, const T& bound)
{
    const str v = text("v");
    T a;
    int asked = 0;
    bool verdict = false;
    auto opt = std::make_unique<tc::sdk::optional_argument<T>>("alpha", 'a', a, d);
    opt->set_validator([&](const T& x) {
        ++asked;
        verdict = !(x == bound);
        return verdict;
    });
    argument_parser p{"program", "1.0"};
    p.add_option(std::move(opt));
    const auto r = run(p, "--alpha=" + v);
    const auto c = h06::as<T>(v);
    ensure(asked == (c.ok ? 1 : 0), "the validator is asked about each converted value");
    const bool good = c.ok && !(c.v == bound);
    ensure((r == parse_result::success) == good, "accepted exactly if the validator accepts");
    ensure((r == parse_result::error) == !good, "an error otherwise");
    ensure(good ? a == c.v : a == d, "set to the value, or left alone");
}
template void validated<int>(const int&, const int&);
template void validated<str>(const str&, const str&);
template void validated<long>(const long&, const long&);
}

namespace a08 // environment
{
void option()
{
    const str d = text("d"), v = text("v");
    str a, b;
    argument_parser p{"program", "1.0"};
    p.add_option<str>("alpha", 'a', a, d, "", false, "TC_ALPHA");
    p.add_option<str>("beta", 'b', b, d);
    const char* env = std::getenv("TC_ALPHA");
    ensure(run(p) == parse_result::success, "the environment may set an option");
    ensure(env ? a == str(env) : a == d, "an option takes the value of its environment variable");
    ensure(b == d, "an option without environment variable keeps its default");
    ensure(run(p, "--alpha=" + v) == parse_result::success, "the command line may set it too");
    ensure(a == v, "the command line prevails over the environment");
}
void required()
{
    const str d = text("d");
    str a;
    argument_parser p{"program", "1.0"};
    p.add_option<str>("alpha", 'a', a, d, "", true, "TC_ALPHA");
    const char* env = std::getenv("TC_ALPHA");
    ensure((run(p) == parse_result::success) == (env != nullptr), "a required option may come from the environment");
}
void flag()
{
    bool f = false, g = false;
    argument_parser p{"program", "1.0"};
    p.add_flag("fast", 'f', f, "", "TC_FAST");
    p.add_flag("green", 'g', g);
    const char* env = std::getenv("TC_FAST");
    ensure(run(p) == parse_result::success, "the environment may set a flag");
    ensure(f == (env != nullptr), "a flag is set if its environment variable is");
    ensure(!g, "other flags are not set");
}
void converted(const int& d)
{
    int a;
    argument_parser p{"program", "1.0"};
    p.add_option<int>("alpha", 'a', a, d, "", false, "TC_ALPHA");
    const auto r = run(p);
    const char* env = std::getenv("TC_ALPHA");
    if (!env)
    {
        ensure(r == parse_result::success && a == d, "without the variable the default remains");
        return;
    }
    const auto c = h06::as<int>(str(env));
    ensure((r == parse_result::success) == c.ok, "accepted exactly if the text is a value of the type");
    ensure((r == parse_result::error) == !c.ok, "an error otherwise");
    ensure(c.ok ? a == c.v : a == d, "set to the value, or left alone");
}
}

// does the text lie in an object that still exists?
bool alive(const char*);

namespace a09 // lifetime of texts
{
void from_token()
{
    const str v = text("v"), w = text("w", "", "-");
    const char* a = nullptr;
    const char* b = nullptr;
    const char* c = nullptr;
    argument_parser p{"program", "1.0"};
    p.add_option<const char*>("alpha", 'a', a);
    p.add_option<const char*>("beta", 'b', b);
    p.add_positional("first", c);
    ensure(run(p, "--alpha=" + v, str("-b"), v, w) == parse_result::success, "texts are accepted");
    ensure(str(a) == v && str(b) == v && str(c) == w, "texts are stored");
    ensure(alive(a), "a text given with = outlives the parsing");
    ensure(alive(b), "a text given as next token outlives the parsing");
    ensure(alive(c), "a positional text outlives the parsing");
}
void from_environment()
{
    const char* a = nullptr;
    argument_parser p{"program", "1.0"};
    p.add_option<const char*>("alpha", 'a', a, nullptr, "", false, "TC_ALPHA");
    if (!std::getenv("TC_ALPHA"))
        return;
    ensure(run(p) == parse_result::success, "texts are accepted");
    ensure(str(a) == str(std::getenv("TC_ALPHA")), "texts are stored");
    ensure(alive(a), "a text from the environment outlives the parsing");
}
void list()
{
    const str u = text("u", ",\n"), v = text("v", ",\n");
    std::vector<const char*> a;
    argument_parser p{"program", "1.0"};
    p.add_option<std::vector<const char*>>("alpha", 'a', a);
    ensure(run(p, "--alpha=" + u + "," + v) == parse_result::success, "texts are accepted");
    ensure(a.size() == 2, "all texts are stored");
    ensure(str(a[0]) == u && str(a[1]) == v, "texts are stored in order");
    ensure(alive(a[0]) && alive(a[1]), "texts of a list outlive the parsing");
}
}

// what was written to std::cout and std::cerr so far
str printed();
str complained();
// does the text contain the piece, whatever the arbitrary texts in it are?
bool contains(const str& text, const str& piece);

namespace h10
{
struct args
{
    const str program = text("program"), number = text("number"), about = text("about");
    const str ad = text("ad"), bd = text("bd"), fd = text("fd"), gd = text("gd"), pd = text("pd");
    const str d = text("d");
    str a, b, p1;
    int n;
    bool f = false, g = false;
    argument_parser p{program, number, about};
    args()
    {
        p.add_option<str>("alpha", 'a', a, d, ad, false, "TC_ALPHA");
        p.add_option<str>("beta", b, d, bd);
        p.add_option<int>("num", 'n', n, 0);
        p.add_flag("fast", 'f', f, fd);
        p.add_flag("green", g, gd, "TC_GREEN");
        p.add_positional("first", p1, pd);
    }
};
void help(const args& x, const str& s)
{
    ensure(contains(s, x.program) && contains(s, x.number), "help names program and version");
    ensure(contains(s, x.about), "help describes the program");
    ensure(contains(s, "-a, --alpha") && contains(s, x.ad) && contains(s, "TC_ALPHA"), "help shows an option with short name and environment variable");
    ensure(contains(s, "--beta") && !contains(s, ", --beta") && contains(s, x.bd), "help shows an option without short name");
    ensure(contains(s, "-f, --fast") && contains(s, x.fd), "help shows a flag with short name");
    ensure(contains(s, "--green") && !contains(s, ", --green") && contains(s, x.gd) && contains(s, "TC_GREEN"), "help shows a flag without short name");
    ensure(contains(s, "first") && contains(s, x.pd), "help shows positional arguments");
    ensure(contains(s, "-h, --help") && contains(s, "-v, --version"), "help shows the requests for help and version");
}
}
namespace a10 // what is reported
{
using namespace h10;
void help_text()
{
    args x;
    run(x.p, str("--help"));
    help(x, printed());
    ensure(complained() == "", "a request for help is no error");
}
void version_text()
{
    args x;
    run(x.p, str("-v"));
    ensure(contains(printed(), x.program) && contains(printed(), x.number), "version names program and version");
    ensure(complained() == "", "a request for the version is no error");
}
void quiet()
{
    args x;
    const str v = text("v", "", "-");
    ensure(run(x.p, v) == parse_result::success, "accepted");
    ensure(printed() == "" && complained() == "", "a successful parsing prints nothing");
}
void unknown()
{
    args x;
    const str v = text("v");
    run(x.p, "--nothing=" + v);
    ensure(contains(complained(), "nothing"), "an unknown name is reported");
}
void no_value()
{
    args x;
    run(x.p, str("-a"));
    ensure(contains(complained(), "a"), "an option without value is reported");
}
void bad_value()
{
    args x;
    const str v = text("v");
    if (run(x.p, "-n=" + v) != parse_result::error)
        return;
    if (h06::as<int>(v).ok)
        return;
    ensure(contains(complained(), "num") && contains(complained(), v), "name and text of a bad value are reported");
}
void surplus()
{
    args x;
    const str v = text("v", "", "-"), w = text("w", "", "-");
    run(x.p, v, w);
    ensure(contains(complained(), w), "a surplus text is reported");
}
void missing()
{
    const str d = text("d"), v = text("v");
    str a, b, c;
    argument_parser p{"program", "1.0"};
    p.add_option<str>("alpha", 'a', a, d, "", true);
    p.add_option<str>("beta", 'b', b, d, "", true);
    p.add_option<str>("chi", 'c', c, d, "", true);
    run(p, "--beta=" + v);
    ensure(contains(complained(), "alpha") && contains(complained(), "chi"), "missing required options are reported");
    ensure(!contains(complained(), "beta"), "an option that is given is not reported as missing");
}
}

namespace h11
{
template <typename T>
void asked(tc::sdk::argument_base& x, const str& name, const str& shortname, const str& about, bool required, const str& env)
{
    ensure(x.get_name_long() == name, "an argument knows its name");
    ensure(x.get_name_short() == shortname, "an argument knows its short name");
    ensure(x.get_description() == about, "an argument knows its description");
    ensure(x.is_required() == required, "an argument knows whether it is required");
    ensure(x.get_env() == env, "an argument knows its environment variable");
    ensure(!x.is_parsed(), "an argument starts unparsed");
    const str v = text("v");
    bool ok = true;
    try
    {
        x.parse(v);
    }
    catch (const std::exception&)
    {
        ok = false;
    }
    ensure(ok == h06::as<T>(v).ok, "an argument takes what converts to its type");
    ensure(x.is_parsed() == ok, "an argument is parsed once it has taken a value");
}
}
namespace a11 // argument objects
{
using namespace h11;
template <typename T>
void option(const T& d)
{
    const str name = text("name"), about = text("about"), env = text("env");
    T a, b, c, e, f;
    tc::sdk::optional_argument<T> x("alpha", 'a', a), y("beta", b), z(name, 'z', c, d, about, true, env), w(name, e, d, about, true, env), u(name, f, d, about, false);
    ensure(a == T() && b == T() && c == d && e == d && f == d, "a variable starts with the default");
    asked<T>(x, "alpha", "a", "", false, "");
    asked<T>(y, "beta", "", "", false, "");
    asked<T>(z, name, "z", about, true, env);
    asked<T>(w, name, "", about, true, env);
    asked<T>(u, name, "", about, false, "");
    const auto v = h06::as<T>(text("v"));
    ensure(a == (v.ok ? v.v : T()) && c == (v.ok ? v.v : d) && e == (v.ok ? v.v : d), "a variable takes the value, or is left alone");
}
template void option<int>(const int&);
template void option<str>(const str&);
void flag()
{
    const str name = text("name"), about = text("about"), env = text("env");
    bool a = false, b = false, c = false, d = true;
    tc::sdk::flag_argument x("fast", 'f', a), y("green", b), z(name, 'z', c, about, env), w(name, d, about, env);
    ensure(!a && !b && !c && d, "making a flag leaves its variable alone");
    asked<str>(x, "fast", "f", "", false, "");
    asked<str>(y, "green", "", "", false, "");
    asked<str>(z, name, "z", about, false, env);
    asked<str>(w, name, "", about, false, env);
    ensure(a && b && c && d, "a flag given is true");
}
template <typename T>
void positional(const T& before)
{
    const str name = text("name"), about = text("about");
    T a = before, b = before;
    tc::sdk::positional_argument<T> x("first", a), y(name, b, about);
    ensure(a == T() && b == T(), "a variable starts with the empty value");
    asked<T>(x, "first", "", "", true, "");
    asked<T>(y, name, "", about, true, "");
    const auto v = h06::as<T>(text("v"));
    ensure(a == (v.ok ? v.v : T()) && b == a, "a variable takes the value, or is left alone");
}
template void positional<int>(const int&);
template void positional<str>(const str&);
void environment()
{
    str a, b;
    tc::sdk::optional_argument<str> x("alpha", a, "", "", true, "TC_ALPHA"), y("beta", b, "");
    const char* env = std::getenv("TC_ALPHA");
    x.parse_from_env();
    y.parse_from_env();
    ensure(x.is_parsed() == (env != nullptr), "an argument is parsed if its environment variable is set");
    ensure(!y.is_parsed(), "an argument without environment variable is not parsed");
    ensure(env ? a == str(env) : a == "", "the value is that of the variable");
}
}
