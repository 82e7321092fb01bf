// uuids: laws over texts one or two characters of which are arbitrary, for every position
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>

#include <cctype>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>

void ensure(bool, const char*);
// an arbitrary character of a text
char one_of(const char*);
// any of the 256 characters
char any_char();

namespace
{
tc::sdk::uuid_generator& generator()
{
    return tc::sdk::uuid_generator::instance();
}
constexpr size_t position(size_t byte)
{
    return 2 * byte + (byte >= 4) + (byte >= 6) + (byte >= 8) + (byte >= 10);
}
std::string with(std::string text, size_t position, char c)
{
    text[position] = c;
    return text;
}
bool refused(const std::string& text)
{
    try
    {
        const auto u = generator().from_string(text);
        (void)u;
    }
    catch (const std::runtime_error&)
    {
        return true;
    }
    return false;
}
// the text is (not) a uuid, in the opinion of both functions
void expect(const std::string& text, bool valid)
{
    ensure(generator().is_valid(text) == valid, "is_valid tells whether the text is a uuid");
    ensure(refused(text) == !valid, "from_string refuses exactly what is no uuid, by std::runtime_error");
}
bool hex(char c)
{
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
std::string digits(size_t n)
{
    std::string t;
    for (size_t i = 0; i < n; ++i)
        t.push_back("0123456789abcdefABCDEF"[i % 22]);
    return t;
}

const char LOWER[] = "0123456789abcdef";
const char HEX[] = "0123456789abcdefABCDEF";
const char TEXT[] = "0f1e2d3c-4b5a-6978-8796-a5b4c3d2e1f0";
const char PLAIN[] = "0f1e2d3c4b5a69788796a5b4c3d2e1f0";
}

namespace u02
{
template <int Byte>
void canonical()
{
    const char a = one_of(LOWER), b = one_of(LOWER);
    const auto t = with(with(TEXT, position(Byte), a), position(Byte) + 1, b);
    const auto u = generator().from_string(t);
    ensure(u.to_string() == t, "the text of a uuid is 8-4-4-4-12 lower case digits, each byte in its place");
    std::ostringstream s;
    s << u;
    ensure(s.str() == t, "a stream gets the text of the uuid");
    const auto v = generator().from_string(u.to_string());
    ensure(v == u, "the text of a uuid stands for that uuid");
}
template void canonical<0>();
template void canonical<1>();
template void canonical<2>();
template void canonical<3>();
template void canonical<4>();
template void canonical<5>();
template void canonical<6>();
template void canonical<7>();
template void canonical<8>();
template void canonical<9>();
template void canonical<10>();
template void canonical<11>();
template void canonical<12>();
template void canonical<13>();
template void canonical<14>();
template void canonical<15>();
void empty()
{
    const tc::sdk::uuid u;
    ensure(u.to_string() == "00000000-0000-0000-0000-000000000000", "an empty uuid is all zero");
    ensure(generator().from_string(u.to_string()) == u, "the text of the empty uuid stands for it");
}
}

namespace u03
{
template <int Byte>
void forms()
{
    const char a = one_of(HEX), b = one_of(HEX);
    const auto plain = with(with(PLAIN, 2 * Byte, a), 2 * Byte + 1, b);
    const auto text = with(with(TEXT, position(Byte), a), position(Byte) + 1, b);
    const auto canonical = with(with(TEXT, position(Byte), (char)std::tolower(a)), position(Byte) + 1, (char)std::tolower(b));
    const auto u = generator().from_string(canonical);
    ensure(generator().from_string(text) == u, "upper and lower case digits are the same");
    ensure(generator().from_string(plain) == u, "dashes may be left out");
    ensure(generator().from_string("{" + text + "}") == u, "braces around the text change nothing");
    ensure(generator().from_string("{" + plain + "}") == u, "braces around the digits change nothing");
    ensure(u.to_string() == canonical, "the text is in lower case");
}
template void forms<0>();
template void forms<1>();
template void forms<2>();
template void forms<3>();
template void forms<4>();
template void forms<5>();
template void forms<6>();
template void forms<7>();
template void forms<8>();
template void forms<9>();
template void forms<10>();
template void forms<11>();
template void forms<12>();
template void forms<13>();
template void forms<14>();
template void forms<15>();
}

namespace u04
{
template <int Position>
void character()
{
    const char c = any_char();
    const bool dash = Position == 8 || Position == 13 || Position == 18 || Position == 23;
    expect(with(TEXT, Position, c), dash ? c == '-' : hex(c));
}
template <int Position>
void plain_character()
{
    const char c = any_char();
    expect(with(PLAIN, Position, c), hex(c));
}
template <int Position>
void inserted()
{
    const char c = any_char();
    std::string t = PLAIN;
    t.insert(Position, 1, c);
    expect(t, c == '-');
}
template <int Position>
void braced()
{
    const char c = any_char();
    expect(with("{0f1e2d3c4b5a69788796a5b4c3d2e1f0}", Position, c), Position == 0 ? c == '{' : Position == 33 ? c == '}' : hex(c));
}
template <int Position>
void missing()
{
    std::string t = PLAIN;
    t.erase(Position, 1);
    expect(t, false);
    expect("{" + t + "}", false);
    const char c = any_char();
    t.push_back(c);
    expect(t, hex(c));
}
#define POSITIONS(f) \
    template void f<0>(); template void f<1>(); template void f<2>(); template void f<3>(); template void f<4>(); template void f<5>(); template void f<6>(); template void f<7>(); \
    template void f<8>(); template void f<9>(); template void f<10>(); template void f<11>(); template void f<12>(); template void f<13>(); template void f<14>(); template void f<15>(); \
    template void f<16>(); template void f<17>(); template void f<18>(); template void f<19>(); template void f<20>(); template void f<21>(); template void f<22>(); template void f<23>(); \
    template void f<24>(); template void f<25>(); template void f<26>(); template void f<27>(); template void f<28>(); template void f<29>(); template void f<30>(); template void f<31>();
POSITIONS(character)
template void character<32>();
template void character<33>();
template void character<34>();
template void character<35>();
POSITIONS(plain_character)
POSITIONS(inserted)
template void inserted<32>();
POSITIONS(braced)
template void braced<32>();
template void braced<33>();
POSITIONS(missing)

template <size_t First, size_t Last>
void lengths()
{
    for (size_t n = First; n <= Last; ++n)
    {
        const auto t = digits(n);
        expect(t, n == 32);
        expect("{" + t + "}", n == 32);
        expect("{" + t, false);
        expect(t + "}", false);
        expect("-" + t + "-", n == 32);
    }
}
template void lengths<0, 6>();
template void lengths<7, 13>();
template void lengths<14, 20>();
template void lengths<21, 26>();
template void lengths<27, 30>();
template void lengths<31, 33>();
template void lengths<34, 38>();
template void lengths<39, 43>();
template void lengths<44, 48>();
template void lengths<49, 53>();
template void lengths<54, 58>();
template void lengths<59, 62>();
template void lengths<63, 66>();
template void lengths<67, 72>();
void braces()
{
    expect("", false);
    expect("{", false);
    expect("}", false);
    expect("{}", false);
    expect("}{", false);
    expect("{{}}", false);
    expect("-", false);
    expect("{-}", false);
    const auto t = digits(32);
    expect("{{" + t + "}}", false);
    expect("}" + t + "{", false);
    expect("{" + t + "}}", false);
    expect("{" + t + "}-", false);
    expect("-{" + t + "}", false);
    expect(t + "{}", false);
    expect("{" + digits(31) + "}", false);
    expect("{" + digits(33) + "}", false);
    expect("{" + digits(30) + "}", false);
    expect("--------" + t + "--------", true);
    expect("(" + t + ")", false);
    expect(t + std::string(1, '\0'), false);
    expect(" " + t, false);
    expect(t + " ", false);
    expect("0x" + t, false);
}
void ends()
{
    const char a = any_char(), b = any_char();
    auto t = digits(34);
    t.front() = a;
    t.back() = b;
    expect(t, (a == '{' && b == '}') || (a == '-' && b == '-'));
}
void part_of_a_text()
{
    // a view need not end in a zero character
    const auto t = digits(32) + "ff";
    const std::string_view v(t.data(), 32);
    ensure(generator().is_valid(v), "only the characters of the view count");
    ensure(generator().from_string(v).to_string() == generator().from_string(digits(32)).to_string(), "only the characters of the view are used");
}
}

namespace u05
{
template <int Byte>
void one()
{
    const char a = one_of(LOWER), b = one_of(LOWER);
    const auto t = with(with(TEXT, position(Byte), a), position(Byte) + 1, b);
    const auto u = generator().from_string(t), v = generator().from_string(TEXT);
    const auto s = v.to_string();
    ensure((u == v) == (t == s), "uuids are equal exactly if all bytes are");
    ensure((u != v) == (t != s), "uuids differ exactly if a byte does");
    ensure((u < v) == (t < s), "uuids are ordered by their bytes");
    ensure((u > v) == (t > s), "greater is the order reversed");
    ensure((u <= v) == (t <= s), "less or equal");
    ensure((u >= v) == (t >= s), "greater or equal");
    ensure((v < u) == (s < t) && (v > u) == (s > t) && (v == u) == (s == t), "and the other way round");
    const auto w = u;
    ensure(w == u && !(w != u) && !(w < u) && !(w > u) && w <= u && w >= u, "a copy is the same");
}
template void one<0>();
template void one<1>();
template void one<2>();
template void one<3>();
template void one<4>();
template void one<5>();
template void one<6>();
template void one<7>();
template void one<8>();
template void one<9>();
template void one<10>();
template void one<11>();
template void one<12>();
template void one<13>();
template void one<14>();
template void one<15>();
// the first differing byte decides
template <int First, int Second>
void two()
{
    const char a = one_of("0789abf"), b = one_of("0789abf");
    auto t = with(with(PLAIN, 2 * First, a), 2 * Second, b);
    const auto s = with(with(PLAIN, 2 * First, '8'), 2 * Second, '9');
    const auto u = generator().from_string(t), v = generator().from_string(s);
    ensure((u < v) == (t < s) && (u > v) == (t > s) && (u <= v) == (t <= s) && (u >= v) == (t >= s) && (u == v) == (t == s) && (u != v) == (t != s), "the first byte that differs decides");
}
template void two<0, 1>();
template void two<0, 15>();
template void two<1, 2>();
template void two<2, 3>();
template void two<3, 4>();
template void two<4, 5>();
template void two<5, 6>();
template void two<6, 7>();
template void two<7, 8>();
template void two<8, 9>();
template void two<9, 10>();
template void two<10, 11>();
template void two<11, 12>();
template void two<12, 13>();
template void two<13, 14>();
template void two<14, 15>();
template void two<7, 15>();
template void two<3, 8>();
}

namespace u01
{
void observe(const std::string&);
void observe_next(const std::string&);
void create()
{
    const auto u = generator().create();
    observe(u.to_string());
    const auto v = generator().create();
    observe_next(v.to_string());
}
}
