// C03: a card built from (keyword, value, comment) is an 80 character FITS card
// that gives back exactly that keyword, value and comment.
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
#include <cmath>
using namespace boost::astronomy::io;
typedef card<card_policy> card_t;

static std::vector<std::string> const keys = {"K", "KEY", "KEYWORD8", "NAXIS12", "A-B_9", "DATE-OBS"};
static std::vector<std::string> const comments = {"", "c", "a comment / with slash", "it's 'quoted'", "= 5"};

static double to_d(std::string s) { for (auto& c : s) if (c == 'D') c = 'E'; return std::strtod(s.c_str(), nullptr); }

static void common(card_t& c, std::string const& key, std::string const& comment)
{
    std::string raw = c.raw_card();
    mc::check(raw.size() == 80, "card has ", raw.size(), " characters: ", mc::show(raw));
    mc::check(c.keyword() == key, "keyword() is ", mc::show(c.keyword()), " for ", mc::show(key));
    mc::check(c.keyword(true) == gen::rpad(key, 8), "keyword(true) is ", mc::show(c.keyword(true)));
    gen::parsed_card p = gen::parse_card(raw);
    mc::check(p.has_value, "no value indicator in ", mc::show(raw));
    mc::check(p.key == key, "keyword field of ", mc::show(raw), " is not ", key);
    mc::check(p.comment == gen::trim(comment), "comment of ", mc::show(raw), " is not ", mc::show(comment));
    mc::check(c.value_with_comment() == gen::trim(raw.substr(10)), "value_with_comment() is ", mc::show(c.value_with_comment()));
    mc::state(raw);
}

template <typename T> struct rd { static T from(std::string const& s) { return T(std::strtoll(s.c_str(), nullptr, 10)); } };
template <> struct rd<std::size_t> { static std::size_t from(std::string const& s) { return std::strtoull(s.c_str(), nullptr, 10); } };
template <> struct rd<double> { static double from(std::string const& s) { return to_d(s); } };
template <> struct rd<float> { static float from(std::string const& s) { return std::strtof(s.c_str(), nullptr); } };

template <typename T> static bool same(T a, T b) { return a == b && std::signbit(double(a)) == std::signbit(double(b)); }
template <typename T> static bool same(std::complex<T> a, std::complex<T> b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }

template <typename T> static void number(T v, std::string const& key, std::string const& comment)
{
    card_t c;
    c.create_card(key, v, comment);
    common(c, key, comment);
    std::string raw = c.raw_card();
    gen::parsed_card p = gen::parse_card(raw);
    mc::check(!p.is_string, "number written as string: ", mc::show(raw));
    mc::check(same(rd<T>::from(p.value), v), "the text of ", mc::show(raw), " is not the value ", v);
    mc::check(raw.size() >= 30 && (p.value.size() > 20 || raw.substr(10, 20) == gen::lpad(p.value, 20)),
        "number is not right justified in columns 11-30: ", mc::show(raw));
    T got = c.template value<T>();
    mc::check(same(got, v), "value() is ", got, " instead of ", v, " for ", mc::show(raw));
    mc::check(same(c.template value<T>(), v), "second value() differs");
    card_t d(raw);
    mc::check(same(d.template value<T>(), v), "value read back from ", mc::show(raw), " is not ", v);
    mc::check(d.keyword() == key, "keyword read back differs");
    mc::check(d == c, "card read back compares different");
    if (std::is_integral<T>::value)
    {
        mc::check(d.template value<double>() == double(v), "integer ", v, " read as double is ", d.template value<double>());
        mc::check(d.template value<std::string>() == p.value, "integer ", v, " read as text is ", d.template value<std::string>());
    }
}

template <typename T> static std::vector<T> ints()
{
    std::vector<T> v;
    typedef typename std::make_unsigned<T>::type U;
    int bits = int(sizeof(T) * 8);
    for (int s = 0; s < bits; ++s)
        for (long long d = -1; d <= 1; ++d)
        {
            U u = (U(1) << s) + U(d);
            v.push_back(T(u));
            if (std::is_signed<T>::value) v.push_back(T(U(0) - u));
        }
    U p = 1;
    for (int k = 0; k < 19; ++k) { v.push_back(T(p)); v.push_back(T(p - 1)); v.push_back(T(U(0) - p)); if (p > U(-1) / 10) break; p = U(p * 10); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template <typename T> static std::vector<T> reals(int step)
{
    // every exponent (by step) with mantissas that need 1..all digits
    std::vector<T> v = {T(0), T(-0.0)};
    int lo = std::numeric_limits<T>::min_exponent, hi = std::numeric_limits<T>::max_exponent;
    std::vector<T> man = {T(0.5), T(0.6), T(0.7853981633974483), T(1) / T(3) * T(2), T(1) - std::numeric_limits<T>::epsilon() / 2,
                          T(0.5) + std::numeric_limits<T>::epsilon() / 2, T(0.9), T(0.512345)};
    for (int e = lo; e <= hi; e += step) for (T m : man) { T x = std::ldexp(m, e); if (std::isfinite(x) && x != 0) { v.push_back(x); v.push_back(-x); } }
    for (T x : {std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::denorm_min() * 3, std::numeric_limits<T>::min() / 2, std::numeric_limits<T>::min() / 7, T(0.1), T(1.5), T(3.14159265358979), T(100), T(123456), T(1234567), T(123456789), T(1e15), T(1e16), T(1e20), T(1e21), T(0.001), T(0.0001), T(0.00001)}) { v.push_back(x); v.push_back(-x); }
    v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::lowest()); v.push_back(std::numeric_limits<T>::min());
    return v;
}

template <typename T> static void run_numbers(std::vector<T> const& vals)
{
    std::string key = mc::pick_from(keys), comment = mc::pick_from(comments);
    T v = vals[mc::pick(int(vals.size()))];
    mc::log("create_card(", key, ", ", v, ", ", mc::show(comment), ")");
    number<T>(v, key, comment);
}
SCENARIO("int cards") { static auto v = ints<int>(); run_numbers<int>(v); }
SCENARIO("unsigned cards") { static auto v = ints<unsigned>(); run_numbers<unsigned>(v); }
SCENARIO("long long cards") { static auto v = ints<long long>(); run_numbers<long long>(v); }
SCENARIO("size_t cards") { static auto v = ints<std::size_t>(); run_numbers<std::size_t>(v); }
SCENARIO("float cards") { static auto v = reals<float>(mc::thorough() ? 1 : 2); run_numbers<float>(v); }
SCENARIO("double cards") { static auto v = reals<double>(mc::thorough() ? 1 : 16); run_numbers<double>(v); }
SCENARIO("every small integer")
{
    int hi = mc::pick(64);
    std::string key = mc::pick(2) ? "N" : "COUNT";
    int n = mc::thorough() ? 4096 : 256;
    for (int lo = 0; lo < n; ++lo) number<int>((hi - 32) * n + lo, key, "");
    mc::steps(n);
}

SCENARIO("logical cards")
{
    mc::split(1);
    std::string key = mc::pick_from(keys), comment = mc::pick_from(comments);
    bool v = mc::flip();
    card_t c; c.create_card(key, v, comment);
    common(c, key, comment);
    std::string raw = c.raw_card();
    mc::check(raw[29] == (v ? 'T' : 'F'), "logical value is not in column 30: ", mc::show(raw));
    mc::check(c.value<bool>() == v, "logical value differs: ", mc::show(raw));
    mc::check(card_t(raw).value<bool>() == v, "logical value read back differs: ", mc::show(raw));
    mc::check(gen::parse_card(raw).value == (v ? "T" : "F"), "logical text: ", mc::show(raw));
}

template <typename T> static void run_complex(std::vector<T> const& v)
{
    std::string key = mc::pick_from(keys); std::string comment = mc::pick(2) ? "cpl" : "";
    T re = v[mc::pick(int(v.size()))], im = v[mc::pick(int(v.size()))];
    mc::log("create_card(", key, ", (", re, ",", im, "), ", comment, ")");
    std::complex<T> z(re, im);
    card_t c; c.create_card(key, z, comment);
    common(c, key, comment);
    mc::check(same(c.template value<std::complex<T>>(), z), "complex (", re, ",", im, ") differs: ", mc::show(c.raw_card()));
    card_t d{std::string(c.raw_card())};
    mc::check(same(d.template value<std::complex<T>>(), z), "complex (", re, ",", im, ") read back differs: ", mc::show(c.raw_card()));
}
SCENARIO("complex<int> cards") { run_complex<int>({0, 1, -1, 7, 42, -99999, 2147483647, -2147483647 - 1}); }
SCENARIO("complex<size_t> cards") { run_complex<std::size_t>({0, 1, 9, 123456789, std::size_t(-1)}); }
SCENARIO("complex<float> cards") { run_complex<float>({0.f, -0.f, 1.f, -0.5f, -1.5f, 3.1415927f, 1e-20f, -3.4e38f, 0.1f}); }
SCENARIO("complex<double> cards") { run_complex<double>({0., -0., 1., -0.5, -1.5, 3.141592653589793, 1e-200, -1.7976931348623157e308, 0.1, 2.2250738585072014e-308}); }

static void text_value(std::string const& v, std::string const& key, std::string const& comment)
{
    std::string quoted = gen::quote(v);
    bool fits = quoted.size() + (comment.empty() ? 0 : comment.size() + 2) <= 70;
    for (int how = 0; how < 5; ++how)
    {
        card_t c;
        if (how > 2) { if (!comment.empty()) continue; c.create_card(key, 1, "n"); }
        std::string t = mc::thrown([&] { if (how == 1) c = card_t(key, v, comment); else if (how == 2) c.create_card(key, v.c_str(), comment); else if (how == 3) c.set_value(v); else if (how == 4) c.set_value(v.c_str()); else c.create_card(key, v, comment); });
        if (!fits)
        {
            mc::check(t.find("invalid_card") != std::string::npos, "text too long for a card was not refused (", t, "): ", mc::show(v));
            continue;
        }
        mc::check(t.empty(), "create_card threw ", t, " for ", mc::show(v));
        common(c, key, comment);
        gen::parsed_card p = gen::parse_card(c.raw_card());
        mc::check(p.is_string && c.raw_card()[10] == '\'', "text is not quoted at column 11: ", mc::show(c.raw_card()));
        mc::check(gen::rtrim(p.value) == gen::rtrim(v), "text in ", mc::show(c.raw_card()), " is not ", mc::show(v));
        mc::check(c.value<std::string>() == gen::rtrim(v), "value() is ", mc::show(c.value<std::string>()), " instead of ", mc::show(gen::rtrim(v)));
        card_t d{std::string(c.raw_card())};
        mc::check(d.value<std::string>() == gen::rtrim(v), "value read back from ", mc::show(c.raw_card()), " is ", mc::show(d.value<std::string>()));
    }
}
SCENARIO("text cards: all short strings")
{
    static std::string const alpha = "a '/=9";
    int maxlen = mc::thorough() ? 5 : 4;
    int len = mc::pick(maxlen + 1);
    std::string v;
    for (int k = 0; k < len; ++k) v += alpha[mc::pick(int(alpha.size()))];
    std::string comment = comments[mc::pick(3)];
    mc::log("create_card(KEY, ", mc::show(v), ", ", mc::show(comment), ")");
    text_value(v, "KEY", comment);
}
SCENARIO("text cards: every printable character at every place")
{
    int ch = 32 + mc::pick(95);
    int len = 1 + mc::pick(12);
    int at = mc::pick(len);
    std::string v(len, 'x'); v[at] = char(ch);
    text_value(v, "K2", "");
    text_value(v, "K2", "note");
}
SCENARIO("text cards: every length of value and comment")
{
    int len = mc::pick(76), clen = mc::pick(76);
    int special = mc::pick(4); // none, quote first, quote last, slash last
    std::string v(len, 'v');
    if (len && special == 1) v[0] = '\'';
    if (len && special == 2) v[len - 1] = '\'';
    if (len && special == 3) v[len - 1] = '/';
    text_value(v, "LENGTH", std::string(clen, 'c'));
}
SCENARIO("commentary cards")
{
    static std::vector<std::string> const ck = {"COMMENT", "HISTORY", ""};
    static std::vector<std::string> const shapes = {"x", "a / b", "'quoted' text", "k = 5", "= 5"};
    std::string key = mc::pick_from(ck);
    int len = mc::pick(75);
    std::string shape = mc::pick_from(shapes);
    std::string text = shape.substr(0, len);
    while (int(text.size()) < len) text += 'x';
    card_t c;
    std::string t = mc::thrown([&] { c.create_commentary_card(key, text); });
    if (len > 71) { mc::check(t.find("invalid_card") != std::string::npos, "text of ", len, " characters not refused: ", t); return; }
    // the columns 9-10 of a commentary card must not look like a value indicator
    mc::check(t.empty(), "create_commentary_card threw ", t, " for ", len, " characters");
    std::string raw = c.raw_card();
    mc::state(raw);
    mc::check(raw.size() == 80, "commentary card has ", raw.size(), " characters");
    mc::check(c.keyword() == key, "keyword of ", mc::show(raw));
    mc::check(gen::parse_card(raw).text == gen::trim(text), "text of ", mc::show(raw), " is not ", mc::show(text));
    mc::check(c.value<std::string>() == gen::trim(text), "value() of ", mc::show(raw), " is ", mc::show(c.value<std::string>()));
    card_t d(raw);
    mc::check(d.value<std::string>() == gen::trim(text) && d.keyword() == key, "commentary card read back differs: ", mc::show(raw));
}
SCENARIO("free-format cards written by others")
{
    // value anywhere in columns 11-80, with and without comment
    static std::vector<std::pair<std::string, double>> const vals = {{"1", 1}, {"-17", -17}, {"+5", 5}, {"3.5", 3.5}, {"1.5E3", 1500}, {"1.5D3", 1500}, {"-2.5D-2", -0.025}, {"0.1", 0.1}};
    auto v = mc::pick_from(vals);
    int col = 10 + mc::pick(51);
    std::string comment = mc::pick_from(comments);
    std::string raw = "FREE    = ";
    raw += std::string(col - 10, ' ') + v.first;
    if (!comment.empty()) raw += std::string(mc::pick(2), ' ') + "/" + comment;
    if (raw.size() > 80) raw.resize(80);
    raw = gen::rpad(raw, 80);
    card_t c(raw);
    double got = c.value<double>();
    mc::check(got == v.second, "value of ", mc::show(raw), " is ", got);
    mc::check(c.value<std::string>() == v.first, "text of ", mc::show(raw), " is ", mc::show(c.value<std::string>()));
    mc::state(raw);
}
SCENARIO("free-format text, logical and complex cards written by others")
{
    static std::vector<std::string> const texts = {"", " ", "a", " a", "a ", "  a b  ", "a/b", "/", "it's", "'", "''", "x'/'y", "T", "1.5", "= ", "/ '"};
    int kind = mc::pick(3), col = 10 + mc::pick(mc::thorough() ? 60 : 40), gap = mc::pick(3);
    std::string comment = mc::pick_from(comments);
    std::string raw = "FREE    = " + std::string(std::size_t(col) - 10, ' ');
    std::string text; bool yes = false; std::complex<double> z;
    if (kind == 0) { text = mc::pick_from(texts); raw += gen::quote(text); }
    else if (kind == 1) { yes = mc::flip(); raw += yes ? "T" : "F"; }
    else { static std::vector<std::pair<std::string, std::complex<double>>> const zs = {{"1 2", {1, 2}}, {"-1.5E2   0.25", {-150, 0.25}}, {"0.1 -2D1", {0.1, -20}}, {"7  -0.5", {7, -0.5}}};
           auto const& p = mc::pick_from(zs); raw += p.first; z = p.second; }
    if (raw.size() > 80) return;
    if (!comment.empty()) raw += std::string(std::size_t(gap), ' ') + "/" + comment;
    if (raw.size() > 80) raw.resize(80);
    raw = gen::rpad(raw, 80);
    card_t c(raw); mc::state(raw);
    for (int again = 0; again < 2; ++again)
    {
        if (kind == 0) mc::check(c.value<std::string>() == gen::rtrim(text), "text of ", mc::show(raw), " is ", mc::show(c.value<std::string>()), " instead of ", mc::show(text));
        else if (kind == 1) mc::check(c.value<bool>() == yes, "logical value of ", mc::show(raw), " is wrong");
        else mc::check(c.value<std::complex<double>>() == z, "complex value of ", mc::show(raw), " is wrong");
        mc::check(c.raw_card() == raw && c.keyword() == "FREE", "reading changed the card");
    }
}

SCENARIO("every keyword character at every place of a keyword")
{
    // also blanks inside, which old files have
    int n = 1 + mc::pick(8), at = mc::pick(n); 
    for (char ch : std::string(" -_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
    {
        std::string key; for (int k = 0; k < n; ++k) key += char('A' + k); key[std::size_t(at)] = ch;
        if (key[0] == ' ' || key.back() == ' ') continue;
        number<int>(at * 1000 + n, key, "c");
        card_t c(gen::rpad(key, 8) + "= 'text'             / comment");
        mc::check(c.keyword() == key && c.value<std::string>() == "text", "the card ", mc::show(key), " gives ", mc::show(c.keyword()));
        mc::steps(1);
    }
    mc::state(mc::str(n, ' ', at));
}
