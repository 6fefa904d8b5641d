// C05: exactly the conforming cards are accepted, all others are refused with
// invalid_card (and with nothing else).
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
#include "numbers.hpp"
using namespace numbers;
using namespace boost::astronomy::io;
typedef card<card_policy> card_t;

static bool refused(std::string const& t) { return t.find("invalid_card") != std::string::npos || t.find("invalid_key_length") != std::string::npos || t.find("invalid_value_length") != std::string::npos; }

// +1 must be accepted, -1 must be refused, 0 either
static int expected(std::string const& s)
{
    if (s.size() > 80) return -1;
    if (s.size() >= 10 && s.compare(8, 2, "= ") == 0) return 1;
    std::string key8 = gen::rpad(s.substr(0, 8), 8);
    std::string key = gen::trim(key8);
    if (key8[0] != ' ' && (key == "COMMENT" || key == "HISTORY" || key == "END")) return 1;
    if (s.size() >= 8 && key8 == "        ") return 1;
    if (key.empty()) return 0;                                      // fewer than 8 blanks
    std::string key7 = gen::trim(s.substr(0, 7));
    if (key7 == "COMMENT" || key7 == "HISTORY" || key7 == "END") return 0;
    return -1;
}
static void try_text(std::string const& s)
{
    card_t c; std::string t = mc::thrown([&] { c = card_t(s); });
    int e = expected(s);
    mc::state(s);
    if (e > 0)
    {
        mc::check(t.empty(), "conforming card refused (", t, "): ", mc::show(s));
        mc::check(c.raw_card() == gen::rpad(s, 80), "card text changed: ", mc::show(c.raw_card()));
        mc::check(c.keyword() == gen::trim(gen::rpad(s, 80).substr(0, 8)), "keyword of ", mc::show(s), " is ", mc::show(c.keyword()));
    }
    else if (e < 0) mc::check(refused(t), "card that does not conform ", t.empty() ? "was accepted" : "threw " + t, ": ", mc::show(s));
    else mc::check(t.empty() || refused(t), "unexpected exception ", t, " for ", mc::show(s));
}
SCENARIO("text: keyword, separator, rest, length")
{
    static std::vector<std::string> const keys = {"", "K", "KEY", "KEYWORD", "KEYWORD8", "COMMENT", "HISTORY", "END", "CONTINUE", "HISTORYS", "ENDX", "comment", "SIMPLE"};
    static std::vector<std::string> const seps = {"= ", "==", " =", "  ", "=1", "=", " ", "", "-=", ": "};
    static std::vector<std::string> const rest = {"", "1", "'a'", "T / c", "     x"};
    std::string s = gen::rpad(mc::pick_from(keys), 8);
    if (mc::flip()) s = gen::trim(s);      // not padded: the separator is at another column
    s += mc::pick_from(seps);
    s += mc::pick_from(rest);
    int len = mc::pick(4);
    if (len == 1) s = gen::rpad(s, 80);
    if (len == 2) s = gen::rpad(s, 81);
    if (len == 3) s = gen::rpad(s, 79) + "x";
    mc::log("card(", mc::show(s), ")");
    try_text(s);
}
SCENARIO("text: every length of every shape")
{
    static std::vector<std::string> const shapes = {"KEYWORD8= 12345678901234567890 / comment and more comment text to fill the card up to its end and further on",
        "COMMENT this is free text that goes on and on until the end of the card and further on than that, and on",
        "HISTORY = looks like a value ............................................................................",
        "END                                                                                                      ",
        "                  free text below a blank keyword                                                        ",
        "NOVALUE  something without a value indicator that has to be refused whatever its length is ..............",
        "KEYWORD8=1 the blank after the equals sign is missing....................................................",
        "LONGKEYWORD= 1                                                                                           "};
    std::string s = mc::pick_from(shapes);
    int len = mc::pick(int(s.size()) + 1);
    try_text(s.substr(0, len));
}
SCENARIO("text: every pair of characters at columns 9 and 10")
{
    int a = 32 + mc::pick(95), b = 32 + mc::pick(95);
    for (int k = 0; k < 2; ++k)
        try_text(gen::rpad(std::string(k ? "SHORT   " : "KEYWORD8") + char(a) + char(b) + "1", 80));
}
SCENARIO("text: every prefix of the reserved keywords")
{
    static std::vector<std::string> const keys = {"COMMENT ", "HISTORY ", "END     "};
    std::string k = mc::pick_from(keys);
    int at = mc::pick(8); int ch = 32 + mc::pick(95);
    k[at] = char(ch);
    try_text(k + " some text");
}
SCENARIO("built cards: every length of keyword, value and comment")
{
    int klen = mc::pick(12), vlen = mc::pick(74);
    static std::vector<int> const cl = {0, 1, 2, 10, 30, 46, 47, 48, 49, 66, 67, 68, 69, 70, 80};
    int clen = mc::pick_from(cl);
    std::string key(klen, 'K'), value(vlen, 'v'), comment(clen, 'c');
    std::size_t need = std::size_t(vlen) + 2 + (clen ? clen + 2 : 0);
    bool ok = klen <= 8 && need <= 70;
    card_t c; c.create_card("OLD", 5);
    std::string t = mc::thrown([&] { c.create_card(key, value, comment); });
    mc::state(mc::str(klen, ",", vlen, ",", clen));
    if (ok)
    {
        mc::check(t.empty(), "card with keyword, value, comment of ", klen, ",", vlen, ",", clen, " characters refused: ", t);
        mc::check(c.raw_card().size() == 80, "card has ", c.raw_card().size(), " characters");
        mc::check(c.value<std::string>() == value, "value differs");
        mc::check(expected(c.raw_card()) >= 0, "built card does not conform");
    }
    else
    {
        mc::check(refused(t), "card with keyword, value, comment of ", klen, ",", vlen, ",", clen, " characters ", t.empty() ? "accepted" : "threw " + t);
        mc::check(c.keyword() == "OLD" && c.value<int>() == 5, "refused update changed the card");
    }
    std::string t2 = mc::thrown([&] { card_t d(key, value, comment); });
    mc::check(t2.empty() == ok && (ok || refused(t2)), "constructor disagrees: ", t2);
}
SCENARIO("built commentary cards: every length of keyword and text")
{
    int klen = mc::pick(12), vlen = mc::pick(90);
    std::string key(klen, 'K'), text(vlen, 'v');
    card_t c; c.create_card("OLD", 5);
    std::string t = mc::thrown([&] { c.create_commentary_card(key, text); });
    mc::state(mc::str(klen, ",", vlen));
    if (klen > 8 || vlen > 72)
    {
        mc::check(refused(t), "commentary card with ", klen, ",", vlen, " characters ", t.empty() ? "accepted" : "threw " + t);
        mc::check(c.keyword() == "OLD" && c.value<int>() == 5, "refused update changed the card");
    }
    else if (!t.empty() && vlen > 70) mc::check(refused(t) && c.keyword() == "OLD" && c.value<int>() == 5, "commentary card with ", klen, ",", vlen, " characters threw ", t);
    else if (vlen <= 70)
    {
        mc::check(t.empty(), "commentary card with ", klen, ",", vlen, " characters refused: ", t);
        mc::check(c.raw_card().size() == 80, "card has ", c.raw_card().size(), " characters");
        mc::check(c.value<std::string>() == text, "text differs");
    }
}
SCENARIO("value cast errors")
{
    // text that is no value of the type asked for is refused with invalid_cast
    static std::vector<std::string> const vals = {"abc", "1x", "1.5.2", "--1", "TT", "t", "1 2 3x", "'12'", "0x10", "1e", ".", "-"};
    std::string v = mc::pick_from(vals);
    card_t c(gen::raw_card("K", gen::lpad(v, 20)));
    int ty = mc::pick(4);
    std::string t = mc::thrown([&] {
        if (ty == 0) c.value<int>(); if (ty == 1) c.value<double>(); if (ty == 2) c.value<bool>(); if (ty == 3) c.value<std::size_t>(); });
    mc::state(v + char('0' + ty));
    mc::check(t.find("invalid_cast") != std::string::npos, "value ", mc::show(v), " read as type ", ty, t.empty() ? " was accepted" : " threw " + t);
}

template <typename T> static void number_of(card_t const& c, std::string const& t, char const* type)
{
    T want{}; bool ok = !t.empty() && denotes(t, want, std::is_integral<T>());
    T got{}; std::string th = mc::thrown([&] { got = c.value<T>(); });
    if (!std::is_integral<T>::value && !t.empty() && is_real(t) == -1 && th.find("invalid_cast") != std::string::npos) return;
    if (!std::is_integral<T>::value && !t.empty() && is_real(t) == -1) { std::string u = t; for (char& ch : u) if (ch == 'd') ch = 'E'; denotes(u, want, std::false_type()); ok = true; want = std::is_same<T, float>::value ? T(std::strtof(u.c_str(), nullptr)) : T(std::strtod(u.c_str(), nullptr)); }
    if (ok && !std::is_integral<T>::value && (double(want) > 1e300 || double(want) < -1e300 || std::fabs(double(want)) == HUGE_VAL)) { mc::check(!th.empty() || got == want, "\"", t, "\" read as ", type, " is ", got); return; }
    if (ok) mc::check(th.empty() && got == want, "\"", t, "\" read as ", type, th.empty() ? mc::str(" is ", got, " instead of ", want) : " threw " + th);
    else mc::check(th.find("invalid_cast") != std::string::npos, "\"", t, "\" is no ", type, " but reading it as one ", th.empty() ? mc::str("gives ", got) : "threw " + th);
}
template <typename T> static void complex_of(card_t const& c, std::string const& t, char const* type)
{
    std::size_t at = t.find(' ');
    T re{}, im{}; bool ok = at != std::string::npos; int other = 0;
    if (ok)
    {
        std::string a = t.substr(0, at), b = gen::trim(t.substr(at));
        ok = denotes(a, re, std::is_integral<T>()) && denotes(b, im, std::is_integral<T>());
        if (!std::is_integral<T>::value && (is_real(a) == -1 || is_real(b) == -1)) other = 1;
        if (ok && (std::fabs(double(re)) == HUGE_VAL || std::fabs(double(im)) == HUGE_VAL)) other = 1;   // beyond the type
    }
    std::complex<T> got; std::string th = mc::thrown([&] { got = c.value<std::complex<T>>(); });
    if (other) return;
    if (ok) mc::check(th.empty() && got.real() == re && got.imag() == im, "\"", t, "\" read as complex ", type, th.empty() ? mc::str(" is ", got.real(), ", ", got.imag()) : " threw " + th);
    else mc::check(th.find("invalid_cast") != std::string::npos, "\"", t, "\" is no complex ", type, " but reading it as one ", th.empty() ? mc::str("gives ", got.real(), ", ", got.imag()) : "threw " + th);
}
static void every_type(std::string const& text)
{
    card_t c(gen::raw_card("K", text)); std::string t = gen::trim(text);
    number_of<int>(c, t, "int"); number_of<unsigned>(c, t, "unsigned int"); number_of<long long>(c, t, "long long"); number_of<std::size_t>(c, t, "size_t");
    number_of<float>(c, t, "float"); number_of<double>(c, t, "double");
    complex_of<int>(c, t, "int"); complex_of<std::size_t>(c, t, "size_t"); complex_of<float>(c, t, "float"); complex_of<double>(c, t, "double");
    bool b = false; std::string th = mc::thrown([&] { b = c.value<bool>(); });
    if (t == "T" || t == "F") mc::check(th.empty() && b == (t == "T"), "\"", t, "\" read as logical ", th.empty() ? "is the other value" : "threw " + th);
    else mc::check(th.find("invalid_cast") != std::string::npos, "\"", t, "\" is no logical but reading it as one ", th.empty() ? "is possible" : "threw " + th);
    std::string s = c.value<std::string>();
    mc::check(s == t, "\"", t, "\" read as text is \"", s, "\"");
}
SCENARIO("every short text read as every type")
{
    static char const alphabet[] = " +-.0159EDedTFxA,(";
    int const n = int(sizeof alphabet) - 1, length = mc::thorough() ? 5 : 4;
    int first = mc::pick(n), second = mc::pick(n), third = mc::pick(n);
    std::string t(1, alphabet[first]); t += alphabet[second]; t += alphabet[third];
    int rest = 1; for (int k = 3; k < length; ++k) rest *= n;
    mc::state(t);
    for (int r = 0; r < rest; ++r)
    {
        std::string u = t; int x = r;
        for (int k = 3; k < length; ++k) { u += alphabet[x % n]; x /= n; }
        every_type(u);
    }
}
SCENARIO("numbers at the limits of every type")
{
    static std::vector<std::string> const around = {"0", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "16777216", "16777217", "9007199254740993",
        "3.4028235E38", "3.5E38", "1.17549435E-38", "1.0E-45", "1.0E-50", "1.7976931348623157E308", "1.8E308", "4.9406564584124654E-324", "1.0E-330", "2.2250738585072014D-308", "00000000000000000000000000000001", "1.00000000000000000000000000000000000001", "1.0E0000000001", "0.1", "0.3", "123456789.123456789"};
    std::string t = mc::pick_from(around); int sign = mc::pick(3), form = mc::pick(3);
    if (sign) t = (sign == 1 ? "-" : "+") + t;
    mc::state(mc::str(t, form));
    if (t.size() > 30 && form == 2) form = 1;
    if (form == 0) every_type(gen::lpad(t, 20)); else if (form == 1) every_type(t); else every_type(gen::lpad(t, 20) + " " + gen::lpad(t, 20));
}
