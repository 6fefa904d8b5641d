// C04: whatever sequence of builds, updates, typed reads and copies a card goes
// through, it answers with the value last given to it.
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
using namespace boost::astronomy::io;
typedef card<card_policy> card_t;

// model: the keyword and the value that was last written
enum kind { EMPTY, INT, REAL, LOGICAL, TEXT, CPLX, COMMENTARY };
struct model
{
    kind k = EMPTY; std::string key; long long i = 0; double d = 0; bool b = false; std::string s, comment; double re = 0, im = 0;
    std::uint64_t hash() const { return mc::hash_str(mc::str(int(k), "|", key, "|", i, "|", d, "|", b, "|", s, "|", comment, "|", re, "|", im)); }
};

template <typename T> static std::string read(card_t const& c, T& out)
{
    return mc::thrown([&] { out = c.template value<T>(); });
}
static bool is_cast_error(std::string const& t) { return t.find("invalid_cast") != std::string::npos; }

template <typename T> static void expect_value(card_t const& c, bool convertible, T want, char const* type)
{
    T got{}; std::string t = read<T>(c, got);
    if (convertible) mc::check(t.empty() && got == want, "value<", type, ">() ", t.empty() ? "is not the value last written" : "threw " + t);
    else mc::check(is_cast_error(t), "value<", type, ">() of a card that holds no such value ", t.empty() ? std::string("returned one") : "threw " + t);
}

static void read_as(card_t const& c, model const& m, int type)
{
    switch (type)
    {
    case 0: expect_value<int>(c, m.k == INT, int(m.i), "int"); break;
    case 1: expect_value<double>(c, m.k == INT || m.k == REAL, m.k == INT ? double(m.i) : m.d, "double"); break;
    case 2: expect_value<bool>(c, m.k == LOGICAL, m.b, "bool"); break;
    case 3:
        if (m.k == TEXT || m.k == COMMENTARY) expect_value<std::string>(c, true, m.s, "string");
        else if (m.k == INT) expect_value<std::string>(c, true, std::to_string(m.i), "string");
        else if (m.k == LOGICAL) expect_value<std::string>(c, true, m.b ? "T" : "F", "string");
        else { std::string s; std::string t = read<std::string>(c, s); mc::check(t.empty(), "value<string>() threw ", t);
               if (m.k == REAL) mc::check(std::strtod(s.c_str(), nullptr) == m.d, "value<string>() is ", s, " for ", m.d); }
        break;
    case 4: expect_value<long long>(c, m.k == INT, m.i, "long long"); break;
    case 5: expect_value<float>(c, m.k == INT || m.k == REAL, m.k == INT ? float(m.i) : float(m.d), "float"); break;
    case 6: expect_value<std::complex<double>>(c, m.k == CPLX, std::complex<double>(m.re, m.im), "complex<double>"); break;
    case 7: expect_value<std::complex<float>>(c, m.k == CPLX, std::complex<float>(float(m.re), float(m.im)), "complex<float>"); break;
    case 8: if (m.k == INT && m.i < 0) break; expect_value<std::size_t>(c, m.k == INT, std::size_t(m.i), "size_t"); break;
    case 9: if (m.k == INT && m.i < 0) break; expect_value<unsigned>(c, m.k == INT, unsigned(m.i), "unsigned"); break;
    }
}
static int const n_types = 10;

static void agree(card_t& c, model const& m)
{
    if (m.k == EMPTY) { mc::check(c.raw_card().empty(), "an empty card is not empty"); return; }
    std::string raw = c.raw_card();
    mc::check(raw.size() == 80, "card has ", raw.size(), " characters");
    mc::check(c.keyword() == m.key, "keyword is ", c.keyword(), " instead of ", m.key);
    gen::parsed_card p = gen::parse_card(raw);
    mc::check(p.comment == m.comment, "comment in ", mc::show(raw), " is not ", mc::show(m.comment));
    switch (m.k)
    {
    case INT: mc::check(!p.is_string && p.value == std::to_string(m.i), "raw card ", mc::show(raw), " does not hold ", m.i); break;
    case REAL: mc::check(!p.is_string && std::strtod(p.value.c_str(), nullptr) == m.d, "raw card ", mc::show(raw), " does not hold ", m.d); break;
    case LOGICAL: mc::check(!p.is_string && p.value == (m.b ? "T" : "F"), "raw card ", mc::show(raw), " does not hold the logical"); break;
    case TEXT: mc::check(p.is_string && gen::trim(p.value) == m.s, "raw card ", mc::show(raw), " does not hold ", m.s); break;
    case COMMENTARY: mc::check(!p.has_value && p.text == m.s, "raw card ", mc::show(raw), " does not hold ", m.s); break;
    default: break;
    }
}

// one operation on card c with model m; v selects the value written
static int const n_writes = 16;
static std::string const long_a = "0123456789 the first fifty characters are the same a", long_b = "0123456789 the first fifty characters are the same b";
static void write_op(card_t& c, model& m, int op)
{
    model n = m; std::string t;
    switch (op)
    {
    case 0: t = mc::thrown([&] { c.create_card("IVAL", 42, "c1"); }); n = model(); n.k = INT; n.key = "IVAL"; n.i = 42; n.comment = "c1"; break;
    case 1: t = mc::thrown([&] { c.create_card("DVAL", 2.5); }); n = model(); n.k = REAL; n.key = "DVAL"; n.d = 2.5; break;
    case 2: t = mc::thrown([&] { c.create_card("BVAL", true); }); n = model(); n.k = LOGICAL; n.key = "BVAL"; n.b = true; break;
    case 3: t = mc::thrown([&] { c.create_card("SVAL", std::string("it's a/b"), "note"); }); n = model(); n.k = TEXT; n.key = "SVAL"; n.s = "it's a/b"; n.comment = "note"; break;
    case 4: t = mc::thrown([&] { c.create_card("ZVAL", std::complex<double>(1.5, -2)); }); n = model(); n.k = CPLX; n.key = "ZVAL"; n.re = 1.5; n.im = -2; break;
    case 5: t = mc::thrown([&] { c.create_commentary_card("COMMENT", "free text / here"); }); n = model(); n.k = COMMENTARY; n.key = "COMMENT"; n.s = "free text / here"; break;
    // refused: nothing changes
    case 6: t = mc::thrown([&] { c.create_card("TOOLONGKEY", 1); }); mc::check(t.find("invalid_card") != std::string::npos, "keyword of 10 characters not refused: ", t); return;
    case 7: t = mc::thrown([&] { c.create_card("K", std::string(75, 'x')); }); mc::check(t.find("invalid_card") != std::string::npos, "too long value not refused: ", t); return;
    case 12: t = mc::thrown([&] { c.create_card("SVAL", long_a); }); n = model(); n.k = TEXT; n.key = "SVAL"; n.s = long_a; break;
    case 8: case 9: case 10: case 11: case 13: case 14: case 15: // set_value keeps the keyword
    {
        if (m.k == EMPTY) throw mc::prune();
        std::string key = m.key; n = model(); n.key = key;
        if (op == 8) { t = mc::thrown([&] { c.set_value(-7); }); n.k = INT; n.i = -7; }
        if (op == 9) { t = mc::thrown([&] { c.set_value(std::string("7")); }); n.k = TEXT; n.s = "7"; }
        if (op == 10) { t = mc::thrown([&] { c.set_value(false); }); n.k = LOGICAL; n.b = false; }
        if (op == 13) { t = mc::thrown([&] { c.set_value(long_b); }); n.k = TEXT; n.s = long_b; }
        if (op == 14) { t = mc::thrown([&] { c.set_value(0.30000000000000004); }); n.k = REAL; n.d = 0.30000000000000004; }
        if (op == 15) { t = mc::thrown([&] { c.set_value(0.3); }); n.k = REAL; n.d = 0.3; }
        if (op == 11)
        {
            t = mc::thrown([&] { c.set_value(std::string(71, 'y')); });
            mc::check(t.find("invalid_card") != std::string::npos, "too long value not refused by set_value: ", t); return;
        }
        break;
    }
    }
    mc::check(t.empty(), "operation ", op, " threw ", t);
    m = n;
}

static void history(int depth)
{
    card_t c[2]; model m[2];
    for (int step = 0; step < depth; ++step)
    {
        int op = mc::pick(n_writes + n_types + 2);
        mc::log("op ", op);
        if (op < n_writes) write_op(c[0], m[0], op);
        else if (op < n_writes + n_types) { if (m[0].k == EMPTY) throw mc::prune(); read_as(c[0], m[0], op - n_writes); }
        else if (op == n_writes + n_types) { if (m[0].k == EMPTY) throw mc::prune(); c[1] = c[0]; m[1] = m[0]; }      // copy
        else { std::swap(c[0], c[1]); std::swap(m[0], m[1]); }
        mc::state(mc::mix(m[0].hash(), m[1].hash()));
        agree(c[0], m[0]); agree(c[1], m[1]);
    }
    for (int w = 0; w < 2; ++w) if (m[w].k != EMPTY)
        for (int t = 0; t < n_types; ++t) read_as(c[w], m[w], t);
}
SCENARIO("histories") { history(mc::thorough() ? 5 : 4); }
SCENARIO("cards parsed from text, then updated")
{
    static std::vector<std::pair<std::string, int>> const src = {
        {"IVAL    =                   42 /c1", 0}, {"SVAL    = 'it''s a/b' / note", 3}, {"COMMENT  free text / here", 5}, {"BVAL    =                    T", 2}, {"DVAL    = 2.5", 1}};
    auto s = mc::pick_from(src);
    model m; card_t dummy; write_op(dummy, m, s.second);
    card_t c(s.first);
    agree(c, m);
    for (int step = 0; step < (mc::thorough() ? 4 : 3); ++step)
    {
        int op = mc::pick(n_writes + n_types);
        if (op < n_writes) write_op(c, m, op); else read_as(c, m, op - n_writes);
        mc::state(m.hash());
        agree(c, m);
    }
    for (int t = 0; t < n_types; ++t) read_as(c, m, t);
}

// a card that has given its value and is then written again, with a text of every length
static std::string text_of(int n) { std::string s; for (int k = 0; k < n; ++k) s += char('a' + (k * 7 + n) % 26); return s; }
SCENARIO("written again with a text of every length after every typed read")
{
    int first = mc::pick(6), how = mc::pick(4), n = mc::pick(69);
    for (int type = 0; type < n_types; ++type)
    {
        card_t c; model m; write_op(c, m, first); read_as(c, m, type);
        std::string const v = text_of(n); model w; std::string t;
        switch (how)
        {
        case 0: t = mc::thrown([&] { c.create_commentary_card("HISTORY", v); }); w.k = COMMENTARY; w.key = "HISTORY"; w.s = v; break;
        case 1: t = mc::thrown([&] { c.create_card("SVAL", v); }); w.k = TEXT; w.key = "SVAL"; w.s = v; break;
        case 2: if (m.k == COMMENTARY) throw mc::prune(); t = mc::thrown([&] { c.set_value(v); }); w.k = TEXT; w.key = m.key; w.s = v; break;
        default: // the text of a number of n digits
        {
            std::string d; for (int k = 0; k < n % 18 + 1; ++k) d += char('1' + (k * 3 + n) % 9);
            w.k = INT; w.key = "NUM"; w.i = std::atoll(d.c_str()); w.comment = gen::trim(text_of(n % 40)); t = mc::thrown([&] { c.create_card("NUM", w.i, w.comment); });
        }
        }
        mc::check(t.empty(), "a text of ", n, " characters was refused: ", t);
        agree(c, w);
        if (w.k != INT || w.i <= 2147483647) { for (int k = 0; k < n_types; ++k) read_as(c, w, k); }
        else for (int k : {1, 3, 4, 5, 8}) read_as(c, w, k);
        mc::steps(n_types);
    }
    mc::state(mc::str(first, ' ', how, ' ', n));
}
SCENARIO("two cards with the same beginning, one after the other")
{
    // the second value differs from the first in one character only
    int n = 1 + mc::pick(66), at = mc::pick(n), how = mc::pick(3);
    std::string a = text_of(n), b = a; b[std::size_t(at)] = '%';
    card_t c; model m;
    auto put = [&](std::string const& v) {
        std::string t; m = model(); m.s = v;
        if (how == 0) { t = mc::thrown([&] { c.create_card("SVAL", v); }); m.k = TEXT; m.key = "SVAL"; }
        else if (how == 1) { t = mc::thrown([&] { c.create_commentary_card("COMMENT", v); }); m.k = COMMENTARY; m.key = "COMMENT"; }
        else { t = mc::thrown([&] { c.create_card("SVAL", v); c.set_value(v); }); m.k = TEXT; m.key = "SVAL"; }
        mc::check(t.empty(), "a text of ", n, " characters was refused: ", t); };
    put(a); read_as(c, m, 3); card_t old(c); model om = m;
    if (how == 2) { c.set_value(b); m.s = b; } else put(b);
    agree(c, m); read_as(c, m, 3); agree(old, om); read_as(old, om, 3);
    mc::state(mc::str(n, ' ', at, ' ', how));
}
