// C09: edits through column views change exactly the edited cells of exactly that table.
#include "files.hpp"
using namespace files;

// ---- binary ---------------------------------------------------------------
struct btab
{
    std::vector<std::vector<std::string>> cell; // bytes of row x column
    std::string heap;
    std::string data() const { std::string d; for (auto& r : cell) for (auto& c : r) d += c; return d + heap; }
};
static std::vector<gen::bin_col> const bcols = {{"1J", "NUM"}, {"3I", "VEC"}, {"4A", "TXT"}, {"1L", "FLAG"}, {"1D", "REAL"}, {"1C", "CPLX"}, {"1B", "BYTE"}};
static std::size_t const bw[] = {4, 6, 4, 1, 8, 8, 1};
static std::size_t const brow = 32;

static btab cut(std::string const& d, std::size_t rows)
{
    btab t;
    for (std::size_t r = 0; r < rows; ++r)
    {
        std::vector<std::string> v; std::size_t at = r * brow;
        for (std::size_t w : bw) { v.push_back(d.substr(at, w)); at += w; }
        v[3] = d[r * brow + 14] % 2 ? "T" : "F";
        t.cell.push_back(v);
    }
    t.heap = d.substr(rows * brow);
    return t;
}
// whether the cell has the length its format requires
static bool fits_format(btab const& t) { for (auto& r : t.cell) for (std::size_t c = 0; c < r.size(); ++c) if (r[c].size() != bw[c]) return false; return true; }

static void compare(binary_table& t, btab const& m, char const* who)
{
    auto const& d = t.get_data();
    mc::check(d.size() == m.cell.size(), who, " has ", d.size(), " rows");
    for (std::size_t r = 0; r < d.size(); ++r)
    {
        mc::check(d[r].size() == bcols.size(), who, " row ", r, " has ", d[r].size(), " fields");
        for (std::size_t c = 0; c < d[r].size(); ++c)
            mc::check(d[r][c] == m.cell[r][c], who, ": cell ", r, ",", bcols[c].name, " is ", mc::show(d[r][c]), " instead of ", mc::show(m.cell[r][c]));
    }
}
static void views(binary_table& t, btab const& m, char const* who)
{
    if (!fits_format(m)) return; // what a field of the wrong size reads as is not specified
    for (std::size_t r = 0; r < m.cell.size(); ++r)
    {
        auto const& c = m.cell[r];
        boost::int32_t n = t.get_column<boost::int32_t>("NUM")[int(r)];
        mc::check(n == gen::from_be<boost::int32_t>(c[0]), who, ": NUM of row ", r, " reads ", n);
        std::vector<boost::int16_t> v = t.get_column<std::vector<boost::int16_t>>("VEC")[int(r)];
        mc::check(v.size() * 2 == c[1].size(), who, ": VEC of row ", r, " has ", v.size(), " elements");
        for (std::size_t k = 0; k < v.size(); ++k) mc::check(v[k] == gen::from_be<boost::int16_t>(c[1], 2 * k), who, ": VEC element of row ", r);
        std::vector<char> s = t.get_column<std::vector<char>>("TXT")[int(r)];
        mc::check(std::string(s.begin(), s.end()) == c[2], who, ": TXT of row ", r, " reads ", mc::show(std::string(s.begin(), s.end())));
        bool f = t.get_column<bool>("FLAG")[int(r)];
        mc::check(f == (c[3] == "T"), who, ": FLAG of row ", r, " reads ", f);
        double x = t.get_column<double>("REAL")[int(r)], y = gen::from_be<double>(c[4]);
        mc::check(std::memcmp(&x, &y, 8) == 0, who, ": REAL of row ", r, " reads ", x);
        std::complex<float> z = t.get_column<std::complex<float>>("CPLX")[int(r)];
        float a = gen::from_be<float>(c[5]), b = gen::from_be<float>(c[5], 4), zr = z.real(), zi = z.imag();
        mc::check(!std::memcmp(&a, &zr, 4) && !std::memcmp(&b, &zi, 4), who, ": CPLX of row ", r);
        std::uint8_t u = t.get_column<std::uint8_t>("BYTE")[int(r)];
        mc::check(u == (unsigned char)c[6][0], who, ": BYTE of row ", r, " reads ", int(u));
    }
}
static void write_compare(binary_table& t, btab const& m, header_t h, char const* who)
{
    if (!fits_format(m))
    {
        std::string th = mc::thrown([&] { written(t); });
        mc::check(!th.empty(), who, ": a field of the wrong size was written");
        return;
    }
    std::string o = written(t);
    std::vector<gen::parsed_hdu> w; std::string why;
    if (!gen::parse_file(o, w, why)) mc::fail(who + std::string(": the written table is no FITS: ") + why);
    mc::check(w.size() == 1 && w[0].data == m.data(), who, ": the written data differ from the edited table");
    binary_table again(h, w[0].data); compare(again, m, "the table read back"); views(again, m, "the table read back");
}
static void edit(binary_table& t, btab& m, int what, std::size_t r)
{
    int R = int(r);
    switch (what)
    {
    case 0: t.get_column<boost::int32_t>("NUM")[R] = -5; m.cell[r][0] = gen::be<boost::int32_t>(-5); break;
    case 1: t.get_column<std::vector<boost::int16_t>>("VEC")[R] = std::vector<boost::int16_t>{1, -2, 300};
            m.cell[r][1] = gen::be<boost::int16_t>(1) + gen::be<boost::int16_t>(-2) + gen::be<boost::int16_t>(300); break;
    case 2: t.get_column<std::vector<char>>("TXT")[R] = std::vector<char>{' ', 'x', '\0', ' '}; m.cell[r][2] = std::string(" x\0 ", 4); break;
    case 3: t.get_column<bool>("FLAG")[R] = m.cell[r][3] != "T"; m.cell[r][3] = m.cell[r][3] == "T" ? "F" : "T"; break;
    case 4: t.get_column<double>("REAL")[R] = -0.0; m.cell[r][4] = gen::be(-0.0); break;
    case 5: t.get_column<std::complex<float>>("CPLX")[R] = std::complex<float>(1.5f, -2.5f); m.cell[r][5] = gen::be(1.5f) + gen::be(-2.5f); break;
    case 6: { auto& v = t.get_column<std::uint8_t>("BYTE"); std::size_t k = 0; for (auto it = v.begin(); it != v.end(); ++it, ++k) if (k == r) { auto p = *it; p = std::uint8_t(255); }
              m.cell[r][6] = "\xff"; break; }
    case 7: t.get_column<boost::int32_t>("NUM")[R] = 1 << 30; m.cell[r][0] = gen::be<boost::int32_t>(1 << 30); break;
    }
}
SCENARIO("every history of edits, copies and writes of a binary table")
{
    std::size_t const rows = 2;
    gen::header g = gen::bintable(bcols, (long long)brow, (long long)rows, 3);
    header_t h = make_header(g.bytes());
    btab m[2] = {cut(fill(rows * brow + 3, 0, brow), rows), cut(fill(rows * brow + 3, 3, brow), rows)};
    btab const origin[2] = {m[0], m[1]};
    binary_table t[2] = {binary_table(h, m[0].data()), binary_table(h, m[1].data())};
    bool warm = mc::flip(); // views used before
    if (warm) { views(t[0], m[0], "A"); views(t[1], m[1], "B"); }
    int depth = mc::thorough() ? 4 : 3; std::string trace = warm ? "w" : "c";
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::pick(21); trace += char('a' + op);
        if (op < 14) { int which = op % 2; int what = op / 2; edit(t[which], m[which], what, std::size_t(s % 2)); mc::log("edit ", what, " in ", which); }
        else if (op == 14) { t[1] = t[0]; m[1] = m[0]; mc::log("B = A"); }
        else if (op == 15) { binary_table c(t[0]); edit(c, m[1], 7, 0); compare(t[0], m[0], "A after editing a copy"); m[1] = m[0]; m[1].cell[0][0] = gen::be<boost::int32_t>(1 << 30); t[1] = c; mc::log("copy A, edit the copy, B = copy"); }
        else if (op == 16) { t[0].set_data(origin[1].data()); m[0] = origin[1]; mc::log("A.set_data"); }
        else if (op == 17) { write_compare(t[0], m[0], h, "A"); mc::log("write A"); }
        else if (op == 18) { std::swap(t[0], t[1]); std::swap(m[0], m[1]); mc::log("swap"); }
        else if (op == 19) { binary_table& self = t[0]; t[0] = self; mc::log("A = A"); }
        else if (op == 20) { t[0].get_column<std::vector<boost::int16_t>>("VEC")[0] = std::vector<boost::int16_t>{9}; m[0].cell[0][1] = gen::be<boost::int16_t>(9); mc::log("short array"); }
        compare(t[0], m[0], "A"); compare(t[1], m[1], "B");
        mc::state(mc::hash_str(m[0].data(), mc::hash_str(m[1].data())));
    }
    views(t[0], m[0], "A"); views(t[1], m[1], "B");
    write_compare(t[0], m[0], h, "A"); write_compare(t[1], m[1], h, "B");
    mc::state(trace);
}
// ---- ASCII ----------------------------------------------------------------
static std::vector<gen::asc_col> const acols = {{"A6", "NAME", 2}, {"I5", "NUM", 9}, {"F8.3", "X", 15}, {"D10.3", "Y", 23}};
static std::size_t const arow = 34;
typedef std::vector<std::vector<std::string>> atab;
static std::string adata(atab const& m)
{
    std::string d;
    for (auto const& r : m)
    {
        std::string line(arow, ' ');
        for (std::size_t c = 0; c < r.size(); ++c) line.replace(std::size_t(acols[c].tbcol) - 1, form_width(acols[c].form), gen::lpad(r[c], form_width(acols[c].form)));
        d += line;
    }
    return d;
}
static void compare(ascii_table& t, atab const& m, char const* who)
{
    auto const& d = t.get_data();
    mc::check(d.size() == m.size(), who, " has ", d.size(), " rows");
    for (std::size_t r = 0; r < d.size(); ++r) for (std::size_t c = 0; c < acols.size(); ++c)
        mc::check(gen::trim(d[r][c]) == m[r][c], who, ": cell ", r, ",", acols[c].name, " is ", mc::show(d[r][c]), " instead of ", mc::show(m[r][c]));
}
static void views(ascii_table& t, atab const& m, char const* who)
{
    for (std::size_t r = 0; r < m.size(); ++r)
    {
        std::string s = t.get_column<std::string>("NAME")[int(r)];
        mc::check(gen::trim(s) == m[r][0], who, ": NAME of row ", r, " reads ", mc::show(s));
        long long n = t.get_column<long long>("NUM")[int(r)];
        mc::check(n == std::atoll(m[r][1].c_str()), who, ": NUM of row ", r, " reads ", n);
        float x = t.get_column<float>("X")[int(r)];
        mc::check(x == std::strtof(m[r][2].c_str(), nullptr), who, ": X of row ", r, " reads ", x);
        double y = t.get_column<double>("Y")[int(r)];
        mc::check(y == std::strtod(m[r][3].c_str(), nullptr), who, ": Y of row ", r, " reads ", y);
    }
}
static void write_compare(ascii_table& t, atab const& m, header_t h, char const* who)
{
    for (auto const& r : m) for (std::size_t c = 0; c < r.size(); ++c) if (r[c].size() > form_width(acols[c].form))
    {
        mc::check(!mc::thrown([&] { written(t); }).empty(), who, ": a text that is too long for its field was written");
        return;
    }
    std::string o = written(t);
    std::vector<gen::parsed_hdu> w; std::string why;
    if (!gen::parse_file(o, w, why)) mc::fail(who + std::string(": the written table is no FITS: ") + why);
    mc::check(w.size() == 1 && w[0].data.size() == m.size() * arow, who, ": the written data have ", w[0].data.size(), " bytes");
    ascii_table again(h, w[0].data); compare(again, m, "the table read back"); views(again, m, "the table read back");
    for (std::size_t r = 0; r < m.size(); ++r) for (std::size_t c = 0; c < acols.size(); ++c)
        mc::check(gen::trim(w[0].data.substr(r * arow + std::size_t(acols[c].tbcol) - 1, form_width(acols[c].form))) == m[r][c], who, ": written cell ", r, ",", c);
}
static void edit(ascii_table& t, atab& m, int what, std::size_t r)
{
    int R = int(r);
    switch (what)
    {
    case 0: t.get_column<std::string>("NAME")[R] = std::string("abcdef"); m[r][0] = "abcdef"; break;
    case 1: t.get_column<std::string>("NAME")[R] = std::string(""); m[r][0] = ""; break;
    case 2: t.get_column<long long>("NUM")[R] = -1234ll; m[r][1] = "-1234"; break;
    case 3: t.get_column<float>("X")[R] = 2.5f; m[r][2] = "2.5"; break;
    case 4: t.get_column<double>("Y")[R] = -0.25; m[r][3] = "-0.25"; break;
    case 5: { auto& v = t.get_column<long long>("NUM"); std::size_t k = 0; for (auto it = v.begin(); it != v.end(); ++it, ++k) if (k == r) { auto p = *it; p = 7ll; } m[r][1] = "7"; break; }
    case 6: t.get_column<std::string>("NAME")[R] = std::string("toolong"); m[r][0] = "toolong"; break;
    }
}
SCENARIO("every history of edits, copies and writes of an ASCII table")
{
    gen::header g = gen::asciitable(acols, (long long)arow, 2);
    header_t h = make_header(g.bytes());
    atab const o0 = {{"one", "12", "1.5", "10.25"}, {"two", "-3", "0.125", "-7"}}, o1 = {{"x", "0", "0", "0.5"}, {"yy zz", "99999", "-4.75", "1e10"}};
    atab m[2] = {o0, o1};
    ascii_table t[2] = {ascii_table(h, adata(o0)), ascii_table(h, adata(o1))};
    bool warm = mc::flip();
    if (warm) { views(t[0], m[0], "A"); views(t[1], m[1], "B"); }
    int depth = mc::thorough() ? 4 : 3; std::string trace = warm ? "w" : "c";
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::pick(20); trace += char('a' + op);
        if (op < 14) { edit(t[op % 2], m[op % 2], op / 2, std::size_t(s % 2)); mc::log("edit ", op / 2, " in ", op % 2); }
        else if (op == 14) { t[1] = t[0]; m[1] = m[0]; mc::log("B = A"); }
        else if (op == 15) { ascii_table c(t[0]); atab k = m[0]; edit(c, k, 2, 1); compare(t[0], m[0], "A after editing a copy"); t[1] = c; m[1] = k; mc::log("copy A, edit the copy, B = copy"); }
        else if (op == 16) { t[0].set_data(adata(o1)); m[0] = o1; mc::log("A.set_data"); }
        else if (op == 17) { write_compare(t[0], m[0], h, "A"); mc::log("write A"); }
        else if (op == 18) { std::swap(t[0], t[1]); std::swap(m[0], m[1]); mc::log("swap"); }
        else { ascii_table& self = t[0]; t[0] = self; mc::log("A = A"); }
        compare(t[0], m[0], "A"); compare(t[1], m[1], "B");
        std::string all; for (auto* p : {&m[0], &m[1]}) for (auto& r : *p) for (auto& c : r) all += c + "|";
        mc::state(all);
    }
    views(t[0], m[0], "A"); views(t[1], m[1], "B");
    write_compare(t[0], m[0], h, "A"); write_compare(t[1], m[1], h, "B");
    mc::state(trace);
}
SCENARIO("edits of tables opened from a file reach the written file")
{
    std::vector<part> ps = {img(true, 8, {4}), bin(bcols, brow, 2, 3), ascii(acols, arow, 2)};
    std::string f; for (auto const& p : ps) f += p.bytes();
    gen::write_file("in.fits", f);
    auto r = fits::open("in.fits");
    btab m = cut(ps[1].data, 2); for (std::size_t k = 0; k < 2; ++k) m.cell[k][3] = ps[1].data.substr(k * brow + 14, 1);
    atab a; for (auto& row : fits::convert_to<ascii_table>(r[2]).get_data()) a.push_back(row);
    int n = 1 + mc::pick(3);
    for (int s = 0; s < n; ++s)
    {
        int op = mc::pick(13); std::size_t row = std::size_t(mc::pick(2));
        if (op < 7) edit(fits::convert_to<binary_table>(r[1]), m, op, row); else edit(fits::convert_to<ascii_table>(r[2]), a, op - 7, row);
    }
    r.write_to("out.fits");
    std::vector<gen::parsed_hdu> w; std::string why;
    if (!gen::parse_file(gen::read_file("out.fits"), w, why)) mc::fail("the written file is no FITS file: " + why);
    mc::check(w.size() == 3, "the written file has ", w.size(), " HDUs");
    same_hdu(ps[0], w[0], 0);
    mc::check(w[1].data == m.data(), "the written binary table differs from the edited one");
    for (std::size_t i = 0; i < 2; ++i) for (std::size_t c = 0; c < acols.size(); ++c)
        mc::check(gen::trim(w[2].data.substr(i * arow + std::size_t(acols[c].tbcol) - 1, form_width(acols[c].form))) == a[i][c], "written ASCII cell ", i, ",", c);
    mc::state(mc::hash_str(w[1].data + w[2].data));
}
// ---- several views of one column, proxies kept, fields assigned from fields --------
SCENARIO("every history of two views, kept fields and assignments between fields")
{
    // three rows; two independent views of the binary and of the ASCII column
    bool bin_first = mc::flip();
    gen::header g = gen::bintable({{"1J", "N"}, {"2I", "V"}}, 8, 3);
    gen::header h = gen::asciitable({{"I6", "N", 1}, {"A3", "S", 8}}, 10, 3);
    std::string d; for (int r = 0; r < 3; ++r) d += gen::be<boost::int32_t>(100 + r) + gen::be<boost::int16_t>(boost::int16_t(r)) + gen::be<boost::int16_t>(boost::int16_t(-r));
    binary_table b(make_header(g.bytes()), d);
    ascii_table a(make_header(h.bytes()), "   100 ab    101 cd    102 ef ");
    long long m[3] = {100, 101, 102};
    auto run = [&](auto v1, auto v2, auto& own, auto zero) {
        typedef decltype(zero) T;
        auto kept = v1[1]; long long snap = m[1]; // a field kept in a variable
        for (int s = 0; s < (mc::thorough() ? 4 : 3); ++s)
        {
            int op = mc::pick(13); T fresh = T(7 * (s + 1));
            switch (op)
            {
            case 0: v1[0] = fresh; m[0] = fresh; mc::log("view 1 row 0 = ", fresh); break;
            case 1: v2[0] = fresh; m[0] = fresh; mc::log("view 2 row 0 = ", fresh); break;
            case 2: own[0] = fresh; m[0] = fresh; mc::log("own view row 0 = ", fresh); break;
            case 3: v1[2] = v2[0]; m[2] = m[0]; mc::log("view 1 row 2 = view 2 row 0"); break;
            case 4: own[1] = own[2]; m[1] = m[2]; mc::log("row 1 = row 2"); break;
            case 5: kept = fresh; m[1] = snap = fresh; mc::log("kept field of row 1 = ", fresh); break;
            case 6: kept = own[0]; m[1] = snap = m[0]; mc::log("kept field of row 1 = row 0"); break;
            case 7: { auto other = v2[2]; T x = other; other = T(x + 1); m[2] += 1; T y = other; mc::check(y == m[2], "a field just assigned reads ", y, " instead of ", m[2]); mc::log("row 2 + 1"); break; }
            case 8: for (auto it = v2.begin(); it != v2.end(); ++it) { auto p = *it; p = fresh; } m[0] = m[1] = m[2] = fresh; mc::log("all rows = ", fresh); break;
            case 9: { auto it = v1.begin(); auto p = *it; p = *(++it); m[0] = m[1]; mc::log("first = second, by iterator"); break; }
            case 10: v2[1] = kept; m[1] = snap; mc::log("row 1 = the value of the kept field"); break;
            case 11: own[2] = (v1[0] = fresh); m[0] = m[2] = fresh; mc::log("chained assignment ", fresh); break;
            case 12: { auto copy = v1; copy[1] = fresh; m[1] = fresh; mc::log("copied view row 1 = ", fresh); break; }
            }
            for (int r = 0; r < 3; ++r)
            {
                T x1 = v1[r], x2 = v2[r], x3 = own[r];
                mc::check(x1 == m[r], "the first view of row ", r, " reads ", x1, " instead of ", m[r]);
                mc::check(x2 == m[r], "the second view of row ", r, " reads ", x2, " instead of ", m[r]);
                mc::check(x3 == m[r], "the table's view of row ", r, " reads ", x3, " instead of ", m[r]);
            }
            T k = kept; mc::check(k == snap, "the kept field reads ", k, " instead of ", snap);
            mc::state(mc::str(bin_first, m[0], ",", m[1], ",", m[2], ",", snap));
        }
    };
    if (bin_first)
    {
        run(b.get_column<boost::int32_t>("N"), b.get_column<boost::int32_t>("N"), b.get_column<boost::int32_t>("N"), boost::int32_t(0));
        std::string want; for (int r = 0; r < 3; ++r) want += gen::be<boost::int32_t>(boost::int32_t(m[r])) + gen::be<boost::int16_t>(boost::int16_t(r)) + gen::be<boost::int16_t>(boost::int16_t(-r));
        std::vector<gen::parsed_hdu> w; std::string why;
        mc::check(gen::parse_file(written(b), w, why) && w.size() == 1 && w[0].data == want, "the written table differs from what the views show");
    }
    else
    {
        run(a.get_column<long long>("N"), a.get_column<long long>("N"), a.get_column<long long>("N"), 0ll);
        std::string want; for (int r = 0; r < 3; ++r) want += gen::lpad(std::to_string(m[r]), 6);
        std::vector<gen::parsed_hdu> w; std::string why; std::string got;
        mc::check(gen::parse_file(written(a), w, why) && w.size() == 1 && w[0].data.size() == 30, "the written table is damaged");
        for (int r = 0; r < 3; ++r) got += w[0].data.substr(std::size_t(r) * 10, 6);
        mc::check(got == want, "the written numbers are ", mc::show(got), " instead of ", mc::show(want));
    }
}
SCENARIO("fields without a value can be written")
{
    // blank fields of an ASCII table, arrays that were cut short in a binary table
    int kind = mc::pick(4), row = mc::pick(3);
    gen::header h = gen::asciitable({{"I6", "N", 1}, {"F8.3", "X", 8}, {"D8.3", "Y", 17}}, 24, 3);
    std::string d(72, ' '); for (int r = 0; r < 3; ++r) if (r != row) d.replace(std::size_t(r) * 24, 24, gen::lpad("5", 6) + " " + gen::lpad("1.5", 8) + " " + gen::lpad("-2.5", 8));
    if (kind < 3)
    {
        ascii_table a(make_header(h.bytes()), d);
        bool read_first = mc::flip(); std::string th;
        if (read_first)
        {
            if (kind == 0) th = mc::thrown([&] { long long x = a.get_column<long long>("N")[row]; mc::log(x); });
            if (kind == 1) th = mc::thrown([&] { float x = a.get_column<float>("X")[row]; mc::log(x); });
            if (kind == 2) th = mc::thrown([&] { double x = a.get_column<double>("Y")[row]; mc::log(x); });
            mc::check(th.find("invalid_cast") != std::string::npos, "reading a blank number ", th.empty() ? "returned something" : "threw " + th);
        }
        double v = 0;
        if (kind == 0) { a.get_column<long long>("N")[row] = 42ll; v = double((long long)a.get_column<long long>("N")[row]); }
        if (kind == 1) { a.get_column<float>("X")[row] = 42.f; v = (float)a.get_column<float>("X")[row]; }
        if (kind == 2) { a.get_column<double>("Y")[row] = 42.; v = (double)a.get_column<double>("Y")[row]; }
        mc::check(v == 42, "a blank field set to 42 reads ", v);
        std::vector<gen::parsed_hdu> w; std::string why;
        mc::check(gen::parse_file(written(a), w, why) && w[0].data.size() == 72, "the written table is damaged");
        static int const at[] = {0, 7, 16}, wd[] = {6, 8, 8};
        for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c)
        {
            std::string f = gen::trim(w[0].data.substr(std::size_t(r * 24 + at[c]), std::size_t(wd[c])));
            std::string want = r == row ? (c == kind ? "42" : "") : c == 0 ? "5" : c == 1 ? "1.5" : "-2.5";
            mc::check(f == want, "written field ", r, ",", c, " is ", mc::show(f), " instead of ", mc::show(want));
        }
        mc::state(mc::hash_str(w[0].data, std::uint64_t(read_first)));
    }
    else
    {
        gen::header g = gen::bintable({{"3I", "V"}}, 6, 3); std::string e = "aabbccddeeffgghhii";
        binary_table b(make_header(g.bytes()), e);
        b.get_column<std::vector<boost::int16_t>>("V")[row] = std::vector<boost::int16_t>{1};
        mc::check(!mc::thrown([&] { written(b); }).empty(), "a field of the wrong size was written");
        binary_table c(b);
        for (auto* t : {&b, &c})
        {
            std::string th = mc::thrown([&] { std::vector<boost::int16_t> x = t->get_column<std::vector<boost::int16_t>>("V")[row]; mc::log(x.size()); });
            mc::check(th.find("invalid_cast") != std::string::npos, "reading a field that is too short ", th.empty() ? "returned something" : "threw " + th);
            t->get_column<std::vector<boost::int16_t>>("V")[row] = std::vector<boost::int16_t>{1, 2, 3};
            std::string want = e; want.replace(std::size_t(row) * 6, 6, std::string("\0\1\0\2\0\3", 6));
            std::vector<gen::parsed_hdu> w; std::string why;
            mc::check(gen::parse_file(written(*t), w, why) && w[0].data == want, "the written table differs");
        }
        mc::state(std::uint64_t(row));
    }
}
SCENARIO("real numbers keep their digits")
{
    static std::vector<double> const vals = [] {
        std::vector<double> v = {0, -0.0, 0.1, 1.0 / 3, 2.0 / 3, 123456.7, 1234567, 12345678.9, 3.14159265358979323846, 2.718281828459045, 1e10, 1e15, 1e16, 1e22, 1e23, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789012345678., 9007199254740993., 0.000123456789, 1e-5, 99999.95, 999999.5, 9999995, 1.0000001, 1.00000011920928955078125};
        for (int k = -300; k <= 300; k += 25) v.push_back(1.2345678901234567 * std::pow(10.0, k));
        std::size_t n = v.size(); for (std::size_t k = 0; k < n; ++k) v.push_back(-v[k]);
        return v;
    }();
    double v = mc::pick_from(vals); bool single = mc::flip(); int width = mc::pick(4);
    static int const widths[] = {30, 24, 15, 8};
    int wd = widths[width];
    static char const letters[] = {'D', 'E', 'F', 'E'};
    std::string form = std::string(1, letters[width]) + std::to_string(wd) + ".5";
    if (single && !std::isfinite(float(v))) return;
    gen::header h = gen::asciitable({{form, "X", 2}, {"A2", "S", wd + 2}}, wd + 3, 2);
    std::string d; for (int r = 0; r < 2; ++r) d += " " + gen::lpad(r ? "1.5" : "2.5", std::size_t(wd)) + "ab";
    header_t hd = make_header(h.bytes());
    ascii_table a(hd, d);
    mc::state(mc::str(single, " ", width, " ", v));
    double shown;
    if (single) { a.get_column<float>("X")[1] = float(v); shown = (float)a.get_column<float>("X")[1]; v = float(v); }
    else { a.get_column<double>("X")[1] = v; shown = (double)a.get_column<double>("X")[1]; }
    mc::check(shown == v, "a field set to ", v, " reads ", shown);
    std::string o; std::string th = mc::thrown([&] { o = written(a); });
    if (wd >= 24) mc::check(th.empty(), "a number that fits was refused: ", th);
    if (!th.empty()) { std::stringstream six; six << v; mc::check(int(six.str().size()) > wd, "a number of six digits that fits was refused: ", th); return; }
    std::vector<gen::parsed_hdu> w; std::string why;
    mc::check(gen::parse_file(o, w, why) && w[0].data.size() == d.size(), "the written table is damaged");
    std::string f = w[0].data.substr(std::size_t(wd) + 3 + 1, std::size_t(wd));
    double back = std::strtod(f.c_str(), nullptr); if (single) back = std::strtof(f.c_str(), nullptr);
    if (wd >= 24) mc::check(back == v && std::signbit(back) == std::signbit(v), "a field set to ", mc::str(v), " was written as ", mc::show(f));
    // a narrow field holds the value rounded to at least six digits
    mc::check(std::fabs(back - v) <= std::fabs(v) * 5.000001e-6, "a field set to ", v, " was written as ", mc::show(f));
    mc::check(w[0].data.substr(0, std::size_t(wd) + 3) == d.substr(0, std::size_t(wd) + 3), "the other row changed");
    ascii_table again(hd, w[0].data);
    if (single) { float x = again.get_column<float>("X")[1]; mc::check(wd < 24 || x == float(v), "read back as ", x); } else { double x = again.get_column<double>("X")[1]; mc::check(wd < 24 || x == v, "read back as ", x); }
}
// every cell of larger tables, in three orders; every cell alone
SCENARIO("tables of many rows and columns")
{
    static std::vector<int> const rowsv = {1, 2, 3, 7, 8, 9, 10, 11, 16, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025}, colsv = {1, 2, 9, 10, 11, 12, 16, 30, 99, 100, 101, 256};
    int rows = mc::pick_from(rowsv), cols = mc::pick_from(colsv);
    if (rows * cols > (mc::thorough() ? 30000 : 6000)) return;
    int way = mc::pick(3); bool asc = mc::flip();
    std::vector<gen::bin_col> bc; std::vector<gen::asc_col> ac;
    for (int c = 0; c < cols; ++c) { bc.push_back({"1I", "C" + std::to_string(c)}); ac.push_back({"I5", "C" + std::to_string(c), 1 + 6 * c}); }
    gen::header g = asc ? gen::asciitable(ac, 6 * cols, rows) : gen::bintable(bc, 2 * cols, rows);
    std::vector<std::vector<int>> m; for (int r = 0; r < rows; ++r) m.push_back(std::vector<int>(std::size_t(cols), 0));
    std::string d;
    for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) { int v = m[std::size_t(r)][std::size_t(c)] = (r * 37 + c * 11) % 9000; d += asc ? gen::lpad(std::to_string(v), 5) + " " : gen::be<boost::int16_t>(boost::int16_t(v)); }
    header_t hd = make_header(g.bytes());
    std::unique_ptr<ascii_table> a; std::unique_ptr<binary_table> b;
    if (asc) a.reset(new ascii_table(hd, d)); else b.reset(new binary_table(hd, d));
    auto set = [&](int r, int c, int v) { if (asc) a->get_column<long long>("C" + std::to_string(c))[r] = (long long)v; else b->get_column<boost::int16_t>("C" + std::to_string(c))[r] = boost::int16_t(v); m[std::size_t(r)][std::size_t(c)] = v; };
    auto all = [&] {
        for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c)
        {
            int v = m[std::size_t(r)][std::size_t(c)]; std::string const& s = asc ? a->get_data()[std::size_t(r)][std::size_t(c)] : b->get_data()[std::size_t(r)][std::size_t(c)];
            if (s != (asc ? std::to_string(v) : gen::be<boost::int16_t>(boost::int16_t(v)))) mc::fail(mc::str("cell ", r, ",", c, " is not ", v));
        }
        mc::evaluated(std::uint64_t(rows * cols));
    };
    if (way == 0) for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) { if ((r + c) % 3) set(r, c, -1 - (r * 5 + c) % 900); }
    if (way == 1) for (int c = cols; c-- > 0;) for (int r = rows; r-- > 0;) set(r, c, (r * 3 + c * 7) % 90);
    if (way == 2)
    {
        int const rs[] = {0, 1, rows / 2, rows - 2, rows - 1, 9, 10, 99, 100, 255, 256}, cs[] = {0, 1, cols / 2, cols - 2, cols - 1, 9, 10, 98, 99, 100};
        for (int r : rs) for (int c : cs) if (r >= 0 && r < rows && c >= 0 && c < cols) { set(r, c, 9999 - r); all(); }
    }
    all();
    for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c)
    {
        int got = asc ? int((long long)a->get_column<long long>("C" + std::to_string(c))[r]) : int((boost::int16_t)b->get_column<boost::int16_t>("C" + std::to_string(c))[r]);
        if (got != m[std::size_t(r)][std::size_t(c)]) mc::fail(mc::str("the view of cell ", r, ",", c, " reads ", got, " instead of ", m[std::size_t(r)][std::size_t(c)]));
    }
    mc::evaluated(std::uint64_t(rows * cols));
    std::string want; for (auto& r : m) for (int v : r) want += asc ? gen::lpad(std::to_string(v), 5) + " " : gen::be<boost::int16_t>(boost::int16_t(v));
    std::vector<gen::parsed_hdu> w; std::string why;
    std::string o = asc ? written(*a) : written(*b);
    mc::check(gen::parse_file(o, w, why) && w.size() == 1, "the written table is no FITS: ", why);
    mc::check(w[0].data == want, "the written data differ from the edited table");
    mc::state(mc::hash_str(want));
}
SCENARIO("tables of different layouts assigned to each other")
{
    // the same names stand for other columns, of other types, at other places
    bool asc = mc::flip(), used = mc::flip(); int way = mc::pick(4), row = mc::pick(2);
    mc::state(mc::str(asc, used, way, row));
    std::vector<gen::parsed_hdu> w; std::string why;
    if (asc)
    {
        gen::header g1 = gen::asciitable({{"A3", "S", 1}, {"I4", "N", 5}, {"I4", "M", 10}}, 14, 2), g2 = gen::asciitable({{"I3", "M", 2}, {"A5", "S", 6}, {"F5.1", "X", 12}, {"I5", "N", 20}}, 24, 2);
        ascii_table a(make_header(g1.bytes()), gen::rpad("abc   12   34", 14) + gen::rpad("def   56   78", 14));
        ascii_table b(make_header(g2.bytes()), gen::rpad("   7 hello   1.5      88", 24) + gen::rpad("   8 world  -2.5      99", 24));
        if (used) for (auto* t : {&a, &b}) { std::string s = t->get_column<std::string>("S")[0]; long long n = t->get_column<long long>("N")[0], m = t->get_column<long long>("M")[1]; mc::log(s, n, m); }
        if (way == 0) a = b; else if (way == 1) std::swap(a, b); else if (way == 2) { ascii_table c(b); a = c; } else { ascii_table c(a); c = b; a = std::move(c); }
        std::string s = a.get_column<std::string>("S")[row]; mc::check(s == (row ? "world" : "hello"), "S reads ", mc::show(s));
        long long n = a.get_column<long long>("N")[row]; mc::check(n == (row ? 99 : 88), "N reads ", n);
        a.get_column<long long>("M")[row] = -1ll; a.get_column<long long>("N")[1 - row] = 12345ll;
        double x = a.get_column<double>("X")[row]; mc::check(x == (row ? -2.5 : 1.5), "X reads ", x);
        mc::check(a.get_column_metadata("N").index() == 4, "N is column ", a.get_column_metadata("N").index());
        mc::check(gen::parse_file(written(a), w, why) && w[0].data.size() == 48, "the written table is damaged: ", why);
        for (int r = 0; r < 2; ++r)
        {
            std::string l = w[0].data.substr(std::size_t(r) * 24, 24);
            mc::check(gen::trim(l.substr(1, 3)) == (r == row ? "-1" : r ? "8" : "7") && gen::trim(l.substr(5, 5)) == (r ? "world" : "hello") && gen::trim(l.substr(19, 5)) == (r != row ? "12345" : r ? "99" : "88"), "written row ", r, " is ", mc::show(l));
        }
        if (way == 1) { long long m = b.get_column<long long>("M")[row]; mc::check(m == (row ? 78 : 34), "M of the other table reads ", m); }
    }
    else
    {
        gen::header g1 = gen::bintable({{"2A", "S"}, {"1I", "N"}, {"1I", "M"}}, 6, 2), g2 = gen::bintable({{"1I", "M"}, {"3A", "S"}, {"1D", "X"}, {"1I", "N"}}, 15, 2);
        std::string d1 = std::string("ab\0\1\0\2cd\0\3\0\4", 12), d2;
        for (int r = 0; r < 2; ++r) d2 += gen::be<boost::int16_t>(boost::int16_t(70 + r)) + (r ? "xyz" : "uvw") + gen::be(r + 0.5) + gen::be<boost::int16_t>(boost::int16_t(-r - 5));
        binary_table a(make_header(g1.bytes()), d1), b(make_header(g2.bytes()), d2);
        if (used) for (auto* t : {&a, &b}) { std::vector<char> s = t->get_column<std::vector<char>>("S")[0]; boost::int16_t n = t->get_column<boost::int16_t>("N")[0], m = t->get_column<boost::int16_t>("M")[1]; mc::log(s.size(), n, m); }
        if (way == 0) a = b; else if (way == 1) std::swap(a, b); else if (way == 2) { binary_table c(b); a = c; } else { binary_table c(a); c = b; a = std::move(c); }
        std::vector<char> s = a.get_column<std::vector<char>>("S")[row]; mc::check(std::string(s.begin(), s.end()) == (row ? "xyz" : "uvw"), "S reads ", std::string(s.begin(), s.end()));
        boost::int16_t n = a.get_column<boost::int16_t>("N")[row]; mc::check(n == -row - 5, "N reads ", n);
        double x = a.get_column<double>("X")[row]; mc::check(x == row + 0.5, "X reads ", x);
        a.get_column<boost::int16_t>("M")[row] = boost::int16_t(-1); d2.replace(std::size_t(row) * 15, 2, "\xff\xff");
        a.get_column<boost::int16_t>("N")[1 - row] = boost::int16_t(0x4142); d2.replace(std::size_t(1 - row) * 15 + 13, 2, "AB");
        mc::check(gen::parse_file(written(a), w, why) && w[0].data == d2, "the written table differs: ", why);
        if (way == 1) { boost::int16_t m = b.get_column<boost::int16_t>("M")[row]; mc::check(m == (row ? 4 : 2), "M of the other table reads ", m); }
    }
}
