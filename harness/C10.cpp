// C10: ASCII tables: fields are found where TBCOL/TFORM say, and written there.
#include "lib.hpp"
#include "numbers.hpp"
using namespace lib;

struct col { std::string form; int width; int kind; int gap; }; // kind 0 text 1 integer 2 real
static std::string field_text(int kind, int width, int row, int variant)
{
    std::string s;
    if (kind == 0) { static char const* const v[] = {"abc", "a b", "x", "", "T/'q", "LONGTEXTFIELD"}; s = v[(row + variant) % 6]; }
    if (kind == 1) { static char const* const v[] = {"7", "-3", "0", "12", "99999", "-1234567"}; s = v[(row + variant) % 6]; }
    if (kind == 2) { static char const* const v[] = {"1.5", "-0.25", "3", "1E2", "2.5D1", "-1.25E-1"}; s = v[(row + variant) % 6]; }
    if (int(s.size()) > width) s = kind == 0 ? s.substr(0, width) : std::string("5");
    return gen::trim(s);
}
static double real_of(std::string s) { for (auto& c : s) if (c == 'D') c = 'E'; return std::strtod(s.c_str(), nullptr); }

struct table
{
    std::vector<gen::asc_col> gc; std::vector<int> kinds, widths; long long row = 0; std::size_t rows = 0;
    std::vector<std::vector<std::string>> cells; std::string data; gen::header g;
};
// justify: 0 left, 1 right, 2 centered; junk: character between the fields
static table build(std::vector<col> const& cols, std::size_t rows, int variant, int justify, int tail)
{
    table t; t.rows = rows; long long at = 1;
    for (std::size_t k = 0; k < cols.size(); ++k)
    {
        at += cols[k].gap;
        t.gc.push_back({cols[k].form, "F" + std::to_string(k + 1), at}); t.kinds.push_back(cols[k].kind); t.widths.push_back(cols[k].width);
        at += cols[k].width;
    }
    t.row = at - 1 + tail;
    t.g = gen::asciitable(t.gc, t.row, (long long)rows);
    for (std::size_t r = 0; r < rows; ++r)
    {
        std::string line(std::size_t(t.row), ' '); t.cells.emplace_back();
        for (std::size_t k = 0; k < cols.size(); ++k)
        {
            std::string s = field_text(cols[k].kind, cols[k].width, int(r) + int(k), variant);
            t.cells.back().push_back(s);
            int pad = cols[k].width - int(s.size());
            int left = justify == 0 ? 0 : justify == 1 ? pad : pad / 2;
            line.replace(std::size_t(t.gc[k].tbcol - 1 + left), s.size(), s);
        }
        t.data += line;
    }
    return t;
}
static void check_cells(ascii_table& a, table const& t)
{
    for (std::size_t k = 0; k < t.gc.size(); ++k)
    {
        auto md = a.get_column_metadata(t.gc[k].name);
        mc::check(md.index() == k + 1 && md.TBCOL() == std::size_t(t.gc[k].tbcol) && md.TFORM() == t.gc[k].form, "metadata of column ", t.gc[k].name);
        for (std::size_t r = 0; r < t.rows; ++r)
        {
            std::string const& want = t.cells[r][k];
            mc::check(a.get_data()[r][k] == want, "field ", t.gc[k].name, " of row ", r, " is ", mc::show(a.get_data()[r][k]), " instead of ", mc::show(want));
            if (t.kinds[k] == 1 && r % 2 == 0)
            {
                long long got = a.get_column<long long>(t.gc[k].name)[int(r)];
                mc::check(got == std::atoll(want.c_str()), "integer of row ", r, " is ", got, " instead of ", want);
            }
            else if (t.kinds[k] == 2)
            {
                double got = a.get_column<double>(t.gc[k].name)[int(r)];
                mc::check(got == real_of(want), "real of row ", r, " is ", got, " instead of ", want);
            }
        }
    }
    std::string th = mc::thrown([&] { a.get_column<double>("NOPE"); });
    mc::check(th.find("column_not_found") != std::string::npos, "an absent column ", th.empty() ? "was found" : "threw " + th);
}
// the written table: header cards unchanged, every field's text within its columns, blanks elsewhere
static void check_written(ascii_table& a, table const& t)
{
    std::string got = written(a);
    std::vector<gen::parsed_hdu> h; std::string why;
    mc::check(gen::parse_file(got, h, why) && h.size() == 1, "written table is no single HDU: ", why);
    mc::check(got.substr(0, h[0].data_at) == t.g.bytes(), "written header differs");
    mc::check(h[0].data.size() == t.data.size(), "written data has ", h[0].data.size(), " bytes instead of ", t.data.size());
    mc::check(h[0].fill == std::string(h[0].fill.size(), ' '), "the last record is not filled with blanks");
    for (std::size_t r = 0; r < t.rows; ++r)
    {
        std::string line = h[0].data.substr(r * t.row, t.row);
        for (std::size_t k = 0; k < t.gc.size(); ++k)
        {
            std::string f = line.substr(t.gc[k].tbcol - 1, t.widths[k]);
            mc::check(gen::trim(f) == t.cells[r][k], "written field ", t.gc[k].name, " of row ", r, " is ", mc::show(f), " instead of ", mc::show(t.cells[r][k]));
            line.replace(t.gc[k].tbcol - 1, t.widths[k], std::string(t.widths[k], ' '));
        }
        mc::check(line == std::string(line.size(), ' '), "characters outside of the fields in written row ", r, ": ", mc::show(line));
    }
}
static std::vector<col> menu()
{
    return {{"A1", 1, 0, 0}, {"A4", 4, 0, 0}, {"A13", 13, 0, 1}, {"I1", 1, 1, 0}, {"I5", 5, 1, 2}, {"I11", 11, 1, 0}, {"F6.2", 6, 2, 0}, {"E12.5", 12, 2, 1}, {"D10.3", 10, 2, 0}, {"A2", 2, 0, 3}};
}
SCENARIO("every sequence of up to three columns")
{
    static auto const m = menu();
    int n = 1 + mc::pick(3);
    std::vector<col> cols; for (int k = 0; k < n; ++k) cols.push_back(m[mc::pick(int(m.size()))]);
    int variant = mc::pick(mc::thorough() ? 6 : 3), justify = mc::pick(3);
    table t = build(cols, 3, variant, justify, 0);
    mc::state(mc::hash_str(t.data, mc::hash_str(t.g.bytes())));
    ascii_table a(make_header(t.g.bytes()), t.data);
    check_cells(a, t); check_written(a, t);
}
SCENARIO("every width, gap and row tail")
{
    int w = 1 + mc::pick(mc::thorough() ? 60 : 24), gap = mc::pick(4), tail = mc::pick(3), kind = mc::pick(3), justify = mc::pick(3);
    static char const letters[] = "AIF";
    std::string form = std::string(1, letters[kind]) + std::to_string(w) + (kind == 2 ? ".1" : "");
    table t = build({{form, w, kind, gap}, {"I3", 3, 1, gap}}, 4, w % 6, justify, tail);
    mc::state(mc::hash_str(t.data, mc::hash_str(t.g.bytes())));
    ascii_table a(make_header(t.g.bytes()), t.data);
    check_cells(a, t); check_written(a, t);
}
SCENARIO("columns whose fields are not in the order of their numbers")
{
    // TBCOLn in every order
    static int const perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    int p = mc::pick(6), variant = mc::pick(6), rows = mc::pick(4);
    table t = build({{"A3", 3, 0, 0}, {"I4", 4, 1, 1}, {"F5.2", 5, 2, 1}}, rows, variant, 1, 1);
    table u = t; u.gc.clear(); u.kinds.clear(); u.widths.clear();
    for (int k = 0; k < 3; ++k) { u.gc.push_back(t.gc[perm[p][k]]); u.kinds.push_back(t.kinds[perm[p][k]]); u.widths.push_back(t.widths[perm[p][k]]); }
    for (std::size_t r = 0; r < t.rows; ++r) for (int k = 0; k < 3; ++k) u.cells[r][k] = t.cells[r][perm[p][k]];
    u.g = gen::asciitable(u.gc, u.row, rows);
    mc::state(mc::hash_str(u.data, mc::hash_str(u.g.bytes())));
    ascii_table a(make_header(u.g.bytes()), u.data);
    if (rows) check_cells(a, u);
    check_written(a, u);
}
SCENARIO("rows")
{
    mc::split(1);
    int small = mc::thorough() ? 700 : 130;
    static std::vector<int> const more = {254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 70000};
    int rows = mc::pick(small + int(more.size())), variant = mc::pick(2);
    if (rows >= small) rows = more[std::size_t(rows - small)];
    table t = build({{"A4", 4, 0, 0}, {"I5", 5, 1, 2}, {"E12.5", 12, 2, 1}}, rows, variant, 1, 0);
    mc::state(mc::hash_str(t.data, rows));
    ascii_table a(make_header(t.g.bytes()), t.data);
    if (rows) check_cells(a, t);
    check_written(a, t);
}
SCENARIO("many columns and wide fields")
{
    static std::vector<int> const more = {98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 998, 999};
    int n = mc::pick(30 + int(more.size())), kind = mc::pick(3);
    n = n < 30 ? n + 1 : more[std::size_t(n - 30)];
    std::vector<col> cols; static auto const m = menu();
    if (kind < 2) for (int k = 0; k < n; ++k) cols.push_back(m[std::size_t(k * 7 + k / 10) % m.size()]);
    else { cols.push_back({"A" + std::to_string(n), n, 0, 0}); cols.push_back({"I" + std::to_string(n + 1), n + 1, 1, n}); cols.push_back({"F" + std::to_string(n + 3) + ".2", n + 3, 2, 0}); }
    table t = build(cols, 3, 0, kind, kind);
    mc::state(mc::hash_str(t.data, mc::hash_str(t.g.bytes())));
    ascii_table a(make_header(t.g.bytes()), t.data);
    check_cells(a, t); check_written(a, t);
}
// every subset of the optional cards of two columns, in two orders of the cards
SCENARIO("optional cards of columns")
{
    int has[2] = {mc::pick(32), mc::pick(32)}; int order = mc::pick(2);
    gen::header g = gen::extension("TABLE", 8, {7, 2}); g.i("TFIELDS", 2);
    static char const* const keys[] = {"TTYPE", "TUNIT", "TSCAL", "TZERO", "TNULL"};
    auto put = [&](int k, int c) {
        if (!(has[c] >> k & 1)) return;
        std::string key = keys[k] + std::to_string(c + 1);
        if (k == 2) g.t(key, gen::lpad(c ? "-2.5D0" : "0.5", 20)); else if (k == 3) g.i(key, 32768 + c); else g.s(key, std::string(1, char('A' + k)) + std::to_string(c));
    };
    if (order) for (int k = 4; k >= 0; --k) { put(k, 0); put(k, 1); }
    g.i("TBCOL1", 1).s("TFORM1", "A3").i("TBCOL2", 5).s("TFORM2", "I3");
    if (!order) for (int c = 0; c < 2; ++c) for (int k = 0; k < 5; ++k) put(k, c);
    ascii_table t(make_header(g.bytes()), std::string("abc 123x y -45"));
    mc::state(g.bytes());
    for (int c = 0; c < 2; ++c)
    {
        if (!(has[c] & 1)) continue;
        std::string n = std::to_string(c);
        auto md = t.get_column_metadata("A" + n);
        mc::check(md.index() == std::size_t(c + 1) && md.TBCOL() == std::size_t(c ? 5 : 1), "index or place of column ", c + 1, " is ", md.index(), ", ", md.TBCOL());
        mc::check(md.TTYPE() == "A" + n && md.TFORM() == (c ? "I3" : "A3"), "TTYPE or TFORM of column ", c + 1, " is ", md.TTYPE(), ", ", md.TFORM());
        mc::check(md.TUNIT() == (has[c] & 2 ? "B" + n : ""), "TUNIT of column ", c + 1, " is ", md.TUNIT());
        mc::check(md.TSCAL() == (has[c] & 4 ? (c ? -2.5 : 0.5) : 1.0), "TSCAL of column ", c + 1, " is ", md.TSCAL());
        mc::check(md.TZERO() == (has[c] & 8 ? 32768 + c : 0), "TZERO of column ", c + 1, " is ", md.TZERO());
        if (c) { long long a = t.get_column<long long>("A1")[0], b = t.get_column<long long>("A1")[1]; mc::check(a == 123 && b == -45, "numbers ", a, ", ", b); }
        else { std::string a = t.get_column<std::string>("A0")[0], b = t.get_column<std::string>("A0")[1]; mc::check(a == "abc" && b == "x y", "texts ", a, ", ", b); }
    }
}
SCENARIO("columns named like keywords, like each other and like nothing")
{
    static std::vector<std::string> const names = {"NAXIS", "BITPIX", "TFORM1", "TTYPE2", "XTENSION", "EXTNAME", "END", "COMMENT", "A", "AA", "a", "A B", "A'B", "1", "TFIELDS", "TBCOL2", "x/y", "COL_1", "COL_1B", "LONGNAME", "LONGNAME_1", "LONGNAME_2", "longname_1", "a column named by a long sentence, A", "a column named by a long sentence, B"};
    int i = mc::pick(int(names.size())), j = mc::pick(int(names.size())), note = mc::pick(2);
    gen::header g = gen::asciitable({{"I2", names[std::size_t(i)], 1}, {"A3", names[std::size_t(j)], 4}}, 6, 2);
    if (note) g.text("COMMENT", " a comment").s("A", "a card named like a column").i("COL_1", 5);
    ascii_table t(make_header(g.bytes()), std::string("12 abc-3 d f"));
    mc::state(g.bytes());
    mc::check(t.get_column_metadata(names[std::size_t(i)]).index() == 1, "column ", names[std::size_t(i)], " was not found first");
    long long a = t.get_column<long long>(names[std::size_t(i)])[0], b = t.get_column<long long>(names[std::size_t(i)])[1];
    mc::check(a == 12 && b == -3, "numbers ", a, ", ", b, " of column ", names[std::size_t(i)]);
    if (i == j) return;
    mc::check(t.get_column_metadata(names[std::size_t(j)]).index() == 2, "column ", names[std::size_t(j)], " was not found");
    std::string c = t.get_column<std::string>(names[std::size_t(j)])[0], d = t.get_column<std::string>(names[std::size_t(j)])[1];
    mc::check(c == "abc" && d == "d f", "texts ", c, ", ", d, " of column ", names[std::size_t(j)]);
}
SCENARIO("values of integer and real fields")
{
    static std::vector<std::string> const vals = {"0", "1", "-1", "+4", "2147483648", "-9223372036854775808", "9223372036854775807", "0.5", "-1.25", "1.5E10", "1.5D10", "2E-3", "-2.5D-3", "12345.678901", "1D0", "6.02214076E23", ".5", "5."};
    std::string v = mc::pick_from(vals); int pad = mc::pick(4), type = mc::pick(3);
    int w = int(v.size()) + 3;
    table t = build({{"A" + std::to_string(w), w, 0, 0}}, 1, 0, 0, 0);
    std::string data = std::string(pad, ' ') + v; data = gen::rpad(data, w);
    bool integer = v.find_first_of(".ED") == std::string::npos;
    ascii_table a(make_header(t.g.bytes()), data);
    mc::state(v + char('0' + type));
    if (type == 0 && integer) { long long got = a.get_column<long long>("F1")[0]; mc::check(got == std::strtoll(v.c_str(), nullptr, 10), "integer ", v, " is read as ", got); }
    if (type == 1) { double got = a.get_column<double>("F1")[0]; mc::check(got == real_of(v), "real ", v, " is read as ", got); }
    if (type == 2)
    {
        if (integer) { std::string got = a.get_column<std::string>("F1")[0]; mc::check(got == v, "text ", v, " is read as ", got); }
        float got = 0; ascii_table b(a); got = b.get_column<float>("F1")[0]; std::string s = v; for (auto& c : s) if (c == 'D') c = 'E';
        mc::check(mc::close(got, std::strtof(s.c_str(), nullptr), 1e-6, 0), "real ", v, " is read as float ", got);
    }
}
SCENARIO("text fields: every printable character at every place")
{
    int ch = 33 + mc::pick(94), at = mc::pick(5);
    std::string cell(5, 'm'); cell[at] = char(ch);
    table t = build({{"A5", 5, 0, 0}, {"A7", 7, 0, 0}}, 2, 0, 0, 0);
    t.cells[0][0] = cell; t.cells[1][1] = cell; t.cells[0][1] = "r"; t.cells[1][0] = "s";
    t.data = cell + "r      " + "s    " + cell + "  ";
    ascii_table a(make_header(t.g.bytes()), t.data);
    mc::state(t.data);
    std::string got = a.get_column<std::string>("F1")[0]; mc::check(got.size() == 5 || ch == ' ', "text cut");
    for (int r = 0; r < 2; ++r) for (int k = 0; k < 2; ++k)
        mc::check(a.get_data()[r][k] == t.cells[r][k], "text field is ", mc::show(a.get_data()[r][k]), " instead of ", mc::show(t.cells[r][k]));
    mc::check(got == cell, "text field read as ", mc::show(got), " instead of ", mc::show(cell));
    check_written(a, t);
}
SCENARIO("fields outside of the row are refused")
{
    int tbcol = mc::pick(14), width = 1 + mc::pick(12), row = mc::pick(13), rows = 1 + mc::pick(2), missing = mc::pick(2);
    gen::header g = gen::asciitable({{"A" + std::to_string(width), "F1", tbcol}}, row, rows);
    std::string data(std::size_t(row) * rows, 'd'); if (missing && !data.empty()) data.resize(data.size() - 1);
    header_t h = make_header(g.bytes());
    std::string th = mc::thrown([&] { ascii_table a(h, data); });
    mc::state(mc::str(tbcol, ",", width, ",", row, ",", rows, ",", missing));
    if (data.empty()) return;
    bool ok = tbcol >= 1 && tbcol - 1 + width <= row && data.size() == std::size_t(row) * rows;
    mc::check(th.empty() == ok, ok ? "a table was refused: " + th : "a table with fields outside of its data was accepted");
}
SCENARIO("sizes of formats")
{
    static std::string const letters = "AIFED";
    char c = letters[mc::pick(5)]; int w = 1 + mc::pick(200); int dec = mc::pick(12);
    std::string f = std::string(1, c) + std::to_string(w) + (dec ? "." + std::to_string(dec - 1) : "");
    for (std::string in : {f, "'" + f + "  '", " " + f, "'  " + f + "'"})
    {
        mc::check(ascii_table::column_size(in) == std::size_t(w), "column_size(", in, ") is ", ascii_table::column_size(in));
        mc::check(ascii_table::get_type(in) == c, "get_type(", in, ")");
    }
    mc::state(f);
}

template <typename T> static void field_number(column_view<T, ascii_converter>& view, int row, std::string const& t, char const* type)
{
    T want{}, got{}; bool ok = !t.empty() && numbers::denotes(t, want, std::is_integral<T>());
    std::string th = mc::thrown([&] { got = view[row]; });
    if (t.empty() || (!std::is_integral<T>::value && numbers::is_real(t) == -1)) return;   // blank fields and other notations: either
    if (ok && std::fabs(double(want)) == HUGE_VAL) return;
    if (ok) mc::check(th.empty() && got == want, "the field \"", t, "\" read as ", type, th.empty() ? mc::str(" is ", got, " instead of ", want) : " threw " + th);
    else mc::check(!th.empty(), "the field \"", t, "\" is no ", type, " but is read as ", got);
}
SCENARIO("every short text in a field")
{
    // one table whose rows are all the texts that begin with two given characters
    static char const alphabet[] = " +-.0159EDedTFxA,(";
    int const n = int(sizeof alphabet) - 1, length = mc::thorough() ? 5 : 4;
    int first = mc::pick(n), second = mc::pick(n);
    int rest = 1; for (int k = 2; k < length; ++k) rest *= n;
    std::vector<std::string> texts; std::string data; int const w = length + 1;
    for (int r = 0; r < rest; ++r)
    {
        std::string u{alphabet[first], alphabet[second]}; int x = r;
        for (int k = 2; k < length; ++k) { u += alphabet[x % n]; x /= n; }
        texts.push_back(gen::trim(u)); data += "#" + gen::rpad(u, std::size_t(w)) + "9";
    }
    gen::header g = gen::asciitable({{"F" + std::to_string(w) + ".1", "N", 2}}, w + 2, rest);
    ascii_table a(make_header(g.bytes()), data), b(a), c(a);
    mc::state(mc::str(first, ' ', second));
    auto& i = a.get_column<long long>("N"); auto& f = b.get_column<float>("N"); auto& x = c.get_column<double>("N");
    for (int r = 0; r < rest; ++r)
    {
        std::string const& t = texts[std::size_t(r)];
        mc::check(a.get_data()[std::size_t(r)][0] == t, "the field \"", t, "\" is \"", a.get_data()[std::size_t(r)][0], "\"");
        field_number(i, r, t, "integer"); field_number(f, r, t, "float"); field_number(x, r, t, "double"); mc::steps(3);
    }
}
SCENARIO("numbers at the limits of the types in a field")
{
    mc::split(1);
    static std::vector<std::string> const around = {"0", "127", "128", "32767", "32768", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "99999999999999999999", "16777217", "9007199254740993",
        "3.4028235E38", "1.17549435E-38", "1.0E-45", "1.0D-50", "1.7976931348623157E308", "4.9406564584124654D-324", "1.0E-330", "2.2250738585072014D-308", "00000000000000000000000000000001", "1.00000000000000000000000000000000000001", "1.0E0000000001", "0.1", "0.3", "123456789.123456789", ".5", "5."};
    std::string t = mc::pick_from(around); int sign = mc::pick(3), w = 45, place = mc::pick(3);
    if (sign) t = (sign == 1 ? "-" : "+") + t;
    std::string u = place == 0 ? gen::rpad(t, std::size_t(w)) : place == 1 ? gen::lpad(t, std::size_t(w)) : "  " + gen::rpad(t, std::size_t(w) - 2);
    gen::header g = gen::asciitable({{"D45.20", "N", 3}}, w + 4, 3);
    std::string line = "##" + u + "99";
    ascii_table a(make_header(g.bytes()), line + line + line), b(a), c(a);
    mc::state(u);
    for (int r = 0; r < 3; ++r) { field_number(a.get_column<long long>("N"), r, t, "integer"); field_number(b.get_column<float>("N"), r, t, "float"); field_number(c.get_column<double>("N"), r, t, "double"); }
}
