// C08: a binary table gives every field exactly the elements stored at its place.
#include "lib.hpp"
using namespace lib;

struct fmt { char letter; int repeat; bool explicit_repeat; };
static std::size_t elem_size(char c)
{
    switch (c) { case 'I': return 2; case 'J': case 'E': return 4; case 'D': case 'C': case 'P': return 8; case 'M': return 16; default: return 1; }
}
static std::size_t bytes_of(fmt const& f) { return f.letter == 'X' ? (f.repeat + 7) / 8 : f.repeat * elem_size(f.letter); }
static std::string text_of(fmt const& f) { return f.explicit_repeat ? std::to_string(f.repeat) + f.letter : std::string(1, f.letter); }

template <typename T> static T dec(std::string const& b, std::size_t i) { return gen::from_be<T>(b, i * sizeof(T)); }
template <typename T> static bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <typename T> struct ref { static T at(std::string const& b, std::size_t i) { return dec<T>(b, i); } static bool eq(T a, T b) { return same(a, b); } };
template <> struct ref<bool> { static bool at(std::string const& b, std::size_t i) { return b[i] == 'T'; } static bool eq(bool a, bool b) { return a == b; } };
template <typename T> struct ref<std::complex<T>>
{
    static std::complex<T> at(std::string const& b, std::size_t i) { return {dec<T>(b, 2 * i), dec<T>(b, 2 * i + 1)}; }
    static bool eq(std::complex<T> a, std::complex<T> b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
};
template <> struct ref<std::pair<boost::int32_t, boost::int32_t>>
{
    typedef std::pair<boost::int32_t, boost::int32_t> P;
    static P at(std::string const& b, std::size_t i) { return P(dec<boost::int32_t>(b, 2 * i), dec<boost::int32_t>(b, 2 * i + 1)); }
    static bool eq(P a, P b) { return a == b; }
};

// compares one column; fields[r] are the bytes of the field in row r
template <typename T> static void column_as(binary_table& t, std::string const& name, std::vector<std::string> const& fields, std::size_t n, bool scalar, std::string const& form)
{
    if (scalar)
    {
        auto& v = t.get_column<T>(name);
        mc::check(v.get_row_count() == fields.size(), "column ", name, " has ", v.get_row_count(), " rows instead of ", fields.size());
        for (std::size_t r = fields.size(); r-- > 0;)
        {
            T got = v[int(r)];
            mc::check(ref<T>::eq(got, ref<T>::at(fields[r], 0)), form, " value of column ", name, " row ", r, " differs from its bytes ", mc::show(fields[r]));
        }
        std::size_t r = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++r)
        {
            T got = *it;
            mc::check(r < fields.size() && ref<T>::eq(got, ref<T>::at(fields[r], 0)), form, " iterated value of column ", name, " row ", r, " differs");
        }
        mc::check(r == fields.size(), "iteration over column ", name, " saw ", r, " rows");
    }
    else
    {
        auto& v = t.get_column<std::vector<T>>(name);
        for (std::size_t r = 0; r < fields.size(); ++r)
        {
            std::vector<T> got = v[int(r)];
            mc::check(got.size() == n, form, " array of column ", name, " has ", got.size(), " elements instead of ", n);
            for (std::size_t k = 0; k < n; ++k)
                if (!ref<T>::eq(got[k], ref<T>::at(fields[r], k))) mc::fail(mc::str(form, " element ", k, " of column ", name, " row ", r, " differs from the bytes stored there"));
            mc::evaluated(n);
        }
    }
}
static void compare(binary_table& t, fmt const& f, std::string const& name, std::vector<std::string> const& fields, bool scalar)
{
    std::size_t n = f.repeat; std::string form = text_of(f);
    switch (f.letter)
    {
    case 'L': column_as<bool>(t, name, fields, n, scalar, form); break;
    case 'X': column_as<std::uint8_t>(t, name, fields, bytes_of(f), scalar, form); break;
    case 'B': column_as<std::uint8_t>(t, name, fields, n, scalar, form); break;
    case 'A': column_as<char>(t, name, fields, n, scalar, form); break;
    case 'I': column_as<boost::int16_t>(t, name, fields, n, scalar, form); break;
    case 'J': column_as<boost::int32_t>(t, name, fields, n, scalar, form); break;
    case 'E': column_as<float>(t, name, fields, n, scalar, form); break;
    case 'D': column_as<double>(t, name, fields, n, scalar, form); break;
    case 'C': column_as<std::complex<float>>(t, name, fields, n, scalar, form); break;
    case 'M': column_as<std::complex<double>>(t, name, fields, n, scalar, form); break;
    case 'P': column_as<std::pair<boost::int32_t, boost::int32_t>>(t, name, fields, n, scalar, form); break;
    }
}
static void whole(std::vector<fmt> const& cols, std::size_t rows, int fill, int slack, int heap, int order)
{
    std::vector<gen::bin_col> gc; std::size_t width = 0;
    std::vector<std::size_t> at;
    for (std::size_t k = 0; k < cols.size(); ++k)
    {
        gc.push_back({text_of(cols[k]), "COL" + std::to_string(k + 1)});
        at.push_back(width); width += bytes_of(cols[k]);
    }
    width += slack;
    gen::header g = gen::bintable(gc, (long long)width, (long long)rows, heap);
    for (std::size_t k = 0; k < cols.size(); ++k)
        g.s("TUNIT" + std::to_string(k + 1), "u" + std::to_string(k)).t("TSCAL" + std::to_string(k + 1), gen::lpad("2.5", 20)).t("TZERO" + std::to_string(k + 1), gen::lpad(std::to_string(k) + ".25", 20)).s("TDISP" + std::to_string(k + 1), "F8." + std::to_string(k));
    std::string data;
    for (std::size_t r = 0; r < rows; ++r) for (std::size_t b = 0; b < width; ++b) data += byte_at(r, b, fill);
    for (int b = 0; b < heap; ++b) data += char(b * 3);
    mc::state(mc::hash_str(data, mc::hash_str(g.bytes())));
    binary_table t(make_header(g.bytes()), data);
    if (rows * width == 0 && heap == 0) return;
    for (std::size_t q = 0; q < cols.size(); ++q)
    {
        std::size_t k = order ? cols.size() - 1 - q : q;
        std::vector<std::string> fields;
        for (std::size_t r = 0; r < rows; ++r) fields.push_back(data.substr(r * width + at[k], bytes_of(cols[k])));
        bool can_scalar = bytes_of(cols[k]) == elem_size(cols[k].letter);
        compare(t, cols[k], gc[k].name, fields, can_scalar && order == 0);
        auto md = t.get_column_metadata(gc[k].name);
        mc::check(md.index() == k + 1, "index of column ", gc[k].name, " is ", md.index());
        mc::check(gen::trim(md.TFORM()) == gc[k].form, "TFORM of ", gc[k].name, " is ", md.TFORM());
        mc::check(md.TTYPE() == gc[k].name, "TTYPE is ", md.TTYPE());
        mc::check(md.TUNIT() == "u" + std::to_string(k), "TUNIT is ", md.TUNIT());
        mc::check(md.TSCAL() == 2.5 && md.TZERO() == k + 0.25, "TSCAL/TZERO are ", md.TSCAL(), "/", md.TZERO());
        mc::check(md.TDISP() == "F8." + std::to_string(k), "TDISP is ", md.TDISP());
    }
    std::string th = mc::thrown([&] { t.get_column<boost::int16_t>("NOPE"); });
    mc::check(th.find("column_not_found") != std::string::npos, "an absent column ", th.empty() ? "was found" : "threw " + th);
    th = mc::thrown([&] { t.get_column_metadata("COL"); });
    mc::check(th.find("column_not_found") != std::string::npos, "an absent column has metadata: ", th);
}
// every subset of the optional cards of two columns, in two orders of the cards
SCENARIO("optional cards of columns")
{
    int has[2] = {mc::pick(64), mc::pick(64)}; int order = mc::pick(2);
    gen::header g = gen::extension("BINTABLE", 8, {6, 2}); g.i("TFIELDS", 2);
    static char const* const keys[] = {"TTYPE", "TUNIT", "TSCAL", "TZERO", "TDISP", "TDIM"};
    auto put = [&](int k, int c) {
        if (!(has[c] >> k & 1)) return;
        std::string key = keys[k] + std::to_string(c + 1);
        if (k == 2) g.t(key, gen::lpad(c ? "-2.5D0" : "0.5", 20)); else if (k == 3) g.i(key, 32768 + c); else g.s(key, std::string(1, char('A' + k)) + std::to_string(c));
    };
    if (order) for (int k = 5; k >= 0; --k) { put(k, 0); put(k, 1); }
    g.s("TFORM1", "2I").s("TFORM2", "1I");
    if (!order) for (int c = 0; c < 2; ++c) for (int k = 0; k < 6; ++k) put(k, c);
    binary_table t(make_header(g.bytes()), std::string("abcdefghijkl"));
    mc::state(g.bytes());
    for (int c = 0; c < 2; ++c)
    {
        if (!(has[c] & 1)) continue;
        std::string n = std::to_string(c);
        auto md = t.get_column_metadata("A" + n);
        mc::check(md.index() == std::size_t(c + 1), "index of column ", c + 1, " is ", md.index());
        mc::check(md.TTYPE() == "A" + n, "TTYPE of column ", c + 1, " is ", md.TTYPE());
        mc::check(md.TUNIT() == (has[c] & 2 ? "B" + n : ""), "TUNIT of column ", c + 1, " is ", md.TUNIT());
        mc::check(md.TSCAL() == (has[c] & 4 ? (c ? -2.5 : 0.5) : 1.0), "TSCAL of column ", c + 1, " is ", md.TSCAL());
        mc::check(md.TZERO() == (has[c] & 8 ? 32768 + c : 0), "TZERO of column ", c + 1, " is ", md.TZERO());
        mc::check(md.TDISP() == (has[c] & 16 ? "E" + n : ""), "TDISP of column ", c + 1, " is ", md.TDISP());
        mc::check(md.TDIM() == (has[c] & 32 ? "F" + n : ""), "TDIM of column ", c + 1, " is ", md.TDIM());
        std::vector<std::string> f = c ? std::vector<std::string>{"ef", "kl"} : std::vector<std::string>{"abcd", "ghij"};
        compare(t, c ? fmt{'I', 1, true} : fmt{'I', 2, true}, "A" + n, f, c == 1);
    }
}
SCENARIO("columns named like keywords, like each other and like nothing")
{
    static std::vector<std::string> const names = {"NAXIS", "BITPIX", "TFORM1", "TTYPE2", "XTENSION", "EXTNAME", "END", "COMMENT", "A", "AA", "a", "A B", "A'B", "1", "TFIELDS", "PCOUNT", "x/y", "COL_1", "COL_1B", "LONGNAME", "LONGNAME_1", "LONGNAME_2", "longname_1", "a column named by a long sentence, A", "a column named by a long sentence, B"};
    int i = mc::pick(int(names.size())), j = mc::pick(int(names.size())), note = mc::pick(2);
    gen::header g = gen::bintable({{"1I", names[std::size_t(i)]}, {"2B", names[std::size_t(j)]}}, 4, 2);
    if (note) g.text("COMMENT", " a comment").s("A", "a card named like a column").i("COL_1", 5);
    binary_table t(make_header(g.bytes()), std::string("abcdefgh"));
    mc::state(g.bytes());
    mc::check(t.get_column_metadata(names[std::size_t(i)]).index() == 1, "column ", names[std::size_t(i)], " was not found first");
    compare(t, {'I', 1, true}, names[std::size_t(i)], {"ab", "ef"}, true);
    if (i == j) return;
    mc::check(t.get_column_metadata(names[std::size_t(j)]).index() == 2, "column ", names[std::size_t(j)], " was not found");
    compare(t, {'B', 2, true}, names[std::size_t(j)], {"cd", "gh"}, false);
}
static std::vector<fmt> menu()
{
    std::vector<fmt> m;
    for (char c : std::string("LXBIJAEDCMP")) { m.push_back({c, 1, false}); m.push_back({c, 3, true}); }
    m.push_back({'X', 9, true}); m.push_back({'A', 12, true}); m.push_back({'B', 0, true}); m.push_back({'I', 1, true});
    return m;
}
SCENARIO("every sequence of up to three columns")
{
    static auto const m = menu();
    int n = 1 + mc::pick(mc::thorough() ? 3 : 2);
    std::vector<fmt> cols;
    for (int k = 0; k < n; ++k) cols.push_back(m[mc::pick(int(m.size()))]);
    std::size_t rows = 1 + mc::pick(2) * 2;
    int fill = mc::pick(6); int order = mc::pick(2);
    whole(cols, rows, fill, 0, 0, order);
}
SCENARIO("three columns with neighbours of every type")
{
    static std::string const letters = "LXBIJAEDCMP";
    std::vector<fmt> cols;
    for (int k = 0; k < 3; ++k) cols.push_back({letters[mc::pick(11)], 1 + (k == 1), k == 1});
    whole(cols, 2, 0, 0, 0, mc::pick(2));
}
SCENARIO("every repeat count of every type")
{
    static std::string const letters = "LXBIJAEDCMP";
    char c = letters[mc::pick(11)];
    static std::vector<int> const large = {99, 100, 127, 128, 255, 256, 999, 1000, 1001, 1234, 2880, 4096, 9999, 10000, 12345};
    int small = mc::thorough() ? 300 : 70; int repeat = mc::pick(small + int(large.size()));
    if (repeat >= small) repeat = large[std::size_t(repeat - small)];
    int order = mc::pick(2);
    whole({{'J', 1, false}, {c, repeat, true}, {'I', 2, true}}, 2, 0, 0, 0, order);
}
SCENARIO("rows, unused bytes at the row end and a heap")
{
    static std::string const letters = "LXBIJAEDCMP";
    char c = letters[mc::pick(11)];
    int rows = mc::pick(mc::thorough() ? 60 : 12);
    int slack = mc::pick(4); int heap = mc::pick(3) * 5;
    whole({{c, 2, true}, {'B', 1, false}}, rows, mc::pick(2), slack, heap, 0);
}
SCENARIO("many rows")
{
    static std::vector<int> const count = {127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000};
    static std::string const letters = "LXBIJAEDCMP";
    int rows = mc::pick_from(count); char c = letters[mc::pick(11)];
    whole({{c, 1, true}, {'B', 1, false}, {'I', 1, true}}, std::size_t(rows), 0, rows % 3, rows % 2 * 5, mc::pick(2));
}
SCENARIO("many columns")
{
    mc::split(1);
    int small = mc::thorough() ? 120 : 40;
    static std::vector<int> const more = {98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 998, 999};
    int n = mc::pick(small + int(more.size()));
    n = n < small ? n + 1 : more[std::size_t(n - small)];
    static std::string const letters = "LXBIJAEDCMP";
    std::vector<fmt> cols;
    for (int k = 0; k < n; ++k) cols.push_back({letters[(k * 7) % 11], 1 + k % 3, true});
    whole(cols, 3, 0, 0, 0, mc::pick(2));
}
SCENARIO("sizes of formats")
{
    static std::string const letters = "LXBIJAEDCMP";
    char c = letters[mc::pick(11)]; int repeat = mc::pick(420);
    if (repeat >= 400) { static int const large[] = {999, 1000, 1001, 1024, 1234, 4095, 9999, 10000, 12345, 32767, 32768, 65535, 65536, 99999, 100000, 123456, 999999, 1000000, 1234567, 10000000}; repeat = large[repeat - 400]; }
    for (int shape = 0; shape < 8; ++shape)
    {
        std::string f = shape & 1 ? std::string(1, c) : std::to_string(repeat) + c;
        std::string in = shape & 4 ? (shape & 2 ? "'  " + f + "'" : "  " + f) : shape & 2 ? "'" + f + "   '" : f;
        fmt x{c, shape & 1 ? 1 : repeat, true};
        mc::check(binary_table::element_count(in) == std::size_t(x.repeat), "element_count(", in, ") is ", binary_table::element_count(in));
        mc::check(binary_table::get_type(in) == c, "get_type(", in, ")");
        mc::check(binary_table::column_size(in) == bytes_of(x), "column_size(", in, ") is ", binary_table::column_size(in), " instead of ", bytes_of(x));
        mc::state(in);
    }
    mc::check(binary_table::type_size(c) == elem_size(c), "type_size(", c, ") is ", binary_table::type_size(c));
}
template <typename T> static void single(binary_table& t, std::string const& name, std::vector<std::string> const& raw, std::size_t count, std::function<T(std::string const&)> first)
{
    // one element of a field that has another number of them: the first one, or an error
    for (std::size_t r = 0; r < raw.size(); ++r)
    {
        T v = T(); std::string th = mc::thrown([&] { v = T(t.get_column<T>(name)[r]); });
        mc::check(th != "unknown", "an exception that is no std::exception");
        if (count == 0) { mc::check(!th.empty(), "a value was made up for a field without elements (", name, ", row ", r, ")"); continue; }
        if (th.empty()) { T w = first(raw[r].substr(0, raw[r].size() / count)); mc::check(v == w, "column ", name, ", row ", r, " has ", count, " elements and reads as something that is not the first one"); }
        else mc::check(count != 1, "column ", name, ", row ", r, " could not be read: ", th);
    }
}
SCENARIO("a single element of fields that have none, one or several")
{
    mc::split(1);
    int kind = mc::pick(6), count = mc::pick(5); static char const types[] = "BAIJED"; static int const sizes[] = {1, 1, 2, 4, 4, 8};
    std::size_t size = std::size_t(sizes[kind] * count); std::string data; std::vector<std::string> raw;
    for (int r = 0; r < 3; ++r) { std::string f; for (std::size_t k = 0; k < size; ++k) f += char(0x41 + 7 * r + int(k)); raw.push_back(f); data += "\x5a\x5b" + f + "\x5c"; }
    gen::header g = gen::bintable({{"2B", "BEFORE"}, {std::to_string(count) + types[kind], "COL"}, {"1B", "AFTER"}}, 3 + int(size), 3);
    binary_table t(make_header(g.bytes()), data);
    mc::state(g.bytes());
    auto number = [](std::string const& s) { std::uint64_t v = 0; for (unsigned char c : s) v = v << 8 | c; return v; };
    std::size_t n = std::size_t(count);
    if (kind == 0) single<boost::uint8_t>(t, "COL", raw, n, [](std::string const& s) { return boost::uint8_t(s[0]); });
    if (kind == 1) single<char>(t, "COL", raw, n, [](std::string const& s) { return s[0]; });
    if (kind == 2) single<boost::int16_t>(t, "COL", raw, n, [&](std::string const& s) { return boost::int16_t(number(s)); });
    if (kind == 3) single<boost::int32_t>(t, "COL", raw, n, [&](std::string const& s) { return boost::int32_t(number(s)); });
    if (kind == 4) single<float>(t, "COL", raw, n, [&](std::string const& s) { std::uint32_t v = std::uint32_t(number(s)); float f; std::memcpy(&f, &v, 4); return f; });
    if (kind == 5) single<double>(t, "COL", raw, n, [&](std::string const& s) { std::uint64_t v = number(s); double f; std::memcpy(&f, &v, 8); return f; });
}
SCENARIO("unknown types are refused")
{
    mc::split(1);
    int c = 33 + mc::pick(94);
    if (std::strchr("LXBIJAEDCMP", c)) return;
    if (c == '\'') return;
    std::string th = mc::thrown([&] { binary_table::type_size(char(c)); });
    mc::check(th.find("invalid_table_colum_format") != std::string::npos, "type ", char(c), " ", th.empty() ? "has a size" : "threw " + th);
    gen::header g = gen::bintable({{std::string("1") + char(c), "COL1"}}, 4, 1);
    header_t h = make_header(g.bytes());
    th = mc::thrown([&] { binary_table t(h, "abcd"); });
    mc::check(!th.empty(), "a table with a column of type ", char(c), " was accepted");
    mc::state(std::uint64_t(c));
}
SCENARIO("columns that do not fit into the row are refused")
{
    int width = mc::pick(20), rows = 1 + mc::pick(3), missing = mc::pick(3);
    static std::string const letters = "LBIJEDCMP";
    char c = letters[mc::pick(9)];
    std::size_t need = elem_size(c) * 2;
    gen::header g = gen::bintable({{std::string("2") + c, "COL1"}}, width, rows);
    header_t h = make_header(g.bytes());
    std::string data(std::size_t(width) * rows, 'd');
    if (missing && data.size() >= std::size_t(missing)) data.resize(data.size() - missing);
    std::string th = mc::thrown([&] { binary_table t(h, data); });
    mc::state(mc::str(width, rows, missing, c));
    if (data.empty()) return;
    bool ok = need <= std::size_t(width) && data.size() == std::size_t(width) * rows;
    mc::check(th.empty() == ok, ok ? "a table was refused: " + th : "a table whose fields lie outside of its data was accepted");
}
