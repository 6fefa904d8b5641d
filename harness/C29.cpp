// C29: what an operation gives depends on its arguments only, not on the locale of the program or on what was done before.
//
// Every sequence of operations runs in a process of its own; each result is compared with that of the same operation
// alone in a fresh process with the classic locale.
#include "ops.hpp"
#include <locale>
#include <sys/wait.h>
#include <unistd.h>

// numbers of every type in cards and in ASCII text
template <typename T> static void made(std::string& r, T v)   // of types that a card does not give back
{
    card_t c; c.create_card("KEY", v); r += x(c.raw_card()); c.set_value(T(v / 2)); r += x(c.raw_card());
    r += x(ascii_converter::serialize(v)); r += n(ascii_converter::deserialize_to<T>(ascii_converter::serialize(v), 1) == v);
}
template <typename T> static void number(std::string& r, T v)
{
    card_t c; c.create_card("KEY", v, "remark"); r += x(c.raw_card()) + x(c.keyword()) + x(c.value_with_comment());
    T back = c.value<T>(); r += n(back == v);
    card_t p(std::string(c.raw_card())); r += n(p.value<T>() == v);
    c.set_value(T(v / 2)); r += x(c.raw_card());
    r += x(ascii_converter::serialize(v)); r += n(ascii_converter::deserialize_to<T>(ascii_converter::serialize(v), 1) == v);
}
static std::string numbers(input const& i)
{
    std::string r; int v = i.v;
    number<int>(r, 1234567 + v); number<int>(r, -1000 - v); made<short>(r, short(12345 + v)); made<unsigned>(r, 4000000000u + unsigned(v)); made<long>(r, -9876543210l - v); number<long long>(r, 1234567890123456ll + v); made<unsigned long>(r, 12345678901234ul + unsigned(v)); made<unsigned short>(r, 65000); number<int>(r, 7 + v);
    number<double>(r, 1234567.25 + v); number<double>(r, -0.001 - v); number<double>(r, 1.5e300); number<double>(r, 2.5e-7 + v); number<double>(r, 100000 + v); number<float>(r, 1234.5f + v); number<float>(r, 0.1f + v); number<double>(r, 12345678901234567.0);
    for (std::complex<double> z : {std::complex<double>(1234.5 + v, -0.25), std::complex<double>(1e6, 1e-6 + v)}) { card_t c; c.create_card("Z", z); r += x(c.raw_card()) + n(c.value<std::complex<double>>() == z); }
    for (char const* t : {"1234.5", "1,234", "1.234", "1 234", "1'234", "12,5", "-1234567.5E3", "1.5D3", "1234567", "1.234.567", "+5", "0.5", ".5", "5.", "1e5", "T", "F", "1,5", "1", ""})
    {
        std::string s = "KEY     = "; s += t; s.resize(80, ' '); card_t c(s);
        r += refused([&] { r += n(c.value<int>()); }) + refused([&] { r += n(c.value<long long>()); }) + refused([&] { r += x(c.value<double>()); }) + refused([&] { r += x(double(c.value<float>())); }) + refused([&] { r += n(c.value<bool>()); }) + refused([&] { r += x(c.value<std::string>()); }) + refused([&] { r += n((long long)c.value<std::size_t>()); });
        r += refused([&] { r += n(ascii_converter::deserialize_to<int>(t, 1)); }) + refused([&] { r += x(ascii_converter::deserialize_to<double>(t, 1)); }) + refused([&] { r += n((long long)ascii_converter::deserialize_to<std::size_t>(t, 1)); });
    }
    card_t b; b.create_card("FLAG", true); r += x(b.raw_card()) + n(b.value<bool>());
    return r;
}
static std::string big_headers(input const& i)
{
    std::string r;
    part p = img(true, 8, {}); p.h = gen::primary(16, {1234 + i.v, 100000}); p.h.t("BSCALE", "1234.5"); p.h.i("BIG", 1234567 + i.v);
    header_t h = make_header_of(p, i.out + ".h");
    r += n((long long)h.naxis(1)) + n((long long)h.naxis(2)) + n((long long)h.data_size()) + n((long long)h.data_unit_size()) + x(h.value_of<double>("BSCALE")) + n(h.value_of<long long>("BIG")) + n((long long)h.card_count());
    fits_stream w; w.create_file(i.out); h.write_header(w); w.close(); r += x(gen::read_file(i.out));
    part t = bin({{"1200B", "A"}, {"1J", "N"}, {"1D", "X"}}, 1212, 2, 0, i.v); t.h.t("TSCAL2", "1234.5"); t.h.t("TZERO2", "32768.25");
    binary_table b(make_header_of(t, i.out + ".h"), t.data);
    auto m = b.get_column_metadata("N"); r += x(m.TSCAL()) + x(m.TZERO()) + n((long long)m.TBCOL()) + x(m.TFORM()) + n(b.get_column<boost::int32_t>("N")[1]) + x(double(b.get_column<double>("X")[0])) + n(std::vector<boost::uint8_t>(b.get_column<std::vector<boost::uint8_t>>("A")[1])[1199]);
    b.get_column<boost::int32_t>("N")[0] = 1234567 + i.v; b.get_column<double>("X")[1] = 1234.5;
    fits_stream o; o.create_file(i.out); b.write_to(o); o.close(); r += x(gen::read_file(i.out));
    part a = ascii({{"I10", "N", 1}, {"F14.3", "X", 12}, {"E16.8", "Y", 27}, {"D22.15", "Z", 44}}, 1200, 2); a.h.t("TSCAL2", "1234.5"); a.h.t("TZERO2", "-0.5");
    std::string const rows[] = {"   1234567      -1234.500   1.25000000E+06  1.234567890123450D+03", "     -1000          0.125  -2.5000000E-003  -1.0D-3"};
    for (int k = 0; k < 2; ++k) a.data.replace(std::size_t(k) * 1200, 1200, gen::rpad(rows[k], 1200));
    ascii_table s(make_header_of(a, i.out + ".h"), a.data);
    auto show = [&] { for (int k = 0; k < 2; ++k) r += n(s.get_column<long long>("N")[k]) + x(double(s.get_column<double>("X")[k])) + x(double(float(s.get_column<float>("Y")[k]))) + x(double(s.get_column<double>("Z")[k])); };
    show();
    s.get_column<long long>("N")[0] = 7654321 + i.v; s.get_column<double>("X")[1] = 12345.5 + i.v; s.get_column<float>("Y")[0] = 54321.5f; s.get_column<double>("Z")[1] = 1000000.125 + i.v; s.get_column<double>("Z")[0] = 1.0 / 3;
    show();
    auto e = s.get_column_metadata("X"); r += x(e.TSCAL()) + x(e.TZERO()) + n((long long)e.TBCOL()) + x(e.TFORM());
    fits_stream q; q.create_file(i.out); s.write_to(q); q.close(); return r + x(gen::read_file(i.out));
}
static std::vector<op> all_ops()
{
    std::vector<op> v = {{"numbers", numbers}, {"large numbers in headers and tables", big_headers}};
    for (auto const& o : ops) if (std::string(o.name) != "printing") v.push_back(o);   // what is printed follows the locale
    return v;
}
// ---- locales -----------------------------------------------------------------
struct punct : std::numpunct<char>
{
    char point, sep; std::string group, yes, no;
    punct(char p, char s, std::string g, std::string y, std::string n_) : point(p), sep(s), group(g), yes(y), no(n_) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return group; }
    std::string do_truename() const override { return yes; }
    std::string do_falsename() const override { return no; }
};
static int const locale_count = 7;
static std::locale locale_of(int k)
{
    std::locale c = std::locale::classic();
    switch (k)
    {
    case 0: return c;
    case 1: return std::locale(c, new punct(',', '.', "\3", "wahr", "falsch"));
    case 2: return std::locale(c, new punct('.', ',', "\3", "yes", "no"));
    case 3: return std::locale(c, new punct(',', ' ', "\3", "vrai", "faux"));
    case 4: return std::locale(c, new punct(',', '.', "", "T", "F"));
    case 5: return std::locale(c, new punct('.', '\'', "\3", "1", "0"));
    default: return std::locale(c, new punct('.', ',', "\3\2", "F", "T"));
    }
}
// ---- runs in processes of their own --------------------------------------------
static std::string in_process(std::function<std::string()> f)
{
    int p[2]; if (pipe(p)) mc::fail("harness error: pipe");
    pid_t c = fork();
    if (c == 0)
    {
        close(p[0]); std::string r;
        try { r = f(); } catch (std::exception const& e) { r = std::string("exception ") + typeid(e).name() + " " + e.what(); } catch (...) { r = "exception"; }
        std::size_t at = 0; while (at < r.size()) { ssize_t k = write(p[1], r.data() + at, r.size() - at); if (k <= 0) break; at += std::size_t(k); }
        _exit(0);
    }
    close(p[1]); std::string r; char b[65536]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, std::size_t(k));
    close(p[0]); int st = 0; waitpid(c, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("the process that ran the operations crashed");
    return r;
}
static std::string one(op const& o, int v)
{
    input i; i.v = v; i.file = "in.fits"; i.out = "out.fits";
    { std::ofstream f(i.file, std::ios::binary); std::string b = bytes_of(v); f.write(b.data(), std::streamsize(b.size())); }
    try { return o.run(i); } catch (std::exception const& e) { return std::string("exception ") + typeid(e).name() + " " + e.what(); }
}
static std::string reference(int k, int v)
{
    static std::map<std::pair<int, int>, std::string> known;
    auto it = known.find({k, v}); if (it != known.end()) return it->second;
    auto o = all_ops()[std::size_t(k)];
    return known[{k, v}] = in_process([&] { return one(o, v); });
}
struct step { int op, v, loc; };
static void run_steps(std::vector<step> const& s)
{
    auto const o = all_ops();
    std::vector<std::string> expect; for (auto const& t : s) expect.push_back(reference(t.op, t.v));
    std::string got = in_process([&] {
        std::string r;
        for (auto const& t : s) { std::locale::global(locale_of(t.loc)); std::string q = one(o[std::size_t(t.op)], t.v); std::locale::global(std::locale::classic()); r += mc::str(q.size(), '\n') + q; }
        return r; });
    std::size_t at = 0;
    for (std::size_t k = 0; k < s.size(); ++k)
    {
        std::size_t nl = got.find('\n', at); if (nl == std::string::npos) mc::fail("the operations did not end: " + mc::show(got.substr(at, 200)));
        std::size_t len = std::size_t(std::atoll(got.c_str() + at)); std::string q = got.substr(nl + 1, len); at = nl + 1 + len;
        std::size_t d = 0; while (d < q.size() && d < expect[k].size() && q[d] == expect[k][d]) ++d;
        std::size_t from = d > 30 ? d - 30 : 0;
        mc::check(q == expect[k], "step ", k, " (", o[std::size_t(s[k].op)].name, ", data ", s[k].v, ", locale ", s[k].loc, ") gives ", mc::show(q.substr(from, 60)), " instead of ", mc::show(expect[k].substr(from, 60)));
        mc::state(mc::hash_str(mc::str(s[k].op, ' ', s[k].v, ' ', s[k].loc, ' ', k), k ? std::uint64_t(s[k - 1].op * 64 + s[k - 1].v) : 7));
    }
    mc::steps(s.size());
}
SCENARIO("every operation in every locale")
{
    mc::split(1);
    int k = mc::pick(int(all_ops().size()));
    for (int v = 0; v < 3; ++v) { std::string e = reference(k, v); mc::check(e.compare(0, 9, "exception") != 0, all_ops()[std::size_t(k)].name, ": ", e.substr(0, 200)); }
    std::vector<step> s;
    for (int l = 0; l < locale_count; ++l) for (int v = 0; v < (mc::thorough() ? 9 : 3); ++v) s.push_back({k, v, l});
    run_steps(s);
}
SCENARIO("every history of operations")
{
    int const m = int(all_ops().size()); int depth = mc::thorough() ? 3 : 2;
    std::vector<step> s;
    for (int k = 0; k < depth; ++k) { step t; t.op = mc::pick(m); t.v = mc::pick(2); t.loc = 0; s.push_back(t); }
    step back = s[0]; s.push_back(back);   // and the first one again
    run_steps(s);
}
SCENARIO("the locale changes between operations")
{
    int const m = int(all_ops().size());
    step a, b; a.op = mc::pick(m); b.op = mc::pick(m); a.loc = mc::pick(locale_count); b.loc = (a.loc + 1 + mc::pick(mc::thorough() ? locale_count - 1 : 2)) % locale_count; a.v = 0; b.v = 1;
    run_steps({a, b});
}
// objects made in one locale and used in another
SCENARIO("objects outlive the locale they were made in")
{
    int make = mc::pick(locale_count), use = mc::pick(locale_count);
    auto f = [&](int m, int u) {
        return in_process([&] {
            std::string r; auto in = [&](int l) { std::locale::global(locale_of(l)); };
            in(m);
            card_t c, e; c.create_card("REAL", 1234.5); e.create_card("INT", 1234567);
            part a = ascii({{"I10", "N", 1}, {"F14.3", "X", 12}}, 30, 2); a.data = gen::rpad("   1234567      -1234.500", 30) + gen::rpad("     -1000          0.125", 30);
            ascii_table t(make_header_of(a, "o.h"), a.data);
            auto N = t.get_column<long long>("N"); auto X = t.get_column<double>("X"); N[0] = 7654321; X[0] = 4321.5;
            gen::write_file("o.fits", bytes_of(0));
            reader q = fits::open("o.fits");
            in(u);
            r += x(c.value<double>()) + n(e.value<int>()) + x(c.raw_card()) + n(N[0]) + n(N[1]) + x(double(X[0])) + x(double(X[1]));
            X[1] = 98765.25; N[1] = 1234567; c.set_value(54321.5); r += x(c.raw_card());
            in(m);
            r += n(N[1]) + x(double(X[1])) + x(c.value<double>());
            { fits_stream w; w.create_file("o.out"); t.write_to(w); w.close(); } r += x(gen::read_file("o.out"));
            in(u); q.write_to("o.out"); r += x(gen::read_file("o.out"));
            { reader z = fits::open("o.out"); r += n((long long)z.get_hdu_list().size()); }
            return r; });
    };
    std::string e = f(0, 0), g = f(make, use);
    mc::check(e.compare(0, 9, "exception") != 0, e);
    mc::check(g == e, "objects made in locale ", make, " and used in locale ", use, " give ", mc::show(g.substr(0, 200)), " instead of ", mc::show(e.substr(0, 200)));
    mc::state(mc::str(make, ' ', use));
}
