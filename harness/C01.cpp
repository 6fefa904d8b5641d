// C01: reading a file and writing it again reproduces every HDU.
#include "files.hpp"
using namespace files;

static std::vector<part> const& primaries()
{
    static std::vector<part> v = {
        img(true, 8, {}), img(true, 16, {}), img(true, 8, {5}, 0), img(true, 16, {3, 4}, 3), img(true, 32, {4, 3, 2}, 0),
        img(true, -32, {6, 5}, 3), img(true, -64, {3, 3}, 0), img(true, 16, {0, 7}), img(true, 8, {2880}, 2),
        img(true, 16, {1440}, 1), img(true, -64, {361}, 4), img(true, 32, {1, 1}, 5)};
    return v;
}
static std::vector<part> const& extensions()
{
    static std::vector<part> v = [] {
        std::vector<part> e = {
            bin({{"1J", "A"}, {"8A", "B"}}, 12, 3, 0, 0),
            bin({{"3E", "A"}, {"5X", "B"}, {"L", "C"}}, 14, 4, 0, 3, "NAMED"),
            bin({{"1P", "V"}, {"1M", "M"}}, 24, 2, 37, 0, "HEAPED"),
            bin({{"2P", "V"}}, 16, 2, 2880, 1),
            bin({{"480I", "A"}}, 960, 3, 0, 0),                 // exactly one record
            bin({{"1D", "A"}}, 8, 0, 0, 0),                     // no rows
            bin({{"12A", "TXT"}, {"2B", "BB"}, {"1C", "CC"}}, 22, 5, 0, 2),
            ascii({{"A8", "NAME", 1}, {"I6", "COUNT", 10}, {"F8.3", "X", 20}}, 30, 4),
            ascii({{"D25.17", "D", 3}, {"E12.4", "E", 28}, {"A3", "S", 40}}, 45, 3, "TXT"),
            ascii({{"I4", "A", 1}, {"A4", "B", 5}}, 8, 360),     // exactly one record
            ascii({{"A5", "ONLY", 1}}, 5, 0)};
        return e;
    }();
    return v;
}
static std::string file_of(std::vector<part> const& ps) { std::string f; for (auto const& p : ps) f += p.bytes(); return f; }

static void round_trip(std::vector<part> const& ps, int way)
{
    std::string in = file_of(ps);
    gen::write_file("in.fits", in);
    std::string outname = way == 2 ? "in.fits" : "out.fits";
    if (way == 1) gen::write_file("out.fits", std::string(in.size() + 9000, 'Z'));
    else if (way == 0) std::remove("out.fits");
    auto r = fits::open("in.fits");
    mc::check(r.get_hdu_list().size() == ps.size(), "the file has ", ps.size(), " HDUs but ", r.get_hdu_list().size(), " were read");
    r.write_to(outname);
    std::string out = gen::read_file(outname);
    std::vector<gen::parsed_hdu> w; std::string why;
    if (!gen::parse_file(out, w, why)) mc::fail("the written file is no FITS file: " + why);
    mc::state(mc::hash_str(out));
    // IMAGE and unknown extensions are not carried over (known finding); the others must be
    std::vector<part> expect; std::vector<std::size_t> dropped;
    for (std::size_t k = 0; k < ps.size(); ++k) (ps[k].kind == "image" || ps[k].kind == "other") ? dropped.push_back(k) : expect.push_back(ps[k]);
    if (w.size() == ps.size()) expect = ps;
    else if (!dropped.empty() && w.size() == expect.size())
        for (auto k : dropped) mc::finding(ps[k].kind == "image" ? "image-extension-dropped" : "unknown-extension-dropped",
            mc::str("HDU ", k, " is missing in the written file"));
    mc::check(w.size() == expect.size(), "the written file has ", w.size(), " HDUs instead of ", ps.size());
    for (std::size_t k = 0; k < w.size(); ++k) same_hdu(expect[k], w[k], k);
    // writing again, and reading and writing again, gives the same bytes
    r.write_to("again.fits");
    mc::check(gen::read_file("again.fits") == out, "writing the same HDUs twice gives different files");
    auto r2 = fits::open(outname);
    r2.write_to("third.fits");
    mc::check(gen::read_file("third.fits") == out, "the file written from a written file differs from it");
}
SCENARIO("every sequence of HDUs")
{
    std::vector<part> ps;
    ps.push_back(primaries()[mc::pick(int(primaries().size()))]);
    int n = mc::pick(mc::thorough() ? 4 : 3);
    for (int k = 0; k < n; ++k) ps.push_back(extensions()[mc::pick(int(extensions().size()))]);
    mc::log(ps.size(), " HDUs");
    round_trip(ps, n < 2 ? mc::pick(3) : 0);
}
SCENARIO("IMAGE and unknown extensions among tables")
{
    std::vector<part> ps; ps.push_back(primaries()[mc::pick(3)]);
    static std::vector<part> const odd = {img(false, 16, {4, 3}, 0, "IMG"), img(false, -32, {7}), other("FOREIGN", 100)};
    int at = mc::pick(3);
    std::vector<part> tail = {extensions()[0], extensions()[7]};
    part o = odd[mc::pick(int(odd.size()))];
    tail.insert(tail.begin() + at, o);
    for (auto& t : tail) ps.push_back(t);
    round_trip(ps, 0);
}
SCENARIO("images of every type and shape")
{
    static int const bps[] = {8, 16, 32, -32, -64};
    int bp = bps[mc::pick(5)];
    int dims = 1 + mc::pick(3);
    std::vector<long long> ax;
    for (int d = 0; d < dims; ++d) ax.push_back(mc::pick(d == 0 ? 6 : 4));
    int how = mc::pick(6);
    std::vector<part> ps = {img(true, bp, ax, how)};
    if (mc::flip()) ps.push_back(extensions()[0]);
    round_trip(ps, 0);
}
SCENARIO("table data sizes around the record length")
{
    int kind = mc::pick(4);
    long long rows = mc::thorough() ? mc::pick(740) : 700 + mc::pick(40);
    std::vector<part> ps = {primaries()[0]};
    if (kind == 0) ps.push_back(bin({{"1J", "A"}}, 4, std::size_t(rows), 0));
    if (kind == 1) ps.push_back(ascii({{"A4", "A", 1}}, 4, std::size_t(rows)));
    if (kind == 2) ps.push_back(bin({{"1J", "A"}}, 4, 20, std::size_t(rows > 20 ? rows * 4 - 80 : rows)));
    if (kind == 3) ps[0] = img(true, 32, {rows}, 0);
    ps.push_back(extensions()[0]);
    round_trip(ps, 0);
}
SCENARIO("header cards of every shape survive")
{
    mc::split(1);
    int extra = mc::pick(80);
    part p = primaries()[mc::pick(3)];
    static std::vector<std::string> const odd = {
        "COMMENT   leading blanks / and 'quotes'", "HISTORY", "NOTE    = 'it''s / quoted'      / comment / slash",
        "REAL    =  -1.23456789012345E-12 / real", "CPLX    = (1.5, -2.5)", "UNDEF   = ", "LOGIC   =                    F", "DDD     = 1.0D+10",
        "LONGSTR = '0123456789012345678901234567890123456789012345678901234567890123456'", "", "ENDTIME =                    1", "COMMENT", "         text without keyword",
        "END-OBS = 'x'", "HISTORY = looks like a value", "COMMENT END"};
    for (int k = 0; k < extra; ++k)
    {
        std::string c = odd[std::size_t(k) % odd.size()];
        if (c.size() > 8 && c[8] == '=' && c[0] != 'H' && c[0] != 'E') { std::string key = gen::rpad("K" + std::to_string(k), 8); c.replace(0, 8, key); }
        p.h.raw(c);
    }
    std::vector<part> ps = {p, extensions()[0]};
    for (int k = 0; k < extra % 36; ++k) ps[1].h.text("COMMENT", "filler " + std::to_string(k));
    if (extra % 3 == 1) ps[1].h.raw("").i("ENDED", 1).raw("");
    round_trip(ps, 0);
}
static std::vector<int> const& notable()
{
    static std::vector<int> const v = {99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2880, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000};
    return v;
}
SCENARIO("long chains of extensions")
{
    int n = mc::pick(mc::thorough() ? 48 : 43), step = 1 + mc::pick(mc::thorough() ? 10 : 3);
    static int const more[] = {64, 99, 100, 101, 150, 255, 256, 257};
    n = n < 40 ? 4 + n : more[n - 40];
    std::vector<part> ps = {primaries()[std::size_t(n) % primaries().size()]};
    for (int k = 0; k < n; ++k)
    {
        part p = extensions()[std::size_t(k * step + n) % extensions().size()];
        p.h.i("NUMBER", k); ps.push_back(p);
    }
    round_trip(ps, 0);
}
SCENARIO("tables and images of many rows")
{
    int rows = mc::pick_from(notable()), kind = mc::pick(4);
    std::vector<part> ps = {primaries()[0]};
    if (kind == 0) ps.push_back(bin({{"1I", "A"}, {"1B", "B"}}, 3, std::size_t(rows), 7));
    if (kind == 1) ps.push_back(ascii({{"A3", "A", 1}, {"I1", "B", 4}}, 4, std::size_t(rows)));
    if (kind == 2) ps[0] = img(true, rows % 2 ? 16 : 8, {rows}, 0);
    if (kind == 3) ps.push_back(bin({{"1P", "V"}}, 8, 3, std::size_t(rows)));
    ps.push_back(extensions()[7]);
    round_trip(ps, 0);
}
SCENARIO("tables with long rows and many columns")
{
    static std::vector<int> const count = {9, 10, 11, 98, 99, 100, 101, 255, 256, 257, 998, 999};
    int n = mc::pick_from(count), kind = mc::pick(4);
    std::vector<part> ps = {primaries()[3]};
    static char const* const forms[] = {"1I", "3A", "1J", "2B", "1D"}; static std::size_t const w[] = {2, 3, 4, 2, 8};
    if (kind == 0) { std::vector<gen::bin_col> c; std::size_t row = 0; for (int k = 0; k < n; ++k) { c.push_back({forms[k % 5], "C" + std::to_string(k)}); row += w[k % 5]; } ps.push_back(bin(c, row, 3, 0)); }
    if (kind == 1) { std::vector<gen::asc_col> c; long long at = 1; for (int k = 0; k < n; ++k) { c.push_back({k % 2 ? "I3" : "A4", "C" + std::to_string(k), at}); at += 5; } ps.push_back(ascii(c, std::size_t(at), 3)); }
    if (kind == 2) ps.push_back(bin({{std::to_string(n * 70) + "A", "LONG"}, {"1J", "B"}}, std::size_t(n) * 70 + 4, 2, 3));
    if (kind == 3) { std::vector<gen::asc_col> c = {{"A" + std::to_string(n * 20), "LONG", 2}, {"I4", "N", n * 20 + 3}}; ps.push_back(ascii(c, std::size_t(n) * 20 + 7, 2)); }
    ps.push_back(extensions()[0]);
    round_trip(ps, 0);
}
SCENARIO("headers of many cards")
{
    static std::vector<int> const count = {99, 100, 101, 200, 254, 255, 256, 257, 359, 360, 361, 500, 720, 999, 1000, 1001, 2000};
    int n = mc::pick_from(count), where = mc::pick(3);
    std::vector<part> ps = {primaries()[3], extensions()[0], extensions()[7]};
    for (int k = 0; k < n; ++k)
    {
        if (k % 3 == 0) ps[std::size_t(where)].h.i("K" + std::to_string(k), k); else if (k % 3 == 1) ps[std::size_t(where)].h.text("HISTORY", " step " + std::to_string(k)); else ps[std::size_t(where)].h.s("S" + std::to_string(k), std::string(std::size_t(k % 40), 's'));
    }
    round_trip(ps, 0);
}

SCENARIO("images of many axes")
{
    static int const bps[] = {8, 16, 32, -32, -64};
    int bp = bps[mc::pick(5)], dims = mc::pick(mc::thorough() ? 24 : 13), shape = mc::pick(4);
    if (dims >= 12) { static int const more[] = {50, 98, 99, 100, 101, 254, 255, 256, 257, 500, 998, 999}; dims = more[dims - 12]; }
    std::vector<long long> ax;
    for (int d = 0; d < dims; ++d) ax.push_back(shape == 0 ? 1 : shape == 1 ? (d < 4 ? 2 + d % 2 : 1) : shape == 2 ? (d + 4 >= dims ? 3 : 1) : (d == dims - 1 ? 0 : d < 24 ? 1 + d % 2 : 1));
    std::vector<part> ps = {img(true, bp, ax, 3), extensions()[0]};
    round_trip(ps, 0);
}
SCENARIO("tables without rows, without fields or with empty fields, with a heap")
{
    int rows = mc::pick(3), kind = mc::pick(8); static std::vector<int> const heaps = {0, 1, 7, 2879, 2880, 2881, 6000};
    std::size_t heap = std::size_t(mc::pick_from(heaps)), n = std::size_t(rows);
    std::vector<part> ps = {primaries()[0]};
    if (kind == 0) ps.push_back(bin({{"1P", "V"}, {"3A", "T"}}, 11, n, heap));
    if (kind == 1) ps.push_back(bin({}, 0, n, heap));
    if (kind == 2) ps.push_back(bin({{"0J", "Z"}, {"1I", "A"}, {"0A", "Y"}}, 2, n, heap));
    if (kind == 3) ps.push_back(bin({{"0X", "Z"}}, 0, n, heap));
    if (kind == 4) ps.push_back(bin({{"1B", "B"}}, 1, n, heap));
    if (kind >= 5 && heap) { mc::state(mc::str(rows, kind, heap)); return; }   // these have no heap
    if (kind == 5) ps.push_back(ascii({}, 0, n));
    if (kind == 6) ps.push_back(ascii({}, 12, n));
    if (kind == 7) ps.push_back(ascii({{"A1", "A", 1}}, 1, n));
    ps.push_back(extensions()[7]);
    if (mc::flip()) ps.push_back(bin({{"1P", "V"}}, 8, n, heap));
    round_trip(ps, 0);
}
