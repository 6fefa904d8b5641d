// C12: damaged files are reported or read consistently; nothing is made up.
#include "files.hpp"
using namespace files;

// a request for more than a gigabyte fails as it does on a small machine
static void* grab(std::size_t n) { if (n > (std::size_t(1) << 30)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n) { return grab(n); }
void* operator new[](std::size_t n) { return grab(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

struct file_def { std::vector<part> ps; std::string bytes; std::vector<std::size_t> at, data; };
static std::vector<file_def> const& defs()
{
    static std::vector<file_def> v = [] {
        std::vector<file_def> d;
        d.push_back({{img(true, 16, {3, 2}, 0), bin({{"1J", "A"}, {"4A", "B"}, {"2D", "C"}}, 24, 3, 5)}});
        d.push_back({{img(true, 8, {}), ascii({{"A8", "NAME", 1}, {"I4", "N", 10}, {"F6.2", "X", 15}}, 20, 3)}});
        d.push_back({{img(true, -32, {720}, 3), img(false, 32, {3}, 0), bin({{"1I", "A"}, {"3X", "B"}}, 3, 2, 0)}});
        d.push_back({{img(true, 32, {721}, 0)}});
        for (auto& f : d) for (auto const& p : f.ps) { f.at.push_back(f.bytes.size()); f.data.push_back(f.bytes.size() + p.h.bytes().size()); f.bytes += p.bytes(); }
        return d;
    }();
    return v;
}
struct summary : boost::static_visitor<std::string>
{
    std::string operator()(boost::blank) const { return "blank"; }
    std::string operator()(primary_hdu& h) const
    {
        std::string s = "primary:";
        switch (int(h.get_header().value_of<int>("BITPIX")))
        {
        case 8: return s + std::to_string(h.get_data<bitpix::B8>().size());
        case 16: return s + std::to_string(h.get_data<bitpix::B16>().size());
        case 32: return s + std::to_string(h.get_data<bitpix::B32>().size());
        case -32: return s + std::to_string(h.get_data<bitpix::_B32>().size());
        case -64: return s + std::to_string(h.get_data<bitpix::_B64>().size());
        }
        return s + "?";
    }
    template <typename T> std::string operator()(T& t) const
    {
        std::string s = "table:";
        for (auto const& r : t.get_data()) { for (auto const& c : r) s += c + "|"; s += "\n"; }
        return s;
    }
};
template <typename R> static std::string digest(R& r, std::size_t n)
{
    std::string s;
    for (std::size_t k = 0; k < n; ++k) { summary v; s += boost::apply_visitor(v, r[int(k)]) + ";"; }
    return s;
}
// opens; "" or the exception; the number of HDUs and what they hold
static std::string open_it(std::string const& path, bool headers, std::size_t& hdus, std::string& what, bool write)
{
    hdus = 0; what.clear();
    return mc::thrown([&] {
        auto r = fits::open(path, headers ? reading_options::read_only_headers : reading_options::read_entire_hdus);
        hdus = r.get_hdu_list().size();
        what = digest(r, hdus);
        if (write)
        {
            std::string th = mc::thrown([&] { r.write_to("w.fits"); });
            if (th == "unknown") mc::fail("writing a damaged file threw something that is no std::exception");
        }
    });
}
SCENARIO("a file cut off at every length")
{
    int which = mc::pick(int(defs().size())); auto const& d = defs()[std::size_t(which)];
    int block = mc::pick(64);
    std::size_t lo = d.bytes.size() * std::size_t(block) / 64, hi = d.bytes.size() * std::size_t(block + 1) / 64;
    std::size_t n; std::string full[2];
    gen::write_file("cut.fits", d.bytes);
    for (int m = 0; m < 2; ++m) { std::string th = open_it("cut.fits", m, n, full[m], false); mc::check(th.empty() && n == d.ps.size(), "the whole file was not read: ", th); }
    for (std::size_t len = lo; len < hi; ++len)
    {
        gen::write_file("cut.fits", d.bytes.substr(0, len));
        // how many HDUs are complete, headers and headers with data
        std::size_t heads = 0, whole = 0, boundary = 0;
        for (std::size_t k = 0; k < d.ps.size(); ++k)
        {
            std::size_t end_card = d.at[k] + (d.ps[k].h.cards.size() + 1) * 80;
            if (len >= end_card) heads = k + 1;
            if (len >= (d.ps[k].data.empty() ? end_card : d.data[k] + d.ps[k].data.size())) { whole = k + 1; }
            if (len >= d.at[k]) boundary = k; // HDUs that end before the HDU the cut is in
        }
        for (int m = 0; m < 2; ++m)
        {
            std::string what; std::string th = open_it("cut.fits", m, n, what, false);
            mc::check(th != "unknown", "an exception that is no std::exception");
            if (th.empty())
            {
                mc::check(n <= d.ps.size(), "more HDUs than the file has");
                mc::check(full[m].compare(0, what.size(), what) == 0, "a file cut off at ", len, " was read as something else than its beginning");
                if (m == 0) mc::check(n == whole, "of a file cut off at ", len, " of ", d.bytes.size(), ", ", n, " HDUs were read although ", whole, " are complete");
                if (m == 1) mc::check(n <= heads, "of a file cut off at ", len, ", ", n, " headers were read although ", heads, " are complete");
                // nothing may be dropped silently: the cut must be within the fill of the last HDU or at its end
                if (m == 0) mc::check(len == 0 || (whole == boundary + 1) || len == d.at[boundary], "a file cut off at ", len, " within HDU ", boundary, " was read without an error");
            }
            else if (m == 0)
            {
                bool complete = len > 0 && len % 2880 == 0 && (whole == boundary + 1 || len == d.at[boundary]);
                mc::check(!complete, "a file that ends with HDU ", whole, " complete was refused: ", th);
            }
        }
        mc::steps(1);
    }
    mc::state(mc::str(which, ' ', block));
}
SCENARIO("a file whose size shrinks to every record count is never longer after writing")
{
    int which = mc::pick(int(defs().size())); auto const& d = defs()[std::size_t(which)];
    int rec = mc::pick(int(d.bytes.size() / 2880 + 1));
    gen::write_file("cut.fits", d.bytes.substr(0, std::size_t(rec) * 2880));
    std::size_t n; std::string what; open_it("cut.fits", false, n, what, true);
    mc::state(mc::str(which, rec));
}
static std::vector<int> const& bytes_tried()
{
    static std::vector<int> q = {0, '\'', ' ', '9', '-', 'A', '/', '=', 0xff, '1', 'T', '.'}, all;
    if (mc::thorough() && all.empty()) for (int k = 0; k < 256; ++k) all.push_back(k);
    return mc::thorough() ? all : q;
}
SCENARIO("every header byte replaced")
{
    // quick: the bytes of every card that carries a value, in every header
    int which = mc::pick(int(defs().size()) - 1); auto const& d = defs()[std::size_t(which)];
    int hdu = mc::pick(int(d.ps.size()));
    int card = mc::pick(int(d.ps[std::size_t(hdu)].h.cards.size()) + 1);
    std::size_t base = d.at[std::size_t(hdu)] + std::size_t(card) * 80;
    std::string f = d.bytes;
    for (std::size_t c = 0; c < (mc::thorough() ? 80u : 32u); ++c)
    {
        char old = f[base + c];
        for (int b : bytes_tried())
        {
            if (char(b) == old) continue;
            f[base + c] = char(b);
            gen::write_file("bad.fits", f);
            for (int m = 0; m < 2; ++m)
            {
                std::size_t n; std::string what; std::string th = open_it("bad.fits", m, n, what, m == 0);
                mc::check(th != "unknown", "an exception that is no std::exception");
                if (th.empty()) mc::check(n <= d.bytes.size() / 2880, "more HDUs than records");
            }
            mc::steps(1);
        }
        f[base + c] = old;
    }
    mc::state(mc::str(which, ' ', hdu, ' ', card));
}
SCENARIO("numbers in structural cards replaced")
{
    // values that are negative, huge, empty, no number
    static std::vector<std::string> const vals = {"-1", "0", "1", "2", "7", "64", "9999", "2147483648", "99999999999", "18446744073709551615", "1e3", "x", "", "'5'", "T", "-32", "1.5"};
    int which = mc::pick(3); auto d = defs()[std::size_t(which)];
    int hdu = mc::pick(int(d.ps.size()));
    auto& cards = d.ps[std::size_t(hdu)].h.cards; int card = mc::pick(int(cards.size()));
    gen::parsed_card q = gen::parse_card(cards[std::size_t(card)]);
    std::string old = cards[std::size_t(card)];
    for (auto const& v : vals)
    {
        if (q.key == "TFIELDS" && v.size() > 8) continue; // merely a huge allocation
        cards[std::size_t(card)] = gen::raw_card(q.key, gen::lpad(v, 20));
        std::string f; for (auto const& p : d.ps) f += p.bytes();
        gen::write_file("bad.fits", f);
        for (int m = 0; m < 2; ++m)
        {
            std::size_t n; std::string what; std::string th = open_it("bad.fits", m, n, what, m == 0);
            mc::check(th != "unknown", "an exception that is no std::exception");
        }
        mc::steps(1); mc::state(mc::str(which, hdu, card, v));
    }
    cards[std::size_t(card)] = old;
}
SCENARIO("every card dropped, doubled or moved to the end")
{
    int which = mc::pick(3); auto d = defs()[std::size_t(which)];
    int hdu = mc::pick(int(d.ps.size())); auto& cards = d.ps[std::size_t(hdu)].h.cards;
    int card = mc::pick(int(cards.size())); int how = mc::pick(3);
    std::string c = cards[std::size_t(card)];
    if (how == 0) cards.erase(cards.begin() + card);
    if (how == 1) cards.insert(cards.begin() + card, c);
    if (how == 2) { cards.erase(cards.begin() + card); cards.push_back(c); }
    std::string f; for (auto const& p : d.ps) f += p.bytes();
    gen::write_file("bad.fits", f);
    for (int m = 0; m < 2; ++m)
    {
        std::size_t n; std::string what; std::string th = open_it("bad.fits", m, n, what, m == 0);
        mc::check(th != "unknown", "an exception that is no std::exception");
        std::string key = gen::parse_card(c).key;
        bool mandatory = key == "BITPIX" || key == "NAXIS" || key == "TFIELDS" || key.compare(0, 5, "TFORM") == 0 || key.compare(0, 5, "TBCOL") == 0;
        if (key.compare(0, 5, "NAXIS") == 0) mandatory = true;
        if (how == 0 && mandatory) mc::check(!th.empty(), "a header without ", key, " was accepted");
    }
    mc::state(mc::str(which, hdu, card, how));
}
SCENARIO("files that are no FITS files")
{
    mc::split(1);
    int k = mc::pick(12); std::string f;
    switch (k)
    {
    case 0: f = "x"; break; case 1: f = std::string(2880, ' '); break; case 2: f = std::string(2880, '\0'); break;
    case 3: f = std::string(28800, 'A'); break; case 4: f = gen::rpad("END", 2880); break; case 5: f = std::string(5760, '='); break;
    case 6: f = gen::rpad("SIMPLE  =                    T", 80) + gen::rpad("END", 2800); break;
    case 7: f = std::string(79, 'S'); break; case 8: f = std::string("\n") + defs()[0].bytes; break;
    case 9: f = defs()[0].bytes + "trailing"; break; case 10: f = std::string(2880, '\xff'); break; case 11: f = defs()[0].bytes.substr(80); break;
    }
    gen::write_file("bad.fits", f);
    for (int m = 0; m < 2; ++m)
    {
        std::size_t n; std::string what; std::string th = open_it("bad.fits", m, n, what, m == 0);
        mc::check(th != "unknown", "an exception that is no std::exception");
        mc::check(!th.empty(), "a file that is no FITS file was opened (case ", k, ")");
    }
    mc::state(std::uint64_t(k));
}
SCENARIO("more axes than a header has cards for")
{
    mc::split(1);
    static std::vector<std::string> const counts = {"2", "3", "8", "100", "998", "999", "1000", "1001", "9999", "65536", "1000000"};
    int which = mc::pick(3); auto d = defs()[std::size_t(which)];
    int hdu = mc::pick(int(d.ps.size())), gap = mc::pick(2); std::string const& v = mc::pick_from(counts);
    auto& cards = d.ps[std::size_t(hdu)].h.cards; bool more = false;
    std::size_t had = 0; for (auto const& c : cards) { std::string key = gen::parse_card(c).key; if (key.compare(0, 5, "NAXIS") == 0 && key.size() > 5) ++had; }
    for (auto& c : cards) if (gen::parse_card(c).key == "NAXIS") { c = gen::raw_card("NAXIS", gen::lpad(v, 20)); more = std::stoul(v) > had; }
    if (gap) cards.insert(cards.end(), 40, gen::rpad("COMMENT filler", 80));
    std::string f; for (auto const& p : d.ps) f += p.bytes();
    gen::write_file("bad.fits", f);
    for (int m = 0; m < 2; ++m)
    {
        std::size_t n; std::string what; std::string th = open_it("bad.fits", m, n, what, false);
        mc::check(th != "unknown", "an exception that is no std::exception");
        if (more) mc::check(!th.empty(), "a header with NAXIS = ", v, " and ", had, " NAXISn cards was accepted");
    }
    mc::state(mc::str(which, hdu, v, gap));
}
SCENARIO("long headers that never end")
{
    mc::split(1);
    static std::vector<int> const counts = {0, 1, 10, 32, 33, 34, 35, 36, 60, 95, 96, 97, 98, 99, 100, 101, 140, 141, 142, 143, 144, 145, 500, 5000};
    int fill = mc::pick_from(counts), second = mc::pick(2), kind = mc::pick(2), pad = mc::pick(3);
    part good = defs()[0].ps[0], bad = second ? defs()[0].ps[1] : defs()[0].ps[0];
    std::string f = second ? good.bytes() : std::string(), h; for (auto const& c : bad.h.cards) h += c;
    for (int k = 0; k < fill; ++k) h += kind ? gen::raw_card("K" + std::to_string(k), gen::lpad(std::to_string(k), 20)) : gen::rpad("COMMENT filler", 80);
    if (pad == 1) h += gen::raw_card("ENDX", gen::lpad("1", 20));
    if (pad == 2) h += std::string((2880 - h.size() % 2880) % 2880, ' ');
    gen::write_file("bad.fits", f + h);
    for (int m = 0; m < 2; ++m)
    {
        std::size_t n; std::string what; std::string th = open_it("bad.fits", m, n, what, false);
        mc::check(th != "unknown", "an exception that is no std::exception");
        mc::check(!th.empty(), "a header without END was accepted (", fill, " further cards)");
    }
    mc::state(mc::str(fill, second, kind, pad));
}
SCENARIO("tables given less data than their header describes")
{
    bool b = mc::flip(), set = mc::flip(); std::size_t rows = 1 + std::size_t(mc::pick(4));
    part p = b ? bin({{"1J", "A"}, {"3A", "B"}, {"1I", "C"}}, 9 + std::size_t(mc::pick(2)), rows, 0)
               : ascii({{"A5", "NAME", 1}, {"I3", "N", 7}}, 9 + std::size_t(mc::pick(2)), rows);
    std::size_t n = 1 + std::size_t(mc::pick(int(p.row * rows)));
    header_t h = make_header(p.h.bytes());
    std::string why;
    if (b) why = mc::thrown([&] { if (set) { binary_table t(h, p.data); t.set_data(p.data.substr(0, n)); } else binary_table t(h, p.data.substr(0, n)); });
    else why = mc::thrown([&] { if (set) { ascii_table t(h, p.data); t.set_data(p.data.substr(0, n)); } else ascii_table t(h, p.data.substr(0, n)); });
    mc::state(mc::str(b, set, rows, n));
    if (n < p.row * rows) mc::check(!why.empty(), "a table of ", rows, " rows of ", p.row, " bytes was made of ", n, " bytes");
    else mc::check(why.empty(), "a table of ", rows, " rows of ", p.row, " bytes was refused: ", why);
}
