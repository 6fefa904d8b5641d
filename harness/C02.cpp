// C02: headers and data lie on 2880-byte records and every HDU is found at its place.
#include "files.hpp"
using namespace files;

static std::string expect_name(part const& p)
{
    return p.kind == "primary" ? "primary_hdu" : p.kind == "bin" ? "BINTABLE" : p.kind == "ascii" ? "TABLE" : p.kind == "image" ? "IMAGE" : "FOREIGN";
}
static void places(std::vector<part> const& ps)
{
    std::string f; std::vector<std::size_t> at, data;
    for (auto const& p : ps) { at.push_back(f.size()); data.push_back(f.size() + p.h.bytes().size()); f += p.bytes(); }
    gen::write_file("in.fits", f);
    mc::state(mc::hash_bytes(at.data(), at.size() * sizeof at[0], mc::hash_bytes(data.data(), data.size() * sizeof data[0], f.size())));
    for (int mode = 0; mode < 2; ++mode)
    {
        auto r = fits::open("in.fits", mode ? reading_options::read_only_headers : reading_options::read_entire_hdus);
        char const* how = mode ? "reading only headers" : "reading entire HDUs";
        auto cb = r.get_control_block_info();
        mc::check(r.get_hdu_list().size() == ps.size(), how, ": ", r.get_hdu_list().size(), " HDUs instead of ", ps.size());
        mc::check(cb.total_hdus() == ps.size(), how, ": total number of HDUs is ", cb.total_hdus());
        mc::check(cb.filepath == "in.fits", how, ": file path is ", cb.filepath);
        for (std::size_t k = 0; k < ps.size(); ++k)
        {
            auto it = cb.hdus_info.find(expect_name(ps[k]));
            mc::check(it != cb.hdus_info.end(), how, ": HDU ", k, " is not listed");
            mc::check(it->second.hdu_index == k, how, ": HDU ", k, " has index ", it->second.hdu_index);
            mc::check(it->second.header_location == at[k], how, ": header of HDU ", k, " is said to be at ", it->second.header_location, " instead of ", at[k]);
            mc::check(it->second.data_location == data[k], how, ": data of HDU ", k, " is said to be at ", it->second.data_location, " instead of ", data[k]);
        }
        if (mode) continue;
        r.write_to("out.fits");
        std::string o = gen::read_file("out.fits");
        mc::check(o.size() % 2880 == 0, "the written file has ", o.size(), " bytes, which is no multiple of 2880");
        std::vector<gen::parsed_hdu> w; std::string why;
        if (!gen::parse_file(o, w, why)) mc::fail("the written file is no FITS file: " + why);
        bool whole = true; for (auto const& p : ps) if (p.kind == "image" || p.kind == "other") whole = false;
        if (!whole) continue;
        mc::check(w.size() == ps.size(), "the written file has ", w.size(), " HDUs");
        for (std::size_t k = 0; k < ps.size(); ++k)
        {
            mc::check(w[k].header_at == at[k] && w[k].data_at == data[k], "HDU ", k, " was written at ", w[k].header_at, "/", w[k].data_at, " instead of ", at[k], "/", data[k]);
            char fill = ps[k].kind == "ascii" ? ' ' : '\0';
            for (char c : w[k].fill) if (c != fill) mc::fail(mc::str("the fill of HDU ", k, " has byte ", int(c)));
        }
    }
}
static part tail_bin() { return bin({{"1J", "A"}}, 4, 3, 0); }
static part tail_asc() { return ascii({{"A8", "NAME", 1}}, 8, 3); }

SCENARIO("every number of header cards in two HDUs")
{
    int n = mc::pick(mc::thorough() ? 150 : 76), m = mc::pick(mc::thorough() ? 40 : 12);
    part p = img(true, 8, {3, 3}); for (int k = 0; k < n; ++k) p.h.text("COMMENT", "c" + std::to_string(k));
    part q = tail_bin(); int more = mc::thorough() ? m : 22 + m; for (int k = 0; k < more; ++k) q.h.text("HISTORY", "h" + std::to_string(k));
    places({p, q, tail_asc()});
}
SCENARIO("every image size around the record length")
{
    static int const bps[] = {8, 16, 32, -32, -64};
    int bp = bps[mc::pick(5)], records = 1 + mc::pick(2), off = mc::pick(9) - 4;
    long long n = records * 2880 / (std::abs(bp) / 8) + off;
    places({img(true, bp, {n}), tail_bin(), tail_asc()});
}
THOROUGH_SCENARIO("every image size up to three records")
{
    mc::split(1);
    int n = mc::pick(8700);
    places({img(true, 8, {n}), tail_bin(), tail_asc()});
}
SCENARIO("every table size")
{
    int kind = mc::pick(3), row = 1 + mc::pick(6), rows = mc::pick(4), rec = mc::pick(3);
    long long total = rec * 2880 / row + rows - 2; if (total < 0) return;
    part t = kind == 0 ? bin({{std::to_string(row) + "B", "A"}}, std::size_t(row), std::size_t(total), 0)
           : kind == 1 ? ascii({{"A" + std::to_string(row), "A", 1}}, std::size_t(row), std::size_t(total))
           : bin({{std::to_string(row) + "A", "A"}}, std::size_t(row), 5, std::size_t(total));
    part u = kind == 1 ? tail_bin() : tail_asc();
    places({img(true, 8, {}), t, u});
}
THOROUGH_SCENARIO("every heap size up to three records")
{
    mc::split(1);
    places({img(true, 16, {}), bin({{"1P", "A"}}, 8, 5, std::size_t(mc::pick(8700))), tail_asc()});
}
SCENARIO("the last HDU ends anywhere in its record")
{
    int kind = mc::pick(4); int n = mc::pick(mc::thorough() ? 2890 : 300);
    if (!mc::thorough() && n > 110) n += 2590;
    std::size_t size = std::size_t(n);
    part t = kind == 0 ? img(true, 8, {n})
           : kind == 1 ? bin({{"1B", "A"}}, 1, size, 0)
           : kind == 2 ? ascii({{"A1", "A", 1}}, 1, size) : bin({{"1B", "A"}}, 1, 3, size);
    if (kind == 0) places({t}); else places({img(true, 8, {}), t});
}
SCENARIO("IMAGE and unknown extensions are stepped over")
{
    static int const bps[] = {8, 16, 32, -32, -64};
    int bp = bps[mc::pick(5)]; int d = mc::pick(4);
    std::vector<long long> ax; for (int k = 0; k < d; ++k) ax.push_back(1 + mc::pick(4) * 5);
    places({img(true, 8, {}), img(false, bp, ax), tail_bin(), other("FOREIGN", 2879 + std::size_t(mc::pick(3))), tail_asc()});
}
SCENARIO("size of the data unit of every header")
{
    static int const bps[] = {8, 16, 32, -32, -64};
    int bp = bps[mc::pick(5)]; int d = mc::pick(4);
    std::vector<long long> ax; for (int k = 0; k < d; ++k) { static int const s[] = {0, 1, 2, 7, 255}; ax.push_back(s[mc::pick(5)]); }
    for (int pc = 0; pc < 6; ++pc) for (int gc = 0; gc < 3; ++gc)
    {
        static int const pcs[] = {-1, 0, 1, 2, 2880, 100000};
        gen::header g = pcs[pc] < 0 ? gen::primary(bp, ax) : gen::extension("FOREIGN", bp, ax, pcs[pc], 1 + gc);
        header_t h = make_header(g.bytes());
        std::size_t n = ax.empty() ? 0 : 1; for (auto a : ax) n *= std::size_t(a);
        if (pcs[pc] >= 0 && !ax.empty()) n = (n + std::size_t(pcs[pc])) * std::size_t(1 + gc);
        std::size_t expect = n * std::size_t(std::abs(bp)) / 8;
        mc::check(h.data_unit_size() == expect, "data unit size is ", h.data_unit_size(), " instead of ", expect);
        mc::state(mc::str(bp, ' ', n, ' ', pc, ' ', gc));
        // without one of the two cards its value is the default
        if (pcs[pc] >= 0) for (int drop = 0; drop < 2; ++drop)
        {
            gen::header e = g; std::vector<std::string> kept; for (auto const& c : e.cards) if (c.compare(0, 8, drop ? "GCOUNT  " : "PCOUNT  ") != 0) kept.push_back(c);
            e.cards = kept; header_t f = make_header(e.bytes());
            std::size_t q = ax.empty() ? 0 : 1; for (auto a : ax) q *= std::size_t(a);
            if (!ax.empty()) q = drop ? q + std::size_t(pcs[pc]) : q * std::size_t(1 + gc);
            mc::check(f.data_unit_size() == q * std::size_t(std::abs(bp)) / 8, "without ", drop ? "GCOUNT" : "PCOUNT", " the data unit size is ", f.data_unit_size());
        }
    }
}
// files of more than 2 and 4 GB (with a hole instead of the pixels), of which only the headers are read
SCENARIO("data units of more than 2 and 4 GB")
{
    static long long const axes[][3] = {{2147483647, 1, 1}, {2147483648, 1, 1}, {1, 2147483649, 1}, {65536, 65536, 1}, {65536, 32768, 1}, {4294967295, 1, 1}, {4294967297, 1, 1}, {46341, 46341, 1}, {70000, 70000, 1}, {1024, 1024, 4096}, {2500, 3000, 300}};
    static int const bps[] = {8, 16, 32, -32, -64};
    int k = mc::pick(11), bp = bps[mc::pick(5)], kind = mc::pick(2);
    std::vector<long long> ax(axes[k], axes[k] + 3);
    gen::header g = kind == 0 ? gen::primary(bp, ax) : gen::extension("IMAGE", bp, ax, 0, 1);
    std::size_t size = std::size_t(ax[0]) * std::size_t(ax[1]) * std::size_t(ax[2]) * std::size_t(std::abs(bp) / 8), records = (size + 2879) / 2880 * 2880;
    header_t h = make_header(g.bytes());
    mc::check(h.data_unit_size() == size, "data unit size is ", h.data_unit_size(), " instead of ", size);
    std::string before = (kind == 0 ? std::string() : img(true, 8, {}).bytes()) + g.bytes(), after = tail_bin().bytes();
    {
        int fd = ::open("big.fits", O_CREAT | O_TRUNC | O_RDWR, 0600);
        bool ok = fd >= 0 && pwrite(fd, before.data(), before.size(), 0) == ssize_t(before.size()) && pwrite(fd, after.data(), after.size(), off_t(before.size() + records)) == ssize_t(after.size());
        if (fd >= 0) ::close(fd);
        if (!ok) { unlink("big.fits"); return; }   // the file system takes no such file
    }
    auto r = fits::open("big.fits", reading_options::read_only_headers);
    auto cb = r.get_control_block_info(); unlink("big.fits");
    mc::check(cb.total_hdus() == std::size_t(kind + 2), "total number of HDUs is ", cb.total_hdus());
    auto it = cb.hdus_info.find("BINTABLE");
    mc::check(it != cb.hdus_info.end() && it->second.header_location == before.size() + records, "the HDU behind ", size, " bytes of data is not found at its place");
    mc::state(mc::str(k, ' ', bp, ' ', kind));
}
SCENARIO("HDUs written one after another into a stream")
{
    // any history of HDUs written into one stream starts each on a record boundary
    std::vector<part> menu = {img(true, 8, {2880}), img(true, 16, {7}), img(true, 8, {}), img(false, -32, {721}), img(false, 8, {1}), tail_bin(), tail_asc(),
        ascii({{"A8", "NAME", 1}}, 8, 360), bin({{"8A", "NAME"}}, 8, 360, 0), bin({{"8A", "NAME"}}, 8, 359, 9)};
    fits_stream s; s.create_file("seq.fits");
    std::string expect; int n = 1 + mc::pick(mc::thorough() ? 4 : 3);
    for (int k = 0; k < n; ++k)
    {
        part const& p = menu[mc::pick(int(menu.size()))];
        header_t h = make_header(p.h.bytes());
        if (p.kind == "primary") { primary_hdu x(h, p.data); x.write_to(s); }
        if (p.kind == "image") { image_extension x(h, p.data); x.write_to(s); }
        if (p.kind == "bin") { binary_table x(h, p.data); x.write_to(s); }
        if (p.kind == "ascii") { ascii_table x(h, p.data); x.write_to(s); }
        expect += p.bytes();
        mc::check(s.get_current_pos() == expect.size(), "after HDU ", k, " the stream is at ", s.get_current_pos(), " instead of ", expect.size());
    }
    s.close();
    std::string o = gen::read_file("seq.fits");
    mc::state(mc::hash_str(expect));
    mc::check(o.size() == expect.size(), "the stream has ", o.size(), " bytes instead of ", expect.size());
    std::vector<gen::parsed_hdu> w; std::string why;
    if (!gen::parse_file(o, w, why)) mc::fail("the written stream is no FITS file: " + why);
    mc::check(int(w.size()) == n, "the stream has ", w.size(), " HDUs instead of ", n);
}
