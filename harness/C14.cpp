// C14: after any history of operations a reader shows exactly the HDUs of its file.
#include "files.hpp"
using namespace files;
typedef decltype(fits::open("")) reader;

struct file_def { std::string path; std::vector<part> ps; };
static std::vector<file_def> const& defs()
{
    static std::vector<file_def> v = {
        {"a.fits", {img(true, 16, {3, 2}, 0), bin({{"1J", "A"}, {"4A", "B"}}, 8, 3, 5), ascii({{"A8", "NAME", 1}, {"I4", "N", 10}}, 14, 2)}},
        {"b.fits", {img(true, -32, {4}, 3), ascii({{"F6.2", "X", 2}}, 8, 4)}},
        {"c.fits", {img(true, 8, {}, 0)}}};
    return v;
}
static std::string name_of(part const& p) { return p.kind == "primary" ? "primary_hdu" : p.kind == "bin" ? "BINTABLE" : "TABLE"; }

static void same_header(header_t h, part const& p, std::size_t k)
{
    mc::check(h.card_count() == p.h.cards.size() + 1 || h.card_count() == p.h.cards.size(), "HDU ", k, " has ", h.card_count(), " cards");
    for (auto const& c : p.h.cards)
    {
        gen::parsed_card q = gen::parse_card(c);
        if (!q.has_value) continue;
        mc::check(h.contains_keyword(q.key), "HDU ", k, " lost ", q.key);
        std::string v = h.value_of<std::string>(q.key);
        mc::check(gen::trim(v) == gen::trim(q.value), q.key, " of HDU ", k, " is ", v, " instead of ", q.value);
    }
}
static void same_hdu_now(reader& r, std::size_t k, part const& p, bool data)
{
    auto& x = r[int(k)];
    auto& y = r[name_of(p)];
    mc::check(&x == &y, "index ", k, " and name ", name_of(p), " give different HDUs");
    if (p.kind == "primary")
    {
        auto& h = fits::convert_to<primary_hdu>(x); same_header(h.get_header(), p, k);
        mc::check(h.is_simple() && h.is_extended(), "SIMPLE/EXTEND of the primary HDU");
        std::size_t n = 0;
        switch (std::atoi(gen::parse_card(p.h.cards[1]).value.c_str()))
        {
        case 8: n = h.get_data<bitpix::B8>().size(); break;
        case 16: { auto d = h.get_data<bitpix::B16>(); n = d.size() * 2; for (std::size_t i = 0; i < d.size(); ++i) mc::check(d(0, i) == gen::from_be<boost::int16_t>(p.data, 2 * i), "pixel ", i); break; }
        case -32: { auto d = h.get_data<bitpix::_B32>(); n = d.size() * 4; break; }
        }
        mc::check(n == (data ? p.data.size() : 0), "the primary HDU has ", n, " bytes of pixels");
    }
    else if (p.kind == "bin")
    {
        auto& t = fits::convert_to<binary_table>(x); same_header(t.get_header(), p, k);
        mc::check(t.get_data().size() == (data ? p.rows : 0), "the binary table has ", t.get_data().size(), " rows");
        if (data) for (std::size_t i = 0; i < p.rows; ++i)
        {
            boost::int32_t v = t.get_column<boost::int32_t>("A")[int(i)];
            mc::check(v == gen::from_be<boost::int32_t>(p.data, i * p.row), "cell A of row ", i, " is ", v);
        }
    }
    else
    {
        auto& t = fits::convert_to<ascii_table>(x); same_header(t.get_header(), p, k);
        mc::check(t.get_data().size() == (data ? p.rows : 0), "the ASCII table has ", t.get_data().size(), " rows");
        if (data) for (std::size_t i = 0; i < p.rows; ++i) for (std::size_t c = 0; c < p.cols.size(); ++c)
            mc::check(t.get_data()[i][c] == gen::trim(p.data.substr(i * p.row + std::size_t(p.cols[c].tbcol) - 1, form_width(p.cols[c].form))), "cell ", c, " of row ", i);
    }
}
struct model { int file = -1; bool read = false, data = false; };
static void compare(reader& r, model const& m)
{
    if (m.file < 0) return;
    auto const& d = defs()[std::size_t(m.file)];
    std::size_t n = m.read ? d.ps.size() : 0;
    auto cb = r.get_control_block_info();
    mc::check(r.get_hdu_list().size() == n, "the reader holds ", r.get_hdu_list().size(), " HDUs instead of ", n);
    mc::check(cb.total_hdus() == n, "the control block lists ", cb.total_hdus(), " HDUs instead of ", n);
    mc::check(cb.filepath == d.path, "the control block names ", cb.filepath);
    std::size_t at = 0;
    for (std::size_t k = 0; k < n; ++k)
    {
        same_hdu_now(r, k, d.ps[k], m.data);
        auto i = cb.hdus_info.at(name_of(d.ps[k]));
        mc::check(i.hdu_index == k && i.header_location == at && i.data_location == at + d.ps[k].h.bytes().size(), "place of HDU ", k);
        at += d.ps[k].bytes().size();
    }
    for (int k : {int(n), int(n) + 7, -1})
        mc::check(mc::thrown([&] { r[k]; }).find("out_of_range") != std::string::npos, "index ", k, " did not throw out_of_range");
    for (std::string s : {"IMAGE", "primary", "", "Table"})
        mc::check(mc::thrown([&] { r[s]; }).find("out_of_range") != std::string::npos, "name ", s, " did not throw out_of_range");
    if (n == 0) mc::check(mc::thrown([&] { r[std::string("primary_hdu")]; }).find("out_of_range") != std::string::npos, "an unread HDU was found by name");
}
SCENARIO("every history of a reader")
{
    for (auto const& d : defs()) { std::string f; for (auto const& p : d.ps) f += p.bytes(); gen::write_file(d.path, f); }
    { std::string f; for (auto const& p : defs()[0].ps) f += p.bytes(); gen::write_file("cut.fits", f.substr(0, f.size() - 3000)); }
    std::remove("missing.fits");
    reader r; model m; std::string trace;
    int depth = mc::thorough() ? 6 : 5;
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::pick(9); trace += char('a' + op);
        if (op < 3) { r.initialize(defs()[std::size_t(op)].path); m = model(); m.file = op; mc::log("initialize ", defs()[std::size_t(op)].path); }
        else if (op == 3) { mc::check(!mc::thrown([&] { r.initialize("missing.fits"); }).empty(), "a missing file was opened"); m = model(); mc::log("initialize missing"); }
        else if (op == 4 || op == 5)
        {
            mc::log(op == 4 ? "read_only_headers" : "read_entire_hdus");
            if (m.file < 0) { mc::thrown([&] { op == 4 ? r.read_only_headers() : r.read_entire_hdus(); }); m = model(); }
            else
            {
                op == 4 ? r.read_only_headers() : r.read_entire_hdus();
                if (!m.read) { m.read = true; m.data = op == 5; }
            }
        }
        else if (op == 8)
        {
            mc::log("open a file that is cut off"); r.initialize("cut.fits"); m = model();
            mc::check(!mc::thrown([&] { r.read_entire_hdus(); }).empty(), "a file that is cut off was read");
        }
        else if (op == 6) { reader t(std::move(r)); r = std::move(t); mc::log("move"); }
        else
        {
            mc::log("write");
            if (m.file >= 0 && m.read && m.data)
            {
                r.write_to("w.fits");
                std::vector<gen::parsed_hdu> w; std::string why;
                if (!gen::parse_file(gen::read_file("w.fits"), w, why)) mc::fail("the written file is no FITS file: " + why);
                auto const& ps = defs()[std::size_t(m.file)].ps;
                mc::check(w.size() == ps.size(), "the written file has ", w.size(), " HDUs");
                for (std::size_t k = 0; k < ps.size(); ++k) same_hdu(ps[k], w[k], k);
            }
            else if (m.file >= 0 && !m.read)
            {
                r.write_to("w.fits");
                mc::check(gen::read_file("w.fits").empty(), "a reader without HDUs wrote a file that is not empty");
            }
        }
        mc::state(mc::str(m.file, m.read, m.data));
        compare(r, m);
    }
    mc::state(trace);
}
SCENARIO("opening in one call is the same as the steps")
{
    auto const& d = defs()[std::size_t(mc::pick(3))]; bool data = mc::flip();
    std::string f; for (auto const& p : d.ps) f += p.bytes();
    gen::write_file(d.path, f);
    reader r = fits::open(d.path, data ? reading_options::read_entire_hdus : reading_options::read_only_headers);
    model m; m.read = true; m.data = data; m.file = int(&d - &defs()[0]);
    compare(r, m);
    mc::state(mc::str(m.file, m.data));
    reader e = fits::open(d.path);
    m.data = true; compare(e, m);
    mc::check(!mc::thrown([] { fits::open("nowhere/x.fits"); }).empty(), "a missing file was opened");
}
SCENARIO("the returned HDU list is a copy")
{
    auto const& d = defs()[std::size_t(mc::pick(3))]; int edit = mc::pick(3);
    std::string f; for (auto const& p : d.ps) f += p.bytes();
    gen::write_file(d.path, f);
    reader r = fits::open(d.path); model m; m.read = m.data = true; m.file = int(&d - &defs()[0]);
    if (mc::flip()) compare(r, m); // with column views in use
    {
        auto l = r.get_hdu_list();
        for (auto& h : l)
        {
            if (auto* b = boost::get<binary_table>(&h)) { if (edit) { b->get_column<boost::int32_t>("A")[0] = 77; boost::int32_t v = b->get_column<boost::int32_t>("A")[0]; mc::check(v == 77, "edit of a copy was lost"); } }
            if (auto* a = boost::get<ascii_table>(&h)) { if (edit == 2) a->get_data()[0][0] = "zz"; }
        }
    }
    reader q = fits::open(d.path);
    compare(q, m); compare(r, m);
    mc::state(mc::str(m.file, edit));
}
SCENARIO("files with several extensions of one type")
{
    // each HDU must be reachable by index; the control block should list all of them
    int n = 2 + mc::pick(3); int kind = mc::pick(2);
    std::vector<part> ps = {img(true, 8, {})};
    for (int k = 0; k < n; ++k)
    {
        if (kind == 0) ps.push_back(bin({{"1J", "A"}}, 4, std::size_t(k) + 1, 0, k % 4, "E" + std::to_string(k)));
        else ps.push_back(ascii({{"A8", "NAME", 1}}, 8, std::size_t(k) + 1, "E" + std::to_string(k)));
    }
    std::string f; for (auto const& p : ps) f += p.bytes();
    gen::write_file("multi.fits", f);
    reader r = fits::open("multi.fits");
    mc::check(r.get_hdu_list().size() == ps.size(), "the reader holds ", r.get_hdu_list().size(), " HDUs instead of ", ps.size());
    for (int k = 1; k <= n; ++k)
    {
        auto h = kind == 0 ? fits::convert_to<binary_table>(r[k]).get_header() : fits::convert_to<ascii_table>(r[k]).get_header();
        same_header(h, ps[std::size_t(k)], std::size_t(k));
        std::size_t rows = kind == 0 ? fits::convert_to<binary_table>(r[k]).get_data().size() : fits::convert_to<ascii_table>(r[k]).get_data().size();
        mc::check(rows == std::size_t(k), "HDU ", k, " has ", rows, " rows");
    }
    mc::state(mc::str(n, kind));
    std::size_t total = r.get_control_block_info().total_hdus();
    if (total != ps.size())
    {
        mc::check(total == 2, "the control block lists ", total, " HDUs instead of ", ps.size());
        mc::finding("same-type-collision", mc::str("a file with ", n, " extensions of one type: the control block lists ", total, " HDUs instead of ", ps.size()));
    }
}

SCENARIO("two readers side by side")
{
    for (auto const& d : defs()) { std::string f; for (auto const& p : d.ps) f += p.bytes(); gen::write_file(d.path, f); }
    reader r[2]; model m[2]; std::string trace;
    int depth = mc::thorough() ? 5 : 4;
    for (int s = 0; s < depth; ++s)
    {
        int k = mc::pick(2), op = mc::pick(4); trace += char('a' + 4 * k + op);
        if (op < 2) { r[k].initialize(defs()[std::size_t(op)].path); m[k] = model(); m[k].file = op; mc::log("reader ", k, " initialize ", defs()[std::size_t(op)].path); }
        else
        {
            mc::log("reader ", k, op == 2 ? " read_only_headers" : " read_entire_hdus");
            if (m[k].file < 0) mc::thrown([&] { op == 2 ? r[k].read_only_headers() : r[k].read_entire_hdus(); });
            else { op == 2 ? r[k].read_only_headers() : r[k].read_entire_hdus(); if (!m[k].read) { m[k].read = true; m[k].data = op == 3; } }
        }
        for (int j : {0, 1}) compare(r[j], m[j]);
    }
    mc::state(trace);
}
SCENARIO("lookup by name in files whose extension types repeat")
{
    int n = 1 + mc::pick(mc::thorough() ? 7 : 5); bool entire = mc::flip();
    std::vector<part> ps = {img(true, 8, {3})}; std::vector<std::size_t> at; std::string f, trace;
    std::map<std::string, std::size_t> last; bool repeats = false;
    for (int k = 0; k < n; ++k)
    {
        bool b = mc::flip(); trace += b ? 'b' : 'a';
        if (b) ps.push_back(bin({{"1J", "A"}}, 4, std::size_t(k) + 1, 0, k % 4, "E" + std::to_string(k)));
        else ps.push_back(ascii({{"A8", "NAME", 1}}, 8, std::size_t(k) + 1, "E" + std::to_string(k)));
    }
    for (std::size_t k = 0; k < ps.size(); ++k) { at.push_back(f.size()); f += ps[k].bytes(); repeats = repeats || last.count(name_of(ps[k])); last[name_of(ps[k])] = k; }
    gen::write_file("mixed.fits", f);
    reader r = fits::open("mixed.fits", entire ? reading_options::read_entire_hdus : reading_options::read_only_headers);
    mc::state(trace); mc::log(trace);
    mc::check(r.get_hdu_list().size() == ps.size(), "the reader holds ", r.get_hdu_list().size(), " HDUs instead of ", ps.size());
    for (std::size_t k = 1; k < ps.size(); ++k)
    {
        bool b = ps[k].kind == "bin";
        same_header(b ? fits::convert_to<binary_table>(r[int(k)]).get_header() : fits::convert_to<ascii_table>(r[int(k)]).get_header(), ps[k], k);
    }
    auto cb = r.get_control_block_info();
    // of the extensions of one type only the last is listed (a known finding); whatever is listed must be right
    if (cb.total_hdus() != ps.size()) mc::check(repeats && cb.total_hdus() == last.size(), "the control block lists ", cb.total_hdus(), " HDUs");
    for (auto const& e : cb.hdus_info)
    {
        std::size_t k = e.second.hdu_index;
        mc::check(k < ps.size(), "the control block lists HDU ", k, " of ", ps.size());
        mc::check(e.second.header_location == at[k] && e.second.data_location == at[k] + ps[k].h.bytes().size(), e.first, " is listed at the place of another HDU than ", k);
        mc::check(&r[e.first] == &r[int(k)], "the name ", e.first, " gives another HDU than ", k);
        if (last.count(e.first)) mc::check(name_of(ps[k]) == e.first, e.first, " is the name of HDU ", k, ", which is a ", name_of(ps[k]));
    }
    for (auto const& l : last)
    {
        auto& x = r[l.first];
        std::size_t k = 0; while (k < ps.size() && &x != &r[int(k)]) ++k;
        mc::check(k < ps.size() && name_of(ps[k]) == l.first, "the name ", l.first, " gives HDU ", k);
        if (cb.total_hdus() != ps.size()) mc::check(k == l.second, "the name ", l.first, " gives HDU ", k, " instead of the last one, ", l.second);
    }
}

SCENARIO("files of many HDUs")
{
    static std::vector<int> const count = {8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513};
    int n = mc::pick_from(count), kind = mc::pick(3); bool entire = mc::flip();
    std::vector<part> ps = {img(true, 8, {3})}; std::string f;
    for (int k = 1; k < n; ++k)
    {
        bool b = kind == 0 || (kind == 2 && k % 3 == 0);
        // some fill their records to the last byte
        std::size_t rows = k % 11 == 5 ? (b ? 720 : 360) : std::size_t(k % 7) + 1;
        ps.push_back(b ? bin({{"1J", "A"}}, 4, rows, 0, k % 4, "E" + std::to_string(k)) : ascii({{"A8", "NAME", 1}}, 8, rows, "E" + std::to_string(k)));
    }
    for (auto const& p : ps) f += p.bytes();
    gen::write_file("many.fits", f);
    reader r = fits::open("many.fits", entire ? reading_options::read_entire_hdus : reading_options::read_only_headers);
    mc::state(mc::str(n, kind, entire));
    mc::check(r.get_hdu_list().size() == ps.size(), "the reader holds ", r.get_hdu_list().size(), " HDUs instead of ", ps.size());
    for (std::size_t k = 1; k < ps.size(); ++k)
    {
        bool b = ps[k].kind == "bin";
        same_header(b ? fits::convert_to<binary_table>(r[int(k)]).get_header() : fits::convert_to<ascii_table>(r[int(k)]).get_header(), ps[k], k);
        std::size_t rows = b ? fits::convert_to<binary_table>(r[int(k)]).get_data().size() : fits::convert_to<ascii_table>(r[int(k)]).get_data().size();
        mc::check(rows == (entire ? ps[k].rows : 0), "HDU ", k, " has ", rows, " rows");
    }
    mc::check(!mc::thrown([&] { r[n]; }).empty(), "an HDU behind the last one was given");
}

SCENARIO("a file that is replaced and opened again under its name")
{
    // the reader must show the file as it is when it is opened
    static char const* const path = "again.fits";
    reader r; model m; std::string trace; int on_disk = mc::pick(3); int depth = mc::thorough() ? 6 : 5;
    auto put = [&](int k, bool rename) {
        std::string f; for (auto const& p : defs()[std::size_t(k)].ps) f += p.bytes();
        gen::write_file(rename ? "new.fits" : path, f); if (rename) std::rename("new.fits", path); };
    put(on_disk, false);
    // a reader with the file open reads what the file held at that time only if nothing is written into it: replace only before it is opened again
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::pick(5); trace += char('0' + op);
        if (op < 3)
        {
            if (op > 0) { on_disk = (on_disk + 1) % 3; put(on_disk, op == 2); mc::log(op == 2 ? "replace by rename" : "rewrite in place"); }
            r.initialize(path); m = model(); m.file = on_disk; mc::log("initialize");
        }
        else
        {
            if (m.file < 0) throw mc::prune();
            mc::log(op == 3 ? "read_only_headers" : "read_entire_hdus");
            op == 3 ? r.read_only_headers() : r.read_entire_hdus(); if (!m.read) { m.read = true; m.data = op == 4; }
        }
        mc::state(mc::str(on_disk, m.read, m.data));
        if (m.file >= 0)
        {
            auto const& d = defs()[std::size_t(m.file)]; std::size_t n = m.read ? d.ps.size() : 0;
            mc::check(r.get_control_block_info().filepath == path, "the control block names ", r.get_control_block_info().filepath);
            mc::check(r.get_hdu_list().size() == n && r.get_control_block_info().total_hdus() == n, "the reader holds ", r.get_hdu_list().size(), " HDUs instead of ", n);
            for (std::size_t k = 0; k < n; ++k) same_hdu_now(r, k, d.ps[k], m.data);
        }
    }
    mc::state(trace);
}
